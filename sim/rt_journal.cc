// C24: documents written one after another, in a journal that outlives the processes
#include "rt.hpp"
#include <algorithm>
#include <memory>

using namespace sim;

// The journal file: `disk.got` is what the operating system has, the first
// `synced` bytes of it survive a power failure.
struct Rec { size_t type; Val v; std::string doc; size_t begin; };
struct Journal
{
    Drain disk;
    size_t synced = 0;
    std::vector<Rec> recs; // committed, in file order
    bool closed = false;   // no more writers
    std::vector<const Type *> types;
    size_t size() const { return recs.empty() ? 0 : recs.back().begin + recs.back().doc.size() + 1; }
    void check(const char *when) const
    {
        size_t p = 0;
        for (auto &r : recs)
        {
            CHECK(disk.got.compare(p, r.doc.size(), r.doc) == 0 && disk.got.size() > p + r.doc.size() && disk.got[p + r.doc.size()] == '\n', "earlier-data-changed", "%s: a committed document is now %s instead of %s", when, esc(disk.got.substr(p, r.doc.size() + 1), 300).c_str(), esc(r.doc, 300).c_str());
            p += r.doc.size() + 1;
        }
    }
};
// what the object writes when nothing happened before
static std::string fresh_doc(const Type &t, const Val &v, const Par &p)
{
    Par q = p;
    q.keep = nullptr;
    return plain_bytes(*make(t, v), q, "send-failed");
}
// a document as written next to others
static void check_written(const Type &t, const Val &v, const Par &p, const std::string &doc, const char *how)
{
    check_document("document-damaged", t, doc, persistent(t, v), p);
    CHECK(doc.find_first_of("\r\n") == std::string::npos, "line-break", "%s: the document contains a line break: %s", t.name().c_str(), esc(doc, 300).c_str());
    std::string f = fresh_doc(t, v, p);
    CHECK(f == doc, "history-in-document", "%s to %s (%s) writes %s; a new object with the same fields, new parameters and an empty sink %s", t.name().c_str(), how, par_text(p).c_str(), esc(doc, 300).c_str(), esc(f, 300).c_str());
    CHECK(!p.use || p.err.code == 0, "stale-error", "%s to %s succeeds with error code %d (%s)", t.name().c_str(), how, p.err.code, p.err.message.c_str());
}
// read one line; `whole`: it is a complete document holding v
static void read_line(const Type &t, Obj &o, const std::string &line, const Val *v, std::shared_ptr<void> *keep, const char *who)
{
    Src s;
    random_src(s, line);
    if (t.array && s.kind == S_STD) s.kind = S_MEM;
    Par q = random_par();
    q.keep = keep;
    Result r = deser(o, s, q);
    if (!v)
    {
        CHECK(r.r != R_OK, "torn-accepted", "%s accepts the incomplete line %s", who, esc(line, 300).c_str());
        CHECK(r.r == R_FAIL, "unexpected-exception", "%s: %s for the incomplete line %s", who, r.what.c_str(), esc(line, 300).c_str());
        CHECK(!q.use || q.err.code != 0, "failure-without-error", "%s: no error code for the incomplete line %s", who, esc(line, 300).c_str());
        count("probe.torn_rejected");
        o.clear();
        return;
    }
    CHECK(r.r == R_OK, "line-rejected", "%s rejects a committed line: %s %s (%d %s at %d:%d): %s", who, RES_NAME[r.r], r.what.c_str(), q.err.code, q.err.message.c_str(), q.err.line, q.err.column, esc(line, 400).c_str());
    CHECK(!q.use || q.err.code == 0, "stale-error", "%s accepts a line with error code %d (%s)", who, q.err.code, q.err.message.c_str());
    expect_value("line-wrong", o, persistent(t, *v), who);
    count("probe.line_read");
}
// restart: find the complete lines, judge the rest
static void recover(Journal &j, const std::vector<Rec> &torn)
{
    auto &f = j.disk.got;
    std::shared_ptr<void> keep;
    std::vector<ObjP> o;
    for (auto t : j.types) o.push_back(make(*t));
    size_t p = 0, n = 0;
    std::vector<Rec> all = j.recs;
    for (auto &r : torn) all.push_back(r); // may have reached the file completely
    j.recs.clear();
    for (size_t e; (e = f.find('\n', p)) != std::string::npos; p = e + 1, ++n)
    {
        std::string line = f.substr(p, e - p);
        CHECK(n < all.size() && line == all[n].doc, "earlier-data-changed", "line %zu of the journal is %s after a restart instead of %s", n, esc(line, 300).c_str(), n < all.size() ? esc(all[n].doc, 300).c_str() : "nothing");
        Rec r = all[n];
        r.begin = p;
        j.recs.push_back(r);
        if (choose(3)) { o[r.type]->clear(); read_line(*j.types[r.type], *o[r.type], line, &r.v, choose(2) ? &keep : nullptr, "recovery"); }
    }
    if (p == f.size()) return;
    // the tail
    std::string tail = f.substr(p);
    CHECK(n < all.size() && all[n].doc.compare(0, tail.size(), tail) == 0, "torn-tail-wrong", "the last line of the journal begins %s, the document being written %s", esc(tail, 300).c_str(), n < all.size() ? esc(all[n].doc, 300).c_str() : "nothing");
    const Rec &r = all[n];
    bool whole = tail.size() == r.doc.size();
    count(whole ? "fault.line_break_lost" : "fault.torn_line");
    Obj &x = *o[r.type];
    x.clear();
    read_line(*j.types[r.type], x, tail, whole ? &r.v : nullptr, choose(2) ? &keep : nullptr, "recovery");
    if (whole && choose(2)) { Rec c = r; c.begin = p; f += '\n'; j.recs.push_back(c); }
    else f.resize(p);
}
struct Writer
{
    Journal &j;
    std::vector<ObjP> o;
    std::vector<Val> v;
    std::shared_ptr<void> keep;
    Par last;
    std::vector<Rec> torn;  // written, perhaps incompletely, but not committed
    explicit Writer(Journal &j) : j(j) { for (auto t : j.types) { o.push_back(make(*t)); v.push_back(absent(*t)); } }

    void change(size_t k)
    {
        const Type &t = *j.types[k];
        size_t nf = t.array ? 1 : t.d->fields.size();
        uint32_t n = 1 + choose(4);
        for (uint32_t i = 0; i < n; ++i)
        {
            uint32_t op = choose(8);
            GenCfg g;
            g.budget = 8;
            g.small_text = choose(2) == 1;
            if (op < 5 && nf)
            {
                size_t fi = choose((uint32_t)nf);
                FieldDesc whole = { "", "", K_MSG, true, false, t.d };
                const FieldDesc &f = t.array ? whole : t.d->fields[fi];
                Val x;
                if (choose(4) == 3) { if (f.kind == K_MSG && !f.repeated) x = absent_msg(*f.msg); }
                else x = gen_field(f, g);
                o[k]->set_field(fi, x, choose(12));
                if (t.array) { v[k] = x; v[k].present = !x.a.empty(); } else { v[k].a[fi] = x; normalise(*t.d, v[k]); }
            }
            else if (op == 5) { o[k]->clear(); v[k] = absent(t); }
            else if (op == 6)
            {   // continue from a document of the journal
                std::vector<const Rec *> c;
                for (auto &r : j.recs) if (r.type == k) c.push_back(&r);
                if (c.empty()) continue;
                const Rec r = *pick(c);
                o[k]->clear();
                read_line(t, *o[k], r.doc, &r.v, &keep, "writer");
                v[k] = persistent(t, r.v);
            }
            else { g.budget = choose(8) == 7 ? 160 : 25; if (choose(8) == 7) g.big = 300; v[k] = gen(t, g); o[k]->set(v[k]); }
        }
    }
    // an object that cannot be encoded, for the same sink; true if there was one
    bool poison(size_t k, Snk &s)
    {
        const Type &t = *j.types[k];
        GenCfg g;
        g.budget = 10;
        g.bad_utf8 = true;
        Val b = persistent(t, gen(t, g));
        if (texts_valid(t, b)) return false;
        Par p;
        p.ascii = true;
        if (choose(3)) p.keep = &keep;
        Result r = ser(*make(t, b), s, p);
        CHECK(r.r == R_FAIL || (r.r == R_THROW && s.kind == O_STD), "incomplete-success", "%s with invalid UTF-8 and ensure_ascii to %s: %s %s", t.name().c_str(), SNK_NAME[s.kind], RES_NAME[r.r], r.what.c_str());
        count("fault.unencodable_value");
        return true;
    }
    Par params()
    {
        Par p = random_par();
        if (choose(4))
        {
            p.keep = &keep;
            if (choose(2)) { p.use = true; p.ascii = last.ascii; p.nulls = last.nulls; } // as before
            if (p.use) last = p;
        }
        return p;
    }
    // straight into the file; false: this process is gone
    bool direct(uint32_t n, SnkKind kind)
    {
        struct File
        {
            OutBuf b;
            std::ostream s;
            explicit File(Drain &d) : b(d), s(&b) {}
        };
        static const uint32_t A[] = { 0, 1, 7, 64, 512, 4096 };
        j.disk.area = pick(A);
        std::unique_ptr<File> f(new File(j.disk));
        uint32_t style = choose(4);
        auto reopen = [&] {
            f.reset(new File(j.disk));
            if (style & 1) f->s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
            if (style & 2) f->s << std::hex << std::showbase;
        };
        reopen();
        for (uint32_t i = 0; i < n; ++i)
        {
            size_t k = choose((uint32_t)o.size());
            change(k);
            const Type &t = *j.types[k];
            if (choose(6) == 5)
            {
                Snk s;
                s.kind = kind;
                s.drain = &j.disk;
                s.os = &f->s;
                size_t base = j.disk.got.size();
                if (poison(k, s))
                {
                    if (kind == O_STD) { f->s.exceptions(std::ios_base::goodbit); f->s.flush(); }
                    CHECK(j.disk.got.size() >= base, "earlier-data-changed", "the sink shrank from %zu to %zu bytes", base, j.disk.got.size());
                    j.check("after a value that cannot be encoded");
                    j.disk.got.resize(j.size());
                    if (kind == O_STD && choose(2)) reopen();
                }
            }
            Par p = params();
            std::string want = fresh_doc(t, v[k], p);
            torn.push_back(Rec{ k, v[k], want, 0 });
            bool crash = false, full = false, mem = false;
            for (int attempt = 0;; ++attempt)
            {
                size_t base = kind == O_STD ? f->b.accepted().size() : j.disk.got.size();
                uint32_t fault = attempt ? 0 : choose(8);
                crash = fault == 5;
                full = fault == 6;
                mem = fault == 7;
                if (crash || full)
                {
                    j.disk.limit = base + choose((uint32_t)want.size() + 2);
                    j.disk.mode = crash || kind != O_STD ? 1 : (int)choose(2);
                }
                if (mem) alloc_plan(choose(3) == 2 ? ALLOC_PERSIST : ALLOC_ONCE, choose(30));
                Snk s;
                s.kind = kind;
                s.drain = &j.disk;
                s.os = &f->s;
                Result r = ser(*o[k], s, p);
                bool fired = mem && alloc_fired();
                alloc_plan(ALLOC_OFF, 0);
                if (fired) count("fault.alloc");
                std::string all = kind == O_STD ? f->b.accepted() : j.disk.got;
                CHECK(all.size() >= base, "earlier-data-changed", "the sink shrank from %zu to %zu bytes", base, all.size());
                std::string doc = all.substr(base);
                bool ok = r.r == R_OK;
                if (ok && !j.disk.failed) check_written(t, v[k], p, doc, SNK_NAME[kind]);
                if (ok && j.disk.failed && kind != O_STD) fail("incomplete-success", "success after a failed write");
                if (!ok && !fired && !j.disk.failed) fail("spurious-failure", "serialization of %s fails without a fault: %s %s (%d %s)", t.name().c_str(), RES_NAME[r.r], r.what.c_str(), p.err.code, p.err.message.c_str());
                if (!ok) CHECK(doc.size() <= want.size() && want.compare(0, doc.size(), doc) == 0, "partial-wrong", "a failed serialization leaves %s, the document is %s", esc(doc, 300).c_str(), esc(want, 300).c_str());
                if (ok)
                {   // end of line, flush
                    if (kind == O_STD)
                    {
                        try { f->s << '\n'; f->s.flush(); ok = f->s.good(); }
                        catch (const std::exception &) { ok = false; }
                    }
                    else
                        try { char c = '\n'; j.disk.put(&c, 1); } catch (const StreamFault &) { ok = false; }
                }
                if (crash)
                {
                    if (!j.disk.failed) { count("fault.crash_between"); if (ok) commit(k, want); }
                    else count("fault.crash_while_writing");
                    return false;
                }
                j.disk.limit = (size_t)-1;
                j.disk.failed = false;
                if (ok) break;
                log("attempt to append fails (%s), cut back to %zu", RES_NAME[r.r], j.size());
                // give up what was buffered, cut the file back and try again
                j.disk.got.resize(j.size());
                reopen();
                j.check("after a failed attempt");
            }
            commit(k, want);
            CHECK(j.disk.got.size() == j.size(), "document-damaged", "the journal has %zu bytes instead of %zu after a document was added", j.disk.got.size(), j.size());
            if (choose(3) == 2) { j.synced = j.disk.got.size(); count("probe.sync"); }
            if (choose(3) == 2) sleep_for(1 + choose(20));
        }
        j.check("end of a process");
        return true;
    }
    void commit(size_t k, const std::string &doc)
    {
        j.recs.push_back(Rec{ k, v[k], doc, j.size() });
        torn.clear();
    }
    // several documents in memory, then to the file in pieces
    bool batches(uint32_t n, SnkKind kind)
    {
        std::string batch;
        size_t cap = 0;
        std::unique_ptr<char, void (*)(void *)> block(nullptr, ::free);
        if (kind == O_BUF)
        {
            static const size_t C[] = { 4000, 600, 200, 1000, 64 };
            cap = pick(C);
            block.reset((char *)calloc(1, cap));
        }
        for (uint32_t i = 0; i < n; ++i)
        {
            size_t k = choose((uint32_t)o.size());
            change(k);
            const Type &t = *j.types[k];
            if (kind != O_BUF && choose(6) == 5)
            {
                Snk s;
                s.kind = kind;
                s.pre = batch;
                if (poison(k, s)) CHECK(s.got.compare(0, batch.size(), batch) == 0, "earlier-data-changed", "%s: the sink held %s, after a value that cannot be encoded it holds %s", SNK_NAME[kind], esc(batch, 300).c_str(), esc(s.got, 300).c_str());
            }
            Par p = params();
            std::string want = fresh_doc(t, v[k], p);
            for (int attempt = 0;; ++attempt)
            {
                SnkKind form = kind == O_BUF && want.size() >= cap ? O_STRING : kind;
                bool mem = attempt == 0 && choose(5) == 4;
                if (mem) alloc_plan(choose(3) == 2 ? ALLOC_PERSIST : ALLOC_ONCE, choose(form == O_BUF ? 8 : 20));
                Snk s;
                s.kind = form;
                s.pre = batch;
                if (choose(3) == 2) s.reserve = batch.size() + choose(400);
                if (form == O_BUF)
                {
                    memset(block.get(), 0, cap);
                    memcpy(block.get(), batch.data(), batch.size());
                    s.buf = block.get() + batch.size();
                    s.cap = cap - batch.size();
                }
                Result r = ser(*o[k], s, p);
                bool fired = mem && alloc_fired();
                alloc_plan(ALLOC_OFF, 0);
                if (fired) count("fault.alloc");
                std::string all = form == O_BUF ? std::string(block.get(), cap) : s.got;
                CHECK(all.compare(0, batch.size(), batch) == 0 && all.size() >= batch.size(), "earlier-data-changed", "%s: the sink held %s, after %s it holds %s", SNK_NAME[form], esc(batch, 300).c_str(), RES_NAME[r.r], esc(all, 300).c_str());
                std::string doc = all.substr(batch.size());
                if (form == O_BUF)
                {
                    size_t e = doc.find('\0');
                    std::string rest = e == std::string::npos ? "" : doc.substr(e);
                    if (r.r == R_OK) CHECK(rest.find_first_not_of('\0') == std::string::npos, "document-damaged", "bytes after the document in a character buffer: %s", esc(rest, 100).c_str());
                    doc.resize(e == std::string::npos ? doc.size() : e);
                }
                if (r.r == R_OK)
                {
                    check_written(t, v[k], p, doc, SNK_NAME[form]);
                    batch += doc + '\n';
                    torn.push_back(Rec{ k, v[k], doc, 0 });
                    break;
                }
                CHECK(doc.size() <= want.size() && want.compare(0, doc.size(), doc) == 0, "partial-wrong", "a failed serialization leaves %s, the document is %s", esc(doc, 300).c_str(), esc(want, 300).c_str());
                bool small = form == O_BUF && s.cap < want.size();
                if (!fired && !small) fail("spurious-failure", "serialization of %s to %s fails without a fault: %s %s (%d %s)", t.name().c_str(), SNK_NAME[form], RES_NAME[r.r], r.what.c_str(), p.err.code, p.err.message.c_str());
                if (small) { count("fault.buffer_full"); if (!flush(batch)) return false; }
            }
            if (kind == O_BUF ? batch.size() >= cap : choose(3) == 2)
                if (!flush(batch)) return false;
        }
        return flush(batch);
    }
    bool flush(std::string &batch)
    {
        size_t done = 0;
        while (done < batch.size())
        {
            size_t n = 1 + choose((uint32_t)(batch.size() - done));
            if (n < batch.size() - done) count("fault.short_write");
            j.disk.got.append(batch, done, n);
            done += n;
            if (choose(24) == 23) { count("fault.crash_while_writing"); return false; }
            if (choose(4) == 3) sleep_for(1 + choose(10));
        }
        std::vector<Rec> t;
        t.swap(torn);
        for (auto &r : t) { r.begin = j.size(); j.recs.push_back(r); }
        batch.clear();
        CHECK(j.disk.got.size() == j.size(), "document-damaged", "the journal has %zu bytes instead of %zu after documents were added", j.disk.got.size(), j.size());
        if (choose(2)) { j.synced = j.disk.got.size(); count("probe.sync"); }
        return true;
    }
};
SCENARIO(C24)
{
    Journal j;
    const Type &first = pick_type();
    j.types.push_back(&first);
    for (uint32_t n = choose(3); n > 0; --n) j.types.push_back(&pick_type_of(first.d->model));
    uint32_t readers = choose(3), lives = 1 + choose(4);
    log("journal of %s and %zu more, %u readers, %u lives", first.name().c_str(), j.types.size() - 1, readers, lives);
    for (uint32_t i = 0; i < readers; ++i)
        spawn([&j, i] {
            std::vector<ObjP> o;
            for (auto t : j.types) o.push_back(make(*t));
            std::shared_ptr<void> keep;
            size_t next = 0;
            for (;;)
            {
                // only what is safe is followed
                while (next < j.recs.size() && j.recs[next].begin + j.recs[next].doc.size() < j.synced)
                {
                    Rec r = j.recs[next++];
                    std::string line = j.disk.got.substr(r.begin, j.disk.got.find('\n', r.begin) - r.begin);
                    CHECK(line == r.doc, "earlier-data-changed", "reader %u: line %zu is %s instead of %s", i, next - 1, esc(line, 300).c_str(), esc(r.doc, 300).c_str());
                    size_t k = r.type;
                    o[k]->clear();
                    if (line.size() > 1 && choose(6) == 5) read_line(*j.types[k], *o[k], line.substr(0, choose((uint32_t)line.size())), nullptr, &keep, "reader");
                    read_line(*j.types[k], *o[k], line, &r.v, &keep, "reader");
                    log("reader %u: line %zu", i, next - 1);
                }
                if (j.closed) return;
                sleep_for(1 + choose(30));
            }
        });
    for (uint32_t life = 0; life < lives; ++life)
    {
        Writer w(j);
        static const SnkKind K[] = { O_STD, O_STRING, O_VECTOR, O_CUSTOM, O_ITER, O_BUF };
        SnkKind kind = pick(K);
        uint32_t n = 1 + choose(6);
        j.disk.limit = (size_t)-1;
        j.disk.failed = false;
        log("process %u writes %u documents to %s", life, n, SNK_NAME[kind]);
        bool alive = kind == O_STD || kind == O_CUSTOM || kind == O_ITER ? w.direct(n, kind) : w.batches(n, kind);
        if (!alive)
        {
            log("process %u crashes, %zu documents committed", life, j.recs.size());
            if (choose(2))
            {   // power failure: a part of what was not synced is lost
                count("fault.power_failure");
                size_t keep = j.synced + choose((uint32_t)(j.disk.got.size() - j.synced) + 1);
                j.disk.got.resize(keep);
            }
            count("fault.crash");
            std::vector<Rec> torn = w.torn;
            recover(j, torn);
            j.synced = j.disk.got.size();
        }
        sleep_for(choose(40));
    }
    j.synced = j.disk.got.size();
    j.closed = true;
    join_all();
    recover(j, {});
    logx("journal", j.disk.got);
    count("probe.documents", j.recs.size());
}
