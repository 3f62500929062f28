// C01 round trip, C02 truncation, C03 complete output, C08 agreement, C11 standard JSON
#include "rt.hpp"
#include <cstring>

using namespace sim;

static GenCfg cfg()
{
    GenCfg g;
    static const int B[] = { 12, 4, 30, 80 };
    g.budget = pick(B);
    g.sparse = choose(4) == 3;
    if (choose(12) == 11)
    {   // now and then beyond any buffer on the way
        static const int L[] = { 700, 700, 5000, 70000 };
        g.big = choose(4) ? L[0] : pick(L);
    }
    return g;
}
static void log_value(const char *what, const Type &t, const Val &v) { logx(what, show(t, v)); }

// ------------------------------------------------------------------ C01
static void received(const char *kind, const Type &t, Obj &rx, const Val &sent, const char *where)
{
    Val want = persistent(t, sent);
    expect_value(kind, rx, want, where);
    ObjP e = make(t, want);
    CHECK(rx.equal(*e) && e->equal(rx), kind, "%s: the received %s does not compare equal to the sent one", where, t.name().c_str());
}
static void direct(const Type &t)
{
    GenCfg g = cfg();
    Val v = gen(t, g);
    log_value("send", t, v);
    ObjP tx = make(t, v);
    uint32_t hops = 1 + choose(3);
    Val cur = v;
    for (uint32_t h = 0; h < hops; ++h)
    {
        Par p = random_par();
        Snk k;
        std::string ref;
        k.kind = (SnkKind)choose(O_N);
        if (k.kind == O_BUF) { ref = plain_bytes(*tx, p, "send-failed"); random_snk(k, ref.size() + choose(3), k.kind); }
        else random_snk(k, 0, k.kind);
        Result r = ser(*tx, k, p);
        CHECK(r.r == R_OK, "send-failed", "%s to %s with %s: %s %s %s", t.name().c_str(), SNK_NAME[k.kind], par_text(p).c_str(), RES_NAME[r.r], r.what.c_str(), p.err.message.c_str());
        std::string doc = k.kind == O_BUF ? k.got.substr(0, ref.size()) : k.got;
        logx("document", doc);
        ObjP rx = make(t);
        Src s;
        random_src(s, doc);
        Par q = random_par();
        r = deser(*rx, s, q);
        log("%s -> %s: %s", SNK_NAME[k.kind], SRC_NAME[s.kind], RES_NAME[r.r]);
        CHECK(r.r == R_OK, "receive-failed", "%s from %s: %s %s (%s at %d:%d): %s", t.name().c_str(), SRC_NAME[s.kind], RES_NAME[r.r], r.what.c_str(), q.err.message.c_str(), q.err.line, q.err.column, esc(doc, 400).c_str());
        received("altered", t, *rx, cur, "after the exchange");
        cur = persistent(t, cur);
        tx = std::move(rx);
    }
}
// A connection: the bytes of one document, delivered over simulated time.
struct Conn : Feed
{
    size_t arrived = 0;
    bool closed = false, broken = false;
    size_t fill(size_t pos) override
    {
        Harness h;
        if (arrived <= pos && !closed) block_until([&] { return arrived > pos || closed; });
        if (arrived > pos) return arrived - pos;
        if (broken) { faulted = true; throw StreamFault(); }
        return 0;
    }
};
static void network()
{
    struct Link { std::shared_ptr<Conn> c; };
    uint32_t n = 1 + choose(3), per = 1 + choose(3);
    count("probe.network_runs");
    std::vector<std::function<void()>> rxs;
    for (uint32_t i = 0; i < n; ++i)
    {
        const Type *t = &pick_type();
        if (t->array) t = find_type("core.Mid"); // std::istream only
        uint32_t loss = choose(4);
        spawn([t, per, loss] {
            for (uint32_t m = 0; m < per; ++m)
            {
                GenCfg g;
                g.budget = 14;
                Val v = gen(*t, g);
                ObjP tx = make(*t, v);
                Par p = random_par();
                std::string doc = plain_bytes(*tx, p, "send-failed");
                log("send %s %zu bytes", t->name().c_str(), doc.size());
                ObjP rx = make(*t);
                bool done = false;
                for (uint32_t attempt = 0; attempt < 6 && !done; ++attempt)
                {
                    auto c = std::make_shared<Conn>();
                    c->data = doc;
                    c->end = doc.size();
                    size_t reach = doc.size();
                    bool breaks = false;
                    if (attempt < 5 && loss && choose(4) < loss) { reach = choose((uint32_t)doc.size()); breaks = choose(2) == 1; count("fault.connection_lost"); }
                    // packets
                    uint64_t at = 0;
                    for (size_t o = 0; o < reach;)
                    {
                        size_t len = std::min<size_t>(reach - o, 1 + choose(choose(3) == 2 ? 3 : 60));
                        at += choose(40);
                        o += len;
                        after(at, [c, o] { if (o > c->arrived) c->arrived = o; });
                        if (choose(8) == 7) { count("fault.duplicate"); after(at + choose(60), [c, o] { if (o > c->arrived) c->arrived = o; }); }
                        count("fault.fragment");
                    }
                    after(at + 1, [c, breaks] { c->broken = breaks; c->closed = true; });
                    Src s;
                    s.kind = choose(3) == 2 ? S_ITER : S_STD;
                    s.feed = c.get();
                    s.skipws = choose(2) == 0;
                    s.unbuffered = choose(4) == 3;
                    Par q = random_par();
                    Result r = deser(*rx, s, q);
                    log("attempt %u reach %zu/%zu: %s", attempt, reach, doc.size(), RES_NAME[r.r]);
                    if (reach == doc.size())
                    {
                        CHECK(r.r == R_OK, "receive-failed", "%s over the network: %s %s (%s): %s", t->name().c_str(), RES_NAME[r.r], r.what.c_str(), q.err.message.c_str(), esc(doc, 400).c_str());
                        received("altered", *t, *rx, v, "after the exchange over the network");
                        done = true;
                    }
                    else
                    {
                        CHECK(r.r != R_OK, "truncated-accepted", "%s: %zu of %zu bytes accepted: %s", t->name().c_str(), reach, doc.size(), esc(doc, 400).c_str());
                        rx->clear();
                        sleep_for(1 + choose(50));
                    }
                }
                CHECK(done, "no-progress", "the document never arrived");
            }
        });
    }
    join_all();
}
SCENARIO(C01)
{
    if (choose(5) == 4) network();
    else
    {
        uint32_t n = 1 + choose(4);
        for (uint32_t i = 0; i < n; ++i) direct(pick_type());
    }
}

// ------------------------------------------------------------------ C02
SCENARIO(C02)
{
    const Type &t = pick_type();
    GenCfg g = cfg();
    if (g.budget > 30) g.budget = 30;
    if (g.big > 5000) g.big = 5000;
    Val v = gen(t, g);
    std::string doc;
    Val want = persistent(t, v);
    if (choose(2) == 0)
    {
        Par p = random_par();
        doc = plain_bytes(*make(t, v), p, "send-failed");
        if (choose(4) == 3) doc = "\n " + doc;
    }
    else { EncCfg c; c.unknown = (int)choose(3); c.budget = 40; doc = json_encode(t, v, c); }
    size_t last = doc.find_last_of("}]");
    logx("document", doc);
    std::vector<size_t> cuts;
    if (doc.size() <= 48) for (size_t i = 0; i <= last; ++i) cuts.push_back(i);
    else
    {
        for (size_t i = 0; i < 6; ++i) cuts.push_back(last - i);
        for (int i = 0; i < 24; ++i) cuts.push_back(choose((uint32_t)last + 1));
    }
    count("probe.cut_points", cuts.size());
    ObjP o = make(t);
    size_t retry = choose((uint32_t)cuts.size());
    for (size_t i = 0; i < cuts.size(); ++i)
    {
        size_t cut = cuts[i];
        Src s;
        random_src(s, doc);
        s.exc = std::ios_base::goodbit;
        s.feed->end = cut;
        if ((s.kind == S_STD || s.kind == S_CUSTOM || s.kind == S_ITER) && choose(3) == 2) s.feed->tail = 1;
        if (s.kind == S_STD && choose(4) == 3)
        {
            static const std::ios_base::iostate E[] = { std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit, std::ios_base::badbit | std::ios_base::eofbit };
            s.exc = pick(E);
        }
        if (s.kind == S_STD && !t.array && choose(16) == 15) { s.prefailed = true; s.exc = std::ios_base::goodbit; cut = 0; count("fault.stream_already_failed"); }
        Par q = random_par();
        Result r = deser(*o, s, q);
        CHECK(r.r != R_OK, "truncated-accepted", "%s from %s: %zu of %zu bytes accepted: %s", t.name().c_str(), SRC_NAME[s.kind], cut, doc.size(), esc(doc.substr(0, cut), 400).c_str());
        if (r.r == R_FAIL && q.use)
        {
            std::string got = doc.substr(0, cut);
            CHECK(q.err.code != 0, "failure-without-error", "%s from %s cut at %zu: failure reported with code OK: %s", t.name().c_str(), SRC_NAME[s.kind], cut, esc(got, 300).c_str());
            CHECK(position_inside(got, q.err.line, q.err.column), "position-outside", "%s from %s cut at %zu: error %d at %d:%d is outside the text '%s'", t.name().c_str(), SRC_NAME[s.kind], cut, q.err.code, q.err.line, q.err.column, esc(got, 300).c_str());
        }
        o->clear();
        if (i == retry || choose(8) == 7)
        {
            expect_value("clear-incomplete", *o, absent(t), "after a failed attempt and clear()");
            Src f;
            random_src(f, doc);
            Par qf = random_par();
            Result rf = deser(*o, f, qf);
            CHECK(rf.r == R_OK, "retry-rejected", "%s from %s after a cut at %zu: %s %s (%s): %s", t.name().c_str(), SRC_NAME[f.kind], cut, RES_NAME[rf.r], rf.what.c_str(), qf.err.message.c_str(), esc(doc, 400).c_str());
            expect_value("retry-wrong", *o, want, "complete document after a failed attempt");
            o->clear();
        }
    }
    log("%zu cuts rejected", cuts.size());
}

// ------------------------------------------------------------------ C03
static std::string bytes_of(Snk &k, const std::string &ref) { return k.kind == O_BUF ? k.got.substr(0, std::min(ref.size(), k.got.size())) : k.got; }
SCENARIO(C03)
{
    const Type &t = pick_type();
    GenCfg g = cfg();
    g.bad_utf8 = choose(3) == 2;
    Val v = gen(t, g);
    for (int i = 0; g.bad_utf8 && i < 8 && texts_valid(t, v); ++i) v = gen(t, g);
    Val want = persistent(t, v);
    bool valid = texts_valid(t, v);
    log_value("value", t, v);
    ObjP o = make(t, v);
    Par p = random_par();
    if (!valid && choose(3)) { p.use = true; p.ascii = true; }
    bool must_fail = !valid && p.use && p.ascii;
    std::string ref;
    Snk k0;
    Par p0 = p;
    Result r0 = ser(*o, k0, p0);
    if (must_fail)
    {
        count("fault.unencodable_value");
        CHECK(r0.r != R_OK, "unencodable-accepted", "%s: invalid UTF-8 encoded with ensure_ascii: %s", t.name().c_str(), esc(k0.got, 400).c_str());
    }
    else
    {
        CHECK(r0.r == R_OK, "refused", "%s: fault-free serialization: %s %s (%s)", t.name().c_str(), RES_NAME[r0.r], r0.what.c_str(), p0.err.message.c_str());
        ref = k0.got;
        if (valid) check_document("incomplete-document", t, ref, want, p);
        logx("document", ref);
    }
    size_t n = ref.size();
    uint32_t reps = 6 + choose(10);
    for (uint32_t i = 0; i < reps; ++i)
    {
        Snk k;
        random_snk(k, n);
        bool faulty = choose(4) != 0;
        // a position among the first, the last, or any byte
        auto place = [&]() -> size_t { switch (choose(4)) { case 0: return n ? n - 1 : 0; case 1: return choose((uint32_t)n + 1); case 2: return n >= 2 ? n - 2 : 0; default: return choose(3); } };
        bool expect_ok = !must_fail, expect_bad = must_fail;
        if (k.kind == O_BUF)
        {
            if (faulty) { k.cap = std::min(place(), n ? n - 1 : 0); expect_ok = false; expect_bad = true; count("fault.buffer_too_small"); }
            else k.cap = n + choose(4);
            if (must_fail) k.cap = choose(64);
        }
        else if (k.kind == O_STD || k.kind == O_CUSTOM || k.kind == O_ITER)
        {
            if (faulty)
            {
                k.drain->mode = k.kind == O_STD ? (k.unitbuf ? 0 : (int)choose(2)) : 1;
                if (k.kind == O_STD && choose(6) == 5) { k.prefailed = true; expect_bad = n > 0 || must_fail; expect_ok = false; count("fault.stream_already_failed"); }
                else if (k.kind == O_STD && k.unitbuf && choose(2)) { k.drain->sync_limit = choose((uint32_t)n + 1); expect_ok = false; }
                else { k.drain->limit = must_fail ? choose(64) : place(); expect_ok = false; }
            }
        }
        Par q = p;
        Result r = ser(*o, k, q);
        std::string got = bytes_of(k, ref);
        log("%s limit %zd cap %zu mode %d: %s", SNK_NAME[k.kind], (ssize_t)k.drain->limit, k.cap, k.drain->mode, RES_NAME[r.r]);
        CHECK(k.bounds_kept, "out-of-bounds", "%s: bytes before the caller's buffer of %zu bytes were changed", t.name().c_str(), k.cap);
        if (r.r == R_OK)
        {
            CHECK(!expect_bad, "success-claimed", "%s to %s (buffer %zu, document %zu%s): success", t.name().c_str(), SNK_NAME[k.kind], k.cap, n, must_fail ? ", value not encodable" : "");
            CHECK(got == ref, "success-claimed", "%s to %s: success but the sink accepted %zu of %zu bytes%s: %s", t.name().c_str(), SNK_NAME[k.kind], got.size(), n, got.size() == n ? ", different ones" : "", esc(got, 300).c_str());
            CHECK(!k.drain->failed, "success-claimed", "%s to %s: success although the sink failed", t.name().c_str(), SNK_NAME[k.kind]);
        }
        else
        {
            CHECK(!expect_ok, "refused", "%s to %s (buffer %zu, document %zu): %s %s (%s) without a fault", t.name().c_str(), SNK_NAME[k.kind], k.cap, n, RES_NAME[r.r], r.what.c_str(), q.err.message.c_str());
        }
    }
    expect_value("object-changed", *o, v, "after failed serializations");
    if (!must_fail)
    {
        std::string again = plain_bytes(*o, p, "refused");
        CHECK(again == ref, "unstable", "serializing again gives %s instead of %s", esc(again, 300).c_str(), esc(ref, 300).c_str());
    }
}

// ------------------------------------------------------------------ damaged documents (C08, C09)
std::string damaged(std::string d)
{
    static const char *BITS[] = { "{", "}", "[", "]", ":", ",", "\"", "\\", "\\u", "\\ud800", "\\udc00", "\\u00", "null", "true", "false", "-", "+", "1", "0", ".", "e", "E5", "1e999", "-1e999", "99999999999999999999999", "nul", "tru", "\n", "\t", " ", "\x01", "\xff", "\xc3", "\xed\xa0\x80", "=", "==", "\"\"", "{}", "[]", "[[[[", "{\"a\":", "/", "//", "\\/", "0x10", "NaN", "Infinity", "1.2.3", "--1" };
    uint32_t n = 1 + choose(3);
    for (uint32_t i = 0; i < n; ++i)
    {
        size_t L = d.size();
        size_t a = L ? choose((uint32_t)L) : 0;
        size_t len = L ? 1 + choose((uint32_t)std::min<size_t>(L - a, 12)) : 0;
        switch (choose(10))
        {
            case 9:
            {   // something before or after the document
                static const char *B[] = { "\xef\xbb\xbf", " ", "\n", "\t", "\xfe\xff", ")]}'\n", "\x1e", "//", "#", "/**/", "{}", "\r\n", "\xc2\xa0", "0" };
                std::string b = pick(B);
                if (choose(4)) d.insert(0, b); else d += b;
                count("fault.bytes_around");
                break;
            }
            case 0: if (L) d.resize(a); count("fault.cut"); break;
            case 1: if (L) d[a] = (char)choose(256); count("fault.byte_changed"); break;
            case 2: if (L) d[a] = (char)(d[a] ^ (1 << choose(8))); count("fault.bit_flipped"); break;
            case 3: d.erase(a, len); count("fault.bytes_lost"); break;
            case 4: d.insert(a, d.substr(a, len)); count("fault.bytes_duplicated"); break;
            case 5: { std::string b = pick(BITS); d.insert(a, b); count("fault.bytes_inserted"); break; }
            case 6: { std::string b = pick(BITS); d.replace(a, len, b); count("fault.bytes_replaced"); break; }
            case 7: if (L) { size_t b = choose((uint32_t)L); std::string x = d.substr(a, len); d.erase(a, len); d.insert(std::min(b, d.size()), x); } count("fault.bytes_reordered"); break;
            default: d.insert(a, 1, '\0'); count("fault.nul_inserted"); break;
        }
    }
    return d;
}

// ------------------------------------------------------------------ C08
SCENARIO(C08)
{
    const Type &t = pick_type();
    GenCfg g = cfg();
    Val v = gen(t, g);
    bool outputs = choose(3) == 0;
    if (outputs)
    {
        if (choose(6) == 5) { GenCfg b = cfg(); b.bad_utf8 = true; v = gen(t, b); }
        log_value("value", t, v);
        ObjP o = make(t, v);
        Par p = random_par();
        Snk ref;
        Par pr = p;
        Result rr = ser(*o, ref, pr);
        logx("document", ref.got);
        for (int kind = 0; kind < O_N; ++kind)
            for (uint32_t rep = 0; rep < 2; ++rep)
            {
                Snk k;
                random_snk(k, rr.r == R_OK ? ref.got.size() + (rep ? choose(9) : 0) : 4096, kind);
                Par q = p;
                Result r = ser(*o, k, q);
                CHECK(r.r == rr.r, "status-differs", "%s with %s: std::string gives %s, %s gives %s %s (%s)", t.name().c_str(), par_text(p).c_str(), RES_NAME[rr.r], SNK_NAME[kind], RES_NAME[r.r], r.what.c_str(), q.err.message.c_str());
                if (r.r != R_OK) continue;
                std::string got = bytes_of(k, ref.got);
                CHECK(got == ref.got, "bytes-differ", "%s with %s: std::string gives %s, %s gives %s", t.name().c_str(), par_text(p).c_str(), esc(ref.got, 300).c_str(), SNK_NAME[kind], esc(got, 300).c_str());
                CHECK(k.flags_kept, "flags-changed", "the flags of the std::ostream were changed");
            }
        return;
    }
    std::string doc;
    if (choose(2)) { EncCfg c; c.unknown = (int)choose(3); c.newlines = choose(2) == 1; c.budget = 60; c.wide = true; doc = json_encode(t, v, c); }
    else { Par p = random_par(); doc = plain_bytes(*make(t, v), p, "send-failed"); }
    uint32_t how = choose(3);
    if (how) doc = damaged(doc);
    if (choose(8) == 7) doc += "\n";
    logx("document", doc);
    struct Seen { Res r; Val v; Err e; } first;
    bool have = false;
    bool nl = doc.find('\n') != std::string::npos;
    for (int kind = 0; kind < S_N; ++kind)
        for (uint32_t rep = 0; rep < (kind == S_STD ? 3u : 1u); ++rep)
        {
            if (t.array && kind == S_STD) continue;
            if (kind == S_CUSTOM && nl) continue; // how a custom stream counts lines is its own business
            Src s;
            random_src(s, doc, kind);
            ObjP o = make(t);
            Par q;
            q.ascii = choose(2) == 1;
            Result r = deser(*o, s, q);
            CHECK(s.flags_kept, "flags-changed", "the flags of the std::istream were changed (skipws was %d)", s.skipws);
            Seen x = { r.r, value_of(*o), q.err };
            if (!have) { first = x; have = true; log("%s: %s code %d at %d:%d", SRC_NAME[kind], RES_NAME[r.r], q.err.code, q.err.line, q.err.column); continue; }
            CHECK(x.r == first.r, "status-differs", "%s: std::string gives %s (%s), %s gives %s %s (%s): %s", t.name().c_str(), RES_NAME[first.r], first.e.message.c_str(), SRC_NAME[kind], RES_NAME[x.r], r.what.c_str(), x.e.message.c_str(), esc(doc, 400).c_str());
            std::string d = diff(t, first.v, x.v);
            CHECK(d.empty(), "object-differs", "%s: std::string and %s (%s) disagree: %s: %s", t.name().c_str(), SRC_NAME[kind], RES_NAME[x.r], d.c_str(), esc(doc, 400).c_str());
            CHECK(x.e.code == first.e.code && x.e.line == first.e.line && x.e.column == first.e.column, "error-differs", "%s: std::string reports %d at %d:%d, %s reports %d at %d:%d: %s", t.name().c_str(), first.e.code, first.e.line, first.e.column, SRC_NAME[kind], x.e.code, x.e.line, x.e.column, esc(doc, 400).c_str());
            if (choose(4) == 3)
            {   // without parameters the status is the same
                Src s2;
                random_src(s2, doc, kind);
                ObjP o2 = make(t);
                Par n;
                n.use = false;
                Result r2 = deser(*o2, s2, n);
                CHECK(r2.r == first.r, "status-differs", "%s from %s: %s with parameters, %s without: %s", t.name().c_str(), SRC_NAME[kind], RES_NAME[first.r], RES_NAME[r2.r], esc(doc, 400).c_str());
            }
        }
}

// ------------------------------------------------------------------ C11
SCENARIO(C11)
{
    uint32_t n = 1 + choose(3);
    for (uint32_t i = 0; i < n; ++i)
    {
        const Type &t = pick_type();
        GenCfg g = cfg();
        Val v = gen(t, g);
        Val want = persistent(t, v);
        if (choose(2) == 0)
        {   // protogen -> standard JSON peer
            Par p = random_par();
            ObjP o = make(t, v);
            log_value("value", t, v);
            Snk k;
            k.kind = (SnkKind)choose(O_N);
            std::string ref;
            if (k.kind == O_BUF) { ref = plain_bytes(*o, p, "send-failed"); random_snk(k, ref.size(), k.kind); } else random_snk(k, 0, k.kind);
            Result r = ser(*o, k, p);
            CHECK(r.r == R_OK, "send-failed", "%s: %s %s (%s)", t.name().c_str(), RES_NAME[r.r], r.what.c_str(), p.err.message.c_str());
            logx("document", k.got);
            check_document("not-standard", t, k.got, want, p);
            continue;
        }
        EncCfg c;
        c.ws = choose(3) != 0;
        c.escapes = choose(3) != 0;
        c.order = choose(3) != 0;
        c.nulls = choose(3) != 0;
        std::string doc = json_encode(t, want, c);
        logx("foreign document", doc);
        ObjP o = make(t);
        uint32_t attempts = 1 + choose(3);
        for (uint32_t a = 0; a < attempts; ++a)
        {
            Src s;
            random_src(s, doc);
            bool cut = a + 1 < attempts;
            if (cut) { s.feed->end = choose((uint32_t)doc.find_last_of("}]") + 1); if (s.kind >= S_STD && choose(2)) s.feed->tail = 1; }
            Par q = random_par();
            Result r = deser(*o, s, q);
            log("attempt %u from %s: %s", a, SRC_NAME[s.kind], RES_NAME[r.r]);
            if (cut) { o->clear(); continue; }
            CHECK(r.r == R_OK, "standard-rejected", "%s from %s: %s %s (%s at %d:%d): %s", t.name().c_str(), SRC_NAME[s.kind], RES_NAME[r.r], r.what.c_str(), q.err.message.c_str(), q.err.line, q.err.column, esc(doc, 500).c_str());
            Val got = value_of(*o);
            std::string d = diff(t, want, got);
            CHECK(d.empty(), "standard-misread", "%s from %s: %s: %s", t.name().c_str(), SRC_NAME[s.kind], d.c_str(), esc(doc, 500).c_str());
        }
    }
}
