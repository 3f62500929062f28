// C09 (hostile input), C10 (peers with different versions of the model)
#include "rt.hpp"
#include <algorithm>
#include <cstdlib>
#include <map>
#include <memory>

using namespace sim;

std::string damaged(std::string d);

// ------------------------------------------------------------------ C09
// Budgets per byte of input, about twenty times what the unchanged code needs.
static const uint64_t STEP_BASE = 400000, STEP_PER_BYTE = 4000;
static const size_t MEM_BASE = 1 << 18;
static size_t mem_per_byte(const Type &t)
{   // "{}," can make one more element of the largest message of the model
    size_t unit = 0;
    for (auto &x : types()) if (x.d->model == t.d->model) unit = std::max(unit, x.unit);
    return 800 + 4 * unit;
}

static std::string nested(uint32_t depth)
{
    static const char *OPEN[] = { "[", "{\"a\":", "[1,", "{\"b\":null,\"a\":", "[[],", " [ ", "[{\"x\":" };
    static const char *CLOSE[] = { "]", "}", "]", "}", "]", " ] ", "}]" };
    std::string o, c;
    uint32_t mode = choose(8);
    std::string tail;
    for (uint32_t i = 0; i < depth; ++i)
    {
        uint32_t k = mode < 7 ? mode : choose(7);
        o += OPEN[k];
        tail.append(CLOSE[k][0] ? std::string(CLOSE[k]) : "");
        if (tail.size() > 8u * depth) break;
    }
    // closers in reverse order
    if (mode < 7) { std::string r; for (uint32_t i = 0; i < depth; ++i) r += CLOSE[mode]; tail = r; }
    else std::reverse(tail.begin(), tail.end());
    switch (choose(4))
    {
        case 0: return o;                       // never closed
        case 1: return o + "1" + tail;
        case 2: return o + "\"" + tail;         // inside a string
        default: return o + tail.substr(0, tail.size() / 2);
    }
}
static std::string hostile(const Type &t, Val &v)
{
    GenCfg g;
    static const int B[] = { 10, 4, 30, 60 };
    g.budget = pick(B);
    v = persistent(t, gen(t, g));
    EncCfg e;
    e.unknown = (int)choose(4);
    e.wide = true;
    e.budget = 60;
    std::string doc = choose(2) ? json_encode(t, v, e) : plain_bytes(*make(t, v), Par(), "send-failed");
    switch (choose(8))
    {
        case 0: return doc;
        case 5:
        {   // parts of different documents in the wrong order
            GenCfg g2;
            g2.budget = 10;
            std::string other = json_encode(t, persistent(t, gen(t, g2)), e);
            size_t a = choose((uint32_t)doc.size() + 1), b = choose((uint32_t)other.size() + 1);
            count("fault.documents_mixed");
            return choose(2) ? doc.substr(0, a) + other.substr(b) : other.substr(b) + doc.substr(0, a);
        }
        case 6:
        {   // a member with a deep value somewhere in the document
            static const uint32_t D[] = { 10, 100, 500, 511, 512, 513, 600, 2000, 20000 };
            uint32_t depth = pick(D);
            count("fault.deep_nesting");
            std::vector<size_t> at;
            for (size_t i = 0; i < doc.size(); ++i) if (doc[i] == '{') at.push_back(i + 1);
            if (at.empty()) return nested(depth);
            size_t p = at[choose((uint32_t)at.size())];
            std::string name = "\"zz\":";
            if (choose(3) == 2 && t.d->fields.size()) name = "\"" + t.d->fields[choose((uint32_t)t.d->fields.size())].json + "\":";
            return doc.substr(0, p) + name + nested(depth) + (choose(2) ? "," : "") + doc.substr(p);
        }
        case 7:
        {   // long input
            count("fault.long_input");
            uint32_t n = 1000 + choose(30000);
            std::string s;
            switch (choose(11))
            {
                case 7: case 8:
                {   // a long list in a repeated field of this message
                    std::vector<const FieldDesc *> rep;
                    for (auto &f : t.d->fields) if (f.repeated && !f.transient) rep.push_back(&f);
                    if (rep.empty()) { s = std::string(n, '['); break; }
                    const FieldDesc &f = *pick(rep);
                    count("probe.long_list");
                    static const char *E[] = { "0", "{}", "\"\"", "true", "1.5", "null", "\"YWJj\"", "-7", "\"text\"" };
                    const char *x = f.kind == K_MSG ? "{}" : f.kind == K_STRING ? pick(E) : f.kind == K_BYTES ? (choose(2) ? "\"YWJj\"" : "\"\"") : f.kind == K_BOOL ? "true" : choose(4) ? "0" : pick(E);
                    s = (t.array ? "[{\"" : "{\"") + f.json + "\":[";
                    while (s.size() < n) { s += x; s += ','; }
                    s.back() = ']';
                    if (choose(3)) s += t.array ? "}]" : "}";
                    return s;
                }
                case 9:
                {   // a long string with escapes
                    static const char *E[] = { "\\n", "\\u00e9", "\\ud83d\\ude00", "\\\\", "ab", "\xc3\xa9" };
                    const char *x = pick(E);
                    std::string name = "zz";
                    for (auto &f : t.d->fields) if (f.kind == K_STRING && !f.repeated && !f.transient) name = f.json;
                    s = (t.array ? "[{\"" : "{\"") + name + "\":\"";
                    while (s.size() < n) s += x;
                    s += t.array ? "\"}]" : "\"}";
                    return s;
                }
                case 10:
                {   // many members nobody knows
                    s = t.array ? "[{" : "{";
                    static const char *E[] = { "0", "{}", "[]", "null", "\"x\"" };
                    const char *x = pick(E);
                    for (uint32_t i = 0; s.size() < n; ++i) s += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":" + x;
                    s += t.array ? "}]" : "}";
                    return s;
                }
                case 0: s = std::string(n, ' '); break;
                case 1: s = "{\"" + std::string(n, 'a'); break;
                case 2: s = "{\"zz\":\"" + std::string(n, '\\') + "\"}"; break;
                case 3:
                {   // a number of many digits, for a field or for nobody
                    std::vector<const FieldDesc *> num;
                    for (auto &f : t.d->fields) if (!f.transient && f.kind < K_BOOL) num.push_back(&f);
                    const FieldDesc *f = num.empty() || choose(4) == 3 ? nullptr : pick(num);
                    static const char *B[] = { "", "-", "0.", "1.", "1e", "1e-", "0" };
                    if (choose(2)) n = 30 + choose(2000);
                    s = t.array ? "[{\"" : "{\"";
                    s += (f ? f->json : "zz") + (f && f->repeated ? "\":[" : "\":") + pick(B) + std::string(n, (char)('0' + choose(10)));
                    if (choose(4)) s += f && f->repeated ? "]}" : "}";
                    if (t.array && choose(4)) s += "]";
                    return s;
                }
                case 4: for (uint32_t i = 0; i < n / 4; ++i) s += "\\u00"; s = "{\"zz\":\"" + s; break;
                case 5: s = "{"; for (uint32_t i = 0; i < n / 8; ++i) s += "\"a\":1,"; s += "}"; break;
                default: for (uint32_t i = 0; i < n; ++i) s += (char)choose(256);
            }
            return choose(3) ? s : doc.substr(0, choose((uint32_t)doc.size() + 1)) + s;
        }
        default: return damaged(doc);
    }
}
SCENARIO(C09)
{
    const Type &t = pick_type();
    uint32_t n = 1 + choose(4);
    for (uint32_t i = 0; i < n; ++i)
    {
        bool endless = choose(8) == 7;
        std::string doc;
        Val v;
        Src s;
        if (endless)
        {
            count("fault.endless_nesting");
            static const char *P[] = { "[", "{\"a\":", "[[{\"x\":[", "{\"a\":[ ", "[1,[" };
            std::string pre = t.array ? "[{\"zz\":" : "{\"zz\":", rep = pick(P);
            random_src(s, pre, (int)(choose(3) + (t.array ? 1 : 0)) % 3 + S_STD);
            if (t.array && s.kind == S_STD) s.kind = S_ITER;
            s.feed->endless = [pre, rep](size_t k) { return k < pre.size() ? pre[k] : rep[(k - pre.size()) % rep.size()]; };
            s.feed->end = (size_t)-1 / 2;
            if (s.feed->frag == 0) s.feed->frag = 64;
            doc = pre;
        }
        else
        {
            doc = hostile(t, v);
            random_src(s, doc);
            if (t.array && s.kind == S_STD) s.kind = S_CUSTOM;
            if (s.kind >= S_STD && choose(5) == 4) { s.feed->end = choose((uint32_t)doc.size() + 1); s.feed->tail = (int)choose(2); }
        }
        logx("input", doc);
        size_t size = endless ? 100000 : doc.size();
        set_step_limit(STEP_BASE + STEP_PER_BYTE * size);
        ObjP o = make(t);
        Par p = random_par();
        acct_begin();
        Result r = deser(*o, s, p);
        size_t peak = acct_peak(), total = acct_total(), bulk = last_bulk();
        acct_end();
        if (const char *f = getenv("VSIM_CALIB"))
        {
            FILE *c = fopen(f, "a");
            fprintf(c, "%zu %llu %zu %zu %zu %d %s\n", size, (unsigned long long)last_steps(), peak, total, bulk, endless, t.name().c_str());
            fclose(c);
        }
        log("%s from %s: %s code %d", t.name().c_str(), SRC_NAME[s.kind], RES_NAME[r.r], p.err.code);
        CHECK(peak <= MEM_BASE + mem_per_byte(t) * size, "memory", "%s: %zu bytes of memory for %zu bytes of input", t.name().c_str(), peak, size);
        CHECK(total <= (1 << 17) + 50 * size + 16 * peak, "work", "%s: %zu bytes allocated in total for %zu bytes of input (at most %zu at once)", t.name().c_str(), total, size, peak);
        CHECK(bulk <= (1 << 19) + 1000 * size + 100 * peak, "work", "%s: library calls moved or searched %zu bytes for %zu bytes of input", t.name().c_str(), bulk, size);
        CHECK(r.r != R_THROW || s.feed->faulted, "unexpected-exception", "%s from %s: %s: %s", t.name().c_str(), SRC_NAME[s.kind], r.what.c_str(), esc(doc, 400).c_str());
        CHECK(!endless || r.r != R_OK, "endless-accepted", "an endless document was accepted");
        if (r.r == R_FAIL && p.use) CHECK(p.err.code != 0, "failure-without-error", "%s from %s: failure reported with code OK: %s", t.name().c_str(), SRC_NAME[s.kind], esc(doc, 400).c_str());
        set_step_limit(0);
        if (r.r != R_OK) { o->clear(); continue; }
        Val got = value_of(*o);
        if (!finite(t, got)) continue;
        count("probe.damaged_accepted");
        Par q;
        std::string again = plain_bytes(*o, q, "not-exchangeable");
        ObjP o2 = make(t);
        Src s2;
        random_src(s2, again);
        if (t.array && s2.kind == S_STD) s2.kind = S_MEM;
        Par q2;
        r = deser(*o2, s2, q2);
        CHECK(r.r == R_OK, "not-exchangeable", "%s: an accepted object cannot be sent on: %s %s (%s): %s", t.name().c_str(), RES_NAME[r.r], r.what.c_str(), q2.err.message.c_str(), esc(again, 300).c_str());
        Val want = persistent(t, got);
        Val back = value_of(*o2);
        std::string d = diff(t, want, back);
        CHECK(d.empty(), "not-exchangeable", "%s: an accepted object changes when sent on: %s: %s", t.name().c_str(), d.c_str(), esc(again, 300).c_str());
    }
}

// ------------------------------------------------------------------ C10
// the part of a value another version of the message knows, by JSON name
static Val project(const MsgDesc &from, const Val &v, const MsgDesc &to)
{
    Val o = absent_msg(to);
    for (size_t i = 0; i < from.fields.size(); ++i)
    {
        const FieldDesc &f = from.fields[i];
        if (f.transient) continue;
        int k = to.find(f.json);
        if (k < 0) continue;
        const FieldDesc &g = to.fields[(size_t)k];
        if (f.kind != K_MSG) { o.a[(size_t)k] = v.a[i]; continue; }
        if (!f.repeated) { o.a[(size_t)k] = project(*f.msg, v.a[i], *g.msg); continue; }
        for (auto &e : v.a[i].a) o.a[(size_t)k].a.push_back(project(*f.msg, e, *g.msg));
    }
    normalise(to, o);
    return o;
}
static Val project(const Type &from, const Val &v, const Type &to)
{
    if (!from.array) return project(*from.d, v, *to.d);
    Val o;
    for (auto &e : v.a) { o.a.push_back(project(*from.d, e, *to.d)); o.a.back().present = true; }
    o.present = !o.a.empty();
    return o;
}
struct Node
{
    int id, version;
    bool up = true;
    // durable: the last documents stored, with the value a reader of that version got
    struct Rec { std::string doc; Val v; int version; bool array; };
    std::map<int, Rec> store; // by message number
};
static const Type &user(int version, bool array)
{
    const Type *t = find_type("ev" + std::to_string(version) + ".User" + (array ? "[]" : ""));
    if (!t) { fprintf(stderr, "no such type\n"); abort(); }
    return *t;
}
static std::string encode(const Type &t, const Val &v, std::string &how)
{
    if (choose(3) == 2)
    {   // a foreign peer with a model of its own: unknown members anywhere
        EncCfg e;
        e.unknown = 1 + (int)choose(3);
        e.wide = true;
        e.budget = 60;
        how = "foreign peer";
        std::string doc = json_encode(t, v, e);
        if (choose(4) == 3)
        {
            static const uint32_t D[] = { 20, 60, 200, 400, 499 };
            uint32_t d = pick(D);
            size_t p = doc.find('{') + 1;
            if (doc.find('{') == std::string::npos) return doc;
            std::string o, c;
            bool obj = choose(2) == 1;
            for (uint32_t i = 0; i < d; ++i) { o += obj ? "{\"k\":" : "["; c += obj ? "}" : "]"; }
            size_t q = doc.find_first_not_of(" \t\r\n", p);
            bool empty = doc[q] == '}';
            count("fault.deep_unknown");
            doc = doc.substr(0, p) + "\"deep~\":" + o + (obj ? "1" : "") + c + (empty ? "" : ",") + doc.substr(p);
        }
        return doc;
    }
    how = "peer";
    ObjP o = make(t, v);
    Snk k;
    random_snk(k, 0, choose(2) ? O_STRING : O_STD);
    Par p = random_par();
    Result r = ser(*o, k, p);
    CHECK(r.r == R_OK, "send-failed", "%s: %s %s (%s)", t.name().c_str(), RES_NAME[r.r], r.what.c_str(), p.err.message.c_str());
    return k.got;
}
SCENARIO(C10)
{
    uint32_t nn = 2 + choose(3), nm = 2 + choose(6);
    auto nodes = std::make_shared<std::vector<Node>>();
    for (uint32_t i = 0; i < nn; ++i) { Node n; n.id = (int)i; n.version = 1 + (int)choose(4); nodes->push_back(n); log("node %u runs version %d", i, n.version); }
    struct Net { uint32_t pending = 0, delivered = 0, loss, dup; } net;
    net.loss = choose(4);
    net.dup = choose(3);
    // read a document with the node's current version and compare with what the writer meant
    auto read = [](const Node &n, const std::string &doc, const Val &v, int version, bool array, const char *where, bool cut) -> bool {
        const Type &from = user(version, array), &to = user(n.version, array);
        ObjP o = make(to);
        Src s;
        random_src(s, doc);
        if (array && s.kind == S_STD) s.kind = S_ITER;
        if (cut)
        {
            s.feed->end = choose((uint32_t)doc.find_last_of("]}") + 1);
            if (s.kind >= S_STD && choose(2)) s.feed->tail = 1;
        }
        Par q = random_par();
        Result r = deser(*o, s, q);
        if (cut)
        {
            CHECK(r.r != R_OK, "cut-accepted", "node %d (version %d) accepted an interrupted document", n.id, n.version);
            count("fault.crash_while_receiving");
            o->clear();
            if (choose(2)) return false;
            Src s2;
            random_src(s2, doc);
            if (array && s2.kind == S_STD) s2.kind = S_ITER;
            q = random_par();
            r = deser(*o, s2, q);
        }
        CHECK(r.r == R_OK, "document-rejected", "%s: node %d (version %d) rejects a document of version %d: %s %s (%s at %d:%d): %s", where, n.id, n.version, version, RES_NAME[r.r], r.what.c_str(), q.err.message.c_str(), q.err.line, q.err.column, esc(doc, 500).c_str());
        Val want = project(from, v, to);
        expect_value("field-lost", *o, want, where);
        return true;
    };
    std::function<void(int, int, std::string, Val, int, bool, int)> send;
    send = [&](int from, int to, std::string doc, Val v, int version, bool array, int num) {
        uint32_t copies = 1 + (net.dup && choose(6) < net.dup ? 1 : 0);
        if (copies > 1) count("fault.duplicated");
        if (net.loss && choose(8) < net.loss) { copies--; count("fault.lost"); }
        (void)from;
        for (uint32_t c = 0; c < copies; ++c)
        {
            net.pending++;
            after(1 + choose(200), [&, to, doc, v, version, array, num] {
                net.pending--;
                Node &n = (*nodes)[(size_t)to];
                if (!n.up) { count("fault.node_down"); return; }
                bool cut = choose(6) == 5;
                if (!read(n, doc, v, version, array, "received document", cut)) return;
                net.delivered++;
                n.store[num] = Node::Rec{ doc, v, version, array };
                log("node %d (v%d) received message %d of version %d", n.id, n.version, num, version);
                if (choose(3) == 2)
                {   // pass on what this node understood
                    Val mine = project(user(version, array), v, user(n.version, array));
                    std::string how, d = encode(user(n.version, array), mine, how);
                    int next = (int)choose((uint32_t)nodes->size());
                    if (net.pending < 12) send(to, next, d, mine, n.version, array, num + 100);
                }
            });
        }
    };
    for (uint32_t m = 0; m < nm; ++m)
    {
        after(choose(400), [&, m] {
            int from = (int)choose((uint32_t)nodes->size()), to = (int)choose((uint32_t)nodes->size());
            Node &n = (*nodes)[(size_t)from];
            if (!n.up) return;
            bool array = choose(5) == 4;
            const Type &t = user(n.version, array);
            GenCfg g;
            g.budget = 16;
            Val v = persistent(t, gen(t, g));
            std::string how, doc = encode(t, v, how);
            log("node %d (v%d, %s) sends message %u to node %d", from, n.version, how.c_str(), m, to);
            logx("document", doc);
            send(from, to, doc, v, n.version, array, (int)m);
        });
    }
    uint32_t restarts = choose(5);
    for (uint32_t i = 0; i < restarts; ++i)
        after(choose(500), [&] {
            Node &n = (*nodes)[choose((uint32_t)nodes->size())];
            if (!n.up) return;
            n.up = false;
            count("fault.crash");
            Node *np = &n;
            after(1 + choose(80), [&, np] {
                int old = np->version;
                if (choose(3)) np->version = 1 + (int)choose(4);
                if (np->version > old) count("fault.upgrade");
                if (np->version < old) count("fault.downgrade");
                np->up = true;
                log("node %d restarts with version %d", np->id, np->version);
                for (auto &r : np->store)
                {
                    read(*np, r.second.doc, r.second.v, r.second.version, r.second.array, "stored document", false);
                    if (choose(2))
                    {   // rewrite the store in the new format
                        Val mine = project(user(r.second.version, r.second.array), r.second.v, user(np->version, r.second.array));
                        std::string how;
                        r.second.doc = encode(user(np->version, r.second.array), mine, how);
                        r.second.v = mine;
                        r.second.version = np->version;
                    }
                }
            });
        });
    after(701, [] {});
    block_until([&] { return now() > 700 && net.pending == 0; });
    // quiescence: every node still reads everything it stored
    for (auto &n : *nodes)
        for (auto &r : n.store)
            read(n, r.second.doc, r.second.v, r.second.version, r.second.array, "stored document at the end", false);
    // any model: a reader that knows none of the members
    const Type &t = pick_type();
    static const Type *blind = find_type("core.Empty");
    if (!t.array && choose(2))
    {
        GenCfg g;
        g.budget = 20;
        Val v = gen(t, g);
        std::string how, doc = encode(t, persistent(t, v), how);
        ObjP o = make(*blind);
        Src s;
        random_src(s, doc);
        Par q;
        Result r = deser(*o, s, q);
        CHECK(r.r == R_OK, "document-rejected", "a reader without fields rejects %s: %s (%s): %s", t.name().c_str(), RES_NAME[r.r], q.err.message.c_str(), esc(doc, 400).c_str());
    }
    count("probe.delivered", net.delivered);
}
