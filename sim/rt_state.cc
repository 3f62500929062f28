// C04 (failed allocations and streams), C07 (value semantics over histories)
#include "rt.hpp"
#include <algorithm>
#include <clocale>
#include <locale.h>

using namespace sim;

// ------------------------------------------------------------------ C07
// Val read back without normalisation of absent scalars: used where an object
// must be indistinguishable from a new one
static std::string raw_diff(const MsgDesc &d, const Val &a, const Val &b)
{
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        const FieldDesc &f = d.fields[i];
        const Val &x = a.a[i], &y = b.a[i];
        std::string p = f.name;
        if (x.present != y.present) return p + ": presence differs";
        if (f.repeated) { if (x.a.size() != y.a.size()) return p + ": size differs"; continue; }
        if (f.kind == K_MSG) { std::string r = raw_diff(*f.msg, x, y); if (!r.empty()) return p + "." + r; continue; }
        if (x.i != y.i || x.u != y.u || x.d != y.d || x.s != y.s) return p + ": stale value";
    }
    return "";
}

struct Slot
{
    ObjP o;
    Val v;
};
// a deserializable document for the type, or a damaged / cut one
static std::string some_doc(const Type &t, Val &v)
{
    GenCfg g;
    g.budget = 14;
    v = persistent(t, gen(t, g));
    if (choose(2)) { EncCfg c; c.budget = 40; c.unknown = (int)choose(2); return json_encode(t, v, c); }
    ObjP o = make(t, v);
    Par p = random_par();
    return plain_bytes(*o, p, "serialize-failed");
}
SCENARIO(C07)
{
    const Type &t = pick_type();
    const MsgDesc &d = *t.d;
    std::vector<Slot> s(2 + choose(2));
    for (auto &x : s) { x.o = make(t); x.v = absent(t); }
    uint32_t steps = 4 + choose(24);
    bool faults = choose(3) != 0;
    size_t nf = t.array ? 1 : d.fields.size();
    odd_compare() = nullptr;
    for (uint32_t step = 0; step < steps; ++step)
    {
        uint32_t a = choose((uint32_t)s.size()), b = choose((uint32_t)s.size());
        uint32_t op = choose(13);
        Slot &x = s[a], &y = s[b];
        bool plan = false;
        auto arm = [&](uint32_t space) {
            if (!faults || choose(3) != 2) return;
            plan = true;
            alloc_plan(choose(3) == 2 ? ALLOC_PERSIST : ALLOC_ONCE, choose(space));
        };
        auto disarm = [&] { bool f = plan && alloc_fired(); alloc_plan(ALLOC_OFF, 0); if (f) count("fault.alloc"); return f; };
        Result r;
        bool fired = false;
        int touched_field = -1;  // only this field of x may have changed
        bool all_x = false, all_y = false;
        std::string what;
        switch (op)
        {
            case 0: case 1: case 2: case 3:
            {
                if (nf == 0) break;
                size_t i = choose((uint32_t)nf);
                FieldDesc whole = { "", "", K_MSG, true, false, t.d };
                const FieldDesc &f = t.array ? whole : d.fields[i];
                GenCfg g;
                g.budget = 8;
                g.small_text = choose(2) == 1;
                Val v;
                bool absent_value = choose(4) == 3;
                if (absent_value) { if (f.kind == K_MSG && !f.repeated) v = absent_msg(*f.msg); }
                else v = gen_field(f, g);
                uint32_t how = choose(12);
                log("object %u: %s field %s (how %u)", a, absent_value ? "assign an empty value to" : "set", f.name.c_str(), how);
                arm(4);
                r = guarded([&] { x.o->set_field(i, v, how); return true; });
                fired = disarm();
                what = "field assignment";
                touched_field = (int)i;
                if (r.r == R_OK)
                {
                    if (t.array) x.v = v; else x.v.a[i] = v;
                    if (!t.array) normalise(d, x.v); else x.v.present = !x.v.a.empty();
                }
                else if (t.array) all_x = true;
                break;
            }
            case 4:
                log("object %u: clear", a);
                arm(3);
                r = guarded([&] { x.o->clear(); return true; });
                fired = disarm();
                what = "clear";
                if (r.r == R_OK)
                {
                    x.v = absent(t);
                    ObjP n = make(t);
                    if (!t.array)
                    {
                        std::string q = raw_diff(d, value_of(*n), value_of(*x.o));
                        CHECK(q.empty(), "clear-incomplete", "%s after clear(): %s", t.name().c_str(), q.c_str());
                    }
                    CHECK(n->equal(*x.o) && x.o->equal(*n), "clear-incomplete", "a cleared %s does not equal a new one", t.name().c_str());
                    Par p1 = random_par(), p2 = p1;
                    Snk k1, k2;
                    Result r1 = ser(*n, k1, p1), r2 = ser(*x.o, k2, p2);
                    CHECK(r1.r == r2.r && k1.got == k2.got, "clear-incomplete", "a cleared %s serializes to %s, a new one to %s", t.name().c_str(), esc(k2.got, 200).c_str(), esc(k1.got, 200).c_str());
                }
                else all_x = true;
                break;
            case 5:
            {
                log("object %u = object %u", a, b);
                arm(12);
                r = guarded([&] { x.o->assign(*y.o); return true; });
                fired = disarm();
                what = "assignment";
                if (r.r == R_OK) x.v = y.v; else all_x = a != b;
                break;
            }
            case 6:
            {
                log("object %u: copy construction from object %u", a, b);
                ObjP n;
                arm(12);
                r = guarded([&] { n.reset(y.o->copy()); return true; });
                fired = disarm();
                what = "copy";
                if (r.r == R_OK) { x.v = Val(y.v); x.o = std::move(n); }
                break;
            }
            case 7:
            {
                log("object %u: move construction from object %u", a, b);
                ObjP n;
                r = guarded([&] { n.reset(y.o->move()); return true; });
                what = "move";
                if (r.r == R_OK)
                {   // the source is valid but unspecified; clear it
                    Val v = y.v;
                    y.o->clear();
                    y.v = absent(t);
                    x.o = std::move(n);
                    x.v = v;
                }
                break;
            }
            case 8:
                if (a == b && t.array) break;
                log("swap objects %u and %u", a, b);
                arm(4);
                r = guarded([&] { x.o->swap(*y.o); return true; });
                fired = disarm();
                what = "swap";
                if (r.r == R_OK) std::swap(x.v, y.v); else all_x = all_y = true;
                break;
            case 9:
            {
                log("object %u: serialize", a);
                Snk k;
                Par p = random_par();
                random_snk(k, 100000);
                bool sf = false;
                if (faults && choose(3) == 2 && k.kind != O_BUF) { k.drain->limit = choose(80); k.drain->mode = k.kind == O_STD ? (k.unitbuf ? 0 : (int)choose(2)) : 1; sf = true; }
                arm(30);
                r = ser(*x.o, k, p);
                fired = disarm() || sf;
                what = "serialize";
                if (r.r == R_OK && !fired) { std::string doc = k.kind == O_BUF ? std::string() : k.got; if (k.kind != O_BUF) check_document("serialize-wrong", t, doc, persistent(t, x.v), p); }
                break;
            }
            case 10:
            {
                Val v;
                std::string doc = some_doc(t, v);
                bool bad = faults && choose(3) == 2;
                x.o->clear();
                x.v = absent(t);
                Src src;
                random_src(src, doc);
                if (bad)
                {
                    src.feed->end = choose((uint32_t)doc.find_last_of("]}") + 1);
                    if (src.kind >= S_STD && choose(2)) src.feed->tail = 1;
                }
                log("object %u: deserialize %s%s", a, SRC_NAME[src.kind], bad ? ", cut" : "");
                Par p = random_par();
                arm(40);
                r = deser(*x.o, src, p);
                fired = disarm() || bad;
                what = "deserialize";
                if (r.r == R_OK) x.v = v;
                else { x.o->clear(); x.v = absent(t); } // contents after a failure are unspecified
                break;
            }
            case 11:
            {
                bool want = diff(t, x.v, y.v).empty();
                bool eq = false;
                arm(4);
                r = guarded([&] { eq = x.o->equal(*y.o); return true; });
                fired = disarm();
                what = "comparison";
                if (r.r == R_OK) CHECK(eq == want, "equality-wrong", "%s objects %u and %u compare %s but %s", t.name().c_str(), a, b, eq ? "equal" : "different", want ? "every field is the same" : diff(t, x.v, y.v).c_str());
                break;
            }
            default:
            {   // change one field of a copy: must differ, change it back: must be equal
                if (nf == 0 || t.array) break;
                size_t i = choose((uint32_t)nf);
                GenCfg g;
                g.budget = 6;
                Val v = gen_field(d.fields[i], g);
                ObjP c(x.o->copy());
                c->set_field(i, v, choose(12));
                Val m = x.v;
                m.a[i] = v;
                normalise(d, m);
                bool want = diff(t, x.v, m).empty();
                bool got = c->equal(*x.o);
                CHECK(got == want && x.o->equal(*c) == want, "equality-wrong", "%s: objects that differ in at most field %s (%s) compare %s", t.name().c_str(), d.fields[i].name.c_str(), want ? "same value" : "other value", got ? "equal" : "different");
                expect_value("history-wrong", *c, m, "copy with one field changed");
                c->set_field(i, x.v.a[i], choose(12));
                CHECK(c->equal(*x.o), "equality-wrong", "%s: setting field %s back does not restore equality", t.name().c_str(), d.fields[i].name.c_str());
                break;
            }
        }
        if (r.r != R_OK)
        {
            log("  -> %s %s", RES_NAME[r.r], r.what.c_str());
            CHECK(fired || what == "serialize" || what == "deserialize", "spurious-failure", "%s of %s failed without a fault: %s", what.c_str(), t.name().c_str(), r.what.c_str());
            if ((what == "serialize" || what == "deserialize") && !fired) fail("spurious-failure", "%s of %s failed without a fault: %s", what.c_str(), t.name().c_str(), r.what.c_str());
            if (touched_field >= 0 && !t.array)
            {   // the touched field may hold the old, the new or a partial value; every other field is untouched
                Val now = value_of(*x.o);
                x.v.a[(size_t)touched_field] = now.a[(size_t)touched_field];
                normalise(d, x.v);
            }
            if (all_x) x.v = value_of(*x.o);
            if (all_y) y.v = value_of(*y.o);
        }
        for (size_t i = 0; i < s.size(); ++i)
            expect_value("history-wrong", *s[i].o, s[i].v, ("object " + std::to_string(i) + " after step " + std::to_string(step)).c_str());
        CHECK(odd_compare() == nullptr, "equality-wrong", "%s after step %u: %s", t.name().c_str(), step, odd_compare());
        for (size_t i = 0; i < s.size(); ++i)
            for (size_t j = i; j < s.size(); ++j)
            {
                bool want = diff(t, s[i].v, s[j].v).empty();
                bool eq = s[i].o->equal(*s[j].o);
                CHECK(eq == want, "equality-wrong", "%s objects %zu and %zu compare %s but %s", t.name().c_str(), i, j, eq ? "equal" : "different", want ? "every field is the same" : diff(t, s[i].v, s[j].v).c_str());
            }
    }
    log("%u steps on %s", steps, t.name().c_str());
}

// ------------------------------------------------------------------ C04
struct Ambient
{
    std::string all;
    locale_t thread;
    Ambient() : all(setlocale(LC_ALL, nullptr)), thread(uselocale((locale_t)0)) {}
    void check(const char *when) const
    {
        CHECK(all == setlocale(LC_ALL, nullptr), "locale-changed", "%s: the process locale was changed", when);
        CHECK(thread == uselocale((locale_t)0), "locale-changed", "%s: the calling thread's locale was changed", when);
    }
};
enum Op4 { OP_SER, OP_DESER, OP_COPY, OP_ASSIGN, OP_EQUAL, OP_SWAP, OP_CLEAR, OP_SET, OP_N };
static const char *OP_NAME[] = { "serialize", "deserialize", "copy", "assignment", "comparison", "swap", "clear", "field assignment" };

struct Case4
{
    const Type *t;
    Op4 op;
    Val v, w;              // operands
    std::string doc;       // for OP_DESER, and expected bytes of OP_SER when known
    Val want;
    Par p;
    int form;              // source or sink kind
    uint32_t frag, area, skipws, exc, field, how;
    Val fval;
    bool eq;
};
// One attempt with the fault armed, then the same without. Returns whether the fault fired.
static bool attempt4(Case4 &c, AllocMode am, uint64_t nth, size_t stream_at, int stream_mode, bool repeat)
{
    const Type &t = *c.t;
    bool sfault = stream_at != (size_t)-1;
    ObjP a = make(t, c.v), b = make(t, c.w), target;
    if (c.op == OP_DESER) target = make(t);
    Ambient amb;
    bool any_fired = false;
    for (int round = 0; round < (repeat ? 2 : 1); ++round)
    {
        bool faulty = round == 0;
        Result r;
        ObjP fresh;
        Snk k;
        Src s;
        Par p = c.p;
        bool eq = false, sfired = false;
        std::string flags;
        if (c.op == OP_SER)
        {
            k.kind = (SnkKind)c.form;
            k.cap = c.doc.size();
            k.drain->area = c.area;
            k.exc = (std::ios_base::iostate)(c.exc == 1 ? std::ios_base::badbit : c.exc == 2 ? std::ios_base::badbit | std::ios_base::failbit : std::ios_base::goodbit);
            if (faulty && sfault) { k.drain->limit = stream_at; k.drain->mode = stream_mode; }
        }
        if (c.op == OP_DESER)
        {
            s.kind = (SrcKind)c.form;
            s.feed->whole(c.doc);
            s.feed->frag = c.frag;
            s.skipws = c.skipws != 0;
            // failbit would make the end of the document itself an exception
            s.exc = c.exc ? std::ios_base::badbit : std::ios_base::goodbit;
            if (faulty && sfault) { s.feed->end = stream_at; s.feed->tail = stream_mode; }
        }
        if (faulty) alloc_plan(am, nth);
        switch (c.op)
        {
            case OP_SER: r = ser(*a, k, p); break;
            case OP_DESER: r = deser(*target, s, p); break;
            case OP_COPY: r = guarded([&] { fresh.reset(a->copy()); return true; }); break;
            case OP_ASSIGN: r = guarded([&] { b->assign(*a); return true; }); break;
            case OP_EQUAL: r = guarded([&] { eq = a->equal(*b); return true; }); break;
            case OP_SWAP: r = guarded([&] { a->swap(*b); return true; }); break;
            case OP_CLEAR: r = guarded([&] { b->clear(); return true; }); break;
            default: r = guarded([&] { b->set_field(c.field, c.fval, c.how); return true; }); break;
        }
        bool afired = faulty && am != ALLOC_OFF && alloc_fired();
        if (faulty) alloc_plan(ALLOC_OFF, 0);
        sfired = faulty && sfault && (c.op == OP_SER ? k.drain->failed : (s.feed->faulted || s.feed->ended));
        if (afired) count("fault.alloc");
        bool fired = afired || sfired;
        if (faulty && c.op == OP_DESER && sfault && c.form < S_STD) fired = true;
        any_fired |= fired;
        const char *opn = OP_NAME[c.op];
        amb.check(opn);
        CHECK(s.flags_kept && k.flags_kept, "flags-changed", "%s: the caller's stream flags were changed (%s)", opn, RES_NAME[r.r]);
        CHECK(k.bounds_kept, "out-of-bounds", "%s wrote before the buffer", opn);
        if (!fired)
            CHECK(r.r == R_OK, round ? "not-usable-again" : "spurious-failure", "%s of %s %s: %s %s (%s)", opn, t.name().c_str(), round ? "after a failed attempt" : "without a fault", RES_NAME[r.r], r.what.c_str(), p.err.message.c_str());
        if (r.r == R_FAIL && c.op != OP_SER && c.op != OP_DESER) fail("spurious-failure", "%s", opn);
        const char *wrong = round ? "wrong-after-failure" : "wrong-success";
        if (r.r == R_OK)
        {
            switch (c.op)
            {
                case OP_SER:
                {
                    std::string got = k.kind == O_BUF ? k.got.substr(0, c.doc.size()) : k.got;
                    if (c.doc.empty()) check_document(wrong, t, got, persistent(t, c.v), c.p);
                    else CHECK(got == c.doc, wrong, "serialize of %s succeeded%s with %s instead of %s", t.name().c_str(), fired ? " despite the fault" : "", esc(got, 300).c_str(), esc(c.doc, 300).c_str());
                    break;
                }
                case OP_DESER: expect_value(wrong, *target, c.want, fired ? "deserialize succeeded despite the fault" : "deserialize"); break;
                case OP_COPY: expect_value(wrong, *fresh, c.v, "copy"); break;
                case OP_ASSIGN: expect_value(wrong, *b, c.v, "assignment"); break;
                case OP_EQUAL: CHECK(eq == c.eq, wrong, "comparison of %s gives %d", t.name().c_str(), eq); break;
                case OP_SWAP: expect_value(wrong, *a, c.w, "swap"); expect_value(wrong, *b, c.v, "swap"); break;
                case OP_CLEAR: expect_value(wrong, *b, absent(t), "clear"); break;
                default:
                {
                    Val m = c.w;
                    if (t.array) m = c.fval;
                    else { m.a[c.field] = c.fval; normalise(*t.d, m); }
                    expect_value(wrong, *b, m, "field assignment");
                }
            }
        }
        // const operands
        if (c.op != OP_SWAP) expect_value("operand-changed", *a, c.v, opn);
        if (c.op == OP_EQUAL || c.op == OP_SER || c.op == OP_DESER || c.op == OP_COPY) expect_value("operand-changed", *b, c.w, opn);
        if (r.r != R_OK || round == 0)
        {   // back to the starting point
            if (c.op == OP_DESER) { target->clear(); expect_value("clear-incomplete", *target, absent(t), "target cleared after a failure"); }
            if (c.op == OP_ASSIGN || c.op == OP_CLEAR || c.op == OP_SET)
            {
                (void)value_of(*b); // readable
                if (c.op == OP_SET && !t.array && r.r != R_OK)
                {
                    Val now = value_of(*b), m = c.w;
                    m.a[c.field] = now.a[c.field];
                    normalise(*t.d, m);
                    expect_value("other-field-changed", *b, m, "interrupted field assignment");
                }
                if (r.r == R_OK || (c.how & 1)) b = make(t, c.w); // else: repeated on the same operands
            }
            if (c.op == OP_SWAP && (r.r == R_OK || (c.how & 3) == 3)) { a = make(t, c.v); b = make(t, c.w); }
        }
    }
    return any_fired;
}
SCENARIO(C04)
{
    Case4 c;
    c.t = &pick_type();
    const Type &t = *c.t;
    static const Op4 OPS[] = { OP_SER, OP_DESER, OP_SER, OP_DESER, OP_COPY, OP_ASSIGN, OP_EQUAL, OP_SWAP, OP_CLEAR, OP_SET };
    c.op = pick(OPS);
    GenCfg g;
    static const int B[] = { 8, 4, 20, 40 };
    g.budget = pick(B);
    c.v = gen(t, g);
    GenCfg g2;
    g2.budget = 8;
    c.w = choose(3) == 2 ? c.v : gen(t, g2);
    c.eq = diff(t, c.v, c.w).empty();
    c.p = random_par();
    c.frag = choose(3) ? 1 + choose(20) : 0;
    c.area = choose(2) ? 1 + choose(40) : 0;
    c.skipws = choose(2);
    c.exc = choose(3);
    c.how = choose(12);
    c.field = 0;
    if (c.op == OP_SET)
    {
        if (t.array) { c.field = 0; c.fval = gen(t, g2); }
        else if (t.d->fields.empty()) c.op = OP_CLEAR;
        else { c.field = choose((uint32_t)t.d->fields.size()); c.fval = gen_field(t.d->fields[c.field], g2); }
    }
    if (c.op == OP_SER) c.form = (int)choose(O_N);
    else c.form = (int)choose(S_N);
    if (c.op == OP_DESER && t.array && c.form == S_STD) c.form = S_ITER;
    c.want = persistent(t, c.v);
    if (c.op == OP_DESER) { EncCfg e; e.unknown = (int)choose(2); e.budget = 30; e.newlines = choose(2); c.doc = json_encode(t, c.want, e); }
    bool streams = (c.op == OP_SER && c.form >= O_STD && c.form != O_BUF) || (c.op == OP_DESER && c.form >= S_STD);
    log("%s of %s, form %d, %s", OP_NAME[c.op], t.name().c_str(), c.form, par_text(c.p).c_str());
    logx("value", show(t, c.v));
    // someone else's object
    GenCfg g3;
    g3.budget = 8;
    const Type &bt = pick_type();
    Val bv = gen(bt, g3);

    bool cold = choose(3) == 0;
    size_t *base = nullptr;
    if (c.op == OP_SER && c.form == O_BUF) cold = false; // needs the size first
    struct F { AllocMode m; uint64_t n; size_t at; int mode; };
    std::vector<F> fs;
    if (cold)
    {   // what a process keeps for itself (static tables) when the first use is not disturbed
        count("probe.cold_runs");
        uint32_t n = 1 + choose(3);
        for (uint32_t i = 0; i < n; ++i) fs.push_back({ choose(3) == 2 ? ALLOC_PERSIST : ALLOC_ONCE, choose(choose(2) ? 60 : 400), (size_t)-1, 0 });
        base = (size_t *)shared_page();
        *base = 0;
        int st = run_process([&] {
            acct_begin();
            attempt4(c, ALLOC_OFF, 0, (size_t)-1, 0, false);
            for (auto &f : fs) attempt4(c, f.m, f.n, f.at, f.mode, true);
            *base = acct_live() + 1;
        });
        if (*base == 0) fail("spurious-failure", "%s of %s fails in a new process without a fault (status %x)", OP_NAME[c.op], t.name().c_str(), st);
        acct_begin();
    }
    ObjP by;
    std::string bybytes;
    if (!cold)
    {
        by = make(bt, bv);
        bybytes = plain_bytes(*by, Par(), "spurious-failure");
        if (c.op == OP_SER)
        {
            ObjP o = make(t, c.v);
            c.doc = plain_bytes(*o, c.p, "spurious-failure");
            check_document("wrong-success", t, c.doc, c.want, c.p);
        }
        alloc_plan(ALLOC_OFF, 0);
        attempt4(c, ALLOC_OFF, 0, (size_t)-1, 0, false);
    }
    // which faults
    if (!cold)
    {
        alloc_plan(ALLOC_OFF, 0);
        attempt4(c, ALLOC_ONCE, 1u << 30, (size_t)-1, 0, false);
        uint32_t total = (uint32_t)std::max<uint64_t>(alloc_seen(), 1);
        if (total <= 40) for (uint32_t i = 0; i < total; ++i) fs.push_back({ choose(4) == 3 ? ALLOC_PERSIST : ALLOC_ONCE, i, (size_t)-1, 0 });
        else for (uint32_t i = 0; i < 30; ++i) fs.push_back({ choose(4) == 3 ? ALLOC_PERSIST : ALLOC_ONCE, choose(total), (size_t)-1, 0 });
    }
    if (streams && !c.doc.empty())
    {
        uint32_t n = 4 + choose(8);
        size_t len = c.op == OP_DESER ? c.doc.find_last_of("]}") : c.doc.size() - 1;
        for (uint32_t i = 0; i < n; ++i)
        {
            F f = { ALLOC_OFF, 0, choose((uint32_t)len + 1), c.op == OP_DESER ? (int)choose(2) : 1 };
            if (choose(4) == 3) { f.m = ALLOC_ONCE; f.n = choose(30); }
            fs.push_back(f);
        }
    }
    for (auto &f : fs)
    {
        log("fault: alloc mode %d #%llu, stream at %zd mode %d", f.m, (unsigned long long)f.n, (ssize_t)f.at, f.mode);
        size_t before = 0;
        if (!cold) { acct_begin(); }
        attempt4(c, f.m, f.n, f.at, f.mode, true);
        if (!cold && acct_live() > before)
        {   // static tables may have been set up; a leak grows again and again
            acct_begin();
            attempt4(c, f.m, f.n, f.at, f.mode, true);
            size_t g1 = acct_live();
            if (g1)
            {
                acct_begin();
                attempt4(c, f.m, f.n, f.at, f.mode, true);
                CHECK(acct_live() == 0, "leak", "%s of %s: %zu allocations (%zu bytes) are never released after a failure (alloc #%llu mode %d, stream %zd)", OP_NAME[c.op], t.name().c_str(), acct_live(), acct_bytes(), (unsigned long long)f.n, f.m, (ssize_t)f.at);
            }
        }
        if (!cold) acct_end();
    }
    if (cold)
    {
        attempt4(c, ALLOC_OFF, 0, (size_t)-1, 0, false);
        CHECK(acct_live() + 1 <= *base, "leak", "%s of %s: %zu allocations live after failed first uses, %zu when the first use succeeds", OP_NAME[c.op], t.name().c_str(), acct_live(), *base - 1);
        acct_end();
        by = make(bt, bv);
        check_document("wrong-after-failure", bt, plain_bytes(*by, Par(), "not-usable-again"), persistent(bt, bv), Par());
    }
    else
    {
        expect_value("bystander-changed", *by, bv, "another object");
        CHECK(plain_bytes(*by, Par(), "bystander-changed") == bybytes, "bystander-changed", "another object serializes differently");
    }
}
