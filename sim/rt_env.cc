// C05 (concurrent use), C06 (locales)
#include "rt.hpp"
#include <algorithm>
#include <clocale>
#include <cstdlib>
#include <locale>
#include <locale.h>
#include <memory>

using namespace sim;

std::string damaged(std::string d);

// what one exchange produced, to be compared with the same exchange run alone
struct Seen
{
    Res r = R_OK;
    std::string bytes;
    Val v;
    Err e;
    bool b = false;
};
struct Work
{
    enum K { SER, DESER, COPY, EQUAL, HISTORY } kind = SER;
    const Type *t = nullptr;
    Val v, w;
    std::string doc;
    bool valid_doc = true;
    bool shared = false;
    Par p;
    int form = 0;
    bool skipws = true;
    uint32_t frag = 0;
    Seen seen;
};
static void verify_alone(const Work &w, const Seen &s, const char *where)
{
    const Type &t = *w.t;
    CHECK(s.r == w.seen.r, "result-differs", "%s of %s: %s, but %s when run alone", where, t.name().c_str(), RES_NAME[w.seen.r], RES_NAME[s.r]);
    CHECK(s.bytes == w.seen.bytes, "result-differs", "%s of %s: %s, but %s when run alone", where, t.name().c_str(), esc(w.seen.bytes, 300).c_str(), esc(s.bytes, 300).c_str());
    if (w.kind == Work::DESER)
    {
        std::string d = diff(t, s.v, w.seen.v);
        CHECK(d.empty(), "result-differs", "%s of %s differs from running alone: %s (%s)", where, t.name().c_str(), d.c_str(), esc(w.doc, 300).c_str());
        CHECK(s.e.code == w.seen.e.code && s.e.line == w.seen.e.line && s.e.column == w.seen.e.column && s.e.message == w.seen.e.message, "result-differs",
              "%s of %s: error %d at %d:%d '%s', but %d at %d:%d '%s' when run alone: %s", where, t.name().c_str(), w.seen.e.code, w.seen.e.line, w.seen.e.column, w.seen.e.message.c_str(), s.e.code, s.e.line, s.e.column, s.e.message.c_str(), esc(w.doc, 300).c_str());
    }
}
static Work new_work(const Type &t, Obj *shared, const Val *sv, int only = -1)
{
    Work w;
    w.t = &t;
    GenCfg g;
    g.budget = 10;
    g.small_text = choose(2) == 1;
    static const Work::K KS[] = { Work::SER, Work::DESER, Work::SER, Work::DESER, Work::COPY, Work::EQUAL, Work::HISTORY };
    w.kind = only >= 0 ? (Work::K)only : pick(KS);
    w.shared = shared && w.kind != Work::DESER && w.kind != Work::HISTORY && choose(2);
    w.v = w.shared ? *sv : gen(t, g);
    w.p = random_par();
    w.skipws = choose(2) == 0;
    w.frag = choose(2) ? 1 + choose(9) : 0;
    w.form = (int)choose(w.kind == Work::SER ? (uint32_t)O_N : (uint32_t)S_N);
    if (w.kind == Work::DESER)
    {
        if (t.array && w.form == S_STD) w.form = S_ITER;
        w.v = persistent(t, w.v);
        EncCfg e;
        e.wide = true;
        e.unknown = (int)choose(2);
        e.budget = 20;
        e.newlines = false;
        w.doc = json_encode(t, w.v, e);
        if (choose(3) == 2) { w.doc = damaged(w.doc); w.valid_doc = false; }
        if (!w.valid_doc && w.form == S_CUSTOM) w.form = S_STRING;
    }
    return w;
}
static std::function<void(std::istream &)> g_in_prepare;
static std::function<void(std::ostream &)> g_out_prepare;
static std::function<void()> g_probe;

static Seen perform(const Work &w, Obj *shared, bool alone)
{
    const Type &t = *w.t;
    Seen s;
    switch (w.kind)
    {
        case Work::SER:
        {
            ObjP own;
            Obj *o = w.shared ? shared : nullptr;
            if (!o) { own = make(t, w.v); o = own.get(); }
            Snk k;
            k.kind = (SnkKind)w.form;
            k.drain->area = w.frag;
            k.drain->probe = g_probe;
            k.prepare = g_out_prepare;
            k.cap = size_bound(t, w.shared && shared ? value_of(*shared) : w.v) + 64;
            Par p = w.p;
            Result r = ser(*o, k, p);
            s.r = r.r;
            s.bytes = k.kind == O_BUF ? k.got.substr(0, k.got.find_last_not_of('\x5A') + 1) : k.got;
            CHECK(r.r == R_OK, "spurious-failure", "serialize of %s to %s: %s %s (%s)", t.name().c_str(), SNK_NAME[k.kind], RES_NAME[r.r], r.what.c_str(), p.err.message.c_str());
            CHECK(k.flags_kept, "flags-changed", "stream flags changed");
            if (!alone) check_document("wrong-bytes", t, s.bytes, persistent(t, w.v), w.p);
            break;
        }
        case Work::DESER:
        {
            ObjP o = make(t);
            Src src;
            src.kind = (SrcKind)w.form;
            src.feed->whole(w.doc);
            src.feed->frag = w.frag;
            src.feed->probe = g_probe;
            src.prepare = g_in_prepare;
            src.skipws = w.skipws;
            Par p = w.p;
            Result r = deser(*o, src, p);
            s.r = r.r;
            s.e = p.err;
            o->get(s.v);
            CHECK(src.flags_kept, "flags-changed", "stream flags changed");
            if (w.valid_doc)
            {
                CHECK(r.r == R_OK, "spurious-failure", "deserialize of %s from %s: %s %s (%s at %d:%d): %s", t.name().c_str(), SRC_NAME[src.kind], RES_NAME[r.r], r.what.c_str(), p.err.message.c_str(), p.err.line, p.err.column, esc(w.doc, 400).c_str());
                expect_value("wrong-value", *o, w.v, "deserialized object");
            }
            break;
        }
        case Work::COPY:
        {
            ObjP own;
            Obj *o = w.shared ? shared : nullptr;
            if (!o) { own = make(t, w.v); o = own.get(); }
            ObjP c(o->copy());
            expect_value("wrong-value", *c, w.v, "copy");
            ObjP d = make(t);
            d->assign(*o);
            expect_value("wrong-value", *d, w.v, "assigned object");
            CHECK(d->equal(*o) && o->equal(*d) && c->equal(*o), "wrong-comparison", "a copy of %s does not equal its source", t.name().c_str());
            break;
        }
        case Work::EQUAL:
        {
            ObjP own = make(t, w.v);
            ObjP other;
            Obj *o = w.shared ? shared : nullptr;
            if (!o) { other = make(t, w.v); o = other.get(); }
            CHECK(o->equal(*own) && own->equal(*o), "wrong-comparison", "two %s with the same fields compare different", t.name().c_str());
            CHECK(o->empty() == (t.array ? w.v.a.empty() : !w.v.present), "wrong-value", "empty() of %s", t.name().c_str());
            break;
        }
        default:
        {
            ObjP a = make(t, w.v), b = make(t);
            a->swap(*b);
            expect_value("wrong-value", *b, w.v, "swapped object");
            expect_value("wrong-value", *a, absent(t), "swapped object");
            b->clear();
            expect_value("wrong-value", *b, absent(t), "cleared object");
            CHECK(a->equal(*b), "wrong-comparison", "two empty %s compare different", t.name().c_str());
        }
    }
    return s;
}

// ------------------------------------------------------------------ C05
SCENARIO(C05)
{
    uint32_t n = 2 + choose(3), per = 1 + choose(3);
    const Type &common = pick_type();
    bool same = choose(3) != 0, warm = choose(4) == 3;
    int only = choose(2) ? (choose(2) ? Work::DESER : Work::SER) : -1; // often all threads are in the same code
    Obj *shared = nullptr;
    ObjP sh;
    GenCfg g;
    g.budget = 10;
    Val sv = gen(common, g);
    if (choose(3))
    {
        sh = make(common, sv);
        shared = sh.get();
    }
    if (warm)
    {
        Work w;
        w.t = &common;
        w.v = sv;
        w.kind = Work::SER;
        perform(w, nullptr, false);
    }
    auto all = std::make_shared<std::vector<std::vector<Work>>>(n);
    for (uint32_t i = 0; i < n; ++i)
    {
        const Type &t = same ? common : pick_type();
        for (uint32_t k = 0; k < per; ++k)
            (*all)[i].push_back(new_work(t, &t == &common ? shared : nullptr, &sv, only));
    }
    log("%u threads, %u operations each, first type %s, %s, %s", n, per, common.name().c_str(), shared ? "with a shared object" : "no shared object", warm ? "warm" : "cold");
    for (uint32_t i = 0; i < n; ++i)
        spawn([all, i, shared] {
            for (auto &w : (*all)[i])
            {
                w.seen = perform(w, shared, false);
                log("%s of %s: %s", w.kind == Work::SER ? "serialize" : w.kind == Work::DESER ? "deserialize" : w.kind == Work::COPY ? "copy" : w.kind == Work::EQUAL ? "compare" : "swap/clear", w.t->name().c_str(), RES_NAME[w.seen.r]);
            }
        });
    join_all();
    for (auto &l : *all)
        for (auto &w : l)
        {
            if (w.kind != Work::SER && w.kind != Work::DESER) continue;
            verify_alone(w, perform(w, shared, true), w.kind == Work::SER ? "concurrent serialize" : "concurrent deserialize");
        }
    if (shared) expect_value("shared-changed", *shared, sv, "the shared object");
    count("probe.preempted_runs");
}

// ------------------------------------------------------------------ C06
struct Punct : std::numpunct<char>
{
    char d, t;
    std::string g;
    Punct(char d, char t, std::string g) : d(d), t(t), g(g) {}
    char do_decimal_point() const override { return d; }
    char do_thousands_sep() const override { return t; }
    std::string do_grouping() const override { return g; }
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nein"; }
};
struct OddCtype : std::ctype<char>
{
    static const mask *table()
    {
        static mask m[table_size];
        std::copy(classic_table(), classic_table() + table_size, m);
        for (const char *p = "\"{}[]:,abtfn019.-\\"; *p; ++p) m[(unsigned char)*p] = (mask)(m[(unsigned char)*p] | space);
        m[(unsigned char)' '] = (mask)(m[(unsigned char)' '] & ~space);
        return m;
    }
    OddCtype() : std::ctype<char>(table()) {}
};
static const char *NAMES[] = { "de_DE.UTF-8", "fr_FR.UTF-8", "tr_TR.UTF-8", "ps_AF.UTF-8", "de_DE.ISO-8859-1", "C.utf8", "C" };
static bool have(const char *n)
{
    locale_t l = newlocale(LC_ALL_MASK, n, (locale_t)0);
    if (!l) return false;
    freelocale(l);
    return true;
}
static std::vector<const char *> names()
{
    std::vector<const char *> v;
    for (auto n : NAMES) if (have(n)) v.push_back(n);
    return v;
}
static std::locale cxx_locale(const std::vector<const char *> &nm)
{
    switch (choose(4))
    {
        case 0: return std::locale(std::locale::classic(), new Punct(',', '.', "\3"));
        case 1: return std::locale(std::locale::classic(), new Punct('\'', ' ', "\1"));
        case 2: return std::locale(std::locale(std::locale::classic(), new OddCtype), new Punct(';', '0', "\2\1"));
        default: return std::locale(nm[choose((uint32_t)nm.size())]);
    }
}
static std::string g_all;
static std::locale *g_global;
static std::vector<locale_t> g_thread;
static void change_global(const std::vector<const char *> &nm)
{
    count("fault.locale_changed");
    if (choose(2))
    {
        static const int CATS[] = { LC_ALL, LC_NUMERIC, LC_CTYPE, LC_ALL };
        int cat = pick(CATS);
        const char *n = nm[choose((uint32_t)nm.size())];
        log("setlocale(%d, %s)", cat, n);
        setlocale(cat, n);
    }
    else
    {
        std::locale l = cxx_locale(nm);
        log("std::locale::global(%s)", l.name().c_str());
        std::locale::global(l);
        *g_global = l;
    }
    g_all = setlocale(LC_ALL, nullptr);
}
static void check_locales(const char *when)
{
    CHECK(g_all == setlocale(LC_ALL, nullptr), "locale-changed", "%s: the process locale is %s instead of %s", when, setlocale(LC_ALL, nullptr), g_all.c_str());
    CHECK(uselocale((locale_t)0) == g_thread[(size_t)self()], "locale-changed", "%s: thread %d sees another thread locale", when, self());
    CHECK(std::locale() == *g_global, "locale-changed", "%s: the global C++ locale changed", when);
}
SCENARIO(C06)
{
    if (const char *p = getenv("VSIM_LOCPATH")) setenv("LOCPATH", p, 1);
    auto nm = names();
    if (nm.size() > 3) count("probe.system_locales");
    g_global = new std::locale();
    g_all = setlocale(LC_ALL, nullptr);
    g_thread.assign(8, LC_GLOBAL_LOCALE);
    uint32_t n = choose(2) ? 1 + choose(3) : 0;
    std::vector<Work> work;
    bool threads_ = n > 0;
    uint32_t total = threads_ ? n * (1 + choose(2)) : 1 + choose(4);
    for (uint32_t i = 0; i < total; ++i)
    {
        static const char *FAV[] = { "core.Scalars", "lists.LAll", "numonly.VOnly", "core.Leaf", "core.Repeats" };
        const Type *t = &pick_type();
        if (choose(2)) { const Type *f = find_type(pick(FAV)); if (f) t = f; }
        work.push_back(new_work(*t, nullptr, nullptr));
        if (work.back().kind >= Work::COPY) work.back().kind = Work::SER, work.back().form %= O_N;
    }
    bool before = choose(3) == 2;
    std::vector<Seen> refs;
    if (before) for (auto &w : work) refs.push_back(perform(w, nullptr, true));
    g_probe = [] { check_locales("inside an operation"); };
    std::locale imbued = std::locale::classic();
    bool imbue = choose(2) == 1;
    if (imbue) { imbued = cxx_locale(nm); count("fault.stream_imbued"); }
    g_in_prepare = [&](std::istream &s) { if (imbue) s.imbue(imbued); };
    g_out_prepare = [&](std::ostream &s) { if (imbue) s.imbue(imbued); };
    uint32_t first = choose(4);
    for (uint32_t i = 0; i < first; ++i) change_global(nm);
    auto thread_locale = [&] {
        if (choose(2) == 0) return;
        const char *l = nm[choose((uint32_t)nm.size())];
        static const int MASKS[] = { LC_ALL_MASK, LC_NUMERIC_MASK };
        locale_t x = newlocale(pick(MASKS), l, (locale_t)0);
        if (!x) return;
        log("uselocale(%s)", l);
        uselocale(x);
        g_thread[(size_t)self()] = x;
        count("fault.thread_locale");
    };
    if (!threads_)
    {
        uint32_t calls = 0;
        bool inside = choose(2) == 1;
        g_probe = [&] {
            check_locales("inside an operation");
            if (inside && (++calls & 7) == 0 && choose(3) == 2) change_global(nm);
        };
        thread_locale();
        for (auto &w : work)
        {
            w.seen = perform(w, nullptr, false);
            check_locales(w.kind == Work::SER ? "after serialize" : "after deserialize");
            if (choose(3) == 2) change_global(nm);
            if (choose(4) == 3) thread_locale();
        }
    }
    else
    {
        at_switch([] { CHECK(g_all == setlocale(LC_ALL, nullptr), "locale-changed", "another thread sees the process locale %s instead of %s", setlocale(LC_ALL, nullptr), g_all.c_str());
                       CHECK(std::locale() == *g_global, "locale-changed", "another thread sees a changed global C++ locale"); });
        uint32_t changes = choose(8);
        for (uint32_t i = 0; i < n; ++i)
            spawn([&, i] {
                thread_locale();
                for (size_t k = i; k < work.size(); k += n)
                {
                    work[k].seen = perform(work[k], nullptr, false);
                    check_locales(work[k].kind == Work::SER ? "after serialize" : "after deserialize");
                }
            });
        spawn([&] {
            for (uint32_t i = 0; i < changes; ++i) { change_global(nm); sleep_for(1 + choose(20)); }
        });
        join_all();
        at_switch(nullptr);
    }
    g_probe = nullptr;
    g_in_prepare = nullptr;
    g_out_prepare = nullptr;
    uselocale(LC_GLOBAL_LOCALE);
    std::locale::global(std::locale::classic());
    setlocale(LC_ALL, "C");
    for (size_t i = 0; i < work.size(); ++i)
        verify_alone(work[i], before ? refs[i] : perform(work[i], nullptr, true), work[i].kind == Work::SER ? "serialize under another locale" : "deserialize under another locale");
}
