#include "rt.hpp"
#include <algorithm>

namespace sim {
const char *RES_NAME[] = { "success", "failure", "exception" };
const char *SRC_NAME[] = { "std::string", "std::vector<char>", "memory block", "std::istream", "custom istream", "iterator_istream" };
const char *SNK_NAME[] = { "std::string", "std::vector<char>", "std::ostream", "char buffer", "custom ostream", "iterator_ostream" };

Result deser(Obj &o, Src &s, Par &p) { return guarded([&] { return o.deser(s, p); }); }
Result ser(Obj &o, Snk &k, Par &p) { return guarded([&] { return o.ser(k, p); }); }

ObjP make(const Type &t) { return ObjP(t.make()); }
ObjP make(const Type &t, const Val &v)
{
    ObjP o(t.make());
    o->set(v);
    return o;
}
Val value_of(const Obj &o) { Val v; o.get(v); return v; }

static std::vector<const Type *> ordered(bool arrays)
{
    std::vector<const Type *> v;
    for (auto &t : types()) if (arrays || !t.array) v.push_back(&t);
    auto rank = [](const Type *t) { return t->name() == "core.Tiny" ? 0 : t->array ? 2 : 1; };
    std::sort(v.begin(), v.end(), [&](const Type *a, const Type *b) { return rank(a) != rank(b) ? rank(a) < rank(b) : a->name() < b->name(); });
    return v;
}
const Type &pick_type(bool arrays)
{
    static std::vector<const Type *> all = ordered(true), msgs = ordered(false);
    auto &v = arrays ? all : msgs;
    return *v[choose((uint32_t)v.size())];
}
const Type &pick_type_of(const std::string &model)
{
    std::vector<const Type *> v;
    for (auto t : ordered(true)) if (t->d->model == model) v.push_back(t);
    return *v[choose((uint32_t)v.size())];
}
Par random_par()
{
    Par p;
    p.use = choose(5) != 4;
    if (p.use) { p.ascii = choose(3) == 2; p.nulls = choose(3) == 2; }
    return p;
}
std::string par_text(const Par &p)
{
    return p.use ? std::string("ensure_ascii=") + (p.ascii ? "1" : "0") + " serialize_null=" + (p.nulls ? "1" : "0") : "no parameters";
}
static const std::ios_base::fmtflags EXTRA[] = { {}, std::ios_base::hex, std::ios_base::showbase | std::ios_base::uppercase, std::ios_base::boolalpha | std::ios_base::showpoint,
                                                 std::ios_base::fixed, std::ios_base::scientific | std::ios_base::showpos, std::ios_base::oct, std::ios_base::left, std::ios_base::internal };
void random_src(Src &s, const std::string &doc, int only)
{
    s.kind = (SrcKind)(only >= 0 ? only : (int)choose(S_N));
    s.feed->whole(doc);
    if (s.kind == S_STD || s.kind == S_CUSTOM || s.kind == S_ITER)
    {
        static const uint32_t F[] = { 0, 1, 2, 3, 7, 16, 64 };
        s.feed->frag = pick(F);
    }
    if (s.kind == S_STD)
    {
        s.skipws = choose(2) == 0;
        s.unbuffered = choose(4) == 3;
        s.extra = pick(EXTRA);
        if (choose(4) == 3) s.exc = std::ios_base::badbit;
    }
}
void random_snk(Snk &k, size_t hint, int only)
{
    k.kind = (SnkKind)(only >= 0 ? only : (int)choose(O_N));
    if (k.kind == O_STD)
    {
        static const uint32_t A[] = { 0, 1, 2, 7, 64, 512 };
        k.drain->area = pick(A);
        k.unitbuf = choose(6) == 5;
        k.extra = pick(EXTRA);
        if (choose(6) == 5) { k.width = 1 + (int)choose(20); k.fill = choose(2) ? '*' : ' '; count("probe.stream_width"); }
        // (an exception out of a unitbuf flush ends in ~sentry(): std::terminate by the library, not a protogen matter)
        if (choose(4) == 3 && !k.unitbuf) k.exc = std::ios_base::badbit | std::ios_base::failbit;
    }
    k.cap = hint;
}
std::string plain_bytes(Obj &o, const Par &p, const char *kind)
{
    Snk k;
    Par q = p;
    Result r = ser(o, k, q);
    if (r.r != R_OK) fail(kind, "fault-free serialization to std::string: %s %s (%s)", RES_NAME[r.r], r.what.c_str(), q.err.message.c_str());
    return k.got;
}
void expect_value(const char *kind, const Obj &o, const Val &want, const char *where)
{
    Val got = value_of(o);
    std::string d = diff(*o.type, want, got);
    if (!d.empty()) fail(kind, "%s: %s: %s", where, o.type->name().c_str(), d.c_str());
    bool e = o.empty();
    bool w = o.type->array ? want.a.empty() : !want.present;
    if (e != w) fail(kind, "%s: %s: empty() is %d for %s", where, o.type->name().c_str(), e, show(*o.type, want).c_str());
}
void check_document(const char *kind, const Type &t, const std::string &doc, const Val &want, const Par &p)
{
    JV j;
    std::string why;
    if (!json_parse(doc, j, why)) fail(kind, "%s: not standard JSON (%s): %s", t.name().c_str(), why.c_str(), esc(doc, 400).c_str());
    Val got;
    if (!json_decode(t, j, got, why)) fail(kind, "%s: independent decoder: %s: %s", t.name().c_str(), why.c_str(), esc(doc, 400).c_str());
    std::string d = diff(t, want, got);
    if (!d.empty()) fail(kind, "%s: independent decoder: %s: %s", t.name().c_str(), d.c_str(), esc(doc, 400).c_str());
    if (p.use && p.nulls && !json_all_fields(t, j, why)) fail(kind, "serialize_null: %s: %s", why.c_str(), esc(doc, 400).c_str());
    if (p.use && p.ascii && !strings_ascii(t, j, doc, why)) fail(kind, "ensure_ascii: %s: %s", why.c_str(), esc(doc, 400).c_str());
}
} // namespace sim
