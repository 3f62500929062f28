// Type-erased access to the messages of one generated header. Included after
// the header, with PG naming the runtime namespace and HAS_* its parts.
#pragma once
#include <list>
#include <memory>
#include <sstream>
#include <type_traits>
#include "core.hpp"
#include "streams.hpp"
#include "value.hpp"

namespace { // one copy per generated header
using namespace sim;

template <class M> struct Acc; // generated

template <class T> void num_get(Val &v, T x)
{
    if (std::is_floating_point<T>::value) v.d = (double)x;
    else if (std::is_same<T, bool>::value || std::is_signed<T>::value) v.i = (int64_t)x;
    else v.u = (uint64_t)x;
}
template <class T> T num_of(const Val &v)
{
    if (std::is_floating_point<T>::value) return (T)v.d;
    if (std::is_same<T, bool>::value || std::is_signed<T>::value) return (T)v.i;
    return (T)v.u;
}

template <class T, class = void> struct Fld; // single value or element

#ifdef HAS_NUM
template <class T> struct Fld<PG::field<T>>
{
    typedef PG::field<T> F;
    static void get(const F &f, Val &v)
    {
        v.present = !f.empty();
        T x = (T)f, y = x == (T)0 ? (T)1 : (T)0;
        num_get<T>(v, x);
        if (!(x == x)) return; // NaN
        if (v.present ? !(f == x) || f != x || f == y || !(f != y) : f == x || f == y) odd_compare() = "a numeric field compares wrongly with a value";
        if (!(f == f) || f != f) odd_compare() = "a numeric field does not equal itself";
    }
    static void set(F &f, const Val &v, uint32_t how)
    {
        if (!v.present)
        {
            Real r;
            if (how % 2 == 0) f.clear(); else { F t; f = t; }
            return;
        }
        T x = num_of<T>(v);
        Real r;
        switch (how % 4)
        {
            case 0: f = x; break;
            case 1: { F t; t = x; f = t; break; }
            case 2: { T t = x; f.swap(t); break; }
            default: { F t; t = x; f.swap(t); break; }
        }
    }
};
#endif
template <class T> struct Fld<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
{
    static void get(const T &f, Val &v) { v.present = true; num_get<T>(v, f); }
    static void set(T &f, const Val &v, uint32_t) { f = num_of<T>(v); }
};
#ifdef HAS_STR
template <> struct Fld<PG::string_field>
{
    typedef PG::string_field F;
    static void get(const F &f, Val &v)
    {
        v.present = !f.empty();
        v.s = *f;
        std::string y = v.s + "x";
        bool c = v.s.find('\0') == std::string::npos;
        if (v.present ? !(f == v.s) || f != v.s || f == y || !(f != y) : f == v.s || f == y) odd_compare() = "a text field compares wrongly with a text";
        if (c && (v.present ? !(f == v.s.c_str()) || f != v.s.c_str() || f == y.c_str() || !(f != y.c_str()) : f == v.s.c_str())) odd_compare() = "a text field compares wrongly with a C string";
        if (!(f == f) || f != f) odd_compare() = "a text field does not equal itself";
    }
    static void set(F &f, const Val &v, uint32_t how)
    {
        if (!v.present)
        {
            Real r;
            switch (how % 3) { case 0: f.clear(); break; case 1: { F t; f = t; break; } default: f.empty(true); }
            return;
        }
        std::string x = v.s;
        Real r;
        switch (how % 7)
        {
            case 1: if (x.find('\0') == std::string::npos) { f = x.c_str(); break; } f = x; break;
            case 2: { F t(x); f = t; break; }
            case 3: { std::string t = x; f.swap(t); break; }
            case 4: if (!x.empty()) { f.clear(); *f = x; break; } f = x; break;
            case 5: f.empty(false); *f = x; break;
            case 6: { F t; t = x; f.swap(t); break; }
            default: f = x;
        }
    }
};
#endif
template <> struct Fld<std::vector<uint8_t>>
{
    typedef std::vector<uint8_t> F;
    static void get(const F &f, Val &v) { v.s.assign(f.begin(), f.end()); v.present = !f.empty(); }
    static void set(F &f, const Val &v, uint32_t how)
    {
        F x(v.s.begin(), v.s.end());
        if (how % 2) { f.swap(x); return; }
        Real r;
        f = x;
    }
};
template <class M> void get_msg(const M &m, Val &v);
template <class M> struct Fld<M, typename std::enable_if<std::is_class<typename M::serializer_type>::value>::type>
{
    static void get(const M &f, Val &v) { get_msg(f, v); }
    static void set(M &f, const Val &v, uint32_t how)
    {
        if (how % 3 == 0) { set_msg(f, v); return; }
        M t;
        set_msg(t, v);
        Real r;
        if (how % 3 == 1) f = t; else f.swap(t);
    }
    static void set_msg(M &f, const Val &v);
};
template <class C> struct Seq
{
    typedef typename C::value_type E;
    static void get(const C &c, Val &v)
    {
        v.a.clear();
        for (auto it = c.begin(); it != c.end(); ++it)
        {
            v.a.emplace_back();
            E e = *it;
            Fld<E>::get(e, v.a.back());
            if (!std::is_same<E, typename StrT::T>::value) v.a.back().present = true;
        }
        v.present = !v.a.empty();
    }
    static void set(C &c, const Val &v, uint32_t how)
    {
        C t;
        C *p = how % 3 ? &t : &c;
        if (p == &c) { Real r; c.clear(); }
        for (auto &x : v.a)
        {
            E e = E();
            Fld<E>::set(e, x, 0);
            Real r;
            p->push_back(e);
        }
        if (p == &c) return;
        Real r;
        if (how % 3 == 1) c = t; else std::swap(c, t);
    }
    struct StrT
    {
#ifdef HAS_STR
        typedef PG::string_field T;
#else
        typedef void T;
#endif
    };
};
template <class E> struct Fld<std::list<E>> : Seq<std::list<E>> {};
template <class E> struct Fld<std::vector<E>, typename std::enable_if<!std::is_same<E, uint8_t>::value>::type> : Seq<std::vector<E>> {};

template <class M> void get_msg(const M &m, Val &v)
{
    v = Val();
    v.a.resize(Acc<M>::desc().fields.size());
    Acc<M>::each(m, [&](size_t i, const auto &f) { Fld<typename std::decay<decltype(f)>::type>::get(f, v.a[i]); });
    normalise(Acc<M>::desc(), v);
}
template <class M> void Fld<M, typename std::enable_if<std::is_class<typename M::serializer_type>::value>::type>::set_msg(M &m, const Val &v)
{
    Acc<M>::each(m, [&](size_t i, auto &f) { Fld<typename std::decay<decltype(f)>::type>::set(f, v.a[i], 0); });
}

// ---------------------------------------------------------------- streams
struct CustomIn : PG::istream
{
    Feed &f;
    size_t pos = 0, lim = 0;
    int l = 1, c = 1;
    bool fin = false;
    explicit CustomIn(Feed &f) : f(f) { load(); }
    void load() { if (pos < lim || fin) return; size_t n = f.fill(pos); if (!n) fin = true; lim = pos + n; }
    int peek() override { Harness h; return fin ? 0 : (int)f.at(pos); }
    void next() override
    {
        Harness h;
        if (fin) return;
        if (f.at(pos) == '\n') { ++l; c = 1; } else ++c;
        ++pos;
        load();
    }
    bool eof() const override { return fin; }
    int line() const override { return l; }
    int column() const override { return c; }
};
struct CustomOut : PG::ostream
{
    Drain &d;
    explicit CustomOut(Drain &d) : d(d) {}
    PG::ostream &operator<<(const std::string &v) override { Harness h; d.put(v.data(), v.size()); return *this; }
    PG::ostream &operator<<(const char *v) override { Harness h; d.put(v, strlen(v)); return *this; }
    PG::ostream &operator<<(char *v) override { Harness h; d.put(v, strlen(v)); return *this; }
    PG::ostream &operator<<(char v) override { Harness h; d.put(&v, 1); return *this; }
};
struct ParBox
{
    PG::Parameters own, &pp;
    Par &p;
    // the user's object, with what the user put into it
    struct Kept { PG::Parameters pp; bool ascii = false, nulls = false; };
    static Kept &kept(std::shared_ptr<void> &k)
    {
        if (!k) k = std::make_shared<Kept>();
        return *static_cast<Kept *>(k.get());
    }
    explicit ParBox(Par &p) : pp(p.keep ? kept(*p.keep).pp : own), p(p)
    {
        if (p.keep)
        {   // a flag is set when it has to change; otherwise it is as it was set before
            Kept &k = kept(*p.keep);
            if (p.use && p.ascii != k.ascii) pp.ensure_ascii = k.ascii = p.ascii;
            if (p.use && p.nulls != k.nulls) pp.serialize_null = k.nulls = p.nulls;
        }
        else
        {
            pp.ensure_ascii = p.ascii;
            pp.serialize_null = p.nulls;
        }
        if (!p.keep) pp.error = PG::ErrorInfo(PG::error_code::PGERR_INVALID_NAME, "left over", 77, 99); // from an earlier use
        if (!p.use) p.err = Err();
    }
    PG::Parameters *get() { return p.use ? &pp : nullptr; }
    ~ParBox()
    {
        if (!p.use) return;
        p.err.code = (int)pp.error.code;
        p.err.line = pp.error.line;
        p.err.column = pp.error.column;
        p.err.message = pp.error.message;
    }
};

template <class T> struct IsMsg
{
    template <class U> static char f(typename U::serializer_type *);
    template <class U> static long f(...);
    static const bool value = sizeof(f<T>(nullptr)) == 1;
};

// ---- message or array, one interface
template <class T, bool = IsMsg<T>::value> struct Op;
template <class M> struct Op<M, true>
{
    static bool de(M &m, const std::string &s, PG::Parameters *p) { return m.deserialize(s, p); }
    static bool de(M &m, const std::vector<char> &s, PG::Parameters *p) { return m.deserialize(s, p); }
    static bool de(M &m, const char *s, size_t n, PG::Parameters *p) { return m.deserialize(s, n, p); }
    static bool de(M &m, std::istream &s, PG::Parameters *p) { return m.deserialize(s, p); }
    static bool de(M &m, PG::istream &s, PG::Parameters *p) { return m.deserialize(s, p); }
    static bool se(M &m, std::string &s, PG::Parameters *p) { return m.serialize(s, p); }
    static bool se(M &m, std::vector<char> &s, PG::Parameters *p) { return m.serialize(s, p); }
    static bool se(M &m, char *s, size_t n, PG::Parameters *p) { return m.serialize(s, n, p); }
    static bool se(M &m, std::ostream &s, PG::Parameters *p) { return m.serialize(s, p); }
    static bool se(M &m, PG::ostream &s, PG::Parameters *p) { return m.serialize(s, p); }
    static void clear(M &m) { m.clear(); }
    static bool empty(const M &m) { return m.empty(); }
    static bool eq(const M &a, const M &b) { return a == b; }
    static bool ne(const M &a, const M &b) { return a != b; }
    static bool equal(const M &a, const M &b) { return a.equal(b); }
    static void swap(M &a, M &b) { a.swap(b); }
    static void get(const M &m, Val &v) { get_msg(m, v); }
    static void set(M &m, const Val &v) { Fld<M>::set_msg(m, v); }
    static void set_field(M &m, size_t idx, const Val &v, uint32_t how)
    {
        Acc<M>::each(m, [&](size_t i, auto &f) { if (i == idx) Fld<typename std::decay<decltype(f)>::type>::set(f, v, how); });
    }
};
#ifdef HAS_ARR
template <class C> struct Op<C, false>
{
    static bool de(C &m, const std::string &s, PG::Parameters *p) { return PG::deserialize_array(m, s, p); }
    static bool de(C &m, const std::vector<char> &s, PG::Parameters *p) { return PG::deserialize_array(m, s, p); }
    static bool de(C &m, const char *s, size_t n, PG::Parameters *p) { return PG::deserialize_array(m, s, n, p); }
    static bool de(C &m, PG::istream &s, PG::Parameters *p) { return PG::deserialize_array(m, s, p); }
    static bool de(C &m, std::istream &s, PG::Parameters *p)
    {
        std::istreambuf_iterator<char> b(s), e;
        struct It
        {   // istreambuf_iterator compares through non-const access; keep it simple
            std::istreambuf_iterator<char> i;
            char operator*() const { return *i; }
            It &operator++() { ++i; return *this; }
            It operator++(int) { It c(*this); ++i; return c; }
            bool operator==(const It &o) const { return i.equal(o.i); }
            bool operator!=(const It &o) const { return !i.equal(o.i); }
            typedef std::input_iterator_tag iterator_category;
            typedef char value_type;
            typedef ptrdiff_t difference_type;
            typedef const char *pointer;
            typedef char reference;
        };
        PG::iterator_istream<It> is(It{ b }, It{ e });
        return PG::deserialize_array(m, is, p);
    }
    static bool se(C &m, std::string &s, PG::Parameters *p) { return PG::serialize_array(m, s, p); }
    static bool se(C &m, std::vector<char> &s, PG::Parameters *p) { return PG::serialize_array(m, s, p); }
    static bool se(C &m, PG::ostream &s, PG::Parameters *p) { return PG::serialize_array(m, s, p); }
    static bool se(C &m, char *s, size_t n, PG::Parameters *p)
    {
        PG::mem_iterator<char> it(s, n);
        PG::iterator_ostream<PG::mem_iterator<char>> os(it);
        return PG::serialize_array(m, os, p) && !os.iterator().overflow();
    }
    static bool se(C &m, std::ostream &s, PG::Parameters *p)
    {
        s.width(0);
        std::ostream_iterator<char> it(s);
        PG::iterator_ostream<std::ostream_iterator<char>> os(it);
        return PG::serialize_array(m, os, p) && s.good();
    }
    static void clear(C &m) { m.clear(); }
    static bool empty(const C &m) { return m.empty(); }
    static bool eq(const C &a, const C &b) { return a == b; }
    static bool ne(const C &a, const C &b) { return !(a == b); }
    static bool equal(const C &a, const C &b) { return a == b; }
    static void swap(C &a, C &b) { std::swap(a, b); }
    static void get(const C &c, Val &v) { Seq<C>::get(c, v); }
    static void set(C &c, const Val &v) { Seq<C>::set(c, v, 0); }
    static void set_field(C &c, size_t, const Val &v, uint32_t how) { Seq<C>::set(c, v, how); }
};
#endif

template <class T> struct TObj : Obj
{
    std::unique_ptr<T> m;
    typedef Op<T> O;
    explicit TObj(const Type *t, T *p) : m(p) { type = t; }
    ~TObj() override { Real r; m.reset(); }
    void get(Val &v) const override { Harness h; O::get(*m, v); }
    void set(const Val &v) override { O::set(*m, v); }
    void set_field(size_t i, const Val &v, uint32_t how) override { O::set_field(*m, i, v, how); }
    Obj *copy() const override { T *n; { Real r; n = new T(*m); } return new TObj(type, n); }
    Obj *move() override { T *n; { Real r; n = new T(std::move(*m)); } return new TObj(type, n); }
    void assign(const Obj &o) override { Real r; *m = *static_cast<const TObj &>(o).m; }
    void swap(Obj &o) override { Real r; O::swap(*m, *static_cast<TObj &>(o).m); }
    void clear() override { Real r; O::clear(*m); }
    bool empty() const override { Real r; return O::empty(*m); }
    bool equal(const Obj &o) const override
    {
        const T &x = *static_cast<const TObj &>(o).m;
        bool a, b, c;
        { Real r; a = O::eq(*m, x); b = O::ne(*m, x); c = O::equal(*m, x); }
        if (a == b || a != c) fail("comparison-inconsistent", "==, != and equal() disagree: %d %d %d", a, b, c);
        return a;
    }
    bool deser(Src &s, Par &p) override
    {
        ParBox pb(p);
        Feed &f = *s.feed;
        size_t n = f.end < f.data.size() ? f.end : f.data.size();
        switch (s.kind)
        {
            case S_STRING: { std::string t(f.data, 0, n); if (t.size() < f.data.size()) count("fault.document_cut"); Real r; return O::de(*m, t, pb.get()); }
            case S_VECTOR: { std::vector<char> t(f.data.begin(), f.data.begin() + (long)n); if (n < f.data.size()) count("fault.document_cut"); Real r; return O::de(*m, t, pb.get()); }
            case S_MEM:
            {
                if (n < f.data.size()) count("fault.document_cut");
                std::unique_ptr<char, void (*)(void *)> b((char *)::malloc(n ? n : 1), ::free);
                memcpy(b.get(), f.data.data(), n);
                Real r;
                return O::de(*m, b.get() + (n ? 0 : 1), n, pb.get());
            }
            case S_STD:
            {
                InBuf ib(f, s.unbuffered);
                std::istream is(&ib);
                is.flags((is.flags() & ~std::ios_base::skipws) | s.extra | (s.skipws ? std::ios_base::skipws : std::ios_base::fmtflags()));
                if (s.prepare) s.prepare(is);
                if (s.prefailed) is.setstate(std::ios_base::failbit);
                else if (s.exc) is.exceptions(s.exc);
                auto fl = is.flags();
                struct Fin { std::istream &is; Src &s; InBuf &ib; std::ios_base::fmtflags fl; ~Fin() { s.flags_kept = is.flags() == fl; s.consumed = ib.consumed(); } } fin = { is, s, ib, fl };
                Real r;
                return O::de(*m, is, pb.get());
            }
            case S_CUSTOM: { CustomIn ci(f); Real r; return O::de(*m, ci, pb.get()); }
            default:
            {
                Real r;
                PG::iterator_istream<FeedIter> ii((FeedIter(&f)), FeedIter());
                return O::de(*m, ii, pb.get());
            }
        }
    }
    bool ser(Snk &k, Par &p) override
    {
        ParBox pb(p);
        switch (k.kind)
        {
            case O_STRING: { std::string t; if (k.reserve) t.reserve(k.reserve); t.append(k.pre); struct F { std::string &t; Snk &k; ~F() { k.got = t; } } fin = { t, k }; Real r; return O::se(*m, t, pb.get()); }
            case O_VECTOR: { std::vector<char> t; if (k.reserve) t.reserve(k.reserve); t.insert(t.end(), k.pre.begin(), k.pre.end()); struct F { std::vector<char> &t; Snk &k; ~F() { k.got.assign(t.begin(), t.end()); } } fin = { t, k }; Real r; return O::se(*m, t, pb.get()); }
            case O_STD:
            {
                if (k.os) { Real r; return O::se(*m, *k.os, pb.get()); }
                OutBuf ob(*k.drain);
                std::ostream os(&ob);
                os.flags(os.flags() | k.extra);
                os.width(k.width);
                os.fill(k.fill);
                if (k.unitbuf) os.setf(std::ios_base::unitbuf);
                if (k.prepare) k.prepare(os);
                if (k.prefailed) os.setstate(std::ios_base::failbit);
                else if (k.exc) os.exceptions(k.exc);
                auto fl = os.flags();
                struct Fin { std::ostream &os; Snk &k; OutBuf &ob; std::ios_base::fmtflags fl; ~Fin() { k.flags_kept = os.flags() == fl; k.got = ob.accepted(); } } fin = { os, k, ob, fl };
                Real r;
                return O::se(*m, os, pb.get());
            }
            case O_BUF:
            {
                if (k.buf) { Real r; return O::se(*m, k.buf, k.cap, pb.get()); }
                const size_t G = 16;
                std::unique_ptr<char, void (*)(void *)> b((char *)::malloc(k.cap + G), ::free);
                memset(b.get(), 0x5A, k.cap + G);
                // the buffer ends where the allocation ends: anything written past it is an overflow
                char *p = b.get() + G;
                struct Fin { char *b, *p; Snk &k; ~Fin() { k.bounds_kept = true; for (char *q = b; q < p; ++q) if (*q != 0x5A) k.bounds_kept = false; k.got.assign(p, k.cap); } } fin = { b.get(), p, k };
                Real r;
                return O::se(*m, p, k.cap, pb.get());
            }
            case O_CUSTOM: { CustomOut co(*k.drain); struct F { Snk &k; ~F() { k.got = k.drain->got; } } fin = { k }; Real r; return O::se(*m, co, pb.get()); }
            default:
            {
                struct F { Snk &k; ~F() { k.got = k.drain->got; } } fin = { k };
                DrainIter it = { k.drain };
                Real r;
                PG::iterator_ostream<DrainIter> io(it);
                return O::se(*m, io, pb.get());
            }
        }
    }
};
template <class T, int N> struct Make
{
    static const Type *&slot() { static const Type *t = nullptr; return t; }
    static Obj *make() { T *n; { Real r; n = new T(); } return new TObj<T>(slot(), n); }
};
template <class T, bool = IsMsg<T>::value> struct Unit { static const size_t value = sizeof(T); };
template <class T> struct Unit<T, false> { static const size_t value = sizeof(typename T::value_type); };
template <class T> void reg_type(const MsgDesc &d, bool array)
{
    types().push_back(Type{ &d, array, &Make<T, 0>::make, Unit<T>::value });
    Make<T, 0>::slot() = &types().back();
}
} // namespace
