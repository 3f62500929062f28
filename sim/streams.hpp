// Simulated sources and sinks handed to the code under test.
#pragma once
#include <cstring>
#include <functional>
#include <iterator>
#include <istream>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include "core.hpp"

namespace sim {

struct StreamFault : std::runtime_error { StreamFault() : std::runtime_error("simulated stream fault") {} };

// Bytes that arrive over time.
struct Feed
{
    std::string data;
    size_t end = 0;          // number of bytes that will ever arrive
    int tail = 0;            // what happens there: 0 end of stream, 1 exception
    uint32_t frag = 0;       // largest fragment, 0 = no fragmentation
    uint32_t delay = 0;      // longest pause between fragments
    std::function<void()> probe;
    std::function<char(size_t)> endless;
    bool faulted = false, ended = false;
    size_t high = 0;         // bytes handed out so far

    virtual ~Feed() {}
    void whole(const std::string &d) { data = d; end = d.size(); }
    // bytes available at pos (0: no more)
    virtual size_t fill(size_t pos)
    {
        Harness h;
        if (probe) probe();
        if (pos < high) return high - pos;
        if (pos >= end)
        {
            if (tail == 1) { faulted = true; count("fault.stream_throws"); throw StreamFault(); }
            if (end < data.size() && !ended) count("fault.stream_ends_early");
            ended = true;
            return 0;
        }
        size_t n = end - pos;
        if (frag) { n = 1 + choose((uint32_t)(n < frag ? n : frag)); if (pos) count("fault.fragment"); }
        if (delay && pos) { count("fault.delay"); sleep_for(choose(delay + 1)); }
        high = pos + n;
        return n;
    }
    char at(size_t pos) const { return endless ? endless(pos) : data[pos]; }
};

// std::streambuf over a feed
class InBuf : public std::streambuf
{
    Feed &f;
    size_t pos = 0;
    std::string chunk;
    bool nobuf;
    char one;
  public:
    InBuf(Feed &f, bool unbuffered) : f(f), nobuf(unbuffered) {}
    size_t consumed() const { return pos - (size_t)(egptr() - gptr()); }
  protected:
    int_type underflow() override
    {
        Harness h;
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t n = f.fill(pos);
        if (n == 0) return traits_type::eof();
        if (nobuf) n = 1;
        if (n > 65536) n = 65536;
        if (n == 1)
        {
            one = f.at(pos);
            pos += 1;
            setg(&one, &one, &one + 1);
            return traits_type::to_int_type(one);
        }
        chunk.resize(n);
        for (size_t i = 0; i < n; ++i) chunk[i] = f.at(pos + i);
        pos += n;
        setg(&chunk[0], &chunk[0], &chunk[0] + n);
        return traits_type::to_int_type(*gptr());
    }
};

// iterator over a feed (for iterator_istream)
struct FeedIter
{
    Feed *f;
    size_t pos;
    size_t lim; // valid up to here
    bool fin;
    FeedIter() : f(nullptr), pos(0), lim(0), fin(true) {}
    explicit FeedIter(Feed *f) : f(f), pos(0), lim(0), fin(false) { load(); }
    void load()
    {
        if (pos < lim) return;
        size_t n = f->fill(pos);
        if (!n) fin = true;
        lim = pos + n;
    }
    char operator*() const { return f->at(pos); }
    FeedIter &operator++() { ++pos; load(); return *this; }
    FeedIter operator++(int) { FeedIter i(*this); ++*this; return i; }
    bool operator==(const FeedIter &o) const { return fin == o.fin && (fin || pos == o.pos); }
    bool operator!=(const FeedIter &o) const { return !(*this == o); }
    typedef std::input_iterator_tag iterator_category;
    typedef char value_type;
    typedef ptrdiff_t difference_type;
    typedef const char *pointer;
    typedef char reference;
};

// Plan of a sink: accepts `limit` bytes, then fails.
struct Drain
{
    std::string got;
    size_t limit = (size_t)-1;
    int mode = 0;            // 0 refuse, 1 throw
    size_t sync_limit = (size_t)-1; // number of successful sync() calls
    uint32_t area = 0;       // size of the put area (0 = unbuffered)
    uint32_t delay = 0;
    std::function<void()> probe;
    bool failed = false;
    size_t calls = 0;
    bool put(const char *p, size_t n)
    {
        if (probe && (calls++ & 7) == 0) probe();
        size_t room = limit - got.size();
        if (delay && choose(8) == 7) sleep_for(choose(delay));
        if (n > room)
        {
            got.append(p, room);
            if (!failed) count(mode ? "fault.sink_throws" : "fault.sink_refuses");
            failed = true;
            if (mode) throw StreamFault();
            return false;
        }
        got.append(p, n);
        return true;
    }
};
class OutBuf : public std::streambuf
{
    Drain &d;
    std::string area;
  public:
    explicit OutBuf(Drain &d) : d(d)
    {
        if (d.area) { area.resize(d.area); setp(&area[0], &area[0] + area.size()); }
    }
    // everything the stream accepted
    std::string accepted() const { return d.got + std::string(pbase() ? pbase() : "", (size_t)(pptr() - pbase())); }
  protected:
    bool drain()
    {
        size_t n = (size_t)(pptr() - pbase());
        if (!n) return true;
        std::string t(pbase(), n);
        setp(&area[0], &area[0] + area.size());
        return d.put(t.data(), t.size());
    }
    int_type overflow(int_type c) override
    {
        Harness h;
        if (d.failed && d.mode == 0) return traits_type::eof();
        if (area.size())
        {
            if (!drain()) return traits_type::eof();
            if (c != traits_type::eof()) { *pptr() = (char)c; pbump(1); }
            return 0;
        }
        if (c == traits_type::eof()) return 0;
        char ch = (char)c;
        return d.put(&ch, 1) ? traits_type::to_int_type(ch) : traits_type::eof();
    }
    std::streamsize xsputn(const char *p, std::streamsize n) override
    {
        Harness h;
        std::streamsize i = 0;
        for (; i < n; ++i) if (sputc_(p[i]) == traits_type::eof()) break;
        return i;
    }
    int_type sputc_(char c)
    {
        if (pptr() < epptr()) { *pptr() = c; pbump(1); return (unsigned char)c; }
        return overflow((unsigned char)c);
    }
    int sync() override
    {
        Harness h;
        if (d.sync_limit-- == 0) { d.sync_limit = 0; d.failed = true; count("fault.sink_sync"); if (d.mode) throw StreamFault(); return -1; }
        return drain() ? 0 : -1;
    }
};
// iterator over a drain (for iterator_ostream)
struct DrainIter
{
    Drain *d;
    struct Ref { Drain *d; void operator=(char c) { Harness h; d->put(&c, 1); } };
    Ref operator*() { return Ref{ d }; }
    DrainIter &operator++() { return *this; }
    DrainIter operator++(int) { return *this; }
    typedef std::output_iterator_tag iterator_category;
    typedef void value_type;
    typedef void difference_type;
    typedef void pointer;
    typedef void reference;
};

enum SrcKind { S_STRING, S_VECTOR, S_MEM, S_STD, S_CUSTOM, S_ITER, S_N };
enum SnkKind { O_STRING, O_VECTOR, O_STD, O_BUF, O_CUSTOM, O_ITER, O_N };
extern const char *SRC_NAME[], *SNK_NAME[];

struct Src
{
    SrcKind kind = S_STRING;
    Feed own, *feed = &own;
    bool skipws = true, unbuffered = false, prefailed = false;
    std::ios_base::iostate exc = std::ios_base::goodbit;
    std::ios_base::fmtflags extra = {};
    std::function<void(std::istream &)> prepare;
    // results
    bool flags_kept = true;
    size_t consumed = 0;
    Src() = default;
    Src(const Src &) = delete;
};
struct Snk
{
    SnkKind kind = O_STRING;
    Drain own, *drain = &own;
    size_t cap = 0;          // O_BUF
    bool prefailed = false, unitbuf = false;
    std::ios_base::iostate exc = std::ios_base::goodbit;
    std::ios_base::fmtflags extra = {};
    int width = 0;
    char fill = ' ';
    std::function<void(std::ostream &)> prepare;
    // a sink that lives longer than one call
    std::string pre;         // what an O_STRING or O_VECTOR holds beforehand
    size_t reserve = 0;
    std::ostream *os = nullptr;
    char *buf = nullptr;     // O_BUF: the block to write to, cap bytes
    // results
    std::string got;
    bool flags_kept = true, bounds_kept = true;
    Snk() = default;
    Snk(const Snk &) = delete;
};

struct Err
{
    int code = 0, line = 0, column = 0;
    std::string message;
};
struct Par
{
    bool use = true, ascii = false, nulls = false;
    std::shared_ptr<void> *keep = nullptr; // the parameters object itself, used again and again
    Err err;
};

struct Val;
struct MsgDesc;
struct Type;
struct Obj
{
    const Type *type = nullptr;
    virtual ~Obj() {}
    virtual void get(Val &out) const = 0;
    virtual void set(const Val &v) = 0;
    virtual void set_field(size_t idx, const Val &v, uint32_t how) = 0;
    virtual bool deser(Src &s, Par &p) = 0;
    virtual bool ser(Snk &k, Par &p) = 0;
    virtual Obj *copy() const = 0;
    virtual Obj *move() = 0;
    virtual void assign(const Obj &o) = 0;
    virtual void swap(Obj &o) = 0;
    virtual void clear() = 0;
    virtual bool empty() const = 0;
    virtual bool equal(const Obj &o) const = 0;
};
} // namespace sim
