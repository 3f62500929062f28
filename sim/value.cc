#include "value.hpp"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstring>
#include <charconv>
#include <set>

namespace sim {

std::deque<Type> &types() { static std::deque<Type> v; return v; }
const Type *find_type(const std::string &name)
{
    for (auto &t : types()) if (t.name() == name) return &t;
    return nullptr;
}

// ------------------------------------------------------------------ values
Val absent_msg(const MsgDesc &d)
{
    Val v;
    v.a.resize(d.fields.size());
    for (size_t i = 0; i < d.fields.size(); ++i)
        if (d.fields[i].kind == K_MSG && !d.fields[i].repeated) v.a[i] = absent_msg(*d.fields[i].msg);
    return v;
}
Val absent(const Type &t) { return t.array ? Val() : absent_msg(*t.d); }

void normalise(const MsgDesc &d, Val &v)
{
    bool any = false;
    if (v.a.size() < d.fields.size()) v.a.resize(d.fields.size());
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        const FieldDesc &f = d.fields[i];
        Val &x = v.a[i];
        if (f.repeated)
        {
            x.present = !x.a.empty();
            if (f.kind == K_MSG) for (auto &e : x.a) { normalise(*f.msg, e); e.present = true; }
        }
        else if (f.kind == K_MSG) normalise(*f.msg, x);
        else if (f.kind == K_BYTES) x.present = !x.s.empty();
        any |= x.present;
    }
    v.present = any;
}

Val persistent(const MsgDesc &d, const Val &v)
{
    Val o = absent_msg(d);
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        const FieldDesc &f = d.fields[i];
        if (f.transient) continue;
        if (f.kind == K_MSG)
        {
            if (f.repeated) { o.a[i].present = v.a[i].present; for (auto &e : v.a[i].a) { o.a[i].a.push_back(persistent(*f.msg, e)); o.a[i].a.back().present = true; } }
            else o.a[i] = persistent(*f.msg, v.a[i]);
        }
        else o.a[i] = v.a[i];
    }
    normalise(d, o);
    return o;
}
Val persistent(const Type &t, const Val &v)
{
    if (!t.array) return persistent(*t.d, v);
    Val o;
    for (auto &e : v.a) { o.a.push_back(persistent(*t.d, e)); o.a.back().present = true; }
    o.present = !o.a.empty();
    return o;
}

static std::string show_scalar(const FieldDesc &f, const Val &v)
{
    char b[64];
    switch (f.kind)
    {
        case K_DOUBLE: case K_FLOAT: return num_text(v.d, 17);
        case K_I32: case K_I64: snprintf(b, sizeof b, "%lld", (long long)v.i); return b;
        case K_U32: case K_U64: snprintf(b, sizeof b, "%llu", (unsigned long long)v.u); return b;
        case K_BOOL: return v.i ? "true" : "false";
        case K_STRING: return v.present ? "\"" + esc(v.s, 60) + "\"" : "null";
        case K_BYTES: return "bytes<" + esc(v.s, 60) + ">";
        default: return "?";
    }
}
static std::string diff_scalar(const FieldDesc &f, const Val &a, const Val &b, const std::string &path)
{
    bool same = true;
    switch (f.kind)
    {
        case K_DOUBLE: same = a.d == b.d || (std::isnan(a.d) && std::isnan(b.d)); break;
        case K_FLOAT: same = (float)a.d == (float)b.d || (std::isnan(a.d) && std::isnan(b.d)); break;
        case K_I32: case K_I64: case K_BOOL: same = a.i == b.i; break;
        case K_U32: case K_U64: same = a.u == b.u; break;
        default: same = a.s == b.s; break;
    }
    if (same) return "";
    return path + ": expected " + show_scalar(f, a) + ", got " + show_scalar(f, b);
}
std::string diff_field(const FieldDesc &f, const Val &a, const Val &b, const std::string &path)
{
    if (f.repeated)
    {
        if (a.a.size() != b.a.size())
            return path + ": expected " + std::to_string(a.a.size()) + " elements, got " + std::to_string(b.a.size());
        for (size_t k = 0; k < a.a.size(); ++k)
        {
            std::string p = path + "[" + std::to_string(k) + "]";
            if (f.kind == K_MSG) { std::string r = diff(*f.msg, a.a[k], b.a[k]); if (!r.empty()) return p + "." + r; continue; }
            if (f.kind == K_STRING && a.a[k].present != b.a[k].present)
                return p + ": expected " + (a.a[k].present ? "a string" : "null") + ", got " + (b.a[k].present ? "a string" : "null");
            std::string r = diff_scalar(f, a.a[k], b.a[k], p);
            if (!r.empty()) return r;
        }
        return "";
    }
    if (a.present != b.present)
        return path + ": expected " + (a.present ? "present" : "absent") + ", got " + (b.present ? "present" : "absent");
    if (!a.present) return "";
    if (f.kind == K_MSG) { std::string r = diff(*f.msg, a, b); return r.empty() ? r : path + "." + r; }
    return diff_scalar(f, a, b, path);
}
std::string diff(const MsgDesc &d, const Val &a, const Val &b)
{
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        std::string r = diff_field(d.fields[i], a.a[i], b.a[i], d.fields[i].name);
        if (!r.empty()) return r;
    }
    return "";
}
std::string diff(const Type &t, const Val &a, const Val &b)
{
    if (!t.array) return diff(*t.d, a, b);
    FieldDesc f = { "", "", K_MSG, true, false, t.d };
    return diff_field(f, a, b, "");
}
static void show_msg(const MsgDesc &d, const Val &v, std::string &o)
{
    o += "{";
    bool first = true;
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        const FieldDesc &f = d.fields[i];
        const Val &x = v.a[i];
        if (!x.present) continue;
        if (!first) o += ", ";
        first = false;
        o += f.name + (f.transient ? "(transient)=" : "=");
        if (f.repeated)
        {
            o += "[";
            for (size_t k = 0; k < x.a.size(); ++k)
            {
                if (k) o += ", ";
                if (k > 12) { o += "..."; break; }
                if (f.kind == K_MSG) show_msg(*f.msg, x.a[k], o); else o += show_scalar(f, x.a[k]);
            }
            o += "]";
        }
        else if (f.kind == K_MSG) show_msg(*f.msg, x, o);
        else o += show_scalar(f, x);
        if (o.size() > 1500) { o += "..."; break; }
    }
    o += "}";
}
std::string show(const Type &t, const Val &v)
{
    std::string o = t.name();
    if (!t.array) { show_msg(*t.d, v, o); return o; }
    o += "[";
    for (size_t i = 0; i < v.a.size() && i < 8; ++i) { if (i) o += ", "; show_msg(*t.d, v.a[i], o); }
    return o + "]";
}
bool finite(const MsgDesc &d, const Val &v)
{
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        const FieldDesc &f = d.fields[i];
        const Val &x = v.a[i];
        if (!x.present) continue;
        auto one = [&](const Val &e) {
            if (f.kind == K_MSG) return finite(*f.msg, e);
            if (f.kind == K_DOUBLE || f.kind == K_FLOAT) return std::isfinite(e.d);
            return true;
        };
        if (f.repeated) { for (auto &e : x.a) if (!one(e)) return false; }
        else if (!one(x)) return false;
    }
    return true;
}
bool finite(const Type &t, const Val &v)
{
    if (!t.array) return finite(*t.d, v);
    for (auto &e : v.a) if (!finite(*t.d, e)) return false;
    return true;
}
static size_t utf8_at(const std::string &s, size_t i, uint32_t &cp)
{
    unsigned char c = (unsigned char)s[i];
    if (c < 0x80) { cp = c; return 1; }
    int n;
    uint32_t min;
    if (c >= 0xC0 && c <= 0xDF) { n = 1; cp = c & 0x1F; min = 0x80; }
    else if (c >= 0xE0 && c <= 0xEF) { n = 2; cp = c & 0x0F; min = 0x800; }
    else if (c >= 0xF0 && c <= 0xF7) { n = 3; cp = c & 0x07; min = 0x10000; }
    else return 0;
    for (int k = 1; k <= n; ++k)
    {
        if (i + (size_t)k >= s.size() || ((unsigned char)s[i + (size_t)k] & 0xC0) != 0x80) return 0;
        cp = cp << 6 | ((unsigned char)s[i + (size_t)k] & 0x3F);
    }
    if (cp < min || cp > 0x10FFFF || (cp >= 0xD800 && cp <= 0xDFFF)) return 0;
    return (size_t)n + 1;
}
bool valid_utf8(const std::string &s)
{
    uint32_t cp;
    for (size_t i = 0; i < s.size();)
    {
        size_t n = utf8_at(s, i, cp);
        if (!n) return false;
        i += n;
    }
    return true;
}
bool texts_valid(const MsgDesc &d, const Val &v, bool po)
{
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        const FieldDesc &f = d.fields[i];
        const Val &x = v.a[i];
        if (!x.present || (po && f.transient)) continue;
        auto one = [&](const Val &e) {
            if (f.kind == K_MSG) return texts_valid(*f.msg, e, po);
            if (f.kind == K_STRING) return valid_utf8(e.s);
            return true;
        };
        if (f.repeated) { for (auto &e : x.a) if (!one(e)) return false; }
        else if (!one(x)) return false;
    }
    return true;
}
bool texts_valid(const Type &t, const Val &v)
{
    if (!t.array) return texts_valid(*t.d, v, true);
    for (auto &e : v.a) if (!texts_valid(*t.d, e, true)) return false;
    return true;
}

// ------------------------------------------------------------------ generators
static void put_utf8(std::string &o, uint32_t c)
{
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 0x3F)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 0x3F)); o += (char)(0x80 | (c & 0x3F)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 0x3F)); o += (char)(0x80 | (c >> 6 & 0x3F)); o += (char)(0x80 | (c & 0x3F)); }
}
static const uint32_t EDGES[] = { 0x80, 0xE9, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF, 0xC774, 0x3A9, 0x1F };
static const char *WORDS[] = { "a", "null", "true", "{}", "[1,2]", "\\u0041", "\"", "\\", "/", "\\\\\"", "key", "0", "-1.5", ",", ":", "}", "]", " ", "  x ", "1e5", "\\ud800", "=", "$1$", "%s%n", "</script>", "//", "/*" };
static uint32_t some_cp()
{
    uint32_t c;
    switch (choose(6))
    {
        case 0: return 'a' + choose(26);
        case 1: return choose(0x80);
        case 2: c = choose(0x20); return c;
        case 3: return pick(EDGES);
        case 4: { static const char E[] = "\"\\/\b\f\n\r\t"; return (uint32_t)E[choose(8)]; }
        default:
            c = choose(0x110000);
            if (c >= 0xD800 && c <= 0xDFFF) c = 0xFFFD;
            return c;
    }
}
void gen_text(GenCfg &g, std::string &out)
{
    switch (choose(g.small_text ? 3 : 8))
    {
        case 0: { uint32_t n = choose(8); for (uint32_t i = 0; i < n; ++i) out += (char)('a' + choose(26)); break; }
        case 1: put_utf8(out, some_cp()); break;
        case 2: out += pick(WORDS); break;
        case 3: break; // empty
        case 4: case 5: { uint32_t n = 1 + choose(12); for (uint32_t i = 0; i < n; ++i) put_utf8(out, some_cp()); break; }
        case 6: { uint32_t n = 1 + choose(6); for (uint32_t i = 0; i < n; ++i) if (choose(2)) out += pick(WORDS); else put_utf8(out, some_cp()); break; }
        default:
        {
            uint32_t n = g.big ? choose((uint32_t)g.big) : choose(64), c = some_cp();
            for (uint32_t i = 0; i < n; ++i) put_utf8(out, c);
            if (choose(2)) for (uint32_t k = 1 + choose(6); k > 0; --k) put_utf8(out, some_cp());
            break;
        }
    }
}
void gen_bad_text(GenCfg &g, std::string &out)
{
    gen_text(g, out);
    std::string bad;
    switch (choose(7))
    {
        case 0: bad = (char)(0x80 + choose(0x40)); break;                     // lone continuation
        case 1: { put_utf8(bad, 0x80 + choose(0x780)); bad.resize(1); break; } // truncated 2
        case 2: { put_utf8(bad, 0xE000 + choose(0x1000)); bad.resize(1 + choose(2)); break; }
        case 3: { put_utf8(bad, 0x10000 + choose(0x100000)); bad.resize(1 + choose(3)); break; }
        case 4: { static const unsigned char L[] = { 0xFF, 0xFE, 0xF8, 0xFC, 0xF5, 0xF7, 0xC0, 0xC1 };
                  bad = (char)L[choose(8)]; uint32_t n = choose(4); for (uint32_t i = 0; i < n; ++i) bad += (char)(0x80 + choose(0x40)); break; }
        case 5: // overlong / surrogate / too large
        {
            uint32_t k = choose(5);
            if (k == 0) { bad = "\xE0\x80"; bad += (char)(0x80 + choose(0x40)); }
            else if (k == 1) { bad = "\xF0\x80\x80"; bad += (char)(0x80 + choose(0x40)); }
            else if (k == 2) { bad = "\xED"; bad += (char)(0xA0 + choose(0x20)); bad += (char)(0x80 + choose(0x40)); }
            else if (k == 3) { bad = "\xF4"; bad += (char)(0x90 + choose(0x30)); bad += "\x80\x80"; }
            else { bad = "\xC0"; bad += (char)(0x80 + choose(0x40)); }
            break;
        }
        default: // interrupted sequence
            put_utf8(bad, 0x800 + choose(0x1000));
            bad[1 + choose(2)] = (char)('a' + choose(26));
            break;
    }
    size_t at = out.empty() ? 0 : choose((uint32_t)out.size() + 1);
    out.insert(at, bad);
    if (valid_utf8(out)) out += "\x80";
    if (choose(3) == 1) out += "tail";
}
static int64_t gen_i(int bits)
{
    int64_t mx = bits == 32 ? INT32_MAX : INT64_MAX, mn = bits == 32 ? INT32_MIN : INT64_MIN;
    switch (choose(7))
    {
        case 0: return (int64_t)choose(10);
        case 1: return -(int64_t)choose(10);
        case 2: return mx - (int64_t)choose(2);
        case 3: return mn + (int64_t)choose(2);
        case 4: { int64_t v = (int64_t)1 << choose((uint32_t)bits - 1); return choose(2) ? v - 1 : v; }
        case 5: { int64_t v = (int64_t)(bits64() >> (64 - bits)); return bits == 32 ? (int64_t)(int32_t)(uint32_t)v : v; }
        default: { int64_t p = 1; uint32_t n = choose(bits == 32 ? 9 : 18); while (n--) p *= 10; return choose(2) ? -p : p; }
    }
}
static uint64_t gen_u(int bits)
{
    uint64_t mx = bits == 32 ? UINT32_MAX : UINT64_MAX;
    switch (choose(5))
    {
        case 0: return choose(10);
        case 1: return mx - choose(2);
        case 2: { uint64_t v = (uint64_t)1 << choose((uint32_t)bits); return choose(2) ? v - 1 : v; }
        case 3: return bits64() >> (64 - bits);
        default: { uint64_t p = 1; uint32_t n = choose(bits == 32 ? 10 : 20); while (n--) p *= 10; return p; }
    }
}
static double gen_d()
{
    static const double E[] = { 0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1.0 / 3, 2.0 / 3, 1e21, 1e-7, 1e15, 1e16, 1e17, 123456789.123456789, 9007199254740993.0, 9007199254740991.0,
                                DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, DBL_EPSILON, 1e300, 1e-300, 3.141592653589793, 0.30000000000000004, 1234.5678, 4294967296.5, 100, 1e5, 1e6 };
    switch (choose(5))
    {
        case 0: return (double)choose(100);
        case 1: return pick(E);
        case 2: return (double)gen_i(64);
        case 3: { double v = (double)(int64_t)gen_i(32); return v / 1000.0; }
        default: { uint64_t b = bits64(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 0.25; }
    }
}
static float gen_f()
{
    static const float E[] = { 0.0f, -0.0f, 1.0f, 0.1f, 1.0f / 3, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45f, FLT_EPSILON, 16777217.0f, 1e10f, 1e-10f, 3.14159274f, 123456.789f, 8388608.5f, 100.0f };
    switch (choose(4))
    {
        case 0: return (float)choose(100);
        case 1: return pick(E);
        case 2: return (float)gen_i(32) / 100.0f;
        default: { uint32_t b = (uint32_t)bits64(); float d; memcpy(&d, &b, 4); return std::isfinite(d) ? d : 0.25f; }
    }
}
Val gen_elem(const FieldDesc &f, GenCfg &g)
{
    Val v;
    v.present = true;
    switch (f.kind)
    {
        case K_DOUBLE: v.d = gen_d(); break;
        case K_FLOAT: v.d = gen_f(); break;
        case K_I32: v.i = gen_i(32); break;
        case K_I64: v.i = gen_i(64); break;
        case K_U32: v.u = gen_u(32); break;
        case K_U64: v.u = gen_u(64); break;
        case K_BOOL: v.i = (int64_t)choose(2); break;
        case K_STRING:
            if (g.bad_utf8 && choose(3) == 1) gen_bad_text(g, v.s); else gen_text(g, v.s);
            break;
        case K_BYTES:
        {
            uint32_t n = choose(3) == 2 ? choose(g.big ? (uint32_t)g.big : 40) : choose(8);
            uint32_t style = choose(4), x = n > 100 ? choose(1u << 16) : 0;
            for (uint32_t i = 0; i < n; ++i)
                v.s += (char)(style == 0 ? (n > 100 ? (x = x * 1103515245u + 12345u) >> 16 & 0xFF : choose(256)) : style == 1 ? 0 : style == 2 ? 0xFF : (i * 37 + 3) & 0xFF);
            break;
        }
        case K_MSG:
            g.depth++;
            v = gen_msg(*f.msg, g);
            g.depth--;
            break;
    }
    return v;
}
// no document that holds the value is longer
static size_t elem_bound(const FieldDesc &f, const Val &v)
{
    switch (f.kind)
    {
        case K_MSG: return size_bound(*f.msg, v);
        case K_STRING: return v.s.size() * 6 + 8;
        case K_BYTES: return v.s.size() * 2 + 8;
        default: return 40;
    }
}
size_t size_bound(const MsgDesc &d, const Val &v)
{
    size_t n = 8;
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        const FieldDesc &f = d.fields[i];
        if (f.transient) continue;
        n += f.json.size() + 16;
        bool have = i < v.a.size();
        if (f.repeated) { if (have) for (auto &e : v.a[i].a) n += 2 + elem_bound(f, e); }
        else n += elem_bound(f, have ? v.a[i] : Val());
    }
    return n;
}
size_t size_bound(const Type &t, const Val &v)
{
    if (!t.array) return size_bound(*t.d, v);
    size_t n = 8;
    for (auto &e : v.a) n += 2 + size_bound(*t.d, e);
    return n;
}
static size_t weight(const Val &v)
{
    size_t n = 1 + v.s.size() / 8;
    for (auto &e : v.a) if (e.present) n += weight(e);
    return n;
}
// many elements: the same few small ones again and again
static void many(Val &v, GenCfg &g, const MsgDesc &d)
{
    std::vector<size_t> small;
    for (size_t i = 0; i < v.a.size(); ++i) if (weight(v.a[i]) < 8) small.push_back(i);
    if (small.empty()) return;
    size_t one = 1;
    for (size_t i : small) one = std::max(one, size_bound(d, v.a[i]));
    uint32_t m = choose((uint32_t)std::min<size_t>((size_t)std::min(g.big, 1500), 1 + 300000 / one));
    for (uint32_t i = 0; i < m; ++i) v.a.push_back(Val(v.a[small[i % small.size()]]));
}
Val gen_field(const FieldDesc &f, GenCfg &g)
{
    if (!f.repeated)
    {
        Val v = gen_elem(f, g);
        if (f.kind == K_BYTES) v.present = !v.s.empty();
        return v;
    }
    Val v;
    uint32_t n = 1;
    switch (choose(4)) { case 0: n = 1; break; case 1: n = 2; break; case 2: n = 3 + choose(4); break; default: n = g.big && f.kind != K_MSG && f.kind != K_STRING ? choose((uint32_t)g.big) : 1 + choose(5); }
    for (uint32_t i = 0; i < n && g.budget > 0; ++i)
    {
        g.budget--;
        Val e = gen_elem(f, g);
        e.present = true;
        if (f.kind == K_STRING && choose(6) == 5) { e = Val(); }
        v.a.push_back(e);
    }
    if (g.big && f.kind != K_MSG && !v.a.empty() && choose(3) == 2)
    {   // many elements: the same few again and again
        uint32_t m = choose(g.big > 5000 && choose(6) == 5 ? (uint32_t)g.big : (uint32_t)std::min(g.big, 3000));
        size_t k = v.a.size();
        for (uint32_t i = 0; i < m; ++i) if (v.a[i % k].s.size() < 100) v.a.push_back(v.a[i % k]);
    }
    if (g.big && f.kind == K_MSG && choose(3) == 2) many(v, g, *f.msg);
    v.present = !v.a.empty();
    return v;
}
Val gen_msg(const MsgDesc &d, GenCfg &g)
{
    Val v = absent_msg(d);
    uint32_t density = g.sparse ? 1 : choose(4); // 0 none .. 3 dense
    // (where the budget runs out differs from run to run)
    size_t nf = d.fields.size(), first = nf > 8 && choose(2) ? choose((uint32_t)nf) : 0;
    for (size_t k = 0; k < nf; ++k)
    {
        size_t i = (first + k) % nf;
        const FieldDesc &f = d.fields[i];
        if (g.chain && f.kind == K_MSG && !f.transient && g.depth < 70 && k + 3 > nf)
        {   // all the way down
            v.a[i] = gen_field(f, g);
            continue;
        }
        if (g.budget <= 0) break;
        bool on = density == 0 ? false : density == 1 ? choose(4) == 1 : density == 2 ? choose(2) == 1 : choose(8) != 0;
        if (!on || (f.kind == K_MSG && g.depth > 5)) continue;
        g.budget--;
        v.a[i] = gen_field(f, g);
    }
    if (density == 0 && !d.fields.empty() && choose(4))
    {
        size_t i = choose((uint32_t)d.fields.size());
        v.a[i] = gen_field(d.fields[i], g);
    }
    normalise(d, v);
    return v;
}
static Val gen_any(const Type &t, GenCfg &g)
{
    if (!t.array && t.d->model == "chain") g.chain = choose(3) != 0;
    if (!t.array) return gen_msg(*t.d, g);
    Val v;
    uint32_t n = choose(8) == 7 ? 4 + choose(12) : choose(4);
    for (uint32_t i = 0; i < n; ++i) { v.a.push_back(gen_msg(*t.d, g)); v.a.back().present = true; }
    if (g.big && choose(2)) many(v, g, *t.d);
    v.present = !v.a.empty();
    return v;
}
Val gen(const Type &t, GenCfg &g)
{
    Val v = gen_any(t, g);
    if (g.big && size_bound(t, v) > 1500000)
    {   // more of the same would only take time
        g.big = 0;
        if (g.budget < 20) g.budget = 20;
        v = gen_any(t, g);
    }
    return v;
}

// ------------------------------------------------------------------ JSON parser
namespace {
struct P
{
    const std::string &t;
    size_t i = 0;
    std::string why;
    int depth = 0;
    P(const std::string &x) : t(x) {}
    bool err(const char *m) { if (why.empty()) why = std::string(m) + " at byte " + std::to_string(i); return false; }
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) ++i; }
    bool lit(const char *s)
    {
        size_t n = strlen(s);
        if (t.compare(i, n, s) != 0) return err("bad literal");
        i += n;
        return true;
    }
    bool hex4(uint32_t &v)
    {
        v = 0;
        for (int k = 0; k < 4; ++k, ++i)
        {
            if (i >= t.size()) return err("short escape");
            char c = t[i];
            uint32_t h;
            if (c >= '0' && c <= '9') h = (uint32_t)(c - '0');
            else if (c >= 'a' && c <= 'f') h = (uint32_t)(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') h = (uint32_t)(c - 'A' + 10);
            else return err("bad escape digit");
            v = v << 4 | h;
        }
        return true;
    }
    bool str(std::string &o)
    {
        if (i >= t.size() || t[i] != '"') return err("string expected");
        ++i;
        while (true)
        {
            if (i >= t.size()) return err("unterminated string");
            unsigned char c = (unsigned char)t[i];
            if (c == '"') { ++i; return true; }
            if (c < 0x20) return err("raw control character");
            if (c == '\\')
            {
                if (++i >= t.size()) return err("short escape");
                char e = t[i++];
                switch (e)
                {
                    case '"': o += '"'; break;
                    case '\\': o += '\\'; break;
                    case '/': o += '/'; break;
                    case 'b': o += '\b'; break;
                    case 'f': o += '\f'; break;
                    case 'n': o += '\n'; break;
                    case 'r': o += '\r'; break;
                    case 't': o += '\t'; break;
                    case 'u':
                    {
                        uint32_t a, b;
                        if (!hex4(a)) return false;
                        if (a >= 0xDC00 && a <= 0xDFFF) return err("lone trail surrogate");
                        if (a >= 0xD800 && a <= 0xDBFF)
                        {
                            if (i + 1 >= t.size() || t[i] != '\\' || t[i + 1] != 'u') return err("lone lead surrogate");
                            i += 2;
                            if (!hex4(b)) return false;
                            if (b < 0xDC00 || b > 0xDFFF) return err("bad surrogate pair");
                            a = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00);
                        }
                        put_utf8(o, a);
                        break;
                    }
                    default: return err("bad escape");
                }
                continue;
            }
            uint32_t cp;
            size_t n = utf8_at(t, i, cp);
            if (!n) return err("invalid UTF-8");
            o.append(t, i, n);
            i += n;
        }
    }
    bool num(std::string &o)
    {
        size_t b = i;
        auto dig = [&] { size_t k = i; while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i; return i - k; };
        if (i < t.size() && t[i] == '-') ++i;
        if (i < t.size() && t[i] == '0') ++i;
        else if (!dig()) return err("bad number");
        if (i < t.size() && t[i] == '.') { ++i; if (!dig()) return err("bad fraction"); }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
        {
            ++i;
            if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
            if (!dig()) return err("bad exponent");
        }
        o = t.substr(b, i - b);
        return true;
    }
    bool val(JV &v)
    {
        if (++depth > 2000) return err("too deep");
        ws();
        if (i >= t.size()) return err("value expected");
        bool r = true;
        switch (t[i])
        {
            case '{':
                v.t = JV::OBJ;
                ++i;
                ws();
                if (i < t.size() && t[i] == '}') { ++i; break; }
                while (true)
                {
                    ws();
                    std::string k;
                    if (!str(k)) return false;
                    for (auto &m : v.o) if (m.first == k) return err("duplicate member name");
                    ws();
                    if (i >= t.size() || t[i] != ':') return err("':' expected");
                    ++i;
                    v.o.emplace_back(k, JV());
                    if (!val(v.o.back().second)) return false;
                    ws();
                    if (i < t.size() && t[i] == ',') { ++i; continue; }
                    if (i < t.size() && t[i] == '}') { ++i; break; }
                    return err("',' or '}' expected");
                }
                break;
            case '[':
                v.t = JV::ARR;
                ++i;
                ws();
                if (i < t.size() && t[i] == ']') { ++i; break; }
                while (true)
                {
                    v.a.emplace_back();
                    if (!val(v.a.back())) return false;
                    ws();
                    if (i < t.size() && t[i] == ',') { ++i; continue; }
                    if (i < t.size() && t[i] == ']') { ++i; break; }
                    return err("',' or ']' expected");
                }
                break;
            case '"': v.t = JV::STR; r = str(v.s); break;
            case 't': v.t = JV::BOOL; v.b = true; r = lit("true"); break;
            case 'f': v.t = JV::BOOL; r = lit("false"); break;
            case 'n': v.t = JV::NUL; r = lit("null"); break;
            default: v.t = JV::NUM; r = num(v.s);
        }
        --depth;
        return r;
    }
};
}
bool json_parse(const std::string &text, JV &out, std::string &why)
{
    P p(text);
    if (!p.val(out)) { why = p.why; return false; }
    p.ws();
    if (p.i != text.size()) { why = "text after the document at byte " + std::to_string(p.i); return false; }
    return true;
}
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string base64(const std::string &b)
{
    std::string o;
    for (size_t i = 0; i < b.size(); i += 3)
    {
        uint32_t v = (uint32_t)(unsigned char)b[i] << 16;
        if (i + 1 < b.size()) v |= (uint32_t)(unsigned char)b[i + 1] << 8;
        if (i + 2 < b.size()) v |= (uint32_t)(unsigned char)b[i + 2];
        o += B64[v >> 18];
        o += B64[v >> 12 & 63];
        o += i + 1 < b.size() ? B64[v >> 6 & 63] : '=';
        o += i + 2 < b.size() ? B64[v & 63] : '=';
    }
    return o;
}
static bool unbase64(const std::string &s, std::string &o)
{
    if (s.size() % 4) return false;
    for (size_t i = 0; i < s.size(); i += 4)
    {
        uint32_t v = 0;
        int pad = 0;
        for (size_t k = 0; k < 4; ++k)
        {
            char c = s[i + k];
            if (c == '=' && i + 4 == s.size() && k >= 2) { pad++; v <<= 6; continue; }
            if (pad) return false;
            const char *q = c ? strchr(B64, c) : nullptr;
            if (!q) return false;
            v = v << 6 | (uint32_t)(q - B64);
        }
        if ((pad == 1 && (v & 0xFF)) || (pad == 2 && (v & 0xFFFF))) return false; // not canonical
        o += (char)(v >> 16);
        if (pad < 2) o += (char)(v >> 8);
        if (pad < 1) o += (char)v;
    }
    return true;
}
static bool decode_elem(const FieldDesc &f, const JV &j, Val &v, std::string &why)
{
    v = Val();
    auto bad = [&](const char *m) { why = "field '" + f.json + "': " + m; return false; };
    const char *b = j.s.data(), *e = b + j.s.size();
    v.present = true;
    switch (f.kind)
    {
        case K_BOOL: if (j.t != JV::BOOL) return bad("boolean expected"); v.i = j.b; return true;
        case K_STRING: if (j.t != JV::STR) return bad("string expected"); v.s = j.s; return true;
        case K_BYTES: if (j.t != JV::STR) return bad("base64 string expected"); if (!unbase64(j.s, v.s)) return bad("not canonical base64"); return true;
        case K_MSG: if (j.t != JV::OBJ) return bad("object expected"); return json_decode(*f.msg, j, v, why);
        default: break;
    }
    if (j.t != JV::NUM) return bad("number expected");
    std::from_chars_result r = { b, std::errc() };
    switch (f.kind)
    {
        case K_I32: { int32_t x; r = std::from_chars(b, e, x); v.i = x; break; }
        case K_I64: r = std::from_chars(b, e, v.i); break;
        case K_U32: { uint32_t x; r = std::from_chars(b, e, x); v.u = x; break; }
        case K_U64: r = std::from_chars(b, e, v.u); break;
        case K_DOUBLE: r = std::from_chars(b, e, v.d); if (r.ec == std::errc::result_out_of_range) { v.d = strtod(j.s.c_str(), nullptr); r.ec = std::errc(); } break;
        default: { double x = 0; r = std::from_chars(b, e, x); v.d = (double)(float)x; break; }
    }
    if (r.ec != std::errc() || r.ptr != e) return bad("number does not fit the field type");
    return true;
}
bool json_decode(const MsgDesc &d, const JV &j, Val &out, std::string &why)
{
    out = absent_msg(d);
    if (j.t != JV::OBJ) { why = "object expected for " + d.name; return false; }
    for (auto &m : j.o)
    {
        int k = d.find(m.first);
        if (k < 0) { why = "unexpected member '" + esc(m.first) + "' in " + d.name; return false; }
        const FieldDesc &f = d.fields[(size_t)k];
        if (m.second.t == JV::NUL) continue;
        Val &v = out.a[(size_t)k];
        if (f.repeated)
        {
            if (m.second.t != JV::ARR) { why = "array expected for '" + f.json + "'"; return false; }
            for (auto &e : m.second.a)
            {
                Val x;
                if (f.kind == K_STRING && e.t == JV::NUL) { v.a.push_back(Val()); continue; }
                if (!decode_elem(f, e, x, why)) return false;
                v.a.push_back(x);
            }
        }
        else if (!decode_elem(f, m.second, v, why)) return false;
    }
    normalise(d, out);
    return true;
}
bool json_decode(const Type &t, const JV &j, Val &out, std::string &why)
{
    if (!t.array) return json_decode(*t.d, j, out, why);
    out = Val();
    if (j.t != JV::ARR) { why = "array expected"; return false; }
    for (auto &e : j.a)
    {
        Val x;
        if (!json_decode(*t.d, e, x, why)) return false;
        x.present = true;
        out.a.push_back(x);
    }
    out.present = !out.a.empty();
    return true;
}
static bool all_fields(const MsgDesc &d, const JV &j, std::string &why)
{
    for (auto &f : d.fields)
    {
        if (f.transient) continue;
        const JV *m = nullptr;
        for (auto &x : j.o) if (x.first == f.json) m = &x.second;
        if (!m) { why = "field '" + f.json + "' of " + d.name + " does not appear"; return false; }
        if (f.kind == K_MSG)
        {
            if (m->t == JV::OBJ && !all_fields(*f.msg, *m, why)) return false;
            if (m->t == JV::ARR) for (auto &e : m->a) if (e.t == JV::OBJ && !all_fields(*f.msg, e, why)) return false;
        }
    }
    return true;
}
bool json_all_fields(const Type &t, const JV &j, std::string &why)
{
    if (!t.array) return all_fields(*t.d, j, why);
    for (auto &e : j.a) if (!all_fields(*t.d, e, why)) return false;
    return true;
}
// every non-ASCII byte of the text belongs to a member name
bool strings_ascii(const Type &t, const JV &, const std::string &text, std::string &why)
{
    (void)t;
    for (size_t i = 0; i < text.size();)
    {
        if (text[i] != '"') { if ((unsigned char)text[i] >= 0x80) { why = "non-ASCII byte outside a string"; return false; } ++i; continue; }
        size_t b = i++;
        bool high = false;
        while (i < text.size() && text[i] != '"') { if (text[i] == '\\') ++i; if (i < text.size() && (unsigned char)text[i] >= 0x80) high = true; ++i; }
        ++i;
        bool name = i < text.size() && text[i] == ':';
        if (high && !name) { why = "unescaped non-ASCII character in the string at byte " + std::to_string(b); return false; }
    }
    return true;
}

// ------------------------------------------------------------------ encoder
std::string num_text(double d, int digits)
{
    char b[400];
    auto r = digits == 0 ? std::to_chars(b, b + sizeof b, d) : std::to_chars(b, b + sizeof b, d, std::chars_format::general, digits);
    return std::string(b, r.ptr);
}
static void enc_ws(std::string &o, EncCfg &c)
{
    if (!c.ws) return;
    uint32_t n = choose(8);
    if (n < 5) return;
    n = choose(4);
    for (uint32_t i = 0; i < n; ++i) { char w = " \t\r\n"[choose(4)]; if (w == '\n' && !c.newlines) w = ' '; o += w; }
}
static void enc_str(std::string &o, const std::string &s, EncCfg &c)
{
    auto u = [&](uint32_t v) {
        char b[8];
        uint32_t up = choose(3);
        snprintf(b, sizeof b, up == 1 ? "\\u%04X" : "\\u%04x", v);
        if (up == 2) for (char *q = b + 2; *q; ++q) if (*q >= 'a' && choose(2)) *q = (char)(*q - 32);
        o += b;
    };
    uint32_t style = c.escapes ? choose(3) : 0; // 0 minimal, 1 mixed, 2 everything
    o += '"';
    for (size_t i = 0; i < s.size();)
    {
        uint32_t cp;
        size_t n = utf8_at(s, i, cp);
        if (!n) { o += s[i++]; continue; }
        bool must = cp < 0x20 || cp == '"' || cp == '\\';
        bool esc = must || style == 2 || (style == 1 && choose(3) == 1);
        if (!esc) { o.append(s, i, n); i += n; continue; }
        const char *sh = nullptr;
        switch (cp)
        {
            case '"': sh = "\\\""; break;
            case '\\': sh = "\\\\"; break;
            case '/': sh = "\\/"; break;
            case '\b': sh = "\\b"; break;
            case '\f': sh = "\\f"; break;
            case '\n': sh = "\\n"; break;
            case '\r': sh = "\\r"; break;
            case '\t': sh = "\\t"; break;
            default: break;
        }
        if (sh && (!c.escapes || choose(3) < 2)) o += sh;
        else if (cp >= 0x10000) { uint32_t v = cp - 0x10000; u(0xD800 + (v >> 10)); u(0xDC00 + (v & 0x3FF)); }
        else u(cp);
        i += n;
    }
    o += '"';
}
static void enc_double(std::string &o, double d, bool flt, EncCfg &c)
{
    std::string t;
    switch (c.escapes ? choose(4) : 0)
    {
        case 0: t = num_text(d, 17); break;
        case 1: if (flt) { char b[64]; auto r = std::to_chars(b, b + 64, (float)d); t.assign(b, r.ptr); } else t = num_text(d, 0); break;
        case 2: { char b[400]; auto r = std::to_chars(b, b + sizeof b, d, std::chars_format::scientific, 20); t.assign(b, r.ptr); break; }
        default: { char b[800]; auto r = std::to_chars(b, b + sizeof b, d, std::chars_format::fixed, std::fabs(d) < 1e-5 ? 340 : 25); t.assign(b, r.ptr);
                   if (std::fabs(d) < 1e-290) t = num_text(d, 17); break; }
    }
    // exponent spelling
    size_t e = t.find('e');
    if (e != std::string::npos && c.escapes)
    {
        if (choose(2)) t[e] = 'E';
        if (t[e + 1] == '+' && choose(2)) t.erase(e + 1, 1);
    }
    if (c.escapes && choose(16) == 15)
    {   // more digits than anyone needs
        static const uint32_t N[] = { 40, 20, 130, 700, 2000 };
        size_t dot = t.find('.'), ex = t.find_first_of("eE");
        if (dot != std::string::npos) t.insert(ex == std::string::npos ? t.size() : ex, choose(pick(N)), '0');
    }
    o += t;
}
static void enc_msg(std::string &o, const MsgDesc &d, const Val &v, EncCfg &c);
static void enc_elem(std::string &o, const FieldDesc &f, const Val &v, EncCfg &c)
{
    switch (f.kind)
    {
        case K_DOUBLE: enc_double(o, v.d, false, c); break;
        case K_FLOAT: enc_double(o, v.d, true, c); break;
        case K_I32: case K_I64: o += std::to_string((long long)v.i); break;
        case K_U32: case K_U64: o += std::to_string((unsigned long long)v.u); break;
        case K_BOOL: o += v.i ? "true" : "false"; break;
        case K_STRING: if (v.present) enc_str(o, v.s, c); else o += "null"; break;
        case K_BYTES: enc_str(o, base64(v.s), c); break;
        case K_MSG: enc_msg(o, *f.msg, v, c); break;
    }
}
static const char *UNK[] = { "zz", "unknown", "x y", "", "\xC3\xA9t\xC3\xA9", "__proto__", "0", "a\"b", "\\", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "{", "\n" };
void json_any(std::string &o, EncCfg &c, int depth)
{
    uint32_t k = choose(depth > 0 && c.budget > 0 ? 9 : 6);
    c.budget--;
    switch (k)
    {
        case 0: o += std::to_string(choose(1000)); break;
        case 1: { GenCfg g; std::string s; gen_text(g, s); enc_str(o, s, c); break; }
        case 2: o += "null"; break;
        case 3: o += choose(2) ? "true" : "false"; break;
        case 4: enc_double(o, gen_d(), false, c); break;
        case 5: o += choose(2) ? "{}" : "[]"; break;
        case 6: case 8:
        {
            o += '[';
            uint32_t n = choose(4);
            for (uint32_t i = 0; i <= n; ++i) { if (i) o += ','; enc_ws(o, c); json_any(o, c, depth - 1); enc_ws(o, c); }
            o += ']';
            break;
        }
        default:
        {
            o += '{';
            uint32_t n = choose(4);
            for (uint32_t i = 0; i <= n; ++i)
            {
                if (i) o += ',';
                enc_ws(o, c);
                enc_str(o, std::string(pick(UNK)) + (i ? std::to_string(i) : ""), c);
                enc_ws(o, c);
                o += ':';
                enc_ws(o, c);
                json_any(o, c, depth - 1);
                enc_ws(o, c);
            }
            o += '}';
        }
    }
}
// a value with many parts
static void wide_any(std::string &o)
{
    static const uint32_t N[] = { 70, 300, 1100, 2500, 5000 };
    static const char *E[] = { "0", "{}", "[]", "null", "\"x\"", "true", "[1,2]", "{\"a\":1}", "-1.5e3" };
    uint32_t n = pick(N), k = choose(4);
    const char *x = pick(E);
    count("probe.wide_unknown");
    if (k == 3) { o += '"' + std::string(n * 3, 'y') + '"'; return; }
    if (k == 2) { o += std::string(n % 300 + 1, '7'); return; }
    o += k ? '{' : '[';
    for (uint32_t i = 0; i < n; ++i)
    {
        if (i) o += ',';
        if (k) o += "\"m" + std::to_string(i) + "\":";
        o += x;
    }
    o += k ? '}' : ']';
}
static void enc_msg(std::string &o, const MsgDesc &d, const Val &v, EncCfg &c)
{
    std::vector<int> ord; // -1: unknown member
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        const FieldDesc &f = d.fields[i];
        if (f.transient) continue;
        bool p = v.a[i].present;
        if (!p)
        {
            uint32_t how = c.nulls ? choose(8) : 0;
            if (how < 6) continue;
            ord.push_back((int)i + (how == 7 && (f.repeated || f.kind == K_MSG || f.kind == K_BYTES) ? 2000 : 1000)); // null, or an explicit empty value
            continue;
        }
        ord.push_back((int)i);
    }
    if (c.unknown) { uint32_t n = choose((uint32_t)c.unknown + 1); for (uint32_t i = 0; i < n; ++i) ord.push_back(-1 - (int)i); }
    if (c.order && ord.size() > 1)
        switch (choose(3))
        {
            case 0: break;
            case 1: std::reverse(ord.begin(), ord.end()); break;
            default: for (size_t i = ord.size() - 1; i > 0; --i) std::swap(ord[i], ord[choose((uint32_t)i + 1)]);
        }
    o += '{';
    enc_ws(o, c);
    for (size_t k = 0; k < ord.size(); ++k)
    {
        if (k) { o += ','; enc_ws(o, c); }
        if (ord[k] < 0)
        {
            std::string name = pick(UNK);
            if (ord[k] < -1) name += std::to_string(-ord[k]);
            while (d.find(name) >= 0) name += "~";
            enc_str(o, name, c);
            enc_ws(o, c); o += ':'; enc_ws(o, c);
            if (c.wide && choose(24) == 23) { c.wide = false; wide_any(o); }
            else json_any(o, c, (int)choose((uint32_t)c.unknown_depth + 1));
            enc_ws(o, c);
            continue;
        }
        int how = ord[k] / 1000;
        size_t i = (size_t)(ord[k] % 1000);
        const FieldDesc &f = d.fields[i];
        enc_str(o, f.json, c);
        enc_ws(o, c); o += ':'; enc_ws(o, c);
        if (how == 1) o += "null";
        else if (how == 2) o += f.repeated ? "[]" : f.kind == K_BYTES ? "\"\"" : "{}";
        else if (f.repeated)
        {
            o += '[';
            enc_ws(o, c);
            for (size_t e = 0; e < v.a[i].a.size(); ++e)
            {
                if (e) { o += ','; enc_ws(o, c); }
                enc_elem(o, f, v.a[i].a[e], c);
                enc_ws(o, c);
            }
            o += ']';
        }
        else enc_elem(o, f, v.a[i], c);
        enc_ws(o, c);
    }
    o += '}';
}
std::string json_encode(const Type &t, const Val &v, EncCfg &c)
{
    std::string o;
    enc_ws(o, c);
    if (!t.array) enc_msg(o, *t.d, v, c);
    else
    {
        o += '[';
        enc_ws(o, c);
        for (size_t e = 0; e < v.a.size(); ++e) { if (e) { o += ','; enc_ws(o, c); } enc_msg(o, *t.d, v.a[e], c); enc_ws(o, c); }
        o += ']';
    }
    return o;
}

bool position_inside(const std::string &text, int line, int column)
{
    if (line < 1 || column < 1) return false;
    size_t b = 0;
    for (int l = 1; l < line; ++l)
    {
        size_t n = text.find('\n', b);
        if (n == std::string::npos) return false;
        b = n + 1;
    }
    size_t e = text.find('\n', b);
    if (e == std::string::npos) e = text.size();
    return (size_t)column <= e - b + 1;
}
const char *&odd_compare() { static const char *s; return s; }
} // namespace sim
