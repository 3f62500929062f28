#include "cc_model.hpp"
#include <algorithm>
#include <cstring>

namespace sim {

static const char *SCALAR[] = { "int32", "string", "bool", "double", "bytes", "int64", "float", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64" };
static const char *KEYWORD[] = { "message", "repeated", "string", "enum", "double", "float", "bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
                                 "sfixed32", "sfixed64", "bytes", "package", "syntax", "map", "option", "true", "false", "optional" };
static bool is_keyword(const std::string &s) { for (auto k : KEYWORD) if (s == k) return true; return false; }

static std::string ident(std::set<std::string> &used, const char *prefix)
{
    static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    static const char *NAMES[] = { "id", "Value", "messages", "x", "int", "_under", "e1", "stringy", "Repeated", "package_", "a_b_c", "LONG_NAME_WITH_MANY_LETTERS_IN_IT" };
    while (true)
    {
        std::string s;
        if (choose(4) == 3) s = pick(NAMES);
        else
        {
            uint32_t n = 1 + choose(choose(5) == 4 ? 40 : 8);
            s += A[choose(53)];
            while (--n) s += A[choose(63)];
        }
        if (is_keyword(s)) s += "_";
        if (used.count(s)) s = std::string(prefix) + std::to_string(used.size()) + s;
        if (used.insert(s).second) return s;
    }
}
static uint32_t field_number()
{
    static const uint32_t N[] = { 1, 2, 15, 16, 63, 64, 127, 128, 2047, 19000 - 1, 20000, 0x1FFFFFFE, 100000000 };
    while (true)
    {
        uint32_t n = choose(3) ? 1 + choose(100) : choose(2) ? pick(N) : 1 + choose(536870910);
        if (n != 0x4E1F && n != 0x4A38 && n > 0 && n < 0x1FFFFFFF) return n;
    }
}
static std::string string_token()
{
    static const char *V[] = { "", "x", "some text", "//no comment", "/* none */", "{}", ";", "ключ", "a=b", "$1$", "'", "message M {", "100%" };
    return std::string("\"") + pick(V) + "\"";
}
static std::string any_value()
{
    switch (choose(4))
    {
        case 0: return choose(2) ? "true" : "false";
        case 1: return std::to_string(choose(100000));
        case 2: return string_token();
        default: return choose(2) ? "SPEED" : "some.q.name";
    }
}

ModelM random_model(uint32_t maxmsgs, uint32_t maxfields)
{
    ModelM m;
    static const char *PK[] = { "pk", "a.b", "com.example.deep.name", "x_1.y_2" };
    static const char *FOPT[] = { "obfuscate_strings", "number_names", "cpp_use_lists" };
    std::string package;
    if (choose(8) != 7) m.stmts.push_back({ 's', "\"proto3\"", "", {} });
    if (choose(3)) { package = pick(PK); m.stmts.push_back({ 'p', package, "", {} }); }
    std::set<std::string> optnames;
    for (auto o : FOPT)
        if (choose(4) == 3) m.stmts.push_back({ 'o', o, choose(3) ? "true" : "false", {} });
    if (choose(6) == 5) m.stmts.push_back({ 'o', choose(2) ? "java_package" : "optimize.for", any_value(), {} });
    uint32_t n = choose(12) == 11 ? 0 : 1 + choose(maxmsgs);
    // names first, so that fields can refer to later messages too (without cycles)
    std::set<std::string> used;
    std::vector<std::string> names, packages;
    for (uint32_t i = 0; i < n; ++i) names.push_back(ident(used, "M"));
    // position of each message in the text; references go from lower to higher rank
    std::vector<uint32_t> rank(n);
    for (uint32_t i = 0; i < n; ++i) rank[i] = i;
    if (choose(2)) for (uint32_t i = n; i > 1; --i) std::swap(rank[i - 1], rank[choose(i)]);
    uint32_t repack = n > 1 && choose(6) == 5 ? 1 + choose(n - 1) : n; // a second package statement
    packages.assign(n, package);
    std::string package2 = "second.pk";
    for (uint32_t i = repack; i < n; ++i) packages[i] = package2;
    for (uint32_t i = 0; i < n; ++i)
    {
        if (i == repack) m.stmts.push_back({ 'p', package2, "", {} });
        MsgM g;
        g.name = names[i];
        g.package = packages[i];
        if (choose(8) == 7) g.opts.push_back({ "deprecated", choose(2) ? "true" : any_value() });
        uint32_t nf = choose(10) == 9 ? 0 : 1 + choose(choose(6) == 5 ? maxfields : std::min<uint32_t>(maxfields, 6));
        std::set<std::string> fused;
        std::set<uint32_t> nums;
        for (uint32_t k = 0; k < nf; ++k)
        {
            FieldM f;
            std::vector<uint32_t> targets;
            for (uint32_t j = 0; j < n; ++j) if (rank[j] < rank[i] && packages[j] == packages[i]) targets.push_back(j);
            if (!targets.empty() && choose(3) == 2) { f.type = names[pick(targets)]; f.ref = true; }
            else f.type = pick(SCALAR);
            uint32_t q = choose(5);
            f.rep = q == 4;
            f.opt = q == 3;
            f.name = choose(40) == 39 ? (choose(2) ? "message" : "package") : "";
            if (f.name.empty() || !fused.insert(f.name).second) f.name = ident(fused, "f");
            do f.num = field_number(); while (!nums.insert(f.num).second);
            if (choose(6) == 5) f.opts.push_back({ "transient", choose(3) ? "true" : "false" });
            if (choose(6) == 5)
            {
                std::string v = string_token();
                if (v.find('\'') != std::string::npos) v = "\"json\"";
                f.opts.push_back({ "name", v });
            }
            if (choose(12) == 11) f.opts.push_back({ "some.other", any_value() });
            g.fields.push_back(f);
        }
        m.stmts.push_back({ 'm', "", "", g });
    }
    if (choose(10) == 9) m.stmts.push_back({ 'o', FOPT[choose(3)], "true", {} });
    return m;
}

std::vector<std::vector<std::string>> tokens(const ModelM &m)
{
    std::vector<std::vector<std::string>> out;
    for (auto &s : m.stmts)
    {
        std::vector<std::string> t;
        if (s.kind == 's') t = { "syntax", "=", s.a, ";" };
        else if (s.kind == 'p') t = { "package", s.a, ";" };
        else if (s.kind == 'o') t = { "option", s.a, "=", s.b, ";" };
        else
        {
            t = { "message", s.msg.name, "{" };
            for (auto &o : s.msg.opts) for (auto x : { std::string("option"), o.first, std::string("="), o.second, std::string(";") }) t.push_back(x);
            for (auto &f : s.msg.fields)
            {
                if (f.rep) t.push_back("repeated");
                if (f.opt) t.push_back("optional");
                t.push_back(f.type);
                t.push_back(f.name);
                t.push_back("=");
                t.push_back(std::to_string(f.num));
                if (!f.opts.empty())
                {
                    t.push_back("[");
                    for (size_t i = 0; i < f.opts.size(); ++i)
                    {
                        if (i) t.push_back(",");
                        t.push_back(f.opts[i].first);
                        t.push_back("=");
                        t.push_back(f.opts[i].second);
                    }
                    t.push_back("]");
                }
                t.push_back(";");
            }
            t.push_back("}");
        }
        out.push_back(t);
    }
    return out;
}

static bool word(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.'; }

namespace {
struct Out
{
    Text t;
    bool open = false; // a top-level statement is incomplete
    uint32_t done = 0;
    void put(char c, Cut cls)
    {
        t.bytes += c;
        t.cut.push_back((unsigned char)cls);
        t.done.push_back(done);
    }
    Cut idle() const { return open ? CUT_INSIDE : CUT_BOUNDARY; }
    void space(const char *s) { for (; *s; ++s) put(*s, idle()); }
    void line_comment(const std::string &s)
    {
        put('/', CUT_SLASH);
        put('/', idle());
        for (char c : s) put(c, idle());
        put('\n', idle());
    }
    void block_comment(const std::string &s)
    {
        put('/', CUT_SLASH);
        put('*', CUT_BLOCK_COMMENT);
        for (char c : s) put(c, CUT_BLOCK_COMMENT);
        put('*', CUT_BLOCK_COMMENT);
        put('/', idle());
    }
    void filler(bool need)
    {
        static const char *WS[] = { " ", "\n", "\t", "\r\n", "   ", "\n\n\t", " \r" };
        static const char *CM[] = { "", " text", " message X {", "\"", " /* ", " */", "*", " ключ 中", " = ;}", "////", " int32 a = 1;", "'" };
        static const char *BC[] = { "", " text ", " message X {", "\"", "*", "**", " // ", "\n\n", " * / ", " ключ 中", "/", "/*", "\r\n * more\r\n", "*\n*", "\\" };
        uint32_t k = choose(need ? 2 : 3);
        bool any = false;
        for (uint32_t i = 0; i < k || (need && !any); ++i)
        {
            uint32_t q = choose(6);
            if (q == 5) line_comment(pick(CM));
            else if (q == 4) block_comment(pick(BC));
            else space(pick(WS));
            any = true;
        }
    }
};
} // namespace

Text render(const ModelM &m, int style)
{
    Out o;
    // prefix of length 0
    o.t.cut.push_back(CUT_BOUNDARY);
    o.t.done.push_back(0);
    for (auto &st : tokens(m))
    {
        bool last_word = false;
        for (size_t i = 0; i < st.size(); ++i)
        {
            const std::string &k = st[i];
            bool need = last_word && word(k[0]) && i > 0;
            if (style) o.filler(need);
            else if (need || (i && k != ";" && k != ",")) o.space(" ");
            for (size_t c = 0; c < k.size(); ++c)
            {
                o.open = true;
                if (i + 1 == st.size() && c + 1 == k.size()) { o.open = false; o.done++; }
                o.put(k[c], o.idle());
            }
            last_word = word(k.back());
        }
        if (!style) o.space("\n");
    }
    if (style && choose(2)) o.filler(false);
    if (style && choose(6) == 5)
    {   // a line comment without end of line
        o.put('/', CUT_SLASH);
        o.put('/', CUT_BOUNDARY);
        for (const char *p = " last"; *p; ++p) o.put(*p, CUT_BOUNDARY);
    }
    return o.t;
}

bool refs_resolved(const ModelM &m, uint32_t stmts)
{
    std::set<std::pair<std::string, std::string>> have;
    for (uint32_t i = 0; i < stmts && i < m.stmts.size(); ++i)
        if (m.stmts[i].kind == 'm') have.insert({ m.stmts[i].msg.package, m.stmts[i].msg.name });
    for (uint32_t i = 0; i < stmts && i < m.stmts.size(); ++i)
        if (m.stmts[i].kind == 'm')
            for (auto &f : m.stmts[i].msg.fields)
                if (f.ref && !have.count({ m.stmts[i].msg.package, f.type })) return false;
    return true;
}

std::set<std::string> names_of(const ModelM &m)
{
    std::set<std::string> s;
    for (auto &st : m.stmts)
        if (st.kind == 'm')
        {
            s.insert(st.msg.name);
            for (auto &f : st.msg.fields) s.insert(f.name);
        }
    return s;
}

bool has_word(const std::string &text, const std::string &w)
{
    for (size_t p = text.find(w); p != std::string::npos; p = text.find(w, p + 1))
    {
        bool l = p == 0 || !word(text[p - 1]) || text[p - 1] == '.';
        size_t e = p + w.size();
        bool r = e >= text.size() || !word(text[e]) || text[e] == '.';
        if (l && r) return true;
    }
    return false;
}

std::string damage(const std::string &text)
{
    static const char *BITS[] = { "/", "/*", "*/", "//", "\"", "{", "}", "[", "]", ";", "=", ",", "<", ">", ".", "..", "message", "option", "repeated", "package", "syntax", "map", "enum", "true", "0", "-1",
                                  "99999999999999999999", "\n", "\r", "\t", " ", "\x80", "\xff", "é", "#", "'", "\\", "optional", "string", "int32", "import \"x\";", "message a.b {}", "\v", "\f", "$1$", "\b" };
    std::string s = text;
    uint32_t n = 1 + choose(choose(3) == 2 ? 12 : 2);
    for (uint32_t i = 0; i < n; ++i)
    {
        size_t p = s.empty() ? 0 : choose((uint32_t)s.size() + 1), q = s.empty() ? 0 : choose((uint32_t)s.size() + 1);
        if (p > q) std::swap(p, q);
        if (q - p > 60 && choose(3)) q = p + choose(60);
        switch (choose(7))
        {
            case 0: s.insert(p, pick(BITS)); break;
            case 1: s.erase(p, q - p); break;
            case 2: if (p < s.size()) s[p] = (char)choose(256); break;
            case 3: s.insert(q, s.substr(p, q - p)); break;
            case 4: s.replace(p, q - p, pick(BITS)); break;
            case 5: s.resize(q); break;
            default: if (p < s.size()) s.insert(p, 1, (char)choose(256)); break;
        }
        if (s.size() > 20000) s.resize(20000);
    }
    return s;
}

static std::string rep(const std::string &s, uint32_t n) { std::string o; o.reserve(s.size() * n); while (n--) o += s; return o; }

std::string hostile()
{
    static const char *TOK[] = { "message", "M", "{", "}", "int32", "string", "a", "b", "=", "1", "2", ";", "option", "transient", "true", "[", "]", ",", "package", "p.q", "syntax", "\"proto3\"", "repeated",
                                 "optional", "name", "\"x\"", "/*c*/", "//c\n", "bytes", "map", "<", ">", ".", "/", "\"", "0", "-", "enum", "false", "\xc3\xa9" };
    std::string s;
    uint32_t size = choose(4) == 3 ? 1 + choose(4000) : 1 + choose(300);
    switch (choose(17))
    {
        case 16: // the same small thing very often, between or inside statements
        {
            static const char *R[] = { "//\n", "/**/", " //c\n", "\n", "\r\n", "/**/\n", "//\r\n", ";", "option a = 1;", "message A{}", "int32 a=1;", "package a;" };
            static const char *BEFORE[] = { "", "message M { int32 a = 1; ", "syntax = \"proto3\"; ", "message M { int32 a = 1 [", "package a" };
            static const char *AFTER[] = { "", "}", "message M { int32 a = 1; }", "];}", ".b;" };
            uint32_t i = choose(5);
            std::string r = pick(R);
            uint32_t n = (choose(8) == 7 ? 20000 + choose(60000) : 200 + choose(3000)) / (r.size() > 6 ? 8 : 1);
            return BEFORE[i] + rep(r, n) + AFTER[choose(4) ? i : choose(5)];
        }
        case 0: // token soup
            for (uint32_t i = 0; i < size; ++i) { s += pick(TOK); if (choose(4)) s += ' '; }
            return s;
        case 1: // bytes
            for (uint32_t i = 0; i < size; ++i) s += (char)choose(256);
            return s;
        case 2: return "message M {" + rep("message M {", size);
        case 3: return "message M { int32 a = 1 " + rep("[", size);
        case 4: return rep("/", size);
        case 5: return "/" + rep("*", size) + (choose(2) ? "/" : "");
        case 6: return "/*" + rep("/*", size) + (choose(2) ? "*/" : "");
        case 7: return "package " + rep("a.", size) + (choose(2) ? "b;" : "");
        case 8: return "message " + rep("x", size) + " { int32 " + rep("y", size) + " = " + rep("9", size) + ";}";
        case 9: return "option " + rep("a", size) + " = \"" + rep("z", size) + (choose(2) ? "\";" : "");
        case 10: return rep(choose(2) ? " " : "\n", size * 4) + (choose(2) ? "message M {}" : "");
        case 11: // one field per message, every message depends on the next (and the one after it)
        {
            uint32_t n = 1 + choose(200), fan = 1 + choose(3);
            for (uint32_t i = 0; i < n; ++i)
            {
                s += "message m" + std::to_string(i) + "{";
                for (uint32_t k = 1; k <= fan && i + k < n; ++k)
                    s += "m" + std::to_string(i + k) + " f" + std::to_string(k) + "=" + std::to_string(k) + ";";
                s += "}";
            }
            return s;
        }
        case 12: // circular
        {
            uint32_t n = 1 + choose(60);
            for (uint32_t i = 0; i < n; ++i) s += "message m" + std::to_string(i) + "{int32 a=1; m" + std::to_string((i + 1) % n) + " b=2;}\n";
            return s;
        }
        case 13: // fields
        {
            uint32_t n = 1 + choose(150);
            s = "message M {";
            for (uint32_t i = 0; i < n; ++i) s += "int32 f" + std::to_string(i) + "=" + std::to_string(choose(20) == 19 ? 1 : i + 1) + ";";
            return s + "}";
        }
        case 14: // diamond: two references per level
        {
            uint32_t n = 2 + choose(60);
            for (uint32_t i = 0; i < n; ++i)
            {
                s += "message m" + std::to_string(i) + "{";
                if (i + 1 < n) s += "m" + std::to_string(i + 1) + " a=1; m" + std::to_string(i + 1) + " b=2; repeated m" + std::to_string(i + 1) + " c=3;";
                else s += "int32 leaf=1;";
                s += "}\n";
            }
            return s;
        }
        default:
            s = "message M { int32 a = 1 [";
            for (uint32_t i = 0; i < size; ++i) s += "o" + std::to_string(i) + "=" + (choose(2) ? "true" : "\"v\"") + (choose(8) ? "," : "");
            return s + (choose(2) ? "];}" : "");
    }
}
} // namespace sim
