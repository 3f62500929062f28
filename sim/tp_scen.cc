// The build's template tool (source/template.cc), which turns the runtime
// headers and code templates into macros: C22.
#include "cc_world.hpp"
#include <cmake.hh>
#include <cerrno>
#include <cstring>
#include <map>
#include <sys/stat.h>
#include <unistd.h>

namespace sim {
#define CHECK(cond, kind, ...) do { if (!(cond)) ::sim::fail(kind, __VA_ARGS__); } while (0)
typedef std::vector<std::string> Lines;

// ------------------------------------------------------------- inputs
static std::string random_line()
{
    static const char *W[] = { "int x = 0;", "\"", "\\", "\\n", "\\\"", "// note", "#include <a>", "_X_Y_Z", "protogen_X_Y_Z::field", "PG_X_Y_Z_ENTITY(N,O,S) \\",
        "\t", "    ", "$1$", "'", "\xc3\xa9", "%s", "AUTO-REMOVE", "0", "/* */", "------", "--- ", "\\x41", "\\0", "a_X_Y_Z_X_Y_Z", "}", "-----", "#" };
    std::string s;
    switch (choose(12))
    {
        case 0: return "";
        case 1: return "#include \"" + std::string(choose(2) ? "json.hh" : "protogen.hh") + "\" // AUTO-REMOVE";
        case 2: return "#include <x> // AUTO-REMOVE \\";
        case 11: { uint32_t n = choose(3) ? choose(300) : choose(20000); while (s.size() < n) s += pick(W); return s; }
        default: break;
    }
    uint32_t n = 1 + choose(5);
    while (n--) { s += pick(W); if (choose(2)) s += ' '; }
    return s;
}
struct Input
{
    std::string bytes;
    std::map<std::string, std::string> want; // macro name -> text ("" in the key: any name)
};
static void replace_all(std::string &s, const std::string &a, const std::string &b)
{
    for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b);
}
// a runtime header: all of it becomes one macro
static Input header_input(const Lines &l, bool last_newline)
{
    Input in;
    std::string &w = in.want[""];
    for (size_t i = 0; i < l.size(); ++i)
    {
        in.bytes += l[i];
        if (i + 1 < l.size() || last_newline) in.bytes += '\n';
        if (!l[i].empty() && l[i][0] == '#' && l[i].find("AUTO-REMOVE") != std::string::npos) continue;
        std::string t = l[i];
        replace_all(t, "_X_Y_Z", PROTOGEN_VERSION_NAMING);
        w += t + "\n";
    }
    return in;
}
// code templates: named sections
static Input code_input()
{
    Input in;
    uint32_t n = 1 + choose(5);
    if (choose(3) == 2) in.bytes += "text outside of a section\n\n";
    for (uint32_t i = 0; i < n; ++i)
    {
        std::string name = "CODE_" + std::string(1, (char)('A' + i)) + (choose(2) ? "__EMPTY" : "");
        std::string &w = in.want[name];
        in.bytes += "--- " + name + "\n";
        for (uint32_t k = choose(8); k--;)
        {
            std::string s = random_line();
            if (s.compare(0, 6, "------") == 0) s = " " + s;
            in.bytes += s + "\n";
            w += s + "\n";
        }
        in.bytes += "------";
        if (i + 1 < n || choose(4)) in.bytes += "\n";
        if (i + 1 < n && choose(2)) in.bytes += "\n";
    }
    return in;
}

// ------------------------------------------------------------- reading the result as a C compiler would
static bool decode(const std::string &file, std::map<std::string, std::string> &out, std::string &why)
{
    // backslash-newline joins lines before anything else
    std::string t;
    for (size_t i = 0; i < file.size(); ++i)
    {
        if (file[i] == '\\' && i + 1 < file.size() && file[i + 1] == '\n') { ++i; continue; }
        t += file[i];
    }
    if (!t.empty() && t.back() != '\n') { why = "the last line is incomplete"; return false; }
    int open = 0;
    for (size_t p = 0; p < t.size();)
    {
        size_t e = t.find('\n', p);
        std::string line = t.substr(p, e - p);
        p = e + 1;
        if (line.compare(0, 8, "#ifndef ") == 0) { ++open; continue; }
        if (line.compare(0, 6, "#endif") == 0) { --open; continue; }
        if (line.find_first_not_of(" \t") == std::string::npos || line.compare(0, 2, "//") == 0) continue;
        if (line.compare(0, 8, "#define ") != 0) { why = "unexpected line " + esc(line, 80); return false; }
        size_t q = line.find_first_of(" \t", 8);
        std::string name = line.substr(8, q == std::string::npos ? q : q - 8), text;
        bool any = false;
        for (size_t i = q == std::string::npos ? line.size() : q; i < line.size(); ++i)
        {
            char c = line[i];
            if (c == ' ' || c == '\t') continue;
            if (c != '"') { why = "macro " + name + " holds more than string literals: " + esc(line.substr(i), 60); return false; }
            any = true;
            for (++i;; ++i)
            {
                if (i >= line.size()) { why = "macro " + name + " has an open string literal"; return false; }
                c = line[i];
                if (c == '"') break;
                if (c != '\\') { text += c; continue; }
                if (++i >= line.size()) { why = "macro " + name + " ends in an escape"; return false; }
                switch (line[i])
                {
                    case 'n': text += '\n'; break;
                    case 't': text += '\t'; break;
                    case 'r': text += '\r'; break;
                    case '\\': case '"': case '\'': case '?': text += line[i]; break;
                    case 'x':
                    {
                        unsigned v = 0;
                        while (i + 1 < line.size() && isxdigit((unsigned char)line[i + 1])) v = v * 16 + (unsigned)strtol(std::string(1, line[++i]).c_str(), nullptr, 16);
                        text += (char)v;
                        break;
                    }
                    default:
                        if (line[i] >= '0' && line[i] <= '7')
                        {
                            unsigned v = 0;
                            for (int k = 0; k < 3 && i < line.size() && line[i] >= '0' && line[i] <= '7'; ++k, ++i) v = v * 8 + (unsigned)(line[i] - '0');
                            --i;
                            text += (char)v;
                            break;
                        }
                        why = "macro " + name + " holds an unknown escape";
                        return false;
                }
            }
        }
        if (out.count(name)) { why = "macro " + name + " is defined twice"; return false; }
        out[name] = text;
        if (!any) out.erase(name), out[name + " (empty)"] = "";
    }
    if (open) { why = "an #ifndef without its #endif"; return false; }
    return true;
}
static std::string trim(std::string s) // trailing empty lines do not matter
{
    while (!s.empty() && s.back() == '\n') s.pop_back();
    return s;
}
static void check_output(const Input &in, const std::string &file, const char *when)
{
    std::map<std::string, std::string> got;
    std::string why;
    CHECK(decode(file, got, why), "embedding-incomplete", "%s: status 0, but the output (%zu bytes) is not a complete set of macros: %s", when, file.size(), why.c_str());
    for (auto &w : in.want)
    {
        std::string key = w.first;
        if (key.empty())
        {
            for (auto &g : got) if (g.first.find(' ') == std::string::npos) { CHECK(key.empty(), "embedding-wrong", "%s: more than one macro", when); key = g.first; }
            if (key.empty() && trim(w.second).empty()) continue;
        }
        if (!got.count(key) && trim(w.second).empty() && got.count(key + " (empty)")) continue;
        CHECK(got.count(key), "embedding-wrong", "%s: status 0, but macro '%s' is missing", when, key.c_str());
        std::string a = trim(got[key]), b = trim(w.second);
        if (a == b) continue;
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
        fail("embedding-wrong", "%s: status 0, but macro '%s' differs from its source at byte %zu of %zu: %s instead of %s", when, key.c_str(), i, b.size(), esc(a.substr(i), 60).c_str(), esc(b.substr(i), 60).c_str());
    }
}

SCENARIO(C22)
{
    clean_scratch();
    static const char *DIR[] = { "in/", "in/", "in/./" };
    bool hh = choose(3) != 2;
    std::string model = scratch() + pick(DIR) + (hh ? "json-part.hh" : "code.txt"), out = scratch() + "out/auto-x.hh";
    Input in;
    if (hh)
    {
        Lines l(1 + choose(choose(8) == 7 ? 400 : 20));
        for (auto &x : l) x = random_line();
        in = header_input(l, choose(4) != 3);
    }
    else in = code_input();
    write_file(model, in.bytes);
    logx("input", in.bytes);
    RunOut r0 = run_cli(model, out, Plan());
    std::string ref = exists(out) ? read_file(out) : "";
    log("reference run: status %d, %zu bytes", r0.status, ref.size());
    CHECK(r0.status == 0, "spurious-failure", "the template tool fails without a fault: status %d", r0.status);
    check_output(in, ref, "without faults");
    uint32_t n = 1 + choose(4);
    for (uint32_t i = 0; i < n; ++i)
    {
        if (choose(3) == 0) unlink(out.c_str());
        else if (choose(2)) write_file(out, ref + "more of an older version\n");
        Plan p;
        bool hard = false;
        switch (choose(7))
        {
            case 0: break;
            case 1: p.kill_call = choose(r0.calls + 1); log("plan: killed at call %d", (int)p.kill_call); break;
            case 2: p.amode = choose(2) ? ALLOC_ONCE : ALLOC_PERSIST; p.anth = choose((uint32_t)(r0.allocs ? r0.allocs : 1) + 1); log("plan: allocation #%llu fails", (unsigned long long)p.anth); break;
            default:
            {
                static const int K[] = { IO_OPEN_IN, IO_READ, IO_OPEN_OUT, IO_WRITE, IO_WRITE, IO_READ, IO_CLOSE_OUT }, E[] = { EIO, ENOSPC, EACCES, ENOMEM, EISDIR, EDQUOT };
                hard = true;
                p.hard = pick(K);
                p.at = choose(r0.n[p.hard] ? r0.n[p.hard] : 1);
                p.persist = choose(2);
                p.partial = p.hard == IO_WRITE && choose(2);
                p.err = pick(E);
                log("plan: %s #%u fails%s%s, errno %d", IO_NAME[p.hard], p.at, p.persist ? " from then on" : "", p.partial ? " after a partial transfer" : "", p.err);
            }
        }
        if (choose(3) == 2) { p.benign = 2 + choose(6); log("plan: 1 in %u transfers is short or interrupted", p.benign); }
        RunOut r = run_cli(model, out, p);
        std::string got = exists(out) ? read_file(out) : "";
        log("run: %s %d, %zu bytes, faults %u", r.killed ? "killed" : "status", r.status, got.size(), r.fired);
        if (!r.killed)
        {
            if (r.fired && hard) CHECK(r.status != 0, "success-after-error", "status 0 although %s failed (call #%u, errno %d)", IO_NAME[p.hard], p.at, p.err);
            if (r.status == 0) { check_output(in, got, "with faults"); CHECK(got == ref, "success-wrong-output", "status 0, but the output (%zu bytes) is not that of a run without faults (%zu bytes)", got.size(), ref.size()); }
            if (!r.fired && p.amode == ALLOC_OFF) CHECK(r.status == 0, "spurious-failure", "short or interrupted transfers alone made the template tool fail with status %d", r.status);
        }
        if (choose(2) || i + 1 == n)
        {
            RunOut q = run_cli(model, out, Plan());
            std::string res = exists(out) ? read_file(out) : "";
            log("run again: status %d, %zu bytes", q.status, res.size());
            CHECK(q.status == 0 && res == ref, "rerun-differs", "after %s the fault-free run gives status %d and %zu bytes instead of %zu", r.killed ? "a kill" : r.status ? "a failure" : "a success", q.status, res.size(), ref.size());
        }
    }
}
} // namespace sim
