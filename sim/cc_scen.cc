// Scenarios for the compiler properties C12..C17.
#include "cc_model.hpp"
#include "cc_world.hpp"
#include "streams.hpp"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <protogen/proto3.hh>
#include <protogen/protogen.hh>

namespace sim {
#define CHECK(cond, kind, ...) do { if (!(cond)) ::sim::fail(kind, __VA_ARGS__); } while (0)
static std::string tail(const std::string &s) { return esc(mask(s), 500); }

// ------------------------------------------------------------- command line
struct Job
{
    std::string model, out; // absolute paths; out empty: standard output
};
static const char *FILE_NAME[] = { "m.proto", "model.proto", "my model.proto", "x-1.2.proto", "noext", "\xc3\xa9t\xc3\xa9.proto" };
static Job new_job(bool stdout_too)
{
    clean_scratch();
    Job j;
    j.model = scratch() + "in/" + (choose(8) == 7 ? "m" + std::string(1 + choose(240), choose(2) ? 'n' : '-') + ".proto" : pick(FILE_NAME));
    if (!(stdout_too && choose(3) == 2)) j.out = scratch() + "out/m.pg.hh";
    return j;
}
static Text random_text(const ModelM &m) { return render(m, choose(3) ? 1 : 0); }
static ModelM sized_model()
{
    uint32_t k = choose(16);
    return k == 15 ? random_model(30, 64) : k > 11 ? random_model(8, 20) : random_model(4, 8);
}
// what a compilation left behind: the header, wherever it goes
static std::string result_of(const Job &j, const RunOut &r) { return j.out.empty() ? r.out : read_file(j.out); }
static std::string status_text(const RunOut &r)
{
    return r.killed ? "killed" : "status " + std::to_string(r.status);
}
// (sizes of diagnostics depend on nothing but the model: the path has a fixed length)
static void log_run(const char *what, const RunOut &r, const std::string &result)
{
    log("%s: %s, %zu bytes of output, calls %u, faults %u, stderr %s", what, status_text(r).c_str(), result.size(), r.calls, r.fired, tail(r.err).c_str());
}
static std::string old_content()
{
    static const char *C[] = { "", "old header\n", "// previous\n#endif\n" };
    std::string s = pick(C);
    if (choose(2)) { std::string big; uint32_t n = choose(3000); while (n--) big += "previous content line\n"; s += big; }
    return s;
}
// one reference compilation without faults over a clean directory
static RunOut reference(const Job &j, std::string &result)
{
    Plan p;
    if (!j.out.empty() && exists(j.out)) unlink(j.out.c_str());
    RunOut r = run_cli(j.model, j.out, p);
    result = result_of(j, r);
    log_run("reference run", r, result);
    CHECK(r.status < 128, "crash:abort", "the compiler died of a signal without any fault: %s", tail(r.err).c_str());
    return r;
}

static const int READ_ERR[] = { EIO, EISDIR, ENOMEM }, OPEN_ERR[] = { EACCES, EMFILE, ENOMEM, EIO, ENOENT, EROFS, ENOSPC }, WRITE_ERR[] = { ENOSPC, EIO, EDQUOT, EFBIG };
// a fault that must be reported
static bool hard_fault(Plan &p, const RunOut &ref, bool reading_only = false)
{
    std::vector<int> kinds;
    for (int k = 0; k < (reading_only ? (int)IO_OPEN_OUT : (int)IO_N); ++k) if (ref.n[k]) kinds.push_back(k);
    if (kinds.empty()) return false;
    p.hard = pick(kinds);
    // more calls than the reference made: writes and reads may come in smaller pieces
    uint32_t n = ref.n[p.hard];
    p.at = choose(n + (p.benign && (p.hard == IO_READ || p.hard == IO_WRITE || p.hard == IO_STDOUT) ? 3 : 0));
    p.persist = choose(2);
    p.partial = (p.hard == IO_WRITE || p.hard == IO_STDOUT) && choose(2);
    p.err = p.hard == IO_READ || p.hard == IO_RESOLVE ? pick(READ_ERR) : p.hard == IO_OPEN_IN || p.hard == IO_OPEN_OUT ? pick(OPEN_ERR) : pick(WRITE_ERR);
    log("plan: %s #%u fails%s%s, errno %d", IO_NAME[p.hard], p.at, p.persist ? " from then on" : "", p.partial ? " after a partial transfer" : "", p.err);
    return true;
}
static void benign(Plan &p)
{
    static const uint32_t B[] = { 2, 3, 8, 40 };
    p.benign = pick(B);
    log("plan: 1 in %u transfers is short or interrupted", p.benign);
}

SCENARIO(C12)
{
    Job j = new_job(true);
    ModelM m = sized_model();
    Text t = random_text(m);
    write_file(j.model, t.bytes);
    logx("model", t.bytes);
    std::string ref;
    RunOut r0 = reference(j, ref);
    if (r0.status != 0) { count("probe.model_rejected"); return; }
    for (auto &w : names_of(m))
        CHECK(has_word(ref, w), "incomplete-header", "status 0, but the header does not mention '%s' of the model %s", w.c_str(), esc(t.bytes, 400).c_str());
    uint32_t n = 1 + choose(4);
    for (uint32_t i = 0; i < n; ++i)
    {
        Plan p;
        bool io = true;
        Job k = j;
        switch (choose(8))
        {
            case 0: benign(p); break;
            case 1: benign(p); hard_fault(p, r0); break;
            case 2: // the arguments themselves are unusable
            {
                io = false;
                uint32_t q = choose(4);
                if (q == 0) k.model = scratch() + "in/missing.proto";
                if (q == 1) k.model = scratch() + "in";
                if (q == 2) { if (k.out.empty()) continue; k.out = scratch() + "out"; }
                if (q == 3) { if (k.out.empty()) continue; k.out = scratch() + "out/missing/m.hh"; }
                log("plan: unusable argument %u", q);
                count("fault.unusable_argument");
                break;
            }
            default: hard_fault(p, r0); break;
        }
        if (!j.out.empty())
        {
            uint32_t q = choose(3);
            if (q == 0) unlink(j.out.c_str());
            if (q == 1) write_file(j.out, old_content());
            if (q == 2) { write_file(j.out, ref + (choose(2) ? "\n// more\n" : "")); }
        }
        RunOut r = run_cli(k.model, k.out, p);
        std::string got = result_of(j, r);
        log_run("run", r, got);
        CHECK(r.status < 128, "crash:abort", "an I/O error ends the compiler with a signal: %s", tail(r.err).c_str());
        if (!io)
        {
            CHECK(r.status != 0, "success-without-header", "status 0 although the model or the output cannot be opened");
            CHECK(!r.err.empty(), "silent-failure", "status %d without any message on standard error", r.status);
            continue;
        }
        if (r.fired)
        {
            CHECK(r.status != 0, "success-after-error", "status 0 although %s failed (call #%u, errno %d); output %s the complete header", IO_NAME[p.hard], p.at, p.err, got == ref ? "is" : "is not");
            CHECK(!r.err.empty(), "silent-failure", "%s failed (call #%u, errno %d): status %d without any message on standard error", IO_NAME[p.hard], p.at, p.err, r.status);
        }
        if (r.status == 0)
            CHECK(got == ref, "success-without-header", "status 0, but the output (%zu bytes) is not the complete header (%zu bytes)", got.size(), ref.size());
        if (!r.fired)
            CHECK(r.status == 0, "spurious-failure", "short or interrupted transfers alone made the compiler fail: status %d, %s", r.status, tail(r.err).c_str());
    }
}

// ------------------------------------------------------------- C13
// after a kill only part of what was written may survive
static void lose_part(const std::string &path)
{
    if (path.empty() || !exists(path)) return;
    switch (choose(4))
    {
        case 1:
        {
            std::string s = read_file(path);
            if (s.empty()) break;
            s.resize(choose((uint32_t)s.size()));
            write_file(path, s);
            count("fault.lost_write");
            log("of the output %zu bytes survive", s.size());
            break;
        }
        case 2:
        {
            std::string s = read_file(path);
            if (s.empty()) break;
            size_t a = choose((uint32_t)s.size()), n = std::min<size_t>(s.size() - a, 1 + choose(4096));
            s.replace(a, n, n, '\0');
            write_file(path, s);
            count("fault.torn_write");
            log("%zu bytes of the output at %zu are zero", n, a);
            break;
        }
        default: break;
    }
}
SCENARIO(C13)
{
    Job j = new_job(false);
    // a few model texts that take turns at the same path
    struct Ver { std::string text, ref, err; RunOut run; };
    std::vector<Ver> v(1 + choose(3));
    for (auto &x : v)
    {
        ModelM m = sized_model();
        Text t = random_text(m);
        uint32_t k = choose(8);
        x.text = t.bytes;
        if (k == 2) x.text = damage(t.bytes);
        if (k == 3 || k == 4)
        {
            size_t p = choose((uint32_t)t.bytes.size() + 1);
            x.text.resize(p);
            count("fault.model_cut");
        }
        write_file(j.model, x.text);
        logx("model", x.text);
        x.run = reference(j, x.ref);
        CHECK(x.run.status == 0 || !exists(j.out), "output-after-reject", "status %d, but an output file appeared (%zu bytes)", x.run.status, x.ref.size());
        if ((k == 3 || k == 4) && t.cut[x.text.size()] != CUT_BOUNDARY && t.cut[x.text.size()] != CUT_SLASH)
            CHECK(x.run.status != 0, "incomplete-model-accepted", "a model that ends inside a %s is compiled: %s", t.cut[x.text.size()] == CUT_BLOCK_COMMENT ? "block comment" : "statement", esc(x.text, 300).c_str());
    }
    unlink(j.out.c_str());
    if (choose(3)) { write_file(j.out, old_content()); log("there is a previous output"); }
    uint32_t n = 1 + choose(5);
    for (uint32_t i = 0; i < n; ++i)
    {
        Ver &x = pick(v);
        write_file(j.model, x.text);
        bool had = exists(j.out);
        std::string before = had ? read_file(j.out) : "";
        log("model %zu, output %s", (size_t)(&x - v.data()), had ? "exists" : "absent");
        Plan p;
        uint32_t mode = choose(6);
        bool reading = false;
        if (mode == 1) { reading = hard_fault(p, x.run, true); }
        if (mode == 2) hard_fault(p, x.run);
        if (mode == 3) { p.kill_call = choose(x.run.calls + 1); log("plan: killed at call %d", (int)p.kill_call); }
        if (mode == 4) { p.kill_step = 1 + choose((uint32_t)std::min<uint64_t>(x.run.steps ? x.run.steps : 200000, 4000000)); log("plan: killed after %llu basic blocks", (unsigned long long)p.kill_step); }
        if (mode == 5) { p.amode = ALLOC_PERSIST; p.anth = choose((uint32_t)std::max<uint64_t>(1, x.run.allocs ? x.run.allocs : 2000)); log("plan: allocations fail from #%llu", (unsigned long long)p.anth); }
        if (choose(4) == 3) benign(p);
        RunOut r = run_cli(j.model, j.out, p);
        bool has = exists(j.out);
        std::string after = has ? read_file(j.out) : "";
        log_run("run", r, after);
        bool rejected = x.run.status != 0 && !r.killed;
        if (rejected || (reading && r.fired))
        {
            if (!(p.amode != ALLOC_OFF)) CHECK(r.status != 0, "unreadable-model-accepted", "status 0 for a model that %s", rejected ? "is rejected otherwise" : "could not be read completely");
            CHECK(has == had, "output-touched", "the model %s (status %d), but the output file %s", rejected ? "was rejected" : "could not be read", r.status, has ? "appeared" : "disappeared");
            CHECK(after == before, "output-touched", "the model %s (status %d), but the existing output changed (%zu -> %zu bytes)", rejected ? "was rejected" : "could not be read", r.status, before.size(), after.size());
        }
        else if (r.status == 0 && !r.killed)
            CHECK(after == x.ref, "wrong-output", "status 0, but the output (%zu bytes) is not what a first run writes (%zu bytes)", after.size(), x.ref.size());
        if (r.killed) lose_part(j.out);
        // the same command again, without faults
        if (choose(2) == 0 || i + 1 == n)
        {
            bool had2 = exists(j.out);
            std::string prev = had2 ? read_file(j.out) : "";
            RunOut q = run_cli(j.model, j.out, Plan());
            std::string res = exists(j.out) ? read_file(j.out) : "";
            log_run("run again", q, res);
            CHECK(q.status == x.run.status && q.err == x.run.err, "rerun-differs", "after a %s run, the fault-free run gives status %d %s instead of status %d %s", status_text(r).c_str(), q.status, tail(q.err).c_str(), x.run.status, tail(x.run.err).c_str());
            if (x.run.status == 0)
                CHECK(res == x.ref, "rerun-differs", "after a %s run, the fault-free run leaves %zu bytes that differ from a first run's %zu", status_text(r).c_str(), res.size(), x.ref.size());
            else
                CHECK(exists(j.out) == had2 && res == prev, "output-touched", "a rejected model changed the output file");
        }
    }
}

// ------------------------------------------------------------- C14
static uint64_t budget(size_t n) { return 600000 + 6000 * (uint64_t)n + 2 * (uint64_t)n * (uint64_t)n; }

struct LibOut
{
    int r = 0; // 0 success, 1 protogen::exception, 2 other exception
    bool bad_alloc = false, flags_kept = true;
    std::string header, error;
    int line = 0, column = 0;
    bool fired = false, tried = false; // fault seen, second generation done
    std::string second;                // what the second generation gave
    bool operator==(const LibOut &o) const { return r == o.r && header == o.header && error == o.error && line == o.line && column == o.column; }
};
struct LibIn
{
    const std::string *text;
    std::string file;
    uint32_t frag = 0, delay = 0;
    bool unbuffered = false;
    size_t fail_at = (size_t)-1; // input stream throws here
    bool in_exc = false;
    std::ios_base::fmtflags extra = {};
    uint32_t out_area = 0;
    size_t out_limit = (size_t)-1;
    int out_mode = 0;
    bool out_exc = false;
    bool to_string = true;
    bool twice = false; // generate again from the same tree, without fault
};
// the whole library path: parse, sort the fields as the compiler does, generate
static LibOut lib(const LibIn &in)
{
    LibOut o;
    Feed feed;
    feed.whole(*in.text);
    feed.frag = in.frag;
    feed.delay = in.delay;
    if (in.fail_at < in.text->size()) { feed.end = in.fail_at; feed.tail = 1; }
    Drain drain;
    drain.limit = in.out_limit;
    drain.mode = in.out_mode;
    drain.area = in.out_area;
    InBuf ib(feed, in.unbuffered);
    OutBuf ob(drain);
    std::istream is(&ib);
    std::ostream os(&ob);
    is.setf(in.extra);
    if (in.in_exc) is.exceptions(std::ios_base::badbit);
    if (in.out_exc) os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    auto flags = is.flags();
    std::string text;
    try
    {
        Real real;
        protogen::Proto3 proto;
        proto.parse(is, in.file);
        for (auto &m : proto.messages)
            std::sort(m->fields.begin(), m->fields.end(), [](const protogen::Field &a, const protogen::Field &b) { return a.name < b.name; });
        protogen::CppGenerator gen;
        auto again = [&] {
            if (!in.twice || is.bad()) return; // (a bad input stream: the tree is incomplete)
            { Harness h; o.fired |= alloc_fired(); alloc_plan(ALLOC_OFF, 0); o.tried = true; }
            try
            {
                std::ostringstream ss;
                gen.generate(proto, ss);
                text = ss.str();
                { Harness h; o.second = text; }
                std::string().swap(text);
            }
            catch (const protogen::exception &e) { Harness h; o.second = std::string("error: ") + e.what(); }
            catch (const std::exception &e) { Harness h; o.second = std::string("exception: ") + e.what(); }
        };
        try
        {
            if (in.to_string)
            {
                std::ostringstream ss;
                gen.generate(proto, ss);
                std::string t = ss.str();
                Harness h;
                o.header = t;
            }
            else
            {
                gen.generate(proto, os);
                os.flush();
                if (!os.good()) { Harness h; o.r = 2; o.error = "output stream is bad"; }
            }
        }
        catch (...) { again(); throw; }
        again();
    }
    catch (const protogen::exception &e) { Harness h; o.r = 1; o.error = e.what(); o.line = e.line; o.column = e.column; }
    catch (const std::bad_alloc &e) { Harness h; o.r = 2; o.bad_alloc = true; o.error = e.what(); }
    catch (const std::exception &e) { Harness h; o.r = 2; o.error = e.what(); }
    o.flags_kept = is.flags() == flags;
    // a reading error is reported through the stream
    if (o.r == 0 && is.bad()) { o.r = 2; o.error = "input stream is bad"; }
    if (o.r != 0) o.header.clear();
    else if (!in.to_string) o.header = drain.got;
    return o;
}
static std::string lib_text(const LibOut &o)
{
    return o.r == 0 ? "header of " + std::to_string(o.header.size()) + " bytes" : "error '" + o.error + "' at " + std::to_string(o.line) + ":" + std::to_string(o.column);
}
static std::string base_name(const std::string &p) { return p.substr(p.rfind('/') + 1); }

SCENARIO(C14)
{
    std::string text;
    int expect = -1; // 0 must be accepted, 1 must be rejected
    const char *where = "";
    uint32_t k = choose(8);
    if (k <= 3)
    {   // a valid model cut short
        ModelM m = choose(4) == 3 ? random_model(8, 20) : random_model(4, 6);
        Text t = render(m, choose(4) ? 1 : 0);
        size_t p = choose(8) == 7 ? t.bytes.size() : choose((uint32_t)t.bytes.size() + 1);
        text = t.bytes.substr(0, p);
        switch (t.cut[p])
        {
            case CUT_BLOCK_COMMENT: expect = 1; where = "inside a block comment"; count("probe.cut_block_comment"); break;
            case CUT_INSIDE: expect = 1; where = "inside a statement"; count("probe.cut_statement"); break;
            case CUT_BOUNDARY:
                if (t.done[p] == 0) break;
                expect = refs_resolved(m, t.done[p]) ? 0 : 1;
                where = expect ? "before a message it uses" : "after a complete statement";
                count("probe.cut_boundary");
                break;
            default: break;
        }
        if (p < t.bytes.size()) count("fault.model_cut");
    }
    else if (k <= 5) { text = damage(random_text(random_model(4, 8)).bytes); count("fault.model_damaged"); }
    else { text = hostile(); count("fault.model_hostile"); }
    logx("model", text);

    // through the library
    static const uint32_t F[] = { 0, 1, 2, 5, 64 };
    LibIn in;
    in.text = &text;
    in.file = "/some/dir/model.proto";
    in.frag = pick(F);
    set_step_limit(budget(text.size()));
    LibOut l = lib(in);
    uint64_t spent = last_steps();
    log("library: %s, %llu basic blocks", lib_text(l).c_str(), (unsigned long long)spent);
    if (getenv("VSIM_CALIB")) { FILE *f = fopen(getenv("VSIM_CALIB"), "a"); fprintf(f, "%zu %llu\n", text.size(), (unsigned long long)spent); fclose(f); }
    CHECK(l.r != 2, "unexpected-exception", "parse or generate threw '%s', which is not a protogen::exception, for %s", l.error.c_str(), esc(text, 300).c_str());
    if (expect == 1) CHECK(l.r == 1, "incomplete-model-accepted", "a model that ends %s is accepted by the library: %s", where, esc(text, 400).c_str());
    if (expect == 0) CHECK(l.r == 0, "complete-model-rejected", "a model that ends %s is rejected (%s): %s", where, l.error.c_str(), esc(text, 400).c_str());

    // through the compiler
    if (choose(3)) return;
    Job j = new_job(true);
    write_file(j.model, text);
    Plan p;
    p.steps = budget(text.size()) + 400000;
    if (choose(3) == 2) p.benign = 3;
    RunOut r = run_cli(j.model, j.out, p);
    log_run("compiler", r, result_of(j, r));
    CHECK(r.status < 128, "crash:abort", "the compiler died of a signal: %s", tail(r.err).c_str());
    if (expect >= 0) CHECK((r.status != 0) == (expect == 1), expect ? "incomplete-model-accepted" : "complete-model-rejected", "a model that ends %s: status %d, %s: %s", where, r.status, tail(r.err).c_str(), esc(text, 300).c_str());
    if (r.status != 0)
        CHECK(r.err.find(base_name(j.model)) != std::string::npos, "no-diagnostic", "status %d, but the diagnostic does not name the file: %s", r.status, tail(r.err).c_str());
    else
        CHECK(!result_of(j, r).empty(), "success-without-header", "status 0 without any output");
}

// ------------------------------------------------------------- C15
SCENARIO(C15)
{
    Job j = new_job(true);
    ModelM m = sized_model();
    uint32_t k = choose(6);
    bool valid = k < 4;
    Text t = random_text(m);
    std::string text = valid ? t.bytes : k == 4 ? damage(t.bytes) : hostile();
    if (choose(4) == 3) text.insert(0, std::string(900 + choose(1200), choose(3) ? '\n' : ' ')); // large line and column numbers
    write_file(j.model, text);
    logx("model", text);
    std::string ref;
    RunOut r0 = reference(j, ref);
    uint32_t n = 1 + choose(4);
    for (uint32_t i = 0; i < n; ++i)
    {
        Job q = j;
        Plan p;
        std::string other = text;
        bool layout = false;
        std::string what;
        static const char *LANG[] = { "de_DE.UTF-8", "tr_TR.UTF-8", "ps_AF.UTF-8", "fr_FR.UTF-8", "C.UTF-8", "xx_YY" };
        if (choose(2)) { p.noise = true; what += " heap"; count("fault.heap_layout"); }
        if (choose(2)) { p.lang = pick(LANG); what += std::string(" ") + p.lang; count("fault.environment"); }
        if (choose(2)) { p.benign = 2 + choose(5); what += " fragments"; }
        if (choose(2)) { p.clock = 1 + bits64() % 4000000000000ull; p.pid = 2 + (int)choose(4000000); what += " clock"; count("fault.clock_jump"); }
        switch (choose(4))
        {
            case 1: p.cwd = scratch() + "in"; q.model = base_name(j.model); what += " cwd"; if (choose(2)) q.model = "./" + q.model; break;
            case 2: p.cwd = scratch() + "out"; q.model = "../in/" + base_name(j.model); if (!q.out.empty()) q.out = "m.pg.hh"; what += " cwd"; break;
            case 3: p.cwd = "/"; what += " cwd"; break;
            default: break;
        }
        if (choose(3) == 2)
        {   // the other destination
            if (j.out.empty()) q.out = scratch() + "out/m.pg.hh";
            else q.out.clear();
            what += " destination";
        }
        if (!q.out.empty())
        {
            std::string abs = scratch() + "out/m.pg.hh";
            if (choose(2)) unlink(abs.c_str()); else { write_file(abs, old_content()); what += " previous-output"; }
        }
        if (valid && choose(2)) { other = render(m, choose(4) ? 1 : 0).bytes; layout = other != text; what += " layout"; }
        write_file(j.model, other);
        if (layout) logx("same model", other);
        RunOut r = run_cli(q.model, q.out, p);
        Job abs = q;
        if (!q.out.empty()) abs.out = scratch() + "out/m.pg.hh";
        std::string got = result_of(abs, r);
        log("variation:%s", what.c_str());
        log_run("run", r, got);
        CHECK(r.status == r0.status, "status-differs", "same model, variation%s: status %d instead of %d (%s / %s)", what.c_str(), r.status, r0.status, tail(r.err).c_str(), tail(r0.err).c_str());
        if (r0.status == 0)
            CHECK(got == ref, "header-differs", "same model, variation%s: the header has %zu bytes, the first one %zu, different at byte %zu", what.c_str(), got.size(), ref.size(),
                  (size_t)(std::mismatch(got.begin(), got.begin() + (ssize_t)std::min(got.size(), ref.size()), ref.begin()).first - got.begin()));
        else if (!layout)
            CHECK(r.err == r0.err, "diagnostic-differs", "same model, variation%s: diagnostic %s instead of %s", what.c_str(), tail(r.err).c_str(), tail(r0.err).c_str());
    }
}

// ------------------------------------------------------------- C16
static std::string some_text(bool &valid)
{
    ModelM m = choose(6) == 5 ? random_model(8, 20) : random_model(3, 6);
    std::string t = random_text(m).bytes;
    valid = true;
    uint32_t k = choose(5);
    if (k == 3) { valid = false; return t.substr(0, choose((uint32_t)t.size() + 1)); }
    if (k == 4) { valid = false; return damage(t); }
    return t;
}
static LibIn lib_in(const std::string &text)
{
    static const uint32_t F[] = { 0, 0, 1, 7, 64 };
    static const std::ios_base::fmtflags X[] = { {}, std::ios_base::hex, std::ios_base::boolalpha | std::ios_base::unitbuf, std::ios_base::showbase | std::ios_base::fixed };
    LibIn in;
    in.text = &text;
    in.file = "/d/model.proto";
    in.frag = pick(F);
    in.unbuffered = choose(4) == 3;
    in.extra = pick(X);
    if (choose(3) == 2) { in.to_string = false; in.out_area = choose(3) * 60; }
    return in;
}
SCENARIO(C16)
{
    bool valid;
    std::string text = some_text(valid);
    logx("model", text);
    if (choose(3) == 0)
    {   // the compiler process
        Job j = new_job(true);
        write_file(j.model, text);
        std::string ref;
        RunOut r0 = reference(j, ref);
        uint32_t n = 1 + choose(4);
        for (uint32_t i = 0; i < n; ++i)
        {
            Plan p;
            p.amode = choose(2) ? ALLOC_PERSIST : ALLOC_ONCE;
            p.anth = choose((uint32_t)std::max<uint64_t>(1, r0.allocs));
            if (!j.out.empty() && choose(2)) write_file(j.out, old_content());
            log("plan: allocation #%llu of %llu fails%s", (unsigned long long)p.anth, (unsigned long long)r0.allocs, p.amode == ALLOC_PERSIST ? " and all later ones" : "");
            RunOut r = run_cli(j.model, j.out, p);
            std::string got = result_of(j, r);
            log_run("run", r, got);
            if (r.status == 0)
            {
                CHECK(r0.status == 0, "wrong-success", "a rejected model is compiled when allocation #%llu fails", (unsigned long long)p.anth);
                CHECK(got == ref, "wrong-header", "allocation #%llu fails: status 0, but the output (%zu bytes) is not the complete header (%zu bytes)", (unsigned long long)p.anth, got.size(), ref.size());
                CHECK(!r.alloc_fired || p.amode != ALLOC_PERSIST, "success-without-memory", "status 0 although every allocation from #%llu on failed", (unsigned long long)p.anth);
            }
            else CHECK(r.status >= 128 || r0.status != 0 || r.alloc_fired || !r.err.empty(), "silent-failure", "status %d without a message", r.status);
        }
        return;
    }
    // the library: warm up, count, then fail
    LibIn in = lib_in(text);
    LibOut want = lib(in);
    log("fault-free: %s", lib_text(want).c_str());
    alloc_plan(ALLOC_OFF, 0);
    LibOut again = lib(in);
    uint64_t total = alloc_count();
    CHECK(again == want, "not-repeatable", "the same model in the same process: %s, then %s", lib_text(want).c_str(), lib_text(again).c_str());
    CHECK(again.flags_kept, "flags-changed", "parse changed the formatting flags of the input stream (%s)", lib_text(again).c_str());
    uint32_t n = 1 + choose(8);
    uint64_t at = choose((uint32_t)std::max<uint64_t>(1, total));
    bool sweep = choose(3) == 0;
    for (uint32_t i = 0; i < n; ++i)
    {
        LibIn f = in;
        AllocMode am = ALLOC_OFF;
        uint64_t nth = 0;
        uint32_t kind = sweep ? 0 : choose(4);
        if (kind <= 1) { am = choose(3) == 2 ? ALLOC_PERSIST : ALLOC_ONCE; nth = sweep ? at + i : choose((uint32_t)std::max<uint64_t>(1, total)); log("plan: allocation #%llu of %llu fails", (unsigned long long)nth, (unsigned long long)total); }
        if (kind == 2) { f.fail_at = choose((uint32_t)text.size() + 1); f.in_exc = choose(2); log("plan: input throws at byte %zu", f.fail_at); }
        if (kind == 3) { f.to_string = false; f.out_limit = want.r ? choose(4000) : choose((uint32_t)want.header.size() + 1); f.out_mode = (int)choose(2); f.out_exc = choose(2); log("plan: output fails at byte %zu", f.out_limit); }
        // (an output that fails late, in flush, is the caller's to notice)
        f.twice = choose(2);
        auto once = [&](size_t &live) {
            acct_begin();
            alloc_plan(am, nth);
            LibOut o = lib(f);
            bool fired = o.fired || alloc_fired();
            alloc_plan(ALLOC_OFF, 0);
            if (fired) count("fault.alloc");
            live = acct_live();
            acct_end();
            return o;
        };
        size_t live = 0, live2 = 0, live3 = 0;
        LibOut o = once(live);
        log("with the fault: %s%s", lib_text(o).c_str(), o.flags_kept ? "" : ", flags changed");
        if (o.r == 0) CHECK(o.header == want.header && want.r == 0, "wrong-header", "the fault is presented as success with %s instead of %s", lib_text(o).c_str(), lib_text(want).c_str());
        if (f.fail_at < text.size()) CHECK(o.r != 0, "wrong-success", "the input stream threw at byte %zu of %zu, but there is a header", f.fail_at, text.size());
        if (f.out_limit < want.header.size() && want.r == 0) CHECK(o.r != 0, "wrong-success", "the output stream failed at byte %zu of %zu, but generate reported success", f.out_limit, want.header.size());
        CHECK(o.flags_kept, "flags-changed", "after a failure (%s) the formatting flags of the input stream are changed", lib_text(o).c_str());
        if (live)
        {
            once(live2);
            once(live3);
            if (live2 && live3) fail("leak", "%zu allocations are never released after %s", live3, lib_text(o).c_str());
        }
        if (o.tried)
        {
            count("probe.generated_twice");
            std::string w = want.r == 0 ? want.header : "error: " + want.error;
            CHECK(o.second == w, "damaged-by-failure", "after %s, generating again from the same tree gives %s instead of %s", lib_text(o).c_str(), o.second.size() < 200 ? o.second.c_str() : ("a header of " + std::to_string(o.second.size()) + " bytes").c_str(), lib_text(want).c_str());
        }
        LibOut next = lib(in);
        CHECK(next == want, "damaged-by-failure", "after a failure the same model gives %s instead of %s", lib_text(next).c_str(), lib_text(want).c_str());
    }
}

// ------------------------------------------------------------- C17
static const size_t SHARE = 8 << 20;
// what a compilation gives in a process of its own
static LibOut alone(const LibIn &in)
{
    static char *mem = (char *)mmap(nullptr, SHARE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    run_process([&] {
        LibOut o = lib(in);
        int *h = (int *)mem;
        h[0] = o.r; h[1] = o.line; h[2] = o.column; h[3] = (int)o.header.size(); h[4] = (int)o.error.size();
        if (o.header.size() + o.error.size() + 64 > SHARE) { h[3] = -1; return; }
        memcpy(mem + 64, o.header.data(), o.header.size());
        memcpy(mem + 64 + o.header.size(), o.error.data(), o.error.size());
    });
    int *h = (int *)mem;
    if (h[3] < 0) discard("header too large");
    LibOut o;
    o.r = h[0]; o.line = h[1]; o.column = h[2];
    o.header.assign(mem + 64, (size_t)h[3]);
    o.error.assign(mem + 64 + h[3], (size_t)h[4]);
    return o;
}
SCENARIO(C17)
{
    struct Task { std::string text, file; LibIn in; LibOut want; };
    uint32_t kinds = 1 + choose(4);
    std::vector<Task> pool(kinds);
    for (uint32_t i = 0; i < kinds; ++i)
    {
        bool valid;
        pool[i].text = some_text(valid);
        pool[i].file = "/dir" + std::to_string(choose(3)) + "/model" + std::to_string(i) + ".proto";
        logx("model", pool[i].text);
    }
    for (auto &t : pool)
    {
        t.in = lib_in(t.text);
        t.in.text = &t.text;
        t.in.file = t.file;
        t.want = alone(t.in);
        log("alone: %s", lib_text(t.want).c_str());
    }
    bool warm = choose(2);
    if (warm) lib(pool[0].in);
    uint32_t nt = 1 + choose(4);
    std::vector<std::vector<uint32_t>> script(nt);
    for (auto &s : script) { uint32_t n = 1 + choose(3); while (n--) s.push_back(choose(kinds)); }
    auto body = [&](uint32_t id) {
        for (uint32_t i : script[id])
        {
            LibIn in = pool[i].in;
            if (choose(3) == 2) in.delay = 1 + choose(20);
            LibOut o = lib(in);
            log("model %u: %s", i, lib_text(o).c_str());
            CHECK(o == pool[i].want, "interference", "model %u next to other compilations: %s instead of %s; model: %s", i, lib_text(o).c_str(), lib_text(pool[i].want).c_str(), esc(pool[i].text, 300).c_str());
            CHECK(o.flags_kept, "flags-changed", "parse changed the formatting flags of the input stream");
        }
    };
    if (nt == 1) { body(0); return; }
    count("probe.threads", nt);
    for (uint32_t i = 0; i < nt; ++i) spawn([&, i] { body(i); });
    join_all();
}

// ------------------------------------------------------------- C23
// every file of the simulated disk
static std::map<std::string, std::string> disk()
{
    std::map<std::string, std::string> m;
    for (const char *d : { "in/", "out/", "tmp/", "" })
        for (auto &n : files_of(scratch() + d)) m[std::string(d) + n] = read_file(scratch() + d + n);
    return m;
}
SCENARIO(C23)
{
    clean_scratch();
    static const char *OUT[] = { "out/m.pg.hh", "out/m.hh", "out/m", "out/n.pg.hh", "in/m.pg.hh", "in/m.hh", "m.pg.hh", "out/x y.hh" };
    static const char *MODEL[] = { "in/m.proto", "in/n.proto", "out/m.proto", "in/m", "m.proto" };
    struct Src { std::string path, text; };
    std::vector<Src> src(1 + choose(3));
    uint32_t mshift = choose(5), oshift = choose(8);
    for (size_t i = 0; i < src.size(); ++i)
    {
        ModelM m = sized_model();
        src[i].path = MODEL[(mshift + i) % 5];
        src[i].text = random_text(m).bytes;
        uint32_t k = choose(8);
        if (k == 6) src[i].text.resize(choose((uint32_t)src[i].text.size() + 1));
        if (k == 7) src[i].text = damage(src[i].text);
        write_file(scratch() + src[i].path, src[i].text);
        logx("model", src[i].text);
    }
    // outputs: one compiler each, or several of the same model
    struct Dst { std::string path; size_t src; std::string ref, before; bool had = false; int victims = 0, users = 0; RunOut run; };
    std::vector<Dst> dst(1 + choose(4));
    for (size_t i = 0; i < dst.size(); ++i)
    {
        Dst &d = dst[i];
        d.path = OUT[(oshift + i) % 8];
        d.src = choose((uint32_t)src.size());
        std::string p = scratch() + d.path;
        d.run = run_cli(scratch() + src[d.src].path, p, Plan());
        d.ref = exists(p) ? read_file(p) : "";
        log_run("alone", d.run, d.ref);
        CHECK(d.run.status < 128, "crash:abort", "the compiler died of a signal without any fault: %s", tail(d.run.err).c_str());
        CHECK(d.run.status == 0 || !exists(p), "output-after-reject", "status %d, but an output file appeared (%zu bytes)", d.run.status, d.ref.size());
    }
    for (auto &d : dst)
    {
        std::string p = scratch() + d.path;
        switch (choose(3))
        {
            case 0: unlink(p.c_str()); break;
            case 1: write_file(p, old_content()); break;
            default: if (d.run.status == 0) write_file(p, d.ref); break;
        }
        d.had = exists(p);
        d.before = d.had ? read_file(p) : "";
    }
    write_file(scratch() + "in/note.txt", "note\n");
    write_file(scratch() + "out/other.hh", "// other\n");
    write_file(scratch() + "other.proto", "// other\n");
    auto before = disk();

    std::vector<Cli> job(2 + choose(4));
    std::vector<size_t> use;
    bool with_faults = choose(2);
    for (size_t i = 0; i < job.size(); ++i)
    {
        size_t t = choose(3) == 0 ? choose((uint32_t)dst.size()) : i % dst.size();
        Dst &d = dst[t];
        Plan p;
        p.pid = 4000 + (int)i;
        p.clock = 1700000000 + (choose(2) ? choose(100000) : 0);
        std::string m = scratch() + src[d.src].path, o = scratch() + d.path;
        switch (choose(4))
        {
            case 1: p.cwd = scratch() + "in"; if (choose(2)) o = "../" + d.path; break;
            case 2: p.cwd = scratch() + "out"; if (choose(2)) m = "../" + src[d.src].path; break;
            case 3: if (choose(2)) { m = src[d.src].path; o = d.path; } break;
            default: break;
        }
        bool to_stdout = choose(8) == 7;
        if (choose(3) == 2) p.benign = 2 + choose(8);
        bool victim = false;
        if (with_faults && choose(3) == 2)
        {
            victim = true;
            switch (choose(4))
            {
                case 0: if (!hard_fault(p, d.run)) victim = false; break;
                case 1: p.kill_call = choose(d.run.calls + 1); break;
                case 2: p.kill_step = 1 + choose((uint32_t)std::min<uint64_t>(d.run.steps ? d.run.steps : 200000, 4000000)); break;
                default: p.amode = ALLOC_PERSIST; p.anth = choose((uint32_t)std::max<uint64_t>(1, d.run.allocs)); break;
            }
        }
        if (!to_stdout) { d.users++; d.victims += victim; }
        log("compiler %c: %s -> %s%s%s", (char)('a' + i), src[d.src].path.c_str(), to_stdout ? "standard output" : d.path.c_str(), victim ? ", will be disturbed" : "", p.kill_call >= 0 || p.kill_step ? " (killed)" : "");
        job[i] = Cli{ m, to_stdout ? "" : o, p };
        use.push_back(t);
    }
    count("probe.compilers_together", job.size());
    std::vector<RunOut> res = run_together(job);
    std::set<std::string> left;
    for (size_t i = 0; i < job.size(); ++i)
    {
        const Dst &d = dst[use[i]];
        const Plan &p = job[i].plan;
        const RunOut &r = res[i];
        bool victim = p.hard >= 0 || p.kill_call >= 0 || p.kill_step || p.amode != ALLOC_OFF;
        log_run("together", r, r.out);
        if (victim)
        {
            if (r.fired) CHECK(r.status != 0, "success-after-error", "status 0 although %s failed", IO_NAME[p.hard]);
            continue;
        }
        CHECK(r.status == d.run.status, "disturbed", "compiler %c ends with status %d (%s), alone with %d (%s)", (char)('a' + i), r.status, tail(r.err).c_str(), d.run.status, tail(d.run.err).c_str());
        CHECK(r.err == d.run.err, "disturbed", "compiler %c reports %s, alone %s", (char)('a' + i), tail(r.err).c_str(), tail(d.run.err).c_str());
        CHECK(r.out == (job[i].out.empty() ? d.ref : d.run.out), "disturbed", "compiler %c prints %zu bytes on standard output, alone %zu", (char)('a' + i), r.out.size(), job[i].out.empty() ? d.ref.size() : d.run.out.size());
    }
    auto after = disk();
    for (auto &d : dst)
    {
        bool has = after.count(d.path);
        std::string now = has ? after[d.path] : "";
        left.insert(d.path);
        if (!d.users || (d.run.status != 0))
            CHECK(has == d.had && now == d.before, "foreign-output", "%s, but it changed (%zu -> %zu bytes%s)", d.users ? "the model of this output is rejected" : "no compiler was asked to write this output", d.before.size(), now.size(), has ? "" : ", removed");
        else if (!d.victims)
            CHECK(has && now == d.ref, "wrong-output", "every compiler that writes %s was undisturbed, but it has %zu bytes, different from the header (%zu bytes)", d.path.c_str(), now.size(), d.ref.size());
    }
    bool killed = false;
    for (auto &r : res) killed = killed || r.killed || r.status >= 128;
    for (auto &f : before)
        if (!left.count(f.first))
            CHECK(after.count(f.first) && after[f.first] == f.second, "foreign-file", "%s belongs to no compiler, but it was %s", f.first.c_str(), after.count(f.first) ? "changed" : "removed");
    if (!killed)
        for (auto &f : after)
            CHECK(before.count(f.first) || left.count(f.first), "foreign-file", "a file that nobody asked for is left behind (%zu bytes)", f.second.size());
    // afterwards each output can be made again
    for (auto &d : dst)
    {
        std::string p = scratch() + d.path;
        RunOut q = run_cli(scratch() + src[d.src].path, p, Plan());
        CHECK(q.status == d.run.status && q.err == d.run.err, "rerun-differs", "afterwards %s gives status %d %s instead of status %d %s", d.path.c_str(), q.status, tail(q.err).c_str(), d.run.status, tail(d.run.err).c_str());
        if (d.run.status == 0) CHECK(read_file(p) == d.ref, "rerun-differs", "afterwards %s is not the header of its model", d.path.c_str());
    }
}
} // namespace sim
