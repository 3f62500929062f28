#include "cc_world.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <ext/stdio_sync_filebuf.h>

extern int protogen_main(int argc, char **argv) __asm__("protogen_main");

namespace sim {

const char *IO_NAME[] = { "open_model", "resolve_path", "read_model", "open_output", "write_output", "close_output", "write_stdout" };
static const char *FAULT_NAME[] = { "fault.open_model", "fault.resolve_path", "fault.read_model", "fault.open_output", "fault.write_output", "fault.close_output", "fault.write_stdout" };

struct Shared
{
    uint32_t n[IO_N], calls, fired, benign;
    bool killed, exited, alloc_fired;
    uint64_t allocs, steps;
};
static const int MAX_PROCS = 8;
static Shared *sh = nullptr, *all_sh = nullptr; // this process's, everybody's
static bool child_on = false;
static const Plan *P = nullptr;
static bool part_done = false;
static int cap_out = -1, cap_err = -1;
// processes that run at the same time: one at a time holds the turn
static int turn_rd = -1, turn_wr = -1;
static void wait_turn()
{
    char c;
    ssize_t r;
    while ((r = syscall(SYS_read, turn_rd, &c, 1)) < 0 && errno == EINTR) {}
    if (r != 1) syscall(SYS_exit_group, 0); // the run is over
}
static void give_turn()
{
    if (turn_rd < 0) return;
    int e = errno;
    if (syscall(SYS_write, turn_wr, "y", 1) != 1) syscall(SYS_exit_group, 0);
    wait_turn();
    errno = e;
}
static unsigned char role[1024]; // by fd: 0 none, 1 model, 2 output
static uint64_t vclock = 0;
static int sleeps = 0;

static void die_now()
{
    sh->killed = true;
    syscall(SYS_exit_group, 77);
    __builtin_trap();
}
// a call is about to be made: is this the end?
static bool doomed()
{
    give_turn();
    return (int64_t)sh->calls++ == P->kill_call;
}
static bool hard(Io k)
{
    uint32_t i = sh->n[k]++;
    if (P->hard != k || !(i == P->at || (i > P->at && (P->persist || part_done)))) return false;
    return true;
}
static int failed(Io k)
{
    sh->fired++;
    count(FAULT_NAME[k]);
    errno = P->err;
    return -1;
}
// temporary directories of the machine are part of the simulated disk
static std::string mapped(const char *path);
static int role_of(int fd) { return fd >= 0 && fd < 1024 ? role[fd] : 0; }
static bool ours(const char *path)
{
    std::string d = scratch();
    if (path[0] != '/') return true; // relative to the scratch directory
    return strncmp(path, d.c_str(), d.size()) == 0;
}

static ssize_t xfer_read(int fd, void *buf, size_t n)
{
    if (doomed()) die_now();
    if (hard(IO_READ)) return failed(IO_READ);
    if (P->benign && choose(P->benign) == P->benign - 1)
    {
        sh->benign++;
        if (choose(2)) { count("fault.read_interrupted"); errno = EINTR; return -1; }
        count("fault.read_short");
        if (n) n = 1 + choose((uint32_t)std::min<size_t>(n, choose(2) ? 7 : 4096));
    }
    return syscall(SYS_read, fd, buf, n);
}
static ssize_t xfer_write(int fd, const char *p, size_t n, Io k)
{
    int to = k == IO_STDOUT ? cap_out : fd;
    if (doomed())
    {
        size_t part = choose((uint32_t)n + 1);
        if (part) (void)!syscall(SYS_write, to, p, part);
        die_now();
    }
    if (hard(k))
    {
        if (P->partial && !part_done && n > 1)
        {
            part_done = true;
            count("fault.write_partial");
            return syscall(SYS_write, to, p, (size_t)1 + choose((uint32_t)n - 1));
        }
        return failed(k);
    }
    if (P->benign && n && choose(P->benign) == P->benign - 1)
    {
        sh->benign++;
        if (k != IO_STDOUT && choose(2)) { count("fault.write_interrupted"); errno = EINTR; return -1; }
        count("fault.write_short");
        n = 1 + choose((uint32_t)n);
    }
    return syscall(SYS_write, to, p, n);
}
// before an open; 0: go on
static int pre_open(const char *path, bool write)
{
    (void)path;
    if (doomed()) die_now();
    Io k = write ? IO_OPEN_OUT : IO_OPEN_IN;
    if (hard(k)) return failed(k);
    return 0;
}
static void set_role(int fd, bool write) { if (fd >= 0 && fd < 1024) role[fd] = write ? 2 : 1; }
template <class F> static F real_fn(const char *name, F)
{
    return (F)dlsym(RTLD_NEXT, name);
}

static ssize_t cookie_write(void *, const char *p, size_t n)
{
    Harness h;
    size_t at = 0;
    while (at < n) // like the C library, which goes on after a short write
    {
        ssize_t r = xfer_write(-1, p + at, n - at, IO_STDOUT);
        if (r < 0) break;
        at += (size_t)r;
    }
    return (ssize_t)at;
}
static void note_exit()
{
    Harness h;
    sh->exited = true;
    sh->allocs = alloc_count();
    sh->alloc_fired = alloc_fired();
    sh->steps = steps_now();
}
// The disk's clock: every file carries a simulated time of last change, not
// earlier than that of the files written before it.
static uint64_t disk_time = 1600000000;
static void stamp(const std::string &path)
{
    disk_time += choose(4);
    struct timespec ts[2] = { { (time_t)disk_time, 0 }, { (time_t)disk_time, 0 } };
    syscall(SYS_utimensat, AT_FDCWD, path.c_str(), ts, AT_SYMLINK_NOFOLLOW);
}
// files the compiler has written carry the host's time
static std::string read_fd(int fd)
{
    std::string s;
    char buf[65536];
    off_t at = 0;
    ssize_t r;
    while ((r = pread(fd, buf, sizeof buf, at)) > 0) { s.append(buf, (size_t)r); at += r; }
    return s;
}

std::string scratch()
{
    static std::string d;
    if (d.empty())
    {
        std::string w = workdir;
        if (w.empty() || w[0] != '/') { char b[4096]; if (getcwd(b, sizeof b)) w = std::string(b) + "/" + w; }
        if (w.size() > 110) { fprintf(stderr, "work directory name too long\n"); exit(3); }
        d = w + "/" + std::string(120 - w.size(), 'x');
        mkdir(d.c_str(), 0755);
        mkdir((d + "/in").c_str(), 0755);
        mkdir((d + "/out").c_str(), 0755);
        mkdir((d + "/tmp").c_str(), 0755);
        d += "/";
    }
    return d;
}
static void each(const std::string &dir, const std::function<void(const std::string &)> &fn)
{
    std::vector<std::string> v;
    if (DIR *p = opendir(dir.c_str()))
    {
        while (dirent *e = readdir(p)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
        closedir(p);
    }
    std::sort(v.begin(), v.end());
    for (auto &x : v) fn(x);
}
static const char *DIRS[] = { "in/", "out/", "tmp/", "" };
void clean_scratch()
{
    for (const char *s : DIRS)
        each(scratch() + s, [&](const std::string &n) {
            std::string p = scratch() + s + n;
            if (*s == 0 && (n == "in" || n == "out" || n == "tmp")) return;
            if (unlink(p.c_str())) rmdir(p.c_str());
        });
}
std::vector<std::string> files_of(const std::string &dir)
{
    std::vector<std::string> v;
    each(dir, [&](const std::string &n) { struct stat st; if (lstat((dir + n).c_str(), &st) == 0 && S_ISREG(st.st_mode)) v.push_back(n); });
    return v;
}
std::string list_dir(const std::string &dir)
{
    std::string s;
    each(dir, [&](const std::string &n) { s += n + " "; });
    return s;
}
bool exists(const std::string &path) { struct stat st; return lstat(path.c_str(), &st) == 0; }
std::string read_file(const std::string &path)
{
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return "";
    std::string s = read_fd(fd);
    syscall(SYS_close, fd);
    return s;
}
void write_file(const std::string &path, const std::string &bytes)
{
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    size_t at = 0;
    while (fd >= 0 && at < bytes.size())
    {
        ssize_t r = syscall(SYS_write, fd, bytes.data() + at, bytes.size() - at);
        if (r <= 0) break;
        at += (size_t)r;
    }
    if (fd < 0 || at < bytes.size()) { fprintf(stderr, "harness cannot write %s\n", path.c_str()); discard("scratch write"); }
    syscall(SYS_close, fd);
    stamp(path);
}
std::string mask(const std::string &s)
{
    std::string o = s, d = scratch();
    for (size_t p; (p = o.find(d)) != std::string::npos;) o.replace(p, d.size(), "$W/");
    return o;
}

static void stamp_new(const std::string &dir)
{
    each(dir, [&](const std::string &n) {
        struct stat st;
        if (lstat((dir + n).c_str(), &st) == 0 && S_ISREG(st.st_mode) && ((uint64_t)st.st_mtime > disk_time || (uint64_t)st.st_mtime < 1600000000)) stamp(dir + n);
    });
}
static uint64_t next_preempt = 0;
// turns may also change between two calls
static void on_step()
{
    if (P->kill_step && steps_now() >= P->kill_step) die_now();
    if (turn_rd >= 0 && steps_now() >= next_preempt)
    {
        count("probe.preempted_between_calls");
        give_turn();
        next_preempt = steps_now() + 1 + choose(choose(2) ? 20000 : 400000);
    }
    uint64_t at = P->kill_step > steps_now() ? P->kill_step : 0;
    if (turn_rd >= 0 && (!at || next_preempt < at)) at = next_preempt;
    step_hook(at, on_step);
}
static void child_main(const std::string &model, const std::string &output, const Plan &plan)
{
    P = &plan;
    dup2(cap_err, 2);
    std::set_terminate([] { abort(); });
    signal(SIGPIPE, SIG_IGN);
    cookie_io_functions_t io = { nullptr, cookie_write, nullptr, nullptr };
    FILE *out = fopencookie(nullptr, "w", io);
    stdout = out;
    static __gnu_cxx::stdio_sync_filebuf<char> *cout_buf = new __gnu_cxx::stdio_sync_filebuf<char>(out);
    std::cout.rdbuf(cout_buf);
    std::string locpath = getenv("VSIM_LOCPATH") ? getenv("VSIM_LOCPATH") : "";
    clearenv();
    setenv("PATH", "/usr/bin:/bin", 1);
    if (!locpath.empty()) setenv("LOCPATH", locpath.c_str(), 1);
    if (plan.lang) { setenv("LANG", plan.lang, 1); setenv("LC_ALL", plan.lang, 1); }
    if (chdir(plan.cwd.empty() ? scratch().c_str() : plan.cwd.c_str())) _exit(98);
    atexit(note_exit);
    vclock = plan.clock;
    std::vector<std::string> a = { "protogen", model };
    if (!output.empty()) a.push_back(output);
    std::vector<char *> argv;
    for (auto &x : a) argv.push_back(&x[0]);
    argv.push_back(nullptr);
    if (plan.steps) set_step_limit(plan.steps);
    next_preempt = turn_rd >= 0 ? 1 + choose(400000) : 0;
    if (plan.kill_step || turn_rd >= 0) step_hook(1, on_step);
    heap_noise(plan.noise);
    alloc_plan(plan.amode, plan.anth);
    child_on = true;
    int rc = 0;
    try { Real r; rc = protogen_main((int)a.size(), argv.data()); }
    catch (...) { abort(); }
    exit(rc);
}
static void init_procs()
{
    if (all_sh) return;
    all_sh = sh = (Shared *)shared_page();
    static_assert(sizeof(Shared) * MAX_PROCS <= 4096, "one page");
}
static int cap_of(int i, bool err)
{
    static int fd[MAX_PROCS][2];
    if (!fd[i][err]) fd[i][err] = memfd_create(err ? "err" : "out", MFD_CLOEXEC);
    return fd[i][err];
}
static void prepare(int i)
{
    memset(&all_sh[i], 0, sizeof *all_sh);
    for (int e = 0; e < 2; ++e) { int fd = cap_of(i, e); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); }
}
static RunOut collect(int i, const Plan &plan, int st)
{
    const Shared *s = &all_sh[i];
    RunOut r;
    r.err = read_fd(cap_of(i, true));
    r.out = read_fd(cap_of(i, false));
    r.killed = s->killed;
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    memcpy(r.n, s->n, sizeof r.n);
    r.calls = s->calls;
    r.fired = s->fired;
    r.benign = s->benign;
    r.allocs = s->allocs;
    r.alloc_fired = s->alloc_fired;
    r.steps = s->steps;
    if (plan.amode != ALLOC_OFF) count("fault.alloc_planned");
    if (r.killed) count(plan.kill_step ? "fault.killed_at_step" : "fault.killed_at_call");
    if (sanitizer_reported() || (WIFEXITED(st) && r.status == 99 && !r.killed))
        fail("crash:sanitizer", "the compiler executed undefined behaviour or broke memory: %s", mask(r.err).substr(0, 1500).c_str());
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT)
        fail("crash:signal", "the compiler died of signal %d: %s", WTERMSIG(st), mask(r.err).substr(0, 1500).c_str());
    if (WIFEXITED(st) && r.status == 98 && !r.killed) discard("chdir");
    return r;
}
static void stamp_all() { for (const char *d : DIRS) stamp_new(scratch() + d); }
RunOut run_cli(const std::string &model, const std::string &output, const Plan &plan)
{
    init_procs();
    prepare(0);
    int st = run_process([&] {
        cap_out = cap_of(0, false);
        cap_err = cap_of(0, true);
        child_main(model, output, plan);
    });
    stamp_all();
    return collect(0, plan, st);
}
std::vector<RunOut> run_together(const std::vector<Cli> &v)
{
    init_procs();
    int n = (int)v.size();
    if (n > MAX_PROCS) discard("too many processes");
    std::vector<Proc> pr((size_t)n);
    for (int i = 0; i < n; ++i) prepare(i);
    for (int i = 0; i < n; ++i)
    {
        int go[2], done[2];
        if (pipe2(go, O_CLOEXEC) || pipe2(done, O_CLOEXEC)) discard("pipe");
        pr[(size_t)i] = start_process([&, i] {
            turn_rd = go[0];
            turn_wr = done[1];
            syscall(SYS_close, go[1]);
            syscall(SYS_close, done[0]);
            sh = &all_sh[i];
            cap_out = cap_of(i, false);
            cap_err = cap_of(i, true);
            wait_turn();
            child_main(v[(size_t)i].model, v[(size_t)i].out, v[(size_t)i].plan);
        });
        syscall(SYS_close, go[0]);
        syscall(SYS_close, done[1]);
        pr[(size_t)i].go = go[1];
        pr[(size_t)i].done = done[0];
    }
    std::vector<int> alive, status((size_t)n, 0);
    for (int i = 0; i < n; ++i) alive.push_back(i);
    uint32_t stick = 1 + choose(4); // how likely a process keeps the turn
    size_t cur = 0;
    uint64_t turns = 0;
    std::string order;
    while (!alive.empty())
    {
        if (++turns == 1 || choose(stick) == 0 || cur >= alive.size())
        {
            size_t was = cur;
            cur = choose((uint32_t)alive.size());
            if (turns > 1 && was != cur) note_switch((uint64_t)alive[cur]);
        }
        int i = alive[cur];
        if (order.size() < 400) order += (char)('a' + i);
        char c = 0;
        bool over = syscall(SYS_write, pr[(size_t)i].go, "g", 1) != 1;
        ssize_t r = 0;
        if (!over) { while ((r = syscall(SYS_read, pr[(size_t)i].done, &c, 1)) < 0 && errno == EINTR) {} over = r != 1; }
        if (over)
        {
            status[(size_t)i] = end_process(pr[(size_t)i]);
            syscall(SYS_close, pr[(size_t)i].go);
            syscall(SYS_close, pr[(size_t)i].done);
            alive.erase(alive.begin() + (ssize_t)cur);
        }
    }
    log("order of turns: %s%s", order.c_str(), order.size() < 400 ? "" : "...");
    count("probe.turns", turns);
    stamp_all();
    std::vector<RunOut> out;
    for (int i = 0; i < n; ++i) out.push_back(collect(i, v[(size_t)i].plan, status[(size_t)i]));
    return out;
}
} // namespace sim

using namespace sim;
// ---------------------------------------------------------------------- libc seams
extern "C" ssize_t read(int fd, void *buf, size_t n)
{
    if (child_on && role_of(fd) == 1) { Harness h; return xfer_read(fd, buf, n); }
    return syscall(SYS_read, fd, buf, n);
}
extern "C" ssize_t write(int fd, const void *buf, size_t n)
{
    if (child_on)
    {
        Harness h;
        if (fd == 1) return xfer_write(fd, (const char *)buf, n, IO_STDOUT);
        if (role_of(fd) == 2) return xfer_write(fd, (const char *)buf, n, IO_WRITE);
    }
    return syscall(SYS_write, fd, buf, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (child_on && (fd == 1 || role_of(fd) == 2))
    {
        Harness h;
        std::string s;
        for (int i = 0; i < c; ++i) s.append((const char *)v[i].iov_base, v[i].iov_len);
        return xfer_write(fd, s.data(), s.size(), fd == 1 ? IO_STDOUT : IO_WRITE);
    }
    return syscall(SYS_writev, fd, v, c);
}
extern "C" ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (child_on && role_of(fd) == 1 && c > 0)
    {
        Harness h;
        return xfer_read(fd, v[0].iov_base, v[0].iov_len);
    }
    return syscall(SYS_readv, fd, v, c);
}
static std::string sim::mapped(const char *path)
{
    if (path && !ours(path))
        for (const char *t : { "/tmp/", "/var/tmp/", "/dev/shm/" })
            if (strncmp(path, t, strlen(t)) == 0) return scratch() + "tmp/" + (path + strlen(t));
    return path ? path : "";
}
// the path as the simulated disk has it, in the code under test
#define MAP_PATH(path) std::string path##_m; if (child_on && path) { Harness h; path##_m = mapped(path); path = path##_m.c_str(); }
static int do_open(int dir, const char *path, int flags, mode_t mode)
{
    MAP_PATH(path)
    if (child_on && ours(path))
    {
        Harness h;
        bool w = (flags & O_ACCMODE) != O_RDONLY;
        if (pre_open(path, w)) return -1;
        int fd = (int)syscall(SYS_openat, dir, path, flags, mode);
        set_role(fd, w);
        return fd;
    }
    return (int)syscall(SYS_openat, dir, path, flags, mode);
}
#define MODE_ARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
extern "C" int open(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, mode); }
extern "C" int open64(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
extern "C" int openat(int dir, const char *path, int flags, ...) { MODE_ARG return do_open(dir, path, flags, mode); }
extern "C" int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
typedef FILE *(*fopen_t)(const char *, const char *);
static FILE *do_fopen(const char *path, const char *mode, const char *sym)
{
    fopen_t f = real_fn(sym, (fopen_t) nullptr);
    MAP_PATH(path)
    if (child_on && ours(path))
    {
        Harness h;
        bool w = strpbrk(mode, "wa+") != nullptr;
        if (pre_open(path, w)) return nullptr;
        FILE *r = f(path, mode);
        if (r) set_role(fileno(r), w);
        return r;
    }
    return f(path, mode);
}
extern "C" FILE *fopen(const char *path, const char *mode) { return do_fopen(path, mode, "fopen"); }
extern "C" FILE *fopen64(const char *path, const char *mode) { return do_fopen(path, mode, "fopen64"); }
extern "C" int fclose(FILE *f)
{
    typedef int (*fn_t)(FILE *);
    static fn_t rf = real_fn("fclose", (fn_t) nullptr);
    if (child_on)
    {
        Harness h;
        int fd = fileno(f), k = role_of(fd);
        if (k)
        {
            if (doomed()) die_now();
            role[fd] = 0;
        }
        int r = rf(f);
        if (k == 2 && hard(IO_CLOSE_OUT)) { failed(IO_CLOSE_OUT); return EOF; }
        return r;
    }
    return rf(f);
}
extern "C" int close(int fd)
{
    if (child_on && role_of(fd))
    {
        Harness h;
        int k = role_of(fd);
        if (doomed()) die_now();
        role[fd] = 0;
        int r = (int)syscall(SYS_close, fd);
        if (k == 2 && hard(IO_CLOSE_OUT)) return failed(IO_CLOSE_OUT);
        return r;
    }
    return (int)syscall(SYS_close, fd);
}
extern "C" char *realpath(const char *path, char *out) noexcept
{
    typedef char *(*fn_t)(const char *, char *);
    fn_t rf = (fn_t)dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    if (!rf) rf = real_fn("realpath", (fn_t) nullptr);
    if (child_on)
    {
        Harness h;
        if (doomed()) die_now();
        if (hard(IO_RESOLVE)) { failed(IO_RESOLVE); return nullptr; }
    }
    return rf(path, out);
}
static off_t do_seek(int fd, off_t at, int how)
{
    if (child_on && role_of(fd)) { Harness h; if (doomed()) die_now(); }
    return (off_t)syscall(SYS_lseek, fd, at, how);
}
extern "C" off_t lseek(int fd, off_t at, int how) noexcept { return do_seek(fd, at, how); }
extern "C" off64_t lseek64(int fd, off64_t at, int how) noexcept { return do_seek(fd, at, how); }
static int do_truncate(int fd, off_t n)
{
    if (child_on && role_of(fd)) { Harness h; if (doomed()) die_now(); if (hard(IO_WRITE)) return failed(IO_WRITE); }
    return (int)syscall(SYS_ftruncate, fd, n);
}
extern "C" int ftruncate(int fd, off_t n) noexcept { return do_truncate(fd, n); }
extern "C" int ftruncate64(int fd, off64_t n) noexcept { return do_truncate(fd, n); }
extern "C" int rename(const char *a, const char *b) noexcept
{
    MAP_PATH(a)
    MAP_PATH(b)
    if (child_on)
    {
        Harness h;
        if (doomed()) die_now();
        if (hard(IO_CLOSE_OUT)) return failed(IO_CLOSE_OUT);
    }
    return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
}
extern "C" int unlink(const char *a) noexcept
{
    MAP_PATH(a)
    if (child_on)
    {
        Harness h;
        if (doomed()) die_now();
    }
    return (int)syscall(SYS_unlinkat, AT_FDCWD, a, 0);
}
extern "C" int remove(const char *a) noexcept
{
    MAP_PATH(a)
    if (child_on)
    {
        Harness h;
        if (doomed()) die_now();
    }
    int r = (int)syscall(SYS_unlinkat, AT_FDCWD, a, 0);
    return r && errno == EISDIR ? (int)syscall(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR) : r;
}
extern "C" int access(const char *a, int mode) noexcept
{
    MAP_PATH(a)
    if (child_on) { Harness h; if (doomed()) die_now(); }
    return (int)syscall(SYS_faccessat, AT_FDCWD, a, mode);
}
// waiting: the turn goes round instead of the clock
extern "C" int flock(int fd, int op) noexcept
{
    if (!child_on || turn_rd < 0) return (int)syscall(SYS_flock, fd, op);
    Harness h;
    for (int i = 0; i < 2000; ++i)
    {
        if (doomed()) die_now();
        int r = (int)syscall(SYS_flock, fd, op | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) return r;
    }
    sim::fail("no-progress", "a compiler waits for a lock forever");
}
extern "C" int nanosleep(const struct timespec *t, struct timespec *left)
{
    if (!child_on) return (int)syscall(SYS_nanosleep, t, left);
    Harness h;
    vclock += (uint64_t)t->tv_sec * 1000 + (uint64_t)t->tv_nsec / 1000000;
    if (++sleeps > 5000) sim::fail("no-progress", "a compiler sleeps again and again");
    if (doomed()) die_now();
    return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *left)
{
    if (!child_on) return (int)-syscall(SYS_clock_nanosleep, c, flags, t, left);
    return nanosleep(t, left);
}
extern "C" int usleep(useconds_t us)
{
    struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
    return nanosleep(&t, nullptr);
}
extern "C" unsigned sleep(unsigned s)
{
    struct timespec t = { (time_t)s, 0 };
    nanosleep(&t, nullptr);
    return 0;
}
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept
{
    if (child_on && sim::in_real)
    {
        t->tv_sec = (time_t)(vclock / 1000 + 1);
        t->tv_nsec = (long)(vclock++ % 1000) * 1000000;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, t);
}
extern "C" time_t time(time_t *t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" pid_t getpid(void) noexcept
{
    if (child_on && P) return P->pid;
    return (pid_t)syscall(SYS_getpid);
}
