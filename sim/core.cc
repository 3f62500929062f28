#include "core.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <exception>
#include <fstream>
#include <map>
#include <new>
#include <queue>
#include <sstream>
#include <unordered_set>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <locale.h>

namespace sim {

enum { ST_RUNNING = 0, ST_OK = 1, ST_FAIL = 2, ST_DISCARD = 3 };
static const size_t MAX_TAPE = 1 << 17;
static const size_t MAX_LOG = 1 << 19;
static const size_t MAX_COV = 1 << 17;

struct Counter { char name[48]; uint64_t n; };

struct Shm
{
    // choices
    uint64_t rng[2];
    uint32_t replaying, ntape, nreplay, replay_pos;
    uint32_t tape[MAX_TAPE];
    uint32_t replay[MAX_TAPE];
    // outcome
    int status;
    char kind[96];
    char message[8192];
    uint64_t hash, sched_hash;
    uint64_t simtime, steps, switches, procs;
    uint32_t loglen;
    char logbuf[MAX_LOG];
    // accumulated over the runs of this worker
    uint32_t ncounters;
    Counter counters[256];
    unsigned char cov[MAX_COV];
};
static Shm *S;
std::string workdir;

// ------------------------------------------------------------------ hashing
static inline void mix(uint64_t &h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
}
static void mixs(uint64_t &h, const char *p, size_t n)
{
    uint64_t x = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) { x ^= (unsigned char)p[i]; x *= 1099511628211ull; }
    mix(h, x);
}
static uint64_t splitmix(uint64_t &x)
{
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t rnd()
{
    uint64_t s1 = S->rng[0], s0 = S->rng[1];
    uint64_t r = s0 + s1;
    S->rng[0] = s0;
    s1 ^= s1 << 23;
    S->rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}

uint32_t choose(uint32_t n)
{
    uint32_t v;
    if (n == 0) n = 1;
    if (S->replaying)
        v = S->replay_pos < S->nreplay ? S->replay[S->replay_pos++] % n : 0;
    else
        v = n == 1 ? 0 : (uint32_t)((rnd() >> 11) % n);
    if (S->ntape >= MAX_TAPE) discard("tape overflow");
    S->tape[S->ntape++] = v;
    return v;
}
uint64_t bits64()
{
    uint64_t a = choose(1u << 16), b = choose(1u << 16), c = choose(1u << 16), d = choose(1u << 16);
    return a | b << 16 | c << 32 | d << 48;
}

// ------------------------------------------------------------------ log
thread_local int in_real = 0;
struct Th;
static int cur_id();

static void put_log(const char *p, size_t n)
{
    size_t room = MAX_LOG - 1 - S->loglen;
    if (n > room) n = room;
    memcpy(S->logbuf + S->loglen, p, n);
    S->loglen += (uint32_t)n;
}
static uint64_t g_now = 0;

static void log_line(const char *text, size_t n)
{
    char head[64];
    int h = snprintf(head, sizeof head, "[t=%llu thr=%d] ", (unsigned long long)g_now, cur_id());
    put_log(head, (size_t)h);
    put_log(text, n);
    put_log("\n", 1);
    mix(S->hash, (uint64_t)cur_id());
    mix(S->hash, g_now);
}
void log(const char *fmt, ...)
{
    Harness h;
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    mixs(S->hash, buf, (size_t)n);
    log_line(buf, (size_t)n);
}
std::string esc(const std::string &b, size_t max)
{
    std::string o;
    for (size_t i = 0; i < b.size(); ++i)
    {
        if (o.size() > max) { o += "...(" + std::to_string(b.size()) + " bytes)"; break; }
        unsigned char c = (unsigned char)b[i];
        char t[8];
        if (c == '\\') o += "\\\\";
        else if (c >= 0x20 && c < 0x7f) o += (char)c;
        else { snprintf(t, sizeof t, "\\x%02x", c); o += t; }
    }
    return o;
}
void logx(const char *what, const std::string &bytes)
{
    Harness h;
    mixs(S->hash, what, strlen(what));
    mixs(S->hash, bytes.data(), bytes.size());
    std::string t = std::string(what) + ": " + esc(bytes, 600);
    log_line(t.data(), t.size());
}
[[noreturn]] static void finish(int status)
{
    S->status = status;
    _exit(0);
}
void fail(const char *kind, const char *fmt, ...)
{
    in_real = 0;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->message, sizeof S->message, fmt, ap);
    va_end(ap);
    snprintf(S->kind, sizeof S->kind, "%s", kind);
    std::string t = std::string("VIOLATED ") + kind + ": " + S->message;
    mixs(S->hash, kind, strlen(kind));
    log_line(t.data(), t.size());
    finish(ST_FAIL);
}
void discard(const char *why)
{
    snprintf(S->message, sizeof S->message, "%s", why);
    finish(ST_DISCARD);
}
void count(const char *name, uint64_t n)
{
    for (uint32_t i = 0; i < S->ncounters; ++i)
        if (!strcmp(S->counters[i].name, name)) { S->counters[i].n += n; return; }
    if (S->ncounters >= 256) return;
    Counter &c = S->counters[S->ncounters++];
    snprintf(c.name, sizeof c.name, "%s", name);
    c.n = n;
}

// ------------------------------------------------------------------ threads
enum { RUN, BLOCKED, DONE };
struct Th
{
    int id;
    int fut;
    int state;
    std::function<bool()> cond;
    std::function<void()> fn;
    pthread_t pt;
    int64_t quantum;
};
static std::vector<Th *> threads;
static Th *current = nullptr;
static thread_local Th *me = nullptr;
static bool preempt_on = true;
static std::function<void()> switch_hook;
static int hook_depth = 0;

struct Ev { uint64_t at, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->at != b->at ? a->at > b->at : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> events;
static uint64_t ev_seq = 0;

static thread_local uint64_t t_steps = 0, t_last = 0, t_bulk = 0, t_bulk_last = 0;
const uint64_t STEPS_DEFAULT = 600000000;
static uint64_t step_limit = STEPS_DEFAULT;

static int cur_id() { return current ? current->id : 0; }
int self() { return cur_id(); }
int nthreads() { return (int)threads.size(); }
uint64_t now() { return g_now; }
void preemption(bool on) { preempt_on = on; }
void at_switch(std::function<void()> fn) { switch_hook = fn; }
void set_step_limit(uint64_t n) { step_limit = n ? n : STEPS_DEFAULT; }
uint64_t last_steps() { return t_last; }
uint64_t steps_now() { return t_steps; }
uint64_t last_bulk() { return t_bulk_last; }

Real::Real() : saved(in_real)
{
    if (!saved) t_steps = t_bulk = 0;
    in_real = 1;
}
Real::~Real()
{
    in_real = saved;
    if (!saved) { t_bulk_last = t_bulk; t_last = t_steps; S->steps += t_steps; }
}

void after(uint64_t delay, std::function<void()> fn)
{
    Harness h;
    events.push(new Ev{ g_now + delay, ev_seq++, fn });
}
static void run_due()
{
    while (!events.empty() && events.top()->at <= g_now)
    {
        Ev *e = events.top();
        events.pop();
        e->fn();
        delete e;
    }
}
static void fwait(int *f)
{
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void fpost(int *f)
{
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void new_quantum(Th *t)
{
    if (!preempt_on || threads.size() < 2 || S->switches > 600) { t->quantum = 20000; return; }
    switch (choose(5))
    {
        case 0: t->quantum = 20000; break;
        case 1: t->quantum = 1 + choose(3000); break;
        case 2: t->quantum = 1 + choose(600); break;
        case 3: t->quantum = 1 + choose(120); break;
        default: t->quantum = 1 + choose(16); break;
    }
}
// chooses who runs next; may return the caller
static Th *next_thread()
{
    while (true)
    {
        ++g_now;
        run_due();
        Th *cand[64];
        uint32_t n = 0;
        for (auto t : threads)
            if (n < 64 && (t->state == RUN || (t->state == BLOCKED && t->cond()))) cand[n++] = t;
        if (n == 1) return cand[0];
        if (n > 1) return cand[choose(n)];
        if (events.empty()) fail("deadlock", "no thread can run and no event is pending at t=%llu", (unsigned long long)g_now);
        if (events.top()->at > g_now) g_now = events.top()->at;
    }
}
static void transfer(Th *to)
{
    if (to->state == BLOCKED) { to->state = RUN; to->cond = nullptr; }
    new_quantum(to);
    if (to == me) return;
    S->switches++;
    mix(S->sched_hash, (uint64_t)to->id);
    mix(S->sched_hash, t_steps);
    mix(S->hash, S->sched_hash);
    if (switch_hook && hook_depth == 0) { hook_depth++; switch_hook(); hook_depth--; }
    Th *from = me;
    current = to;
    fpost(&to->fut);
    fwait(&from->fut);
}
void yield_point()
{
    if (threads.size() < 2 || !me || hook_depth) return;
    Harness h;
    transfer(next_thread());
}
void block_until(std::function<bool()> cond)
{
    Harness h;
    if (cond()) { yield_point(); return; }
    if (!me)
    {   // no threads in this run: just advance the clock
        while (!cond())
        {
            if (events.empty()) fail("deadlock", "nothing pending at t=%llu", (unsigned long long)g_now);
            if (events.top()->at > g_now) g_now = events.top()->at;
            run_due();
        }
        return;
    }
    me->state = BLOCKED;
    me->cond = cond;
    transfer(next_thread());
}
void sleep_for(uint64_t t)
{
    uint64_t until = g_now + t;
    after(t, [] {});
    block_until([until] { return g_now >= until; });
}
static void *thread_main(void *p)
{
    me = (Th *)p;
    fwait(&me->fut);
    me->fn();
    me->state = DONE;
    {
        Th *n = next_thread();
        if (n->state == BLOCKED) { n->state = RUN; n->cond = nullptr; }
        new_quantum(n);
        S->switches++;
        mix(S->sched_hash, (uint64_t)n->id + 1000);
        current = n;
        fpost(&n->fut);
    }
    while (true) fwait(&me->fut); // parked until the process ends
    return nullptr;
}
static uint32_t focus = 0; // race-directed preemption: 0 off, else 1/focus of the candidate accesses
static uint32_t focus_left = 0;
int spawn(std::function<void()> fn)
{
    Harness h;
    if (threads.empty())
    {
        Th *t = new Th();
        t->id = 0; t->state = RUN; t->fut = 0; t->quantum = 20000;
        threads.push_back(t);
        me = current = t;
        static const uint32_t F[] = { 0, 1, 4, 16, 2 };
        focus = pick(F);
        focus_left = 400;
    }
    Th *t = new Th();
    t->id = (int)threads.size();
    t->state = RUN; t->fut = 0; t->fn = fn; t->quantum = 20000;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    if (pthread_create(&t->pt, &a, thread_main, t)) { fprintf(stderr, "pthread_create\n"); abort(); }
    threads.push_back(t);
    return t->id;
}
void join_all()
{
    if (threads.empty()) return;
    block_until([] { for (auto t : threads) if (t->id && t->state != DONE) return false; return true; });
}

// ------------------------------------------------------------------ edges
static uint32_t n_edges = 0;
static uint64_t hook_at = 0;
static void (*hook_fn)() = nullptr;
void step_hook(uint64_t at, void (*fn)()) { hook_at = at; hook_fn = fn; }
bool sanitizer_reported() { return S->kind[0] != 0; }
static void on_edge(uint32_t id)
{
    if (id < MAX_COV) S->cov[id] = 1;
    if (++t_steps > step_limit)
        fail("no-progress", "more than %llu basic blocks executed by one call", (unsigned long long)step_limit);
    if (hook_at && t_steps == hook_at) { Harness h; hook_fn(); }
    if (me && threads.size() > 1 && --me->quantum <= 0)
    {
        if (!hook_depth) yield_point();
        else me->quantum = 1000;
    }
}

// Race-directed preemption: an access to static data, or to memory another
// thread has touched in this run, is where a switch matters most.
extern "C" char __data_start, _end;
// exact (no decision may depend on address values, only on their identity)
static struct { uintptr_t a; uint8_t mask; } touched[1 << 15];
static uint32_t touched_n = 0;
static void on_address(uintptr_t a)
{
    if (!in_real || !me || threads.size() < 2 || hook_depth || !focus || !preempt_on || !focus_left) return;
    bool hot = a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end;
    if (!hot)
    {
        a >>= 3;
        size_t i = a * 0x9E3779B97F4A7C15ull >> 49;
        while (touched[i].a && touched[i].a != a) i = (i + 1) & ((1 << 15) - 1);
        if (!touched[i].a)
        {
            if (touched_n >= 20000) return;
            ++touched_n;
            touched[i].a = a;
        }
        uint8_t &m = touched[i].mask;
        uint8_t bit = (uint8_t)(1 << (me->id & 7));
        hot = (m & ~bit) && (m & bit); // a block freed by one thread and used by another is not shared yet
        m |= bit;
    }
    if (!hot) return;
    --focus_left;
    uint32_t r = choose(2 * focus);
    if (r == 2 * focus - 1) { count("probe.focused_switch"); yield_point(); }
    else if (r && r == 2 * focus - 2) { count("probe.focused_switch"); me->quantum = 1 + choose(12); }
}

// a memory access or library call inside the code under test
static inline void on_access()
{
    if (in_real && me && threads.size() > 1 && --me->quantum <= 0)
    {
        if (!hook_depth) yield_point();
        else me->quantum = 1000;
    }
}

// ------------------------------------------------------------------ memory
static AllocMode a_mode = ALLOC_OFF;
static uint64_t a_nth = 0, a_count = 0;
static bool a_fired = false, a_noise = false;
static bool acct_on = false;
static size_t live_n = 0, live_b = 0, peak_b = 0, total_b = 0;
static const size_t TAB = 1 << 17;
struct Ent { void *p; size_t n; };
static Ent *tab = nullptr;

static uint64_t a_seen = 0;
static int a_owner = 0; // the fault meets the thread that planned it
uint64_t alloc_seen() { return a_seen; }
void *shared_page() { return mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
void alloc_plan(AllocMode m, uint64_t nth) { a_seen = a_count; a_owner = cur_id(); a_mode = m; a_nth = nth; a_count = 0; a_fired = false; }
bool alloc_fired() { return a_fired; }
uint64_t alloc_count() { return a_count; }
void acct_begin()
{
    if (!tab) tab = (Ent *)mmap(nullptr, TAB * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    else memset(tab, 0, TAB * sizeof(Ent));
    live_n = live_b = peak_b = total_b = 0;
    acct_on = true;
}
void acct_end() { acct_on = false; }
size_t acct_live() { return live_n; }
size_t acct_bytes() { return live_b; }
size_t acct_peak() { return peak_b; }
size_t acct_total() { return total_b; }
void heap_noise(bool on) { a_noise = on; }

static inline size_t slot(void *p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (TAB - 1); }
static void acct_add(void *p, size_t n)
{
    if (live_n > TAB / 2) return;
    size_t i = slot(p);
    while (tab[i].p) i = (i + 1) & (TAB - 1);
    tab[i].p = p; tab[i].n = n;
    live_n++; live_b += n; total_b += n;
    if (live_b > peak_b) peak_b = live_b;
}
static void acct_del(void *p)
{
    size_t i = slot(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (TAB - 1);
    if (!tab[i].p) return;
    live_n--; live_b -= tab[i].n;
    size_t j = i;
    while (true)
    {
        tab[i].p = nullptr;
        while (true)
        {
            j = (j + 1) & (TAB - 1);
            if (!tab[j].p) return;
            size_t k = slot(tab[j].p);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        tab[i] = tab[j];
        i = j;
    }
}
// one more allocation by the code under test: does the plan make it fail?
static bool alloc_hit()
{
    if (!in_real || cur_id() != a_owner) return false;
    uint64_t k = a_count++;
    if (a_mode == ALLOC_OFF || !(k == a_nth || (a_mode == ALLOC_PERSIST && k > a_nth))) return false;
    a_fired = true;
    return true;
}
static void *do_new(size_t n, bool nothrow)
{
    on_access();
    if (in_real)
    {
        if (alloc_hit())
        {
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        if (a_noise && (a_count & 3) == 0)
        {
            Harness h;
            void *x = malloc(16 + 16 * (size_t)choose(64));
            if (choose(2)) free(x);
        }
        // a length computed from damaged data must not reach the real allocator
        if (n > (1ull << 31)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
    void *p;
    if (a_noise && in_real && n && n <= 2048)
    {   // fresh memory holds anything, and blocks of one size come in any order
        Harness h;
        static void *pool[2049][8];
        uint32_t r = choose(2048);
        void *&q = pool[n][r >> 8];
        for (int i = 0; i < 8; ++i) if (!pool[n][i]) pool[n][i] = malloc(n);
        p = q;
        q = nullptr;
        memset(p, (int)(r & 255), n);
    }
    else p = malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (acct_on && in_real) acct_add(p, n);
    return p;
}
static void do_del(void *p)
{
    if (!p) return;
    on_access();
    if (acct_on) acct_del(p);
    free(p);
}

// ------------------------------------------------------------------ worker state
static const char *arg_prop = "";
static std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
void add_scenario(const char *n, void (*f)()) { scenarios().push_back({ n, f }); }
static void (*scen_fn)() = nullptr;
static int err_fd = -1;

static void on_terminate()
{
    in_real = 0;
    std::string what = "std::terminate";
    if (auto p = std::current_exception())
    {
        try { std::rethrow_exception(p); }
        catch (const std::exception &e) { what += std::string(": ") + e.what(); }
        catch (...) {}
    }
    fail("crash:terminate", "%s", what.c_str());
}

extern "C" const char *__asan_get_report_description();
extern "C" int __asan_report_present();
extern "C" __attribute__((used, visibility("default"))) void __asan_on_error()
{
    const char *d = __asan_get_report_description();
    snprintf(S->kind, sizeof S->kind, "crash:%s", d ? d : "asan");
}

Proc start_process(const std::function<void()> &body)
{
    Harness h;
    S->procs++;
    fflush(nullptr);
    Proc p;
    p.pid = fork();
    if (p.pid < 0) discard("fork failed");
    if (p.pid == 0) { body(); _exit(0); }
    return p;
}
int end_process(const Proc &p)
{
    int st = 0;
    while (waitpid(p.pid, &st, 0) < 0 && errno == EINTR) {}
    if (S->status != ST_RUNNING) _exit(0); // the child reported
    return st;
}
int run_process(const std::function<void()> &body) { return end_process(start_process(body)); }
void note_switch(uint64_t who) { S->switches++; mix(S->sched_hash, who); }

struct Outcome
{
    int status;
    std::string kind, message;
    uint64_t hash, sched;
    std::vector<uint32_t> tape;
};
static std::string tail_of_stderr()
{
    char buf[6000];
    off_t len = lseek(err_fd, 0, SEEK_END);
    ssize_t n = pread(err_fd, buf, sizeof buf - 1, 0);
    (void)len;
    if (n < 0) n = 0;
    return std::string(buf, (size_t)n);
}

// one run in a fresh fork
static Outcome run_once(uint64_t seed, const std::vector<uint32_t> *tape)
{
    S->ntape = S->replay_pos = S->nreplay = 0;
    S->replaying = tape != nullptr;
    if (tape)
    {
        S->nreplay = (uint32_t)std::min(tape->size(), MAX_TAPE);
        memcpy(S->replay, tape->data(), S->nreplay * 4);
    }
    uint64_t x = seed;
    S->rng[0] = splitmix(x);
    S->rng[1] = splitmix(x);
    S->status = ST_RUNNING;
    S->kind[0] = S->message[0] = 0;
    S->hash = S->sched_hash = 0x1234567;
    S->loglen = 0;
    S->switches = 0;
    if (ftruncate(err_fd, 0)) {}
    lseek(err_fd, 0, SEEK_SET);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0)
    {
        setpgid(0, 0);
        dup2(err_fd, 2);
        std::set_terminate(on_terminate);
        scen_fn();
        S->simtime += g_now;
        finish(ST_OK);
    }
    int st = 0;
    bool timeout = false;
    auto t0 = std::chrono::steady_clock::now();
    int spin = 0;
    while (true)
    {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (r < 0 && errno != EINTR) break;
        if (++spin < 200) sched_yield();
        else
        {
            usleep(200);
            if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(90))
            {
                kill(-p, SIGKILL);
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                timeout = true;
                break;
            }
        }
    }
    Outcome o;
    o.status = S->status;
    o.kind = S->kind;
    o.message = S->message;
    if (timeout) { o.status = ST_FAIL; o.kind = "hang"; o.message = "a run did not end within 90 s"; }
    else if (o.status == ST_RUNNING)
    {
        o.status = ST_FAIL;
        if (o.kind.empty())
            o.kind = WIFSIGNALED(st) ? std::string("crash:signal-") + std::to_string(WTERMSIG(st))
                                     : std::string("crash:exit-") + std::to_string(WEXITSTATUS(st));
        o.message = tail_of_stderr();
    }
    o.hash = S->hash;
    o.sched = S->sched_hash;
    o.tape.assign(S->tape, S->tape + S->ntape);
    return o;
}

static std::vector<uint32_t> minimise(std::vector<uint32_t> tape, const std::string &kind, double budget)
{
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget; };
    auto test = [&](const std::vector<uint32_t> &t, std::vector<uint32_t> &out) {
        Outcome o = run_once(0, &t);
        if (o.status != ST_FAIL || o.kind != kind) return false;
        out = o.tape;
        while (!out.empty() && out.back() == 0) out.pop_back();
        return out.size() < tape.size() || (out.size() == tape.size() && out < tape);
    };
    std::vector<uint32_t> r;
    while (!tape.empty() && tape.back() == 0) tape.pop_back();
    bool progress = true;
    while (progress && left())
    {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, tape.size() / 2); chunk >= 1 && left(); chunk /= 2)
        {
            for (size_t i = 0; i < tape.size() && left();)
            {
                std::vector<uint32_t> t = tape;
                t.erase(t.begin() + (long)i, t.begin() + (long)std::min(i + chunk, t.size()));
                if (test(t, r)) { tape = r; progress = true; continue; }
                t = tape;
                bool nz = false;
                for (size_t k = i; k < std::min(i + chunk, t.size()); ++k) { nz |= t[k] != 0; t[k] = 0; }
                if (nz && test(t, r)) { tape = r; progress = true; continue; }
                i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < tape.size() && left(); ++i)
            while (tape[i] > 0 && left())
            {
                std::vector<uint32_t> t = tape;
                t[i] = tape[i] / 2;
                if (test(t, r)) { tape = r; progress = true; if (i >= tape.size()) break; continue; }
                t[i] = tape[i] - 1;
                if (test(t, r)) { tape = r; progress = true; if (i >= tape.size()) break; continue; }
                break;
            }
    }
    return tape;
}

static std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
    {
        char t[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(t, sizeof t, "\\u%04x", c); o += t; }
        else o += (char)c;
    }
    return o;
}

static int write_replay(const std::string &path, const Outcome &o, const std::string &extra)
{
    std::ofstream f(path);
    f << "vsim-replay 1\nproperty " << arg_prop << "\n" << extra << "kind " << o.kind << "\nhash " << std::hex << o.hash << std::dec << "\ntape";
    for (auto v : o.tape) f << ' ' << v;
    f << "\nmessage " << esc(o.message, 4000) << "\ntrace:\n";
    f.write(S->logbuf, S->loglen);
    return f.good() ? 0 : 1;
}

int sim_main(int argc, char **argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    // same addresses in every process
    if (!getenv("VSIM_NOASLR"))
    {
        setenv("VSIM_NOASLR", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
        perror("execv");
        return 3;
    }
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    err_fd = memfd_create("err", MFD_CLOEXEC);
    workdir = a.count("--work") ? a["--work"] : "/tmp";
    std::string prop = a["--prop"];
    std::vector<uint32_t> rtape;
    std::string rkind, rhash;
    if (a.count("--replay"))
    {
        std::ifstream f(a["--replay"]);
        std::string line;
        while (std::getline(f, line) && line != "trace:")
        {
            std::istringstream ss(line);
            std::string k;
            ss >> k;
            if (k == "property") ss >> prop;
            if (k == "kind") ss >> rkind;
            if (k == "hash") ss >> rhash;
            if (k == "tape") { uint32_t v; while (ss >> v) rtape.push_back(v); }
        }
    }
    arg_prop = strdup(prop.c_str());
    for (auto &s : scenarios()) if (prop == s.name) scen_fn = s.fn;
    if (!scen_fn) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 3; }

    if (a.count("--replay"))
    {
        Outcome o = run_once(0, &rtape);
        fwrite(S->logbuf, 1, S->loglen, stdout);
        std::ostringstream h;
        h << std::hex << o.hash;
        printf("status %d kind %s hash %s\n%s\n", o.status, o.kind.c_str(), h.str().c_str(), o.message.c_str());
        if (o.status != ST_FAIL) return 0;
        return o.kind == rkind && (rhash.empty() || h.str() == rhash) ? 1 : 4;
    }

    uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
    uint64_t from = strtoull(a["--from"].c_str(), nullptr, 10), step = strtoull(a["--step"].c_str(), nullptr, 10);
    uint64_t total = strtoull(a["--count"].c_str(), nullptr, 10);
    double tmax = atof(a["--time"].c_str());
    uint64_t recheck = a.count("--recheck") ? strtoull(a["--recheck"].c_str(), nullptr, 10) : 64;
    bool dump = a.count("--dump") > 0;
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

    uint64_t runs = 0, rechecks = 0, mism = 0, discards = 0, unrepro = 0;
    std::unordered_set<uint64_t> hashes, scheds;
    std::string samples, vio, unrepro_kind;
    FILE *df = dump ? fopen(a["--dump"].c_str(), "w") : nullptr;
    for (uint64_t i = from; i < total; i += step)
    {
        if (elapsed() > tmax) break;
        uint64_t s = seed * 0x9E3779B97F4A7C15ull;
        for (char c : prop) { s = (s ^ (unsigned char)c) * 0x100000001b3ull; }
        s += i;
        uint64_t rs = splitmix(s);
        uint64_t steps0 = S->steps;
        Outcome o = run_once(rs, nullptr);
        runs++;
        if (df) fprintf(df, "%llu %d %016llx\n", (unsigned long long)i, o.status, (unsigned long long)o.hash);
        if (o.status == ST_DISCARD) { discards++; continue; }
        if (S->steps - steps0 >= 50 || o.status == ST_FAIL) hashes.insert(o.hash);
        if (S->switches) scheds.insert(o.sched);
        if (samples.size() < 3000 && runs <= 2)
        {
            std::string l(S->logbuf, std::min<uint32_t>(S->loglen, 1200));
            if (!samples.empty()) samples += ",";
            samples += "{\"run\":" + std::to_string(i) + ",\"tape_entries\":" + std::to_string(o.tape.size()) + ",\"trace\":\"" + jesc(l) + "\"}";
        }
        if (o.status == ST_OK)
        {
            if (recheck && runs % recheck == 1)
            {
                Outcome p = run_once(0, &o.tape);
                rechecks++;
                if (p.hash != o.hash || p.status != o.status)
                {
                    mism++;
                    fprintf(stderr, "nondeterminism: run %llu\n", (unsigned long long)i);
                }
            }
            continue;
        }
        // violation: same tape again must give the same violation and log
        Outcome p = run_once(0, &o.tape);
        if (p.status != ST_FAIL || p.kind != o.kind || p.hash != o.hash)
        {
            unrepro++;
            unrepro_kind = o.kind + " (second time: " + p.kind + ")";
            if (unrepro > 20) break;
            continue;
        }
        std::vector<uint32_t> m = o.kind == "hang" ? o.tape : minimise(o.tape, o.kind, 40);
        Outcome q = run_once(0, &m);
        if (q.status != ST_FAIL || q.kind != o.kind) { q = run_once(0, &o.tape); }
        q.tape = std::vector<uint32_t>(q.tape);
        std::string rp = a["--out"] + ".replay";
        write_replay(rp, q, "schema_seed " + a["--schema"] + "\nverif_seed " + std::to_string(seed) + "\nrun " + std::to_string(i) + "\n");
        vio = "{\"kind\":\"" + jesc(q.kind) + "\",\"message\":\"" + jesc(q.message.substr(0, 2000)) + "\",\"run\":" + std::to_string(i) +
              ",\"tape_before\":" + std::to_string(o.tape.size()) + ",\"tape_after\":" + std::to_string(m.size()) + ",\"replay\":\"" + jesc(rp) + "\"}";
        break;
    }
    if (df) fclose(df);
    size_t cov = 0;
    for (uint32_t i = 1; i <= n_edges && i < MAX_COV; ++i) cov += S->cov[i];
    {
        FILE *f = fopen((a["--out"] + ".cov").c_str(), "wb");
        if (f) { fwrite(S->cov, 1, std::min<size_t>(n_edges + 1, MAX_COV), f); fclose(f); }
        f = fopen((a["--out"] + ".hash").c_str(), "wb");
        if (f) { for (auto h : hashes) fwrite(&h, 8, 1, f); fclose(f); }
        f = fopen((a["--out"] + ".sched").c_str(), "wb");
        if (f) { for (auto h : scheds) fwrite(&h, 8, 1, f); fclose(f); }
    }
    std::ofstream f(a["--out"]);
    f << "{\"runs\":" << runs << ",\"discards\":" << discards << ",\"rechecks\":" << rechecks << ",\"mismatches\":" << mism
      << ",\"unreproducible\":" << unrepro << ",\"unreproducible_kind\":\"" << jesc(unrepro_kind) << "\",\"edges_hit\":" << cov << ",\"edges_total\":" << n_edges
      << ",\"simtime\":" << S->simtime << ",\"steps\":" << S->steps << ",\"procs\":" << S->procs << ",\"elapsed\":" << elapsed()
      << ",\"counters\":{";
    for (uint32_t i = 0; i < S->ncounters; ++i)
        f << (i ? "," : "") << "\"" << S->counters[i].name << "\":" << S->counters[i].n;
    f << "},\"samples\":[" << samples << "],\"violation\":" << (vio.empty() ? "null" : vio) << "}\n";
    f.close();
    return f.good() ? 0 : 3;
}
} // namespace sim

// ---------------------------------------------------------------------- seams
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; ++x) *x = ++sim::n_edges;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
    if (!sim::in_real) return;
    sim::on_edge(*g);
}

#define COV(n) extern "C" void __sanitizer_cov_load##n(void *p) { sim::on_address((uintptr_t)p); sim::on_access(); } extern "C" void __sanitizer_cov_store##n(void *p) { sim::on_address((uintptr_t)p); sim::on_access(); }
COV(1) COV(2) COV(4) COV(8) COV(16)

// library calls of the generated code that can fail (linked with --wrap)
extern "C" locale_t __real_newlocale(int, const char *, locale_t);
extern "C" locale_t __wrap_newlocale(int m, const char *n, locale_t b)
{
    sim::on_access();
    if (sim::alloc_hit()) { sim::count("fault.newlocale"); errno = ENOMEM; return (locale_t)0; }
    return __real_newlocale(m, n, b);
}
extern "C" locale_t __real_uselocale(locale_t);
extern "C" locale_t __wrap_uselocale(locale_t l)
{
    sim::on_access();
    locale_t r = __real_uselocale(l);
    sim::on_access();
    return r;
}

// bulk memory work of the code under test (libstdc++ is linked statically, so
// that its own copies are seen too)
namespace sim { static inline void on_bulk(size_t n) { if (in_real) t_bulk += n; } }
#define BULK(ret, name, pars, n, args) \
    extern "C" ret __real_##name pars; \
    extern "C" ret __wrap_##name pars { sim::on_bulk(n); return __real_##name args; }
BULK(void *, memcpy, (void *d, const void *s, size_t n), n, (d, s, n))
BULK(void *, memmove, (void *d, const void *s, size_t n), n, (d, s, n))
BULK(void *, memset, (void *d, int c, size_t n), n, (d, c, n))
BULK(void *, memchr, (const void *d, int c, size_t n), n, (d, c, n))
BULK(int, memcmp, (const void *d, const void *s, size_t n), n, (d, s, n))
BULK(void *, __asan_memcpy, (void *d, const void *s, size_t n), n, (d, s, n))
BULK(void *, __asan_memmove, (void *d, const void *s, size_t n), n, (d, s, n))
BULK(void *, __asan_memset, (void *d, int c, size_t n), n, (d, c, n))
extern "C" size_t __real_strlen(const char *);
extern "C" size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); sim::on_bulk(n); return n; }

void *operator new(size_t n) { return sim::do_new(n, false); }
void *operator new[](size_t n) { return sim::do_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, true); }
void operator delete(void *p) noexcept { sim::do_del(p); }
void operator delete[](void *p) noexcept { sim::do_del(p); }
void operator delete(void *p, size_t) noexcept { sim::do_del(p); }
void operator delete[](void *p, size_t) noexcept { sim::do_del(p); }

// static-initialisation guards: a thread that finds an initialisation in
// progress gives the baton away instead of blocking in the kernel
extern "C" int __cxa_guard_acquire(uint64_t *g)
{
    volatile char *b = (volatile char *)g;
    while (true)
    {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (sim::nthreads() < 2) { fprintf(stderr, "recursive static initialisation\n"); abort(); }
        sim::count("probe.static_init_contended");
        sim::block_until([b] { return b[0] || !b[1]; });
    }
}
extern "C" void __cxa_guard_release(uint64_t *g) { volatile char *b = (volatile char *)g; b[1] = 0; b[0] = 1; }
extern "C" void __cxa_guard_abort(uint64_t *g) { volatile char *b = (volatile char *)g; b[1] = 0; sim::count("probe.static_init_aborted"); }

extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY)
    {
        if (sim::nthreads() > 1) sim::yield_point(); else sched_yield();
    }
    return r;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    int r;
    while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY)
    {
        if (sim::nthreads() > 1) sim::yield_point(); else sched_yield();
    }
    return r;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    int r;
    while ((r = pthread_rwlock_trywrlock(m)) == EBUSY)
    {
        if (sim::nthreads() > 1) sim::yield_point(); else sched_yield();
    }
    return r;
}
extern "C" int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    volatile int *v = (volatile int *)o;
    while (true)
    {
        if (*v == 2) return 0;
        if (*v == 0)
        {
            *v = 1;
            try { fn(); } catch (...) { *v = 0; throw; }
            *v = 2;
            return 0;
        }
        if (sim::nthreads() > 1) sim::block_until([v] { return *v != 1; }); else sched_yield();
    }
}
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=8:malloc_context_size=0:print_summary=1:symbolize=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }

int main(int argc, char **argv) { return sim::sim_main(argc, argv); }
