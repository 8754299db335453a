// Native runtime for the verification harnesses: loads the very shared object whose LLVM IR the
// symbolic engine executes, supplies the vp_* interface natively (inputs, parameters and the
// order of lock operations come from a replay file), and runs one entry function.
//   vprt LIB.so REPLAY.txt
// exit: 0 finished, 101 assertion failed, 77 assumption false, 103 deadlock, 104 no progress,
//       105 schedule diverged; a Rust panic aborts (SIGABRT).
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <mutex>
#include <condition_variable>
#include <pthread.h>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

typedef int64_t i64;
static std::map<uint32_t, i64> assign_, params;
static std::vector<int> sched;
static size_t pos = 0;
static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t C = PTHREAD_COND_INITIALIZER;
static int nthreads = 1, live = 1, waiting = 0;
static unsigned long progress = 0;
static thread_local int tid = 0;
struct Wait { int tid; const uint64_t *cv; bool notified; };
static std::vector<Wait *> waiters;
static double limit_s = 20;

static void quit(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static bool lock_free(const uint64_t *p, uint32_t mode) {
    i64 v = *(const volatile i64 *)p;
    return mode == 1 ? v >= 0 : v == 0;
}
// One thread runs at a time, from one of its operations to the next, as in the engine: `owner` is
// that thread, or -1. A thread gives way when it reaches an operation, blocks in the kernel or ends.
static int owner = 0;
static bool freely = false; // the running thread waits for another one without telling
static std::map<int, bool> at_op; // the threads waiting at an operation
static int in_kernel = 0;
// may the calling thread perform its next operation now?
static bool my_turn() { return (owner == -1 || freely) && (pos >= sched.size() || sched[pos] == tid); }
static void granted() {
    if (pos < sched.size()) pos++;
    progress++;
    at_op.erase(tid);
    owner = tid;
    pthread_cond_broadcast(&C);
}
static void leave() {
    if (owner == tid) { owner = -1; pthread_cond_broadcast(&C); }
}
static void block() {
    waiting++;
    pthread_cond_wait(&C, &G);
    waiting--;
}
// reaches an operation
static void arrive() {
    at_op[tid] = true;
    leave();
    pthread_cond_broadcast(&C);
}
// goes on without an operation: at the start, or after blocking in the kernel
static void resume() {
    while (!(freely || (owner == -1 && (pos >= sched.size() || sched[pos] == tid || !at_op.count(sched[pos]))))) block();
    owner = tid;
    progress++;
}
extern "C" {
long getrandom(void *p, unsigned long n, unsigned f) {
    (void)f;
    memset(p, 0, n);
    return (long)n;
}
void vp_acquire(uint64_t *p, uint32_t mode) {
    pthread_mutex_lock(&G);
    arrive();
    while (!(my_turn() && lock_free(p, mode))) block();
    if (mode == 1) *(i64 *)p += 1; else *(i64 *)p = -1;
    granted();
    pthread_mutex_unlock(&G);
}
bool vp_try_acquire(uint64_t *p, uint32_t mode) {
    pthread_mutex_lock(&G);
    arrive();
    while (!my_turn()) block();
    bool ok = lock_free(p, mode);
    if (ok) { if (mode == 1) *(i64 *)p += 1; else *(i64 *)p = -1; }
    granted();
    pthread_mutex_unlock(&G);
    return ok;
}
void vp_release(uint64_t *p, uint32_t mode) {
    pthread_mutex_lock(&G);
    arrive();
    while (!my_turn()) block();
    if (mode == 1) *(i64 *)p -= 1; else *(i64 *)p = 0;
    granted();
    pthread_mutex_unlock(&G);
}
bool vp_cv_wait(uint64_t *cv, uint64_t *mx, uint32_t timed) {
    pthread_mutex_lock(&G);
    Wait w{tid, cv, false};
    arrive();
    while (!my_turn()) block();
    *(i64 *)mx = 0;
    waiters.push_back(&w);
    granted();
    arrive();
    // inside the recorded schedule, the schedule says who goes on
    while (!((w.notified || timed) && my_turn() && lock_free(mx, 0))) block();
    for (size_t k = 0; k < waiters.size(); k++)
        if (waiters[k] == &w) { waiters.erase(waiters.begin() + k); break; }
    *(i64 *)mx = -1;
    granted();
    bool to = !w.notified;
    pthread_mutex_unlock(&G);
    return to;
}
void vp_cv_notify(uint64_t *cv, uint32_t all) {
    pthread_mutex_lock(&G);
    arrive();
    while (!my_turn()) block();
    if (all) {
        for (auto w : waiters) if (w->cv == cv) w->notified = true;
    } else {
        Wait *best = nullptr;
        for (size_t k = pos + 1; k < sched.size() && !best; k++)
            for (auto w : waiters) if (w->cv == cv && !w->notified && w->tid == sched[k]) best = w;
        if (!best)
            for (auto w : waiters) if (w->cv == cv && !w->notified && !best) best = w;
        if (best) best->notified = true;
    }
    granted();
    pthread_mutex_unlock(&G);
}
i64 vp_sym(uint32_t id, i64 lo, i64 hi) {
    auto it = assign_.find(id);
    if (it != assign_.end()) return it->second;
    return lo > 0 ? lo : hi < 0 ? hi : 0;
}
i64 vp_param(uint32_t id) { auto it = params.find(id); return it == params.end() ? 0 : it->second; }
void vp_assume(bool c) { if (!c) { printf("VP-ASSUME-FALSE\n"); quit(77); } }
void vp_assert(bool c, uint32_t id) { if (!c) { printf("VP-ASSERT-FAIL %u\n", id); quit(101); } }
void vp_reach(uint32_t) {}
void vp_out(uint32_t id, i64 v) { printf("VP-OUT %u %lld\n", id, (long long)v); }
i64 vp_max(i64 a, i64 b) { return a > b ? a : b; }
i64 vp_min(i64 a, i64 b) { return a < b ? a : b; }
i64 vp_ite(bool c, i64 a, i64 b) { return c ? a : b; }
bool vp_and(bool a, bool b) { return a & b; }
bool vp_or(bool a, bool b) { return a | b; }
i64 vp_conc(i64 a) { return a; }
void vp_yield() {}
uint32_t vp_tid() { return tid; }
bool vp_is_sym(i64) { return false; }

// the text written to standard output, readable by the harness
static std::string text_;
ssize_t write(int fd, const void *b, size_t n) {
    if (fd == 1 && params.count(61)) { text_.append((const char *)b, n); return n; }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (fd == 1 && params.count(61)) {
        ssize_t t = 0;
        for (int k = 0; k < n; k++) { text_.append((const char *)v[k].iov_base, v[k].iov_len); t += v[k].iov_len; }
        return t;
    }
    return syscall(SYS_writev, fd, v, n);
}
i64 vp_stdout(i64 i) { return i < (i64)text_.size() ? (unsigned char)text_[i] : -1; }
static i64 slept_ = 0;
// a thread goes on after a sleep when the schedule says so
static int slept(const struct timespec *t) {
    pthread_mutex_lock(&G);
    // falls asleep, then wakes up
    arrive();
    while (!my_turn()) block();
    granted();
    arrive();
    while (!my_turn()) block();
    slept_ += t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000;
    granted();
    pthread_mutex_unlock(&G);
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *) { return slept(t); }
int clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { return slept(t); }
// the harness may observe the end of the process
static void *lib_ = nullptr;
void vp_done() { printf("VP-DONE\n"); quit(0); }
void exit(int c) {
    void (*f)(int) = lib_ ? (void (*)(int))dlsym(lib_, "vp_exit") : nullptr;
    if (f) f(c);
    quit(c);
}
// parameter 60: a clock that advances as the inputs say
int clock_gettime(clockid_t c, struct timespec *t) {
    static i64 clock = 0, late = 0;
    if (!params.count(60)) return syscall(SYS_clock_gettime, c, t);
    pthread_mutex_lock(&G);
    clock++;
    if (clock <= params[60] && assign_.count(9000 + clock) && assign_[9000 + clock]) late += 1000000;
    i64 x = clock + late + slept_;
    pthread_mutex_unlock(&G);
    t->tv_sec = 1000 + x / 1000;
    t->tv_nsec = x % 1000 * 1000000;
    return 0;
}

typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
struct Start { void *(*f)(void *); void *a; int id; };
static void *tramp(void *p) {
    Start s = *(Start *)p;
    free(p);
    tid = s.id;
    pthread_mutex_lock(&G);
    resume();
    pthread_mutex_unlock(&G);
    void *r = s.f(s.a);
    pthread_mutex_lock(&G);
    leave();
    live--;
    progress++;
    pthread_cond_broadcast(&C);
    pthread_mutex_unlock(&G);
    return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    static pc_t real = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
    Start *s = (Start *)malloc(sizeof(Start));
    pthread_mutex_lock(&G);
    *s = Start{f, a, nthreads++};
    live++;
    pthread_mutex_unlock(&G);
    return real(t, at, tramp, s);
}
static void kernel_in() {
    pthread_mutex_lock(&G);
    leave();
    in_kernel++;
    pthread_mutex_unlock(&G);
}
static void kernel_out() {
    int e = errno;
    pthread_mutex_lock(&G);
    in_kernel--;
    resume();
    pthread_mutex_unlock(&G);
    errno = e;
}
int pthread_join(pthread_t t, void **r) {
    static int (*real)(pthread_t, void **) = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
    kernel_in();
    int x = real(t, r);
    kernel_out();
    return x;
}
int sched_yield() {
    kernel_in();
    kernel_out();
    return 0;
}
// the standard library's mutexes, condition variables and parked threads wait here
typedef long (*sys_t)(long, ...);
static sys_t real_syscall = nullptr; // set before the second thread starts: a guarded static would itself wait here
long syscall(long n, ...) {
    sys_t real = real_syscall;
    if (!real) real = real_syscall = (sys_t)dlsym(RTLD_NEXT, "syscall");
    va_list l;
    va_start(l, n);
    long a[6];
    for (int k = 0; k < 6; k++) a[k] = va_arg(l, long);
    va_end(l);
    bool wait = n == SYS_futex && ((a[1] & 0x7f) == 0 || (a[1] & 0x7f) == 9);
    if (wait) kernel_in();
    long x = real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (wait) kernel_out();
    return x;
}
}
static void *watchdog(void *) {
    tid = -2;
    double t = 0, still = 0, idle = 0;
    unsigned long last = 0;
    for (;;) {
        { struct timespec d{0, 50000000}; real_syscall(SYS_nanosleep, &d, nullptr); }
        t += 0.05;
        pthread_mutex_lock(&G);
        bool stuck = waiting + in_kernel >= live && progress == last;
        idle = progress == last && waiting > 0 ? idle + 0.05 : 0;
        if (idle > 3 && !stuck && !freely) { freely = true; pthread_cond_broadcast(&C); }
        still = stuck ? still + 0.05 : 0;
        last = progress;
        bool div = pos < sched.size();
        if (still > 1.0) {
            if (div) { printf("VP-DIVERGED at %zu of %zu\n", pos, sched.size()); quit(105); }
            printf("VP-DEADLOCK\n");
            quit(103);
        }
        if (t > limit_s) { printf("VP-TIMEOUT\n"); quit(104); }
        pthread_mutex_unlock(&G);
    }
    return nullptr;
}
int main(int c, char **v) {
    if (c < 3) return 2;
    std::ifstream f(v[2]);
    std::string line, entry;
    while (std::getline(f, line)) {
        std::istringstream s(line);
        std::string k;
        s >> k;
        if (k == "entry") s >> entry;
        else if (k == "param") { uint32_t i; i64 x; s >> i >> x; params[i] = x; }
        else if (k == "assign") { uint32_t i; i64 x; s >> i >> x; assign_[i] = x; }
        else if (k == "sched") { int t; while (s >> t) sched.push_back(t); }
        else if (k == "limit") s >> limit_s;
    }
    void *h = lib_ = dlopen(v[1], RTLD_NOW);
    if (!h) { printf("VP-ERROR %s\n", dlerror()); return 2; }
    void (*e)() = (void (*)())dlsym(h, entry.c_str());
    if (!e) { printf("VP-ERROR no entry %s\n", entry.c_str()); return 2; }
    real_syscall = (sys_t)dlsym(RTLD_NEXT, "syscall");
    pthread_t w;
    static pc_t real = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
    real(&w, nullptr, watchdog, nullptr);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    e();
    printf("VP-DONE\n");
    quit(0);
}
