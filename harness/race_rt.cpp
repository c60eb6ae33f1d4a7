// Runtime of race.h; compiled without instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "race.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <link.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <array>
#include <cerrno>
#include <unordered_map>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
extern char __data_start, _end; }

extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*); int __real_vsnprintf(char*, size_t, const char*, va_list); }

namespace {
const int MAXT = 3;
struct Clock { long c[MAXT] = {0, 0, 0}; void join(const Clock& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Th {
    int id = 0;
    char *stackLo = nullptr, *stackHi = nullptr, *arena = nullptr, *arenaEnd = nullptr, *top = nullptr;
    bool busy = false;                  // inside the runtime
    int init = 0;                       // inside the initialisation of a static variable or a locked region: no preemption
    long shared = 0, globals = 0;
    Clock vc;
    sem_t go;
    std::string out;
    const std::function<std::string()>* body = nullptr;
};
struct Byte { int w = -1; long wc = 0; bool wAtomic = false; long r[MAXT] = {0, 0, 0}; bool rAtomic = false; void* wpc = nullptr; void* rpc = nullptr; };
struct World {
    std::unordered_map<uintptr_t, std::array<Byte, 8>> shadow;
    std::unordered_map<uintptr_t, Clock> sync;
    std::vector<Th*> th;
    std::vector<int> order;
    long k = 0; bool onlyGlobals = false;
    size_t nextStart = 1;               // position in order of the next thread to start
    int preempted = -1;
    bool raced = false; std::string race;
    sem_t done;
};
World* W = nullptr;
thread_local Th* cur = nullptr;
const size_t ARENA = size_t(256) << 20;
char* arenas = nullptr;                 // MAXT regions, mapped before the fork
bool inArenas(const void* p) { return arenas && (char*)p >= arenas && (char*)p < arenas + MAXT * ARENA; }

void* bump(Th* t, size_t n, size_t align = 16) {
    uintptr_t p = ((uintptr_t)t->top + 16 + align - 1) & ~(uintptr_t)(align - 1);
    if ((char*)p + n + 64 > t->arenaEnd) return nullptr;
    ((size_t*)p)[-1] = n;
    t->top = (char*)p + n;
    return (void*)p;
}
struct Busy { Th* t; explicit Busy(Th* x) : t(x) { t->busy = true; } ~Busy() { t->busy = false; } };

std::string where(void* pc) {
    Dl_info d; char b[64];
    uintptr_t base = 0;
    std::string s;
    if (dladdr(pc, &d)) { base = (uintptr_t)d.dli_fbase; if (d.dli_sname) s = d.dli_sname; }
    snprintf(b, sizeof b, "+0x%lx", (unsigned long)((uintptr_t)pc - base));
    return s + b;
}
void report(int a, int b, uintptr_t addr, bool aw, bool bw, void* pa, void* pb) {
    if (W->raced) return;
    W->raced = true;
    char x[200];
    Dl_info d; std::string sym;
    if (dladdr((void*)addr, &d) && d.dli_sname && d.dli_saddr) sym = std::string(" in ") + d.dli_sname;
    snprintf(x, sizeof x, "thread %d %s and thread %d %s the same memory%s without order (", a, aw ? "writes" : "reads", b, bw ? "writes" : "reads", sym.substr(0, 90).c_str());
    W->race = x + where(pa) + " / " + where(pb) + ")";
}
bool isGlobal(uintptr_t a) { return (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end); }
bool own(Th* t, uintptr_t a) { return (a >= (uintptr_t)t->stackLo && a < (uintptr_t)t->stackHi) || (a >= (uintptr_t)t->arena && a < (uintptr_t)t->arenaEnd); }

void access(uintptr_t a, size_t n, bool write, bool atomic, void* pc) {
    Th* t = cur;
    if (!t || t->busy || n == 0) return;
    if (own(t, a)) return;
    Busy b(t);
    t->shared++;
    bool g = isGlobal(a);
    if (g) t->globals++;
    if (W->k && t->id == W->order[0] && (W->onlyGlobals ? g && t->globals == W->k : t->shared == W->k) && W->nextStart < W->order.size()) {
        if (t->init) W->k++;            // a region nobody else may enter: preempt at the next access instead
        else {
            W->preempted = t->id;
            sem_post(&W->th[W->order[W->nextStart++]]->go);
            while (sem_wait(&t->go)) {}
        }
    }
    for (size_t i = 0; i < n; i++) {
        uintptr_t x = a + i;
        Byte& s = W->shadow[x >> 3][x & 7];
        if (s.w >= 0 && s.w != t->id && s.wc > t->vc.c[s.w] && !(atomic && s.wAtomic)) report(s.w, t->id, x, true, write, s.wpc, pc);
        if (write) {
            for (int u = 0; u < MAXT; u++) if (u != t->id && s.r[u] > t->vc.c[u] && !(atomic && s.rAtomic)) report(u, t->id, x, false, true, s.rpc, pc);
            s.w = t->id; s.wc = t->vc.c[t->id]; s.wAtomic = atomic; s.wpc = pc;
        } else { s.r[t->id] = t->vc.c[t->id]; s.rAtomic = atomic; s.rpc = pc; }
    }
}
void acquire(uintptr_t a) { Th* t = cur; if (!t || t->busy) return; Busy b(t); auto it = W->sync.find(a); if (it != W->sync.end()) t->vc.join(it->second); }
void release(uintptr_t a) { Th* t = cur; if (!t || t->busy) return; Busy b(t); W->sync[a].join(t->vc); t->vc.c[t->id]++; }

void finish(Th* t) {
    t->busy = true;
    cur = nullptr;
    if (W->preempted >= 0 && W->preempted != t->id && W->nextStart >= W->order.size()) { int p = W->preempted; W->preempted = -1; sem_post(&W->th[p]->go); }
    else if (W->nextStart < W->order.size()) sem_post(&W->th[W->order[W->nextStart++]]->go);
    else sem_post(&W->done);
}
void* threadMain(void* p) {
    Th* t = (Th*)p;
    pthread_attr_t at; void* lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    t->stackLo = (char*)lo; t->stackHi = (char*)lo + sz;
    while (sem_wait(&t->go)) {}
    cur = t;
    std::string r;
    try { r = (*t->body)(); }
    catch (std::exception& e) { r = std::string("!") + e.what(); }
    catch (...) { r = "!unknown exception"; }
    t->busy = true; t->out = r;
    finish(t);
    return nullptr;
}
void put(std::string& o, const std::string& s) { uint64_t n = s.size(); o.append((char*)&n, 8); o += s; }
bool get(const std::string& i, size_t& p, std::string& s) { uint64_t n; if (p + 8 > i.size()) return false; memcpy(&n, &i[p], 8); p += 8; if (p + n > i.size()) return false; s = i.substr(p, n); p += n; return true; }
} // namespace

namespace race {
Result run(const std::vector<std::function<std::string()>>& bodies, const std::vector<int>& order, long k, bool onlyGlobals) {
    if (!arenas) {
        arenas = (char*)mmap(nullptr, MAXT * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arenas == MAP_FAILED) { printf("INTERNAL no memory for the arenas\n"); exit(3); }
    }
    Result r;
    int fd[2];
    if (pipe(fd)) { printf("INTERNAL pipe\n"); exit(3); }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { printf("INTERNAL fork\n"); exit(3); }
    if (pid == 0) {
        close(fd[0]);
        signal(SIGALRM, SIG_DFL); alarm(60);
        int nul = open("/dev/null", 1); if (nul >= 0) { dup2(nul, 2); }
        W = new World;
        W->order = order; W->k = k; W->onlyGlobals = onlyGlobals;
        sem_init(&W->done, 0, 0);
        std::vector<pthread_t> pt(bodies.size());
        for (size_t i = 0; i < bodies.size(); i++) {
            Th* t = new Th; t->id = (int)i; t->body = &bodies[i];
            t->arena = t->top = arenas + i * ARENA; t->arenaEnd = t->arena + ARENA;
            for (int u = 0; u < MAXT; u++) t->vc.c[u] = 0;
            t->vc.c[i] = 1;
            sem_init(&t->go, 0, 0);
            W->th.push_back(t);
        }
        for (size_t i = 0; i < bodies.size(); i++) if (pthread_create(&pt[i], nullptr, threadMain, W->th[i])) _exit(97);
        sem_post(&W->th[order[0]]->go);
        while (sem_wait(&W->done)) {}
        std::string o;
        put(o, W->raced ? "1" : "0"); put(o, W->race);
        for (auto* t : W->th) { put(o, t->out); put(o, std::to_string(t->shared)); put(o, std::to_string(t->globals)); }
        put(o, "end");
        for (size_t p = 0; p < o.size();) { ssize_t w = write(fd[1], o.data() + p, o.size() - p); if (w <= 0) _exit(98); p += w; }
        _exit(0);
    }
    close(fd[1]);
    std::string in; char buf[65536]; ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) in.append(buf, n);
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        r.death = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "no end within a minute" : "killed by signal " + std::to_string(WTERMSIG(st))) : "exit code " + std::to_string(WEXITSTATUS(st));
        return r;
    }
    size_t p = 0; std::string s, a, b;
    if (!get(in, p, s)) { r.death = "no result"; return r; }
    r.raced = s == "1"; get(in, p, r.race);
    for (size_t i = 0; i < bodies.size(); i++) { get(in, p, s); get(in, p, a); get(in, p, b); r.out.push_back(s); r.shared.push_back(atol(a.c_str())); r.globals.push_back(atol(b.c_str())); }
    r.ok = get(in, p, s) && s == "end";
    if (!r.ok) r.death = "result cut";
    return r;
}
} // namespace race

// ---------------------------------------------------------------- memory
extern "C" {
void* malloc(size_t n) { Th* t = cur; if (t && !t->busy) return bump(t, n); return __libc_malloc(n); }
void free(void* p) { if (p && !inArenas(p)) __libc_free(p); }
void* calloc(size_t a, size_t b) { Th* t = cur; if (t && !t->busy) return bump(t, a * b); return __libc_calloc(a, b); }   // an arena is used once: its memory is zero
void* realloc(void* p, size_t n) {
    Th* t = cur;
    if (inArenas(p) || (t && !t->busy)) {
        void* q = (t && !t->busy) ? bump(t, n) : __libc_malloc(n);
        if (p && q) { size_t o = inArenas(p) ? ((size_t*)p)[-1] : n; memcpy(q, p, o < n ? o : n); }
        return q;
    }
    return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { Th* t = cur; if (t && !t->busy) return bump(t, n, al); return __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : 12; }

// ---------------------------------------------------------------- synchronisation
int __cxa_guard_acquire(uint64_t* g) {
    acquire((uintptr_t)g);
    if (__atomic_load_n((char*)g, __ATOMIC_ACQUIRE)) return 0;
    if (cur) { cur->init++; return 1; }
    return 1;
}
void __cxa_guard_release(uint64_t* g) { __atomic_store_n((char*)g, 1, __ATOMIC_RELEASE); release((uintptr_t)g); if (cur) cur->init--; }
void __cxa_guard_abort(uint64_t*) { if (cur) cur->init--; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!cur) return 0; acquire((uintptr_t)m); cur->init++; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return __wrap_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!cur) return 0; release((uintptr_t)m); cur->init--; return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    acquire((uintptr_t)o);
    if (*(int*)o == 0x55) return 0;
    if (cur) cur->init++;
    f(); *(int*)o = 0x55;
    release((uintptr_t)o);
    if (cur) cur->init--;
    return 0;
}

// ---------------------------------------------------------------- instrumentation
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, false, PC); } void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, false, PC); } void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } \
    void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } void __tsan_unaligned_read_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, false, PC); } void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); return __real_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); return __real_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access((uintptr_t)d, n, true, false, PC); return __real_memset(d, c, n); }
#define ACQ(mo) ((mo) == __ATOMIC_ACQUIRE || (mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define REL(mo) ((mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define RMW(T, n, name, op) T __tsan_atomic##n##_##name(volatile T* p, T v, int mo) { access((uintptr_t)p, sizeof(T), true, true, PC); if (ACQ(mo)) acquire((uintptr_t)p); T r = op((T*)p, v, __ATOMIC_SEQ_CST); if (REL(mo)) release((uintptr_t)p); return r; }
#define ATOMIC(T, n) \
    T __tsan_atomic##n##_load(const volatile T* p, int mo) { access((uintptr_t)p, sizeof(T), false, true, PC); if (ACQ(mo)) acquire((uintptr_t)p); return __atomic_load_n((const T*)p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { access((uintptr_t)p, sizeof(T), true, true, PC); __atomic_store_n((T*)p, v, __ATOMIC_SEQ_CST); if (REL(mo)) release((uintptr_t)p); } \
    RMW(T, n, exchange, __atomic_exchange_n) RMW(T, n, fetch_add, __atomic_fetch_add) RMW(T, n, fetch_sub, __atomic_fetch_sub) RMW(T, n, fetch_and, __atomic_fetch_and) RMW(T, n, fetch_or, __atomic_fetch_or) RMW(T, n, fetch_xor, __atomic_fetch_xor) RMW(T, n, fetch_nand, __atomic_fetch_nand) \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { access((uintptr_t)p, sizeof(T), true, true, PC); if (ACQ(mo)) acquire((uintptr_t)p); int r = __atomic_compare_exchange_n((T*)p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r && REL(mo)) release((uintptr_t)p); return r; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, mo, f); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int mo, int f) { __tsan_atomic##n##_compare_exchange_strong(p, &e, v, mo, f); return e; }
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- functions of the C library that keep or fill memory (linked with --wrap)
static long libcRand, libcTok;          // stand for the hidden state of rand and strtok
int __real_rand(); void __real_srand(unsigned); char* __real_strtok(char*, const char*);
int __wrap_rand() { access((uintptr_t)&libcRand, 8, true, false, PC); return __real_rand(); }
void __wrap_srand(unsigned s) { access((uintptr_t)&libcRand, 8, true, false, PC); __real_srand(s); }
char* __wrap_strtok(char* s, const char* d) { access((uintptr_t)&libcTok, 8, true, false, PC); return __real_strtok(s, d); }
int __wrap_snprintf(char* s, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = __real_vsnprintf(s, n, f, a); va_end(a); if (n) access((uintptr_t)s, r < 0 ? 1 : (size_t)r + 1 < n ? (size_t)r + 1 : n, true, false, PC); return r; }
int __wrap_vsnprintf(char* s, size_t n, const char* f, va_list a) { int r = __real_vsnprintf(s, n, f, a); if (n) access((uintptr_t)s, r < 0 ? 1 : (size_t)r + 1 < n ? (size_t)r + 1 : n, true, false, PC); return r; }
int __wrap_sprintf(char* s, const char* f, ...) { va_list a; va_start(a, f); int r = vsprintf(s, f, a); va_end(a); access((uintptr_t)s, r < 0 ? 1 : (size_t)r + 1, true, false, PC); return r; }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); access((uintptr_t)s, n + 1, false, false, PC); return n; }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access((uintptr_t)a, n, false, false, PC); access((uintptr_t)b, n, false, false, PC); return __real_memcmp(a, b, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
} // extern "C"
