#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <wchar.h>

#if defined(__has_feature)
    #if __has_feature(thread_sanitizer) || defined(SIM_TSAN)
        #define SIM_WITH_TSAN 1
    #endif
    #if __has_feature(address_sanitizer)
        #define SIM_WITH_ASAN 1
    #endif
#endif
#if defined(SIM_TSAN) && !defined(SIM_WITH_TSAN)
    #define SIM_WITH_TSAN 1
#endif
#ifdef SIM_WITH_TSAN
extern "C" {
void __tsan_ignore_thread_begin();
void __tsan_ignore_thread_end();
void __tsan_acquire(void*);
void __tsan_release(void*);
}
#endif

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
}

namespace sim
{
    thread_local Task* t_cur = nullptr;
    Stats g_stats;
    RunConfig g_cfg;
    std::vector<OpMeasure> g_measure;
    bool g_trace = false;
    Progress* g_progress = nullptr;

    static Task g_tasks[kMaxTasks];
    static std::vector<FaultWindow> g_faults;
    static bool g_inRun = false;
    static bool g_faultsOn = true;
    static uint64_t g_totalSteps = 0;
    static uint64_t g_capBase = 0; // steps before the operation which began last
    static uint64_t g_eventHash = 0;
    static uint64_t g_ilHash = 0;
    static int g_runningTasks = 0;

    Task* cur() { return t_cur; }
    Task& taskRef(int id) { return g_tasks[id]; }

    uint64_t hashStr(char const* s)
    {
        uint64_t h = 1469598103934665603ull;
        for (; *s; s++)
            h = (h ^ (unsigned char)*s) * 1099511628211ull;
        return mix64(h);
    }

    // -------------------------------------------------------------- scopes
    static void enterIgnore(Scope s)
    {
#ifdef SIM_WITH_TSAN
        if (s != Scope::Coil) __tsan_ignore_thread_begin();
#else
        (void)s;
#endif
    }
    static void leaveIgnore(Scope s)
    {
#ifdef SIM_WITH_TSAN
        if (s != Scope::Coil) __tsan_ignore_thread_end();
#else
        (void)s;
#endif
    }

    ScopeGuard::ScopeGuard(Scope s)
    {
        Task* t = t_cur;
        prev = t->scope;
        if ((prev == Scope::Coil) != (s == Scope::Coil))
        {
            if (s == Scope::Coil) leaveIgnore(prev); else enterIgnore(s);
        }
        t->scope = s;
    }
    ScopeGuard::~ScopeGuard()
    {
        Task* t = t_cur;
        Scope s = t->scope;
        t->scope = prev;
        if ((prev == Scope::Coil) != (s == Scope::Coil))
        {
            if (prev == Scope::Coil) leaveIgnore(s); else enterIgnore(prev);
        }
    }

    // -------------------------------------------------------------- block table
    struct Block
    {
        void* p;
        size_t size;
        uint32_t run;   // 0: not coil scope
        uint8_t kind;   // 0 new, 1 new[]
        uint32_t seq;
    };
    static Block* g_tab = nullptr;
    static size_t g_tabCap = 0, g_tabUsed = 0, g_tabTomb = 0;
    static uint32_t g_runNo = 1;
    static uint32_t g_blockSeq = 0;
    static size_t g_coilLive = 0;
    static int g_tabLock = 0;
    static void* const kTomb = (void*)1;

    struct TabLock
    {
        TabLock() { while (__atomic_exchange_n(&g_tabLock, 1, __ATOMIC_ACQUIRE)) {} }
        ~TabLock() { __atomic_store_n(&g_tabLock, 0, __ATOMIC_RELEASE); }
    };

    static size_t slotHash(void* p) { return (size_t)mix64((uint64_t)p); }
    static void tabGrow()
    {
        size_t ncap = (g_tabUsed * 4 < g_tabCap && g_tabCap) ? g_tabCap : (g_tabCap ? g_tabCap * 2 : 1 << 14);
        Block* nt = (Block*)__real_calloc(ncap, sizeof(Block));
        if (!nt) abort();
        for (size_t i = 0; i < g_tabCap; i++)
            if (g_tab[i].p && g_tab[i].p != kTomb)
            {
                size_t j = slotHash(g_tab[i].p) & (ncap - 1);
                while (nt[j].p) j = (j + 1) & (ncap - 1);
                nt[j] = g_tab[i];
            }
        __real_free(g_tab);
        g_tab = nt;
        g_tabCap = ncap;
        g_tabTomb = 0;
    }
    static void tabAdd(void* p, size_t n, uint8_t kind, bool coil)
    {
        TabLock l;
        if ((g_tabUsed + g_tabTomb + 1) * 2 > g_tabCap) tabGrow();
        size_t j = slotHash(p) & (g_tabCap - 1);
        while (g_tab[j].p && g_tab[j].p != kTomb) j = (j + 1) & (g_tabCap - 1);
        if (g_tab[j].p == kTomb) g_tabTomb--;
        g_tab[j] = Block{p, n, coil && g_inRun ? g_runNo : 0, kind, coil ? ++g_blockSeq : 0};
        g_tabUsed++;
        if (g_tab[j].run) g_coilLive++;
    }
    // false: unknown
    static bool tabDel(void* p, Block& out)
    {
        TabLock l;
        if (!g_tabCap) return false;
        size_t j = slotHash(p) & (g_tabCap - 1);
        while (g_tab[j].p)
        {
            if (g_tab[j].p == p)
            {
                out = g_tab[j];
                g_tab[j].p = kTomb;
                g_tabUsed--;
                g_tabTomb++;
                if (out.run && out.run == g_runNo) g_coilLive--;
                return true;
            }
            j = (j + 1) & (g_tabCap - 1);
        }
        return false;
    }
    size_t coilLiveBlocks() { return g_coilLive; }
    size_t coilLiveBytes()
    {
        size_t bytes = 0;
        for (size_t i = 0; i < g_tabCap; i++)
            if (g_tab[i].p && g_tab[i].p != kTomb && g_tab[i].run == g_runNo) bytes += g_tab[i].size;
        return bytes;
    }
    std::string coilLiveReport()
    {
        std::string s;
        size_t n = 0, bytes = 0;
        uint32_t minSeq = ~0u; size_t minSize = 0;
        for (size_t i = 0; i < g_tabCap; i++)
            if (g_tab[i].p && g_tab[i].p != kTomb && g_tab[i].run == g_runNo)
            {
                n++;
                bytes += g_tab[i].size;
                if (g_tab[i].seq < minSeq) { minSeq = g_tab[i].seq; minSize = g_tab[i].size; }
            }
        char b[160];
        snprintf(b, sizeof b, "%zu blocks, %zu bytes, first: %u-th allocation of the run, %zu bytes", n, bytes, minSeq, minSize);
        return b;
    }

    // -------------------------------------------------------------- faults
    static bool inWindow(FaultWindow::Kind k, int op, uint64_t n)
    {
        for (auto const& f : g_faults)
            if (f.kind == k && f.op == op && n >= f.nth && n - f.nth < f.len)
                return true;
        return false;
    }

    static bool allocPoint(Task* t)
    {
        g_stats.allocs++;
        uint64_t n = t->opAllocs++;
        if (g_faultsOn && g_inRun && t->op >= 0 && !g_faults.empty() && inWindow(FaultWindow::Alloc, t->op, n))
        {
            t->allocFaultsFired++;
            g_stats.allocFaults++;
            if (g_trace) trace("  fault: allocation %llu of op %d fails\n", (unsigned long long)n, t->op);
            logEvent(0xFA11ull);
            return true;
        }
        return false;
    }

    static void* doNew(size_t n, uint8_t kind, bool nothrow)
    {
        Task* t = t_cur;
        bool coil = t && t->scope == Scope::Coil;
        if (coil)
        {
            bool fail = allocPoint(t);
            if (n > (1ull << 30))
                fail = true; // absurd request
            if (fail)
            {
                if (g_inRun) errno = ENOMEM;
                if (nothrow) return nullptr;
                throw InjectedBadAlloc{};
            }
        }
        void* p = __real_malloc(n ? n : 1);
        if (!p)
        {
            if (nothrow) return nullptr;
            throw std::bad_alloc{};
        }
        if (coil)
        {
            memset(p, g_cfg.fill, n);
            if (g_inRun) errno = g_cfg.errnoNoise;
        }
        tabAdd(p, n, kind, coil);
        return p;
    }
    static void doDelete(void* p, uint8_t kind, size_t size, bool sized)
    {
        if (!p) return;
        Task* t = t_cur;
        bool coil = t && t->scope == Scope::Coil;
        Block b{};
        if (!tabDel(p, b))
        {
            if (coil) violation("heap:invalid-free", "memory which isn't a live block was freed");
            __real_free(p); // let the sanitizer speak
            return;
        }
        if (coil)
        {
            if (b.kind != kind)
                violation("heap:alloc-dealloc-mismatch", "block of %zu bytes allocated with %s freed with %s", b.size, b.kind == 2 ? "malloc" : b.kind ? "new[]" : "new", kind == 2 ? "free" : kind ? "delete[]" : "delete");
            if (sized && !kind && size != b.size)
                violation("heap:size-mismatch", "block of %zu bytes freed as %zu bytes", b.size, size);
        }
        __real_free(p);
        if (coil && g_inRun) errno = g_cfg.errnoNoise;
    }

    // -------------------------------------------------------------- run
    void runBegin(RunConfig const& cfg, std::vector<FaultWindow> faults)
    {
        g_cfg = cfg;
        g_faults = std::move(faults);
        g_faultsOn = true;
        g_runNo++;
        g_blockSeq = 0;
        g_coilLive = 0;
        g_totalSteps = g_capBase = 0;
        g_eventHash = 0x1234;
        g_ilHash = 0x77;
        g_measure.clear();
        for (auto& t : g_tasks)
        {
            t.steps = t.yields = 0;
            t.nextPreempt = t.nextCoop = 0;
            t.preempts.clear();
            t.coop.clear();
            t.op = -1;
            t.opAllocs = t.opFormats = 0;
            t.allocFaultsFired = t.formatFaultsFired = 0;
            t.noPreempt = 0;
            t.blockedOn = nullptr;
            t.done = true;
        }
        g_inRun = true;
    }
    void runEnd() { g_inRun = false; g_faults.clear(); }
    void setFaultsEnabled(bool on) { g_faultsOn = on; }
    void warmupDone() {}

    void opBegin(int op)
    {
        Task* t = t_cur;
        capRestart();
        t->op = op;
        t->opAllocs = t->opFormats = 0;
        g_measure.push_back(OpMeasure{op, t->id, 0, 0, t->steps, t->steps, t->yields, t->yields});
        errno = g_cfg.errnoNoise;
    }
    void capRestart() { g_capBase = g_totalSteps; }
    void opRestart(uint64_t offset)
    {
        capRestart();
        t_cur->opAllocs = offset;
        t_cur->opFormats = 0;
        errno = g_cfg.errnoNoise;
    }
    void opEnd()
    {
        Task* t = t_cur;
        for (size_t i = g_measure.size(); i-- > 0;)
            if (g_measure[i].op == t->op && g_measure[i].task == t->id)
            {
                auto& m = g_measure[i];
                m.allocs = t->opAllocs;
                m.formats = t->opFormats;
                m.steps1 = t->steps;
                m.yields1 = t->yields;
                break;
            }
        t->op = -1;
    }

    // -------------------------------------------------------------- events
    void logEvent(uint64_t v) { g_eventHash = hashComb(g_eventHash, v); }
    void logEventStr(char const* s, size_t n)
    {
        uint64_t h = 1469598103934665603ull;
        for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
        g_eventHash = hashComb(g_eventHash, h + n);
    }
    uint64_t eventHash() { return g_eventHash; }
    uint64_t interleavingHash() { return g_ilHash; }

    void trace(char const* fmt, ...)
    {
        if (!g_trace) return;
        va_list a;
        va_start(a, fmt);
        fprintf(stderr, "[t%d] ", t_cur ? t_cur->id : -1);
        vfprintf(stderr, fmt, a);
        va_end(a);
    }

    // a sanitizer runtime can't turn this exit into one of its own
    void rawExit(int rc)
    {
        for (;;) syscall(SYS_exit_group, rc);
    }

    void violation(char const* cls, char const* fmt, ...)
    {
        char buf[1900];
        va_list a;
        va_start(a, fmt);
        vsnprintf(buf, sizeof buf, fmt, a);
        va_end(a);
        for (char* p = buf; *p; p++)
            if ((unsigned char)*p < 32 || (unsigned char)*p > 126) *p = '?';
        char line[2048];
        int n = snprintf(line, sizeof line, "SIMVIOLATION %s | %s | hash=%016llx\n", cls, buf, (unsigned long long)g_eventHash);
        if (g_progress) memcpy(g_progress->detail, line, (size_t)n + 1);
        if (write(1, line, (size_t)n) < 0) {}
        rawExit(99);
    }

    // -------------------------------------------------------------- scheduler
    static long rawFutex(uint32_t* a, int op, uint32_t v)
    {
        long r;
        register long r10 __asm__("r10") = 0;
        register long r8 __asm__("r8") = 0;
        register long r9 __asm__("r9") = 0;
        __asm__ volatile("syscall" : "=a"(r) : "a"((long)SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }
    static void batonWait(Task& t)
    {
        while (__atomic_load_n(&t.baton, __ATOMIC_ACQUIRE) == 0)
            rawFutex(&t.baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
        __atomic_store_n(&t.baton, 0, __ATOMIC_RELAXED);
    }
    static void batonGive(Task& t)
    {
        __atomic_store_n(&t.baton, 1, __ATOMIC_RELEASE);
        rawFutex(&t.baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
    }

    static void switchTo(Task* from, Task& to)
    {
        g_stats.switches++;
        g_ilHash = hashComb(g_ilHash, (uint64_t)from->id * 1000003 + from->steps * 31 + from->yields * 7 + (uint64_t)to.id);
        if (g_trace) trace("  switch to task %d at step %llu yield %llu\n", to.id, (unsigned long long)from->steps, (unsigned long long)from->yields);
        batonGive(to);
        batonWait(*from);
    }
    static bool runnable(int id) { return id >= 0 && id < kMaxTasks && g_tasks[id].active && !g_tasks[id].done; }

    static Task* pickOther(Task* t)
    {
        for (int k = 1; k < kMaxTasks; k++)
        {
            int id = (t->id + k) % kMaxTasks;
            if (id != 0 && id != t->id && runnable(id)) return &g_tasks[id];
        }
        return nullptr;
    }

    void coopYield()
    {
        Task* t = t_cur;
        uint64_t y = t->yields++;
        if (t->id == 0 || t->noPreempt) return;
        while (t->nextCoop < t->coop.size() && t->coop[t->nextCoop].step < y) t->nextCoop++;
        if (t->nextCoop < t->coop.size() && t->coop[t->nextCoop].step == y)
        {
            int target = t->coop[t->nextCoop++].target;
            if (target != t->id && runnable(target))
            {
                g_stats.coopSwitches++;
                switchTo(t, g_tasks[target]);
            }
        }
    }

    static void (*g_fn)(Task&) = nullptr;
    static char g_sync;

    static void* taskMain(void* arg)
    {
        Task& t = *(Task*)arg;
        t_cur = &t;
        t.scope = Scope::None;
#ifdef SIM_WITH_TSAN
        __tsan_ignore_thread_begin();
#endif
        for (;;)
        {
            batonWait(t);
#ifdef SIM_WITH_TSAN
            __tsan_ignore_thread_end();
            __tsan_acquire(&g_sync);
            __tsan_ignore_thread_begin();
#endif
            g_fn(t);
            t.done = true;
#ifdef SIM_WITH_TSAN
            __tsan_ignore_thread_end();
            __tsan_release(&g_sync);
            __tsan_ignore_thread_begin();
#endif
            g_ilHash = hashComb(g_ilHash, 0xd09e + (uint64_t)t.id);
            Task* next = pickOther(&t);
            batonGive(next ? *next : g_tasks[0]);
        }
        return nullptr;
    }

    void runTasks(int n, void (*fn)(Task&))
    {
        if (n <= 0) return;
        g_fn = fn;
        for (int i = 1; i <= n; i++)
        {
            Task& t = g_tasks[i];
            t.done = false;
            if (!t.active)
            {
                t.active = true;
                t.id = i;
                pthread_t th;
                pthread_attr_t at;
                pthread_attr_init(&at);
                pthread_attr_setstacksize(&at, 8 << 20);
                if (pthread_create(&th, &at, taskMain, &t)) { perror("pthread_create"); _exit(2); }
            }
        }
#ifdef SIM_WITH_TSAN
        __tsan_ignore_thread_end();
        __tsan_release(&g_sync);
        __tsan_ignore_thread_begin();
#endif
        g_runningTasks = n;
        Task& m = g_tasks[0];
        batonGive(g_tasks[1]);
        batonWait(m);
        g_runningTasks = 0;
#ifdef SIM_WITH_TSAN
        __tsan_ignore_thread_end();
        __tsan_acquire(&g_sync);
        __tsan_ignore_thread_begin();
#endif
    }

    // called at every basic block and memory access of the library
    static inline __attribute__((always_inline)) void stepPoint()
    {
        Task* t = t_cur;
        if (!t || t->scope != Scope::Coil || !g_inRun) return;
        uint64_t s = t->steps++;
        if (++g_totalSteps - g_capBase > g_cfg.stepCap)
            violation("stuck", "no end after %llu steps in library code (op %d)", (unsigned long long)g_cfg.stepCap, t->op);
        if (t->nextPreempt < t->preempts.size() && t->preempts[t->nextPreempt].step <= s && !t->noPreempt)
        {
            int target = t->preempts[t->nextPreempt++].target;
            if (t->id != 0 && target != t->id && runnable(target))
            {
                g_stats.preemptions++;
                int e = errno;
                switchTo(t, g_tasks[target]);
                errno = e;
            }
        }
    }

    uint64_t totalStepsRun() { return g_totalSteps; }

    void coreInit()
    {
        g_tasks[0].id = 0;
        g_tasks[0].active = false; // never scheduled by others, except at the end
        t_cur = &g_tasks[0];
#ifdef SIM_WITH_TSAN
        __tsan_ignore_thread_begin();
#endif
    }

    // returns true if the wait should be retried
    static bool blockOn()
    {
        Task* t = t_cur;
        if (!t || t->id == 0) return false;
        Task* o = pickOther(t);
        if (!o) return false;
        t->noPreempt++;
        switchTo(t, *o);
        t->noPreempt--;
        return true;
    }
}

namespace sim
{
    static bool inCoil() { return t_cur && t_cur->scope == Scope::Coil && g_inRun; }
    // C allocation functions, should the library ever use them
    void* cMalloc(size_t n, bool zero)
    {
        if (allocPoint(t_cur) || n > (1ull << 30))
        {
            errno = ENOMEM;
            return nullptr;
        }
        void* p = __real_malloc(n ? n : 1);
        if (!p) return p;
        memset(p, zero ? 0 : g_cfg.fill, n);
        tabAdd(p, n, 2, true);
        errno = g_cfg.errnoNoise;
        return p;
    }
    void* cRealloc(void* old, size_t n)
    {
        Block b{};
        if (old && !tabDel(old, b))
            violation("heap:invalid-free", "realloc of memory which isn't a live block");
        if (old && b.kind != 2)
            violation("heap:alloc-dealloc-mismatch", "realloc of a block allocated with new");
        if (old) tabAdd(old, b.size, 2, true);
        void* p = cMalloc(n, false);
        if (!p) return p;
        if (old)
        {
            memcpy(p, old, b.size < n ? b.size : n);
            doDelete(old, 2, 0, false);
        }
        return p;
    }
}

using namespace sim;

// ------------------------------------------------------------------ compiler-inserted points
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    static uint32_t n = 0;
    if (start == stop || *start) return;
    for (uint32_t* x = start; x < stop; x++) *x = ++n;
}
uint64_t g_simEdgeTotal = 0;
void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
    uint32_t g = *guard;
    if (g && !(g & 0x80000000u))
    {
        // first time this edge is reached in the process
        if (t_cur && t_cur->scope == Scope::Coil)
        {
            *guard = g | 0x80000000u;
            g_stats.edges++;
        }
    }
    stepPoint();
}
void __sanitizer_cov_trace_pc(void) { stepPoint(); }
#define SIM_ACC(n) \
    void __sanitizer_cov_load##n(void*) { stepPoint(); } \
    void __sanitizer_cov_store##n(void*) { stepPoint(); }
SIM_ACC(1) SIM_ACC(2) SIM_ACC(4) SIM_ACC(8) SIM_ACC(16)

// ------------------------------------------------------------------ formatting seam
int __real_vsnprintf(char*, size_t, char const*, va_list);
static bool formatPoint()
{
    Task* t = t_cur;
    if (!t || t->scope != Scope::Coil || !g_inRun) return false;
    g_stats.formats++;
    uint64_t n = t->opFormats++;
    if (g_faultsOn && t->op >= 0 && !g_faults.empty() && inWindow(FaultWindow::Format, t->op, n))
    {
        t->formatFaultsFired++;
        g_stats.formatFaults++;
        if (g_trace) trace("  fault: formatting call %llu of op %d fails\n", (unsigned long long)n, t->op);
        logEvent(0xF0F0ull);
        errno = EILSEQ;
        return true;
    }
    return false;
}
int __wrap_vsnprintf(char* b, size_t n, char const* f, va_list a)
{
    if (formatPoint()) return -1;
    return __real_vsnprintf(b, n, f, a);
}
int __wrap_snprintf(char* b, size_t n, char const* f, ...)
{
    if (formatPoint()) return -1;
    va_list a;
    va_start(a, f);
    int r = __real_vsnprintf(b, n, f, a);
    va_end(a);
    return r;
}
int __real_vsprintf(char*, char const*, va_list);
int __wrap_vsprintf(char* b, char const* f, va_list a)
{
    if (formatPoint()) return -1;
    return __real_vsprintf(b, f, a);
}

// ------------------------------------------------------------------ blocking primitives a task may not block in
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g)
{
    int r = __real___cxa_guard_acquire(g);
    if (r && t_cur) t_cur->noPreempt++;
    return r;
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    if (t_cur) t_cur->noPreempt--;
    __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(uint64_t* g)
{
    if (t_cur) t_cur->noPreempt--;
    __real___cxa_guard_abort(g);
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    Task* t = t_cur;
    if (!t || t->scope != Scope::Coil || t->id == 0) return __real_pthread_mutex_lock(m);
    for (;;)
    {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        if (!blockOn()) violation("stuck", "a call waits for a lock nobody will release (op %d)", t->op);
    }
}
}

// ------------------------------------------------------------------ allocator seam
extern "C" {
void* __wrap_malloc(size_t n) { return inCoil() ? cMalloc(n, false) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return inCoil() ? cMalloc(a * b, true) : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return inCoil() ? cRealloc(p, n) : __real_realloc(p, n); }
void __wrap_free(void* p)
{
    if (inCoil()) doDelete(p, 2, 0, false);
    else __real_free(p);
}
}
void* operator new(size_t n) { return doNew(n, 0, false); }
void* operator new[](size_t n) { return doNew(n, 1, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return doNew(n, 0, true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return doNew(n, 1, true); }
void operator delete(void* p) noexcept { doDelete(p, 0, 0, false); }
void operator delete[](void* p) noexcept { doDelete(p, 1, 0, false); }
void operator delete(void* p, size_t n) noexcept { doDelete(p, 0, n, true); }
void operator delete[](void* p, size_t n) noexcept { doDelete(p, 1, n, true); }
void operator delete(void* p, std::nothrow_t const&) noexcept { doDelete(p, 0, 0, false); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { doDelete(p, 1, 0, false); }
