// Deterministic simulation core: PRNG, scopes, allocator and formatting seams, scheduler, event log.
// Nothing in this file depends on coil.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>

namespace sim
{
    // ---------------------------------------------------------------- PRNG
    inline uint64_t mix64(uint64_t z)
    {
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(mix64(seed + 0x9e3779b97f4a7c15ull)) {}
        uint64_t next() { return mix64(s += 0x9e3779b97f4a7c15ull); }
        // [0, n)
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        // [a, b]
        int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
        bool chance(int percent) { return (int)below(100) < percent; }
        template<typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    };
    uint64_t hashStr(char const* s);
    inline uint64_t hashComb(uint64_t h, uint64_t v) { return mix64(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))); }

    // ---------------------------------------------------------------- scopes
    enum class Scope : uint8_t { None, Coil, User };

    struct InjectedBadAlloc : std::bad_alloc
    {
    };

    struct Preempt
    {
        uint64_t step;
        int target;
    };

    struct FaultWindow
    {
        enum Kind : uint8_t { Alloc, Format } kind;
        int op;
        uint64_t nth;
        uint64_t len;
    };

    // per simulated thread
    struct Task
    {
        int id = 0;
        Scope scope = Scope::None;
        int noPreempt = 0;
        uint64_t steps = 0;          // local steps in library code
        uint64_t yields = 0;         // local cooperative yield index
        size_t nextPreempt = 0;
        std::vector<Preempt> preempts;
        std::vector<Preempt> coop;   // (yield index, target)
        size_t nextCoop = 0;
        bool done = true;
        bool active = false;
        // current operation
        int op = -1;
        uint64_t opAllocs = 0;
        uint64_t opFormats = 0;
        uint64_t allocFaultsFired = 0; // monotonically increasing within a run
        uint64_t formatFaultsFired = 0;
        uint32_t baton = 0;
        void* blockedOn = nullptr;
        void* user = nullptr;
    };

    constexpr int kMaxTasks = 5; // 0 is the main thread (also the single client), 1..4 the others

    struct Stats
    {
        uint64_t allocs = 0, allocFaults = 0, formats = 0, formatFaults = 0;
        uint64_t steps = 0, switches = 0, preemptions = 0, coopSwitches = 0;
        uint64_t edges = 0;
    };

    struct OpMeasure
    {
        int op;
        int task;
        uint64_t allocs, formats, steps0, steps1, yields0, yields1;
    };

    struct RunConfig
    {
        uint8_t fill = 0xA5;
        int errnoNoise = 34;
        uint64_t stepCap = 40000000;
        bool faultsEnabled = true;
    };

    extern thread_local Task* t_cur;
    extern Stats g_stats;
    extern RunConfig g_cfg;
    extern std::vector<OpMeasure> g_measure;

    Task* cur();
    Task& taskRef(int id);

    struct ScopeGuard
    {
        Scope prev;
        explicit ScopeGuard(Scope s);
        ~ScopeGuard();
    };
    struct CoilScope : ScopeGuard { CoilScope() : ScopeGuard(Scope::Coil) {} };
    struct UserScope : ScopeGuard { UserScope() : ScopeGuard(Scope::User) {} };

    // ---------------------------------------------------------------- run lifecycle
    void runBegin(RunConfig const& cfg, std::vector<FaultWindow> faults);
    void runEnd();
    void opBegin(int op);
    void capRestart(); // the limit for calls which don't end counts from here
    void opRestart(uint64_t offset); // the same operation once more: its faults strike again
    void opEnd();
    void setFaultsEnabled(bool on);

    size_t coilLiveBlocks(); // blocks allocated in Coil scope in this run and not freed yet
    size_t coilLiveBytes();
    std::string coilLiveReport();

    // ---------------------------------------------------------------- scheduling
    // run fn(task) on tasks [1..n] (or, n == 0, nothing)
    void runTasks(int n, void (*fn)(Task&));
    void coopYield(); // called from user code
    uint64_t interleavingHash();
    uint64_t totalStepsRun();

    // ---------------------------------------------------------------- log & violations
    void logEvent(uint64_t v);
    void logEventStr(char const* s, size_t n);
    inline void logEvent(std::string const& s) { logEventStr(s.data(), s.size()); }
    uint64_t eventHash();
    extern bool g_trace;
    void trace(char const* fmt, ...) __attribute__((format(printf, 1, 2)));

    [[noreturn]] void rawExit(int rc);
    [[noreturn]] void violation(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));

    // shared progress block, survives crashes
    struct Progress
    {
        uint64_t magic;
        uint64_t run, variant;
        uint64_t completed; // simulated runs
        uint64_t planLen;
        char detail[2048]; // last violation text
        char plan[1 << 20];
    };
    extern Progress* g_progress;

    void coreInit();
    void warmupDone(); // process-lifetime allocations made so far are not leaks
}
