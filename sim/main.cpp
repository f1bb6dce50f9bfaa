// One simulator process: generates, executes and varies plans; or replays one.
#include "world.h"
#include <algorithm>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

// SIM_ONLY selects the worlds which are built in: 1 or 2
#if SIM_ONLY == 1
namespace sim
{
    bool runWorld2(Plan const&) { return true; }
    Plan genWorld2(std::string const&, uint64_t, uint64_t, bool) { return {}; }
}
#elif SIM_ONLY == 2
namespace sim
{
    bool runWorld1(Plan const&) { return true; }
    Plan genWorld1(std::string const&, uint64_t, uint64_t, bool) { return {}; }
    void warmupWorld1() {}
}
#endif
namespace sim
{
    std::map<std::string, uint64_t> g_count;
}

extern "C" uint64_t g_simEdgeTotal;

static uint64_t s_runs = 0, s_nontrivial = 0, s_bases = 0;
static std::unordered_set<uint64_t> s_distinct, s_interleavings;
static FILE* s_hashOut = nullptr;
static std::map<std::string, uint64_t> s_variantKinds;
static uint64_t s_stepsMax = 0;

static uint64_t disturbances()
{
    uint64_t n = g_stats.allocFaults + g_stats.formatFaults + g_stats.coopSwitches + g_stats.preemptions;
    static char const* const keys[] = {"throws", "registry_change_in_flight", "lexer_change_in_flight", "retained", "recycled", "format_failure_real", "nested_exec",
        "env_divergent_runs"};
    for (auto k : keys) n += g_count[k];
    for (auto it = g_count.lower_bound("damage."); it != g_count.end() && it->first.compare(0, 7, "damage.") == 0; ++it) n += it->second;
    return n;
}

static bool runOnce(Plan const& p)
{
    return p.geti("world", 1) == 2 ? runWorld2(p) : runWorld1(p);
}

static void execute(Plan const& p, uint64_t index, uint64_t variant)
{
    if (g_progress)
    {
        std::string s = p.str();
        if (s.size() >= sizeof g_progress->plan) s.resize(sizeof g_progress->plan - 1);
        memcpy(g_progress->plan, s.data(), s.size());
        g_progress->planLen = s.size();
        g_progress->run = index;
        g_progress->variant = variant;
    }
    uint64_t d0 = disturbances();
    uint64_t st0 = g_stats.steps;
    bool clean = runOnce(p);
    uint64_t h = eventHash();
    uint64_t il = interleavingHash();
    uint64_t live = coilLiveBlocks();
    if (!clean)
    {
        // process-lifetime state may have come to life; memory which is lost is lost again
        count("leak_rechecks");
        std::vector<OpMeasure> keep = g_measure;
        bool again = false;
        for (int k = 0; k < 32 && !again; k++) again = runOnce(p); // with a fault in it, one run may get only one step further
        if (!again && coilLiveBlocks() >= live) violation("heap:leak", "memory allocated by the library is still held after everything was destroyed: %s", coilLiveReport().c_str());
        g_measure = keep;
        h = eventHash();
    }
    if (p.geti("diff", 0))
    {
        std::vector<OpMeasure> keep = g_measure;
        static char const* const envs[][2] = {{"0", "0"}, {"255", "33"}, {"39", "12"}};
        for (auto const& e : envs)
        {
            Plan q = p;
            q.cfg["fill"] = e[0];
            q.cfg["errno"] = e[1];
            runOnce(q);
            count("env_divergent_runs");
            s_runs++;
            if (eventHash() != h) violation("env:divergence", "the same calls behave differently with memory filled with %s and errno %s than with %s and %s", e[0], e[1], p.get("fill").c_str(), p.get("errno").c_str());
        }
        g_measure = keep;
    }
    s_runs++;
    if (g_progress) g_progress->completed = s_runs;
    s_stepsMax = std::max(s_stepsMax, g_stats.steps - st0);
    uint64_t key = hashComb(h, il);
    if (il != 0x77) s_interleavings.insert(il);
    if (disturbances() != d0)
    {
        s_nontrivial++;
        s_distinct.insert(key);
    }
    if (s_hashOut) fprintf(s_hashOut, "%llu %llu %016llx %016llx\n", (unsigned long long)index, (unsigned long long)variant, (unsigned long long)h, (unsigned long long)il);
}

struct Mix
{
    int alloc = 0, format = 0, sched = 0, env = 0, exhaustive = 0; // variants per base plan; exhaustive: chance to walk through all allocations of one operation
};

static Mix mixFor(std::string const& prop)
{
    Mix m;
    if (prop == "C01") { m.sched = 14; }
    else if (prop == "C02") { m.sched = 3; m.alloc = 2; }
    else if (prop == "C03") { m.sched = 6; m.alloc = 1; }
    else if (prop == "C04") { m.alloc = 10; m.exhaustive = 30; }
    else if (prop == "C05") { m.alloc = 10; m.exhaustive = 30; m.format = 1; }
    else if (prop == "C06") { m.sched = 2; m.alloc = 3; }
    else if (prop == "C07") { m.sched = 2; m.alloc = 5; m.exhaustive = 10; }
    else if (prop == "C08") { m.sched = 2; m.alloc = 3; }
    else if (prop == "C09") { m.alloc = 1; }
    else if (prop == "C10") { m.alloc = 1; }
    else if (prop == "C11") { m.sched = 4; m.alloc = 3; }
    else if (prop == "C16") { m.format = 5; m.alloc = 2; m.env = 1; }
    else if (prop == "C17") { m.alloc = 4; m.format = 1; }
    else { m.alloc = 8; m.exhaustive = 25; }
    return m;
}

static void addAllocWindows(Plan& p, Rng& r, std::vector<OpMeasure> const& ms, bool heavy)
{
    std::vector<OpMeasure const*> el;
    for (auto const& m : ms)
        if (m.allocs && m.op > 0) el.push_back(&m);
    if (el.empty()) return;
    std::map<std::string, std::vector<OpMeasure const*>> kinds; // so that the kinds of operation a plan has few of get their share
    if (r.chance(25))
    {
        std::map<int, std::string> kindOf;
        for (auto const& o : p.ops) kindOf[atoi(o[1].c_str())] = o[3];
        for (auto const* m : el) kinds[kindOf[m->op]].push_back(m);
    }
    auto pick = [&]() -> OpMeasure const& {
        if (kinds.empty()) return *el[r.below(el.size())];
        auto it = kinds.begin();
        std::advance(it, (long)r.below(kinds.size()));
        return *it->second[r.below(it->second.size())];
    };
    int n = heavy ? r.range(2, 8) : r.chance(70) ? 1 : r.range(2, 3);
    for (int i = 0; i < n; i++)
    {
        OpMeasure const& m = pick();
        uint64_t nth = r.chance(15) && m.allocs > 1 ? m.allocs - 1 - r.below(std::min<uint64_t>(m.allocs, 3)) : r.below(m.allocs);
        uint64_t len = r.chance(65) ? 1 : r.chance(50) ? 2 + r.below(3) : 1000000;
        p.addLine("F a " + std::to_string(m.op) + " " + std::to_string(nth) + " " + std::to_string(len));
    }
}

static void addFormatWindows(Plan& p, Rng& r, std::vector<OpMeasure> const& ms)
{
    std::vector<OpMeasure const*> el;
    for (auto const& m : ms)
        if (m.formats && m.op > 0) el.push_back(&m);
    if (el.empty()) return;
    int n = r.chance(60) ? 1 : r.range(2, 3);
    for (int i = 0; i < n; i++)
    {
        OpMeasure const& m = *el[r.below(el.size())];
        p.addLine("F f " + std::to_string(m.op) + " " + std::to_string(r.below(m.formats)) + " " + std::to_string(r.chance(65) ? 1 : r.chance(50) ? 2 : 1000000));
    }
}

static void addSchedule(Plan& p, Rng& r, std::vector<OpMeasure> const& ms)
{
    int tasks = (int)p.geti("tasks", 0);
    if (tasks < 2) return;
    if (p.get("mode") == "preempt")
    {
        std::vector<OpMeasure const*> el;
        for (auto const& m : ms)
            if (m.task > 0 && m.steps1 > m.steps0) el.push_back(&m);
        if (!el.empty())
        {
            int n = r.chance(60) ? r.range(1, 5) : r.chance(70) ? r.range(6, 20) : r.range(21, 120);
            for (int i = 0; i < n; i++)
            {
                OpMeasure const& m = *el[r.below(el.size())];
                uint64_t at = m.steps0 + r.below(m.steps1 - m.steps0);
                p.addLine("E " + std::to_string(m.task) + " " + std::to_string(at) + " " + std::to_string(r.range(1, tasks)));
            }
        }
    }
    std::map<int, uint64_t> ys;
    for (auto const& m : ms)
        if (m.task > 0) ys[m.task] = std::max(ys[m.task], m.yields1 + 1);
    if (ys.empty()) return;
    int n = r.chance(60) ? r.range(1, 5) : r.range(6, 25);
    for (int i = 0; i < n; i++)
    {
        auto it = ys.begin();
        std::advance(it, (long)r.below(ys.size()));
        p.addLine("Y " + std::to_string(it->first) + " " + std::to_string(r.below(it->second)) + " " + std::to_string(r.range(1, tasks)));
    }
}

static Plan generate(std::string const& prop, uint64_t seed, uint64_t index, bool thorough)
{
    bool two = prop == "C12" || prop == "C13" || prop == "C14" || prop == "C15";
    return two ? genWorld2(prop, seed, index, thorough) : genWorld1(prop, seed, index, thorough);
}

static void runIndex(std::string const& prop, uint64_t seed, uint64_t index, bool thorough)
{
    Plan base = generate(prop, seed, index, thorough);
    Mix mix = mixFor(prop);
    if (mix.env) base.addLine("cfg diff=1");
    s_bases++;
    Rng r(hashComb(hashComb(seed, index * 2 + 1), hashStr(prop.c_str()) + 99));
    uint64_t v = 0;
    execute(base, index, v++);
    std::vector<OpMeasure> ms = g_measure;
    int scale = thorough ? 2 : 1;
    int tasks = (int)base.geti("tasks", 0);
    std::vector<Plan> scheds;
    if (tasks >= 2)
        for (int i = 0; i < mix.sched * scale; i++)
        {
            Plan q = base;
            addSchedule(q, r, ms);
            execute(q, index, v++);
            s_variantKinds["schedule"]++;
            if (scheds.size() < 4) scheds.push_back(q);
        }
    for (int i = 0; i < mix.alloc * scale; i++)
    {
        Plan q = !scheds.empty() && r.chance(50) ? r.pick(scheds) : base;
        addAllocWindows(q, r, ms, prop == "C17");
        if (prop == "C17" && r.chance(30)) addFormatWindows(q, r, ms);
        execute(q, index, v++);
        s_variantKinds["alloc"]++;
    }
    for (int i = 0; i < mix.format * scale; i++)
    {
        Plan q = base;
        addFormatWindows(q, r, ms);
        if (r.chance(15)) addAllocWindows(q, r, ms, false);
        execute(q, index, v++);
        s_variantKinds["format"]++;
    }
    if (mix.exhaustive && r.chance(mix.exhaustive))
    {
        std::vector<OpMeasure> el;
        for (auto const& m : ms)
            if (m.allocs && m.op > 0) el.push_back(m);
        if (!el.empty())
        {
            OpMeasure m = r.pick(el);
            if (r.chance(25))
            {
                std::map<int, std::string> kindOf;
                for (auto const& o : base.ops) kindOf[atoi(o[1].c_str())] = o[3];
                std::map<std::string, std::vector<OpMeasure>> kinds;
                for (auto const& e : el) kinds[kindOf[e.op]].push_back(e);
                auto it = kinds.begin();
                std::advance(it, (long)r.below(kinds.size()));
                m = r.pick(it->second);
            }
            for (uint64_t n = 0; n < m.allocs && n < 40; n++)
            {
                Plan q = base;
                q.addLine("F a " + std::to_string(m.op) + " " + std::to_string(n) + " 1");
                execute(q, index, v++);
                s_variantKinds["alloc_walk"]++;
            }
        }
    }
}

// Runs in processes in which the library hasn't done anything yet: what comes to life at its first use does so in the middle of a
// simulated run, with its schedules and faults.
struct ColdResult
{
    uint64_t hash, il, n, nontrivial;
    Stats stats;
    OpMeasure m[2048];
};
static ColdResult* s_cold = nullptr;

static void executeCold(Plan const& p, uint64_t index, uint64_t variant)
{
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        s_hashOut = nullptr;
        uint64_t const completed = g_progress ? g_progress->completed : 0;
        uint64_t d0 = disturbances();
        g_stats = Stats{};
        execute(p, index, variant);
        if (g_progress) g_progress->completed = completed + 1;
        s_cold->hash = eventHash();
        s_cold->il = interleavingHash();
        s_cold->n = std::min<size_t>(g_measure.size(), sizeof s_cold->m / sizeof *s_cold->m);
        for (size_t i = 0; i < s_cold->n; i++) s_cold->m[i] = g_measure[i];
        s_cold->stats = g_stats;
        s_cold->nontrivial = disturbances() != d0;
        rawExit(0);
    }
    int st = 0;
    if (pid < 0 || waitpid(pid, &st, 0) != pid) { fprintf(stderr, "fork failed\n"); rawExit(2); }
    if (WIFSIGNALED(st)) rawExit(128 + WTERMSIG(st));
    if (WEXITSTATUS(st)) rawExit(WEXITSTATUS(st));
    s_runs++;
    count("cold_runs");
    Stats const& a = s_cold->stats;
    g_stats.allocs += a.allocs; g_stats.allocFaults += a.allocFaults; g_stats.formats += a.formats; g_stats.formatFaults += a.formatFaults;
    g_stats.steps += a.steps; g_stats.switches += a.switches; g_stats.preemptions += a.preemptions; g_stats.coopSwitches += a.coopSwitches;
    if (s_cold->il != 0x77) s_interleavings.insert(s_cold->il);
    if (s_cold->nontrivial) { s_nontrivial++; s_distinct.insert(hashComb(s_cold->hash, s_cold->il) ^ 0xc01d); }
    if (s_hashOut) fprintf(s_hashOut, "%llu %llu %016llx %016llx\n", (unsigned long long)index, (unsigned long long)variant, (unsigned long long)s_cold->hash, (unsigned long long)s_cold->il);
}

static void runIndexCold(std::string const& prop, uint64_t seed, uint64_t index)
{
    index += 5000000;
    Plan base = generate(prop, seed, index, false);
    base.addLine("cfg cold=1");
    Mix mix = mixFor(prop);
    s_bases++;
    Rng r(hashComb(hashComb(seed, index * 2 + 1), hashStr(prop.c_str()) + 7));
    uint64_t v = 0;
    executeCold(base, index, v++);
    std::vector<OpMeasure> ms(s_cold->m, s_cold->m + s_cold->n);
    for (int i = 0; i < std::min(mix.sched, 4) && base.geti("tasks", 0) >= 2; i++)
    {
        Plan q = base;
        addSchedule(q, r, ms);
        executeCold(q, index, v++);
    }
    for (int i = 0; i < std::min(mix.alloc, 3); i++)
    {
        Plan q = base;
        addAllocWindows(q, r, ms, false);
        executeCold(q, index, v++);
    }
    for (int i = 0; i < std::min(mix.format, 1); i++)
    {
        Plan q = base;
        addFormatWindows(q, r, ms);
        executeCold(q, index, v++);
    }
}

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

static void printStats()
{
    std::string s = "{";
    auto add = [&](char const* k, uint64_t v) { s += (s.size() > 1 ? "," : "") + std::string("\"") + k + "\":" + std::to_string(v); };
    add("runs", s_runs);
    add("bases", s_bases);
    add("nontrivial", s_nontrivial);
    add("steps", g_stats.steps);
    add("steps_max_run", s_stepsMax);
    add("allocs", g_stats.allocs);
    add("alloc_faults", g_stats.allocFaults);
    add("formats", g_stats.formats);
    add("format_faults", g_stats.formatFaults);
    add("switches", g_stats.switches);
    add("preemptions", g_stats.preemptions);
    add("coop_switches", g_stats.coopSwitches);
    add("edges", g_stats.edges);
    add("interleavings", s_interleavings.size());
    s += ",\"count\":{";
    bool first = true;
    for (auto const& kv : g_count) { s += (first ? "" : ",") + std::string("\"") + kv.first + "\":" + std::to_string(kv.second); first = false; }
    for (auto const& kv : s_variantKinds) { s += (first ? "" : ",") + std::string("\"variants_") + kv.first + "\":" + std::to_string(kv.second); first = false; }
    s += "}}";
    printf("SIMSTATS %s\n", s.c_str());
}

static int finish(int rc)
{
    fflush(stdout);
    fflush(stderr);
    sim::rawExit(rc);
}

int main(int argc, char** argv)
{
    coreInit();
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> opt;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++)
    {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0)
        {
            auto e = a.find('=');
            if (e == std::string::npos) opt[a.substr(2)] = "1";
            else opt[a.substr(2, e - 2)] = a.substr(e + 1);
        }
        else pos.push_back(a);
    }
    auto geti = [&](char const* k, uint64_t d) { return opt.count(k) ? strtoull(opt[k].c_str(), nullptr, 10) : d; };
    std::string prop = opt["prop"];
    bool thorough = opt.count("thorough");
    uint64_t seed = geti("seed", 1);

    if (opt.count("progress"))
    {
        int fd = open(opt["progress"].c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Progress))) { perror("progress"); return 2; }
        void* m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { perror("mmap"); return 2; }
        g_progress = (Progress*)m;
        g_progress->magic = 0x51;
    }

    if (mode == "gen")
    {
        std::cout << generate(prop, seed, geti("index", 0), thorough).str();
        return finish(0);
    }
    if (mode == "replay")
    {
        std::ifstream f(pos.empty() ? "/dev/stdin" : pos[0]);
        std::string text((std::istreambuf_iterator<char>(f)), {});
        Plan p = Plan::parse(text);
        g_trace = false;
        if (!p.geti("cold", 0)) warmupWorld1();
        g_stats = Stats{};
        g_count.clear();
        g_trace = opt.count("trace");
        execute(p, 0, 0);
        printf("SIMCLEAN hash=%016llx\n", (unsigned long long)eventHash());
        if (opt.count("stats")) printStats();
        return finish(0);
    }
    if (mode == "run")
    {
        uint64_t from = geti("from", 0), to = geti("to", 100), stride = geti("stride", 1);
        double deadline = now() + (double)geti("deadline", 100000);
        if (opt.count("hashes")) s_hashOut = fopen(opt["hashes"].c_str(), "w");
        if (uint64_t const cold = geti("cold", 0))
        {
            s_cold = (ColdResult*)mmap(nullptr, sizeof(ColdResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (s_cold == MAP_FAILED) { perror("mmap"); return finish(2); }
            for (uint64_t i = from; i < cold && now() < deadline; i += stride) runIndexCold(prop, seed, i);
        }
        Stats const coldStats = g_stats;
        std::map<std::string, uint64_t> const coldCount = g_count;
        if (g_progress) { strcpy(g_progress->plan, "cfg world=1 warmup=1\n"); g_progress->planLen = strlen(g_progress->plan); }
        warmupWorld1();
        g_stats = coldStats;
        g_count = coldCount;
        uint64_t i = from;
        for (; i < to && now() < deadline; i += stride) runIndex(prop, seed, i, thorough);
        if (s_hashOut) fclose(s_hashOut);
        if (opt.count("keys"))
        {
            FILE* f = fopen(opt["keys"].c_str(), "w");
            std::vector<uint64_t> ks(s_distinct.begin(), s_distinct.end());
            if (f) { if (!ks.empty()) fwrite(ks.data(), 8, ks.size(), f); fclose(f); }
        }
        printStats();
        return finish(0);
    }
    fprintf(stderr, "usage: sim run|replay|gen ...\n");
    return 2;
}
