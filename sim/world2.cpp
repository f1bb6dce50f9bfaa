// Drives the parts of world 2.
#include "world2.h"
#include <memory>

namespace sim
{
    using namespace w2;

    bool runWorld2(Plan const& p)
    {
        RunConfig cfg;
        cfg.fill = (uint8_t)p.geti("fill", 0xA5);
        cfg.errnoNoise = (int)p.geti("errno", 34);
        cfg.stepCap = (uint64_t)p.geti("cap", 30000000);
        std::vector<FaultWindow> fs;
        for (auto const& f : p.faults) fs.push_back({f.kind == 'f' ? FaultWindow::Format : FaultWindow::Alloc, f.op, f.nth, f.len});
        for (auto& x : s_liveCount) x = 0;
        runBegin(cfg, fs);
        s_hashMode = (int)p.geti("hash", 0);
        int keys = (int)p.geti("keys", 12);
        std::map<char, std::unique_ptr<Part>> parts;
        for (char c : p.get("use", "s"))
        {
            Part* q = makeSequence(c);
            if (!q) q = makeMap(c);
            if (!q) q = makeValue(c);
            if (!q) continue;
            q->setKeys(keys < 1 ? 1 : keys);
            parts[c].reset(q);
        }
        auto verify = [&] {
            setFaultsEnabled(false);
            long e[E_KINDS] = {};
            for (auto& x : parts)
            {
                x.second->checkAll();
                x.second->live(e);
            }
            for (int k = 0; k < E_KINDS; k++)
                if (e[k] != s_liveCount[k]) violation("lifetime:element", "%ld elements of kind %d are alive, expected %ld (op %d)", s_liveCount[k], k, e[k], t_cur->op);
            setFaultsEnabled(true);
        };
        for (auto& x : parts) x.second->init();
        verify();
        for (auto const& o : p.ops)
        {
            s_w = &o;
            // O <id> <task> <part><verb> args
            std::string k = o[3];
            if (g_trace) trace("op %s: %s\n", o[1].c_str(), k.c_str());
            opBegin(atoi(o[1].c_str()));
            s_stepBudget = 0;
            auto it = parts.find(k[0]);
            if (it != parts.end()) it->second->run(k.substr(1));
            opEnd();
            s_stepBudget = 0;
            verify();
        }
        for (auto& x : parts) x.second->destroy();
        for (int k = 0; k < E_KINDS; k++)
            if (s_liveCount[k]) violation("lifetime:element", "%ld elements of kind %d are alive after everything was destroyed", s_liveCount[k], k);
        parts.clear();
        bool clean = coilLiveBlocks() == 0;
        g_stats.steps += totalStepsRun();
        g_count["element_copies"] += s_copies;
        s_copies = 0;
        runEnd();
        return clean;
    }
}
