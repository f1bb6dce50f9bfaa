#pragma once
#include "plan.h"
#include "core.h"
#include <map>
#include <string>

namespace sim
{
    extern std::map<std::string, uint64_t> g_count; // probes and fault counters
    inline void count(char const* k, uint64_t n = 1) { g_count[k] += n; }

    // executes a plan; returns false if memory is still held at the end (see leak handling in main.cpp)
    bool runWorld1(Plan const& p);
    bool runWorld2(Plan const& p);
    void warmupWorld1();

    Plan genWorld1(std::string const& prop, uint64_t seed, uint64_t index, bool thorough);
    Plan genWorld2(std::string const& prop, uint64_t seed, uint64_t index, bool thorough);
}
