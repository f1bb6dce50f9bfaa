// A plan is one complete, replayable simulated run in text form, one item per line.
#pragma once
#include <cstdint>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace sim
{
    struct Line
    {
        std::vector<std::string> w; // words, escaped
    };
    struct Plan
    {
        std::vector<std::string> raw; // all lines in order
        std::map<std::string, std::string> cfg;
        std::vector<std::vector<std::string>> ops;      // O <id> <task> <kind> ...
        std::map<int, std::vector<std::vector<std::string>>> scripts; // S <sid> <verb> ...
        struct F { char kind; int op; uint64_t nth, len; };
        std::vector<F> faults;
        struct Sw { int task; uint64_t at; int target; };
        std::vector<Sw> coop, preempt;

        static std::vector<std::string> words(std::string const& l)
        {
            std::vector<std::string> r;
            std::istringstream is(l);
            std::string w;
            while (is >> w) r.push_back(w);
            return r;
        }
        void addLine(std::string const& l)
        {
            auto w = words(l);
            if (w.empty() || w[0][0] == '#') return;
            raw.push_back(l);
            if (w[0] == "cfg")
            {
                for (size_t i = 1; i < w.size(); i++)
                {
                    auto e = w[i].find('=');
                    if (e != std::string::npos) cfg[w[i].substr(0, e)] = w[i].substr(e + 1);
                }
            }
            else if (w[0] == "O" && w.size() >= 4) ops.push_back(w);
            else if (w[0] == "S" && w.size() >= 3) scripts[atoi(w[1].c_str())].push_back(std::vector<std::string>(w.begin() + 2, w.end()));
            else if (w[0] == "F" && w.size() >= 5) faults.push_back({w[1][0], atoi(w[2].c_str()), strtoull(w[3].c_str(), nullptr, 10), strtoull(w[4].c_str(), nullptr, 10)});
            else if (w[0] == "Y" && w.size() >= 4) coop.push_back({atoi(w[1].c_str()), strtoull(w[2].c_str(), nullptr, 10), atoi(w[3].c_str())});
            else if (w[0] == "E" && w.size() >= 4) preempt.push_back({atoi(w[1].c_str()), strtoull(w[2].c_str(), nullptr, 10), atoi(w[3].c_str())});
        }
        static Plan parse(std::string const& text)
        {
            Plan p;
            std::istringstream is(text);
            std::string l;
            while (std::getline(is, l)) p.addLine(l);
            return p;
        }
        std::string str() const
        {
            std::string r;
            for (auto const& l : raw) r += l + "\n";
            return r;
        }
        std::string get(char const* k, char const* d = "") const
        {
            auto it = cfg.find(k);
            return it == cfg.end() ? d : it->second;
        }
        long geti(char const* k, long d = 0) const
        {
            auto it = cfg.find(k);
            return it == cfg.end() ? d : strtol(it->second.c_str(), nullptr, 10);
        }
    };
}
