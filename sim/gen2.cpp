// Generator of plans for world 2.
#include "world.h"
#include "model.h"

namespace sim
{
    Plan genWorld2(std::string const& prop, uint64_t seed, uint64_t index, bool thorough)
    {
        Rng r(hashComb(hashComb(seed, index), hashStr(prop.c_str())));
        std::string out;
        auto str = [&] {
            std::string s;
            int n = r.chance(60) ? r.range(0, 12) : r.range(0, r.chance(20) ? 400 : 60);
            for (int i = 0; i < n; i++) s += r.chance(85) ? (char)('a' + r.below(26)) : (char)r.below(256);
            return esc(s);
        };
        auto num = [&](int a, int b) { return std::to_string(r.range(a, b)); };
        int id = 1;
        auto add = [&](std::string const& s) { out += "O " + std::to_string(id++) + " 0 " + s + "\n"; };
        int n = r.chance(50) ? r.range(2, 12) : r.range(8, thorough ? 120 : 50);
        std::string use;
        std::string parts = prop == "C12" ? "s" : prop == "C13" ? "iemctn" : prop == "C14" ? "EMSKN" : "opqrxyzwu";
        if (prop == "C12") use = "s";
        else
        {
            int k = r.range(1, 3);
            for (int i = 0; i < k; i++)
            {
                char c = parts[r.below(parts.size())];
                if (use.find(c) == std::string::npos) use += c;
            }
        }
        int keys = r.chance(50) ? r.range(2, 6) : r.range(7, 40);
        int hash = r.range(0, 5);
        int slots = r.range(1, 3);
        int delBias = r.range(0, 60); // swarm
        int copyBias = r.range(0, 40);
        int growBias = r.range(10, 60);
        auto sl = [&] { return std::to_string(r.below((uint64_t)slots)); };
        auto sl2 = [&] { return std::to_string(r.below((uint64_t)slots + 1) % 3); };
        bool huge = r.chance(10);
        // a few very large containers: counters and indices have to be wide enough
        int const big = r.chance(2) ? (r.chance(70) ? r.range(250, 700) : r.chance(70) ? r.range(700, 3000) : r.range(66000, 72000)) : 0;
        if (big)
        {
            n = std::min(n, big > 5000 ? 4 : 12);
            keys = prop == "C14" ? std::max(keys, big) : keys;
            if (big > 700 && hash != 0 && hash != 4 && hash != 5) hash = 4;
            if (big > 5000 && r.chance(60)) hash = 6; // chains of a few
            if (big > 5000) use = prop == "C14" ? "E" : prop == "C13" ? "i" : use;
        }
        for (int i = 0; i < n; i++)
        {
            char c = use[r.below(use.size())];
            std::string C(1, c);
            if (big && (i == 0 || r.chance(big > 5000 ? 40 : 12)))
            {
                if (c == 's') { add("ssbig " + num(0, 3) + " " + std::to_string(big) + " " + num(0, 1)); continue; }
                if (std::string("iemctn").find(c) != std::string::npos) { add(C + "bulk " + sl() + " " + std::to_string(big)); continue; }
                if (std::string("EMSKN").find(c) != std::string::npos)
                {
                    if (i == 0 || r.chance(50)) add(C + "bput " + sl() + " " + (big > 5000 ? "0" : num(0, keys - 1)) + " " + std::to_string(big > 5000 ? big : r.range(big / 2, big)) + " " + (big > 5000 ? "1" : num(1, 3)));
                    else add(C + "bdel " + sl() + " " + (big > 5000 && r.chance(60) ? num(keys * 9 / 10, keys - 1) : num(0, keys - 1)) + " " + std::to_string(r.range(big / 4, big)) + " " + num(1, 3));
                    continue;
                }
            }
            if (c == 's')
            {
                std::string d = num(0, 3), s = num(0, 3);
                switch (r.range(0, 22))
                {
                case 0: case 1: add("ssnew " + d + " " + str()); break;
                case 2: add("ssnewz " + d + " " + str()); break;
                case 3: add("ssnewv " + d + " " + str()); break;
                case 4: add("sscopy " + d + " " + s); break;
                case 5: add("ssmctor " + d + " " + s); break;
                case 6: add("ssassign " + d + " " + s); break;
                case 7: add("ssmassign " + d + " " + s); break;
                case 8: case 9: add("ssapp " + d + " " + str()); break;
                case 10: add("ssappz " + d + " " + str()); break;
                case 11: add("ssappc " + d + " " + num(-128, 127)); break;
                case 12: add("ssapps " + d + " " + (r.chance(30) ? d : s)); break;
                case 13: case 14: case 15: add("ssappv " + d + " " + (r.chance(50) ? d : s) + " " + num(0, 500) + " " + num(0, 500) + " " + num(0, 2)); break;
                case 16: add("sssown " + d + " " + num(0, 500)); break;
                case 17: add("ssreserve " + d + " " + num(0, 200) + " " + (huge && r.chance(30) ? "1" : "0")); break;
                case 18: case 19: add("ssresize " + d + " " + num(0, r.chance(50) ? 20 : 300) + " " + (huge && r.chance(20) ? "1" : "0")); break;
                case 20: add("sssplus " + d + " " + s + " " + str() + " " + num(0, 3)); break;
                case 21: add("sssset " + d + " " + num(0, 100) + " " + num(1, 127) + " " + num(0, 1)); break;
                default: add("sseq " + d + " " + s); break;
                }
            }
            else if (std::string("iemctn").find(c) != std::string::npos)
            {
                int x = r.range(0, 99);
                if (x < growBias) { int k = r.range(0, 5); std::string v = num(1, 99999); add(C + (k < 3 ? "push" : k == 3 ? "pushlv" : k == 4 ? "pushown" : "pushmv") + " " + sl() + " " + v); }
                else if (r.chance(copyBias))
                    switch (r.range(0, 5))
                    {
                    case 0: add(C + "copy " + sl() + " " + sl2()); break;
                    case 1: add(C + "assign " + sl() + " " + sl2()); break;
                    case 2: add(C + "massign " + sl() + " " + sl2()); break;
                    case 3: add(C + "mctor " + sl() + " " + sl2()); break;
                    case 4: add(C + "range " + sl() + " " + sl2() + " " + num(0, 50) + " " + num(0, 50)); break;
                    default: add(C + "eq " + sl() + " " + sl2()); break;
                    }
                else
                    switch (r.range(0, 7))
                    {
                    case 0: add(C + "pop " + sl()); break;
                    case 1: case 2: add(C + "resize " + sl() + " " + num(0, r.chance(70) ? 10 : 80) + " " + (huge && r.chance(20) ? "1" : "0")); break;
                    case 3: add(C + "reserve " + sl() + " " + num(0, 60) + " " + (huge && r.chance(20) ? "1" : "0")); break;
                    case 4: if (r.chance(30)) add(C + "clear " + sl()); break;
                    case 5: case 6: add(C + "set " + sl() + " " + num(0, 100) + " " + num(1, 99999)); break;
                    default: if (r.chance(40)) add(C + "new " + sl() + " " + num(0, 12)); break;
                    }
            }
            else if (std::string("EMSKN").find(c) != std::string::npos)
            {
                int x = r.range(0, 99);
                if (x < 12 + growBias / 2) add(C + "put " + sl() + " " + num(0, keys - 1) + " " + num(1, 99999));
                else if (r.chance(delBias)) add(C + "del " + sl() + " " + num(0, keys - 1) + " " + num(0, 1));
                else if (r.chance(copyBias))
                    switch (r.range(0, 3))
                    {
                    case 0: add(C + "copy " + sl() + " " + sl2()); break;
                    case 1: add(C + "assign " + sl() + " " + sl2()); break;
                    case 2: add(C + "massign " + sl() + " " + sl2()); break;
                    default: add(C + "mctor " + sl() + " " + sl2()); break;
                    }
                else
                    switch (r.range(0, 9))
                    {
                    case 0: case 1: add(C + "new " + sl() + " " + num(0, r.chance(80) ? 5 : 40) + " " + (big > 5000 ? std::string("0") : big ? num(0, 2) : num(0, 7))); break;
                    case 2: if (r.chance(30)) add(C + "clear " + sl()); break;
                    case 3: case 4: add(C + "upd " + sl() + " " + num(0, keys - 1) + " " + num(1, 99999) + " " + num(0, 1)); break;
                    case 5: add(C + "del " + sl() + " " + num(0, keys - 1) + " " + num(0, 1)); break;
                    default: add(C + "put " + sl() + " " + num(0, keys - 1) + " " + num(1, 99999)); break;
                    }
            }
            else
            {
                static char const* const opt[] = {"none", "mval", "val", "mctor", "massign", "reset", "assignval", "deref", "copy", "assign", "eq", "assign", "massign", "assignval"};
                static char const* const exp[] = {"mval", "err", "mctor", "massign", "assignval", "assignerr", "take", "deref", "copy", "assign", "eq", "assign", "assign", "assignerr", "massign"};
                static char const* const ptr[] = {"null", "make", "makeder", "assign", "assignder", "reset", "mctor", "massign", "set", "massign"};
                std::string v = c == 'u' ? ptr[r.below(10)] : c == 'o' || c == 'p' || c == 'q' || c == 'r' ? opt[r.below(14)] : exp[r.below(15)];
                bool second = v == "copy" || v == "assign" || v == "massign" || v == "mctor" || v == "eq";
                add(C + v + " " + sl() + " " + (second && !(c == 'u' && v == "assign") ? sl2() : num(1, r.chance(50) ? 5 : 99999)) + " " + num(0, 5));
            }
        }
        std::string head = "cfg world=2 use=" + use + " hash=" + std::to_string(hash) + " keys=" + std::to_string(keys) + " fill=" + std::to_string(r.pick(std::vector<int>{0xA5, 0, 0xFF, 0x20})) + " errno=34\n";
        return Plan::parse(head + out);
    }
}
