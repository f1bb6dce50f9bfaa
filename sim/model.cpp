#include "model.h"
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <strings.h>

namespace sim
{
    char const* thrWhat(Thr k)
    {
        switch (k)
        {
        case Thr::Runtime: return "simulated runtime error";
        case Thr::Custom: return "simulated custom exception";
        case Thr::BadAlloc: return "std::bad_alloc";
        case Thr::Percent: return "100%s of %n the %d %% percents";
        case Thr::Empty: return "";
        case Thr::Long:
            return "a long explanation of what went wrong, 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 "
                   "and more, 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789, the end";
        default: return nullptr;
        }
    }

    static bool in_(std::string const& set, char c) { return (unsigned char)c < 128 && set.find(c) != std::string::npos; }

    // the class of a character in command text
    static char cls(LexCfg const& c, char ch)
    {
        if (ch == '=') return '=';
        if (in_(c.spaces, ch)) return ' ';
        if (in_(c.group, ch)) return '(';
        if (in_(c.quotes, ch)) return '"';
        return 'a';
    }
    static bool isSep(LexCfg const& c, char ch) { return in_(c.spaces, ch) || in_(c.seps, ch); }

    MValue mGroup(LexCfg const& c, std::string const& s)
    {
        MValue v;
        std::string curr;
        bool open = false, have = false;
        auto flush = [&] {
            if (!have) return;
            if (curr.size() >= 2 && in_(c.quotes, curr.front()) && in_(c.quotes, curr.back()))
                curr = curr.substr(1, curr.size() - 2);
            v.sub.push_back(curr);
            curr.clear();
            have = false;
        };
        for (char ch : s)
        {
            if (!open && isSep(c, ch))
            {
                flush();
                continue;
            }
            have = true;
            curr += ch;
            if (in_(c.quotes, ch)) open = !open;
        }
        flush();
        return v;
    }

    std::pair<size_t, int> simLexerPrefix(char const* p, size_t n)
    {
        // "R!<script>!": the parser executes other commands first
        if (n < 4 || p[0] != 'R' || p[1] != '!') return {0, -1};
        size_t i = 2;
        int v = 0;
        while (i < n && p[i] >= '0' && p[i] <= '9' && i < 8) v = v * 10 + (p[i++] - '0');
        if (i == 2 || i >= n || p[i] != '!') return {0, -1};
        return {i + 1, v};
    }
    static MParse simParse(int variant, std::string const& text)
    {
        // ':'-separated parts, "k:=v" style named arguments don't exist; "E" prefix: error; "T<k>" prefix: throws
        MParse p;
        if (!text.empty() && text[0] == 'E' && text.size() > 1 && text[1] == '!')
        {
            p.r = MParse::Error;
            return p;
        }
        if (text.size() >= 3 && text[0] == 'T' && text[1] == '!')
        {
            p.r = MParse::Throws;
            p.thr = (Thr)(1 + (unsigned char)text[2] % ((int)Thr::Count - 1));
            return p;
        }
        char sep = variant == 2 ? '/' : ':';
        std::vector<std::string> parts;
        std::string cur;
        for (char ch : text.substr(simLexerPrefix(text.data(), text.size()).first))
            if (ch == sep) { parts.push_back(cur); cur.clear(); }
            else cur += ch;
        parts.push_back(cur);
        p.in.name = parts[0];
        for (size_t i = 1; i < parts.size(); i++) p.in.args.push_back(MValue{{parts[i]}});
        return p;
    }

    MParse mParse(LexCfg const& c, std::string const& s)
    {
        if (c.sim) return simParse(c.sim, s);

        struct Tok { char kind; std::string text; }; // 'S' plain, 'G' group, '='
        std::vector<Tok> toks;
        MParse p;
        size_t i = 0, n = s.size();
        while (i < n)
        {
            char k = cls(c, s[i]);
            if (k == ' ') { i++; continue; }
            if (k == '=') { toks.push_back({'=', "="}); i++; continue; }
            if (k == 'a')
            {
                size_t b = i;
                while (i < n && cls(c, s[i]) == 'a') i++;
                bool grp = false;
                for (size_t j = b + 1; j < i; j++) grp = grp || in_(c.seps, s[j]);
                toks.push_back({grp ? 'G' : 'S', s.substr(b, i - b)});
                continue;
            }
            size_t b = ++i;
            while (i < n && cls(c, s[i]) != k) i++;
            if (i >= n) { p.r = MParse::Error; return p; }
            toks.push_back({k == '(' ? 'G' : 'S', s.substr(b, i - b)});
            i++;
        }
        if (toks.empty()) return p;
        if (toks[0].kind != 'S') { p.r = MParse::Error; return p; }
        p.in.name = toks[0].text;
        auto value = [&](Tok const& t) { return t.kind == 'G' ? mGroup(c, t.text) : MValue{{t.text}}; };
        // after the name: items are  V  or  V '=' V
        for (size_t j = 1; j < toks.size();)
        {
            if (toks[j].kind == '=') { p = {}; p.r = MParse::Error; return p; }
            if (j + 1 < toks.size() && toks[j + 1].kind == '=')
            {
                if (j + 2 >= toks.size() || toks[j + 2].kind == '=') { p = {}; p.r = MParse::Error; return p; }
                p.in.named.push_back({toks[j].text, value(toks[j + 2])});
                j += 3;
            }
            else
            {
                p.in.args.push_back(value(toks[j]));
                j++;
            }
        }
        return p;
    }

    bool mRender(LexCfg const& c, MInput const& in, unsigned style, std::string& out)
    {
        if (c.sim)
        {
            char sep = c.sim == 2 ? '/' : ':';
            out = in.name;
            for (auto const& a : in.args) { out += sep; out += a.sub.size() == 1 ? a.sub[0] : std::string("?"); }
        }
        else
        {
            auto plain = [&](std::string const& s) {
                if (s.empty()) return false;
                for (char ch : s) if (cls(c, ch) != 'a') return false;
                for (size_t i = 1; i < s.size(); i++) if (in_(c.seps, s[i])) return false;
                return true;
            };
            auto word = [&](std::string const& s, bool forceQuote) {
                if (plain(s) && !forceQuote) return s;
                if (c.quotes.empty()) return s;
                char q = c.quotes[style % c.quotes.size()], q2 = c.quotes[(style / 3) % c.quotes.size()];
                return q + s + q2;
            };
            char sp = c.spaces.empty() ? ' ' : c.spaces[(style / 5) % c.spaces.size()];
            auto value = [&](MValue const& v, unsigned k) {
                if (v.sub.size() == 1) return word(v.sub[0], (style >> (k % 8)) & 1);
                if (c.group.empty()) return std::string("?");
                std::string r(1, c.group[0]);
                char sep = c.seps.empty() || (style & 2) ? sp : c.seps[(style / 7) % c.seps.size()];
                for (size_t i = 0; i < v.sub.size(); i++)
                {
                    if (i) r += sep;
                    bool q = v.sub[i].empty();
                    for (char ch : v.sub[i]) q = q || isSep(c, ch);
                    if (q && !c.quotes.empty()) r += c.quotes[0] + v.sub[i] + c.quotes[0];
                    else r += v.sub[i];
                }
                r += c.group.back();
                return r;
            };
            out = word(in.name, (style & 16) != 0);
            unsigned k = 0;
            size_t ni = 0;
            for (auto const& a : in.args)
            {
                if (ni < in.named.size() && ((style >> (k & 15)) & 4))
                {
                    out += sp + word(in.named[ni].first, false) + "=" + value(in.named[ni].second, k);
                    ni++;
                }
                out += sp;
                out += value(a, k++);
            }
            for (; ni < in.named.size(); ni++) out += sp + word(in.named[ni].first, false) + (style & 32 ? " = " : "=") + value(in.named[ni].second, k++);
        }
        MParse p = mParse(c, out);
        if (p.r != MParse::Ok || p.in.name != in.name || p.in.args.size() != in.args.size() || p.in.named.size() != in.named.size()) return false;
        for (size_t i = 0; i < in.args.size(); i++)
            if (!(p.in.args[i] == in.args[i])) return false;
        return true;
    }

    // ------------------------------------------------------------------ conversions
    static bool isSp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
    // sign, magnitude
    static bool parseInt(std::string const& s, bool& neg, unsigned __int128& mag)
    {
        size_t i = 0;
        while (i < s.size() && isSp(s[i])) i++;
        neg = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        if (i >= s.size()) return false;
        mag = 0;
        for (; i < s.size(); i++)
        {
            if (s[i] < '0' || s[i] > '9') return false;
            if (mag < ((unsigned __int128)1 << 100)) mag = mag * 10 + (unsigned)(s[i] - '0');
        }
        return true;
    }
    static MConv err() { MConv c; c.r = MConv::Error; return c; }
    static MConv ok(std::string r) { MConv c; c.repr = std::move(r); return c; }
    static MConv convS(std::string const& s, long long lo, long long hi)
    {
        bool neg; unsigned __int128 m;
        if (!parseInt(s, neg, m)) return err();
        if (m >= ((unsigned __int128)1 << 64)) return err();
        __int128 v = neg ? -(__int128)m : (__int128)m;
        if (v < lo || v > hi) return err();
        return ok(std::to_string((long long)v));
    }
    static MConv convU(std::string const& s, unsigned long long hi)
    {
        bool neg; unsigned __int128 m;
        if (!parseInt(s, neg, m) || neg || m > hi) return err();
        return ok(std::to_string((unsigned long long)m));
    }
    std::string reprDouble(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
    std::string reprLongDouble(long double d) { char b[64]; snprintf(b, sizeof b, "%La", d); return b; }
    template<class T, class F> static MConv convF(std::string const& s, F f)
    {
        if (s.empty()) return err();
        char* end = nullptr;
        errno = 0;
        T v = f(s.c_str(), &end);
        if (errno || end != s.c_str() + s.size()) return err();
        return ok(sizeof(T) > 8 ? reprLongDouble((long double)v) : reprDouble((double)v));
    }
    std::string reprList(std::vector<std::string> const& v)
    {
        std::string r = "[";
        for (auto const& s : v) { r += std::to_string(s.size()); r += ':'; r += s; r += '|'; }
        return r + "]";
    }
    std::string reprValue(MValue const& v) { return "V" + reprList(v.sub); }

    MConv mConvert(AT t, MValue const& v)
    {
        switch (t)
        {
        case A_VALUE: return ok(reprValue(v));
        case A_VECINT:
        {
            std::vector<std::string> r;
            for (auto const& s : v.sub)
            {
                MConv c = mConvert(A_INT, MValue{{s}});
                if (c.r) return c;
                r.push_back(c.repr);
            }
            return ok(reprList(r));
        }
        case A_VECSTR: return ok(reprList(v.sub));
        case A_OPTINT:
        {
            if (v.sub.empty() || v.sub[0].empty()) return ok("none");
            MConv c = mConvert(A_INT, MValue{{v.sub[0]}});
            if (c.r) return c;
            return ok("some" + c.repr);
        }
        case A_VECSIMT:
        {
            std::vector<std::string> r;
            for (auto const& s : v.sub)
            {
                MConv c = mConvert(A_SIMT, MValue{{s}});
                if (c.r) return c;
                r.push_back(c.repr);
            }
            return ok(reprList(r));
        }
        case A_VECVECINT:
        {
            std::vector<std::string> r;
            for (auto const& s : v.sub)
            {
                MConv c = mConvert(A_VECINT, MValue{{s}});
                if (c.r) return c;
                r.push_back(c.repr);
            }
            return ok(reprList(r));
        }
        case A_OPTSIMT:
        case A_OPTSTR:
        {
            if (v.sub.empty() || v.sub[0].empty()) return ok("none");
            MConv c = mConvert(t == A_OPTSIMT ? A_SIMT : A_STDSTR, MValue{{v.sub[0]}});
            if (c.r) return c;
            return ok("some" + c.repr);
        }
        case A_PAIR:
        {
            if (v.sub.size() != 2) return err();
            MConv c = mConvert(A_INT, MValue{{v.sub[0]}});
            if (c.r) return c;
            return ok(c.repr + ";" + v.sub[1]);
        }
        default: break;
        }
        if (v.sub.size() != 1) return err();
        std::string const& s = v.sub[0];
        switch (t)
        {
        case A_INT: return convS(s, INT_MIN, INT_MAX);
        case A_LONG: return convS(s, LONG_MIN, LONG_MAX);
        case A_LL: return convS(s, LLONG_MIN, LLONG_MAX);
        case A_SHORT: return convS(s, SHRT_MIN, SHRT_MAX);
        case A_CHAR: return convS(s, CHAR_MIN, CHAR_MAX);
        case A_SCHAR: return convS(s, SCHAR_MIN, SCHAR_MAX);
        case A_UINT: return convU(s, UINT_MAX);
        case A_ULONG: return convU(s, ULONG_MAX);
        case A_ULL: return convU(s, ULLONG_MAX);
        case A_USHORT: return convU(s, USHRT_MAX);
        case A_UCHAR: return convU(s, UCHAR_MAX);
        case A_BOOL:
            if (s == "1" || (s.size() == 4 && !strncasecmp(s.c_str(), "true", 4))) return ok("true");
            if (s == "0" || (s.size() == 5 && !strncasecmp(s.c_str(), "false", 5))) return ok("false");
            return err();
        case A_FLOAT: return convF<float>(s, strtof);
        case A_DOUBLE: return convF<double>(s, strtod);
        case A_LDOUBLE: return convF<long double>(s, strtold);
        case A_STRING: case A_VIEW: case A_STDSTR: case A_STDVIEW: return ok(s);
        case A_SIMT:
            if (s.compare(0, 4, "!bad") == 0 || s.compare(0, 4, "!tst") == 0) return err();
            if (s.compare(0, 4, "!thr") == 0 && s.size() > 4)
            {
                MConv c;
                c.r = MConv::Throws;
                c.thr = (Thr)(1 + (unsigned char)s[4] % ((int)Thr::Count - 1));
                return c;
            }
            return ok(s);
        default: return err();
        }
    }

    std::string mUpToNul(std::string const& s) { return s.c_str(); }
    char const* mTypeName(AT t)
    {
        static char const* const names[A_COUNT] = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "char", "signed char",
            "unsigned char", "bool", "float", "double", "long double", "string", "string", "coil::Value", "string", "string", "vector<int>", "vector<string>", "optional<int>", "sim::SimT",
            "vector<sim::SimT>", "optional<sim::SimT>", "optional<string>", "vector<vector<int>>", "sim::Pair"};
        return names[t];
    }
    std::vector<std::string> mConvertErrorMentions(AT t, MValue const& v)
    {
        std::string joined;
        for (size_t i = 0; i < v.sub.size(); i++) joined += (i ? " " : "") + v.sub[i];
        joined = mUpToNul(joined);
        if (t == A_SIMT && v.sub.size() == 1)
        {
            if (!(v.sub[0].size() & 1)) return {"simulated conversion failure"};
            return {joined, mTypeName(t), "simulated conversion failure"};
        }
        if (t == A_PAIR && v.sub.size() == 2) return {mUpToNul(v.sub[0]), "int"};
        return {joined, mTypeName(t)};
    }

    std::string mDoubleText(double d)
    {
        if (d > -1e-6 && d < 1e-6) return "0";
        char b[64];
        snprintf(b, sizeof b, "%g", d);
        return b;
    }
    std::string mLongDoubleText(long double d)
    {
        if (d > -1e-6 && d < 1e-6) return "0";
        char b[64];
        snprintf(b, sizeof b, "%Lg", d);
        return b;
    }

    std::string esc(std::string const& s)
    {
        if (s.empty()) return "%-";
        std::string r;
        for (size_t i = 0; i < s.size(); i++)
        {
            unsigned char const c = (unsigned char)s[i];
            size_t run = 1;
            while (i + run < s.size() && s[i + run] == s[i]) run++;
            if (run >= 48)
            {
                // %*<count>;<hex>
                char b[40];
                snprintf(b, sizeof b, "%%*%zu;%02X", run, c);
                r += b;
                i += run - 1;
                continue;
            }
            if (c > 32 && c < 127 && c != '%') r += (char)c;
            else { char b[8]; snprintf(b, sizeof b, "%%%02X", c); r += b; }
        }
        return r;
    }
    std::string unesc(std::string const& s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); i++)
        {
            if (s[i] != '%') { r += s[i]; continue; }
            if (i + 1 < s.size() && s[i + 1] == '-') { i++; continue; }
            if (i + 1 < s.size() && s[i + 1] == '*')
            {
                char* e = nullptr;
                unsigned long long const n = strtoull(s.c_str() + i + 2, &e, 10);
                if (*e == ';' && e[1] && e[2] && n <= 10000000)
                {
                    r.append((size_t)n, (char)strtol(std::string(e + 1, 2).c_str(), nullptr, 16));
                    i = (size_t)(e - s.c_str()) + 2;
                }
                continue;
            }
            if (i + 2 < s.size())
            {
                r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
                i += 2;
            }
        }
        return r;
    }
}
