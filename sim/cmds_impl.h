#pragma once
#include "cmds.h"

namespace sim
{
    inline std::string repr(int v) { return std::to_string(v); }
    inline std::string repr(unsigned v) { return std::to_string(v); }
    inline std::string repr(long v) { return std::to_string(v); }
    inline std::string repr(unsigned long v) { return std::to_string(v); }
    inline std::string repr(long long v) { return std::to_string(v); }
    inline std::string repr(unsigned long long v) { return std::to_string(v); }
    inline std::string repr(short v) { return std::to_string(v); }
    inline std::string repr(unsigned short v) { return std::to_string(v); }
    inline std::string repr(char v) { return std::to_string((int)v); }
    inline std::string repr(signed char v) { return std::to_string((int)v); }
    inline std::string repr(unsigned char v) { return std::to_string((int)v); }
    inline std::string repr(bool v) { return v ? "true" : "false"; }
    inline std::string repr(float v) { return reprDouble((double)v); }
    inline std::string repr(double v) { return reprDouble(v); }
    inline std::string repr(long double v) { return reprLongDouble(v); }
    inline std::string repr(coil::String const& v) { if (v.cStr()[v.length()] != 0) violation("string:terminator", "string argument without terminator"); return S(v); }
    inline std::string repr(coil::StringView v) { return S(v); }
    inline std::string repr(coil::Value const& v)
    {
        MValue m;
        for (auto const& s : v.subvalues) m.sub.push_back(S(s));
        return reprValue(m);
    }
    inline std::string repr(std::string const& v) { return v; }
    inline std::string repr(std::string_view v) { return std::string(v); }
    inline std::string repr(std::vector<int> const& v)
    {
        std::vector<std::string> r;
        for (int i : v) r.push_back(std::to_string(i));
        return reprList(r);
    }
    inline std::string repr(std::vector<std::string> const& v) { return reprList(v); }
    inline std::string repr(std::optional<int> const& v) { return v ? "some" + std::to_string(*v) : "none"; }
    inline std::string repr(SimT const& v) { v.check(); return v.s; }
    inline std::string repr(std::vector<SimT> const& v)
    {
        std::vector<std::string> r;
        for (auto const& x : v) r.push_back(repr(x));
        return reprList(r);
    }
    inline std::string repr(std::vector<std::vector<int>> const& v)
    {
        std::vector<std::string> r;
        for (auto const& x : v) r.push_back(repr(x));
        return reprList(r);
    }
    inline std::string repr(std::optional<SimT> const& v) { return v ? "some" + repr(*v) : "none"; }
    inline std::string repr(std::optional<std::string> const& v) { return v ? "some" + *v : "none"; }
    inline std::string repr(Pair const& v) { return std::to_string(v.a) + ";" + v.b; }

    template<class T> struct AtOf;
#define SIM_AT(T, A) template<> struct AtOf<T> { static constexpr AT v = A; };
    SIM_AT(int, A_INT) SIM_AT(unsigned, A_UINT) SIM_AT(long, A_LONG) SIM_AT(unsigned long, A_ULONG) SIM_AT(long long, A_LL)
    SIM_AT(unsigned long long, A_ULL) SIM_AT(short, A_SHORT) SIM_AT(unsigned short, A_USHORT) SIM_AT(char, A_CHAR) SIM_AT(signed char, A_SCHAR)
    SIM_AT(unsigned char, A_UCHAR) SIM_AT(bool, A_BOOL) SIM_AT(float, A_FLOAT) SIM_AT(double, A_DOUBLE) SIM_AT(long double, A_LDOUBLE)
    SIM_AT(coil::String, A_STRING) SIM_AT(coil::StringView, A_VIEW) SIM_AT(coil::Value, A_VALUE) SIM_AT(std::string, A_STDSTR)
    SIM_AT(std::string_view, A_STDVIEW) SIM_AT(std::vector<int>, A_VECINT) SIM_AT(std::vector<std::string>, A_VECSTR)
    SIM_AT(std::optional<int>, A_OPTINT) SIM_AT(SimT, A_SIMT)
    SIM_AT(std::vector<SimT>, A_VECSIMT) SIM_AT(std::optional<SimT>, A_OPTSIMT) SIM_AT(std::optional<std::string>, A_OPTSTR)
    SIM_AT(std::vector<std::vector<int>>, A_VECVECINT) SIM_AT(Pair, A_PAIR)
#undef SIM_AT

    std::string retBytes(uint64_t h); // arbitrary text for string results

    template<class T, class = void> struct Ret;
    template<> struct Ret<void> { static void make(BodyCall& b) { b.expectVoid(); } };
    template<class T> T retInt(uint64_t h)
    {
        switch (h % 5)
        {
        case 0: return std::numeric_limits<T>::max();
        case 1: return std::numeric_limits<T>::min();
        case 2: return (T)0;
        default: return (T)(h >> 8);
        }
    }
#define SIM_RETI(T) template<> struct Ret<T> { static T make(BodyCall& b) { T v = retInt<T>(b.h); b.expectReturn(repr(v)); return v; } };
    SIM_RETI(int) SIM_RETI(unsigned) SIM_RETI(long) SIM_RETI(unsigned long) SIM_RETI(long long) SIM_RETI(unsigned long long)
    SIM_RETI(short) SIM_RETI(unsigned short) SIM_RETI(char) SIM_RETI(signed char) SIM_RETI(unsigned char)
#undef SIM_RETI
    template<> struct Ret<bool> { static bool make(BodyCall& b) { bool v = b.h & 1; b.expectReturn(repr(v)); return v; } };
    inline double retDouble(uint64_t h)
    {
        static double const vals[] = {0.0, 1.5, -2.25, 1e300, -1e-7, 1e-5, 123456789.0, 0.1};
        return vals[h % 8];
    }
    template<> struct Ret<double> { static double make(BodyCall& b) { double v = retDouble(b.h); b.expectReturn(mDoubleText(v)); return v; } };
    template<> struct Ret<float> { static float make(BodyCall& b) { float v = (float)retDouble(b.h & 3); b.expectReturn(mDoubleText((double)v)); return v; } };
    template<> struct Ret<long double> { static long double make(BodyCall& b) { long double v = retDouble(b.h); b.expectReturn(mLongDoubleText(v)); return v; } };
    template<> struct Ret<coil::String>
    {
        static coil::String make(BodyCall& b)
        {
            std::string t = retBytes(b.h);
            b.expectReturn(t);
            CoilScope c;
            return coil::String{t.data(), t.size()};
        }
    };
    template<> struct Ret<coil::StringView>
    {
        static coil::StringView make(BodyCall& b) { b.expectReturn("a string literal result"); return "a string literal result"; }
    };
    template<> struct Ret<char const*>
    {
        static char const* make(BodyCall& b) { b.expectReturn("a C string result, 100%s"); return "a C string result, 100%s"; }
    };
    template<> struct Ret<std::string>
    {
        static std::string make(BodyCall& b) { std::string t = retBytes(b.h); b.expectReturn(t); return t; }
    };
    template<> struct Ret<std::vector<int>>
    {
        static std::vector<int> make(BodyCall& b)
        {
            std::vector<int> v;
            std::string t = "[";
            for (uint64_t i = 0; i < b.h % 5; i++)
            {
                v.push_back((int)(b.h >> (8 * i)));
                if (i) t += ", ";
                t += std::to_string(v.back());
            }
            b.expectReturn(t + "]");
            return v;
        }
    };
    template<> struct Ret<std::vector<SimT>>
    {
        static std::vector<SimT> make(BodyCall& b)
        {
            std::vector<SimT> v;
            std::string t = "[";
            Thr k = b.retThrow();
            for (uint64_t i = 0; i < 1 + b.h % 4; i++)
            {
                std::string e = "e" + std::to_string(i);
                if (k != Thr::None && i == b.h % 2) e = "!tst" + std::string(1, (char)('0' + (int)k));
                v.push_back(SimT{e});
                if (i) t += ", ";
                t += "simt<" + e + ">";
                if (k != Thr::None && i == b.h % 2) return v;
            }
            if (k != Thr::None) { v.push_back(SimT{"!tst" + std::string(1, (char)('0' + (int)k))}); return v; }
            b.expectReturn(t + "]");
            return v;
        }
    };
    template<> struct Ret<std::vector<std::vector<int>>>
    {
        static std::vector<std::vector<int>> make(BodyCall& b)
        {
            std::vector<std::vector<int>> v;
            std::string t = "[";
            for (uint64_t i = 0; i < b.h % 4; i++)
            {
                v.emplace_back();
                t += i ? ", [" : "[";
                for (uint64_t k = 0; k < (b.h >> (4 + 2 * i)) % 4; k++)
                {
                    v.back().push_back((int)(b.h >> (8 * k)));
                    t += (k ? ", " : "") + std::to_string(v.back().back());
                }
                t += "]";
            }
            b.expectReturn(t + "]");
            return v;
        }
    };
    template<> struct Ret<std::optional<std::string>>
    {
        static std::optional<std::string> make(BodyCall& b)
        {
            if (b.h % 3 == 0) { b.expectReturn(""); return {}; }
            std::string t = retBytes(b.h);
            b.expectReturn(t);
            return t;
        }
    };
    template<> struct Ret<Pair>
    {
        static Pair make(BodyCall& b)
        {
            Pair p{(int)b.h, "pair"};
            b.expectReturn(std::to_string(p.a) + ";pair");
            return p;
        }
    };
    template<> struct Ret<std::optional<int>>
    {
        static std::optional<int> make(BodyCall& b)
        {
            if (b.h % 3 == 0) { b.expectReturn(""); return {}; }
            b.expectReturn(std::to_string((int)b.h));
            return (int)b.h;
        }
    };
    template<> struct Ret<SimT>
    {
        static SimT make(BodyCall& b)
        {
            Thr k = b.retThrow();
            if (k != Thr::None) return SimT{"!tst" + std::string(1, (char)('0' + (int)k))};
            std::string t = b.retScript() >= 0 ? "!trn" + std::to_string(b.retScript()) : retBytes(b.h);
            b.expectReturn("simt<" + t + ">");
            return SimT{t};
        }
    };
    // results by reference and pointer refer to objects which outlive the call
    extern int const g_staticInts[4];
    struct RefInt { };
    template<> struct Ret<int const&>
    {
        static int const& make(BodyCall& b) { int const& v = g_staticInts[b.h % 4]; b.expectReturn(std::to_string(v)); return v; }
    };
    template<> struct Ret<int const*>
    {
        static int const* make(BodyCall& b)
        {
            if (b.h % 3 == 0) { b.expectReturn("null"); return nullptr; }
            int const* v = &g_staticInts[b.h % 4];
            b.expectReturn(std::to_string(*v));
            return v;
        }
    };
    template<> struct Ret<coil::Value>
    {
        static coil::Value make(BodyCall& b)
        {
            CoilScope c;
            coil::Vector<coil::StringView> v;
            std::string t;
            for (uint64_t i = 0; i < b.h % 4; i++)
            {
                v.pushBack("elem");
                if (i) t += ' ';
                t += "elem";
            }
            {
                UserScope u;
                b.expectReturn(t);
            }
            return coil::Value{coil::move(v)};
        }
    };

    template<bool Ctx, class R, class... A> struct Cmd;
    template<class R, class... A> struct Cmd<false, R, A...>
    {
        Track tr;
        explicit Cmd(int fid) : tr(fid) {}
        R operator()(A... a)
        {
            BodyCall b(F_CMD, tr.fid, nullptr);
            (b.args.push_back(repr(a)), ...);
            b.enter(); // 'this' may be gone afterwards
            return Ret<R>::make(b);
        }
    };
    template<class R, class... A> struct Cmd<true, R, A...>
    {
        Track tr;
        explicit Cmd(int fid) : tr(fid) {}
        R operator()(coil::Context ctx, A... a)
        {
            BodyCall b(F_CMD, tr.fid, &ctx);
            (b.args.push_back(repr(a)), ...);
            b.enter(); // 'this' may be gone afterwards
            return Ret<R>::make(b);
        }
    };

    template<class F> coil::AnyFunctor anyOf(F f)
    {
        coil::Vector<coil::AnyFunctor> v = coil::overloaded(coil::move(f));
        return coil::AnyFunctor{coil::move(v[0])};
    }
    template<bool Ctx, class R, class... A> CmdFactory factory()
    {
        using C = Cmd<Ctx, R, A...>;
        CmdFactory f;
        f.info.ctx = Ctx;
        f.info.ret = std::is_void<R>::value ? R_VOID : R_VALUE;
        f.info.args = {AtOf<std::remove_cv_t<std::remove_reference_t<A>>>::v...};
        f.any = [](int fid) -> coil::AnyFunctor { return anyOf(C{fid}); };
        f.proxy = [](coil::Bindings& b, coil::StringView n, int fid) { b[n] = C{fid}; };
        f.add = [](coil::Bindings& b, coil::StringView n, int fid) {
            auto const& c = b.add(n, C{fid});
            UserScope u;
            if (S(c.name) != S(n) || c.functors.size() != 1) violation("registry:add-result", "add() returned a wrong command");
        };
        return f;
    }
}
