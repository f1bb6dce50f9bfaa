#include "cmds_impl.h"
namespace sim
{
    void registerCmdsD()
    {
        g_cmds.push_back(factory<true, SimT, SimT, coil::String, std::vector<int>, SimT>());
        g_cmds.push_back(factory<true, coil::StringView, coil::StringView>());
        g_cmds.push_back(factory<true, long double, long double>());
        g_cmds.push_back(factory<true, coil::String, coil::String, coil::String>());
        g_cmds.push_back(factory<true, long long, bool, coil::String, unsigned>());
        g_cmds.push_back(factory<true, float, float>());
        // 32
        g_cmds.push_back(factory<true, std::vector<SimT>, std::vector<SimT>>());
        g_cmds.push_back(factory<true, std::vector<std::vector<int>>, std::vector<std::vector<int>>>());
        g_cmds.push_back(factory<true, std::optional<std::string>, std::optional<std::string>, std::optional<SimT>>());
        g_cmds.push_back(factory<true, Pair, Pair>());
        g_cmds.push_back(factory<true, int, int, int, int, int, int, int, int, int, int>());
    }

    // ---------------------------------------------------------- bound objects
    SigInfo const g_methodSigs[4] = {
        {false, R_VALUE, {A_INT}}, {false, R_VOID, {}}, {true, R_VALUE, {A_STRING}}, {false, R_VALUE, {A_INT, A_INT}}};
    int Obj::m0(int a) { BodyCall b(F_METHOD, fid, nullptr); b.args = {repr(a)}; b.enter(); return Ret<int>::make(b); }
    void Obj::m1() const { BodyCall b(F_METHOD, fid, nullptr); b.enter(); Ret<void>::make(b); }
    coil::String Obj::m2(coil::Context ctx, coil::String s)
    {
        BodyCall b(F_METHOD, fid, &ctx);
        b.args = {repr(s)};
        b.enter();
        return Ret<coil::String>::make(b);
    }
    int Obj::m3(int x, int y) const noexcept { BodyCall b(F_METHOD, fid, nullptr); b.args = {repr(x), repr(y)}; b.enter(); return Ret<int>::make(b); }
    coil::AnyFunctor makeMethod(int k, Obj* o)
    {
        switch (k)
        {
        case 0: return coil::bind(&Obj::m0, o);
        case 1: return coil::bind(&Obj::m1, const_cast<Obj const*>(o));
        case 2: return coil::bind(&Obj::m2, o);
        default: return coil::bind(&Obj::m3, o);
        }
    }

    SigInfo const g_freeSigs[3] = {{false, R_VALUE, {A_INT}}, {true, R_VOID, {}}, {false, R_VALUE, {A_VIEW, A_VIEW}}};
    static int free0(int a) { BodyCall b(F_FREE, 0, nullptr); b.args = {repr(a)}; b.enter(); return Ret<int>::make(b); }
    static void free1(coil::Context ctx) { BodyCall b(F_FREE, 1, &ctx); b.enter(); Ret<void>::make(b); }
    static coil::String free2(coil::StringView x, coil::StringView y)
    {
        BodyCall b(F_FREE, 2, nullptr);
        b.args = {repr(x), repr(y)};
        b.enter();
        return Ret<coil::String>::make(b);
    }
    coil::AnyFunctor makeFree(int k)
    {
        switch (k)
        {
        case 0: return anyOf(&free0);
        case 1: return anyOf(&free1);
        default: return anyOf(&free2);
        }
    }

    // ---------------------------------------------------------- variables and properties
    AT const g_varTypes[kVarSlots] = {A_INT, A_STRING, A_SIMT, A_BOOL, A_DOUBLE};
    template<class T> static coil::Vector<coil::AnyFunctor> mk(T& v, bool ro) { return ro ? coil::variable(const_cast<T const*>(&v)) : coil::variable(&v); }
    coil::Vector<coil::AnyFunctor> makeVar(Vars& v, int slot, bool ro)
    {
        switch (slot)
        {
        case 0: return mk(v.i, ro);
        case 1: return mk(v.s, ro);
        case 2: return mk(v.t, ro);
        case 3: return mk(v.b, ro);
        default: return mk(v.d, ro);
        }
    }
    void varGetText(Vars const& v, int slot, std::string& r, std::string& text)
    {
        switch (slot)
        {
        case 0: r = text = repr(v.i); break;
        case 1: r = text = repr(v.s); break;
        case 2: r = repr(v.t); text = "simt<" + r + ">"; break;
        case 3: r = text = repr(v.b); break;
        default: r = repr(v.d); text = mDoubleText(v.d); break;
        }
    }

    struct PropGet
    {
        Track tr;
        int slot;
        PropGet(int f, int s) : tr(f), slot(s) {}
        int operator()() const { return propGet(slot); }
    };
    struct PropSet
    {
        Track tr;
        int slot;
        PropSet(int f, int s) : tr(f), slot(s) {}
        void operator()(int const& v) const { propSet(slot, v); }
    };
    int PObj::get() const { return propGet(slot); }
    void PObj::set(int v) { propSet(slot, v); }

    coil::Vector<coil::AnyFunctor> makeProp(int slot, bool ro, int fg, int fs)
    {
        if (ro) return coil::property(PropGet{fg, slot});
        return coil::property(PropGet{fg, slot}, PropSet{fs, slot});
    }
    coil::Vector<coil::AnyFunctor> makeBindProp(PObj* o, bool ro)
    {
        if (ro) return coil::bindProperty(&PObj::get, o);
        return coil::bindProperty(&PObj::get, &PObj::set, o);
    }

    // ---------------------------------------------------------- simulated parser
    coil::Expected<coil::ExecutionInput, coil::String> SimLexer::parse(coil::StringView str) const
    {
        {
            UserScope u;
            simLexerEnter(id);
        }
        size_t n = str.length();
        char const* p = str.data();
        if (n > 1 && p[0] == 'E' && p[1] == '!') return coil::makeUnexpected(n == 2 ? coil::String{} : coil::String{"simulated parser error"});
        if (n >= 3 && p[0] == 'T' && p[1] == '!')
        {
            UserScope u;
            throwKind((Thr)(1 + (unsigned char)p[2] % ((int)Thr::Count - 1)));
        }
        auto const pre = simLexerPrefix(p, n);
        if (pre.first)
        {
            UserScope u;
            parserScript(pre.second);
            p += pre.first;
            n -= pre.first;
        }
        char sep = variant == 2 ? '/' : ':';
        coil::ExecutionInput in;
        bool first = true;
        size_t b = 0;
        for (size_t i = 0; i <= n; i++)
            if (i == n || p[i] == sep)
            {
                coil::StringView part{p + b, i - b};
                if (first) in.name = part;
                else in.arguments.pushBack(coil::Value{part});
                first = false;
                b = i + 1;
            }
        return {coil::move(in)};
    }
}

COIL_CREATE_TYPE_NAME_DEFINITION(sim::SimT, "sim::SimT");
COIL_CREATE_TYPE_NAME_DEFINITION(sim::Pair, "sim::Pair");

coil::Expected<sim::SimT, coil::String> coil::TypeSerializer<sim::SimT>::fromString(coil::Value const& in)
{
    if (in.subvalues.size() != 1) return errors::createMismatchedSubvaluesError<sim::SimT>(in, 1);
    std::string s;
    {
        sim::UserScope u;
        s.assign(in.subvalues[0].data(), in.subvalues[0].length());
        if (s.compare(0, 4, "!run") == 0) sim::conversionScript(atoi(s.c_str() + 4), false);
        if (s.compare(0, 4, "!thr") == 0 && s.size() > 4) sim::throwKind((sim::Thr)(1 + (unsigned char)s[4] % ((int)sim::Thr::Count - 1)));
    }
    if (s.compare(0, 4, "!bad") == 0 || s.compare(0, 4, "!tst") == 0)
    {
        if (s.size() & 1) return errors::createGenericError<sim::SimT>(in, "simulated conversion failure");
        return coil::makeUnexpected(coil::String{"simulated conversion failure"});
    }
    return sim::SimT{std::move(s)};
}
coil::String coil::TypeSerializer<sim::SimT>::toString(sim::SimT const& v)
{
    v.check();
    if (v.s.compare(0, 4, "!tst") == 0 && v.s.size() > 4)
    {
        sim::UserScope u;
        sim::throwKind((sim::Thr)(v.s[4] - '0'));
    }
    if (v.s.compare(0, 4, "!trn") == 0)
    {
        sim::UserScope u;
        sim::conversionScript(atoi(v.s.c_str() + 4), true);
    }
    coil::String r = "simt<";
    r.append(v.s.data(), v.s.size());
    return coil::move(r) + ">";
}

// like the compound types of the documentation: made of the conversions of its elements
coil::Expected<sim::Pair, coil::String> coil::TypeSerializer<sim::Pair>::fromString(coil::Value const& in)
{
    if (in.subvalues.size() != 2) return errors::createMismatchedSubvaluesError<sim::Pair>(in, 2);
    auto a = coil::Value{in.subvalues[0]}.get<int>();
    if (!a) return coil::makeUnexpected(coil::move(a).error());
    auto b = coil::Value{in.subvalues[1]}.get<std::string>();
    if (!b) return coil::makeUnexpected(coil::move(b).error());
    return sim::Pair{*a, *coil::move(b)};
}
coil::String coil::TypeSerializer<sim::Pair>::toString(sim::Pair const& v)
{
    return coil::sprintf("%d;%s", v.a, v.b.c_str());
}
