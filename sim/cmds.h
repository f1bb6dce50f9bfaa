// Simulated user code: commands of many signatures, bound objects, user types, simulated parsers.
#pragma once
#include "core.h"
#include "model.h"

#include "coil/Coil.h"
#include "coil/StdLibCompat.h"
#include "coil/detail/DefaultLexer.h"
#include "coil/detail/ExecutionResult.h"
#include "coil/detail/Lexer.h"
#include "coil/detail/Utils.h"

namespace sim
{
    enum FKind : int { F_CMD, F_METHOD, F_FREE, F_VARGET, F_VARSET, F_VARSETRO, F_PROPGET, F_PROPSET, F_PROPSETRO };

    // ---- ledgers (implemented in world1.cpp, not instrumented)
    void trackAdd(int fid, int delta);
    void simtAdd(int delta);
    void lexerAdd(int lexerId, int delta);
    void conversionScript(int sid, bool toText); // a conversion which executes other commands
    void parserScript(int sid);
    [[noreturn]] void throwKind(Thr k);

    struct Track
    {
        int fid;
        explicit Track(int f) : fid(f) { trackAdd(fid, 1); }
        Track(Track const& r) : fid(r.fid) { trackAdd(fid, 1); }
        Track(Track&& r) noexcept : fid(r.fid) { trackAdd(fid, 1); }
        Track& operator=(Track const&) = default;
        ~Track() { trackAdd(fid, -1); fid = -0x5a5a5a; }
    };

    // user-defined argument type with failing and throwing conversions
    struct SimT
    {
        std::string s;
        uint32_t magic = 0x51317;
        explicit SimT(std::string v = {}) : s(std::move(v)) { simtAdd(1); }
        SimT(SimT const& r) : s(r.s) { r.check(); simtAdd(1); }
        SimT(SimT&& r) noexcept : s(std::move(r.s)) { r.check(); simtAdd(1); }
        SimT& operator=(SimT const& r) { check(); r.check(); s = r.s; return *this; }
        SimT& operator=(SimT&& r) noexcept { check(); r.check(); s = std::move(r.s); return *this; }
        ~SimT() { check(); magic = 0xdeadu; simtAdd(-1); }
        void check() const { if (magic != 0x51317) violation("lifetime:object", "a user object which isn't alive is used or destroyed"); }
    };

    // a user-defined type made of two elements
    struct Pair
    {
        int a = 0;
        std::string b;
    };

    // ---- one execution of user code
    struct BodyCall
    {
        UserScope scope;
        FKind kind;
        int fid;
        coil::Context* ctx;
        std::vector<std::string> args;
        uint64_t h = 0;
        int uncaught;
        BodyCall(FKind kind, int fid, coil::Context* ctx);
        ~BodyCall();
        void enter(); // checks against the model and runs the script; may throw
        // text the result is expected to have
        void expectReturn(std::string text);
        void expectVoid();
        Thr retThrow() const;
        int retScript() const;
    };

    // ---- what the model has to know about a signature
    enum RT : int { R_VOID, R_VALUE };
    struct SigInfo
    {
        bool ctx = false;
        RT ret = R_VOID;
        std::vector<AT> args;
    };
    struct CmdFactory
    {
        SigInfo info;
        coil::AnyFunctor (*any)(int fid);
        void (*proxy)(coil::Bindings&, coil::StringView, int fid);
        void (*add)(coil::Bindings&, coil::StringView, int fid);
    };
    extern std::vector<CmdFactory> g_cmds; // filled by registerCmds*()
    void registerCmds();

    // bound objects
    struct Obj
    {
        int fid = 0;
        int m0(int a);
        void m1() const;
        coil::String m2(coil::Context ctx, coil::String s);
        int m3(int a, int b) const noexcept;
    };
    extern SigInfo const g_methodSigs[4];
    coil::AnyFunctor makeMethod(int k, Obj* o);
    extern SigInfo const g_freeSigs[3];
    coil::AnyFunctor makeFree(int k);

    // variables: slot types
    constexpr int kVarSlots = 5;
    struct Vars
    {
        int i = 1;
        coil::String s;
        SimT t;
        bool b = false;
        double d = 0;
    };
    extern AT const g_varTypes[kVarSlots];
    coil::Vector<coil::AnyFunctor> makeVar(Vars& v, int slot, bool ro);
    void varGetText(Vars const& v, int slot, std::string& repr, std::string& text);

    constexpr int kPropSlots = 3;
    struct PObj
    {
        int slot = 0;
        int get() const;
        void set(int v);
    };
    int propGet(int slot);
    void propSet(int slot, int v);
    coil::Vector<coil::AnyFunctor> makeProp(int slot, bool ro, int fidGet, int fidSet);
    coil::Vector<coil::AnyFunctor> makeBindProp(PObj* o, bool ro);

    // simulated parser
    struct SimLexer : coil::Lexer
    {
        int variant, id;
        SimLexer(int variant, int id) : variant(variant), id(id) { lexerAdd(id, 1); }
        ~SimLexer() override { lexerAdd(id, -1); id = -1; }
        coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView str) const override;
    };
    void simLexerEnter(int id);
}

namespace coil
{
    template<>
    struct TypeSerializer<sim::SimT>
    {
        static Expected<sim::SimT, String> fromString(Value const& in);
        static String toString(sim::SimT const& v);
    };
}
namespace coil
{
    template<>
    struct TypeSerializer<sim::Pair>
    {
        static Expected<sim::Pair, String> fromString(Value const& in);
        static String toString(sim::Pair const& v);
    };
}
COIL_CREATE_TYPE_NAME_DECLARATION(sim::SimT);
COIL_CREATE_TYPE_NAME_DECLARATION(sim::Pair);

namespace sim
{
    inline std::string S(coil::String const& s) { return s.length() ? std::string(s.data(), s.length()) : std::string(); }
    inline std::string S(coil::StringView s) { return std::string(s.data(), s.length()); }
}
