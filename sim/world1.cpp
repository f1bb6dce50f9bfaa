// World 1: interpreters, clients, commands, parsers - executes a plan in lockstep with the model.
#include "world.h"
#include "cmds.h"
#include <cerrno>
#include <algorithm>
#include <deque>
#include <exception>
#include <stdexcept>

namespace sim
{

    static constexpr bool kCatch = COIL_CONFIG_CATCH_EXCEPTIONS != 0;
    constexpr int kInterps = 6;  // 0..4 for the plan, 5: twin
    constexpr int kTwin = 5;
    constexpr int kMaxFid = 1 << 15;
    constexpr int kMaxLexer = 1 << 12;

    struct SimEx : std::exception
    {
        char const* what() const noexcept override { return thrWhat(Thr::Custom); }
    };
    struct ThrStruct { int x; };
    void throwKind(Thr k)
    {
        count("throws");
        switch (k)
        {
        case Thr::Custom: throw SimEx{};
        case Thr::Int: throw 42;
        case Thr::Struct: throw ThrStruct{1};
        case Thr::BadAlloc: throw std::bad_alloc{};
        default: throw std::runtime_error(thrWhat(k));
        }
    }

    struct FunctorRec
    {
        int fid = 0;
        FKind kind = F_CMD;
        int sig = 0;   // signature, method, free function
        int slot = 0;  // variable/property slot
        int owner = 0; // interpreter index whose variables/properties are meant
        int script = -1;
        int fid2 = 0;  // properties: second tracked callable
        size_t arity() const;
        SigInfo const* info() const;
    };
    struct Interp
    {
        bool alive = false;
        void* mem = nullptr;
        coil::Bindings* b = nullptr;
        std::map<std::string, std::vector<FunctorRec>> reg;
        LexCfg lex;
        int inflight = 0;
        int parsing = 0; // a parser of the plan is running
        size_t hwNames = 0, hwText = 0; // most names and longest text it has ever had to deal with
        int props[kPropSlots] = {0, 0, 0};
        PObj pobj[kPropSlots];
        Vars* vars = nullptr;
        std::string varRepr[kVarSlots];
    };
    enum Cls { CSyntax, CLexThrow, CNoName, CUnknown, CArity, CConv, CInvoke };
    static char const* const kClsName[] = {"syntax", "lexthrow", "noname", "unknown", "arity", "conv", "invoke"};

    struct Emis { std::vector<std::string> alts; };
    // Any: a message of the library; it mentions all of the needles
    struct ErrRec { enum K { Exact, Contains, Any } k; std::string text; bool maybe = false; std::vector<std::string> needles = {}; };

    struct TaskCtx;
    struct Frame
    {
        int in = 0;
        Frame* up = nullptr;
        Cls cls = CSyntax;
        MInput input;
        FunctorRec f;
        std::vector<std::string> reprs;
        int convErrs = 0;
        std::vector<Thr> convThrows;
        std::vector<std::vector<std::string>> convMentions;
        Thr lexThrow = Thr::None;
        int bodyRuns = 0, setterRuns = 0, getterRuns = 0, wrongRuns = 0, lexRuns = 0;
        std::vector<Emis> out;
        std::vector<ErrRec> errs;
        bool threw = false, thrInjected = false;
        Thr thrown = Thr::None;
        bool returned = false, isVoid = false, haveRet = false;
        std::string ret;
        Thr retThrow = Thr::None;
        bool tolerant = false;
        uint64_t af0 = 0, ff0 = 0;
        uint64_t ffBody = 0;
        int simt0 = 0;
        coil::Context* ctx = nullptr;
        int inAccessor = 0;    // a getter or setter of a property runs a script
    int inConv = 0;        // a conversion of this execution runs a script
        int convProtect = 0;   // ... before the body was reached: the overload which was chosen must stay bound
        bool parseOk = false;  // the text is well-formed, what it names is looked up afterwards
        int retScript = -1;    // script to run in the conversion of the result
    };
    struct TaskCtx
    {
        Task* t = nullptr;
        Frame* top = nullptr;
        int depth = 0;
        int execBudget = 0, lineBudget = 0;
        uint64_t seq = 0;
        bool noScript = false;
    };
    struct Buf
    {
        char* base = nullptr; // allocation
        char* p = nullptr;    // text
        size_t n = 0;
        std::string orig;
        void set(std::string const& s)
        {
            orig = s;
            n = s.size();
            base = (char*)malloc(n ? n : 1);
            p = n ? base : base + 1;
            if (n) memcpy(p, s.data(), n);
        }
        void scramble() { if (n) memset(p, 0xDD, n); }
        void release() { if (base) { scramble(); free(base); } base = p = nullptr; }
        coil::StringView view() const { return coil::StringView{p, n}; }
    };
    struct Holder
    {
        int id;
        void* mem = nullptr;
        coil::ExecutionResult* r = nullptr;
        Buf text;
        std::vector<Buf> extra;
        MInput input;
        bool inputValid = false;
        std::string out, ret;
        std::vector<std::string> errs;
        bool hasRet = false;
    };

    struct World
    {
        Plan const* plan = nullptr;
        Interp in[kInterps];
        TaskCtx tc[kMaxTasks];
        std::deque<Obj> objs;
        std::vector<int> objMethod;
        std::vector<FunctorRec> recs; // index: fid - 1
        int nextFid = 1, nextLexer = 1;
        std::vector<Holder*> held;
        std::vector<std::string> names;
        int totalInflight = 0;
        bool preempt = false;
        int maxDepth = 5;
    };
    static World* W = nullptr;
    static int s_live[kMaxFid];
    static int s_lexLive[kMaxLexer];
    static int s_simt[kMaxTasks];

    static TaskCtx& tctx() { return W->tc[t_cur->id]; }
    static void budgets(TaskCtx& tc)
    {
        tc.execBudget = std::max(24, W->maxDepth + 40);
        tc.lineBudget = std::max(160, W->maxDepth * 8);
    }
    // is an overload of this name about to be called, its arguments being converted?
    static bool converting(int idx, std::string const* name)
    {
        for (auto const& tc : W->tc)
        {
            if (W->preempt && &tc != &tctx()) continue;
            for (Frame const* f = tc.top; f; f = f->up)
                if (f->convProtect && f->in == idx && (!name || f->input.name == *name)) return true;
        }
        return false;
    }

    void trackAdd(int fid, int d)
    {
        if (fid <= 0 || fid >= kMaxFid) violation("lifetime:callable", "a callable which isn't alive is used or destroyed");
        s_live[fid] += d;
        if (s_live[fid] < 0) violation("lifetime:callable", "callable %d destroyed twice", fid);
    }
    void simtAdd(int d) { s_simt[t_cur ? t_cur->id : 0] += d; }
    void lexerAdd(int id, int d)
    {
        if (id < 0 || id >= kMaxLexer) violation("lifetime:lexer", "a parser which isn't alive is destroyed");
        s_lexLive[id] += d;
        if (s_lexLive[id] < 0) violation("lifetime:lexer", "parser %d destroyed twice", id);
    }
    std::string retBytes(uint64_t h)
    {
        static char const* const vals[] = {"", "x", "result text", "100%s %n", "two words, and; more|", "line\nline", "'quoted'"};
        std::string s = vals[h % 7];
        if (h % 11 == 0) s += std::string("\0nul\0", 5);
        if (h % 5 == 0) s += std::string((h >> 8) % 60, (char)('a' + (h >> 16) % 26));
        return s;
    }
    int const extern g_staticInts[4];
    int const g_staticInts[4] = {0, -1, 2147483647, 77};
    std::vector<CmdFactory> g_cmds;
    void registerCmdsA();
    void registerCmdsB();
    void registerCmdsC();
    void registerCmdsD();
    void registerCmds()
    {
        if (!g_cmds.empty()) return;
        registerCmdsA();
        registerCmdsB();
        registerCmdsC();
        registerCmdsD();
    }

    SigInfo const* FunctorRec::info() const
    {
        static SigInfo const setter{false, R_VALUE, {A_INT}};
        switch (kind)
        {
        case F_CMD: return &g_cmds[(size_t)sig].info;
        case F_METHOD: return &g_methodSigs[sig];
        case F_FREE: return &g_freeSigs[sig];
        default: return &setter;
        }
    }
    size_t FunctorRec::arity() const
    {
        switch (kind)
        {
        case F_CMD: case F_METHOD: case F_FREE: return info()->args.size();
        case F_VARGET: case F_PROPGET: return 0;
        default: return 1;
        }
    }
    static std::vector<AT> argTypes(FunctorRec const& f)
    {
        switch (f.kind)
        {
        case F_CMD: case F_METHOD: case F_FREE: return f.info()->args;
        case F_VARGET: case F_PROPGET: return {};
        case F_VARSET: case F_VARSETRO: return {g_varTypes[f.slot]};
        case F_PROPSET: return {A_INT};
        case F_PROPSETRO: return {f.sig ? A_INT : A_VALUE};
        }
        return {};
    }

    // ------------------------------------------------------------------ small helpers
    static std::string show(std::string const& s) { return esc(s.size() > 120 ? s.substr(0, 120) + "..." : s); }
    static int num(std::vector<std::string> const& w, size_t i, int d = 0) { return i < w.size() ? atoi(w[i].c_str()) : d; }
    static std::string txt(std::vector<std::string> const& w, size_t i) { return i < w.size() ? unesc(w[i]) : std::string(); }

    struct Caught
    {
        bool any = false, injected = false;
        Thr k = Thr::None;
        std::exception_ptr ep;
    };
    // to be called from a handler
    static Caught classify()
    {
        Caught c;
        c.any = true;
        c.ep = std::current_exception();
        try { throw; }
        catch (InjectedBadAlloc const&) { c.injected = true; }
        catch (std::bad_alloc const&) { c.k = Thr::BadAlloc; }
        catch (SimEx const&) { c.k = Thr::Custom; }
        catch (std::runtime_error const& e)
        {
            c.k = Thr::Count;
            for (Thr k : {Thr::Runtime, Thr::Percent, Thr::Empty, Thr::Long})
                if (!strcmp(e.what(), thrWhat(k))) c.k = k;
        }
        catch (int v) { c.k = v == 42 ? Thr::Int : Thr::Count; }
        catch (ThrStruct const&) { c.k = Thr::Struct; }
        catch (std::exception const&) { c.k = Thr::Count; }
        return c;
    }

    // ------------------------------------------------------------------ registry view
    static void verifyName(Interp& I, std::string const& name)
    {
        auto it = I.reg.find(name);
        Buf nb;
        nb.set(name);
        coil::Bindings::Command const* c;
        {
            CoilScope s;
            c = static_cast<coil::Bindings const*>(I.b)->get(nb.view());
        }
        if ((c != nullptr) != (it != I.reg.end()))
            violation("registry:presence", "name '%s' is %s but the interpreter says otherwise", show(name).c_str(), it != I.reg.end() ? "bound" : "not bound");
        if (c)
        {
            auto const& rs = it->second;
            if (S(c->name) != name) violation("registry:name", "command '%s' reports the name '%s'", show(name).c_str(), show(S(c->name)).c_str());
            if (c->functors.size() != rs.size()) violation("registry:overloads", "name '%s' has %zu overloads, expected %zu", show(name).c_str(), c->functors.size(), rs.size());
            for (size_t i = 0; i < rs.size(); i++)
                if (c->functors[i].arity() != rs[i].arity() || c->functors[i].parameterTypes().size() != rs[i].arity())
                    violation("registry:arity", "overload %zu of '%s' has arity %zu, expected %zu", i, show(name).c_str(), c->functors[i].arity(), rs[i].arity());
        }
        nb.release();
    }
    static void verifyRegistry(Interp& I, bool all = true)
    {
        if (!I.alive) return;
        for (auto const& n : W->names) verifyName(I, n);
        size_t k = 0;
        size_t const stride = all ? 1 : I.reg.size() / 100 + 1;
        for (auto const& kv : I.reg)
            if (k++ % stride == 0) verifyName(I, kv.first);
    }
    static void verifyVars(Interp& I)
    {
        if (!I.vars) return;
        for (int s = 0; s < kVarSlots; s++)
        {
            std::string r, t;
            varGetText(*I.vars, s, r, t);
            if (r != I.varRepr[s]) violation("variable:value", "variable %d is '%s', expected '%s'", s, show(r).c_str(), show(I.varRepr[s]).c_str());
        }
    }
    static void syncVar(Interp& I, int slot)
    {
        std::string t;
        varGetText(*I.vars, slot, I.varRepr[slot], t);
    }
    // nothing is in progress: what isn't reachable any more must be gone
    static void verifyQuiescent(bool end)
    {
        if (W->totalInflight || (W->preempt && !end)) return;
        std::vector<char> bound((size_t)W->nextFid + 1, 0);
        std::vector<char> lex((size_t)W->nextLexer + 1, 0);
        for (auto& I : W->in)
            if (I.alive)
            {
                for (auto& kv : I.reg)
                    for (auto& r : kv.second)
                    {
                        if (r.fid) bound[(size_t)r.fid] = 1;
                        if (r.fid2) bound[(size_t)r.fid2] = 1;
                    }
                if (I.lex.lexerId) lex[(size_t)I.lex.lexerId] = 1;
            }
        for (int f = 1; f < W->nextFid; f++)
        {
            auto const& r = W->recs[(size_t)f - 1];
            bool tracked = r.kind == F_CMD || r.kind == F_PROPGET || r.kind == F_PROPSET;
            if (!tracked) continue;
            if (bound[(size_t)f] && s_live[f] < 1) violation("lifetime:callable-lost", "callable %d is bound but was destroyed", f);
            if (!bound[(size_t)f] && s_live[f] != 0) violation("lifetime:callable-leak", "callable %d isn't reachable any more but %d instances are alive", f, s_live[f]);
        }
        for (int l = 1; l < W->nextLexer; l++)
            if (s_lexLive[l] != (lex[(size_t)l] ? 1 : 0))
                violation("lifetime:lexer", "parser %d: %d instances alive, expected %d", l, s_lexLive[l], (int)lex[(size_t)l]);
    }

    // ------------------------------------------------------------------ prediction
    static void predictCall(Frame& f, Interp& I)
    {
        f.reprs.clear();
        f.convErrs = 0;
        f.convThrows.clear();
        f.convMentions.clear();
        f.f = FunctorRec{};
        if (f.input.name.empty()) { f.cls = CNoName; return; }
        auto it = I.reg.find(f.input.name);
        if (it == I.reg.end()) { f.cls = CUnknown; return; }
        FunctorRec const* r = nullptr;
        for (auto const& x : it->second)
            if (x.arity() == f.input.args.size()) { r = &x; break; }
        if (!r) { f.cls = CArity; return; }
        f.f = *r;
        auto types = argTypes(*r);
        for (size_t i = 0; i < types.size(); i++)
        {
            MConv c = mConvert(types[i], f.input.args[i]);
            if (c.r == MConv::Error) { f.convErrs++; f.convMentions.push_back(mConvertErrorMentions(types[i], f.input.args[i])); }
            if (c.r == MConv::Throws) f.convThrows.push_back(c.thr);
            f.reprs.push_back(c.repr);
        }
        f.cls = f.convErrs || !f.convThrows.empty() ? CConv : CInvoke;
    }

    // ------------------------------------------------------------------ verification of one call
    static bool matchOut(std::vector<Emis> const& e, std::string const& s)
    {
        std::vector<size_t> pos{0};
        for (auto const& x : e)
        {
            std::vector<size_t> np;
            for (size_t p : pos)
                for (auto const& a : x.alts)
                    if (s.compare(p, a.size(), a) == 0 && p + a.size() <= s.size())
                    {
                        bool dup = false;
                        for (size_t q : np) dup = dup || q == p + a.size();
                        if (!dup) np.push_back(p + a.size());
                    }
            pos = np;
        }
        for (size_t p : pos)
            if (p == s.size()) return true;
        return false;
    }
    static bool matchErr(ErrRec const& e, std::string const& s, bool fmtFault)
    {
        switch (e.k)
        {
        case ErrRec::Exact: return s == e.text;
        case ErrRec::Contains: return fmtFault ? true : !s.empty() && s.find(e.text) != std::string::npos;
        default:
            if (fmtFault) return true;
            for (auto const& n : e.needles)
                if (s.find(n) == std::string::npos) return false;
            return !s.empty();
        }
    }
    static bool matchErrs(std::vector<ErrRec> const& e, size_t i, std::vector<std::string> const& s, size_t j, bool fmt, bool prefixOnly)
    {
        if (i == e.size()) return prefixOnly || j == s.size();
        if (j < s.size() && matchErr(e[i], s[j], fmt) && matchErrs(e, i + 1, s, j + 1, fmt, prefixOnly)) return true;
        return e[i].maybe && matchErrs(e, i + 1, s, j, fmt, prefixOnly);
    }

    // formatting may have failed: text may be missing, but nothing else may appear
    static bool partOf(std::string const& got, std::string const& full)
    {
        size_t i = 0;
        for (char c : full)
            if (i < got.size() && got[i] == c) i++;
        return i == got.size();
    }

    static std::string where(Frame const& f)
    {
        return "op " + std::to_string(t_cur->op) + " depth " + std::to_string(tctx().depth) + " command '" + show(f.input.name) + "' (" + kClsName[f.cls] + ")";
    }

    static void verifyInput(Frame const& f, coil::ExecutionInput const& in, MInput const& m)
    {
        bool same = S(in.name) == m.name && in.arguments.size() == m.args.size() && in.namedArguments.size() == m.named.size();
        auto eqv = [](coil::Value const& v, MValue const& mv) {
            if (v.subvalues.size() != mv.sub.size()) return false;
            for (size_t i = 0; i < mv.sub.size(); i++)
                if (S(v.subvalues[i]) != mv.sub[i]) return false;
            return true;
        };
        for (size_t i = 0; same && i < m.args.size(); i++) same = eqv(in.arguments[i], m.args[i]);
        for (size_t i = 0; same && i < m.named.size(); i++) same = S(in.namedArguments[i].key) == m.named[i].first && eqv(in.namedArguments[i].value, m.named[i].second);
        if (!same) violation("result:input", "the parsed input in the result isn't what the text denotes: %s", where(f).c_str());
    }

    static void verifyCall(Frame& f, coil::ExecutionResult* r, Caught const& c)
    {
        Task& t = *t_cur;
        bool const af = t.allocFaultsFired != f.af0;
        bool const ff = t.formatFaultsFired != f.ff0;
        std::string const w = where(f);

        // exactly once or not at all
        if (f.wrongRuns) violation("body:wrong", "a wrong body was run: %s", w.c_str());
        bool const isBody = f.cls == CInvoke && (f.f.kind == F_CMD || f.f.kind == F_METHOD || f.f.kind == F_FREE);
        if (f.bodyRuns > (isBody ? 1 : 0)) violation("body:count", "body ran %d times: %s", f.bodyRuns, w.c_str());
        if (f.setterRuns > (f.cls == CInvoke && f.f.kind == F_PROPSET ? 1 : 0)) violation("body:setter", "setter ran %d times: %s", f.setterRuns, w.c_str());
        if (f.cls != CInvoke && f.getterRuns) violation("body:getter", "getter ran without a valid call: %s", w.c_str());
        if (f.lexRuns > 1) violation("lexer:count", "text parsed %d times: %s", f.lexRuns, w.c_str());
        if (s_simt[t.id] != f.simt0) violation("lifetime:argument", "%+d argument objects are alive after the call: %s", s_simt[t.id] - f.simt0, w.c_str());

        // expected errors and value
        std::vector<ErrRec> E;
        bool expectRet = false;
        std::string ret;
        std::vector<Thr> mayThrow; // user exceptions raised in this call
        switch (f.cls)
        {
        case CLexThrow: mayThrow.push_back(f.lexThrow); E.push_back({ErrRec::Any, "", false}); break;
        case CSyntax: case CNoName: E.push_back({ErrRec::Any, "", false}); break;
        case CUnknown: E.push_back({ErrRec::Any, "", false, {mUpToNul(f.input.name)}}); break;
        case CArity: E.push_back({ErrRec::Any, "", false, {mUpToNul(f.input.name), std::to_string(f.input.args.size())}}); break;
        case CConv:
            mayThrow = f.convThrows;
            if (mayThrow.empty())
                for (int i = 0; i < f.convErrs; i++) E.push_back({ErrRec::Any, "", false, f.convMentions[(size_t)i]});
            break;
        case CInvoke:
            E = f.errs;
            if (f.threw && !f.thrInjected) mayThrow.push_back(f.thrown);
            if (f.retThrow != Thr::None && f.returned) mayThrow.push_back(f.retThrow);
            if (f.f.kind == F_VARSETRO || f.f.kind == F_PROPSETRO) E.push_back({ErrRec::Any, "", false});
            break;
        }
        if (!mayThrow.empty() && f.cls != CLexThrow)
        {
            char const* wh = thrWhat(mayThrow[0]);
            // which of several conversions throws first is not specified
            bool one = true;
            for (Thr k : mayThrow) one = one && k == mayThrow[0];
            E.push_back({one && wh ? ErrRec::Contains : ErrRec::Any, one && wh ? wh : "", false});
        }

        if (c.any)
        {
            if (c.injected)
            {
                if (!af) violation("exception:unexpected", "out-of-memory exception without a failed allocation: %s", w.c_str());
                count("outcome.oom_exception");
                return;
            }
            bool known = false;
            for (Thr k : mayThrow) known = known || k == c.k;
            if (!known) violation("exception:unexpected", "unexpected exception (kind %d): %s", (int)c.k, w.c_str());
            if (kCatch && f.cls != CLexThrow) violation("exception:escaped", "an exception of user code left execute() although catching is enabled: %s", w.c_str());
            count("outcome.user_exception");
            return;
        }

        if (!kCatch && !mayThrow.empty() && f.cls != CLexThrow && !af)
            violation("exception:swallowed", "an exception of user code didn't reach the caller: %s", w.c_str());
        if (f.threw && f.thrInjected && !kCatch)
            violation("exception:swallowed", "an out-of-memory exception of a body didn't reach the caller: %s", w.c_str());

        std::string const out = S(r->output);
        std::vector<std::string> errs;
        for (auto const& e : r->errors)
        {
            errs.push_back(S(e));
            if (e.cStr()[e.length()] != 0) violation("string:terminator", "error text without terminator: %s", w.c_str());
        }
        bool const hasRet = r->returnValue.hasValue();
        std::string const gotRet = hasRet ? S(*r->returnValue) : std::string();

        if (!matchOut(f.out, out))
        {
            std::string exp;
            for (auto const& e : f.out) exp += e.alts[0];
            violation("result:output", "output is '%s', expected '%s': %s", show(out).c_str(), show(exp).c_str(), w.c_str());
        }

        if (f.cls == CInvoke && !f.threw)
        {
            switch (f.f.kind)
            {
            case F_CMD: case F_METHOD: case F_FREE:
                expectRet = f.haveRet && f.returned;
                ret = f.ret;
                break;
            case F_VARGET: case F_VARSET: case F_VARSETRO:
            {
                std::string rp;
                varGetText(*W->in[f.f.owner].vars, f.f.slot, rp, ret);
                expectRet = f.f.kind != F_VARSETRO;
                break;
            }
            case F_PROPGET: case F_PROPSET: case F_PROPSETRO:
                ret = std::to_string(W->in[f.f.owner].props[f.f.slot]);
                expectRet = f.f.kind != F_PROPSETRO;
                break;
            }
        }
        if (!f.errs.empty() || !E.empty())
        {
            bool allMaybe = true;
            for (auto const& e : E) allMaybe = allMaybe && e.maybe;
            if (!allMaybe || !errs.empty()) expectRet = false;
        }
        bool const ranRight = f.cls != CInvoke || (isBody ? f.bodyRuns == 1 && (f.returned || f.threw)
            : f.f.kind == F_PROPSET ? f.setterRuns == 1 : f.f.kind == F_PROPGET ? f.getterRuns == 1 : f.f.kind == F_PROPSETRO ? f.setterRuns == 0 : true);
        bool const errsOk = matchErrs(E, 0, errs, 0, ff, false);
        bool const retOk = hasRet == expectRet && (!hasRet || gotRet == ret || (ff && partOf(gotRet, ret)));
        if (f.threw && f.thrInjected && kCatch)
        {
            // the body ended with an out-of-memory exception
            if (hasRet || errs.empty() || !matchErrs(f.errs, 0, errs, 0, ff, true))
                violation("result:oom", "a command which ran out of memory reports %zu errors and %s value: %s", errs.size(), hasRet ? "a" : "no", w.c_str());
        }
        else if (!(errsOk && retOk && ranRight))
        {
            bool const failedVisibly = af && !errs.empty() && !hasRet && matchErrs(f.errs, 0, errs, 0, ff, true);
            if (!failedVisibly)
            {
                if (!ranRight) violation("body:missing", "body ran %d times (setter %d, getter %d) and the call reports %zu errors: %s", f.bodyRuns, f.setterRuns, f.getterRuns, errs.size(), w.c_str());
                if (!errsOk)
                    violation("result:errors", "%zu errors reported (first '%s'), expected %zu (first '%s'): %s", errs.size(), errs.empty() ? "" : show(errs[0]).c_str(),
                        E.size(), E.empty() ? "" : show(E[0].needles.empty() ? E[0].text : E[0].needles[0]).c_str(), w.c_str());
                violation("result:value", "value is %s'%s', expected %s'%s': %s", hasRet ? "" : "none ", show(gotRet).c_str(), expectRet ? "" : "none ", show(ret).c_str(), w.c_str());
            }
            count("outcome.visible_oom_error");
        }
        if (hasRet && (*r->returnValue).cStr()[gotRet.size()] != 0) violation("string:terminator", "return value without terminator: %s", w.c_str());
        if (f.cls != CSyntax && f.cls != CLexThrow) verifyInput(f, r->input, f.input);

        if (!ff && !af)
        {
            logEvent(out);
            for (auto const& e : errs) logEvent(e);
            logEvent(gotRet);
            logEvent(hasRet);
        }
        count(kClsName[f.cls]);
    }

    // ------------------------------------------------------------------ execution
    struct ExecOpts
    {
        bool retain = false;
        int holderId = 0;
        bool freeTextFirst = false;
        MInput const* direct = nullptr; // ExecutionInput API
    };

    static void releaseHolder(Holder* h, bool verifyViews)
    {
        if (verifyViews && h->inputValid)
        {
            Frame dummy;
            dummy.input = h->input;
            verifyInput(dummy, h->r->input, h->input);
        }
        h->text.release();
        for (auto& b : h->extra) b.release();
        h->inputValid = false;
    }
    static void verifyHolder(Holder* h)
    {
        bool ok = S(h->r->output) == h->out && h->r->returnValue.hasValue() == h->hasRet && (!h->hasRet || S(*h->r->returnValue) == h->ret) && h->r->errors.size() == h->errs.size();
        for (size_t i = 0; ok && i < h->errs.size(); i++) ok = S(h->r->errors[i]) == h->errs[i];
        if (!ok) violation("result:changed", "a retained result (of op %d) changed after the call", h->id);
        if (h->inputValid)
        {
            Frame dummy;
            dummy.input = h->input;
            verifyInput(dummy, h->r->input, h->input);
        }
    }
    static void dropHolder(Holder* h)
    {
        verifyHolder(h);
        releaseHolder(h, true);
        verifyHolder(h);
        {
            CoilScope s;
            h->r->~ExecutionResult();
        }
        free(h->mem);
        delete h;
    }

    static void doExec(int idx, std::string const& text, ExecOpts const& o, bool propagate, std::string* outText = nullptr)
    {
        TaskCtx& tc = tctx();
        Interp& I = W->in[idx];
        if (!I.alive || tc.depth >= W->maxDepth || tc.execBudget <= 0) return;
        tc.execBudget--;
        if (tc.depth > 0) count("nested_exec");
        I.hwText = std::max(I.hwText, text.size());

        Frame f;
        f.in = idx;
        f.up = tc.top;
        if (o.direct) f.input = *o.direct;
        else
        {
            MParse p = mParse(I.lex, text);
            if (p.r == MParse::Error) f.cls = CSyntax;
            else if (p.r == MParse::Throws) { f.cls = CLexThrow; f.lexThrow = p.thr; }
            else f.input = p.in;
            if (p.r != MParse::Ok) f.input = MInput{};
        }
        f.parseOk = f.cls == CSyntax && (o.direct || mParse(I.lex, text).r == MParse::Ok);
        if (f.parseOk) predictCall(f, I);

        Holder* h = new Holder;
        h->id = t_cur->op;
        h->mem = malloc(sizeof(coil::ExecutionResult));
        coil::ExecutionInput* dinp = nullptr;
        alignas(coil::ExecutionInput) char dmem[sizeof(coil::ExecutionInput)];
        if (o.direct)
        {
            auto mk = [&](std::string const& s) { h->extra.emplace_back(); h->extra.back().set(s); return h->extra.back().view(); };
            dinp = new (dmem) coil::ExecutionInput();
            dinp->name = mk(o.direct->name);
            auto mv = [&](MValue const& m) {
                coil::Vector<coil::StringView> v;
                for (auto const& s : m.sub) v.pushBack(mk(s));
                return coil::Value{coil::move(v)};
            };
            for (auto const& a : o.direct->args) dinp->arguments.pushBack(mv(a));
            for (auto const& n : o.direct->named) { auto k = mk(n.first); dinp->namedArguments.pushBack(coil::NamedValue{k, mv(n.second)}); }
        }
        else h->text.set(text);

        f.af0 = t_cur->allocFaultsFired;
        f.ff0 = t_cur->formatFaultsFired;
        f.simt0 = s_simt[t_cur->id];
        I.inflight++;
        W->totalInflight++;
        tc.top = &f;
        tc.depth++;
        trace("%*sexecute on %d: '%s' -> %s\n", tc.depth * 2, "", idx, o.direct ? ("<" + show(o.direct->name) + ">").c_str() : show(text).c_str(), kClsName[f.cls]);
        logEvent((uint64_t)f.cls * 31 + 5);
        Caught c;
        try
        {
            CoilScope s;
            // the input is given away or copied; a kept result is the original one or a copy of it
            if (o.direct && ((o.direct->args.size() ^ t_cur->op) & 1)) h->r = new (h->mem) coil::ExecutionResult(I.b->execute(*dinp));
            else if (o.direct) h->r = new (h->mem) coil::ExecutionResult(I.b->execute(coil::move(*dinp)));
            else h->r = new (h->mem) coil::ExecutionResult(I.b->execute(h->text.view()));
        }
        catch (...)
        {
            c = classify();
        }
        tc.depth--;
        tc.top = f.up;
        I.inflight--;
        W->totalInflight--;
        if (dinp)
        {
            CoilScope s;
            dinp->~ExecutionInput();
        }
        if (g_trace)
        {
            if (c.any) trace("%*s-> exception %s%d\n", (tc.depth + 1) * 2, "", c.injected ? "injected " : "", (int)c.k);
            else trace("%*s-> output '%s' errors %zu '%s' value %s\n", (tc.depth + 1) * 2, "", show(S(h->r->output)).c_str(), h->r->errors.size(),
                     h->r->errors.size() ? show(S(h->r->errors[0])).c_str() : "", h->r->returnValue ? show(S(*h->r->returnValue)).c_str() : "none");
        }

        // variables: changed by a completed conversion only
        if (f.cls == CInvoke && f.f.kind == F_VARSET)
        {
            Interp& O = W->in[f.f.owner];
            bool const af = t_cur->allocFaultsFired != f.af0;
            std::string r, t;
            varGetText(*O.vars, f.f.slot, r, t);
            if (r == f.reprs[0]) O.varRepr[f.f.slot] = r;
            else if (!(af && r == O.varRepr[f.f.slot]))
                violation("variable:set", "variable is '%s' after being set to '%s' (was '%s')", show(r).c_str(), show(f.reprs[0]).c_str(), show(O.varRepr[f.f.slot]).c_str());
            if (af && !c.any && h->r->returnValue.hasValue() && r != f.reprs[0]) violation("variable:set", "a call reports success without having set the variable");
        }
        if (!W->preempt) for (auto& J : W->in) verifyVars(J);
        else verifyVars(I);

        verifyCall(f, h->r, c);

        if (c.any)
        {
            free(h->mem);
            h->text.release();
            for (auto& b : h->extra) b.release();
            delete h;
            if (propagate && tc.top)
            {
                // the exception passes through the enclosing body
                if (tc.top->inConv && !tc.top->inAccessor) return;
                tc.top->threw = true;
                tc.top->thrInjected = c.injected;
                tc.top->thrown = c.k;
                count("exception_through_frames");
                std::rethrow_exception(c.ep);
            }
            return;
        }
        h->out = S(h->r->output);
        for (auto const& e : h->r->errors) h->errs.push_back(S(e));
        h->hasRet = h->r->returnValue.hasValue();
        if (h->hasRet) h->ret = S(*h->r->returnValue);
        h->input = f.input;
        h->inputValid = f.cls != CSyntax && f.cls != CLexThrow;
        if (outText) *outText = h->out;
        if (o.retain)
        {
            h->id = o.holderId;
            if ((t_cur->op + h->errs.size()) & 1)
            {
                // what is kept is a copy
                void* mem = malloc(sizeof(coil::ExecutionResult));
                coil::ExecutionResult* copy = nullptr;
                try
                {
                    CoilScope s;
                    copy = new (mem) coil::ExecutionResult(*h->r);
                }
                catch (...)
                {
                    Caught const cc = classify();
                    if (!cc.injected) violation("result:copy", "copying a result throws");
                }
                if (copy)
                {
                    {
                        CoilScope s;
                        h->r->~ExecutionResult();
                    }
                    free(h->mem);
                    h->mem = mem;
                    h->r = copy;
                    count("result_copied");
                }
                else free(mem);
            }
            W->held.push_back(h);
            count("retained");
        }
        else
        {
            if (o.freeTextFirst) { releaseHolder(h, true); verifyHolder(h); }
            dropHolder(h);
        }
    }

    // ------------------------------------------------------------------ registry operations
    static bool buildSpec(std::string const& spec, int owner, std::vector<FunctorRec>& recs)
    {
        size_t p = 0;
        while (p < spec.size())
        {
            size_t e = spec.find(',', p);
            if (e == std::string::npos) e = spec.size();
            std::string s = spec.substr(p, e - p);
            p = e + 1;
            if (s.empty()) continue;
            FunctorRec r;
            r.owner = owner;
            int n = atoi(s.c_str() + 1);
            auto c = s.find(':');
            if (c != std::string::npos) r.script = atoi(s.c_str() + c + 1);
            if (n < 0) return false;
            switch (s[0])
            {
            case 'c': r.kind = F_CMD; r.sig = n % (int)g_cmds.size(); recs.push_back(r); break;
            case 'm': r.kind = F_METHOD; r.sig = n % 4; if (r.sig == 3) r.script = -1; recs.push_back(r); break;
            case 'f': r.kind = F_FREE; r.sig = n % 3; recs.push_back(r); break;
            case 'v': case 'V':
                r.slot = n % kVarSlots;
                r.kind = F_VARGET;
                recs.push_back(r);
                r.kind = s[0] == 'v' ? F_VARSET : F_VARSETRO;
                recs.push_back(r);
                return recs.size() == 2;
            case 'e': return recs.empty() && e == spec.size(); // no overload at all
            case 'p': case 'P': case 'b': case 'B':
                r.slot = n % kPropSlots;
                r.sig = s[0] == 'B' || s[0] == 'b';
                r.kind = F_PROPGET;
                recs.push_back(r);
                r.kind = s[0] == 'p' || s[0] == 'b' ? F_PROPSET : F_PROPSETRO;
                recs.push_back(r);
                return recs.size() == 2;
            default: return false;
            }
        }
        return !recs.empty();
    }

    static coil::AnyFunctor makeOne(FunctorRec const& r)
    {
        switch (r.kind)
        {
        case F_METHOD: return makeMethod(r.sig, &W->objs[(size_t)r.slot]);
        case F_FREE: return makeFree(r.sig);
        default: return g_cmds[(size_t)r.sig].any(r.fid);
        }
    }

    static coil::Vector<coil::AnyFunctor> makeAll(std::vector<FunctorRec> const& recs)
    {
        if (recs.empty()) return {};
        FunctorRec const& r = recs[0];
        switch (r.kind)
        {
        case F_VARGET: return makeVar(*W->in[r.owner].vars, r.slot, recs[1].kind == F_VARSETRO);
        case F_PROPGET:
            if (r.sig) return makeBindProp(&W->in[r.owner].pobj[r.slot], recs[1].kind == F_PROPSETRO);
            return makeProp(r.slot + r.owner * kPropSlots, recs[1].kind == F_PROPSETRO, r.fid, recs[1].fid);
        default: break;
        }
        coil::Vector<coil::AnyFunctor> v;
        for (auto const& x : recs) v.pushBack(makeOne(x));
        return v;
    }

    // the same through the helper for overload sets
    static coil::Vector<coil::AnyFunctor> makeOverloaded(std::vector<FunctorRec> const& r)
    {
        switch (r.size())
        {
        case 2: return coil::overloaded(makeOne(r[0]), makeOne(r[1]));
        case 3: return coil::overloaded(makeOne(r[0]), makeOne(r[1]), makeOne(r[2]));
        default: return coil::overloaded(makeOne(r[0]), makeOne(r[1]), makeOne(r[2]), makeOne(r[3]));
        }
    }

    // fills in identities; the records must not be used again
    static bool allocFids(std::vector<FunctorRec>& recs)
    {
        for (auto& r : recs)
        {
            if (W->nextFid >= kMaxFid - 2) return false;
            r.fid = W->nextFid++;
            s_live[r.fid] = 0;
            if (r.kind == F_METHOD)
            {
                W->objs.emplace_back();
                W->objs.back().fid = r.fid;
                r.slot = (int)W->objs.size() - 1;
            }
            W->recs.push_back(r);
            // bindProperty and the read-only forms have no tracked callable of their own
            if ((r.kind == F_PROPGET || r.kind == F_PROPSET) && r.sig) W->recs.back().kind = F_PROPSETRO;
        }
        return true;
    }

    static void doBind(int idx, int via, std::string const& name, std::string const& spec, int owner = -1)
    {
        Interp& I = W->in[idx];
        std::vector<FunctorRec> recs;
        if (!I.alive || converting(idx, &name) || !buildSpec(spec, owner < 0 ? idx : owner, recs) || !allocFids(recs)) return;
        I.hwNames = std::max(I.hwNames, I.reg.size() + 1);
        if (I.inflight) count("registry_change_in_flight");
        bool const single = recs.size() == 1 && recs[0].kind != F_VARGET && recs[0].kind != F_PROPGET;
        trace("%*sbind on %d: '%s' = %s (fids up to %d)\n", tctx().depth * 2 + 2, "", idx, show(name).c_str(), spec.c_str(), W->nextFid - 1);
        Buf nb;
        nb.set(name);
        uint64_t af0 = t_cur->allocFaultsFired;
        Caught c;
        try
        {
            CoilScope s;
            if (single)
            {
                FunctorRec const& r = recs[0];
                if (r.kind == F_CMD && via % 4 == 0) g_cmds[(size_t)r.sig].proxy(*I.b, nb.view(), r.fid);
                else if (r.kind == F_CMD && via % 4 == 1) g_cmds[(size_t)r.sig].add(*I.b, nb.view(), r.fid);
                else if (via % 4 == 2) I.b->add(nb.view(), makeOne(r));
                else (*I.b)[nb.view()] = makeOne(r);
            }
            else if (via % 4 >= 2 && recs.size() >= 2 && recs.size() <= 4 && recs[0].kind != F_VARGET && recs[0].kind != F_PROPGET)
            {
                if (via % 4 == 2) I.b->add(nb.view(), makeOverloaded(recs));
                else (*I.b)[nb.view()] = makeOverloaded(recs);
            }
            else if (via % 2) I.b->add(nb.view(), makeAll(recs));
            else (*I.b)[nb.view()] = makeAll(recs);
        }
        catch (...)
        {
            c = classify();
        }
        nb.release();
        if (c.any)
        {
            if (!c.injected || t_cur->allocFaultsFired == af0) violation("registry:bind-failed", "binding '%s' failed without a reason", show(name).c_str());
            count("bind_failed");
            logEvent(77);
        }
        else
        {
            if (t_cur->allocFaultsFired != af0) count("bind_survived_fault");
            I.reg[name] = recs;
        }
        verifyName(I, name);
        if (c.any) verifyRegistry(I, I.reg.size() < 60);
    }
    static void doUnbind(int idx, std::string const& name, bool proxy)
    {
        Interp& I = W->in[idx];
        if (!I.alive || converting(idx, &name)) return;
        if (I.inflight) count("registry_change_in_flight");
        trace("%*sunbind on %d: '%s'\n", tctx().depth * 2 + 2, "", idx, show(name).c_str());
        Buf nb;
        nb.set(name);
        try
        {
            CoilScope s;
            if (proxy) (*I.b)[nb.view()] = nullptr;
            else I.b->remove(nb.view());
        }
        catch (...) { violation("registry:unbind-failed", "unbinding '%s' failed", show(name).c_str()); }
        nb.release();
        I.reg.erase(name);
        verifyName(I, name);
    }
    static void doClear(int idx)
    {
        Interp& I = W->in[idx];
        if (!I.alive || converting(idx, nullptr)) return;
        if (I.inflight) count("registry_change_in_flight");
        trace("%*sclear %d\n", tctx().depth * 2 + 2, "", idx);
        try
        {
            CoilScope s;
            I.b->clear();
        }
        catch (...) { violation("registry:clear-failed", "clearing failed"); }
        I.reg.clear();
        verifyRegistry(I);
    }

    static LexCfg lexOf(std::vector<std::string> const& w, size_t i)
    {
        LexCfg c;
        std::string k = i < w.size() ? w[i] : "d";
        if (k[0] == 's') c.sim = 1 + (atoi(k.c_str() + 1) % 2);
        if (k[0] == 'x')
        {
            c.group = txt(w, i + 1);
            c.quotes = txt(w, i + 2);
            c.seps = txt(w, i + 3);
            c.spaces = txt(w, i + 4);
        }
        return c;
    }
    static void doLexer(int idx, LexCfg cfg)
    {
        Interp& I = W->in[idx];
        if (!I.alive || I.parsing) return;
        if (I.inflight) count("lexer_change_in_flight");
        count("lexer_replaced");
        if (cfg.sim)
        {
            if (W->nextLexer >= kMaxLexer - 2) return;
            cfg.lexerId = W->nextLexer++;
            s_lexLive[cfg.lexerId] = 0;
        }
        trace("%*slexer on %d: sim=%d group='%s' quotes='%s' seps='%s' spaces='%s'\n", tctx().depth * 2 + 2, "", idx, cfg.sim, show(cfg.group).c_str(), show(cfg.quotes).c_str(), show(cfg.seps).c_str(), show(cfg.spaces).c_str());
        uint64_t af0 = t_cur->allocFaultsFired;
        Buf b[4];
        b[0].set(cfg.group);
        b[1].set(cfg.quotes);
        b[2].set(cfg.seps);
        b[3].set(cfg.spaces);
        Caught c;
        try
        {
            CoilScope s;
            if (cfg.sim) I.b->setLexer(coil::makeUnique<SimLexer>(cfg.sim, cfg.lexerId));
            else I.b->setLexer(coil::makeUnique<coil::DefaultLexer>(b[0].view(), b[1].view(), b[2].view(), b[3].view()));
        }
        catch (...) { c = classify(); }
        for (auto& x : b) x.release();
        if (c.any)
        {
            if (!c.injected || t_cur->allocFaultsFired == af0) violation("lexer:set-failed", "replacing the parser failed without a reason");
            count("lexer_failed");
        }
        else I.lex = cfg;
    }

    // ------------------------------------------------------------------ user code
    BodyCall::BodyCall(FKind k, int fid, coil::Context* ctx) : kind(k), fid(fid), ctx(ctx), uncaught(std::uncaught_exceptions()) {}

    BodyCall::~BodyCall()
    {
        Frame* f = tctx().top;
        if (!f) return;
        if (std::uncaught_exceptions() > uncaught)
        {
            if (!f->threw) { f->threw = true; f->thrInjected = true; } // creating the result ran out of memory
        }
        else f->returned = true;
        f->ctx = nullptr;
    }
    void BodyCall::expectReturn(std::string t)
    {
        Frame* f = tctx().top;
        f->haveRet = true;
        f->ret = std::move(t);
    }
    void BodyCall::expectVoid() { tctx().top->isVoid = true; }
    Thr BodyCall::retThrow() const { return tctx().top->retThrow; }
    int BodyCall::retScript() const { return tctx().top->retScript; }

    static void runLine(Frame& f, std::vector<std::string> const& w);
    static void moveInterp(int i, int j, int mode);

    void BodyCall::enter()
    {
        TaskCtx& tc = tctx();
        Frame* f = tc.top;
        if (!f) violation("body:unexpected", "a body runs while no command is being executed");
        if (f->cls != CInvoke || f->f.kind != kind || (kind == F_FREE ? f->f.sig != fid : f->f.fid != fid))
            violation("body:wrong", "body %d runs, expected %d: %s", fid, f->cls == CInvoke ? f->f.fid : 0, where(*f).c_str());
        if (f->bodyRuns++) violation("body:count", "body runs again: %s", where(*f).c_str());
        if (args.size() != f->reprs.size()) violation("body:arguments", "body got %zu arguments: %s", args.size(), where(*f).c_str());
        for (size_t i = 0; i < args.size(); i++)
            if (args[i] != f->reprs[i])
                violation("body:arguments", "argument %zu is '%s', expected '%s': %s", i, show(args[i]).c_str(), show(f->reprs[i]).c_str(), where(*f).c_str());
        f->ctx = ctx;
        // work is compared between interpreters: there the results are alike
        h = tc.noScript ? mix64((uint64_t)f->f.sig) : mix64((uint64_t)(f->f.fid * 7919) + 0x1357 + tc.seq++);
        logEvent((uint64_t)f->f.fid * 3 + 1);
        if (tc.noScript || f->f.script < 0) return;
        auto it = W->plan->scripts.find(f->f.script);
        if (it == W->plan->scripts.end()) return;
        try
        {
            for (auto const& line : it->second)
            {
                if (tc.lineBudget-- <= 0) break;
                runLine(*f, line);
            }
        }
        catch (...)
        {
            if (!f->threw)
            {
                Caught c = classify();
                f->threw = true;
                f->thrInjected = c.injected;
                f->thrown = c.k;
            }
            throw;
        }
        // the arguments are still what they were
        for (size_t i = 0; i < args.size(); i++)
            if (args[i] != f->reprs[i]) violation("body:arguments", "argument %zu changed during the call", i);
        if (ctx)
        {
            CoilScope s;
            bool he = ctx->hasErrors();
            UserScope u;
            bool mayb = false;
            for (auto const& e : f->errs) mayb = mayb || e.maybe;
            if (!mayb && he != !f->errs.empty()) violation("context:errors", "hasErrors() is %d although %zu errors were reported: %s", he, f->errs.size(), where(*f).c_str());
        }
    }

    template<class Fn> static bool emit(Frame& f, Fn fn)
    {
        try
        {
            CoilScope s;
            fn();
            return true;
        }
        catch (InjectedBadAlloc const&)
        {
            count("emission_failed");
            if (f.tolerant) return false;
            f.threw = true;
            f.thrInjected = true;
            throw;
        }
    }

    template<class T> struct ArgT;
    template<> struct ArgT<int> { static constexpr AT at = A_INT; static std::string repr(int v) { return std::to_string(v); } };
    template<> struct ArgT<coil::String> { static constexpr AT at = A_STRING; static std::string repr(coil::String const& v) { return S(v); } };
    template<> struct ArgT<SimT> { static constexpr AT at = A_SIMT; static std::string repr(SimT const& v) { return v.s; } };
    template<> struct ArgT<unsigned long> { static constexpr AT at = A_ULONG; static std::string repr(unsigned long v) { return std::to_string(v); } };
    template<> struct ArgT<std::vector<int>> { static constexpr AT at = A_VECINT; static std::string repr(std::vector<int> const& v) { std::vector<std::string> r; for (int i : v) r.push_back(std::to_string(i)); return reprList(r); } };

    static MValue const* findNamed(Frame& f, std::string const& key)
    {
        for (auto const& n : f.input.named)
            if (n.first == key) return &n.second;
        return nullptr;
    }

    static std::string const kFallback = "fallback";
    template<class T> static T fallback() { return T{}; }
    template<> coil::String fallback<coil::String>() { return "fallback"; }
    template<> SimT fallback<SimT>() { return SimT{kFallback}; }
    template<> std::vector<int> fallback<std::vector<int>>() { return {4, 5}; }
    // modes: 0 get, 1 getOrReport required, 2 optional, 3 optional with a default value
    template<class T> static void namedTyped(Frame& f, std::string const& key, int mode)
    {
        MValue const* m = findNamed(f, key);
        MConv c;
        if (m) c = mConvert(ArgT<T>::at, *m);
        Buf kb;
        kb.set(key);
        std::string got;
        bool has = false;
        int et = -1;
        std::string message;
        uint64_t const ff0 = t_cur->formatFaultsFired, af0 = t_cur->allocFaultsFired;
        bool done = false;
        try
        {
            CoilScope s;
            if (mode == 0)
            {
                auto e = f.ctx->namedArgs().get<T>(kb.view());
                UserScope u;
                has = e.hasValue();
                if (has) got = ArgT<T>::repr(*e);
                else { et = (int)e.error().type; message = S(e.error().message); }
            }
            else
            {
                coil::NamedArgs na = f.ctx->namedArgs();
                coil::NamedArgs::ArgType const type = mode == 1 ? coil::NamedArgs::ArgType::Required : coil::NamedArgs::ArgType::Optional;
                coil::Optional<T> o = mode == 3 ? na.getOrReport<T>(kb.view(), type, coil::Optional<T>{fallback<T>()}) : na.getOrReport<T>(kb.view(), type);
                UserScope u;
                has = o.hasValue();
                if (has) got = ArgT<T>::repr(*o);
            }
            done = true;
        }
        catch (InjectedBadAlloc const&)
        {
            kb.release();
            if (!f.tolerant) { f.threw = true; f.thrInjected = true; throw; }
        }
        catch (...)
        {
            kb.release();
            if (!m || c.r != MConv::Throws) violation("named:exception", "named argument '%s' raised an unexpected exception", show(key).c_str());
            throw;
        }
        if (!done) return;
        kb.release();
        if (m && c.r == MConv::Throws) violation("named:exception", "a throwing conversion of named argument '%s' had no effect", show(key).c_str());
        if (!m && mode == 3) c.repr = ArgT<T>::repr(fallback<T>());
        bool const expHas = (m && c.r == MConv::Ok) || (!m && mode == 3);
        if (has != expHas || (has && got != c.repr))
            violation("named:value", "named argument '%s' is %s'%s', expected %s'%s': %s", show(key).c_str(), has ? "" : "none ", show(got).c_str(), expHas ? "" : "none ", show(c.repr).c_str(), where(f).c_str());
        if (mode == 0 && !has && et != (m ? (int)coil::NamedArgs::Error::Type::TypeMismatch : (int)coil::NamedArgs::Error::Type::MissingKey))
            violation("named:error", "named argument '%s': wrong kind of error", show(key).c_str());
        ErrRec rec{ErrRec::Any, "", false};
        if (m) rec.needles = mConvertErrorMentions(ArgT<T>::at, *m);
        else rec.needles = {mUpToNul(key)};
        if (mode != 0 && !has && (m || mode == 1)) f.errs.push_back(rec);
        if (mode == 0 && !has && t_cur->allocFaultsFired == af0 && !matchErr(rec, message, t_cur->formatFaultsFired != ff0))
            violation("named:error", "named argument '%s': the error is '%s': %s", show(key).c_str(), show(message).c_str(), where(f).c_str());
        count("named_access");
    }

    static void namedAll(Frame& f, std::string const& key)
    {
        Buf kb;
        kb.set(key);
        bool bad = false, done = false;
        bool reported = false;
        try
        {
            CoilScope s;
            coil::NamedArgs na = f.ctx->namedArgs();
            size_t n = na.size();
            size_t i = 0;
            for (auto const& nv : na)
            {
                UserScope u;
                bool same = i < f.input.named.size() && S(nv.key) == f.input.named[i].first && nv.value.subvalues.size() == f.input.named[i].second.sub.size();
                for (size_t k = 0; same && k < nv.value.subvalues.size(); k++) same = S(nv.value.subvalues[k]) == f.input.named[i].second.sub[k];
                bad = bad || !same;
                i++;
            }
            bad = bad || n != f.input.named.size() || i != n;
            MValue const* m;
            { UserScope u; m = findNamed(f, key); }
            auto it = na.find(kb.view());
            bad = bad || (it != na.end()) != (m != nullptr);
            auto e = na.get(kb.view());
            bad = bad || e.hasValue() != (m != nullptr);
            coil::Value const* v = na.getOrReport(kb.view(), coil::NamedArgs::ArgType::Required);
            bad = bad || (v != nullptr) != (m != nullptr);
            if (v && m) { UserScope u; bad = bad || v->subvalues.size() != m->sub.size() || (m->sub.size() && S(v->subvalues[0]) != m->sub[0]); }
            reported = !m;
            done = true;
        }
        catch (InjectedBadAlloc const&)
        {
            kb.release();
            if (!f.tolerant) { f.threw = true; f.thrInjected = true; throw; }
        }
        if (!done) return;
        kb.release();
        if (bad) violation("named:value", "the named arguments seen by the command aren't those of its text: %s", where(f).c_str());
        if (reported) f.errs.push_back({ErrRec::Any, "", false, {mUpToNul(key)}});
        count("named_access");
    }

    static void runLine(Frame& f, std::vector<std::string> const& w)
    {
        std::string const& v = w[0];
        TaskCtx& tc = tctx();
        if (v == "log" || v == "logline" || v == "logf" || v == "loglinef")
        {
            if (!f.ctx) return;
            std::string t = txt(w, 1);
            uint64_t ff0 = t_cur->formatFaultsFired;
            coil::Context& c = *f.ctx;
            std::string full = t;
            bool ok;
            if (v == "log") ok = emit(f, [&] { c.log(coil::String{t.data(), t.size()}); });
            else if (v == "logline")
            {
                full += "\n";
                ok = emit(f, [&] { c.logline(coil::String{t.data(), t.size()}); });
            }
            else
            {
                std::string z = t.c_str();
                int n = (int)(hashStr(z.c_str()) % 100000);
                full = "<" + z + "|" + std::to_string(n) + "|%>";
                if (v == "logf") ok = emit(f, [&] { c.logf("<%s|%d|%%>", z.c_str(), n); });
                else
                {
                    full += "\n";
                    ok = emit(f, [&] { c.loglinef("<%s|%d|%%>", z.c_str(), n); });
                }
            }
            if (ok)
            {
                Emis e{{full}};
                if (t_cur->formatFaultsFired != ff0)
                {
                    e.alts.push_back("");
                    if (v == "loglinef") e.alts.push_back("\n");
                    count("format_fault_in_emission");
                }
                f.out.push_back(e);
            }
        }
        else if (v == "logbad")
        {
            // a genuine failure of the C library: a wide character which isn't representable in the C locale
            if (!f.ctx) return;
            bool ok = emit(f, [&] { f.ctx->logf("%d:%ls", 7, L"\u20ac"); });
            if (ok) f.out.push_back(Emis{{"", "7:"}});
            count("format_failure_real");
        }
        else if (v == "err")
        {
            if (!f.ctx) return;
            std::string t = txt(w, 1);
            if (emit(f, [&] { f.ctx->reportError(coil::String{t.data(), t.size()}); })) f.errs.push_back({ErrRec::Exact, t, false});
        }
        else if (v == "logrep" || v == "errrep")
        {
            // many emissions in a row
            if (!f.ctx) return;
            int const n = num(w, 1);
            std::string const t = txt(w, 2);
            for (int i = 0; i < n; i++)
            {
                if (v == "errrep")
                {
                    if (emit(f, [&] { f.ctx->reportError(coil::String{t.data(), t.size()}); })) f.errs.push_back({ErrRec::Exact, t, false});
                }
                else if (emit(f, [&] { f.ctx->log(coil::String{t.data(), t.size()}); })) f.out.push_back(Emis{{t}});
            }
            count("many_emissions");
        }
        else if (v == "uplog" || v == "uperr")
        {
            // an execution in progress further up is written to, by a body which that execution runs
            Frame* u = &f;
            for (int i = num(w, 1); i > 0 && u; i--) u = u->up;
            if (!u || u == &f || !u->ctx) return;
            std::string const t = txt(w, 2);
            if (v == "uperr")
            {
                if (emit(f, [&] { u->ctx->reportError(coil::String{t.data(), t.size()}); })) u->errs.push_back({ErrRec::Exact, t, false});
            }
            else if (emit(f, [&] { u->ctx->log(coil::String{t.data(), t.size()}); })) u->out.push_back(Emis{{t}});
            count("emission_to_outer");
        }
        else if (v == "errs")
        {
            if (!f.ctx) return;
            std::string a = txt(w, 1), b = txt(w, 2);
            size_t at = f.errs.size();
            f.errs.push_back({ErrRec::Exact, a, true});
            f.errs.push_back({ErrRec::Exact, b, true});
            if (emit(f, [&] { f.ctx->reportErrors(coil::String{a.data(), a.size()}, coil::String{b.data(), b.size()}); }))
                f.errs[at].maybe = f.errs[at + 1].maybe = false;
        }
        else if (v == "named")
        {
            if (!f.ctx) return;
            std::string key = txt(w, 1);
            int type = num(w, 2), mode = num(w, 3);
            if (type == 5) namedAll(f, key);
            else if (type == 0) namedTyped<int>(f, key, mode % 4);
            else if (type == 1) namedTyped<coil::String>(f, key, mode % 4);
            else if (type == 2) namedTyped<SimT>(f, key, mode % 4);
            else if (type == 3) namedTyped<unsigned long>(f, key, mode % 4);
            else namedTyped<std::vector<int>>(f, key, mode % 4);
        }
        else if (v == "throw")
        {
            if (f.inConv && !f.inAccessor) return;
            Thr k = (Thr)(1 + (unsigned)num(w, 1) % ((int)Thr::Count - 1));
            f.threw = true;
            f.thrown = k;
            count("throw_in_body");
            if (std::uncaught_exceptions() == 0 || true) throwKind(k);
        }
        else if (v == "rthrow")
        {
            // only signatures returning SimT honour it
            if (!f.inConv && f.f.kind == F_CMD && (f.f.sig == 8 || f.f.sig == 26 || f.f.sig == 32))
            {
                f.retThrow = (Thr)(1 + (unsigned)num(w, 1) % ((int)Thr::Count - 1));
                count("throw_in_result_conversion");
            }
        }
        else if (v == "rrun")
        {
            if (!f.inConv && f.f.kind == F_CMD && (f.f.sig == 8 || f.f.sig == 26) && !f.tolerant) f.retScript = num(w, 1);
        }
        else if (v == "exec")
        {
            // exec <interp> <flags> <text>
            ExecOpts o;
            std::string flags = w.size() > 2 ? w[2] : "";
            o.freeTextFirst = flags.find('f') != std::string::npos;
            o.retain = flags.find('R') != std::string::npos;
            o.holderId = t_cur->op;
            std::string out;
            doExec(num(w, 1) % kTwin, txt(w, 3), o, flags.find('p') != std::string::npos, &out);
            if (flags.find('o') != std::string::npos && f.ctx && out.size() < 2000)
                if (emit(f, [&] { f.ctx->log(coil::String{out.data(), out.size()}); })) f.out.push_back(Emis{{out}});
        }
        else if (v == "bind") doBind(num(w, 1) % kTwin, num(w, 2), txt(w, 3), w.size() > 4 ? w[4] : "");
        else if (v == "unbind") doUnbind(num(w, 1) % kTwin, txt(w, 2), num(w, 3));
        else if ((v == "unbindself" || v == "rebindself") && f.inConv) {}
        else if (v == "unbindself") { std::string n = f.input.name; count("self_unbind"); doUnbind(f.in, n, num(w, 1)); }
        else if (v == "rebindself") { std::string n = f.input.name; count("self_rebind"); doBind(f.in, num(w, 1), n, w.size() > 2 ? w[2] : ""); }
        else if (v == "clear") doClear(num(w, 1) % kTwin);
        else if (v == "lexer") doLexer(num(w, 1) % kTwin, lexOf(w, 2));
        else if (v == "move")
        {
            int a = num(w, 1) % kTwin, b = num(w, 2) % kTwin;
            if (a >= 0 && b >= 0) moveInterp(a, b, 1);
        }
        else if (v == "get") { Interp& I = W->in[num(w, 1) % kTwin]; if (I.alive) verifyName(I, txt(w, 2)); }
        else if (v == "yield") { (void)tc; coopYield(); }
        else if (v == "errno") errno = num(w, 1);
        else if (v == "tol") f.tolerant = num(w, 1) != 0;
        // whatever happened meanwhile, this execution's own arguments must still be readable
        if ((v == "exec" || v == "yield" || v == "clear" || v == "lexer" || v == "move") && f.ctx && !f.input.named.empty())
        {
            bool bad = false;
            {
                CoilScope s;
                coil::NamedArgs na = f.ctx->namedArgs();
                auto b = na.begin();
                auto e = na.end();
                UserScope u;
                bad = (size_t)(e - b) != f.input.named.size() || S(b->key) != f.input.named[0].first;
            }
            if (bad) violation("named:value", "the named arguments of an execution in progress changed: %s", where(f).c_str());
        }
    }

    // runs a script from user code which has no context: conversions and parsers
    static void runDetached(Frame& f, int sid)
    {
        TaskCtx& tc = tctx();
        auto it = W->plan->scripts.find(sid);
        if (it == W->plan->scripts.end()) return;
        struct Guard
        {
            Frame& f;
            coil::Context* c;
            bool tol;
            explicit Guard(Frame& f) : f(f), c(f.ctx), tol(f.tolerant) { f.ctx = nullptr; f.inConv++; }
            ~Guard() { f.ctx = c; f.tolerant = tol; f.inConv--; }
        } g(f);
        for (auto const& line : it->second)
        {
            if (tc.lineBudget-- <= 0) break;
            runLine(f, line);
        }
    }
    void conversionScript(int sid, bool toText)
    {
        TaskCtx& tc = tctx();
        Frame* f = tc.top;
        if (!f || tc.noScript || f->inConv > 3) return;
        if (toText && (f->f.kind != F_CMD || f->retScript != sid)) return;
        count(toText ? "reentrant_result_conversion" : "reentrant_conversion");
        bool const protect = !toText && f->bodyRuns == 0;
        if (protect) f->convProtect++;
        runDetached(*f, sid);
        if (protect) f->convProtect--;
    }
    void parserScript(int sid)
    {
        TaskCtx& tc = tctx();
        Frame* f = tc.top;
        if (!f || tc.noScript) return;
        count("reentrant_parser");
        Interp& I = W->in[f->in];
        I.parsing++;
        runDetached(*f, sid);
        I.parsing--;
        // what the text names is looked up afterwards
        if (f->parseOk) predictCall(*f, I);
    }

    // getters and setters of properties may execute commands and throw
    static void accessorScript(Frame& f)
    {
        TaskCtx& tc = tctx();
        if (tc.noScript || f.f.script < 0 || f.inAccessor) return;
        count("accessor_script");
        struct Guard
        {
            Frame& f;
            explicit Guard(Frame& f) : f(f) { f.inAccessor++; f.convProtect++; }
            ~Guard() { f.inAccessor--; f.convProtect--; }
        } g(f);
        try
        {
            runDetached(f, f.f.script);
        }
        catch (...)
        {
            if (!f.threw)
            {
                Caught c = classify();
                f.threw = true;
                f.thrInjected = c.injected;
                f.thrown = c.k;
            }
            throw;
        }
    }
    // the last property of an interpreter is stored within limits
    static int propStored(int slot, int v) { return slot % kPropSlots == kPropSlots - 1 ? std::max(-50, std::min(50, v)) : v; }
    int propGet(int slot)
    {
        UserScope u;
        Frame* f = tctx().top;
        if (f)
        {
            f->getterRuns++;
            bool ok = f->cls == CInvoke && (f->f.kind == F_PROPGET || f->f.kind == F_PROPSET || f->f.kind == F_PROPSETRO) && f->f.slot + f->f.owner * kPropSlots == slot;
            if (!ok) f->wrongRuns++;
            else if (f->f.kind == F_PROPGET && f->getterRuns == 1) accessorScript(*f);
        }
        return W->in[slot / kPropSlots].props[slot % kPropSlots];
    }
    void propSet(int slot, int v)
    {
        UserScope u;
        Frame* f = tctx().top;
        if (!f) violation("body:unexpected", "a setter runs while no command is being executed");
        f->setterRuns++;
        if (f->cls != CInvoke || f->f.kind != F_PROPSET || f->f.slot + f->f.owner * kPropSlots != slot) f->wrongRuns++;
        else if (std::to_string(v) != f->reprs[0]) violation("body:arguments", "setter got %d, expected %s", v, f->reprs[0].c_str());
        W->in[slot / kPropSlots].props[slot % kPropSlots] = propStored(slot, v);
        if (!f->wrongRuns && f->setterRuns == 1) accessorScript(*f);
    }
    void simLexerEnter(int id)
    {
        Frame* f = tctx().top;
        if (!f) violation("lexer:unexpected", "a parser runs while no command is being executed");
        f->lexRuns++;
        if (id <= 0 || W->in[f->in].lex.lexerId != id) violation("lexer:wrong", "parser %d used, installed is %d", id, W->in[f->in].lex.lexerId);
        count("simlexer_parse");
    }

    // ------------------------------------------------------------------ interpreters
    static void newInterp(int i)
    {
        Interp& I = W->in[i];
        if (I.alive) return;
        uint64_t af0 = t_cur->allocFaultsFired;
        I.mem = malloc(sizeof(coil::Bindings));
        Caught c;
        try
        {
            CoilScope s;
            I.b = new (I.mem) coil::Bindings();
        }
        catch (...) { c = classify(); }
        if (c.any)
        {
            if (!c.injected || t_cur->allocFaultsFired == af0) violation("interp:create-failed", "creating an interpreter failed without a reason");
            free(I.mem);
            I.mem = nullptr;
            return;
        }
        I.alive = true;
        I.reg.clear();
        I.lex = LexCfg{};
        I.hwNames = I.hwText = 0;
    }
    static void destroyInterp(int i)
    {
        Interp& I = W->in[i];
        if (!I.alive || I.inflight) return;
        {
            CoilScope s;
            I.b->~Bindings();
        }
        memset(I.mem, 0xDB, sizeof(coil::Bindings));
        free(I.mem);
        I.mem = nullptr;
        I.b = nullptr;
        I.alive = false;
        I.reg.clear();
        I.lex = LexCfg{};
        count("interp_destroyed");
    }
    static void moveInterp(int i, int j, int mode)
    {
        Interp &A = W->in[i], &B = W->in[j];
        if (i == j || !B.alive) return;
        A.hwNames = B.hwNames = std::max(A.hwNames, B.hwNames);
        A.hwText = B.hwText = std::max(A.hwText, B.hwText);
        if (A.inflight || B.inflight)
        {
            // executions are in progress: the interpreter which was moved from goes on as a new one
            if (W->preempt || A.parsing || B.parsing || converting(i, nullptr) || converting(j, nullptr)) return;
            alignas(coil::Bindings) char fm[sizeof(coil::Bindings)];
            coil::Bindings* fresh = nullptr;
            try
            {
                CoilScope s;
                fresh = new (fm) coil::Bindings();
            }
            catch (InjectedBadAlloc const&) { return; }
            count("interp_moved_in_flight");
            {
                CoilScope s;
                if (!A.alive)
                {
                    { UserScope u; A.mem = malloc(sizeof(coil::Bindings)); }
                    A.b = new (A.mem) coil::Bindings(coil::move(*B.b));
                }
                else *A.b = coil::move(*B.b);
                *B.b = coil::move(*fresh);
                fresh->~Bindings();
            }
            A.alive = true;
            A.reg = B.reg;
            A.lex = B.lex;
            B.reg.clear();
            B.lex = LexCfg{};
            verifyRegistry(A);
            verifyRegistry(B);
            return;
        }
        count("interp_moved");
        if (!A.alive)
        {
            A.mem = malloc(sizeof(coil::Bindings));
            CoilScope s;
            A.b = new (A.mem) coil::Bindings(coil::move(*B.b));
        }
        else
        {
            CoilScope s;
            *A.b = coil::move(*B.b);
        }
        A.alive = true;
        A.reg = B.reg;
        A.lex = B.lex;
        B.reg.clear();
        B.lex = LexCfg{};
        bool keep = false;
        if (mode & 1)
        {
            // give the moved-from interpreter a new life by assignment
            try
            {
                CoilScope s;
                *B.b = coil::Bindings{};
                keep = true;
            }
            catch (InjectedBadAlloc const&) {}
        }
        if (!keep) destroyInterp(j);
        verifyRegistry(A);
        if (B.alive) verifyRegistry(B);
    }

    // ------------------------------------------------------------------ recovery: compare the work with a fresh twin's
    static std::string canonical(AT t)
    {
        switch (t)
        {
        case A_BOOL: return "true";
        case A_VECINT: return "3";
        default: return "7";
        }
    }
    static void doHeal(int i, std::string const& flags = "")
    {
        Interp& I = W->in[i];
        if (!I.alive || W->totalInflight) return;
        count("heal");
        TaskCtx& tc = tctx();
        setFaultsEnabled(false);
        bool ns = tc.noScript;
        tc.noScript = true;
        newInterp(kTwin);
        Interp& T = W->in[kTwin];
        for (auto& kv : I.reg)
        {
            std::string spec = kv.second.empty() ? "e" : "";
            int owner = i;
            for (auto const& r : kv.second)
            {
                owner = r.owner;
                std::string s;
                switch (r.kind)
                {
                case F_CMD: s = "c" + std::to_string(r.sig); break;
                case F_METHOD: s = "m" + std::to_string(r.sig); break;
                case F_FREE: s = "f" + std::to_string(r.sig); break;
                case F_VARSET: s = "v" + std::to_string(r.slot); break;
                case F_VARSETRO: s = "V" + std::to_string(r.slot); break;
                case F_PROPSET: s = (r.sig ? "b" : "p") + std::to_string(r.slot); break;
                case F_PROPSETRO: s = (r.sig ? "B" : "P") + std::to_string(r.slot); break;
                default: continue;
                }
                spec += (spec.empty() ? "" : ",") + s;
            }
            doBind(kTwin, 3, kv.first, spec, owner);
            if (!T.reg.count(kv.first)) violation("heal:bind", "a fresh interpreter refuses a binding");
        }
        if (I.lex.sim) { LexCfg c = I.lex; c.lexerId = 0; doLexer(kTwin, c); }
        else doLexer(kTwin, I.lex);
        uint64_t sumA = 0, sumB = 0;
        auto probeText = [&](std::string const& text, ExecOpts const& o) {
            uint64_t s0 = t_cur->steps;
            doExec(i, text, o, false);
            uint64_t a = t_cur->steps - s0;
            s0 = t_cur->steps;
            doExec(kTwin, text, o, false);
            uint64_t b = t_cur->steps - s0;
            count("heal_probe");
            sumA += a, sumB += b;
            g_count["heal_ratio_max_x100"] = std::max<uint64_t>(g_count["heal_ratio_max_x100"], a * 100 / (b + 1));
            g_count["heal_steps_max"] = std::max<uint64_t>(g_count["heal_steps_max"], a);
            if (a > 4 * b + 1500) violation("work:unbounded", "command '%s' takes %llu steps, %llu in a fresh interpreter", show(text).c_str(), (unsigned long long)a, (unsigned long long)b);
        };
        auto sums = [&](char const* what) {
            if (sumB) g_count["heal_sum_ratio_max_x100"] = std::max<uint64_t>(g_count["heal_sum_ratio_max_x100"], (sumA > 2000 ? sumA - 2000 : 0) * 100 / sumB);
            if (sumA > 2 * sumB + 3000) violation("work:unbounded", "%s take %llu steps together, %llu in a fresh interpreter", what, (unsigned long long)sumA, (unsigned long long)sumB);
            sumA = sumB = 0;
        };
        auto probe = [&](MInput const& in) {
            tc.execBudget += 4;
            capRestart();
            for (int pass = 0; pass < 2; pass++)
            {
                ExecOpts o;
                std::string text;
                if (pass == 0) o.direct = &in;
                else if (!mRender(I.lex, in, 0, text)) continue;
                probeText(pass ? text : show(in.name), o);
            }
        };
        std::vector<std::pair<std::string, std::vector<FunctorRec>>> all(I.reg.begin(), I.reg.end());
        size_t const stride = all.size() / 120 + 1; // with very many names a sample of them
        for (size_t n = 0; n < all.size(); n += stride)
            for (auto& r : all[n].second)
            {
                auto& kv = all[n];
                MInput in;
                in.name = kv.first;
                for (AT t : argTypes(r)) in.args.push_back(t == A_PAIR ? MValue{{"7", "seven"}} : MValue{{canonical(t)}});
                probe(in);
            }
        MInput un;
        un.name = "no-such-name";
        probe(un);
        for (auto const& n : W->names)
            if (!I.reg.count(n)) { un.name = n; probe(un); break; }
        if (!I.lex.sim)
        {
            // a text which isn't a command at all
            static char const* const kBad[] = {"no-such-name =", "no-such-name \"x", "no-such-name (x", "no-such-name [x", "a = = b", "=", "'", "("};
            for (char const* t : kBad)
                if (mParse(I.lex, t).r == MParse::Error)
                {
                    tc.execBudget += 2;
                    capRestart();
                    probeText(t, ExecOpts{});
                    count("heal_syntax_probe");
                    break;
                }
        }
        sums("the bound commands");
        if (flags.find('G') != std::string::npos)
        {
            // and the same after both have grown
            int const n = 240;
            std::vector<std::string> added;
            for (int k = 0; k < n; k++)
            {
                std::string name = "grow" + std::to_string(k * 7 % n);
                if (I.reg.count(name)) continue;
                capRestart();
                doBind(i, 0, name, "c0");
                doBind(kTwin, 0, name, "c0");
                if (!I.reg.count(name) || !T.reg.count(name)) { violation("heal:bind", "a binding is refused after the faults have stopped"); break; }
                added.push_back(name);
            }
            auto probeName = [&](std::string const& name) {
                tc.execBudget += 2;
                capRestart();
                MInput in;
                in.name = name;
                ExecOpts o;
                o.direct = &in;
                probeText(name, o);
            };
            for (size_t k = 0; k < added.size(); k += 3)
            {
                probeName(added[k]);
                probeName(added[k] + "x");
            }
            sums("the commands bound after the faults have stopped");
            for (auto const& name : added)
            {
                capRestart();
                doUnbind(i, name, false);
                doUnbind(kTwin, name, false);
            }
            count("heal_grown");
        }
        size_t l0 = coilLiveBytes();
        destroyInterp(kTwin);
        size_t const lb = l0 - coilLiveBytes();
        if (flags.find('M') != std::string::npos)
        {
            // what the interpreter holds is bounded by what its bindings and its largest command need
            size_t const bound = 4 * lb + 400 * I.hwNames + 96 * I.hwText + 6144;
            l0 = coilLiveBytes();
            destroyInterp(i);
            size_t const la = l0 - coilLiveBytes();
            count("heal_memory");
            g_count["heal_memory_permille_max"] = std::max<uint64_t>(g_count["heal_memory_permille_max"], la * 1000 / bound);
            if (la > bound) violation("memory:unbounded", "an interpreter holds %zu bytes, %zu in a fresh one with the same bindings, at most %zu names and %zu bytes of text", la, lb, I.hwNames, I.hwText);
        }
        tc.noScript = ns;
        setFaultsEnabled(true);
    }

    // ------------------------------------------------------------------ operations
    static void runOp(std::vector<std::string> const& w)
    {
        int id = num(w, 1);
        std::string const& k = w[3];
        TaskCtx& tc = tctx();
        budgets(tc);
        trace("op %d: %s\n", id, k.c_str());
        opBegin(id);
        int i = num(w, 4) % kTwin;
        if (i < 0) i = 0;
        if (k == "exec")
        {
            // exec i flags damage text
            ExecOpts o;
            std::string flags = w.size() > 5 ? w[5] : "-";
            o.retain = flags.find('R') != std::string::npos;
            o.freeTextFirst = flags.find('f') != std::string::npos;
            o.holderId = id;
            if (w.size() > 6 && w[6] != "-") count(("damage." + w[6]).c_str());
            doExec(i, txt(w, 7), o, false);
        }
        else if (k == "storm")
        {
            // storm i times shift damage text [vary]: the same text (or one which differs in its last bytes) over and over,
            // with the faults of this operation in every round
            int times = num(w, 5), shift = num(w, 6);
            bool const vary = num(w, 9) != 0;
            if (w.size() > 7 && w[7] != "-") count(("damage." + w[7]).c_str());
            uint64_t s0 = t_cur->steps;
            for (int n = 0; n < times && t_cur->steps - s0 < 5000000; n++)
            {
                if (n) opRestart(shift ? (uint64_t)(n % shift) : 0);
                budgets(tc);
                ExecOpts o;
                doExec(i, vary ? txt(w, 8) + std::to_string(n) : txt(w, 8), o, false);
                count("storm_rounds");
            }
        }
        else if (k == "churn")
        {
            // churn i times shift mode names: the same changes of the registry over and over, with the faults of this operation in every round
            int times = num(w, 5), shift = num(w, 6), mode = num(w, 7), names = num(w, 8, 1);
            uint64_t s0 = t_cur->steps;
            for (int n = 0; n < times && t_cur->steps - s0 < 5000000; n++)
            {
                if (n) opRestart(shift ? (uint64_t)(n % shift) : 0);
                budgets(tc);
                if (mode == 5)
                {
                    int j = 0;
                    while (j < kTwin && W->in[j].alive) j++;
                    if (j < kTwin && !W->in[i].inflight) { moveInterp(j, i, 0); moveInterp(i, j, 0); }
                }
                if (mode == 4) doLexer(i, LexCfg{});
                int const base = mode == 6 ? n * names : 0;
                for (int m = 0; m < names; m++) doBind(i, (n + m) & 1, "k" + std::to_string(base + m), mode == 2 && (n & 1) ? "c0,c1" : "c0");
                if (mode == 0) doClear(i);
                if (mode == 1)
                    for (int m = 0; m < names; m++) doUnbind(i, "k" + std::to_string(n & 1 ? names - 1 - m : m), n & 1);
                count("churn_rounds");
            }
        }
        else if (k == "bulk")
        {
            // bulk i from count: binds many names; unbulk i from count step: unbinds them
            for (int n = 0; n < num(w, 6) && n < 3000; n++)
            {
                capRestart();
                doBind(i, n & 1, "b" + std::to_string(num(w, 5) + n), "c0");
            }
            count("bulk_binds");
        }
        else if (k == "unbulk")
        {
            int step = num(w, 7, 1);
            if (step < 1) step = 1;
            for (int n = 0; n < num(w, 6) && n < 3000; n += step)
            {
                capRestart();
                doUnbind(i, "b" + std::to_string(num(w, 5) + n), false);
            }
        }
        else if (k == "execin")
        {
            // execin i flags name args... with "k=" prefix for named ones; groups joined by %00
            ExecOpts o;
            MInput in;
            std::string flags = w.size() > 5 ? w[5] : "-";
            o.retain = flags.find('R') != std::string::npos;
            o.freeTextFirst = flags.find('f') != std::string::npos;
            o.holderId = id;
            in.name = txt(w, 6);
            for (size_t a = 7; a < w.size(); a++)
            {
                std::string s = unesc(w[a].substr(1));
                MValue v;
                if (w[a][0] == 'a') v.sub.push_back(s);
                else if (w[a][0] == 'g' || w[a][0] == 'n')
                {
                    size_t p = 0;
                    while (p <= s.size() && !s.empty())
                    {
                        size_t e = s.find('\x01', p);
                        if (e == std::string::npos) e = s.size();
                        v.sub.push_back(s.substr(p, e - p));
                        p = e + 1;
                    }
                }
                else continue;
                if (w[a][0] == 'n')
                {
                    std::string key = v.sub.empty() ? "" : v.sub[0];
                    if (!v.sub.empty()) v.sub.erase(v.sub.begin());
                    in.named.push_back({key, v});
                }
                else in.args.push_back(v);
            }
            o.direct = &in;
            doExec(i, "", o, false);
        }
        else if (k == "bind") doBind(i, num(w, 5), txt(w, 6), w.size() > 7 ? w[7] : "");
        else if (k == "unbind") doUnbind(i, txt(w, 5), num(w, 6));
        else if (k == "clear") doClear(i);
        else if (k == "lexer") doLexer(i, lexOf(w, 5));
        else if (k == "newi") newInterp(i);
        else if (k == "deli") destroyInterp(i);
        else if (k == "move") { int j = num(w, 5) % kTwin; if (j >= 0) moveInterp(i, j, num(w, 6)); }
        else if (k == "get") { if (W->in[i].alive) verifyName(W->in[i], txt(w, 5)); }
        else if (k == "heal") doHeal(i, w.size() > 5 ? w[5] : "");
        else if (k == "recycle")
        {
            // scramble and free the caller's buffers of the oldest retained results
            count("recycled");
            for (auto* h : W->held)
            {
                if (h->text.base && h->inputValid) {}
                releaseHolder(h, true);
                verifyHolder(h);
            }
        }
        else if (k == "drop")
        {
            size_t n = (size_t)num(w, 4, 1);
            while (n-- && !W->held.empty())
            {
                Holder* h = W->held.front();
                W->held.erase(W->held.begin());
                dropHolder(h);
            }
        }
        opEnd();
        if (!W->preempt)
        {
            for (auto* h : W->held) verifyHolder(h);
            bool const all = k != "exec" && k != "execin" && k != "heal" && k != "drop" && k != "recycle";
            for (auto& I : W->in) verifyRegistry(I, all);
            verifyQuiescent(false);
        }
        else
        {
            // other tasks may be inside the library: look only at what belongs to this task
            if (W->plan->get("shared") != "1" && W->in[i].alive && (k == "bind" || k == "unbind" || k == "clear" || k == "exec")) verifyRegistry(W->in[i]);
        }
        logEvent((uint64_t)id);
    }

    static void runTaskOps(Task& t)
    {
        for (auto const& w : W->plan->ops)
            if (atoi(w[2].c_str()) == t.id)
            {
                runOp(w);
                coopYield();
            }
    }

    bool runWorld1(Plan const& p)
    {
        registerCmds();
        RunConfig cfg;
        cfg.fill = (uint8_t)p.geti("fill", 0xA5);
        cfg.errnoNoise = (int)p.geti("errno", 34);
        cfg.stepCap = (uint64_t)p.geti("cap", 30000000);
        std::vector<FaultWindow> fs;
        for (auto const& f : p.faults) fs.push_back({f.kind == 'f' ? FaultWindow::Format : FaultWindow::Alloc, f.op, f.nth, f.len});
        runBegin(cfg, fs);
        W = new World;
        W->plan = &p;
        int tasks = (int)p.geti("tasks", 0);
        if (tasks > kMaxTasks - 1) tasks = kMaxTasks - 1;
        W->preempt = p.get("mode") == "preempt";
        W->maxDepth = (int)std::min<long>(400, std::max<long>(1, p.geti("depth", 5)));
        {
            std::string n = p.get("names");
            size_t a = 0;
            while (a < n.size())
            {
                size_t e = n.find(',', a);
                if (e == std::string::npos) e = n.size();
                W->names.push_back(unesc(n.substr(a, e - a)));
                a = e + 1;
            }
        }
        memset(s_simt, 0, sizeof s_simt);
        for (int i = 0; i < kMaxTasks; i++) W->tc[i].t = &taskRef(i);
        for (int i = 0; i < kInterps; i++)
        {
            W->in[i].vars = new Vars;
            for (int s = 0; s < kVarSlots; s++) syncVar(W->in[i], s);
            for (int s = 0; s < kPropSlots; s++) W->in[i].pobj[s].slot = i * kPropSlots + s;
        }
        int simtVars = s_simt[0];
        for (auto const& s : p.coop) if (s.task > 0 && s.task < kMaxTasks) taskRef(s.task).coop.push_back({s.at, s.target});
        for (auto const& s : p.preempt) if (s.task > 0 && s.task < kMaxTasks) taskRef(s.task).preempts.push_back({s.at, s.target});
        for (int i = 1; i < kMaxTasks; i++)
        {
            auto lt = [](Preempt const& a, Preempt const& b) { return a.step < b.step; };
            std::stable_sort(taskRef(i).coop.begin(), taskRef(i).coop.end(), lt);
            std::stable_sort(taskRef(i).preempts.begin(), taskRef(i).preempts.end(), lt);
        }

        // set-up by the main thread, then the clients, then the rest
        for (auto const& w : p.ops)
            if (w[2] == "0") runOp(w);
        if (tasks > 0) runTasks(tasks, runTaskOps);
        W->preempt = false;
        for (auto const& w : p.ops)
            if (w[2] == "9") runOp(w);

        // tear down
        verifyQuiescent(true);
        for (auto* h : W->held) verifyHolder(h);
        for (auto& I : W->in) verifyRegistry(I);
        bool resultsFirst = p.geti("resultsfirst", 0) != 0;
        if (resultsFirst)
        {
            for (auto* h : W->held) dropHolder(h);
            W->held.clear();
        }
        for (int i = 0; i < kInterps; i++) destroyInterp(i);
        verifyQuiescent(true);
        for (auto* h : W->held) dropHolder(h);
        W->held.clear();
        for (int i = 1; i < kMaxTasks; i++)
            if (s_simt[i]) violation("lifetime:argument", "%d argument objects are alive at the end", s_simt[i]);
        if (s_simt[0] != simtVars) violation("lifetime:argument", "%d argument objects are alive at the end", s_simt[0] - simtVars);
        for (int i = 0; i < kInterps; i++)
        {
            delete W->in[i].vars; // allocations made for them in library calls are freed here
        }
        delete W;
        W = nullptr;
        bool clean = coilLiveBlocks() == 0;
        g_stats.steps += totalStepsRun();
        runEnd();
        return clean;
    }

    void warmupWorld1()
    {
        // function-local statics and the like come to life here and not in the middle of a simulated run
        registerCmds();
        std::string text = "cfg world=1\nO 1 0 newi 0\n";
        int id = 2;
        for (size_t s = 0; s < g_cmds.size(); s++)
        {
            text += "O " + std::to_string(id++) + " 0 bind 0 0 c" + std::to_string(s) + " c" + std::to_string(s) + "\n";
            for (int bad = 0; bad < 2; bad++)
            {
                std::string t = "c" + std::to_string(s);
                for (AT a : g_cmds[s].info.args) t += " " + (bad ? std::string("'!bad x'") : a == A_PAIR ? std::string("(7 seven)") : canonical(a));
                text += "O " + std::to_string(id++) + " 0 exec 0 - - " + esc(t) + "\n";
            }
        }
        for (char c : std::string("vVpPbB")) 
            for (int s = 0; s < 3; s++)
            {
                text += "O " + std::to_string(id++) + " 0 bind 0 0 x" + c + std::to_string(s) + " " + c + std::to_string(s) + "\n";
                text += "O " + std::to_string(id++) + " 0 exec 0 - - x" + c + std::to_string(s) + "%20'!bad'\n";
                text += "O " + std::to_string(id++) + " 0 exec 0 - - x" + c + std::to_string(s) + "\n";
            }
        text += "O " + std::to_string(id++) + " 0 exec 0 - - 'unclosed\n";
        text += "O " + std::to_string(id++) + " 0 exec 0 - - nosuch%20(a%20b)%20c=d\n";
        Plan p = Plan::parse(text);
        runWorld1(p);
    }
}
