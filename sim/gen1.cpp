// Generator of plans for world 1: swarm style, one profile per property, everything drawn from one PRNG.
#include "world.h"
#include "cmds.h"
#include <algorithm>
#include <set>

namespace sim
{
    namespace
    {
        struct Prof
        {
            int interps = 2;
            int opsMin = 6, opsMax = 22;
            int tasks = 0;
            bool preempt = false, shared = false;
            // weights of top level operations
            int wExec = 40, wExecIn = 8, wBind = 20, wUnbind = 6, wClear = 1, wLexer = 3, wNewDel = 2, wMove = 2, wGet = 3, wRecycle = 0, wDrop = 2, wHeal = 0, wStorm = 0, wBulk = 0, wChurn = 0;
            // percentages
            int script = 60, damage = 4, invalidArg = 12, throwArg = 2, throwBody = 5, retain = 5, nested = 15, regInScript = 8, yield = 0, named = 20, lexInScript = 1, tol = 20, simLexer = 20, customLexer = 20;
            int heal = 10; // final heal
            int grow = 0, memory = 0; // of a heal: grow both interpreters, compare the memory
            int scriptLen = 5;
            int manyNames = 0;
            std::vector<int> narrow;  // few signatures, used by everybody
            bool late = false;
            bool large = false;       // texts, messages and counts of unusual size
            int teardown = 3;
            int reent = 0; // conversions and parsers which execute commands
            int deep = 0;  // nesting depth, 0: the default
            bool props = true, vars = true;
        };

        struct Binding { std::string spec; std::vector<std::vector<AT>> overloads; };
        struct GI { bool alive = false; std::map<std::string, Binding> reg; LexCfg lex; };

        struct Gen
        {
            Rng r;
            Prof p;
            std::vector<std::string> names, keys;
            GI in[5];
            std::string out;
            std::string scripts;
            int nextOp = 1, nextScript = 1;
            std::string lastText;
            int curTask = 0;
            int depthGen = 0;
            bool sharedPhase = false, noLong = false;
            int bulkTop[5] = {};

            explicit Gen(uint64_t s) : r(s) {}

            // ---------------------------------------------------------------- pools
            std::string randBytes(int maxLen)
            {
                static char const alpha[] = "abcXYZ019 \t\n'\"(),;|=:/-_.!%\\\0\x7f\x80\xff";
                std::string s;
                int n = r.range(0, maxLen);
                for (int i = 0; i < n; i++) s += r.chance(70) ? (char)('a' + r.below(26)) : alpha[r.below(sizeof alpha - 1)];
                return s;
            }
            void makeNames()
            {
                static std::vector<std::string> const simple{"a", "b", "c", "cmd", "set", "spawn", "get_stats", "obj.method", "x", "y"};
                std::set<std::string> s;
                int n = p.manyNames ? p.manyNames : r.range(2, 9);
                int style = p.manyNames ? (r.chance(70) ? 3 : 6) : r.range(0, 7);
                int const blocks = p.manyNames ? 9 : r.range(3, 5);
                std::string const prefix((size_t)r.range(20, 250), (char)('a' + r.below(26)));
                while ((int)s.size() < n)
                {
                    switch (style == 5 ? r.range(0, 4) : style)
                    {
                    case 0: s.insert(r.pick(simple)); break;
                    case 1: s.insert(std::string((size_t)r.range(1, 14), 'a') + (r.chance(40) ? "b" : "")); break;
                    case 2: s.insert(std::string((size_t)r.range(30, 130), (char)('m' + r.below(3)))); break;
                    case 3: s.insert("n" + std::to_string(r.below(1000))); break;
                    case 6:
                    {
                        // equal hashes: with hash * 33 + c, "ab" counts as much as "bA" and "xy" as much as "yX"
                        std::string t;
                        for (int i = 0; i < blocks; i++) t += i & 1 ? (r.chance(50) ? "xy" : "yX") : (r.chance(50) ? "ab" : "bA");
                        s.insert(t);
                        break;
                    }
                    case 7: s.insert(prefix + r.pick(std::vector<std::string>{"", "a", "b", "A", "B", "aa", "ab", "\x01", "q q"})); break;
                    default:
                    {
                        static std::vector<std::string> const odd{"two words", "it's", "a=b", "(x)", std::string("nul\0z", 5), std::string("nul\0y", 5), "\xc3\xa9t\xc3\xa9", "\x80\xff", "tab\there", "q\"q", "semi;colon", "a,b", "", "%s%n"};
                        s.insert(r.pick(odd));
                    }
                    }
                    if (p.large && r.chance(20)) s.insert(std::string(largeSize(5000), (char)('g' + r.below(2))) + (r.chance(50) ? "x" : ""));
                    if (r.chance(10)) s.insert("f" + std::to_string(r.below(50)));
                }
                names.assign(s.begin(), s.end());
                for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[r.below(i)]);
                keys = {"k", "key", "n1"};
                if (r.chance(30)) keys.push_back("two words");
                if (r.chance(30)) keys.push_back("kk");
                if (r.chance(20)) keys.push_back("");
                if (r.chance(25)) for (int i = 0; i < 8; i++) keys.push_back("k" + std::to_string(i));
                if (r.chance(15))
                {
                    // equal but for the end
                    std::string const stem((size_t)r.range(4, p.large ? 300 : 40), 'v');
                    for (char const* e : {"", "1", "2", "12"}) keys.push_back(stem + e);
                }
                if (r.chance(15)) { keys.push_back("K"); keys.push_back("ke"); keys.push_back(std::string((size_t)r.range(20, 80), 'k')); }
            }
            std::string const& name() { return names[r.below(names.size())]; }

            std::string argText(AT t, int quality) // 0 valid, 1 invalid, 2 throwing
            {
                static std::vector<std::string> const ints{"0", "1", "7", "42", "100", "+5", "1", "12"};
                static std::vector<std::string> const sints{"-1", "-42", "2147483647", "-2147483648", " 9", "-0"};
                static std::vector<std::string> const fl{"0", "1.5", "-2.25", "1e10", "0x1p3", "inf", "123456789.125", "-7", "nan", "1e-310"};
                static std::vector<std::string> const str{"x", "hello", "two words", "", "it's", "a=b", "(", "100%", "%s%n", "a,b;c", "\xc3\xa9", "longer text with some words in it", "q\"q", "'", "\"\"", "x'y'z"};
                static std::vector<std::string> const badnum{"abc", "", "1x", "0x", "99999999999999999999999", "--1", "1 ", "-", "4294967296", "1e999", "truee", "!bad", " -5", "1-", "18446744073709551616", "-129", "70000", "3.5"};
                static std::vector<std::string> const thr{"!thr1", "!thr2", "!thr3", "!thr4", "!thr5", "!thr6", "!thr7", "!thr8"};
                if (t == A_VECSIMT || t == A_OPTSIMT) t = A_SIMT;
                if (quality == 2) return r.pick(thr);
                if (t == A_SIMT && depthGen <= 1 && r.chance(p.reent)) return "!run" + std::to_string(detachedScript());
                if (quality == 1) return t == A_SIMT ? std::string("!bad") + (r.chance(50) ? " reason" : "") : r.pick(badnum);
                switch (t)
                {
                case A_INT: case A_LONG: case A_LL: return r.chance(60) ? r.pick(ints) : r.pick(sints);
                case A_SHORT: case A_CHAR: case A_SCHAR: return r.chance(60) ? r.pick(ints) : "-3";
                case A_UINT: case A_ULONG: case A_ULL: case A_USHORT: case A_UCHAR: return r.pick(ints);
                case A_BOOL: { static std::vector<std::string> const b{"true", "false", "1", "0", "TRUE", "False"}; return r.pick(b); }
                case A_FLOAT: case A_DOUBLE: case A_LDOUBLE: return r.pick(fl);
                case A_SIMT: return r.chance(70) ? r.pick(str) : "obj" + std::to_string(r.below(100));
                case A_VECINT: case A_OPTINT: case A_VECVECINT: return r.pick(ints);
                default:
                    if (p.large && !noLong && r.chance(10)) return std::string(largeSize(r.chance(80) ? 9000 : 70000), (char)('a' + r.below(26))) + (r.chance(50) ? " end" : "");
                    if (!noLong && r.chance(2)) return std::string((size_t)(r.chance(80) ? r.range(100, 600) : r.range(1000, 5000)), (char)('a' + r.below(26))) + (r.chance(50) ? " end" : "");
                    return r.chance(85) ? r.pick(str) : randBytes(24);
                }
            }
            // for user code without a context: conversions and parsers
            int detachedScript(bool mayThrow = false)
            {
                int id = nextScript++;
                depthGen++;
                std::string pre = "S " + std::to_string(id) + " ";
                int n = r.range(1, 3);
                for (int i = 0; i < n; i++)
                {
                    if (r.chance(p.yield)) { scripts += pre + "yield\n"; continue; }
                    if (mayThrow && r.chance(p.throwBody * 3)) { scripts += pre + "throw " + std::to_string(r.range(0, 7)) + "\n"; continue; }
                    if (r.chance(p.regInScript * 2) && !sharedPhase) { scripts += pre + regChange() + "\n"; continue; }
                    if (r.chance(p.lexInScript * 2) && !sharedPhase) { scripts += pre + "lexer " + std::to_string(pickInterp()) + " " + lexer(nullptr) + "\n"; continue; }
                    if (r.chance(8)) { scripts += pre + "errno " + std::to_string(r.pick(std::vector<int>{0, 1, 33, 34})) + "\n"; continue; }
                    scripts += pre + nestedExec() + "\n";
                }
                depthGen--;
                return id;
            }
            MValue argValue(AT t)
            {
                int q = r.chance(p.throwArg) && t == A_SIMT ? 2 : r.chance(p.invalidArg) ? 1 : 0;
                MValue v;
                if ((t == A_VECSIMT || t == A_OPTSIMT) && r.chance(p.throwArg)) q = 2;
                if (t == A_PAIR && r.chance(85))
                {
                    v.sub = {argText(A_INT, q ? 1 : 0), argText(A_STDSTR, 0)};
                    return v;
                }
                bool const opt = t == A_OPTINT || t == A_OPTSIMT || t == A_OPTSTR;
                bool multi = t == A_VECINT || t == A_VECSTR || t == A_VALUE || t == A_VECSIMT || t == A_VECVECINT || t == A_PAIR || opt ? r.chance(70) : r.chance(2);
                if (multi)
                {
                    int n = r.range(0, opt ? 2 : r.chance(5) ? 20 : 4);
                    bool const longGroup = p.large && !opt && r.chance(10);
                    if (longGroup) n = r.chance(50) ? r.range(20, 300) : r.range(300, 1500);
                    bool const before = noLong;
                    noLong = noLong || longGroup;
                    AT const e = t == A_VECSTR || t == A_VALUE || t == A_OPTSTR ? A_STDSTR : t == A_VECSIMT || t == A_OPTSIMT ? A_SIMT : A_INT;
                    for (int i = 0; i < n; i++) v.sub.push_back(argText(e, q && i == n - 1 ? q : 0));
                    noLong = before;
                }
                else v.sub.push_back(argText(t, q));
                return v;
            }

            // ---------------------------------------------------------------- commands
            std::string spec(Binding* b, bool single = false)
            {
                std::string s;
                if (b) b->overloads.clear();
                int k = r.range(0, 99);
                if (!single && p.vars && !p.shared && k < 9)
                {
                    int slot = r.range(0, kVarSlots - 1);
                    bool ro = r.chance(25);
                    if (b) { b->overloads = {{}, {g_varTypes[slot]}}; }
                    return std::string(1, ro ? 'V' : 'v') + std::to_string(slot);
                }
                if (!single && p.props && !p.shared && k < 16)
                {
                    static char const kinds[] = {'p', 'P', 'b', 'B', 'p', 'b'};
                    if (b) b->overloads = {{}, {A_INT}};
                    return std::string(1, kinds[r.below(6)]) + std::to_string(r.range(0, kPropSlots - 1)) + (depthGen <= 1 && r.chance(25) ? ":" + std::to_string(detachedScript(true)) : "");
                }
                if (!single && k < 17 && r.chance(50)) return "e";
                int n = single || r.chance(70) ? 1 : r.range(2, r.chance(10) ? 7 : 3);
                for (int i = 0; i < n; i++)
                {
                    if (i) s += ",";
                    int t = r.range(0, 99);
                    std::vector<AT> types;
                    if (t < 84)
                    {
                        int sig = (int)r.below(g_cmds.size());
                        if (!p.narrow.empty() && r.chance(80)) sig = r.pick(p.narrow);
                        else if (r.chance(35)) sig = r.pick(std::vector<int>{1, 3, 4, 8, 9, 16});
                        types = g_cmds[(size_t)sig].info.args;
                        s += "c" + std::to_string(sig) + scriptRef(g_cmds[(size_t)sig].info.ctx);
                    }
                    else if (t < 93)
                    {
                        int m = r.range(0, 3);
                        types = g_methodSigs[m].args;
                        s += "m" + std::to_string(m) + (m == 3 ? "" : scriptRef(g_methodSigs[m].ctx));
                    }
                    else
                    {
                        int f = r.range(0, 2);
                        types = g_freeSigs[f].args;
                        s += "f" + std::to_string(f) + scriptRef(g_freeSigs[f].ctx);
                    }
                    if (b) b->overloads.push_back(types);
                }
                return s;
            }
            std::string scriptRef(bool ctx)
            {
                if (depthGen > 1 || !r.chance(ctx ? p.script : p.script / 3)) return "";
                return ":" + std::to_string(script(ctx));
            }
            // sizes around which buffers end, and others
            size_t largeSize(size_t most)
            {
                size_t n = r.chance(60) ? ((size_t)1 << r.range(7, 17)) + (size_t)r.range(0, 4) - 2 : (size_t)r.range(300, 20000);
                return std::min(n, most);
            }
            std::string msg()
            {
                if (p.large && r.chance(25)) return std::string(largeSize(140000), (char)('A' + r.below(26))) + (r.chance(50) ? " end" : "");
                switch (r.range(0, 9))
                {
                case 0: return "";
                case 1: return "100% done %s %n";
                case 2: return "two\nlines";
                case 3: return std::string((size_t)r.range(20, 300), (char)('A' + r.below(26)));
                case 4: return randBytes(30);
                default: return "m" + std::to_string(r.below(10000));
                }
            }
            int script(bool ctx)
            {
                int id = nextScript++;
                depthGen++;
                std::string pre = "S " + std::to_string(id) + " ";
                int n = r.range(1, p.scriptLen);
                if (r.chance(p.tol)) scripts += pre + "tol 1\n";
                for (int i = 0; i < n; i++)
                {
                    int x = r.range(0, 99);
                    if (r.chance(p.yield)) { scripts += pre + "yield\n"; continue; }
                    if (r.chance(p.throwBody)) { scripts += pre + "throw " + std::to_string(r.range(0, 7)) + "\n"; continue; }
                    if (r.chance(p.throwBody)) { scripts += pre + "rthrow " + std::to_string(r.range(0, 7)) + "\n"; continue; }
                    if (r.chance(p.nested)) { scripts += pre + nestedExec() + "\n"; continue; }
                    if (r.chance(p.regInScript) && !sharedPhase) { scripts += pre + regChange() + "\n"; continue; }
                    if (r.chance(p.lexInScript) && !sharedPhase) { scripts += pre + "lexer " + std::to_string(pickInterp()) + " " + lexer(nullptr) + "\n"; continue; }
                    if (r.chance(p.named) && ctx)
                    {
                        scripts += pre + "named " + esc(r.pick(keys)) + " " + std::to_string(r.range(0, 5)) + " " + std::to_string(r.range(0, 3)) + "\n";
                        continue;
                    }
                    if (depthGen <= 1 && r.chance(p.reent / 4)) { int d = detachedScript(); scripts += pre + "rrun " + std::to_string(d) + "\n"; continue; }
                    if (r.chance(4)) { scripts += pre + "errno " + std::to_string(r.pick(std::vector<int>{0, 1, 33, 34})) + "\n"; continue; }
                    if (!ctx) continue;
                    if (p.large && r.chance(15)) { scripts += pre + (r.chance(50) ? "errrep " : "logrep ") + std::to_string(r.range(10, 300)) + " " + esc(r.chance(50) ? "m" : std::string((size_t)(r.chance(40) ? r.range(300, 3000) : r.range(1, 300)), 'z')) + "\n"; continue; }
                    if (r.chance(6)) { scripts += pre + (r.chance(70) ? "uplog " : "uperr ") + std::to_string(r.chance(80) ? 1 : r.range(2, 4)) + " " + esc(msg()) + "\n"; continue; }
                    if (x < 25) scripts += pre + "log " + esc(msg()) + "\n";
                    else if (x < 45) scripts += pre + "logline " + esc(msg()) + "\n";
                    else if (x < 60) scripts += pre + "logf " + esc(msg()) + "\n";
                    else if (x < 75) scripts += pre + "loglinef " + esc(msg()) + "\n";
                    else if (x < 77) scripts += pre + "logbad\n";
                    else if (x < 86) scripts += pre + "err " + esc(msg()) + "\n";
                    else if (x < 90) scripts += pre + "errs " + esc(msg()) + " " + esc(msg()) + "\n";
                    else scripts += pre + "get " + std::to_string(pickInterp()) + " " + esc(name()) + "\n";
                }
                depthGen--;
                return id;
            }
            std::string nestedExec()
            {
                std::string fl;
                if (r.chance(30)) fl += "p";
                if (r.chance(p.retain)) fl += "R";
                if (r.chance(30)) fl += "f";
                if (r.chance(30)) fl += "o";
                if (fl.empty()) fl = "-";
                int i = pickInterp();
                std::string t;
                if (!text(i, t)) t = in[i].reg.empty() ? std::string("nothing") : in[i].reg.begin()->first;
                return "exec " + std::to_string(i) + " " + fl + " " + esc(t);
            }
            std::string regChange()
            {
                int i = pickInterp();
                switch (r.range(0, 11))
                {
                case 0: return "unbindself " + std::to_string(r.range(0, 1));
                case 1: return "rebindself " + std::to_string(r.range(0, 3)) + " " + spec(nullptr, true);
                case 2: if (r.chance(50)) return "clear " + std::to_string(i);
                        // fall through
                case 3: case 4: case 5: return "unbind " + std::to_string(i) + " " + esc(name()) + " " + std::to_string(r.range(0, 1));
                case 6: if (p.wMove && !p.preempt && r.chance(60)) return "move " + std::to_string(r.below((uint64_t)p.interps)) + " " + std::to_string(r.below((uint64_t)p.interps));
                        // fall through
                case 7: return "get " + std::to_string(i) + " " + esc(name());
                default: return "bind " + std::to_string(i) + " " + std::to_string(r.range(0, 3)) + " " + esc(name()) + " " + spec(nullptr);
                }
            }
            std::string lexer(LexCfg* c)
            {
                LexCfg d;
                std::string s = "d";
                if (r.chance(p.simLexer))
                {
                    int k = r.range(0, 1);
                    s = "s" + std::to_string(k);
                    d.sim = 1 + k;
                }
                else if (r.chance(p.customLexer))
                {
                    static std::vector<std::vector<std::string>> const sets{
                        {"[]", "'\"", ",;|", " \t\n\r"}, {"(){}[]", "`'", ",", " "}, {"<>", "|", ";", " _"}, {"", "'", ",", " "}, {"()", "", ",", " \t"},
                        {"()", "'\"", "", " "}, {"()", "'\"", ",;|", "."}, {"{}", "$", ":", " \n"}, {"()", "'\"", ",", ""}};
                    auto const& x = r.pick(sets);
                    d.group = x[0];
                    d.quotes = x[1];
                    d.seps = x[2];
                    d.spaces = x[3];
                    s = "x " + esc(d.group) + " " + esc(d.quotes) + " " + esc(d.seps) + " " + esc(d.spaces);
                }
                if (c) *c = d;
                return s;
            }
            int pickInterp()
            {
                if (p.preempt) return p.shared ? 0 : (curTask > 0 ? curTask - 1 : 0);
                int alive[5], n = 0;
                for (int i = 0; i < p.interps; i++) if (in[i].alive) alive[n++] = i;
                return n ? alive[r.below((uint64_t)n)] : 0;
            }
            void input(int i, MInput& m)
            {
                GI& g = in[i];
                std::vector<AT> types;
                if (!g.reg.empty() && r.chance(92))
                {
                    auto it = g.reg.begin();
                    std::advance(it, (long)r.below(g.reg.size()));
                    m.name = it->first;
                    if (!it->second.overloads.empty()) types = it->second.overloads[r.below(it->second.overloads.size())];
                }
                else m.name = r.chance(80) ? name() : randBytes(6);
                for (AT t : types) m.args.push_back(argValue(t));
                if (r.chance(6)) { if (r.chance(50) || m.args.empty()) m.args.push_back(argValue(A_INT)); else m.args.pop_back(); }
                if (p.large && r.chance(10)) for (int n = r.chance(50) ? r.range(40, 300) : r.range(300, 2500); n > 0; n--) { noLong = true; MValue a; a.sub = {argText(r.chance(80) ? A_INT : A_STRING, 0)}; m.args.push_back(a); noLong = false; }
                if (r.chance(1)) for (int n = r.range(5, 40); n > 0; n--) m.args.push_back(argValue(r.pick(std::vector<AT>{A_INT, A_STRING, A_VECINT})));
                if (r.chance(p.named + 10))
                {
                    int n = r.chance(92) ? r.range(1, 3) : r.range(4, 12);
                    for (int k = 0; k < n; k++) m.named.push_back({r.pick(keys), argValue(r.pick(std::vector<AT>{A_INT, A_STRING, A_SIMT, A_ULONG, A_VECINT}))});
                }
            }
            bool text(int i, std::string& out)
            {
                for (int k = 0; k < 4; k++)
                {
                    MInput m;
                    input(i, m);
                    if (in[i].lex.sim) { m.named.clear(); if (r.chance(8)) { out = r.chance(50) ? "E!" + (r.chance(40) ? std::string() : m.name) : std::string("T!") + (char)('0' + r.below(9)); return true; } }
                    if (!mRender(in[i].lex, m, (unsigned)r.next(), out)) continue;
                    if (in[i].lex.sim && depthGen <= 1 && r.chance(p.reent)) out = "R!" + std::to_string(detachedScript()) + "!" + out;
                    return true;
                }
                return false;
            }
            std::string damage(std::string t, std::string& kind)
            {
                int n = r.chance(70) ? 1 : r.range(2, 4);
                for (int k = 0; k < n; k++)
                {
                    size_t at = r.below(t.size() + 1);
                    switch (r.range(0, 8))
                    {
                    case 0: kind = "truncate"; t.resize(at); break;
                    case 1: kind = "flip"; if (at < t.size()) t[at] = (char)(t[at] ^ (1 << r.below(8))); break;
                    case 2: kind = "loss"; if (at < t.size()) t.erase(at, 1 + r.below(3)); break;
                    case 3: kind = "duplicate"; if (at < t.size()) t.insert(at, t.substr(at, 1 + r.below(4))); break;
                    case 4: kind = "reorder"; if (at + 1 < t.size()) std::swap(t[at], t[at + 1]); break;
                    case 5: kind = "splice"; { std::string o = lastText; size_t a = r.below(o.size() + 1); t = t.substr(0, at) + o.substr(a); } break;
                    case 6: kind = "insert"; { static char const sx[] = "'\"()=,;| \t\n\v\f\r\0\x80\xff%"; t.insert(at, 1, sx[r.below(sizeof sx - 1)]); } break;
                    case 7: kind = "head_loss"; t.erase(0, at); break;
                    default: kind = "garbage"; t = randBytes(40); break;
                    }
                }
                return t;
            }

            // ---------------------------------------------------------------- operations
            std::string op(int task, std::string const& body) { return "O " + std::to_string(nextOp++) + " " + std::to_string(task) + " " + body + "\n"; }
            std::string flags()
            {
                std::string f;
                if (r.chance(p.retain)) f += "R";
                if (r.chance(20)) f += "f";
                return f.empty() ? "-" : f;
            }
            void emitBind(int task, int i)
            {
                Binding b;
                std::string n = name();
                std::string s = spec(&b);
                b.spec = s;
                out += op(task, "bind " + std::to_string(i) + " " + std::to_string(r.range(0, 3)) + " " + esc(n) + " " + s);
                in[i].reg[n] = b;
            }
            void emitExec(int task, int i)
            {
                std::string t;
                if (!text(i, t) || r.chance(p.wExecIn)) { emitExecIn(task, i); return; }
                std::string kind = "-";
                if (r.chance(p.damage)) t = damage(t, kind);
                lastText = t;
                out += op(task, "exec " + std::to_string(i) + " " + flags() + " " + kind + " " + esc(t));
            }
            void emitExecIn(int task, int i)
            {
                MInput m;
                input(i, m);
                std::string s = "execin " + std::to_string(i) + " " + flags() + " " + esc(m.name);
                for (auto const& a : m.args)
                {
                    if (a.sub.size() == 1) s += " a" + esc(a.sub[0]);
                    else { std::string j; for (size_t k = 0; k < a.sub.size(); k++) j += (k ? "\x01" : "") + a.sub[k]; s += " g" + esc(j); }
                }
                for (auto const& n : m.named)
                {
                    std::string j = n.first;
                    for (auto const& x : n.second.sub) j += "\x01" + x;
                    s += " n" + esc(j);
                }
                out += op(task, s);
            }
            void emitOp(int task)
            {
                curTask = task;
                int i = pickInterp();
                int total = p.wExec + p.wExecIn + p.wBind + p.wUnbind + p.wClear + p.wLexer + p.wNewDel + p.wMove + p.wGet + p.wRecycle + p.wDrop + p.wHeal + p.wStorm + p.wBulk + p.wChurn;
                int x = (int)r.below((uint64_t)total);
                auto hit = [&](int w) { if (x < w) return true; x -= w; return false; };
                if (hit(p.wExec)) { emitExec(task, i); return; }
                if (hit(p.wExecIn)) { emitExecIn(task, i); return; }
                if (hit(p.wBind)) { emitBind(task, i); return; }
                if (hit(p.wUnbind))
                {
                    std::string n = !in[i].reg.empty() && r.chance(80) ? std::next(in[i].reg.begin(), (long)r.below(in[i].reg.size()))->first : name();
                    out += op(task, "unbind " + std::to_string(i) + " " + esc(n) + " " + std::to_string(r.range(0, 1)));
                    in[i].reg.erase(n);
                    return;
                }
                if (hit(p.wClear)) { out += op(task, "clear " + std::to_string(i)); in[i].reg.clear(); return; }
                if (hit(p.wLexer)) { LexCfg c; std::string s = lexer(&c); out += op(task, "lexer " + std::to_string(i) + " " + s); in[i].lex = c; return; }
                if (hit(p.wNewDel))
                {
                    int j = p.preempt ? i : (int)r.below((uint64_t)p.interps);
                    if (in[j].alive) { out += op(task, "deli " + std::to_string(j)); in[j] = GI{}; if (r.chance(70)) { out += op(task, "newi " + std::to_string(j)); in[j].alive = true; } }
                    else { out += op(task, "newi " + std::to_string(j)); in[j].alive = true; }
                    return;
                }
                if (hit(p.wMove))
                {
                    if (p.preempt) return;
                    int a = (int)r.below((uint64_t)p.interps), b = (int)r.below((uint64_t)p.interps);
                    int mode = r.range(0, 1);
                    out += op(task, "move " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(mode));
                    if (a != b && in[b].alive) { in[a] = in[b]; in[b] = GI{}; in[b].alive = mode & 1; }
                    return;
                }
                if (hit(p.wGet)) { out += op(task, "get " + std::to_string(i) + " " + esc(name())); return; }
                if (hit(p.wRecycle)) { out += op(task, "recycle"); return; }
                if (hit(p.wDrop)) { out += op(task, "drop " + std::to_string(r.range(1, 3))); return; }
                if (hit(p.wStorm))
                {
                    std::string t;
                    bool const vary = r.chance(30);
                    if (vary && r.chance(60)) t = name();
                    else if (!text(i, t)) return;
                    std::string kind = "-";
                    if (r.chance(p.damage)) t = damage(t, kind);
                    int n = r.chance(60) ? r.range(20, 120) : r.chance(80) ? r.range(130, 400) : r.range(600, 2500);
                    out += op(task, "storm " + std::to_string(i) + " " + std::to_string(n) + " " + std::to_string(r.chance(50) ? 0 : r.range(1, 30)) + " " + kind + " " + esc(t) + (vary ? " 1" : ""));
                    return;
                }
                if (hit(p.wChurn))
                {
                    int const mode = r.range(0, 6), names = r.chance(50) ? r.range(1, 3) : r.range(3, 20);
                    int const n = mode == 6 ? r.range(5, 60) : r.chance(70) ? r.range(10, 60) : r.range(60, 300);
                    out += op(task, "churn " + std::to_string(i) + " " + std::to_string(n) + " " + std::to_string(r.chance(60) ? 0 : r.range(1, 6)) + " " + std::to_string(mode) + " " + std::to_string(names));
                    if (mode == 0) in[i].reg.clear();
                    if (mode == 4) in[i].lex = LexCfg{};
                    return;
                }
                if (hit(p.wBulk))
                {
                    bool bind = bulkTop[i] == 0 || r.chance(60);
                    int n = r.chance(60) ? r.range(30, 300) : r.range(300, 1500);
                    if (bind)
                    {
                        int from = r.chance(50) ? bulkTop[i] : 0;
                        out += op(task, "bulk " + std::to_string(i) + " " + std::to_string(from) + " " + std::to_string(n));
                        bulkTop[i] = std::max(bulkTop[i], from + n);
                    }
                    else out += op(task, "unbulk " + std::to_string(i) + " " + std::to_string(r.below((uint64_t)bulkTop[i])) + " " + std::to_string(n) + " " + std::to_string(r.range(1, 3)));
                    return;
                }
                out += op(task, "heal " + std::to_string(i) + (r.chance(p.grow) ? " G" : ""));
            }

            // commands which execute each other in a circle, to the depth which the plan allows
            void emitDeep(int task)
            {
                int const n = r.range(1, 3);
                struct C { int i; std::string name; int sid; std::string text; };
                std::vector<C> cs;
                std::vector<int> ctx;
                for (size_t k = 0; k < g_cmds.size(); k++) if (g_cmds[k].info.ctx) ctx.push_back((int)k);
                depthGen = 2;
                noLong = true;
                for (int k = 0; k < n; k++)
                {
                    C c;
                    c.i = pickInterp();
                    c.name = "deep" + std::to_string(nextScript);
                    c.sid = nextScript++;
                    int sig = r.pick(ctx);
                    auto types = g_cmds[(size_t)sig].info.args;
                    for (int tries = 0; tries < 5; tries++)
                    {
                        MInput m;
                        m.name = c.name;
                        int const inv = p.invalidArg, thr = p.throwArg;
                        p.invalidArg = p.throwArg = 0;
                        for (AT t : types) m.args.push_back(argValue(t));
                        p.invalidArg = inv;
                        p.throwArg = thr;
                        if (r.chance(30)) m.named.push_back({r.pick(keys), argValue(A_STRING)});
                        if (in[c.i].lex.sim) m.named.clear();
                        if (mRender(in[c.i].lex, m, (unsigned)r.next(), c.text)) break;
                        c.text.clear();
                    }
                    if (c.text.empty()) continue;
                    out += op(p.preempt || task == 0 ? 0 : task, "bind " + std::to_string(c.i) + " 0 " + esc(c.name) + " c" + std::to_string(sig) + ":" + std::to_string(c.sid));
                    cs.push_back(c);
                }
                depthGen = 0;
                noLong = false;
                auto noise = [&](C const& c) {
                    std::string pre = "S " + std::to_string(c.sid) + " ";
                    int k = r.range(0, 2);
                    while (k--)
                        switch (r.range(0, 7))
                        {
                        case 7: scripts += pre + (r.chance(70) ? "uplog " : "uperr ") + std::to_string(r.range(1, 4)) + " " + esc("u" + std::to_string(r.below(1000))) + "\n"; break;
                        case 0: scripts += pre + "err " + esc(msg()) + "\n"; break;
                        case 1: scripts += pre + "logf " + esc("m" + std::to_string(r.below(1000))) + "\n"; break;
                        case 2: scripts += pre + "named " + esc(r.pick(keys)) + " 1 " + std::to_string(r.range(0, 3)) + "\n"; break;
                        case 3: scripts += p.yield ? pre + "yield\n" : pre + "errno 34\n"; break;
                        default: scripts += pre + "log " + esc("m" + std::to_string(r.below(1000))) + "\n";
                        }
                };
                for (size_t k = 0; k < cs.size(); k++)
                {
                    C const& next = cs[(k + 1) % cs.size()];
                    noise(cs[k]);
                    scripts += "S " + std::to_string(cs[k].sid) + " exec " + std::to_string(next.i) + (r.chance(50) ? " p " : " - ") + esc(next.text) + "\n";
                    noise(cs[k]);
                    if (r.chance(p.throwBody)) scripts += "S " + std::to_string(cs[k].sid) + " throw " + std::to_string(r.range(0, 7)) + "\n";
                }
                if (!cs.empty()) deepExecs.push_back("exec " + std::to_string(cs[0].i) + " - - " + esc(cs[0].text));
            }
            std::vector<std::string> deepExecs;

            // names disappear one after another, some come back
            void emitTeardown()
            {
                int const i = pickInterp();
                int const task = p.tasks ? 9 : 0;
                while (!in[i].reg.empty())
                {
                    auto it = std::next(in[i].reg.begin(), (long)r.below(in[i].reg.size()));
                    out += op(task, "unbind " + std::to_string(i) + " " + esc(it->first) + " " + std::to_string(r.range(0, 1)));
                    in[i].reg.erase(it);
                    if (r.chance(20) && !in[i].reg.empty()) emitExec(task, i);
                }
                for (int k = r.range(0, 6); k > 0; k--)
                {
                    emitBind(task, i);
                    if (r.chance(60)) emitExec(task, i);
                }
            }

            Plan make()
            {
                if (p.manyNames)
                {
                    p.opsMin = std::max(p.opsMin, p.manyNames);
                    p.opsMax = std::max(p.opsMax, 2 * p.manyNames);
                    p.wBind = std::max(p.wBind, 60);
                    if (p.teardown) p.teardown += 30;
                }
                makeNames();
                std::string head = "cfg world=1";
                {
                    std::string ns;
                    for (auto const& n : names) ns += (ns.empty() ? "" : ",") + esc(n);
                    head += " names=" + ns;
                }
                if (p.large) head += " cap=400000000";
                head += " fill=" + std::to_string(r.pick(std::vector<int>{0xA5, 0, 0xFF, 0x20, 0x27}));
                head += " errno=" + std::to_string(r.pick(std::vector<int>{34, 0, 33, 12}));
                head += " resultsfirst=" + std::to_string(r.range(0, 1));
                if (p.tasks) head += " tasks=" + std::to_string(p.tasks);
                if (p.preempt) head += " mode=preempt shared=" + std::to_string(p.shared ? 1 : 0);
                if (p.deep) head += " depth=" + std::to_string(p.deep);
                // set-up
                int ni = p.preempt ? (p.shared ? 1 : p.tasks) : p.interps;
                for (int i = 0; i < ni; i++)
                {
                    if (!p.preempt && i > 0 && r.chance(30)) continue;
                    out += op(0, "newi " + std::to_string(i));
                    in[i].alive = true;
                }
                bool late = p.preempt && !p.shared && (r.chance(50) || p.late); // registrations inside the tasks
                sharedPhase = p.shared;
                for (int i = 0; i < ni; i++)
                {
                    curTask = p.preempt && !p.shared ? i + 1 : 0;
                    if (!in[i].alive) continue;
                    if (r.chance(p.simLexer + p.customLexer > 0 ? 25 : 0)) { LexCfg c; std::string s = lexer(&c); out += op(0, "lexer " + std::to_string(i) + " " + s); in[i].lex = c; }
                    int nb = late ? r.range(0, 1) : r.range(1, 5);
                    for (int k = 0; k < nb; k++) emitBind(0, i);
                }
                int n = r.range(p.opsMin, p.opsMax);
                size_t deepAt = 0;
                std::vector<int> deepOwner;
                if (p.deep)
                    for (int k = r.range(1, 2); k > 0; k--)
                    {
                        curTask = p.preempt && !p.shared ? r.range(1, p.tasks) : 0;
                        size_t const before = deepExecs.size();
                        emitDeep(0);
                        if (deepExecs.size() > before) deepOwner.push_back(curTask);
                    }
                for (int k = 0; k < n; k++)
                {
                    if (deepAt < deepExecs.size() && r.chance(30))
                    {
                        int const owner = deepOwner[deepAt];
                        out += op(p.preempt && !p.shared ? owner : p.tasks ? r.range(1, p.tasks) : 0, deepExecs[deepAt]);
                        if (r.chance(60)) deepAt++;
                        continue;
                    }
                    if (p.shared)
                    {
                        curTask = r.range(1, p.tasks);
                        emitExec(curTask, 0);
                    }
                    else emitOp(p.tasks ? r.range(1, p.tasks) : 0);
                }
                curTask = 0;
                if (!p.preempt && r.chance(p.teardown)) emitTeardown();
                if (r.chance(p.heal)) for (int i = 0; i < ni; i++) if (in[i].alive)
                {
                    std::string f;
                    if (r.chance(p.grow)) f += "G";
                    if (r.chance(p.memory)) f += "M";
                    out += op(9, "heal " + std::to_string(i) + (f.empty() ? "" : " " + f));
                }
                return Plan::parse(head + "\n" + scripts + out);
            }
        };
    }

    Plan genWorld1(std::string const& prop, uint64_t seed, uint64_t index, bool thorough)
    {
        registerCmds();
        Gen g(hashComb(hashComb(seed, index), hashStr(prop.c_str())));
        Rng& r = g.r;
        Prof& p = g.p;
        p.interps = r.range(1, 3);
        if (thorough && r.chance(30)) p.opsMax = 60;
        // swarm: switch whole features off in some runs
        if (r.chance(30)) p.simLexer = p.customLexer = 0;
        if (r.chance(30)) p.named = 0;
        if (r.chance(30)) p.damage = 0;
        if (r.chance(40)) p.wLexer = 0, p.lexInScript = 0;
        if (r.chance(40)) p.wMove = p.wNewDel = 0;
        if (r.chance(25)) p.reent = r.range(5, 30);
        {
            int const c = prop == "C03" ? 25 : prop == "C06" || prop == "C05" ? 8 : prop == "C01" || prop == "C16" || prop == "C17" || prop == "C11" ? 5 : 0;
            if (r.chance(c)) p.deep = r.chance(60) ? r.range(8, 40) : r.range(40, thorough ? 300 : 130);
        }
        p.large = prop != "C17" && prop != "C04" && prop != "C07" && r.chance(prop == "C09" ? 4 : prop == "C01" ? 1 : 3);
        if (prop == "C03" || prop == "C11") if (r.chance(40)) p.reent = r.range(10, 40);
        if (prop == "C01")
        {
            p.preempt = true;
            p.shared = r.chance(55);
            p.tasks = r.range(2, 4);
            p.opsMin = p.tasks;
            p.opsMax = p.tasks * 3;
            p.script = 50;
            p.scriptLen = 3;
            p.yield = 5;
            p.throwBody = 3;
            p.wRecycle = p.wHeal = p.wDrop = 0;
            p.retain = 0;
            p.wMove = 0;
            p.wNewDel = 1;
            p.heal = 0;
            p.damage = 6;
            if (p.shared) { p.nested = 10; p.regInScript = 0; p.lexInScript = 0; p.vars = p.props = false; }
            if (index >= 5000000 && !p.shared && r.chance(75))
            {
                // the first uses of the same things race with each other
                p.late = true;
                p.wBind = 60;
                for (int k = r.range(1, 3); k > 0; k--) p.narrow.push_back((int)r.below(g_cmds.size()));
            }
        }
        else if (prop == "C02")
        {
            p.teardown = 12;
            p.tasks = r.chance(50) ? r.range(1, 4) : 0;
            p.yield = p.tasks ? 15 : 0;
            p.wBind = 30; p.wUnbind = 20; p.wClear = 3; p.wMove = r.chance(50) ? 6 : 0; p.wGet = 10; p.wExec = 30;
            p.regInScript = 30;
            p.invalidArg = 5;
            p.opsMin = 10; p.opsMax = thorough ? 90 : 40;
            p.heal = 30;
            if (r.chance(8)) p.manyNames = r.range(10, 40);
            p.wBulk = r.chance(5) ? 10 : 0;
            p.wChurn = r.chance(5) ? 3 : 0;
        }
        else if (prop == "C03")
        {
            p.tasks = r.chance(60) ? r.range(2, 4) : 0;
            p.yield = p.tasks ? 25 : 0;
            p.nested = 40;
            p.named = 30;
            p.regInScript = r.chance(50) ? 10 : 0;
            p.throwBody = r.chance(50) ? 6 : 0;
            p.script = 85;
            p.retain = 15;
        }
        else if (prop == "C04")
        {
            p.teardown = 15;
            p.wBind = 40; p.wUnbind = 12; p.wLexer = r.chance(50) ? 10 : 2; p.wMove = r.chance(30) ? 5 : 0; p.wNewDel = r.chance(40) ? 5 : 0;
            p.wExec = 18; p.regInScript = r.chance(50) ? 25 : 0;
            p.scriptLen = 3;
            p.opsMin = 4; p.opsMax = 20;
            p.damage = 0;
            p.heal = 50;
            p.wBulk = r.chance(2) ? 10 : 0;
            p.wChurn = r.chance(5) ? 5 : 0;
            if (r.chance(10)) p.manyNames = r.chance(70) ? r.range(10, 30) : r.range(40, 90);
        }
        else if (prop == "C05")
        {
            p.wExec = 60; p.wExecIn = 10; p.script = 80; p.nested = r.chance(50) ? 25 : 5; p.tol = r.chance(50) ? 60 : 0;
            p.opsMin = 3; p.opsMax = 12;
            p.heal = 40;
            p.throwBody = r.chance(50) ? 0 : 5;
        }
        else if (prop == "C06")
        {
            p.throwBody = r.range(10, 35); p.throwArg = r.range(5, 30); p.simLexer = r.chance(50) ? 50 : 10; p.nested = r.chance(60) ? 30 : 5;
            p.tasks = r.chance(30) ? r.range(2, 3) : 0;
            p.yield = p.tasks ? 15 : 0;
            p.heal = 40;
            p.wStorm = r.chance(20) ? 5 : 0;
        }
        else if (prop == "C07")
        {
            p.wChurn = r.chance(5) ? 4 : 0;
            p.teardown = 12;
            p.wBind = 30; p.wUnbind = 10; p.wClear = 4; p.wNewDel = 6; p.wMove = 6; p.wLexer = 6; p.regInScript = 20; p.throwBody = r.chance(50) ? 10 : 0;
            p.tasks = r.chance(30) ? r.range(2, 3) : 0;
            p.yield = p.tasks ? 20 : 0;
            p.retain = 15;
            p.wBulk = r.chance(2) ? 10 : 0;
            if (r.chance(8)) p.manyNames = r.range(10, 30);
        }
        else if (prop == "C08")
        {
            p.invalidArg = r.range(10, 45); p.throwArg = r.range(0, 15); p.wExec = 70; p.wExecIn = 15; p.wUnbind = 2;
            p.nested = r.chance(40) ? 25 : 0;
            p.tasks = r.chance(30) ? r.range(2, 3) : 0;
            p.yield = p.tasks ? 15 : 0;
            p.heal = 10;
        }
        else if (prop == "C09")
        {
            p.damage = r.range(40, 90); p.wExec = 80; p.wExecIn = 2; p.customLexer = r.chance(50) ? 60 : 10; p.simLexer = 3; p.named = 30; p.wLexer = 4;
            p.script = 20;
            p.wStorm = r.chance(8) ? 3 : 0;
            p.opsMin = 8; p.opsMax = thorough ? 80 : 40;
            p.heal = 20;
        }
        else if (prop == "C10")
        {
            p.retain = r.range(40, 90); p.wRecycle = 15; p.wDrop = 4; p.wBind = 20; p.wUnbind = 6; p.wClear = 2; p.wNewDel = 5; p.wMove = 4; p.wLexer = 6; p.customLexer = 40;
            p.named = 30;
            p.wExecIn = 15;
            p.regInScript = 10;
        }
        else if (prop == "C11")
        {
            p.wLexer = 20; p.lexInScript = 25; p.simLexer = 45; p.customLexer = 30; p.nested = 25; p.throwBody = 4; p.script = 80;
            p.tasks = r.chance(50) ? r.range(2, 4) : 0;
            p.yield = p.tasks ? 25 : 0;
            p.wMove = r.chance(50) ? 8 : 0;
            p.wNewDel = 3;
            p.retain = 15;
            if (r.chance(8)) p.manyNames = r.range(10, 30);
        }
        else if (prop == "C16")
        {
            p.invalidArg = 15; p.script = 75; p.named = 30; p.nested = r.chance(40) ? 20 : 0; p.regInScript = r.chance(30) ? 10 : 0;
            p.wExec = 60; p.wExecIn = 10;
            p.heal = 10;
            p.wStorm = r.chance(8) ? 2 : 0;
        }
        else if (prop == "C17")
        {
            p.teardown = 12;
            p.throwBody = 10; p.throwArg = 8; p.damage = 20; p.wBind = 30; p.wUnbind = 18; p.wClear = r.chance(20) ? 2 : 0; p.regInScript = 20; p.wMove = 3; p.wLexer = 4;
            p.opsMin = 15; p.opsMax = thorough ? 150 : 60;
            p.heal = 100;
            p.grow = 15;
            p.memory = 60;
            p.wHeal = 2;
            p.wStorm = r.chance(15) ? 4 : 0;
            p.wChurn = r.chance(15) ? 5 : 0;
            p.wBulk = r.chance(6) ? 12 : 0;
            if (p.wBulk) p.wClear = 4, p.opsMax = 30;
            if (r.chance(40))
            {
                // many names: chain lengths and probe counts matter
                p.manyNames = r.range(20, 90);
                p.wBind = 80;
                p.opsMin = 60;
                p.opsMax = 140;
                p.script = 10;
            }
        }
        return g.make();
    }
}
