// Optional, expected and owning-pointer values.
#include "world2.h"

namespace sim
{
    namespace w2
    {
        // ================================================================ optional
        template<class T> struct OptWorld : Part
        {
            using Opt = coil::Optional<T>;
            using Tr = VTraits<T>;
            Box<Opt> v[kSlots];
            bool has[kSlots] = {};
            int m[kSlots] = {};
            void init() { for (int i = 0; i < kSlots; i++) { v[i].make([](void* p) { new (p) Opt(); }); has[i] = false; } }
            void destroy() { for (auto& x : v) x.destroy(); }
            void live(long* e) override { if (Tr::ek >= 0) e[Tr::ek] += liveExpected(); }
            long liveExpected() { long n = 0; for (auto& x : v) n += x->hasValue(); return n; }
            void sync(int i) { has[i] = v[i]->hasValue(); if (has[i]) m[i] = Tr::get(**v[i]); }
            void checkAll()
            {
                for (int i = 0; i < kSlots; i++)
                {
                    Opt const& V = *v[i];
                    CoilScope s;
                    bool h = V.hasValue();
                    bool bad = h != has[i] || static_cast<bool>(V) != h;
                    int got = 0;
                    if (h) { got = Tr::get(*V); bad = bad || got != m[i] || &*V != V.operator->() || &**v[i] != v[i]->operator->(); }
                    UserScope u;
                    if (bad) violation("optional:value", "optional %d is %s %d, expected %s %d", i, h ? "engaged" : "empty", got, has[i] ? "engaged" : "empty", m[i]);
                    logEvent((uint64_t)h * 7 + (uint64_t)got);
                }
            }
            void run(std::string const& o)
            {
                int d = slot(0), r = slot(1);
                Opt& D = *v[d];
                int x = arg(1);
                if (o == "none") { if (v[d].make([](void* p) { new (p) Opt(); })) has[d] = false; return; }
                if (o == "mval") { if (v[d].make([&](void* p) { new (p) Opt(Tr::make(x)); })) { has[d] = true; m[d] = x; } return; }
                if (o == "mctor") { if (d == r) return; bool h = has[r]; int t = m[r]; if (v[d].make([&](void* p) { new (p) Opt(coil::move(*v[r])); })) { has[d] = h; m[d] = t; sync(r); } return; }
                if (o == "massign") { if (d == r) return; bool h = has[r]; int t = m[r]; if (op([&] { D = coil::move(*v[r]); })) { has[d] = h; m[d] = t; sync(r); } return; }
                if (o == "reset") { if (op([&] { D = Opt{}; })) has[d] = false; return; }
                if (o == "assignval") { if (op([&] { D = Tr::make(x); })) { has[d] = true; m[d] = x; } return; }
                if (o == "deref") { if (has[d] && op([&] { T n = Tr::make(x); if (arg(2) % 2) *D = coil::move(n); else *D.operator->() = coil::move(n); })) m[d] = x; return; }
                if constexpr (Tr::copy)
                {
                    if ((o == "copy" || o == "assign" || o == "eq") && ((has[r] && !usable<T>(m[r])) || (o == "eq" && has[d] && !usable<T>(m[d])))) return;
                    if (o == "val") { bool ok = v[d].make([&](void* p) { T const t = Tr::make(x); new (p) Opt(t); }); if (ok) { has[d] = true; m[d] = x; } return; }
                    if (o == "copy") { bool h = has[r]; int t = m[r]; if (v[d].make([&, src = v[r].mem](void* p) { new (p) Opt(*(Opt const*)src); })) { has[d] = h; m[d] = t; } return; }
                    if (o == "assign") { bool h = has[r]; int t = m[r]; if (op([&] { D = static_cast<Opt const&>(*v[r]); })) { has[d] = h; m[d] = t; } return; }
                    if (o == "eq")
                    {
                        bool a = false, b = false, c = false, e = false;
                        if (!op([&] { a = D == *v[r]; b = D != *v[r]; T t = Tr::make(x); c = D == t; e = D != t; })) return;
                        bool same = has[d] == has[r] && (!has[d] || m[d] == m[r]);
                        bool isx = has[d] && m[d] == x;
                        if (a != same || b == same || c != isx || e == isx) violation("optional:compare", "comparison of optionals %d and %d is wrong", d, r);
                        return;
                    }
                }
            }
        };

        // ================================================================ expected
        template<class T> struct ExpWorld : Part
        {
            using Exp = coil::Expected<T, ErrElem>;
            using Tr = VTraits<T>;
            Box<Exp> v[kSlots];
            bool has[kSlots] = {};
            int m[kSlots] = {};
            void init() { setFaultsEnabled(false); for (int i = 0; i < kSlots; i++) { v[i].make([](void* p) { new (p) Exp(Tr::make(0)); }); has[i] = true; m[i] = 0; } setFaultsEnabled(true); }
            void destroy() { for (auto& x : v) x.destroy(); }
            void live(long* e) override { if (Tr::ek >= 0) e[Tr::ek] += liveExpected(); e[E_ERR] += liveErrors(); }
            long liveExpected() { long n = 0; for (auto& x : v) n += x->hasValue(); return n; }
            long liveErrors() { return kSlots - liveExpected(); }
            int read(int i) { Exp const& V = *v[i]; return V.hasValue() ? Tr::get(V.value()) : V.error().get(); }
            void sync(int i) { has[i] = v[i]->hasValue(); m[i] = read(i); }
            void checkAll()
            {
                for (int i = 0; i < kSlots; i++)
                {
                    Exp const& V = *v[i];
                    CoilScope s;
                    bool h = V.hasValue();
                    bool bad = h != has[i] || static_cast<bool>(V) != h;
                    int got = 0;
                    if (h) { got = Tr::get(V.value()); bad = bad || got != m[i] || &*V != &V.value() || V.operator->() != &V.value() || &v[i]->value() != &V.value() || v[i]->operator->() != &V.value(); }
                    else { got = V.error().get(); bad = bad || got != m[i] || &v[i]->error() != &V.error(); }
                    UserScope u;
                    if (bad) violation("expected:value", "expected %d is %s %d, should be %s %d", i, h ? "value" : "error", got, has[i] ? "value" : "error", m[i]);
                    logEvent((uint64_t)h * 7 + (uint64_t)got);
                }
            }
            void run(std::string const& o)
            {
                int d = slot(0), r = slot(1);
                Exp& D = *v[d];
                int x = arg(1);
                if (o == "mval") { if (v[d].make([&](void* p) { new (p) Exp(Tr::make(x)); })) { has[d] = true; m[d] = x; } return; }
                if (o == "err")
                {
                    int how = arg(2) % 3;
                    bool ok = v[d].make([&](void* p) {
                        if (how == 0) new (p) Exp(coil::makeUnexpected(ErrElem(x)));
                        else if (how == 1) { coil::Unexpected<ErrElem> e{ErrElem(x)}; coil::Unexpected<ErrElem> const& c = e; coil::Unexpected<ErrElem> e2 = c; new (p) Exp(e2); }
                        else { coil::Unexpected<int> i = coil::makeUnexpected(x); coil::Unexpected<ErrElem> e = i; new (p) Exp(coil::move(e)); }
                    });
                    if (ok) { has[d] = false; m[d] = x; }
                    return;
                }
                if (o == "mctor") { if (d == r) return; bool h = has[r]; int t = m[r]; if (v[d].make([&](void* p) { new (p) Exp(coil::move(*v[r])); })) { has[d] = h; m[d] = t; sync(r); } return; }
                if (o == "massign") { if (d == r) return; bool h = has[r]; int t = m[r]; if (op([&] { D = coil::move(*v[r]); })) { has[d] = h; m[d] = t; sync(r); } return; }
                if (o == "assignval") { if (op([&] { D = Exp(Tr::make(x)); })) { has[d] = true; m[d] = x; } return; }
                if (o == "assignerr") { if (op([&] { D = Exp(coil::makeUnexpected(ErrElem(x))); })) { has[d] = false; m[d] = x; } return; }
                if (o == "take")
                {
                    int got = 0;
                    bool h = has[d];
                    op([&] {
                        if (h) { T t = arg(2) % 2 ? coil::move(D).value() : *coil::move(D); got = Tr::get(t); }
                        else { ErrElem t = coil::move(D).error(); got = t.get(); }
                    });
                    if (got != m[d]) violation("expected:value", "took %d out of expected %d, should be %d", got, d, m[d]);
                    if (v[d]->hasValue() != h) violation("expected:value", "taking the value changed the state of expected %d", d);
                    sync(d);
                    return;
                }
                if (o == "deref")
                {
                    if (op([&] { if (D) { T n = Tr::make(x); if (arg(2) % 2) *D = coil::move(n); else D.value() = coil::move(n); } else { ErrElem n(x); D.error() = coil::move(n); } })) m[d] = x;
                    return;
                }
                if constexpr (Tr::copy)
                {
                    if ((o == "copy" || o == "assign" || o == "eq") && ((has[r] && !usable<T>(m[r])) || (o == "eq" && has[d] && !usable<T>(m[d])))) return;
                    if (o == "copy") { bool h = has[r]; int t = m[r]; if (v[d].make([&, src = v[r].mem](void* p) { new (p) Exp(*(Exp const*)src); })) { has[d] = h; m[d] = t; } return; }
                    if (o == "assign") { bool h = has[r]; int t = m[r]; if (op([&] { D = static_cast<Exp const&>(*v[r]); })) { has[d] = h; m[d] = t; } return; }
                    if (o == "eq")
                    {
                        bool a = false, c = false, e = false;
                        if (!op([&] { a = D == *v[r]; T t = Tr::make(x); c = D == t; e = D == coil::makeUnexpected(ErrElem(x)); })) return;
                        if (a != (has[d] == has[r] && m[d] == m[r]) || c != (has[d] && m[d] == x) || e != (!has[d] && m[d] == x)) violation("expected:compare", "comparison of expected %d and %d is wrong", d, r);
                        return;
                    }
                }
            }
        };

        // ================================================================ owning pointers
        struct PtrWorld : Part
        {
            using P = coil::UniquePtr<ObjBase>;
            Box<P> v[kSlots];
            bool has[kSlots] = {};
            int m[kSlots] = {}, kind[kSlots] = {};
            void init() { for (int i = 0; i < kSlots; i++) { v[i].make([](void* p) { new (p) P(); }); has[i] = false; } }
            void destroy() { for (auto& x : v) x.destroy(); }
            void live(long* e) override { e[E_OBJ] += liveExpected(); e[E_ELEM] += liveExtra(); }
            long liveExpected() { long n = 0; for (auto& x : v) n += static_cast<P const&>(*x).get() != nullptr; return n; }
            long liveExtra() { long n = 0; for (auto& x : v) n += static_cast<P const&>(*x).get() && x->get()->kind() == 1; return n; }
            void sync(int i) { has[i] = v[i]->get() != nullptr; if (has[i]) { v[i]->get()->b.check(); m[i] = v[i]->get()->v; kind[i] = v[i]->get()->kind(); } }
            void checkAll()
            {
                for (int i = 0; i < kSlots; i++)
                {
                    P const& V = *v[i];
                    CoilScope s;
                    ObjBase const* p = V.get();
                    bool bad = (p != nullptr) != has[i] || static_cast<bool>(V) != has[i] || v[i]->get() != p;
                    if (!bad && p) { p->b.check(); bad = p->v != m[i] || V->v != m[i] || (*V).v != m[i] || (*v[i])->v != m[i] || (**v[i]).v != m[i] || p->kind() != kind[i]; }
                    UserScope u;
                    if (bad) violation("pointer:value", "pointer %d is wrong", i);
                    logEvent((uint64_t)has[i] * 7 + (uint64_t)m[i]);
                }
            }
            void run(std::string const& o)
            {
                int d = slot(0), r = slot(1);
                P& D = *v[d];
                int x = arg(1);
                if (o == "null") { if (v[d].make([](void* p) { new (p) P(); })) has[d] = false; return; }
                if (o == "make") { if (v[d].make([&](void* p) { new (p) P(coil::makeUnique<ObjBase>(x)); })) { has[d] = true; m[d] = x; kind[d] = 0; } return; }
                if (o == "makeder") { if (v[d].make([&](void* p) { new (p) P(coil::makeUnique<ObjDerived>(x)); })) { has[d] = true; m[d] = x; kind[d] = 1; } return; }
                if (o == "assign") { if (op([&] { D = coil::makeUnique<ObjBase>(x); })) { has[d] = true; m[d] = x; kind[d] = 0; } return; }
                if (o == "assignder") { if (op([&] { D = coil::makeUnique<ObjDerived>(x); })) { has[d] = true; m[d] = x; kind[d] = 1; } return; }
                if (o == "reset") { if (op([&] { D = P{}; })) has[d] = false; return; }
                if (o == "mctor") { if (d == r) return; bool h = has[r]; int t = m[r], k = kind[r]; if (v[d].make([&](void* p) { new (p) P(coil::move(*v[r])); })) { has[d] = h; m[d] = t; kind[d] = k; sync(r); } return; }
                if (o == "massign") { if (d == r) return; bool h = has[r]; int t = m[r], k = kind[r]; if (op([&] { D = coil::move(*v[r]); })) { has[d] = h; m[d] = t; kind[d] = k; sync(r); } return; }
                if (o == "set") { if (has[d]) { op([&] { D->v = x; }); m[d] = x; } return; }
            }
        };

        Part* makeValue(char letter)
        {
            switch (letter)
            {
            case 'o': return new OptWorld<Elem>;
            case 'p': return new OptWorld<MElem>;
            case 'q': return new OptWorld<coil::String>;
            case 'r': return new OptWorld<StrVec>;
            case 'x': return new ExpWorld<Elem>;
            case 'y': return new ExpWorld<MElem>;
            case 'z': return new ExpWorld<coil::String>;
            case 'w': return new ExpWorld<StrVec>;
            case 'u': return new PtrWorld;
            default: return nullptr;
            }
        }
    }
}
