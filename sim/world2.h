// World 2: the library's containers and value types under histories with allocation and copy failures.
// Files including this are instrumented like the library, because they instantiate its templates.
#pragma once
#include "world.h"
#include "cmds.h"
#include "coil/detail/Expected.h"
#include "coil/detail/Optional.h"
#include "coil/detail/String.h"
#include "coil/detail/StringView.h"
#include "coil/detail/Unexpected.h"
#include "coil/detail/UniquePtr.h"
#include "coil/detail/UnorderedMap.h"
#include "coil/detail/Vector.h"
#include <algorithm>
#include <limits>
#include <type_traits>

namespace sim
{
    namespace w2
    {
        constexpr int kMoved = -999999;
        constexpr int kSlots = 3;
        constexpr int kStrSlots = 4;

        // ---------------------------------------------------------------- elements
        enum EK { E_ELEM, E_MOVE, E_COPY, E_ERR, E_OBJ, E_KINDS };
        inline long s_liveCount[E_KINDS];
        inline uint64_t s_copies = 0;

        template<int Kind> struct Base
        {
            uint32_t magic = 0xE1E3u + Kind;
            Base() { s_liveCount[Kind]++; }
            ~Base()
            {
                check();
                magic = 0xdead;
                s_liveCount[Kind]--;
            }
            void check() const
            {
                if (magic != 0xE1E3u + Kind) violation("lifetime:element", "an element which isn't alive is used or destroyed");
            }
        };
        // owns memory: a copy can fail, a move can't
        template<int Kind> struct OwnElem
        {
            int* p;
            Base<Kind> b;
            OwnElem() : p(new int(0)) {}
            OwnElem(int v) : p(new int(v)) {}
            OwnElem(OwnElem const& r) : p((r.b.check(), r.p) ? new int(*r.p) : nullptr) { s_copies++; }
            OwnElem(OwnElem&& r) noexcept : p((r.b.check(), r.p)) { r.p = nullptr; }
            OwnElem& operator=(OwnElem const& r)
            {
                b.check();
                r.b.check();
                int* n = r.p ? new int(*r.p) : nullptr;
                s_copies++;
                delete p;
                p = n;
                return *this;
            }
            OwnElem& operator=(OwnElem&& r) noexcept
            {
                b.check();
                r.b.check();
                if (this != &r)
                {
                    delete p;
                    p = r.p;
                    r.p = nullptr;
                }
                return *this;
            }
            ~OwnElem() { b.check(); delete p; p = (int*)1; }
            int get() const { b.check(); return p ? *p : kMoved; }
            bool operator==(OwnElem const& r) const { return get() == r.get(); }
            bool operator!=(OwnElem const& r) const { return get() != r.get(); }
        };
        using Elem = OwnElem<E_ELEM>;
        using ErrElem = OwnElem<E_ERR>;
        struct MElem
        {
            int v = 0;
            Base<E_MOVE> b;
            MElem() = default;
            explicit MElem(int v) : v(v) {}
            MElem(MElem&& r) noexcept : v((r.b.check(), r.v)) { r.v = kMoved; }
            MElem& operator=(MElem&& r) noexcept
            {
                b.check();
                r.b.check();
                if (this != &r) { v = r.v; r.v = kMoved; }
                return *this;
            }
            MElem(MElem const&) = delete;
            MElem& operator=(MElem const&) = delete;
            int get() const { b.check(); return v; }
            bool operator==(MElem const& r) const { return get() == r.get(); }
            bool operator!=(MElem const& r) const { return get() != r.get(); }
        };
        // no move operations: every relocation is a copy, which can fail
        struct CElem
        {
            int* p;
            Base<E_COPY> b;
            CElem() : p(new int(0)) {}
            explicit CElem(int v) : p(new int(v)) {}
            CElem(CElem const& r) : p((r.b.check(), new int(*r.p))) { s_copies++; }
            CElem& operator=(CElem const& r)
            {
                b.check();
                r.b.check();
                int* n = new int(*r.p);
                s_copies++;
                delete p;
                p = n;
                return *this;
            }
            ~CElem() { b.check(); delete p; p = (int*)1; }
            int get() const { b.check(); return *p; }
            bool operator==(CElem const& r) const { return get() == r.get(); }
            bool operator!=(CElem const& r) const { return get() != r.get(); }
        };
        struct ObjBase
        {
            Base<E_OBJ> b;
            int v;
            explicit ObjBase(int v) : v(v) {}
            virtual ~ObjBase() {}
            virtual int kind() const { return 0; }
        };
        struct ObjDerived : ObjBase
        {
            Elem extra;
            explicit ObjDerived(int v) : ObjBase(v), extra(v + 1) {}
            int kind() const override { return 1; }
        };
        // keys
        inline int s_hashMode = 0;
        struct KInt
        {
            int v;
            bool operator==(KInt const& r) const { return v == r.v; }
        };
        struct KOther // heterogeneous lookup
        {
            int v;
        };
        inline bool operator==(KInt const& a, KOther const& b) { return a.v == b.v; }
        inline size_t hashOf(int v)
        {
            switch (s_hashMode)
            {
            case 1: return 5;
            case 2: return (size_t)(v % 3);
            case 3: return (size_t)v << 32;
            case 4: return mix64((uint64_t)v);
            case 5: return (size_t)(v & ~1);
            case 6: return (size_t)(v / 6);
            default: return (size_t)v;
            }
        }

        // ---------------------------------------------------------------- helpers
        inline std::vector<std::string> const* s_w = nullptr;
        inline int arg(size_t i, int d = 0) { return 4 + i < s_w->size() ? atoi((*s_w)[4 + i].c_str()) : d; }
        inline std::string argText(size_t i) { return 4 + i < s_w->size() ? unesc((*s_w)[4 + i]) : std::string(); }
        inline int slot(size_t i, int n = kSlots) { int s = arg(i) % n; return s < 0 ? s + n : s; }

        inline uint64_t s_stepBudget = 0;
        inline bool s_hugeRequest = false;

        // runs one library operation; false: it reported that memory ran out
        template<class F> bool op(F f)
        {
            uint64_t f0 = t_cur->allocFaultsFired;
            uint64_t st0 = t_cur->steps;
            bool ok = true;
            try
            {
                CoilScope s;
                f();
            }
            catch (InjectedBadAlloc const&)
            {
                ok = false;
            }
            catch (...)
            {
                violation("exception:unexpected", "op %d: unexpected exception", t_cur->op);
            }
            if (!ok && t_cur->allocFaultsFired == f0 && !s_hugeRequest) violation("exception:unexpected", "op %d reports that memory ran out, but no allocation failed", t_cur->op);
            if (ok) { if (t_cur->allocFaultsFired != f0) count("op_survived_fault"); }
            else count("op_failed");
            s_hugeRequest = false;
            uint64_t steps = t_cur->steps - st0;
            if (s_stepBudget && steps > s_stepBudget) violation("work:unbounded", "op %d takes %llu steps, at most %llu expected", t_cur->op, (unsigned long long)steps, (unsigned long long)s_stepBudget);
            logEvent(ok ? 3 : 4);
            return ok;
        }

        template<class C> struct Box
        {
            void* mem = nullptr;
            C& operator*() { return *(C*)mem; }
            C* operator->() { return (C*)mem; }
            template<class F> bool make(F f)
            {
                void* n = malloc(sizeof(C));
                memset(n, 0xCC, sizeof(C));
                bool ok = op([&] { f(n); });
                if (!ok)
                {
                    free(n);
                    return false;
                }
                destroy();
                mem = n;
                return true;
            }
            void destroy()
            {
                if (!mem) return;
                {
                    CoilScope s;
                    ((C*)mem)->~C();
                }
                memset(mem, 0xDB, sizeof(C));
                free(mem);
                mem = nullptr;
            }
        };

        template<class T> struct VTraits;
        template<> struct VTraits<int> { static constexpr bool copy = true; static constexpr int ek = -1; static int make(int v) { return v; } static int get(int v) { return v; } static constexpr bool defInit = true; };
        template<> struct VTraits<Elem> { static constexpr bool copy = true; static constexpr int ek = E_ELEM; static Elem make(int v) { return Elem(v); } static int get(Elem const& e) { return e.get(); } };
        template<> struct VTraits<MElem> { static constexpr bool copy = false; static constexpr int ek = E_MOVE; static MElem make(int v) { return MElem(v); } static int get(MElem const& e) { return e.get(); } };
        template<> struct VTraits<CElem> { static constexpr bool copy = true; static constexpr int ek = E_COPY; static CElem make(int v) { return CElem(v); } static int get(CElem const& e) { return e.get(); } };
        inline std::string strOf(int v) { return "string value number " + std::to_string(v); }
        template<> struct VTraits<coil::String>
        {
            static constexpr bool copy = true;
            static constexpr int ek = -1;
            static coil::String make(int v) { char b[64]; { UserScope u; std::string s = strOf(v); memcpy(b, s.c_str(), s.size() + 1); } return coil::String{b}; }
            static int get(coil::String const& s)
            {
                UserScope u;
                if (!s.data()) return kMoved;
                if (s.data()[s.length()]) violation("string:terminator", "string element isn't terminated");
                std::string t(s.data(), s.length());
                if (t.empty()) return 0;
                if (t.compare(0, 20, "string value number ") != 0) violation("vector:value", "string element is damaged");
                return atoi(t.c_str() + 20);
            }
        };

        // vectors as elements of other containers
        struct StrVec : coil::Vector<coil::String>
        {
            bool operator!=(StrVec const& r) const { return !(*this == r); }
        };
        template<> struct VTraits<StrVec>
        {
            static constexpr bool copy = true;
            static constexpr int ek = -1;
            static StrVec make(int v)
            {
                StrVec r;
                for (int i = 0; v && i <= v % 3; i++) r.pushBack(VTraits<coil::String>::make(v));
                return r;
            }
            static int get(StrVec const& s)
            {
                if (s.empty()) return 0;
                int v = VTraits<coil::String>::get(s[0]);
                if (s.size() != (size_t)(v % 3 + 1)) violation("vector:value", "a nested vector has %zu elements, expected %d", s.size(), v % 3 + 1);
                for (auto const& x : s)
                    if (VTraits<coil::String>::get(x) != v) violation("vector:value", "an element of a nested vector is damaged");
                return v;
            }
        };

        // a moved-from string can only be assigned or destroyed
        template<class T> bool usable(int v) { return !std::is_same_v<T, coil::String> || v != kMoved; }
        template<class T> bool usable(std::vector<int> const& v)
        {
            for (int x : v) if (!usable<T>(x)) return false;
            return true;
        }

        // one container type with its objects and their models
        struct Part
        {
            virtual ~Part() {}
            virtual void init() = 0;
            virtual void destroy() = 0;
            virtual void checkAll() = 0;
            virtual void run(std::string const& verb) = 0;
            virtual void live(long* expected) = 0; // adds the number of elements which should be alive
            virtual void setKeys(int) {}
        };
        Part* makeSequence(char letter); // string and vectors
        Part* makeMap(char letter);
        Part* makeValue(char letter); // optional, expected, pointer
    }
}
namespace coil
{
    template<> struct Hash<sim::w2::KInt> { size_t operator()(sim::w2::KInt const& k) { return sim::w2::hashOf(k.v); } };
    template<> struct Hash<sim::w2::KOther> { size_t operator()(sim::w2::KOther const& k) { return sim::w2::hashOf(k.v); } };
}
