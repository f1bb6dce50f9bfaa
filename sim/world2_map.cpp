// Hash maps.
#include "world2.h"

namespace sim
{
    namespace w2
    {
        // ================================================================ maps
        template<class K> struct KTraits;
        template<> struct KTraits<KInt>
        {
            static KInt make(int v) { return KInt{v}; }
            static int get(KInt const& k) { return k.v; }
            template<class M> static auto find(M& m, int v, int how) { return how % 2 ? m.find(KOther{v}) : m.find(KInt{v}); }
            template<class M> static void erase(M& m, int v, int how) { if (how % 2) m.erase(KOther{v}); else m.erase(KInt{v}); }
        };
        static char const* keyText(int v)
        {
            static char b[8][64];
            static int n = 0;
            n = (n + 1) % 8;
            // keys with colliding hashes ("b!" and "aB" in djb2) and common prefixes
            static char const* const fixed[] = {"", "a", "ab", "aB", "b!", "abc", "aBc", "b!c", "ac!", "acB", "bb!"};
            if (v >= 0 && v < 11) snprintf(b[n], 64, "%s", fixed[v]);
            else snprintf(b[n], 64, "key number %d", v);
            return b[n];
        }
        static int keyOf(std::string const& s)
        {
            for (int i = 0; i < 11; i++) if (s == keyText(i)) return i;
            if (s.compare(0, 11, "key number ") != 0) violation("map:key", "a key of the map is damaged: '%s'", esc(s.substr(0, 60)).c_str());
            return atoi(s.c_str() + 11);
        }
        template<> struct KTraits<coil::String>
        {
            static char const* tx(int v) { UserScope u; return keyText(v); }
            static coil::String make(int v) { return coil::String{tx(v)}; }
            static int get(coil::String const& k) { UserScope u; return k.data() ? keyOf(S(k)) : kMoved; }
            template<class M> static auto find(M& m, int v, int how) { char const* t = tx(v); if (how % 2) return m.find(coil::StringView{t}); return m.find(coil::String{t}); }
            template<class M> static void erase(M& m, int v, int how) { char const* t = tx(v); if (how % 2) m.erase(coil::StringView{t}); else m.erase(coil::String{t}); }
        };
        template<class K, class V> struct MapWorld : Part
        {
            using Map = coil::UnorderedMap<K, V>;
            using KT = KTraits<K>;
            using VT = VTraits<V>;
            Box<Map> v[kSlots];
            std::map<int, int> m[kSlots];
            size_t buckets[kSlots] = {};
            bool moved[kSlots] = {};
            int keys = 12;
            void init() { for (int i = 0; i < kSlots; i++) { v[i].make([](void* p) { new (p) Map(); }); m[i].clear(); buckets[i] = 1; } }
            void destroy() { for (auto& x : v) x.destroy(); }
            void setKeys(int n) override { keys = n; }
            void live(long* e) override { if (VT::ek >= 0) e[VT::ek] += liveExpected(); }
            long liveExpected() { long n = 0; for (auto& x : v) n += (long)x->size(); return n; }
            void budget(int i, int j = -1)
            {
                size_t n = m[i].size() + (j >= 0 ? m[j].size() : 0) + 2;
                size_t b = buckets[i] + (j >= 0 ? buckets[j] : 0);
                s_stepBudget = 60000 + n * n * 600 + b * 400;
            }
            std::map<int, int> read(int i)
            {
                std::map<int, int> r;
                size_t n = 0;
                Map const& MV = *v[i];
                for (auto it = MV.begin(); it != MV.end(); ++it)
                {
                    int k = KT::get(it->key());
                    if (r.count(k)) violation("map:iteration", "key %d occurs twice in map %d", k, i);
                    r[k] = VT::get(it->value());
                    if (++n > MV.size()) violation("map:iteration", "iteration visits more than %zu elements", MV.size());
                }
                return r;
            }
            void check(int i, bool full)
            {
                Map const& MV = *v[i];
                if (MV.size() != m[i].size()) violation("map:size", "map %d has %zu elements, expected %zu", i, MV.size(), m[i].size());
                if (read(i) != m[i])
                {
                    std::string g, e;
                    for (auto& x : read(i)) g += std::to_string(x.first) + ":" + std::to_string(x.second) + " ";
                    for (auto& x : m[i]) e += std::to_string(x.first) + ":" + std::to_string(x.second) + " ";
                    violation("map:iteration", "map %d contains {%s}, expected {%s}", i, g.substr(0, 300).c_str(), e.substr(0, 300).c_str());
                }
                if (!full) return;
                budget(i);
                setFaultsEnabled(false);
                int const stride = keys / 300 + 1; // with very many keys a sample of them
                for (int k = (int)(t_cur->op % stride); k < keys; k += stride)
                {
                    bool found = false, found2 = false;
                    int val = 0;
                    op([&] {
                        Map const& C = *v[i];
                        auto it = KT::find(C, k, k);
                        found = it != C.end();
                        if (found) val = KT::get(it->key()) == k ? VT::get((*it).value()) : -12345;
                        auto it2 = KT::find(*v[i], k, k + 1);
                        found2 = it2 != v[i]->end();
                    });
                    auto e = m[i].find(k);
                    if (found != (e != m[i].end()) || found2 != found || (found && val != e->second))
                        violation("map:find", "looking up key %d in map %d: %s %d, expected %s %d", k, i, found ? "found" : "none", val, e != m[i].end() ? "found" : "none", e != m[i].end() ? e->second : 0);
                }
                setFaultsEnabled(true);
            }
            void checkAll()
            {
                for (int i = 0; i < kSlots; i++)
                {
                    check(i, true);
                    for (auto& x : m[i]) logEvent((uint64_t)x.first * 1000 + (uint64_t)x.second);
                }
            }
            void run(std::string const& o)
            {
                int d = slot(0), r = slot(1);
                Map& D = *v[d];
                auto& M = m[d];
                budget(d, r);
                if (o == "new")
                {
                    size_t b = (size_t)arg(1, 1);
                    static float const lfs[] = {1.0f, 0.5f, 0.25f, 2.0f, 4.0f, std::numeric_limits<float>::infinity(), 0.75f, 100.0f};
                    float lf = lfs[(unsigned)arg(2) % 8];
                    buckets[d] += b;
                    budget(d);
                    if (v[d].make([&](void* p) { new (p) Map(b, lf); })) { m[d].clear(); buckets[d] = b; }
                    return;
                }
                if (o == "mctor") { if (d == r) return; auto t = m[r]; size_t b = buckets[r]; if (v[d].make([&](void* p) { new (p) Map(coil::move(*v[r])); })) { m[d] = t; m[r] = read(r); buckets[d] = b; moved[r] = true; } return; }
                if (o == "massign") { if (d == r) return; auto t = m[r]; if (op([&] { D = coil::move(*v[r]); })) { M = t; m[r] = read(r); std::swap(buckets[d], buckets[r]); moved[r] = true; } return; }
                if constexpr (VT::copy)
                {
                    if (o == "copy") { auto t = m[r]; if (v[d].make([&, src = v[r].mem](void* p) { new (p) Map(*(Map const*)src); })) { m[d] = t; buckets[d] = buckets[r]; } return; }
                    if (o == "assign") { auto t = m[r]; if (op([&] { D = static_cast<Map const&>(*v[r]); })) { M = t; buckets[d] = buckets[r]; } return; }
                }
                int k = arg(1) % keys;
                if (k < 0) k += keys;
                if (o == "bput" || o == "bdel")
                {
                    // many keys at once, each operation with its own bound on the work
                    int const n = std::min(arg(2), 100000), step = std::max(1, arg(3));
                    size_t const f0 = t_cur->allocFaultsFired;
                    for (int i = 0; i < n && t_cur->allocFaultsFired == f0; i++, k = (k + step) % keys)
                    {
                        capRestart();
                        if (o == "bput")
                        {
                            if (op([&] { D.insertOrAssign(KT::make(k), VT::make(i)); })) M[k] = i;
                            buckets[d] = std::max(buckets[d], (M.size() + 1) * 2);
                        }
                        else if (op([&] { KT::erase(D, k, i); })) M.erase(k);
                        budget(d, r);
                    }
                    count("bulk_grow");
                    return;
                }
                if (o == "put")
                {
                    int x = arg(2);
                    int gotK = k, gotV = x;
                    if (op([&] {
                            auto it = D.insertOrAssign(KT::make(k), VT::make(x));
                            gotK = KT::get((*it).key());
                            gotV = VT::get(it->value());
                        }))
                    {
                        M[k] = x;
                        if (gotK != k || gotV != x) violation("map:insert", "inserting %d:%d returned %d:%d", k, x, gotK, gotV);
                        buckets[d] = std::max(buckets[d], M.size() * 2);
                    }
                    else buckets[d] = std::max(buckets[d], (M.size() + 1) * 2);
                    return;
                }
                if (o == "del") { if (op([&] { KT::erase(D, k, arg(2)); })) M.erase(k); return; }
                if (o == "clear") { if (!op([&] { D.clear(); })) violation("map:clear", "clear() failed"); M.clear(); return; }
                if (o == "upd")
                {
                    int x = arg(2);
                    bool found = false;
                    bool ok = op([&] {
                        auto it = KT::find(D, k, arg(3));
                        if (it != D.end())
                        {
                            it->value() = VT::make(x);
                            found = true;
                        }
                    });
                    if (ok && found != (M.count(k) != 0)) violation("map:find", "key %d is %s", k, found ? "found but shouldn't" : "not found");
                    if (ok && found) M[k] = x;
                    return;
                }
            }
        };

        Part* makeMap(char letter)
        {
            switch (letter)
            {
            case 'E': return new MapWorld<KInt, Elem>;
            case 'M': return new MapWorld<KInt, MElem>;
            case 'S': return new MapWorld<coil::String, coil::String>;
            case 'K': return new MapWorld<KInt, coil::String>;
            case 'N': return new MapWorld<KInt, StrVec>;
            default: return nullptr;
            }
        }
    }
}
