// Strings and vectors.
#include "world2.h"

namespace sim
{
    namespace w2
    {
        // ================================================================ strings
        struct StringWorld : Part
        {
            Box<coil::String> s[kStrSlots];
            std::string m[kStrSlots];
            bool moved[kStrSlots] = {};

            void init()
            {
                for (int i = 0; i < kStrSlots; i++) { s[i].make([](void* p) { new (p) coil::String(); }); m[i].clear(); moved[i] = false; }
            }
            void live(long*) override {}
            void destroy() { for (auto& x : s) x.destroy(); }
            void check(int i)
            {
                if (!s[i].mem) return;
                coil::String& v = *s[i];
                std::string const& e = m[i];
                bool bad = false;
                CoilScope sc;
                bad = v.length() != e.size() || v.slength() != (int)e.size() || v.empty() != e.empty();
                if (!moved[i] && !bad && v.data()) // of a moved-from string only the length is defined
                {
                    bad = memcmp(v.data(), e.data(), e.size()) != 0 || static_cast<coil::String const&>(v).data() != v.cStr();
                    if (!bad && v.cStr()[e.size()] != 0) { UserScope u; violation("string:terminator", "string %d isn't terminated", i); }
                    bad = bad || v.begin() != v.data() || v.end() != v.begin() + e.size();
                    if (!bad && !e.empty()) bad = v.back() != e.back() || static_cast<coil::String const&>(v).back() != e.back();
                    coil::StringView view = v;
                    bad = bad || view.length() != e.size() || memcmp(view.data(), e.data(), e.size()) != 0;
                }
                else if (!moved[i]) bad = true;
                UserScope u;
                if (bad) violation("string:value", "string %d is '%s' (length %zu), expected '%s' (length %zu)", i, v.data() ? esc(S(v).substr(0, 100)).c_str() : "", v.length(), esc(e.substr(0, 100)).c_str(), e.size());
            }
            void checkAll()
            {
                for (int i = 0; i < kStrSlots; i++) check(i);
                for (auto const& x : m) logEvent(x);
            }
            void sync(int i)
            {
                m[i] = S(*s[i]);
                moved[i] = true;
            }
            void run(std::string const& v)
            {
                int d = slot(0, kStrSlots), r = slot(1, kStrSlots);
                coil::String& D = *s[d];
                std::string& M = m[d];
                if (v == "snew" || v == "snewz" || v == "snewv")
                {
                    std::string t = argText(1);
                    int how = v == "snew" ? 0 : v == "snewz" ? 1 : 2;
                    if (how == 1) t = t.c_str();
                    std::vector<char> buf(t.begin(), t.end());
                    buf.push_back(0);
                    if (how != 1) { buf.pop_back(); buf.shrink_to_fit(); }
                    char const* b = buf.empty() ? "" : buf.data();
                    bool ok = s[d].make([&](void* p) {
                        if (how == 0) new (p) coil::String(b, t.size());
                        else if (how == 1) new (p) coil::String(b);
                        else new (p) coil::String(coil::StringView{b, t.size()});
                    });
                    if (ok) { M = t; moved[d] = false; }
                    return;
                }
                if (v == "scopy") { if (moved[r]) return; std::string t = m[r]; if (s[d].make([&, src = s[r].mem](void* p) { new (p) coil::String(*(coil::String const*)src); })) { m[d] = t; moved[d] = false; } return; }
                if (v == "smctor")
                {
                    if (d == r) return;
                    std::string t = m[r];
                    bool mv = moved[r];
                    if (s[d].make([&](void* p) { new (p) coil::String(coil::move(*s[r])); })) { m[d] = t; moved[d] = mv; sync(r); }
                    return;
                }
                if (v == "sassign") { if (moved[r]) return; if (op([&] { D = static_cast<coil::String const&>(*s[r]); })) { std::string t = m[r]; M = t; moved[d] = false; } return; }
                if (v == "smassign") { if (d == r) return; std::string t = m[r]; bool mv = moved[r]; if (op([&] { D = coil::move(*s[r]); })) { M = t; moved[d] = mv; sync(r); } return; }
                if (v == "sbig")
                {
                    size_t n = (size_t)arg(1);
                    if (n > 200000) n = 200000;
                    std::string t(n, 'b');
                    for (size_t i = 0; i < n; i += 7) t[i] = (char)('A' + i % 26);
                    bool const one = arg(2) % 2;
                    size_t done = 0;
                    if (one) { if (op([&] { D.append(t.data(), n); })) done = n; }
                    else op([&] { for (; done < n; done++) D += t[done]; });
                    M += t.substr(0, done);
                    if (done) moved[d] = false;
                    count("bulk_grow");
                    return;
                }
                if (M.size() > 6000 && arg(1) % 4 == 0) { if (op([&] { D.resize(3); })) M.resize(3); return; }
                if (v == "sapp") { std::string t = argText(1); if (op([&] { D.append(t.data(), t.size()); })) { M += t; moved[d] = false; } return; }
                if (v == "sappz") { std::string t = argText(1).c_str(); if (op([&] { D += t.c_str(); })) { M += t; moved[d] = false; } return; }
                if (v == "sappc") { char c = (char)arg(1); if (op([&] { D += c; })) { M += c; moved[d] = false; } return; }
                if (v == "sapps") { if (moved[r]) return; std::string t = m[r]; if (op([&] { D += static_cast<coil::String const&>(*s[r]); })) { M += t; moved[d] = false; } return; }
                if (v == "sappv")
                {
                    // a view of a string, possibly of this one
                    if (moved[r]) return;
                    size_t off = m[r].empty() ? 0 : (size_t)arg(2) % (m[r].size() + 1), len = (size_t)arg(3) % (m[r].size() - off + 1);
                    std::string t = m[r].substr(off, len);
                    int how = arg(4) % 3;
                    char const* base = s[r]->data();
                    if (d == r) count("self_alias");
                    bool ok;
                    if (how == 0) ok = op([&] { D += coil::StringView{base + off, len}; });
                    else if (how == 1) ok = op([&] { D.append(base + off, len); });
                    else
                    {
                        t = std::string(m[r].substr(off).c_str());
                        ok = op([&] { D += base + off; });
                    }
                    if (ok) { M += t; moved[d] = false; }
                    return;
                }
                if (v == "sown")
                {
                    // a character of this string, by reference
                    if (M.empty() || moved[d]) return;
                    size_t i = (size_t)arg(1) % M.size();
                    char c = M[i];
                    count("self_alias");
                    if (op([&] { D += D.data()[i]; })) M += c;
                    return;
                }
                if (v == "sreserve")
                {
                    size_t n = (size_t)arg(1);
                    if (arg(2) == 1) { n = (size_t)1 << 41; s_hugeRequest = true; }
                    op([&] { D.reserve(n); });
                    return;
                }
                if (v == "sresize")
                {
                    size_t n = (size_t)arg(1);
                    if (arg(2) == 1) { n = (size_t)1 << 41; s_hugeRequest = true; }
                    size_t old = M.size();
                    if (op([&] { D.resize(n); }))
                    {
                        // the content of the new part is up to the caller
                        for (size_t i = old; i < n; i++) D.data()[i] = (char)('a' + i % 26);
                        M.resize(n);
                        for (size_t i = old; i < n; i++) M[i] = (char)('a' + i % 26);
                        moved[d] = false;
                    }
                    return;
                }
                if (v == "splus")
                {
                    if (moved[d] || moved[r]) return;
                    std::string t = argText(2);
                    int how = arg(3) % 4;
                    std::string add = how == 0 ? std::string(1, t.empty() ? 'x' : t[0]) : how == 1 ? std::string(t.c_str()) : how == 2 ? m[r] : t;
                    bool ok = op([&] {
                        if (how == 0) D = D + add[0];
                        else if (how == 1) D = D + add.c_str();
                        else if (how == 2) D = D + static_cast<coil::String const&>(*s[r]);
                        else D = D + coil::StringView{t.data(), t.size()};
                    });
                    if (ok) { M += add; moved[d] = false; }
                    return;
                }
                if (v == "sset")
                {
                    if (M.empty()) return;
                    size_t i = (size_t)arg(1) % M.size();
                    char c = (char)arg(2);
                    op([&] { if (arg(3) % 2) D.back() = c; else D.data()[i] = c; });
                    if (arg(3) % 2) M.back() = c; else M[i] = c;
                    return;
                }
                if (v == "seq")
                {
                    if (moved[d] || moved[r]) return;
                    bool e1 = false, e2 = false, e3 = false, e4 = false, h = false;
                    std::string zr = m[r].c_str();
                    op([&] {
                        coil::String const& A = *s[d];
                        coil::String const& B = *s[r];
                        e1 = A == B;
                        e2 = A == coil::StringView{B};
                        e3 = A == zr.c_str();
                        e4 = coil::StringView{A} != coil::StringView{B};
                        h = coil::Hash<coil::String>{}(A) == coil::Hash<coil::StringView>{}(coil::StringView{A});
                        size_t n = A.length();
                        coil::StringView sub = coil::StringView{A}.substr(n / 3, n - n / 3);
                        h = h && sub.length() == n - n / 3 && (sub.empty() || sub[0] == A.data()[n / 3]);
                    });
                    if (e1 != (M == m[r]) || e2 != (M == m[r]) || e3 != (M == zr) || e4 != (M != m[r]) || !h) violation("string:compare", "comparison of strings %d and %d is wrong", d, r);
                    return;
                }
            }
        };

        template<class T> struct VecWorld : Part
        {
            using Vec = coil::Vector<T>;
            using Tr = VTraits<T>;
            Box<Vec> v[kSlots];
            std::vector<int> m[kSlots];
            void init() { for (int i = 0; i < kSlots; i++) { v[i].make([](void* p) { new (p) Vec(); }); m[i].clear(); } }
            void destroy() { for (auto& x : v) x.destroy(); }
            std::vector<int> read(int i)
            {
                std::vector<int> r;
                Vec const& V = *v[i];
                for (size_t k = 0; k < V.size(); k++) r.push_back(Tr::get(V.begin()[k]));
                return r;
            }
            void live(long* e) override { if (Tr::ek >= 0) e[Tr::ek] += liveExpected(); }
            long liveExpected() { long n = 0; for (auto& x : v) n += (long)x->size(); return n; }
            void check(int i)
            {
                Vec const& V = *v[i];
                size_t n;
                bool bad = false;
                {
                    CoilScope s;
                    n = V.size();
                    bad = n != m[i].size() || V.empty() != m[i].empty() || V.capacity() < n || V.end() - V.begin() != (ptrdiff_t)n || V.data() != V.begin() || v[i]->data() != V.data() || v[i]->begin() != V.begin() || v[i]->end() != V.end();
                    for (size_t k = 0; !bad && k < n; k++) bad = Tr::get(V[k]) != m[i][k] || &V[k] != V.begin() + k || &(*v[i])[k] != &V[k];
                    if (!bad && n) bad = &V.front() != &V[0] || &V.back() != &V[n - 1] || &v[i]->front() != &V[0] || &v[i]->back() != &V[n - 1];
                }
                if (bad)
                {
                    std::string g, e;
                    for (int x : read(i)) g += std::to_string(x) + " ";
                    for (int x : m[i]) e += std::to_string(x) + " ";
                    violation("vector:value", "vector %d is [%s], expected [%s], capacity %zu", i, g.substr(0, 200).c_str(), e.substr(0, 200).c_str(), V.capacity());
                }
            }
            void checkAll()
            {
                for (int i = 0; i < kSlots; i++)
                {
                    check(i);
                    for (int x : m[i]) logEvent((uint64_t)x);
                }
            }
            void run(std::string const& o)
            {
                int d = slot(0), r = slot(1);
                Vec& D = *v[d];
                std::vector<int>& M = m[d];
                if (o == "new") { size_t c = (size_t)arg(1); if (v[d].make([&](void* p) { new (p) Vec(c); })) m[d].clear(); return; }
                if (o == "mctor") { if (d == r) return; std::vector<int> t = m[r]; if (v[d].make([&](void* p) { new (p) Vec(coil::move(*v[r])); })) { m[d] = t; m[r] = read(r); } return; }
                if (o == "massign") { if (d == r) return; std::vector<int> t = m[r]; if (op([&] { D = coil::move(*v[r]); })) { M = t; m[r] = read(r); } return; }
                if constexpr (Tr::copy)
                {
                    if ((o == "copy" || o == "range" || o == "assign" || o == "eq") && (!usable<T>(m[r]) || (o == "eq" && !usable<T>(M)))) return;
                    if (o == "copy") { std::vector<int> t = m[r]; if (v[d].make([&, src = v[r].mem](void* p) { new (p) Vec(*(Vec const*)src); })) m[d] = t; return; }
                    if (o == "range")
                    {
                        size_t n = m[r].size(), a = n ? (size_t)arg(2) % (n + 1) : 0, b = a + (size_t)arg(3) % (n - a + 1);
                        std::vector<int> t(m[r].begin() + (long)a, m[r].begin() + (long)b);
                        T const* base = v[r]->begin();
                        if (v[d].make([&](void* p) { new (p) Vec(base + a, base + b); })) m[d] = t;
                        return;
                    }
                    if (o == "assign") { std::vector<int> t = m[r]; if (op([&] { D = static_cast<Vec const&>(*v[r]); })) M = t; return; }
                    if (o == "eq")
                    {
                        bool e = false;
                        if (!op([&] { e = static_cast<Vec const&>(D) == static_cast<Vec const&>(*v[r]); })) return;
                        if (e != (M == m[r])) violation("vector:compare", "comparison of vectors %d and %d is wrong", d, r);
                        return;
                    }
                    if (o == "pushown")
                    {
                        if (M.empty()) return;
                        size_t i = (size_t)arg(1) % M.size();
                        int x = M[i];
                        if (!usable<T>(x)) return;
                        count("self_alias");
                        if (op([&] { D.pushBack(D[i]); })) M.push_back(x);
                        return;
                    }
                    if (o == "pushlv")
                    {
                        if (op([&] { T x = Tr::make(arg(1)); D.pushBack(x); D.back() = x; })) M.push_back(arg(1));
                        else if (D.size() != M.size() && D.size() == M.size() + 1) M.push_back(arg(1)); // the assignment failed
                        return;
                    }
                }
                if (o == "bulk")
                {
                    // many elements at once
                    int const n = std::min(arg(1), 80000);
                    int done = 0;
                    op([&] { for (; done < n; done++) D.pushBack(Tr::make(done * 3 + 1)); });
                    for (int i = 0; i < done; i++) M.push_back(i * 3 + 1);
                    count("bulk_grow");
                    return;
                }
                if (M.size() > 400 && arg(1) % 3 == 0) { op([&] { D.resize(5); }); M.resize(5); return; }
                if (o == "push") { int x = arg(1); if (op([&] { D.pushBack(Tr::make(x)); })) M.push_back(x); return; }
                if (o == "pushmv")
                {
                    // an element of the vector itself, moved from
                    if (M.empty()) return;
                    size_t i = (size_t)arg(1) % M.size();
                    int x = M[i];
                    count("self_alias");
                    bool ok = op([&] { D.pushBack(coil::move(D[i])); });
                    if (ok) M.push_back(x);
                    // its old place may be in a moved-from state
                    std::vector<int> now = read(d);
                    if (now.size() == M.size() && (now[i] == kMoved || now[i] == x || ((std::is_same_v<T, coil::String> || std::is_same_v<T, StrVec>) && now[i] == 0))) M[i] = now[i];
                    return;
                }
                if (o == "pop") { if (M.empty()) return; op([&] { D.popBack(); }); M.pop_back(); return; }
                if (o == "clear") { if (!op([&] { D.clear(); })) violation("vector:clear", "clear() failed"); M.clear(); return; }
                if (o == "reserve")
                {
                    size_t n = (size_t)arg(1);
                    if (arg(2) == 1) { n = ((size_t)1 << 41) / sizeof(T); s_hugeRequest = true; }
                    if (op([&] { D.reserve(n); }) && D.capacity() < n) violation("vector:capacity", "capacity is %zu after reserve(%zu)", D.capacity(), n);
                    return;
                }
                if (o == "resize")
                {
                    size_t n = (size_t)arg(1), old = M.size();
                    if (arg(2) == 1) { n = ((size_t)1 << 41) / sizeof(T); s_hugeRequest = true; }
                    if (op([&] { D.resize(n); })) M.resize(n, 0);
                    else if (n > old)
                    {
                        size_t now = D.size();
                        if (now < old || now >= n) violation("vector:resize", "vector has %zu elements after growing from %zu to %zu failed", now, old, n);
                        M.resize(now, 0);
                    }
                    else violation("vector:resize", "shrinking failed");
                    return;
                }
                if (o == "set")
                {
                    if (M.empty()) return;
                    size_t i = (size_t)arg(1) % M.size();
                    if (op([&] { D[i] = Tr::make(arg(2)); })) M[i] = arg(2);
                    return;
                }
            }
        };

        Part* makeSequence(char letter)
        {
            switch (letter)
            {
            case 's': return new StringWorld;
            case 'i': return new VecWorld<int>;
            case 'e': return new VecWorld<Elem>;
            case 'm': return new VecWorld<MElem>;
            case 'c': return new VecWorld<CElem>;
            case 't': return new VecWorld<coil::String>;
            case 'n': return new VecWorld<StrVec>;
            default: return nullptr;
            }
        }
    }
}
