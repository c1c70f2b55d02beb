// A zoo of user types covering what the library says it can serialize, with random generation and exact comparison.
#pragma once
#include "doc.h"
#include <array>
#include <deque>

namespace zoo {
using namespace vf;
using std::string; using std::vector;

struct ZOpt {
    bool target = false;    // an object that is restored into
    bool text = false;      // a text format is involved: finite numbers, characters that are text
    int  depth = 2;
    size_t max = 40;        // container sizes
    bool big = true;
    bool shared = true;
};

// ---- declarations first, so that the templates see each other
template<class T> struct Z;
template<class T> void gen(Rng& r, T& v, const ZOpt& o) { Z<T>::gen(r, v, o); }
template<class T> bool eq(const T& a, const T& b, string& w) { return Z<T>::eq(a, b, w); }

inline size_t csize(Rng& r, const ZOpt& o)
{
    if(r.chance(15)) return 0;
    if(o.big && r.chance(3)) return r.pick({ 15, 16, 17, 31, 32, 127, 128, 129, 255, 256, 300, 1024, 1025 });
    return r.chance(70) ? r.below(5) : r.below(o.max + 1);
}
inline ZOpt inner(const ZOpt& o) { ZOpt i = o; i.depth--; i.max = o.max / 3; i.big = o.big && o.depth > 1; return i; }

template<class T> struct ZNum {
    static void gen(Rng& r, T& v, const ZOpt& o)
    {
        if constexpr(std::is_floating_point<T>::value) v = sizeof(T) == 4 ? (T)r.flt(o.text) : (T)r.dbl(o.text);
        else if constexpr(std::is_same<T, bool>::value) v = r.chance(50);
        else v = (T)r.bits64();
    }
    static bool eq(const T& a, const T& b, string& w)
    {
        bool ok;
        if constexpr(std::is_floating_point<T>::value)
            ok = std::isnan(a) || std::isnan(b) ? std::isnan(a) && std::isnan(b) : a == b && std::signbit(a) == std::signbit(b);
        else ok = a == b;
        if(!ok) { std::ostringstream s; s.precision(21); s << "number " << +a << " <> " << +b; w = s.str(); }
        return ok;
    }
};
#define ZN(T) template<> struct Z<T> : ZNum<T> { };
ZN(bool) ZN(int8_t) ZN(uint8_t) ZN(int16_t) ZN(uint16_t) ZN(int32_t) ZN(uint32_t) ZN(int64_t) ZN(uint64_t) ZN(float) ZN(double) ZN(long double)
#undef ZN

template<class C> std::basic_string<C> text_as(const string& s)
{
    if constexpr(sizeof(C) == 1) return s;
    else if constexpr(sizeof(C) == 2) { auto t = to16(s); return std::basic_string<C>((const C*)t.data(), t.size()); }
    else { auto t = to32(s); return std::basic_string<C>((const C*)t.data(), t.size()); }
}

template<class C> struct Z<std::basic_string<C>> {
    static void gen(Rng& r, std::basic_string<C>& v, const ZOpt& o) { v = text_as<C>(gen_text(r, o.big && r.chance(4) ? 70000 : 200)); }
    static bool eq(const std::basic_string<C>& a, const std::basic_string<C>& b, string& w)
    {
        if(a == b) return true;
        w = "string " + vf::show(string((const char*)a.data(), a.size() * sizeof(C)), 80) + " <> " + vf::show(string((const char*)b.data(), b.size() * sizeof(C)), 80);
        return false;
    }
};

template<class C> struct ZChar {
    static void gen(Rng& r, C& v, const ZOpt& o)
    {
        if(sizeof(C) == 1) { v = (C)(o.text ? r.below(128) : r.below(256)); return; }
        uint32_t c;
        do c = r.chance(50) ? r.below(128) : r.chance(70) ? r.below(0x10000) : r.below(0x110000); while((c >= 0xD800 && c < 0xE000) || (sizeof(C) == 2 && c > 0xFFFF));
        v = (C)c;
    }
    static bool eq(const C& a, const C& b, string& w) { if(a != b) w = "character " + std::to_string((uint32_t)a) + " <> " + std::to_string((uint32_t)b); return a == b; }
};
template<> struct Z<char> : ZChar<char> { }; template<> struct Z<char16_t> : ZChar<char16_t> { };
template<> struct Z<char32_t> : ZChar<char32_t> { }; template<> struct Z<wchar_t> : ZChar<wchar_t> { };

template<class C, size_t N> struct ZCharArray {
    static void gen(Rng& r, C (&v)[N], const ZOpt& o)
    {
        auto s = text_as<C>(gen_text(r, N - 1));
        size_t n = 0;
        for(; n < s.size() && n < N - 1 && s[n]; n++) v[n] = s[n];
        // what is behind the end of the text means nothing, an array to be filled may even have no end
        for(size_t i = n; i < N; i++) v[i] = i == n && !o.target ? 0 : r.chance(50) ? 0 : (C)('0' + r.below(10));
    }
    static bool eq(const C (&a)[N], const C (&b)[N], string& w)
    {
        size_t n = 0;
        while(n < N && a[n]) n++;
        if(n < N && std::memcmp(a, b, (n + 1) * sizeof(C)) == 0) return true;
        w = "character array " + vf::hex(a, sizeof a, 40) + " <> " + vf::hex(b, sizeof b, 40);
        return false;
    }
};
template<size_t N> struct Z<char[N]> : ZCharArray<char, N> { };
template<size_t N> struct Z<char16_t[N]> : ZCharArray<char16_t, N> { };
template<size_t N> struct Z<char32_t[N]> : ZCharArray<char32_t, N> { };

template<class T, size_t N> struct Z<T[N]> {
    static void gen(Rng& r, T (&v)[N], const ZOpt& o) { for(auto& e : v) zoo::gen(r, e, inner(o)); }
    static bool eq(const T (&a)[N], const T (&b)[N], string& w) { for(size_t i = 0; i < N; i++) if(!zoo::eq(a[i], b[i], w)) { w = "[" + std::to_string(i) + "]" + w; return false; } return true; }
};

template<class C> struct ZSeq {
    typedef typename C::value_type E;
    static void gen(Rng& r, C& v, const ZOpt& o)
    {
        v.clear();
        for(auto n = o.depth > 0 || std::is_scalar<E>::value ? csize(r, o) : r.below(2); n > 0; n--) { v.emplace_back(); zoo::gen(r, v.back(), inner(o)); }
    }
    static bool eq(const C& a, const C& b, string& w)
    {
        if(a.size() != b.size()) { w = "size " + std::to_string(a.size()) + " <> " + std::to_string(b.size()); return false; }
        auto y = b.begin(); size_t i = 0;
        for(auto& x : a) { if(!zoo::eq(x, *y, w)) { w = "[" + std::to_string(i) + "]" + w; return false; } ++y; i++; }
        return true;
    }
};
template<class T> struct Z<vector<T>> : ZSeq<vector<T>> { };
template<class T> struct Z<std::list<T>> : ZSeq<std::list<T>> { };
template<class T> struct Z<std::deque<T>> : ZSeq<std::deque<T>> { };

template<class C> struct ZSet {
    typedef typename C::value_type E;
    static void gen(Rng& r, C& v, const ZOpt& o)
    {
        v.clear();
        for(auto n = csize(r, o); n > 0; n--) { E e {}; zoo::gen(r, e, inner(o)); v.insert(std::move(e)); }
    }
    static bool eq(const C& a, const C& b, string& w) { if(a == b) return true; w = "set of " + std::to_string(a.size()) + " <> set of " + std::to_string(b.size()); return false; }
};
template<class T> struct Z<std::set<T>> : ZSet<std::set<T>> { };
template<class T> struct Z<std::multiset<T>> : ZSet<std::multiset<T>> { };

template<class C> struct ZMap {
    typedef typename C::key_type K; typedef typename C::mapped_type V;
    static void gen(Rng& r, C& v, const ZOpt& o)
    {
        v.clear();
        for(auto n = o.depth > 0 ? csize(r, o) : r.below(2); n > 0; n--) { K k {}; V e {}; zoo::gen(r, k, inner(o)); zoo::gen(r, e, inner(o)); v.emplace(std::move(k), std::move(e)); }
    }
    static bool eq(const C& a, const C& b, string& w)
    {
        if(a.size() != b.size()) { w = "map size " + std::to_string(a.size()) + " <> " + std::to_string(b.size()); return false; }
        if constexpr(std::is_same<C, std::multimap<K, V>>::value) {
            auto y = b.begin();
            for(auto& x : a) { if(x.first != y->first || !zoo::eq(x.second, y->second, w)) { w = "multimap " + w; return false; } ++y; }
            return true;
        }
        for(auto& x : a) {
            auto y = b.find(x.first);
            if(y == b.end()) { w = "key lost"; return false; }
            if(!zoo::eq(x.second, y->second, w)) { w = "map value " + w; return false; }
        }
        return true;
    }
};
template<class K, class V> struct Z<std::map<K, V>> : ZMap<std::map<K, V>> { };
template<class K, class V> struct Z<std::multimap<K, V>> : ZMap<std::multimap<K, V>> { };
template<class K, class V> struct Z<std::unordered_map<K, V>> : ZMap<std::unordered_map<K, V>> { };

template<class V> struct Z<Srl::Lib::HTable<string, V>> {
    typedef Srl::Lib::HTable<string, V> H;
    static void gen(Rng& r, H& h, const ZOpt& o)
    {
        h.clear();
        for(auto n = csize(r, o); n > 0; n--) { V v {}; zoo::gen(r, v, inner(o)); string k = r.chance(50) ? gen_name(r) : "k" + std::to_string(n); h.insert(k == "srl_shared_key" ? k + "s" : k, std::move(v)); }    // reserved: the keys given next to it differ
    }
    static bool eq(const H& a, const H& b, string& w)
    {
        if(a.num_entries() != b.num_entries()) { w = "hash table size " + std::to_string(a.num_entries()) + " <> " + std::to_string(b.num_entries()); return false; }
        bool ok = true;
        a.foreach([&](const string& k, V& v) { auto* x = const_cast<H&>(b).get(k); if(ok && (!x || !zoo::eq(v, *x, w))) { ok = false; w = "hash table [" + vf::show(k, 30) + "] " + w; } });
        return ok;
    }
};

template<class A, class B> struct Z<std::pair<A, B>> {
    static void gen(Rng& r, std::pair<A, B>& v, const ZOpt& o) { zoo::gen(r, v.first, inner(o)); zoo::gen(r, v.second, inner(o)); }
    static bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b, string& w) { return zoo::eq(a.first, b.first, w) && zoo::eq(a.second, b.second, w); }
};

template<class... T> struct Z<std::tuple<T...>> {
    typedef std::tuple<T...> P;
    template<size_t... I> static void g(Rng& r, P& v, const ZOpt& o, std::index_sequence<I...>) { (zoo::gen(r, std::get<I>(v), inner(o)), ...); }
    template<size_t... I> static bool e(const P& a, const P& b, string& w, std::index_sequence<I...>) { return (zoo::eq(std::get<I>(a), std::get<I>(b), w) && ...); }
    static void gen(Rng& r, P& v, const ZOpt& o) { g(r, v, o, std::index_sequence_for<T...>()); }
    static bool eq(const P& a, const P& b, string& w) { return e(a, b, w, std::index_sequence_for<T...>()); }
};

// empty pointers: to values anywhere, to objects only as named fields (a tree keeps values and nodes of an array apart)
template<class P> struct ZPtr {
    typedef typename P::element_type E;
    static void gen(Rng& r, P& v, const ZOpt& o)
    {
        bool may_be_empty = !Srl::TpTools::is_scope(Srl::Lib::Switch<P>::type);
        if(may_be_empty && r.chance(25)) { v = P(); return; }
        E* e = new E();
        v = P(e);
        zoo::gen(r, *e, inner(o));
    }
    static bool eq(const P& a, const P& b, string& w)
    {
        if(!a || !b) { if(!a && !b) return true; w = a ? "pointer became empty" : "empty pointer became set"; return false; }
        return zoo::eq(*a, *b, w);
    }
};
template<class T> struct Z<std::unique_ptr<T>> : ZPtr<std::unique_ptr<T>> { };
template<class T> struct Z<std::shared_ptr<T>> : ZPtr<std::shared_ptr<T>> { };

template<class T> struct Z<T*> {
    static void gen(Rng& r, T*& v, const ZOpt& o)
    {
        delete v; v = nullptr;
        if(r.chance(20)) return;
        v = new T(); zoo::gen(r, *v, inner(o));
    }
    static bool eq(T* const& a, T* const& b, string& w)
    {
        if(!a || !b) { if(!a && !b) return true; w = a ? "pointer became null" : "null became set"; return false; }
        return zoo::eq(*a, *b, w);
    }
};

template<class P> void gen_maybe(Rng& r, P& v, const ZOpt& o) { if(r.chance(25)) v = P(); else zoo::gen(r, v, o); }

// ---- structures

struct Blob {                                                            // raw data through all three wrappers
    vector<uint8_t> a; vector<int32_t> b; vector<double> c; Srl::Bytes d; vector<uint8_t> dcopy;
    vector<uint8_t> e;                                                   // BitWrap
    void srl_resolve(Srl::Context& ctx)
    {
        ctx("a", Srl::VecWrap<uint8_t>(a))("b", Srl::VecWrap<int32_t>(b))("c", Srl::VecWrap<double>(c))("d", d);
        Srl::BitWrap w(e.data(), e.size(), [this](size_t n) { e.resize(n); return e.data(); });
        ctx("e", w);
    }
};
template<> struct Z<Blob> {
    template<class T> static void fill(Rng& r, vector<T>& v, const ZOpt& o)
    {
        v.resize(r.size(o.big && r.chance(5) ? 70000 : 120) / sizeof(T) + (r.chance(30) ? 1 : 0));
        for(auto& x : v) { uint64_t u = r.u64(); memcpy(&x, &u, sizeof x); }
    }
    static void gen(Rng& r, Blob& b, const ZOpt& o)
    {
        fill(r, b.a, o); fill(r, b.b, o); fill(r, b.c, o); fill(r, b.dcopy, o); fill(r, b.e, o);
        auto t = b.dcopy; b.d = Srl::Bytes(std::move(t));
    }
    static bool eq(const Blob& x, const Blob& y, string& w)
    {
        auto same = [&](const void* p, size_t n, const void* q, size_t m, const char* what) {
            if(n == m && (n == 0 || memcmp(p, q, n) == 0)) return true;
            w = string("binary ") + what + " " + vf::hex(p, n, 30) + " <> " + vf::hex(q, m, 30); return false;
        };
        vector<uint8_t> d = std::move(const_cast<Blob&>(y).d).extract();
        const_cast<Blob&>(y).d = Srl::Bytes(vector<uint8_t>(d));
        return same(x.a.data(), x.a.size(), y.a.data(), y.a.size(), "a") && same(x.b.data(), x.b.size() * 4, y.b.data(), y.b.size() * 4, "b") &&
               same(x.c.data(), x.c.size() * 8, y.c.data(), y.c.size() * 8, "c") && same(x.dcopy.data(), x.dcopy.size(), d.data(), d.size(), "d") &&
               same(x.e.data(), x.e.size(), y.e.data(), y.e.size(), "e");
    }
};

struct Leaf {                                                            // srl_store / srl_restore
    int32_t n = 0; string s; double d = 0;
    void srl_store(Srl::StoreContext& c) const { c("n", n)("s", s)("d", d); }
    void srl_restore(Srl::RestoreContext& c) { c("n", n)("s", s)("d", d); }
};
template<> struct Z<Leaf> {
    static void gen(Rng& r, Leaf& l, const ZOpt& o) { zoo::gen(r, l.n, o); zoo::gen(r, l.s, o); zoo::gen(r, l.d, o); }
    static bool eq(const Leaf& a, const Leaf& b, string& w) { return zoo::eq(a.n, b.n, w) && zoo::eq(a.s, b.s, w) && zoo::eq(a.d, b.d, w); }
};

struct Anon {                                                            // fields without names
    int16_t a = 0; string b; vector<int> c; Leaf d; bool e = false; std::map<int, string> f;
    void srl_resolve(Srl::Context& c_) { c_(a)(b)(c)(d)(e)(f); }
};
template<> struct Z<Anon> {
    static void gen(Rng& r, Anon& l, const ZOpt& o) { zoo::gen(r, l.a, o); zoo::gen(r, l.b, o); zoo::gen(r, l.c, o); zoo::gen(r, l.d, o); zoo::gen(r, l.e, o); zoo::gen(r, l.f, o); }
    static bool eq(const Anon& a, const Anon& b, string& w)
    { return zoo::eq(a.a, b.a, w) && zoo::eq(a.b, b.b, w) && zoo::eq(a.c, b.c, w) && zoo::eq(a.d, b.d, w) && zoo::eq(a.e, b.e, w) && zoo::eq(a.f, b.f, w); }
};

struct Tree_ {                                                           // recursive
    int32_t v = 0; vector<std::unique_ptr<Tree_>> kids; std::unique_ptr<Tree_> next;
    void srl_resolve(Srl::Context& c) { c("v", v)("kids", kids)("next", next); }
};
template<> struct Z<Tree_> {
    static void gen(Rng& r, Tree_& t, const ZOpt& o)
    {
        zoo::gen(r, t.v, o);
        if(o.depth <= 0) return;
        for(auto n = r.below(4); n > 0; n--) { t.kids.emplace_back(new Tree_()); gen(r, *t.kids.back(), inner(o)); }
        if(r.chance(50)) { t.next.reset(new Tree_()); gen(r, *t.next, inner(o)); }
    }
    static bool eq(const Tree_& a, const Tree_& b, string& w) { return zoo::eq(a.v, b.v, w) && zoo::eq(a.kids, b.kids, w) && zoo::eq(a.next, b.next, w); }
};

#define ZOO_SCALARS(F) F(bool, b) F(int8_t, i8) F(uint8_t, u8) F(int16_t, i16) F(uint16_t, u16) F(int32_t, i32) F(uint32_t, u32) F(int64_t, i64) \
    F(uint64_t, u64) F(float, f32) F(double, f64) F(long double, f80) F(char, c8) F(char16_t, c16) F(char32_t, c32) F(wchar_t, cw)
#define ZOO_TEXT(F) F(string, s8) F(std::u16string, s16) F(std::u32string, s32) F(std::wstring, sw) F(char10, a8) F(char16_10, a16) F(char32_10, a32)
#define ZOO_CONT(F) F(vector<int32_t>, vi) F(vector<string>, vs) F(std::list<double>, ld) F(std::deque<uint16_t>, dq) F(std::set<string>, ss) \
    F(std::multiset<int8_t>, ms) F(vecvec, vv) F(mapii, mii) F(mapsv, msv) F(umap, um) F(mmap, mm) F(ints5, ai) F(ints23, ai2) \
    F(leaf3, al) F(vector<Leaf>, vl) F(std::list<Anon>, la) F(vecuptr, vp) F(vecuint, vpi) F(pair1, p1) F(tuple1, t1) F(vecbytes, vb) F(htab, ht) F(htabn, htn) F(vector<char16_t>, vc16)
#define ZOO_MISC(F) F(Blob, blob) F(Leaf, leaf) F(Anon, anon) F(Tree_, tree)
typedef char char10[10]; typedef char16_t char16_10[10]; typedef char32_t char32_10[10];
typedef vector<vector<vector<int64_t>>> vecvec; typedef std::map<int32_t, int64_t> mapii; typedef std::map<string, vector<string>> mapsv;
typedef std::unordered_map<string, Leaf> umap; typedef std::multimap<int16_t, string> mmap; typedef int32_t ints5[5]; typedef uint8_t ints23[2][3]; typedef Leaf leaf3[3];
typedef vector<std::unique_ptr<Leaf>> vecuptr; typedef vector<std::unique_ptr<int32_t>> vecuint; typedef std::pair<string, vector<int8_t>> pair1;
typedef std::tuple<bool, string, vector<int16_t>, Leaf, double, std::map<string, int32_t>> tuple1; typedef vector<uint8_t> vecbytes;
typedef Srl::Lib::HTable<string, int64_t> htab; typedef Srl::Lib::HTable<string, vector<string>> htabn;

struct Zoo {
#define F(T, n) T n {};
    ZOO_SCALARS(F) ZOO_TEXT(F) ZOO_CONT(F) ZOO_MISC(F)
#undef F
    std::unique_ptr<int32_t> up; std::unique_ptr<Leaf> ul; std::unique_ptr<vector<string>> uv; std::shared_ptr<double> sd; std::shared_ptr<Leaf> sl; int64_t* raw = nullptr; Leaf* rl = nullptr;
    Zoo() { }
    ~Zoo() { delete raw; delete rl; }
    Zoo(const Zoo&) = delete;
    Zoo(Zoo&& z) { *this = std::move(z); }
    Zoo& operator=(Zoo&& z)
    {
#define F(T, n) mv(n, z.n);
        ZOO_SCALARS(F) ZOO_TEXT(F) ZOO_CONT(F) ZOO_MISC(F)
#undef F
        up = std::move(z.up); ul = std::move(z.ul); uv = std::move(z.uv); sd = std::move(z.sd); sl = std::move(z.sl); std::swap(raw, z.raw); std::swap(rl, z.rl);
        return *this;
    }
    template<class T> static void mv(T& a, T& b) { a = std::move(b); }
    template<class T, size_t N> static void mv(T (&a)[N], T (&b)[N]) { for(size_t i = 0; i < N; i++) mv(a[i], b[i]); }

    void srl_resolve(Srl::Context& ctx)
    {
#define F(T, n) ctx(#n, n);
        ZOO_SCALARS(F) ZOO_TEXT(F) ZOO_CONT(F) ZOO_MISC(F)
#undef F
        ctx("up", up)("ul", ul)("uv", uv)("sd", sd)("sl", sl)("raw", raw)("rl", rl);
    }
};
template<> struct Z<Zoo> {
    static void gen(Rng& r, Zoo& z, const ZOpt& o)
    {
#define F(T, n) zoo::gen(r, z.n, o);
        ZOO_SCALARS(F) ZOO_TEXT(F) ZOO_CONT(F) ZOO_MISC(F)
#undef F
        gen_maybe(r, z.up, o); gen_maybe(r, z.ul, o); gen_maybe(r, z.uv, o); gen_maybe(r, z.sd, o); gen_maybe(r, z.sl, o); zoo::gen(r, z.raw, o); zoo::gen(r, z.rl, o);
    }
    static bool eq(const Zoo& a, const Zoo& b, string& w)
    {
#define F(T, n) if(!zoo::eq(a.n, b.n, w)) { w = string("." #n) + w; return false; }
        ZOO_SCALARS(F) ZOO_TEXT(F) ZOO_CONT(F) ZOO_MISC(F) F(_, up) F(_, ul) F(_, uv) F(_, sd) F(_, sl) F(_, raw) F(_, rl)
#undef F
        return true;
    }
};

} // namespace zoo
