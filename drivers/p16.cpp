// P16: a hash table is the map a sequential model says it is, whatever its hash function, size and load factor; every
// value is constructed and destroyed exactly once and stays where it is as long as it is in the table.
#include "common.h"
#include "Srl/Srl.h"
using namespace vf; using Srl::Lib::HTable;

// a value which knows whether it is alive, with a canary against use after destruction and double destruction
struct Tracked {
    static std::map<const void*, uint64_t> alive; static int64_t fuse;
    uint64_t v; std::unique_ptr<uint64_t> copy;
    static void tick() { if(fuse >= 0 && fuse-- == 0) { fuse = -1; throw std::runtime_error("constructor"); } }
    explicit Tracked(uint64_t x = 0) : v(x), copy(new uint64_t(x)) { tick(); born(); }
    Tracked(const Tracked& o) : v(o.v), copy(new uint64_t(o.v)) { tick(); VCHECK(o.good(), "table:lifetime", "a copy of a value that is not alive"); born(); }
    Tracked(Tracked&& o) noexcept : v(o.v), copy(std::move(o.copy)) { if(!alive.count(&o)) violation_nothrow("table:lifetime", "a value that is not alive was moved"); born(); }
    Tracked& operator=(Tracked&& o) { v = o.v; copy = std::move(o.copy); return *this; }
    ~Tracked() { if(!alive.erase(this)) violation_nothrow("table:lifetime", "a value was destroyed twice"); v = 0xDEAD; }
    void born() { if(!alive.insert({ this, v }).second) violation_nothrow("table:lifetime", "a value was constructed on top of a live one"); }
    bool good() const { return alive.count(this) && copy && *copy == v; }
};
std::map<const void*, uint64_t> Tracked::alive; int64_t Tracked::fuse = -1;

static int hash_mode = 0;
static uint64_t weird(uint64_t h)
{
    switch(hash_mode) {
        case 1 : return 0;                       // everything in one bucket
        case 2 : return h % 3;
        case 3 : return h << 32;                 // low half empty
        case 4 : return h & 0xFFFFFFFF00000000ull;
        case 5 : return ~0ull - h % 2;
        case 6 : return h << 32 | (h & 0xFFFFFFFF);     // both halves cancel each other out
        case 7 : return h % 64 * 64;
        default : return h;
    }
}
template<class K> struct Weird { uint64_t operator()(const K& k) const { return weird(Srl::Lib::HashSrl<K>()(k)); } };

struct KStr { typedef std::string K; static K key(Rng& r, uint64_t n) { auto i = r.below(n); return i == 0 ? "" : i % 5 == 0 ? std::string(i, 'a') : i % 7 == 0 ? std::string("k\0", 2) + std::to_string(i) : "key" + std::to_string(i); } };
struct KInt { typedef uint64_t K; static K key(Rng& r, uint64_t n) { auto i = r.below(n); return i % 11 == 0 ? i << 40 : i % 13 == 0 ? ~i : i; } };
struct KNeg { typedef int32_t K; static K key(Rng& r, uint64_t n) { return (int32_t)r.below(n) - (int32_t)(n / 2); } };

struct VTracked { typedef Tracked V; static V make(uint64_t x) { return Tracked(x); } static uint64_t get(const V& v) { if(!v.good()) violation("table:value", "the table holds a value which is not alive"); return v.v; } static const bool tracked = true; };
struct VString { typedef std::string V; static V make(uint64_t x) { return std::string(x % 50, 'v') + std::to_string(x); } static uint64_t get(const V& v) { return std::stoull(v.substr(v.find_last_of('v') == std::string::npos ? 0 : v.find_last_of('v') + 1)); } static const bool tracked = false; };
struct VInt { typedef uint64_t V; static V make(uint64_t x) { return x; } static uint64_t get(const V& v) { return v; } static const bool tracked = false; };
struct VUnique { typedef std::unique_ptr<uint64_t> V; static V make(uint64_t x) { return V(new uint64_t(x)); } static uint64_t get(const V& v) { return *v; } static const bool tracked = false; };
struct VSmall { typedef uint8_t V; static V make(uint64_t x) { return (uint8_t)x; } static uint64_t get(const V& v) { return v; } static const bool tracked = false; };

template<class KT, class VT, class H> struct Case {
    typedef typename KT::K K; typedef typename VT::V V; typedef HTable<K, V, H> T;
    std::map<K, uint64_t> m; std::map<K, V*> where; std::unique_ptr<T> t; std::string log;
    uint64_t mask = std::is_same<V, uint8_t>::value ? 0xFF : ~0ull;

    void check(Rng& r)
    {
        VCHECK(t->num_entries() == m.size(), "table:count", "num_entries is " + std::to_string(t->num_entries()) + ", there are " + std::to_string(m.size()) + ", after" + log);
        std::map<K, uint64_t> seen; size_t n = 0;
        t->foreach([&](const K& k, V& v) { seen[k] = VT::get(v); n++; auto f = where.find(k); VCHECK(f != where.end() && f->second == &v, "table:moved", "a value is not where it was inserted"); });
        VCHECK(n == m.size() && seen == m, "table:foreach", "foreach does not visit each entry exactly once: " + std::to_string(n) + " visits of " + std::to_string(m.size()) + ", after" + log);
        seen.clear(); n = 0;
        for(auto e : *t) { seen[e.first] = VT::get(e.second); n++; VCHECK(n <= m.size(), "table:iterator", "the iterator visits too much"); }
        { bool threw = false; try { auto e = *t->end(); seen[e.first] = 0; } catch(Srl::Exception&) { threw = true; } VCHECK(threw, "table:iterator", "an entry behind the last"); auto it = t->end(); ++it; VCHECK(!(it != t->end()), "table:iterator", "behind the last"); }
        VCHECK(n == m.size() && seen == m, "table:iterator", "the iterator does not visit each entry exactly once: " + std::to_string(n) + " visits of " + std::to_string(m.size()) + ", after" + log);
        for(auto& e : m) { auto* p = t->get(e.first); VCHECK(p && VT::get(*p) == e.second && p == where[e.first], "table:get", "an entry is not found or not the one inserted, after" + log); }
        if(m.size()) {
            size_t stop = r.below(m.size() + 1), at = 0;
            t->foreach_break([&](const K&, V&) { return at++ == stop; });
            VCHECK(at == std::min(stop + 1, m.size()), "table:break", "foreach_break went on for " + std::to_string(at) + " instead of " + std::to_string(std::min(stop + 1, m.size())));
        }
        count("tables compared"); count("entries compared", m.size());
    }

    void run(Rng& r, size_t steps, uint64_t nkeys)
    {
        size_t buckets = r.pick<size_t>({ 0, 1, 2, 3, 7, 16, 64, 64, 100, 1000 }); double lf = r.pick<double>({ 1.0, 1.0, 0.1, 0.0, 0.5, 2.0, 8.0, -1.0 });
        t.reset(new T(buckets, lf));
        log = " [" + std::to_string(buckets) + " buckets, load factor " + std::to_string(lf) + ", hash " + std::to_string(hash_mode) + "]";
        bool grow = r.chance(50);
        for(size_t i = 0; i < steps; i++) {
            int op = (int)r.below(grow ? 40 : 24);
            K k = KT::key(r, nkeys);
            uint64_t x = r.u64() & mask;
            bool had = m.count(k);
            if(i < 40) log += " " + std::to_string(op);
            switch(op) {
                case 0 : case 1 : case 2 : default : {
                    V v = VT::make(x);
                    auto p = t->insert(k, std::move(v));
                    VCHECK(p.first == had && p.second, "table:insert", "insert reports the wrong thing, after" + log);
                    if(!had) { m[k] = x; where[k] = p.second; }
                    else { VCHECK(VT::get(v) == x, "table:insert-consumed", "an insert which did nothing took its argument along"); count("inserts of what exists"); }
                    VCHECK(VT::get(*p.second) == m[k] && p.second == where[k], "table:insert", "insert returns another value, after" + log);
                    break;
                }
                case 3 : case 4 : {
                    auto p = t->upsert(k, VT::make(x));
                    VCHECK(p.first == had && p.second, "table:upsert", "upsert reports the wrong thing, after" + log);
                    m[k] = x; if(!had) where[k] = p.second;
                    VCHECK(VT::get(*p.second) == x && p.second == where[k], "table:upsert", "upsert returns another value, after" + log);
                    break;
                }
                case 5 : case 6 : case 7 : t->remove(k); m.erase(k); where.erase(k); break;
                case 8 : case 9 : {
                    std::optional<V> v = t->extract(k);
                    VCHECK(bool(v) == had && (!v || VT::get(*v) == m[k]), "table:extract", "extract, after" + log);
                    m.erase(k); where.erase(k); break;
                }
                case 10 : case 11 : { auto* p = t->get(k); VCHECK((p != nullptr) == had && (!p || VT::get(*p) == m[k]), "table:get", "get, after" + log); break; }
                case 12 : {
                    if(!r.chance(30)) break;
                    uint64_t mod = r.range(1, 5), eq = r.below(mod);
                    if(r.chance(5)) mod = 1, eq = 0;
                    size_t visits = 0;
                    t->remove_if([&](const K& key, V& v) { visits++; VCHECK(m.count(key) && m[key] == VT::get(v), "table:remove_if", "remove_if visits what is not there"); return m[key] % mod == eq; });
                    VCHECK(visits == m.size(), "table:remove_if", "remove_if looked at " + std::to_string(visits) + " of " + std::to_string(m.size()) + " entries");
                    for(auto e = m.begin(); e != m.end();) if(e->second % mod == eq) { where.erase(e->first); e = m.erase(e); count("removed by condition"); } else ++e;
                    break;
                }
                case 13 : {             // a predicate which throws: what it removed so far is gone, the rest stays
                    if(m.empty()) break;
                    size_t stop = r.below(m.size()); std::vector<K> gone;
                    struct Stop { };
                    bool threw = false;
                    try { t->remove_if([&](const K& key, V&) { if(gone.size() == stop) throw Stop(); gone.push_back(key); return true; }); } catch(Stop&) { threw = true; }
                    VCHECK(threw, "table:remove_if", "an exception of the predicate is lost");
                    for(auto& g : gone) { m.erase(g); where.erase(g); }
                    count("predicates which threw");
                    break;
                }
                case 14 : if(r.chance(10)) { t->clear(); m.clear(); where.clear(); count("cleared"); } break;
                case 15 : {
                    if(!r.chance(30)) break;
                    if(r.chance(50)) t.reset(new T(std::move(*t)));
                    else { std::unique_ptr<T> u(new T(r.below(20))); for(int n = (int)r.below(4); n > 0; n--) u->insert(KT::key(r, 9), VT::make(n)); *u = std::move(*t); VCHECK(t->num_entries() == 0 && !t->get(k), "table:moved-from", "a table which was moved from is not empty"); t->insert(k, VT::make(1)); std::swap(t, u); }
                    count("tables moved");
                    break;
                }
                case 16 : {             // the value of an entry changed in place
                    auto* p = t->get(k); if(p) { *p = VT::make(x); m[k] = x; } break;
                }
                case 17 : {             // from a value of the same table
                    if constexpr(std::is_copy_constructible<V>::value) {
                        K k2 = KT::key(r, nkeys); auto* p = t->get(k2);
                        if(!p) break;
                        uint64_t y = m[k2];
                        auto q = r.chance(50) ? t->upsert(k, *p) : had ? t->upsert(k, *p) : t->insert(k, *p);
                        m[k] = y; if(!had) where[k] = q.second;
                        VCHECK(VT::get(*q.second) == y, "table:alias", "a value inserted from the same table, after" + log);
                        count("values of the same table");
                    }
                    break;
                }
                case 18 : {             // a constructor which throws
                    if constexpr(VT::tracked) {
                        bool threw = false, up = r.chance(50);
                        Tracked::fuse = 0;
                        try { if(up) t->upsert(k, (uint64_t)x); else t->insert(k, (uint64_t)x); } catch(std::runtime_error&) { threw = true; }
                        Tracked::fuse = -1;
                        VCHECK(threw == (up || !had), "table:throw", "a constructor which throws");
                        count("constructors which threw", threw);
                    }
                    break;
                }
            }
            count("operations");
            if(r.chance(4) || i + 1 == steps) check(r);
        }
        distinct(hash_str(log, m.size()));
        if(r.chance(30)) { t->clear(); VCHECK(t->num_entries() == 0, "table:clear", "clear"); }
        t.reset();
    }
};

template<class C> static void play(Rng& r, uint64_t idx, const char* what)
{
    hash_mode = (int)(idx % 8);
    size_t before = Tracked::alive.size();
    {
        C c;
        uint64_t nkeys = r.pick<uint64_t>({ 3, 10, 40, 300, 5000 });
        c.run(r, r.pick<size_t>({ 30, 100, 300, 300, 1500 }), nkeys);
        if(idx < 8) sample(std::string(what) + c.log);
    }
    VCHECK(Tracked::alive.size() == before, "table:leak", std::string(what) + ": " + std::to_string(Tracked::alive.size() - before) + " values were never destroyed");
    count(std::string("histories ") + what);
}

template<class K> using W = Weird<K>;
static void histories(Rng& r, uint64_t idx)
{
    switch(idx / 8 % 8) {
        case 0 : play<Case<KStr, VTracked, W<std::string>>>(r, idx, "string -> object"); break;
        case 1 : play<Case<KInt, VTracked, W<uint64_t>>>(r, idx, "uint64 -> object"); break;
        case 2 : play<Case<KStr, VString, W<std::string>>>(r, idx, "string -> string"); break;
        case 3 : play<Case<KInt, VInt, W<uint64_t>>>(r, idx, "uint64 -> uint64"); break;
        case 4 : play<Case<KStr, VUnique, W<std::string>>>(r, idx, "string -> unique_ptr"); break;
        case 5 : play<Case<KNeg, VString, Srl::Lib::HashSrl<int32_t>>>(r, idx, "int32 -> string, own hash"); break;
        case 6 : play<Case<KStr, VSmall, Srl::Lib::HashSrl<std::string>>>(r, idx, "string -> uint8, own hash"); break;
        case 7 : play<Case<KInt, VTracked, Srl::Lib::HashSrl<uint64_t>>>(r, idx, "uint64 -> object, own hash"); break;
    }
}

// growing far, shrinking, growing again
static void big(Rng& r, uint64_t idx)
{
    hash_mode = (int)r.pick({ 0, 0, 6, 7 });
    size_t n = hash_mode == 0 ? 60000 : 3000;
    HTable<uint64_t, std::string, Weird<uint64_t>> t(r.below(100));
    uint64_t salt = r.u64();
    auto val = [&](uint64_t k) { return std::to_string(k ^ salt); };
    std::vector<std::string*> ptr(n);
    for(size_t i = 0; i < n; i++) ptr[i] = t.insert(i, val(i)).second;
    VCHECK(t.num_entries() == n, "table:count", "a big table");
    for(size_t i = 0; i < n; i++) { auto* p = t.get(i); VCHECK(p == ptr[i] && *p == val(i), "table:big", "entry " + std::to_string(i) + " of " + std::to_string(n)); }
    t.remove_if([](const uint64_t& k, std::string&) { return k % 3 != 0; });
    VCHECK(t.num_entries() == (n + 2) / 3, "table:count", "a big table after remove_if");
    for(size_t i = 0; i < n; i++) { auto* p = t.get(i); VCHECK((p != nullptr) == (i % 3 == 0) && (!p || (p == ptr[i] && *p == val(i))), "table:big", "entry after remove_if"); }
    for(size_t i = 0; i < n; i++) t.upsert(i, val(i + 1));
    for(size_t i = 0; i < n; i++) { auto* p = t.get(i); VCHECK(p && *p == val(i + 1) && (i % 3 || p == ptr[i]), "table:big", "entry after upsert"); }
    count("entries compared", 3 * n); distinct(hash_bytes(&salt, 8));
}

// values which can be neither moved nor copied: they are made in place, from several arguments
struct Pinned {
    Tracked t; const std::string text; const Pinned* self;
    Pinned(uint64_t x, const std::string& s) : t(x), text(s), self(this) { }
    Pinned(Pinned&&) = delete; Pinned& operator=(Pinned&&) = delete;
    bool good() const { return t.good() && self == this && text == std::to_string(t.v); }
};
static void pinned(Rng& r, uint64_t idx)
{
    hash_mode = (int)(idx % 8); size_t before = Tracked::alive.size();
    {
        HTable<std::string, Pinned, Weird<std::string>> t(r.below(20), r.pick<double>({ 1.0, 0.5, 4.0 }));
        std::map<std::string, std::pair<uint64_t, Pinned*>> m;
        uint64_t nkeys = r.pick<uint64_t>({ 3, 10, 100 }), ops = 0;
        for(size_t i = r.range(10, 300); i > 0; i--) {
            auto k = KStr::key(r, nkeys); uint64_t x = r.bits64(); auto had = m.count(k) != 0;
            switch(r.below(7)) {
                case 0 : case 1 : { auto p = t.insert(k, x, std::to_string(x)); VCHECK(p.first == had && p.second && (!had || p.second == m[k].second), "table:insert", "pinned values"); if(!had) m[k] = { x, p.second }; break; }
                case 2 : case 3 : { auto p = t.upsert(k, x, std::to_string(x)); VCHECK(p.first == had && p.second && (!had || p.second == m[k].second), "table:upsert", "pinned values"); m[k] = { x, p.second }; count("made in place"); break; }
                case 4 : t.remove(k); m.erase(k); break;
                case 5 : if(r.chance(20)) { uint64_t b = r.below(2); t.remove_if([&](const std::string&, Pinned& v) { return v.t.v % 2 == b; }); for(auto e = m.begin(); e != m.end();) if(e->second.first % 2 == b) e = m.erase(e); else ++e; } break;
                case 6 : if(r.chance(3)) { t.clear(); m.clear(); } break;
            }
            auto* p = t.get(k); VCHECK((p != nullptr) == (m.count(k) != 0) && (!p || (p->good() && p == m[k].second && p->t.v == m[k].first)), "table:get", "pinned values");
            VCHECK(t.num_entries() == m.size() && Tracked::alive.size() == before + m.size(), "table:lifetime", std::to_string(Tracked::alive.size() - before) + " values are alive, the table has " + std::to_string(m.size()));
            ops++;
        }
        size_t n = 0; t.foreach([&](const std::string& k, Pinned& v) { n++; VCHECK(m.count(k) && m[k].second == &v && v.good() && v.t.v == m[k].first, "table:foreach", "pinned values"); });
        VCHECK(n == m.size(), "table:foreach", "pinned values"); count("operations", ops); distinct(r.u64());
    }
    VCHECK(Tracked::alive.size() == before, "table:leak", "pinned values");
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P16", {
        { "histories", 6400, 300000, histories },
        { "big", 24, 400, big },
        { "pinned", 3000, 150000, pinned },
    });
}
