// P29: cost stays in proportion. Documents of one shape in two sizes, sixteenfold apart, go through every operation; processor time and memory are
// measured and may grow in proportion, with room for caches and noise, but not with the square. Operations that are repeated keep no more memory.
#include "poly.h"
#include <time.h>
#include <deque>
using namespace vf; using namespace Srl;

static double now() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static const size_t factor = 16;

struct Cost { double time = 1e9; int64_t mem = 0; };
static Cost cost(int reps, const std::function<void()>& prepare, const std::function<void()>& op, const std::function<void()>& after)
{
    Cost c;
    for(int i = 0; i < reps; i++) {
        prepare();
        int64_t m0 = mem_now().bytes; mem_reset_peak(); double t0 = now();
        op();
        double t = now() - t0; if(t < c.time) c.time = t;
        c.mem = std::max(c.mem, (int64_t)mem_peak() - m0);
        after();
    }
    return c;
}
struct Op { std::function<void()> prepare, run, after; };
// make(n) gives the operation on a document of size n
static void grows(const std::string& what, size_t n, const std::function<Op(size_t)>& make)
{
    auto nothing = [] { }; if(thorough()) n *= 4;
    std::string said;
    for(int attempt = 0; attempt < 3; attempt++) {
        Cost small, big;
        { Op o = make(n); small = cost(4, o.prepare ? o.prepare : nothing, o.run, o.after ? o.after : nothing); }
        { Op o = make(n * factor); big = cost(1, o.prepare ? o.prepare : nothing, o.run, o.after ? o.after : nothing); }
        count("operations measured");
        if(big.mem > small.mem * (int64_t)factor * 3 + 400000)
            violation("cost:memory", what + ": " + std::to_string(small.mem) + " bytes for size " + std::to_string(n) + ", " + std::to_string(big.mem) + " bytes for " + std::to_string(n * factor));
        char s[200]; snprintf(s, sizeof s, ": %.4f s for size %zu, %.4f s for %zu", small.time, n, big.time, n * factor); said = what + s;
        if(const char* log = getenv("VF_COST")) if(FILE* o = fopen(log, "a")) { fprintf(o, "%s, %lld and %lld bytes\n", said.c_str(), (long long)small.mem, (long long)big.mem); fclose(o); }
        if(big.time <= small.time * (double)factor * 8 + 0.8) { distinct(hash_str(what)); sample(said); return; }
    }
    violation("cost:time", said);
}

// ---- documents without a class -----------------------------------------------------------------------------------
static const std::vector<std::string> shapes { "distinct names", "long names", "one name", "numbers", "texts", "empty scopes", "objects", "one text", "one escaped text", "wide texts", "binary", "one binary", "chains", "fractions", "nulls", "pairs" };
static void build(Node& n, const std::string& s, size_t k)
{
    Rng r(k);
    auto str = [](size_t i) { return std::to_string(i); };
    if(s == "distinct names") for(size_t i = 0; i < k; i++) n.insert("name" + str(i), i);
    else if(s == "long names") for(size_t i = 0; i < k / 4; i++) n.insert(std::string(90, 'n') + str(i), i);
    else if(s == "one name") for(size_t i = 0; i < k; i++) n.insert("name", i);
    else if(s == "numbers") for(size_t i = 0; i < k; i++) n.insert("", r.u64() >> r.below(64));
    else if(s == "texts") for(size_t i = 0; i < k; i++) n.insert("", "text " + str(i));
    else if(s == "empty scopes") for(size_t i = 0; i < k; i++) n.insert("", ScopeWrap([](Node&) { }, i % 2 ? Type::Array : Type::Object));
    else if(s == "objects") for(size_t i = 0; i < k / 4; i++) n.insert("", ScopeWrap([&](Node& o) { o.insert("id", i); o.insert("name", "n" + str(i)); o.insert("tags", ScopeWrap([&](Node& t) { t.insert("", 1); t.insert("", 2); }, Type::Array)); }));
    else if(s == "one text") n.insert("t", std::string(k * 12, 'x'));
    else if(s == "one escaped text") { std::string t; for(size_t i = 0; i < k * 2; i++) t += "\"\\\n\x01\xC3\xA4"; n.insert("t", t); }
    else if(s == "wide texts") { n.insert("t", std::u16string(k * 3, u'\u00e4')); n.insert("u", std::u32string(k * 2, U'\u20ac')); for(size_t i = 0; i < k / 4; i++) n.insert(std::u16string(u"n\u00e4me") + (char16_t)(0x100 + i % 5000), std::u32string(3, U'z')); }
    else if(s == "binary") { uint8_t b[20] = { 1, 2, 3 }; for(size_t i = 0; i < k / 2; i++) n.insert("", BitWrap(b, 1 + i % 20)); }
    else if(s == "one binary") { std::vector<uint8_t> b(k * 12, 0xA5); n.insert("b", VecWrap<uint8_t>(b)); }
    else if(s == "chains") for(size_t i = 0; i < k / 64; i++) { std::function<void(Node&, int)> in = [&](Node& o, int d) { if(d == 0) o.insert("end", i); else o.insert("in", ScopeWrap([&](Node& p) { in(p, d - 1); }, d % 2 ? Type::Array : Type::Object)); }; in(n, 60); }
    else if(s == "fractions") for(size_t i = 0; i < k / 4; i++) n.insert("", r.dbl(true));
    else if(s == "nulls") for(size_t i = 0; i < k; i++) n.insert("", nullptr);
    else for(size_t i = 0; i < k / 2; i++) n.insert("key", i, "value", ScopeWrap([&](Node& o) { o.insert("x" + str(i % 100), i); }));
}
static void documents(Rng& r, uint64_t idx)
{
    const std::string& s = shapes[idx % shapes.size()]; Fmt f = all_formats[idx / shapes.size() % 4]; size_t way = idx / shapes.size() / 4 % 6;
    static const char* ways[] = { "load", "load from a stream", "write", "write to a stream", "build", "look through" };
    std::string what = s + ", " + name(f) + ", " + ways[way]; size_t n = 5000;
    auto bytes = [&](size_t k) { Tree t; build(t.root(), s, k); return std::make_shared<Buf>(encode(t, f)); };
    grows(what, n, [&](size_t k) {
        auto t = std::make_shared<Tree>(); Op o;
        if(way < 2) {
            auto b = bytes(k); count("bytes", b->size());
            o.run = [=] { with_parser(f, [&](Parser& p) { if(way == 0) t->load_source(b->data(), b->size(), p); else { ChunkBuf cb(*b, 3000, 1); std::istream is(&cb); t->load_source(is, p); } }); t->clear(); };
        } else if(way < 4) {
            build(t->root(), s, k);
            o.run = [=] { with_parser(f, [&](Parser& p) { if(way == 2) { auto b = t->to_source(p); count("bytes", b.size()); } else { std::ostringstream os; t->to_source(os, p); } }); };
        } else if(way == 4) { o.run = [=] { t->clear(); build(t->root(), s, k); }; o.prepare = [=] { t->clear(); }; }
        else {
            build(t->root(), s, k);
            o.run = [=] {
                size_t v = 0, m = 0; Node& n = t->root();
                n.foreach_value([&](Value&) { v++; }, true); n.foreach_node([&](Node&) { m++; }, true);
                auto fv = n.find_values("name7", true); auto fn = n.find_nodes("in", true);
                Tree u; u.root().insert("copy", n); 
                for(size_t j = 0; j < 3 && n.num_values(); j++) n.remove_value(n.num_values() / 2);
                count("elements found", fv.size() + fn.size());
                count("elements seen", v + m);
            };
            o.prepare = [=] { t->clear(); build(t->root(), s, k); };
        }
        return o;
    });
}

// ---- texts as other programs write them ----------------------------------------------------------------------------
static void texts(Rng& r, uint64_t idx)
{
    static const std::vector<std::string> kinds { "white space", "digits", "fraction digits", "long numbers", "long exponents", "unicode escapes", "surrogates", "escaped names", "zeros", "numbers as text" };
    const std::string& s = kinds[idx % kinds.size()]; bool stream = idx / kinds.size() % 2;
    auto text = [&](size_t k) {
        std::string t = "["; auto rep = [&](const std::string& x, size_t n) { while(n--) t += x; };
        if(s == "white space") { rep(" \n\t\r", k * 4); rep("1", 1); rep(" ", k * 8); }
        else if(s == "digits") { t += "0."; rep("1234567890", k); }
        else if(s == "fraction digits") { rep("9", 300); t += "."; rep("7", k * 8); t += "e-5"; }
        else if(s == "long numbers") { for(size_t i = 0; i < k / 40; i++) { t += "0."; rep("37", 200); t += ","; } t += "0"; }
        else if(s == "long exponents") { t += "1e-"; rep("0", k * 10); t += "3"; }
        else if(s == "unicode escapes") { t += '"'; rep("\\u00e4\\u20AC\\n", k); t += '"'; }
        else if(s == "surrogates") { t += '"'; rep("\\uD83D\\uDE00", k); t += '"'; }
        else if(s == "escaped names") { t += "{"; for(size_t i = 0; i < k / 4; i++) t += "\"\\u006e" + std::to_string(i) + "\\n\":1,"; t += "\"z\":0}"; }
        else if(s == "zeros") { t += "0."; rep("0", k * 10); t += "1"; }
        else { for(size_t i = 0; i < k / 4; i++) t += "\"" + std::to_string(i) + ".5\","; t += "\"0\""; }
        return t + "]";
    };
    grows(s + ", JSON, " + (stream ? "from a stream" : "from memory"), 5000, [&](size_t k) {
        auto x = text(k); auto b = std::make_shared<Buf>(x.begin(), x.end()); count("bytes", b->size()); Op o;
        o.run = [=, &s] { Tree t; PJson p; if(!stream) t.load_source(b->data(), b->size(), p); else { ChunkBuf cb(*b, 1000, 1); std::istream is(&cb); t.load_source(is, p); }
            if(s == "numbers as text") { std::vector<double> d; t.root().paste(d); VCHECK(d.size() == k / 4 + 1, "cost:content", s); }
            VCHECK(t.root().num_values() + t.root().num_nodes() > 0, "cost:content", s); };
        return o;
    });
}

// ---- objects ---------------------------------------------------------------------------------------------------------
struct Rec { int32_t id = 0; std::string name; std::vector<int32_t> tags; double d = 0; void srl_resolve(Context& c) { c("id", id)("name", name)("tags", tags)("d", d); } };
struct Backwards { int32_t id = 0; std::string name; double d = 0; void srl_resolve(Context& c) { if(c.mode() == Mode::Insert) { int x = 3; std::vector<int> v { 1, 2 }; c("d", d)("unknown", x)("other", v)("name", name)("id", id); } else c("id", id)("name", name)("d", d); } };
struct Item { int32_t n = 0; void srl_resolve(Context& c) { c("n", n); } };
struct Positional { int32_t a = 1; std::string b = "b"; std::vector<int32_t> c { 1 }; void srl_resolve(Context& x) { x(a)(c)(b); } };
// everything is read later than it comes: the memory of what was kept back is used again
struct Parts { std::vector<Item> a, b; std::vector<std::vector<int32_t>> c; std::vector<std::string> d; int32_t x = 1, y = 2, z = 3, w = 4; void srl_resolve(Context& q) {
    if(q.mode() == Mode::Insert) q("a", a)("x", x)("b", b)("y", y)("c", c)("z", z)("d", d)("w", w); else q("x", x)("a", a)("y", y)("b", b)("z", z)("c", c)("w", w)("d", d); } };
template<class T> struct Held { T v; int32_t end = 0; void srl_resolve(Context& c) { c("v", v)("end", end); } };
template<class T> static void typed(const char* type, uint64_t idx, const std::function<void(T&, size_t)>& fill, const std::function<bool(T&, size_t)>& right)
{
    Fmt f = all_formats[idx % 4]; size_t way = idx / 4 % 6;
    static const char* ways[] = { "store", "restore", "restore from a stream", "store to a stream", "load_object", "restore from a tree" };
    typedef Held<T> H;
    grows(std::string(type) + ", " + name(f) + ", " + ways[way], 4000, [&](size_t k) {
        auto x = std::make_shared<H>(); fill(x->v, k); x->end = 9; Op o; auto y = std::make_shared<H>(); auto t = std::make_shared<Tree>();
        auto ok = [=] { VCHECK(y->end == 9 && right(y->v, k), "cost:content", std::string(type) + " of " + std::to_string(k)); *y = H(); count("objects restored"); };
        auto b = std::make_shared<Buf>(with_parser(f, [&](Parser& p) { Tree u; return u.store(*x, p); })); count("bytes", b->size());
        switch(way) {
            case 0 : o.run = [=] { with_parser(f, [&](Parser& p) { t->store(*x, p); }); }; break;
            case 1 : o.run = [=] { with_parser(f, [&](Parser& p) { t->restore(*y, b->data(), b->size(), p); }); }; o.after = ok; break;
            case 2 : o.run = [=] { with_parser(f, [&](Parser& p) { ChunkBuf cb(*b, 2000, 1); std::istream is(&cb); t->restore(*y, is, p); }); }; o.after = ok; break;
            case 3 : o.run = [=] { with_parser(f, [&](Parser& p) { std::ostringstream os; t->store(*x, os, p); }); }; break;
            case 4 : o.run = [=] { t->load_object(*x); t->clear(); }; break;
            default : t->load_object(*x); o.run = [=] { t->root().paste(*y); }; o.after = ok; break;
        }
        return o;
    });
}
static void objects(Rng& r, uint64_t idx)
{
    uint64_t i = idx / 19; using std::vector; using std::string; using std::shared_ptr; using std::unique_ptr;
#define FILL(T, ...) [](T& v, size_t k) { for(size_t i = 0; i < k; i++) { __VA_ARGS__; } }
#define SIZE(T) [](T& v, size_t k) { return v.size() == k; }
    switch(idx % 19) {
        case 0 : typed<vector<Rec>>("vector of objects", i, FILL(vector<Rec>, Rec x; x.id = (int)i; x.name = "n" + std::to_string(i); x.tags = { 1, 2 }; v.push_back(x)), [](vector<Rec>& v, size_t k) { return v.size() == k && v[k / 2].id == (int)(k / 2); }); break;
        case 1 : typed<vector<Backwards>>("objects with fields in another order", i, FILL(vector<Backwards>, Backwards x; x.id = (int)i; v.push_back(x)), [](vector<Backwards>& v, size_t k) { return v.size() == k && v[k - 1].id == (int)k - 1; }); break;
        case 2 : { typedef std::map<string, int32_t> M; typed<M>("map of names", i, FILL(M, v["key" + std::to_string(i)] = (int)i), SIZE(M)); break; }
        case 3 : { typedef std::unordered_map<int32_t, string> M; typed<M>("unordered map", i, FILL(M, v[(int)i * 7] = "v"), SIZE(M)); break; }
        case 4 : { typedef vector<shared_ptr<Item>> V; typed<V>("shared objects, all different", i, FILL(V, v.push_back(std::make_shared<Item>()); v.back()->n = (int)i), [](V& v, size_t k) { return v.size() == k && v[k - 1]->n == (int)k - 1; }); break; }
        case 5 : { typedef vector<shared_ptr<Item>> V; typed<V>("shared objects, few", i, FILL(V, if(i < 3) v.push_back(std::make_shared<Item>()); else v.push_back(v[i % 3])), [](V& v, size_t k) { return v.size() == k && v[3] == v[0]; }); break; }
        case 6 : { typedef vector<unique_ptr<poly::Shape>> V; typed<V>("objects of registered classes", i, FILL(V, v.emplace_back(i % 2 ? (poly::Shape*)new poly::Circle : new poly::Square); v.back()->serial = (int)i), SIZE(V)); break; }
        case 7 : { typedef Lib::HTable<string, int32_t> M; typed<M>("table", i, FILL(M, v.insert("key" + std::to_string(i), (int)i)), [](M& v, size_t k) { return v.num_entries() == k && *v.get("key7") == 7; }); break; }
        case 8 : typed<vector<string>>("vector of texts", i, FILL(vector<string>, v.push_back("text " + std::to_string(i))), SIZE(vector<string>)); break;
        case 9 : { typedef std::list<std::u16string> L; typed<L>("list of wide texts", i, FILL(L, v.push_back(u"t\u00e4xt")), SIZE(L)); break; }
        case 10 : { typedef std::deque<double> L; typed<L>("deque of numbers", i, FILL(L, v.push_back((double)i / 7)), SIZE(L)); break; }
        case 11 : { typedef std::set<int64_t> L; typed<L>("set", i, FILL(L, v.insert((int64_t)i * 1000003)), SIZE(L)); break; }
        case 12 : { typedef vector<vector<int32_t>> L; typed<L>("vectors in a vector", i, FILL(L, v.push_back({ (int)i, 2 })), SIZE(L)); break; }
        case 13 : { typedef std::multiset<int32_t> L; typed<L>("multiset", i, FILL(L, v.insert((int)i / 3)), SIZE(L)); break; }
        case 14 : { typedef vector<std::tuple<int32_t, string, Item>> L; typed<L>("tuples", i, FILL(L, v.emplace_back((int)i, "x", Item())), SIZE(L)); break; }
        case 15 : { typedef std::multimap<int32_t, Item> M; typed<M>("multimap", i, FILL(M, v.emplace((int)i / 4, Item())), SIZE(M)); break; }
        case 16 : { typedef vector<Positional> L; typed<L>("objects with fields by position", i, FILL(L, v.emplace_back()), SIZE(L)); break; }
        case 17 : typed<Parts>("parts in another order", i, FILL(Parts, Item x; x.n = (int)i; v.a.push_back(x); v.b.push_back(x); v.c.push_back({ 1 }); v.d.push_back("d" + std::to_string(i))), [](Parts& v, size_t k) { return v.a.size() == k && v.b.size() == k && v.c.size() == k && v.d.size() == k && v.b[k - 1].n == (int)k - 1; }); break;
        default : { typedef std::deque<bool> L; typed<L>("truth values", i, FILL(L, v.push_back(i % 3)), SIZE(L)); break; }
    }
}

// ---- tables and arenas -----------------------------------------------------------------------------------------------
static void tables(Rng& r, uint64_t idx)
{
    int kind = (int)(idx % 5);
    static const char* kinds[] = { "table of texts", "table of numbers", "table filled and emptied", "table walked", "arena" };
    grows(kinds[kind], 8000, [&](size_t k) {
        Op o;
        o.run = [=] {
            if(kind == 4) {
                Lib::Heap h; std::vector<std::pair<uint8_t*, size_t>> ps; Rng q(1);
                for(size_t i = 0; i < k; i++) { size_t n = 1 + q.below(100); ps.emplace_back(h.get_mem(n), n); }
                q.shuffle(ps); for(size_t i = 0; i < k; i++) h.put_mem(ps[i].first, ps[i].second);
                h.clear(); for(size_t i = 0; i < k; i++) h.get_mem(1 + q.below(300));
                return;
            }
            if(kind == 0) { Lib::HTable<std::string, size_t> t; for(size_t i = 0; i < k; i++) t.insert("key" + std::to_string(i), i); for(size_t i = 0; i < 2 * k; i++) VCHECK(!!t.get("key" + std::to_string(i)) == (i < k), "cost:content", "table"); return; }
            Lib::HTable<uint64_t, size_t> t; Rng q(2); std::vector<uint64_t> ks; for(size_t i = 0; i < k; i++) ks.push_back(kind == 1 && i % 2 ? i : q.u64());
            for(size_t i = 0; i < k; i++) t.insert(ks[i], i);
            for(size_t i = 0; i < k; i++) VCHECK(t.get(ks[i]), "cost:content", "table");
            if(kind == 2) for(int round = 0; round < 2; round++) { for(auto x : ks) t.remove(x); VCHECK(t.num_entries() == 0, "cost:content", "table"); for(auto x : ks) t.insert(x, 1); }
            if(kind == 3) { size_t n = 0; t.foreach([&](uint64_t, size_t&) { n++; }); VCHECK(n == t.num_entries(), "cost:content", "table"); t.clear(); for(auto x : ks) t.insert(x, 1); }
        };
        return o;
    });
}

// ---- what was removed makes room, and does not slow down what is added later ------------------------------------------
static void editing(Rng& r, uint64_t idx)
{
    static const char* kinds[] = { "values again", "scopes again", "values after both", "scopes after both", "scopes in scopes", "a window of values", "a window of scopes", "values by name", "scopes of values", "other sizes" };
    size_t kind = idx % 10; int shrink = (int)(idx / 10 % 3);
    grows(std::string("edit: ") + kinds[kind] + (shrink == 0 ? "" : shrink == 1 ? ", from the back" : ", mixed"), 2500, [&](size_t k) {
        auto t = std::make_shared<Tree>(); Op o;
        auto scope = [](Node&) { }; auto one = [](Node& n) { n.insert("v", 1, "w", 2); };
        auto add = [=](Node& n, bool values, size_t j) { if(values) n.insert("k" + std::to_string(j), j); else n.insert("", ScopeWrap(scope, j % 2 ? Type::Array : Type::Object)); };
        auto drop = [=](Node& n, bool values, size_t j) { size_t have = values ? n.num_values() : n.num_nodes(); (void)have; if(values) n.remove_value((size_t)0); else n.remove_node((size_t)0); (void)j; };
        o.prepare = [=] {
            t->clear(); Node& n = t->root();
            if(kind == 4 || kind == 8) { n.insert("", ScopeWrap([&](Node& x) { for(size_t j = 0; j < k; j++) x.insert("", ScopeWrap(one)); })); return; }
            for(size_t j = 0; j < k; j++) { if(shrink == 2) add(n, j % 2, j); else add(n, shrink == 0, j); }
            for(size_t j = 0; j < k; j++) { if(shrink == 2) add(n, !(j % 2), j); else add(n, shrink != 0, j); }
        };
        o.run = [=] {
            Node& n = t->root();
            auto all = [&](bool values) { for(size_t j = 0; j < k; j++) drop(n, values, j); };
            auto both = [&] { if(shrink == 2) for(size_t j = 0; j < k; j++) { drop(n, true, j); drop(n, false, j); } else { all(shrink == 0); all(shrink != 0); } };
            switch(kind) {
                case 0 : all(true); for(size_t j = 0; j < k; j++) add(n, true, j); VCHECK(n.num_values() == k, "cost:content", "values"); break;
                case 1 : all(false); for(size_t j = 0; j < k; j++) add(n, false, j); VCHECK(n.num_nodes() == k, "cost:content", "scopes"); break;
                case 2 : both(); for(size_t j = 0; j < k; j++) add(n, true, j); break;
                case 3 : both(); for(size_t j = 0; j < k; j++) add(n, false, j); VCHECK(n.num_values() == 0 && n.num_nodes() == k, "cost:content", "scopes"); break;
                case 4 : n.remove_node((size_t)0); for(size_t j = 0; j < k; j++) n.insert("", ScopeWrap(one)); break;
                case 5 : for(size_t j = 0; j < 2 * k; j++) { drop(n, true, j); add(n, true, j); } break;
                case 6 : for(size_t j = 0; j < 2 * k; j++) { drop(n, false, j); add(n, false, j); } break;
                case 7 : for(size_t j = 0; j < k; j++) { n.insert("new", j); n.remove_value((size_t)0); } break;
                case 8 : n.remove_node((size_t)0); for(size_t j = 0; j < k; j++) { n.insert("", j); n.insert("", ScopeWrap(one)); } break;
                default : both(); n.insert("", ScopeWrap([&](Node& x) { for(size_t j = 0; j < k; j++) { x.insert("", std::string(j % 200, 'z')); if(j % 3 == 0) x.insert("n" + std::string(j % 90, 'y') + std::to_string(j), ScopeWrap(scope)); } })); break;
            }
        };
        return o;
    });
}

// ---- repetition: what an operation leaves behind does not add up ----------------------------------------------------
struct Some { std::vector<Rec> recs; std::map<std::string, int32_t> m; std::shared_ptr<Item> a, b; std::unique_ptr<poly::Shape> s; std::u16string w; std::vector<uint8_t> bin; bool fail = false;
    void srl_resolve(Context& c) { c("recs", recs)("m", m)("a", a)("b", b); if(fail) throw std::runtime_error("user"); c("s", s)("w", w)("bin", VecWrap<uint8_t>(bin)); } };
static void repetition(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4]; int way = (int)(idx / 4 % 14);
    static const char* ways[] = { "store", "restore", "restore from a stream", "load", "load_object", "write", "store to a stream", "pack and unpack", "damaged load", "failing restore", "failing store", "load truncated", "pack", "edit" };
    std::string what = std::string(ways[way]) + ", " + name(f);
    zoo::ZOpt zo; Some x; for(int i = 0; i < 6; i++) { Rec q; q.id = i; q.name = gen_text(r, 40, true); q.tags.assign(r.below(9), 1); x.recs.push_back(q); x.m["k" + std::to_string(i)] = i; }
    x.a = x.b = std::make_shared<Item>(); x.s.reset(new poly::Circle); x.w = u"w\u00e4"; x.bin.assign(50 + r.below(3000), 7);
    std::unique_ptr<Parser> p(f == Fmt::Json ? (Parser*)new PJson(true) : f == Fmt::JsonSpaced ? (Parser*)new PJson(false) : f == Fmt::MsgPack ? (Parser*)new PMsgPack() : (Parser*)new PSrl());
    Tree t; Buf b = t.store(x, *p); if(way == 5 || way == 3) t.load_object(x);
    std::vector<size_t> cuts; for(int i = 0; i < 7; i++) cuts.push_back(r.below(b.size())); Some y; uint64_t n = 0;
    auto once = [&](size_t i) {
        switch(way) {
            case 0 : t.store(x, *p); break;
            case 1 : t.restore(y, b.data(), b.size(), *p); break;
            case 2 : { ChunkBuf cb(b, 100, 1); std::istream is(&cb); t.restore(y, is, *p); break; }
            case 3 : t.load_source(b.data(), b.size(), *p); break;
            case 4 : t.load_object(x); break;
            case 5 : t.to_source(*p); break;
            case 6 : { std::ostringstream os; t.store(x, os, *p); break; }
            case 7 : { std::vector<uint8_t> o; int one = 1; t.pack(o, *p, "one", one, "x", x); t.unpack(o, *p, "x", y); break; }
            case 8 : { Buf d = b; d[cuts[i % 7]] ^= 0x55; try { t.load_source(d.data(), d.size(), *p); } catch(Srl::Exception&) { n++; } break; }
            case 9 : { y.fail = true; try { t.restore(y, b.data(), b.size(), *p); violation("cost:repeat", "no exception"); } catch(std::runtime_error&) { n++; } break; }
            case 10 : { x.fail = true; try { t.store(x, *p); violation("cost:repeat", "no exception"); } catch(std::runtime_error&) { n++; } x.fail = false; break; }
            case 12 : { std::vector<uint8_t> o; t.pack(o, *p, "x", x, "y", x.m); break; }
            case 13 : {
                for(int j = 0; j < 30; j++) t.root().insert("n" + std::to_string(j), j, "s", std::string(j, 'x'), "w", std::u32string(j, U'\u20ac'), "o", ScopeWrap([](Node& o) { o.insert("a", 1, "b", "long enough a text"); o.insert("c", ScopeWrap([](Node&) { }, Type::Array)); }));
                for(int j = 0; j < 20; j++) { t.root().remove_value((size_t)j); t.root().remove_node((size_t)(j / 2)); t.root().insert("x", j, "y", "another text"); }
                t.clear(); break;
            }
            default : { try { t.load_source(b.data(), cuts[i % 7], *p); } catch(Srl::Exception&) { n++; } break; }
        }
    };
    const size_t rounds = 7 * (way >= 8 && way <= 11 ? 240 : 60);
    for(size_t i = 0; i < 70; i++) once(i);
    int64_t m1 = mem_now().bytes; for(size_t i = 0; i < rounds; i++) once(i);
    int64_t m2 = mem_now().bytes;
    if(const char* log = getenv("VF_COST")) if(FILE* o = fopen(log, "a")) { fprintf(o, "repeat %s: %lld\n", what.c_str(), (long long)(m2 - m1)); fclose(o); }
    VCHECK(m2 - m1 < 1100, "cost:repeat", what + ": " + std::to_string(m2 - m1) + " more bytes are held after " + std::to_string(rounds) + " more operations");
    count("repetitions", rounds); count("failures repeated", n); distinct(hash_str(what, b.size()));
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P29", {
        { "documents", 384, 384, documents }, { "texts", 20, 20, texts }, { "objects", 456, 456, objects }, { "tables", 5, 5, tables }, { "editing", 30, 30, editing }, { "repetition", 560, 11200, repetition },
    });
}
