// P01: an object comes back equal through every format and every documented route.
#include "zoo.h"
using namespace vf; using namespace zoo; using namespace Srl;

static const char* routes[] = { "bytes", "stream", "load_object>to_source", "load_source>paste", "load_object>paste", "insert>field", "pack", "store twice", "other format", "chunked" };

template<class T> void check(const T& a, const T& b, const std::string& key, const std::string& ctx)
{
    std::string w;
    count("comparisons");
    if(!eq(a, b, w)) violation(key, ctx + ": " + w);
}

static void seen(const Buf& b, Fmt f) { count("bytes", b.size()); distinct(hash_bytes(b.data(), b.size(), (uint64_t)f)); }

template<class T> constexpr bool rooted = TpTools::is_scope(Lib::Switch<T>::type);

template<class T> void through(Rng& r, const T& obj, T& back, Fmt f, int route, const std::string& type)
{
    std::string ctx = type + " through " + name(f) + " by " + routes[route];
    std::string key = "object:" + std::string(routes[route]);
    count(std::string("route ") + routes[route]); count(std::string("format ") + name(f));
    switch(route) {
        case 0 : {
            Tree t;
            Buf b = with_parser(f, [&](auto& p) { return t.store(obj, p); });
            seen(b, f);
            Exact e(b);
            Tree u;
            Tree& x = r.chance(50) ? t : u;
            with_parser(f, [&](auto& p) { x.restore(back, e.p, e.n, p); return 0; });
            break;
        }
        case 1 : {
            std::stringstream s;
            Tree t;
            with_parser(f, [&](auto& p) { t.store(obj, static_cast<std::ostream&>(s), p); return 0; });
            VCHECK(s.good(), key + ":stream-state", ctx + ": the output stream failed");
            Tree u;
            with_parser(f, [&](auto& p) { u.restore(back, static_cast<std::istream&>(s), p); return 0; });
            break;
        }
        case 2 : {
            Tree t; t.load_object(obj);
            Buf b = encode(t, f);
            seen(b, f);
            Exact e(b);
            with_parser(f, [&](auto& p) { t.restore(back, e.p, e.n, p); return 0; });
            break;
        }
        case 3 : {
            Tree t, u;
            Buf b = with_parser(f, [&](auto& p) { return t.store(obj, p); });
            seen(b, f);
            decode(u, b, f);
            std::fill(b.begin(), b.end(), 0xA5);
            if constexpr(rooted<T>) { u.root().paste(back); } else u.root().paste_field("value", back);
            break;
        }
        case 4 : {
            Tree t; t.load_object(obj);
            if constexpr(rooted<T>) { t.root().paste(back); } else t.root().value(0).paste(back);
            break;
        }
        case 5 : {
            Tree t, u;
            t.root().insert("before", 1, "it", obj, "after", "x");
            Buf b = encode(t, f);
            seen(b, f);
            decode(u, b, f);
            u.root().paste_field("it", back);
            VCHECK(u.root().unwrap_field<int>("before") == 1 && u.root().unwrap_field<std::string>("after") == "x", key, ctx + ": neighbours changed");
            break;
        }
        case 6 : {
            Tree t; Buf b; int one = 0; std::string x;
            with_parser(f, [&](auto& p) { t.pack(b, p, "before", 1, "it", obj, "after", "x"); return 0; });
            seen(b, f);
            Exact e(b);
            Tree u;
            with_parser(f, [&](auto& p) { u.unpack(Lib::In::Source(e.p, e.n), p, "before", one, "it", back, "after", x); return 0; });
            VCHECK(one == 1 && x == "x", key, ctx + ": neighbours changed");
            break;
        }
        case 7 : {
            Tree t;
            Buf a = with_parser(f, [&](auto& p) { return t.store(obj, p); });
            Buf b = with_parser(f, [&](auto& p) { return t.store(obj, p); });
            seen(b, f);
            VCHECK(a == b, "store:not-deterministic", ctx + ": storing the same object twice gives different bytes");
            with_parser(f, [&](auto& p) { t.restore(back, b, p); return 0; });
            break;
        }
        case 8 : {
            Fmt g = f == Fmt::Json ? Fmt::JsonSpaced : f == Fmt::MsgPack ? Fmt::PSrl : Fmt::MsgPack;
            Tree t, u;
            Buf a = with_parser(f, [&](auto& p) { return t.store(obj, p); });
            seen(a, f);
            decode(t, a, f);
            Buf b = encode(t, g);
            with_parser(g, [&](auto& p) { u.restore(back, b, p); return 0; });
            break;
        }
        case 9 : {
            Tree t;
            Buf b = with_parser(f, [&](auto& p) { return t.store(obj, p); });
            seen(b, f);
            ChunkBuf cb(b, r.pick({ 0, 0, 1, 7, 1000 }), r.u64());
            std::istream is(&cb);
            with_parser(f, [&](auto& p) { t.restore(back, is, p); return 0; });
            count("refills", cb.refills);
            break;
        }
    }
    check(obj, back, key, ctx);
}

template<class T> void typed(Rng& r, const char* type, bool dirty = true)
{
    Fmt f = r.pick(all_formats);
    ZOpt o; o.text = is_json(f); o.depth = (int)r.range(1, 3);
    T obj {}; gen(r, obj, o);
    int route = (int)r.below(10);
    if(route == 8) o.text = true, gen(r, obj, o);
    T back {};
    if(dirty && r.chance(40)) { o.target = true; gen(r, back, o); }       // what was there before is replaced
    through(r, obj, back, f, route, type);
}

static void whole(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    int route = (int)(idx / 4 % 10);
    ZOpt o; o.text = is_json(f) || route == 8; o.depth = (int)r.range(1, 3); o.max = 20;
    Zoo z; gen(r, z, o);
    Zoo back;
    if(r.chance(40)) { ZOpt s = o; s.big = false; s.target = true; gen(r, back, s); }
    through(r, z, back, f, route, "Zoo");
    if(idx < 50) sample(std::string("Zoo with all fields, ") + name(f) + ", " + routes[route]);
}

static void types(Rng& r, uint64_t idx)
{
    static const std::vector<std::pair<const char*, void(*)(Rng&)>> all {
#define T1(...) { #__VA_ARGS__, [](Rng& q) { typed<__VA_ARGS__>(q, #__VA_ARGS__); } },
        T1(vector<int8_t>) T1(vector<uint64_t>) T1(vector<double>) T1(vector<float>) T1(std::list<string>) T1(std::deque<std::u16string>) T1(std::set<int64_t>)
        T1(std::map<string, string>) T1(std::map<int32_t, Leaf>) T1(std::unordered_map<int64_t, vector<string>>) T1(vector<vector<vector<uint8_t>>>)
        T1(vector<std::map<string, int32_t>>) T1(std::map<string, std::map<string, vector<int32_t>>>)
        T1(vector<tuple1>) T1(Leaf) T1(Anon) T1(Tree_) T1(Blob) T1(vector<Anon>) T1(std::list<Tree_>) T1(vector<Zoo>) T1(std::map<string, std::pair<int32_t, string>>)
        T1(std::list<std::tuple<Zoo, int32_t, vector<Leaf>, string>>) T1(vector<std::shared_ptr<Leaf>>) T1(vector<std::shared_ptr<string>>)
        T1(vector<std::tuple<int8_t, std::tuple<string, std::tuple<vector<uint16_t>, double>>>>)
        T1(Srl::Lib::HTable<string, int32_t>) T1(Srl::Lib::HTable<string, Leaf>) T1(Srl::Lib::HTable<string, std::unique_ptr<Anon>>)
#undef T1
    };
    auto& t = all[idx % all.size()];
    count(std::string("type ") + t.first);
    t.second(r);
    if(idx < all.size()) sample(t.first);
}

// values that are no scopes are stored under a root object
static void scalars(Rng& r, uint64_t idx)
{
    static const std::vector<void(*)(Rng&)> all {
#define T1(...) [](Rng& q) { typed<__VA_ARGS__>(q, #__VA_ARGS__); },
        T1(bool) T1(int8_t) T1(uint8_t) T1(int16_t) T1(uint16_t) T1(int32_t) T1(uint32_t) T1(int64_t) T1(uint64_t) T1(float) T1(double) T1(string) T1(std::u16string) T1(std::u32string)
        T1(char) T1(char16_t) T1(char32_t)
#undef T1
    };
    all[idx % all.size()](r);
}

// empty pointers to objects as elements
template<class C> static void null_elements_of(Rng& r, const char* type)
{
    typedef typename C::value_type P; typedef typename P::element_type E;
    Fmt f = r.pick(all_formats);
    ZOpt o; o.text = is_json(f); o.depth = 1; o.big = false;
    C c; std::vector<size_t> set;
    for(auto n = r.range(1, 6); n > 0; n--) {
        if(r.chance(50)) { c.emplace_back(); continue; }
        set.push_back(c.size());
        c.emplace_back(new E()); gen(r, *c.back(), o);
    }
    Tree t;
    Buf b = with_parser(f, [&](auto& p) { return t.store(c, p); });
    C back;
    with_parser(f, [&](auto& p) { t.restore(back, b, p); return 0; });
    count("containers with empty pointers");
    std::string w;
    if(eq(c, back, w)) return;
    C rest;
    for(auto i : set) rest.emplace_back(std::move(*std::next(c.begin(), i)));
    bool dropped = eq(rest, back, w);
    violation(dropped ? "null-object-in-container:dropped" : "null-object-in-container:other",
              std::string(type) + " through " + name(f) + (dropped ? ": empty pointers to objects are missing from the restored container" : ": " + w));
}
static void null_elements(Rng& r, uint64_t idx)
{
    switch(idx % 3) {
        case 0 : null_elements_of<vector<std::unique_ptr<Leaf>>>(r, "vector<unique_ptr<Leaf>>"); break;
        case 1 : null_elements_of<std::list<std::shared_ptr<Anon>>>(r, "list<shared_ptr<Anon>>"); break;
        case 2 : null_elements_of<vector<std::shared_ptr<string>>>(r, "vector<shared_ptr<string>>"); break;
    }
}

// empty pointers to objects where fields have no name but a position
template<template<class...> class P> struct Row {
    P<Leaf> a; int32_t n = 0; P<Leaf> b; string s; P<Leaf> c;
    void srl_resolve(Context& x) { x(a)(n)(b)(s)(c); }
};
template<template<class...> class P> static void null_positions_of(Rng& r, const char* type)
{
    Fmt f = r.pick(all_formats);
    ZOpt o; o.text = is_json(f); o.depth = 1; o.big = false;
    struct Both { std::tuple<P<Leaf>, int32_t, P<Leaf>> t; Row<P> row; void srl_resolve(Context& x) { x("t", t)("row", row); } } x, back;
    bool empty = false;
    auto set = [&](P<Leaf>& p) { if(r.chance(70)) { p.reset(new Leaf()); gen(r, *p, o); } else empty = true; };
    set(std::get<0>(x.t)); set(std::get<2>(x.t)); set(x.row.a); set(x.row.b); set(x.row.c); gen(r, std::get<1>(x.t), o); gen(r, x.row.n, o); gen(r, x.row.s, o);
    if(r.chance(50)) { std::get<0>(back.t).reset(new Leaf()); back.row.b.reset(new Leaf()); }
    Tree t; Buf b = with_parser(f, [&](auto& p) { return t.store(x, p); });
    bool stream = r.chance(50); string w;
    try { with_parser(f, [&](auto& p) { if(stream) t.restore(back, b, p); else { t.load_source(b.data(), b.size(), p); t.root().paste(back); } return 0; }); }
    catch(Srl::Exception& e) { violation(empty ? "null-object-by-position:refused" : "position:refused", std::string(type) + " through " + name(f) + (empty ? ": objects with empty pointers to objects as elements of tuples or as fields without names are refused" : string(": ") + e.what())); }
    VCHECK(eq(x.t, back.t, w) && eq(x.row.a, back.row.a, w) && eq(x.row.n, back.row.n, w) && eq(x.row.b, back.row.b, w) && eq(x.row.s, back.row.s, w) && eq(x.row.c, back.row.c, w), "position:content", std::string(type) + " through " + name(f) + ": " + w);
    count("pointers by position"); distinct(hash_bytes(b.data(), b.size()));
}
static void null_positions(Rng& r, uint64_t idx) { if(idx % 2) null_positions_of<std::shared_ptr>(r, "shared_ptr"); else null_positions_of<std::unique_ptr>(r, "unique_ptr"); }

int main(int argc, char** argv)
{
    return run(argc, argv, "P01", {
        { "whole", 2400, 150000, whole },
        { "types", 16000, 800000, types },
        { "scalars", 12000, 400000, scalars },
        { "null_elements", 48, 48, null_elements },
        { "null_positions", 600, 6000, null_positions },
    });
}
