// hostile input met by user types
#include "hostile.h"
#include "poly.h"
using namespace Srl; using namespace zoo;
namespace hostile {

struct Opt { int32_t must = 0; int32_t maybe = 5; std::vector<string> list; Leaf leaf; string name; void srl_resolve(Context& c) { c("must", must)("maybe", maybe, CtxFlags::Optional)("list", list, CtxFlags::Optional)("leaf", leaf, CtxFlags::Optional)("name", name); } };
struct Shared { std::vector<std::shared_ptr<Leaf>> a; std::map<string, std::shared_ptr<poly::Shape>> b; std::weak_ptr<Leaf> w; void srl_resolve(Context& c) { c("a", a)("b", b)("w", w); } };
struct Polys { std::vector<std::unique_ptr<poly::Shape>> v; std::unique_ptr<poly::Shape> one; poly::Shape* raw = nullptr; ~Polys() { delete raw; } void srl_resolve(Context& c) { c("v", v)("one", one)("raw", raw); } };
struct Small {
    char10 c {}; char16_10 c16 {}; char32_t c32[4] {}; int32_t fix[3] {}; uint8_t grid[2][2] {}; tuple1 t; pair1 p; Blob blob; Anon anon; Tree_ tree; std::set<string> set; std::map<int32_t, string> m;
    htab h; htabn hn; std::unique_ptr<Leaf> u; int64_t* raw = nullptr; char one = 'c'; char16_t one16 = u'x'; bool b = false; float f = 0; int8_t i8 = 0; std::u16string s16; std::u32string s32;
    ~Small() { delete raw; }
    void srl_resolve(Context& x)
    {
        x("c", c)("c16", c16)("c32", c32)("fix", fix)("grid", grid)("t", t)("p", p)("blob", blob)("anon", anon)("tree", tree)("set", set)("m", m)
         ("h", h)("hn", hn)("u", u)("raw", raw)("one", one)("one16", one16)("b", b)("f", f)("i8", i8)("s16", s16)("s32", s32);
    }
};
static void fill(Rng& r, Opt& o, const ZOpt& z) { o.must = (int)r.bits64(); o.maybe = 3; gen(r, o.list, z); gen(r, o.leaf, z); gen(r, o.name, z); }
static void fill(Rng& r, Shared& s, const ZOpt& z)
{
    for(auto n = r.below(5); n > 0; n--) { if(s.a.empty() || r.chance(50)) { s.a.emplace_back(new Leaf()); gen(r, *s.a.back(), z); } else s.a.push_back(r.pick(s.a)); }
    std::vector<std::shared_ptr<poly::Shape>> pool;
    for(auto n = r.below(4); n > 0; n--) { if(pool.empty() || r.chance(50)) pool.emplace_back(poly::make(r, z, 1)); s.b["k" + std::to_string(n)] = r.pick(pool); }
    if(!s.a.empty()) s.w = s.a[0]; else { s.a.emplace_back(new Leaf()); s.w = s.a[0]; }
}
static void fill(Rng& r, Polys& p, const ZOpt& z) { for(auto n = r.below(4); n > 0; n--) p.v.emplace_back(poly::make(r, z, 2)); p.one.reset(poly::make(r, z, 1)); p.raw = poly::make(r, z, 0); }
static void fill(Rng& r, Small& s, const ZOpt& z)
{
#define G(x) gen(r, s.x, z);
    G(c) G(c16) G(c32) G(fix) G(grid) G(t) G(p) G(blob) G(anon) G(tree) G(set) G(m) G(h) G(hn) G(u) G(raw) G(one) G(one16) G(b) G(f) G(i8) G(s16) G(s32)
}
template<class T> static void fill(Rng& r, T& t, const ZOpt& z) { gen(r, t, z); }

template<class T> static void typed(Rng& r, uint64_t idx, const char* type)
{
    Fmt f = all_formats[idx % 4];
    ZOpt z; z.text = true; z.depth = 2; z.max = 6; z.big = r.chance(5);
    Buf b;
    if(r.chance(85)) {
        T t {}; fill(r, t, z);
        Tree tree;
        b = with_parser(f, [&](Parser& p) { return tree.store(t, p); });
        if(r.chance(8)) { Fmt g = r.pick(all_formats); Tree u; decode(u, b, f); b = encode(u, f = g); }
        auto roll = r.below(10);
        if(roll < 8) b = mutate(r, std::move(b), f);
        else if(roll == 8) {
            // structural damage that leaves the format intact: values swapped for other kinds
            Tree u; decode(u, b, f);
            Doc d = walk(u.root());
            std::vector<Doc*> all; std::function<void(Doc&)> go = [&](Doc& x) { for(auto& k : x.kids) { all.push_back(&k.second); go(k.second); } };
            go(d);
            GenOpt o; o.finite = true; o.big = false; o.max_str = 50; o.depth = 2; o.budget = 5;
            for(auto n = r.range(1, 3); n > 0 && !all.empty(); n--) {
                auto* v = all[r.below(all.size())];
                Doc rep = r.chance(60) ? gen_scalar(r, o) : r.chance(50) ? gen_doc(r, o) : *all[r.below(all.size())];
                *v = rep; all.clear(); go(d);
            }
            if(r.chance(50)) { for(auto* k : all) if(k->k == Doc::Str && r.chance(10)) { k->s = r.chance(50) ? r.pick(poly::ids) : "nope"; k->enc = 8; } }
            Tree w; build_root(w, d, r); b = encode(w, f);
            count("structures damaged");
        }
    } else b = r.chance(50) ? attack(r, f) : garbage(r, f);
    int how = (int)r.below(3);
    auto live = poly::live;
    static const char* hows[] = { "restore", "restore from stream", "load_source then paste" };
    count(std::string("type ") + type);
    guarded(b, f, (string(type) + " " + hows[how]).c_str(), [&](Exact& e, Parser& p) {
        T t {};
        if(r.chance(30)) fill(r, t, z);
        Tree tree;
        if(how == 0) tree.restore(t, e.p, e.n, p);
        else if(how == 1) { ChunkBuf cb(b, r.pick({ 0, 1, 7, 1024 }), r.u64()); std::istream is(&cb); tree.restore(t, is, p); }
        else { tree.load_source(e.p, e.n, p); tree.root().paste(t); }
        count("objects restored from damaged data");
    });
    VCHECK(poly::live == live, "hostile:leak", string(type) + ": " + std::to_string(poly::live - live) + " objects are left over after " + hows[how] + " from " + name(f) + " " + hex(b, 100));
}

void typed_groups(std::vector<vf::Group>& gs)
{
    gs.push_back({ "typed", 30000, 3000000, [](Rng& r, uint64_t i) {
        switch(i / 4 % 12) {
            case 0 : case 1 : case 2 : typed<Small>(r, i, "Small"); break;
            case 3 : case 4 : typed<Polys>(r, i, "Polys"); break;
            case 5 : case 6 : typed<Shared>(r, i, "Shared"); break;
            case 7 : typed<Opt>(r, i, "Opt"); break;
            case 8 : typed<Tree_>(r, i, "Tree_"); break;
            case 9 : typed<std::vector<std::map<string, Leaf>>>(r, i, "vector<map<string,Leaf>>"); break;
            case 10 : typed<Blob>(r, i, "Blob"); break;
            case 11 : typed<std::vector<tuple1>>(r, i, "vector<tuple>"); break;
        }
    } });
}
}
