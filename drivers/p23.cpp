// P23: a document of which anything is missing at its end is never taken for a whole one.
#include "zoo.h"
using namespace vf; using namespace Srl;

static Buf written(Rng& r, const Doc& d, Fmt f, bool own)
{
    if(own) { Tree t; build_root(t, d, r); return encode(t, f); }
    if(is_json(f)) { auto s = json_write(r, d); while(!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return Buf(s.begin(), s.end()); }
    return f == Fmt::MsgPack ? mp_write(r, d) : psrl_write(d);
}
template<class F> static bool refused(F&& f) { try { f(); return false; } catch(Exception&) { return true; } }

// how the cut document arrives
static bool load_refused(Rng& r, Tree& t, const Buf& cut, Parser& p, int how)
{
    Exact e(cut);
    return refused([&]() {
        if(how == 0) t.load_source(e.p, e.n, p);
        else if(how == 1) { std::istringstream is(std::string((const char*)e.p, e.n)); t.load_source(is, p); }
        else { ChunkBuf cb(cut, r.chance(50) ? 1 : 0, r.u64()); std::istream is(&cb); t.load_source(is, p); }
    });
}

static void trees(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    GenOpt g; g.finite = true; g.binary = !is_json(f) || r.chance(50); g.depth = (int)r.range(0, 5); g.budget = (int)r.range(1, 30); g.max_str = r.chance(10) ? 5000 : 60;
    Doc d = gen_doc(r, g); bool own = r.chance(50);
    Buf b = written(r, d, f, own);
    std::set<size_t> cuts; size_t n = b.size();
    if(n <= 150) for(size_t i = 0; i < n; i++) cuts.insert(i);
    else { for(size_t i = 0; i < 20; i++) { cuts.insert(i); cuts.insert(n - 1 - i); } for(int i = 0; i < 60; i++) cuts.insert(r.below(n)); }
    with_parser(f, [&](Parser& p) {
        Tree t;
        for(auto c : cuts) {
            Buf cut(b.begin(), b.begin() + c); int how = (int)r.below(3);
            VCHECK(load_refused(r, t, cut, p, how), "truncation:load", std::string(name(f)) + ": the first " + std::to_string(c) + " of " + std::to_string(n) + " bytes were accepted, way " + std::to_string(how) + ": " + (is_json(f) ? show(b) : hex(b)));
            count("cuts refused");
        }
        // the whole one is not
        VCHECK(!load_refused(r, t, b, p, (int)r.below(3)), "truncation:whole", std::string(name(f)) + ": " + show(d));
    });
    distinct(hash_bytes(b.data(), n, (uint64_t)f));
}

struct Obj {
    int32_t n = 0; std::string s; std::vector<int16_t> v; std::map<std::string, zoo::Leaf> m; std::list<std::string> l; zoo::Leaf leaf; std::unique_ptr<zoo::Leaf> up; std::vector<uint8_t> bin; std::tuple<bool, std::string, double> t; zoo::Tree_ tree;
    std::vector<std::shared_ptr<zoo::Leaf>> sh; zoo::Anon anon;
    void srl_resolve(Context& c) { c("n", n)("s", s)("v", v)("m", m)("l", l)("leaf", leaf)("up", up)("bin", VecWrap<uint8_t>(bin))("t", t)("tree", tree)("sh", sh)("anon", anon); }
    bool same(const Obj& o, std::string& w) const
    {
        return zoo::eq(n, o.n, w) && zoo::eq(s, o.s, w) && zoo::eq(v, o.v, w) && zoo::eq(m, o.m, w) && zoo::eq(l, o.l, w) && zoo::eq(leaf, o.leaf, w) && zoo::eq(up, o.up, w) && bin == o.bin && zoo::eq(t, o.t, w) && zoo::eq(tree, o.tree, w) && zoo::eq(sh, o.sh, w) && zoo::eq(anon, o.anon, w);
    }
};

// objects: what is restored from the beginning of a document is refused, unless nothing but the end mark is missing
static void objects(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    zoo::ZOpt o; o.text = true; o.depth = 2; o.max = 5; o.big = false;
    Obj a; zoo::gen(r, a.n, o); zoo::gen(r, a.s, o); zoo::gen(r, a.v, o); zoo::gen(r, a.m, o); zoo::gen(r, a.l, o); zoo::gen(r, a.leaf, o); zoo::gen(r, a.t, o); zoo::gen(r, a.tree, o); zoo::gen(r, a.anon, o);
    if(r.chance(50)) { a.up.reset(new zoo::Leaf()); zoo::gen(r, *a.up, o); }
    a.bin.resize(r.below(30)); for(auto& x : a.bin) x = (uint8_t)r.u64();
    for(size_t k = r.below(4); k; k--) { if(!a.sh.empty() && r.chance(40)) a.sh.push_back(a.sh[0]); else { a.sh.emplace_back(new zoo::Leaf()); zoo::gen(r, *a.sh.back(), o); } }
    with_parser(f, [&](Parser& p) {
        Tree t; Buf b = t.store(a, p); size_t n = b.size();
        std::set<size_t> cuts; for(size_t i = 0; i < 8; i++) { cuts.insert(i); cuts.insert(n - 1 - i); } for(int i = 0; i < 30; i++) cuts.insert(r.below(n));
        for(auto c : cuts) {
            Buf cut(b.begin(), b.begin() + c); Exact e(cut); Obj x; int how = (int)r.below(3);
            bool no = refused([&]() {
                if(how == 0) t.restore(x, e.p, e.n, p);
                else if(how == 1) { ChunkBuf cb(cut, 0, r.u64()); std::istream is(&cb); t.restore(x, is, p); }
                else { t.load_source(e.p, e.n, p); t.root().paste(x); }
            });
            std::string w;
            if(!no) VCHECK(x.same(a, w), "truncation:restore", std::string(name(f)) + ": the first " + std::to_string(c) + " of " + std::to_string(n) + " bytes were accepted, way " + std::to_string(how) + ", as another object: " + w);
            VCHECK(no || how < 2, "truncation:load", std::string(name(f)) + ": the first " + std::to_string(c) + " of " + std::to_string(n) + " bytes were loaded");
            count(no ? "objects refused" : "objects complete");
        }
        Obj x; std::string w; t.restore(x, b.data(), n, p);
        VCHECK(x.same(a, w), "truncation:whole", std::string(name(f)) + ": " + w);
        distinct(hash_bytes(b.data(), n, 7));
    });
}

// values of every size, cut anywhere inside: nothing is filled up, in memory or from streams
static void blocks(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    size_t n = r.chance(50) ? r.size(70000) : (size_t)r.below(3000);
    std::string s; for(size_t i = 0; i < n; i++) s += (char)('a' + r.below(26));
    Doc d = r.chance(50) ? Doc::obj() : Doc::arr(); d.add(d.k == Doc::Obj ? "x" : "", r.chance(50) || is_json(f) ? Doc::str(s) : Doc::bin(s));
    if(r.chance(30)) d.kids[0].first = d.k == Doc::Obj ? s.substr(0, 60000) : "";
    Buf b = written(r, d, f, r.chance(50));
    with_parser(f, [&](Parser& p) {
        Tree t;
        for(int k = 0; k < 14; k++) {
            size_t c = k < 5 ? b.size() - 1 - std::min<size_t>(k, b.size() - 1) : r.below(b.size()); Buf cut(b.begin(), b.begin() + c); int how = (int)r.below(3);
            if(how == 2 && c > 8000) how = 1;
            VCHECK(load_refused(r, t, cut, p, how), "truncation:load", std::string(name(f)) + ": " + std::to_string(c) + " of " + std::to_string(b.size()) + " bytes were accepted, way " + std::to_string(how));
            count("cuts in blocks refused");
        }
        VCHECK(!load_refused(r, t, b, p, 0), "truncation:whole", name(f));
    });
    distinct(hash_bytes(b.data(), b.size(), 8));
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P23", { { "trees", 6000, 120000, trees }, { "objects", 3000, 50000, objects }, { "blocks", 2000, 30000, blocks } });
}
