// P20: fields are found by their names: their order in the document, fields nobody asked for and absent optional fields
// make no difference, read from bytes, from streams or from trees.
#include "zoo.h"
using namespace vf; using namespace Srl;

struct Mini { int32_t n = 0; std::string s; void srl_resolve(Context& c) { c("n", n)("s", s); } };
struct Pos { int32_t a = 0; std::vector<int32_t> b; std::string c; Mini d; double e = 0; void srl_resolve(Context& x) { x(a)(b)(c)(d)(e); } };
struct Sub {
    int32_t n = 0; std::string s; double d = 0; std::vector<int16_t> v; std::unique_ptr<Sub> next; std::vector<Sub> kids; std::list<Mini> minis;
    std::map<int32_t, std::string> m; std::map<std::string, Mini> mm; std::pair<std::string, Mini> p; std::tuple<int32_t, Mini, std::string> t; std::vector<int32_t> bin; std::u16string w; char txt[12] {}; std::shared_ptr<Mini> sh;
    Pos pos;
    int32_t h1 = 0; std::string h2; Mini h3; std::vector<int32_t> h4; std::string h5;      // names of equal hash
    int32_t o1 = 7; std::string o2 = "default"; Mini o3; std::vector<int32_t> o4 { 1, 2, 3 }; std::unique_ptr<Mini> o5; std::shared_ptr<Mini> o6; std::unique_ptr<int32_t> o7;
    void srl_resolve(Context& c)
    {
        c("n", n)("kids", kids)("s", s)("next", next)("d", d)("v", v)("minis", minis)("m", m)("p", p)("mm", mm)("t", t)("o1", o1, CtxFlags::Optional)("sh", sh)
         ("o3", o3, CtxFlags::Optional)("o2", o2, CtxFlags::Optional)("bin", VecWrap<int32_t>(bin))("w", w)("pos", pos)("txt", txt)("7mohtcOFVz", h1)("6a5x-VbtXk", h3)("c1E51sSEyx", h2)("f_2k7GG-4v", h4)("8yn0iYCKYHlIj4-BwPqk", h5)("o4", o4, CtxFlags::Optional)("o5", o5, CtxFlags::Optional)("o6", o6, CtxFlags::Optional)("o7", o7, CtxFlags::Optional);
    }
};
static const std::set<std::string> optional { "o1", "o2", "o3", "o4", "o5", "o6", "o7" };

namespace zoo {
template<> struct Z<Mini> {
    static void gen(Rng& r, Mini& x, const ZOpt& o) { zoo::gen(r, x.n, o); zoo::gen(r, x.s, o); }
    static bool eq(const Mini& a, const Mini& b, string& w) { return zoo::eq(a.n, b.n, w) && zoo::eq(a.s, b.s, w); }
};
template<> struct Z<Pos> {
    static void gen(Rng& r, Pos& x, const ZOpt& o) { zoo::gen(r, x.a, o); zoo::gen(r, x.b, o); zoo::gen(r, x.c, o); zoo::gen(r, x.d, o); zoo::gen(r, x.e, o); }
    static bool eq(const Pos& a, const Pos& b, string& w) { return zoo::eq(a.a, b.a, w) && zoo::eq(a.b, b.b, w) && zoo::eq(a.c, b.c, w) && zoo::eq(a.d, b.d, w) && zoo::eq(a.e, b.e, w); }
};
#define SUBF(F) F(n) F(s) F(d) F(v) F(minis) F(m) F(mm) F(p) F(t) F(bin) F(w) F(txt) F(sh) F(pos) F(h1) F(h2) F(h3) F(h4) F(h5) F(o1) F(o2) F(o3) F(o4)
template<> struct Z<Sub> {
    static void gen(Rng& r, Sub& x, const ZOpt& o)
    {
#define G(f) zoo::gen(r, x.f, inner(o));
        SUBF(G)
        if(!x.sh) x.sh.reset(new Mini());
        if(r.chance(50)) { x.o5.reset(new Mini()); zoo::gen(r, *x.o5, o); }
        if(r.chance(50)) { x.o6.reset(new Mini()); zoo::gen(r, *x.o6, o); }
        if(r.chance(50)) x.o7.reset(new int32_t(r.bits64()));
        if(o.depth <= 0) return;
        for(auto n = r.below(4); n; n--) { x.kids.emplace_back(); gen(r, x.kids.back(), inner(o)); }
        if(r.chance(50)) { x.next.reset(new Sub()); gen(r, *x.next, inner(o)); }
    }
    static bool eq(const Sub& a, const Sub& b, string& w)
    {
#define E(f) if(!zoo::eq(a.f, b.f, w)) { w = "." #f " " + w; return false; }
        SUBF(E) E(o5) E(o6) E(o7) E(kids) E(next)
        return true;
    }
};
}

struct Ctx { Rng& r; GenOpt g; bool unknown, order, absent; int budget; };

// what the removal of an optional field leaves in the object
static void drop(Sub& x, const std::string& f, const Sub& had)
{
    count("optional fields absent");
    if(f == "o1") x.o1 = had.o1; if(f == "o2") x.o2 = had.o2; if(f == "o3") { x.o3.n = had.o3.n; x.o3.s = had.o3.s; } if(f == "o4") x.o4 = had.o4; if(f == "o5") { if(had.o5) { x.o5.reset(new Mini()); x.o5->n = had.o5->n; x.o5->s = had.o5->s; } else x.o5.reset(); }
    if(f == "o6") x.o6 = had.o6;
    if(f == "o7") { if(had.o7) x.o7.reset(new int32_t(*had.o7)); else x.o7.reset(); }
}
static void scramble_any(Ctx& c, Doc& d);
static void add_unknown(Ctx& c, Doc& d, bool last_only)
{
    while(c.budget > 0 && c.r.chance(d.kids.size() > 10 ? 60 : 25)) {
        c.budget--;
        Doc x = c.r.chance(40) ? gen_scalar(c.r, c.g) : gen_doc(c.r, c.g);
        // decoys: what is asked for, further inside
        if(x.k == Doc::Obj && c.r.chance(60)) { Doc in = gen_scalar(c.r, c.g); x.kids.emplace(x.kids.begin() + c.r.below(x.kids.size() + 1), c.r.pick<std::string>({ "n", "s", "next", "kids", "key", "value", "d", "o1", "v", "7mohtcOFVz", "f_2k7GG-4v" }), in); }
        std::string nm = c.r.chance(50) ? "?" + gen_name(c.r) : c.r.pick<std::string>({ "N", "n ", "nn", "next_", "Kids", "o", "o11", "kid", "kidss", "_", "GReLUrM4wMqfg9yzV3KQ", "GReLUrM4wMqfg9yzV3KQ" });
        auto at = last_only ? d.kids.size() : c.r.below(d.kids.size() + 1);
        d.kids.emplace(d.kids.begin() + at, nm, x);
        count("unknown fields");
    }
}
static void finish(Ctx& c, Doc& d)
{
    if(d.k != Doc::Obj) return;
    if(c.order) { c.r.shuffle(d.kids); count("scopes in another order"); }
    if(c.unknown) add_unknown(c, d, false);
}
static void positional(Ctx& c, Doc& d)
{
    for(auto& k : d.kids) scramble_any(c, k.second);
    if(c.order) {      // values and scopes are counted apart
        std::vector<std::pair<std::string, Doc>> v, n, out;
        for(auto& k : d.kids) (k.second.scope() ? n : v).push_back(k);
        size_t i = 0, j = 0;
        while(i < v.size() || j < n.size()) out.push_back(j >= n.size() || (i < v.size() && c.r.chance(50)) ? v[i++] : n[j++]);
        d.kids = out;
    }
    if(c.unknown) add_unknown(c, d, true);
}
static void scramble_any(Ctx& c, Doc& d)         // anything but a Sub: all objects have named fields only
{
    for(auto& k : d.kids) if(k.second.scope()) scramble_any(c, k.second);
    finish(c, d);
}
static void scramble(Ctx& c, Doc& d, Sub& x, const Sub& had)
{
    Sub fresh;
    for(size_t i = 0; i < d.kids.size(); i++) {
        auto& nm = d.kids[i].first; auto& k = d.kids[i].second;
        if(nm == "kids") { for(size_t j = 0; j < k.kids.size(); j++) scramble(c, k.kids[j].second, x.kids[j], fresh); }
        else if(nm == "next") { if(k.scope()) scramble(c, k, *x.next, fresh); }
        else if(nm == "pos") positional(c, k);
        else if(optional.count(nm) && c.absent && c.r.chance(50)) { drop(x, nm, had); d.kids.erase(d.kids.begin() + i); i--; continue; }
        else if(k.scope()) scramble_any(c, k);
    }
    if(c.order) { c.r.shuffle(d.kids); count("scopes in another order"); }
    if(c.unknown) add_unknown(c, d, false);
}

static int depth(const Doc& d) { int n = 0; for(auto& k : d.kids) n = std::max(n, 1 + depth(k.second)); return n; }

static const char* routes[] = { "bytes", "stream", "chunked stream", "load_source>paste", "load_source>unwrap", "field of a tree", "unpack" };

static void fields(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4]; size_t route = (idx / 4) % 7;
    zoo::ZOpt o; o.text = true; o.depth = (int)r.range(0, 3); o.max = 20; o.big = r.chance(10); o.shared = false;
    Sub a; zoo::gen(r, a, o);
    // the document of the object, as the library describes it, out of the independent reader of the binary format
    Tree t; auto b0 = t.store(a, *std::unique_ptr<Parser>(new Srl::PSrl()));
    Doc d = psrl_parse(b0);
    Ctx c { r, GenOpt(), r.chance(80), r.chance(80), r.chance(60), (int)r.range(0, 40) };
    c.g.finite = true; c.g.depth = (int)r.range(0, 6); c.g.budget = (int)r.range(1, 30); c.g.max_str = 3000;
    if(is_json(f)) c.g.binary = false;
    Sub got; zoo::ZOpt o2 = o; o2.depth = 0; 
    bool may_have = route != 4;
    if(may_have && r.chance(50)) { zoo::gen(r, got.o1, o2); zoo::gen(r, got.o2, o2); zoo::gen(r, got.o3, o2); zoo::gen(r, got.o4, o2); if(r.chance(60)) { got.o5.reset(new Mini()); zoo::gen(r, *got.o5, o2); } if(r.chance(60)) { got.o6.reset(new Mini()); zoo::gen(r, *got.o6, o2); } if(r.chance(60)) { got.o7.reset(new int32_t(r.u64())); } }
    Sub had; had.o1 = got.o1; had.o2 = got.o2; had.o3.n = got.o3.n; had.o3.s = got.o3.s; had.o4 = got.o4; if(got.o5) { had.o5.reset(new Mini()); had.o5->n = got.o5->n; had.o5->s = got.o5->s; } had.o6 = got.o6; if(got.o7) had.o7.reset(new int32_t(*got.o7));
    scramble(c, d, a, had);
    if(route == 5) { Doc out = Doc::obj(); out.add("x", Doc::integer(1)); out.add("it", d); out.add("z", Doc::arr()); if(c.order) r.shuffle(out.kids); d = out; }
    if(depth(d) > 120) { count("too deep"); return; }
    Buf b;
    if(is_json(f)) { auto s = json_write(r, d); b.assign(s.begin(), s.end()); } else b = f == Fmt::MsgPack ? mp_write(r, d) : psrl_write(d);
    std::string ctx = std::string(name(f)) + ", " + routes[route];
    Exact e(b); Tree u;
    std::string after; 
    try {
        with_parser(f, [&](Parser& p) {
            switch(route) {
                case 0 : u.restore(got, e.p, e.n, p); break;
                case 1 : { std::string s((const char*)e.p, e.n); std::istringstream is(s); u.restore(got, is, p); break; }
                case 2 : { ChunkBuf cb(b, r.chance(50) ? 0 : r.range(1, 9), r.u64()); std::istream is(&cb); u.restore(got, is, p); break; }
                case 3 : u.load_source(e.p, e.n, p); u.root().paste(got); break;
                case 4 : u.load_source(e.p, e.n, p); got = u.root().unwrap<Sub>(); break;
                case 5 : u.load_source(e.p, e.n, p); u.root().paste_field("it", got); break;
                default : {                                             // field by field, in an order of the user's own
                    int32_t n = 0; std::string s; Mini mi; double dd = 0; std::vector<int16_t> v; std::vector<Sub> kids;
                    std::map<int32_t, std::string> m; std::pair<std::string, Mini> pr;
                    ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb);
                    u.load_source(is, p);
                    auto& root = u.root();
                    root.paste_field("kids", kids); root.paste_field("s", s); root.paste_field("n", n); root.paste_field("d", dd); root.paste_field("v", v); root.paste_field("m", m); root.paste_field("p", pr);
                    std::string w;
                    VCHECK(zoo::eq(n, a.n, w) && zoo::eq(s, a.s, w) && zoo::eq(dd, a.d, w) && zoo::eq(v, a.v, w) && zoo::eq(kids, a.kids, w) && zoo::eq(m, a.m, w) && zoo::eq(pr, a.p, w), "fields:content", ctx + ": " + w);
                    u.root().paste(got);
                }
            }
        });
    } catch(Exception& x) { violation("fields:refused", ctx + ": " + x.what() + " of " + show(d)); }
    std::string w;
    VCHECK(zoo::eq(a, got, w), "fields:content", ctx + ": " + w + " of " + show(d));
    count(std::string("route ") + routes[route]); count(std::string("format ") + name(f)); count("comparisons");
    distinct(hash_bytes(b.data(), b.size(), route));
}

// a document read by a class that asks for very little of it, again and again in a row of elements
static void sparse(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    GenOpt g; g.finite = true; g.binary = !is_json(f); g.depth = (int)r.range(0, 7); g.budget = (int)r.range(1, 60); g.max_str = r.chance(5) ? 70000 : 2000;
    Doc d = Doc::obj(), list = Doc::arr(); std::vector<Mini> want; 
    for(size_t n = r.range(1, 12); n; n--) {
        Doc e = gen_doc(r, g); e.k = Doc::Obj;
        for(auto& k : e.kids) if(k.first == "n" || k.first == "s") k.first += "!";
        Mini m; m.n = (int32_t)r.bits64(); m.s = gen_text(r, 50);
        e.kids.emplace(e.kids.begin() + r.below(e.kids.size() + 1), "n", Doc::integer(m.n)); e.kids.emplace(e.kids.begin() + r.below(e.kids.size() + 1), "s", Doc::str(m.s));
        list.add("", e); want.push_back(m);
    }
    d.add("list", list); d.add("first", Doc::integer(-5)); d.add("rest", gen_doc(r, g)); d.add("last", Doc::str("end"));
    r.shuffle(d.kids);
    struct Want { std::vector<Mini> list; int32_t first = 0; std::string last; void srl_resolve(Context& c) { c("last", last)("list", list)("first", first); } } got;
    if(depth(d) > 120) { count("too deep"); return; }
    Buf b;
    if(is_json(f)) { auto s = json_write(r, d); b.assign(s.begin(), s.end()); } else b = f == Fmt::MsgPack ? mp_write(r, d) : psrl_write(d);
    Exact e(b); Tree u; int how = (int)r.below(3);
    try {
        with_parser(f, [&](Parser& p) {
            if(how == 0) u.restore(got, e.p, e.n, p);
            else if(how == 1) { ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); u.restore(got, is, p); }
            else { u.load_source(e.p, e.n, p); u.root().paste(got); }
        });
    } catch(Exception& x) { violation("fields:refused", std::string(name(f)) + ": " + x.what() + " of " + show(d)); }
    std::string w;
    VCHECK(got.first == -5 && got.last == "end" && zoo::eq(got.list, want, w), "fields:content", std::string(name(f)) + ", way " + std::to_string(how) + ": " + w + " of " + show(d));
    count("sparse documents"); distinct(hash_bytes(b.data(), b.size(), 77));
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P20", { { "fields", 8400, 120000, fields }, { "sparse", 6000, 100000, sparse } });
}
