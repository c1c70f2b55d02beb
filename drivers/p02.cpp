// P02: what a tree holds is what every format gives back, alone and through chains of formats.
#include "doc.h"
using namespace vf;
using namespace Srl;

static GenOpt opt(Rng& r, bool finite)
{
    GenOpt o;
    o.finite = finite;
    o.depth = (int)r.range(0, 7);
    o.budget = r.chance(80) ? (int)r.range(1, 40) : (int)r.range(40, 400);
    o.max_str = r.chance(3) ? 300000 : 70000;
    return o;
}

static void observe(const Doc& d)
{
    count("documents"); count("elements", count_nodes(d));
    if(d.kids.size()) distinct(hash(d));
}

static void check(const char* what, const Doc& want, Node& got, const std::string& ctx)
{
    std::string w;
    if(!same(want, walk(got), &w)) violation(what, ctx + ": " + w + " want " + show(want, 500));
    count("comparisons");
}

static void roundtrip(Rng& r, uint64_t)
{
    Fmt f = r.pick(all_formats);
    Doc d = gen_doc(r, opt(r, is_json(f)));
    observe(d);
    Tree t;
    build_root(t, d, r);
    check("tree:built", canon(d), t.root(), "a freshly built tree");
    auto bytes = encode(t, f);
    check("tree:written", canon(d), t.root(), std::string("the tree after it was written as ") + name(f));
    auto again = encode(t, f);
    VCHECK(bytes == again, "encode:not-deterministic", std::string(name(f)) + " gives different bytes when the same tree is written twice: " + show(d));
    Tree u;
    decode(u, bytes, f);
    check(("roundtrip:" + std::string(name(f))).c_str(), canon(expected(canon(d), f)), u.root(), std::string(name(f)) + " bytes " + hex(bytes, 80));
    count(std::string("roundtrips ") + name(f)); count("bytes", bytes.size());
    auto third = encode(u, f);
    // base64 of a binary value is a string from then on
    VCHECK(third == bytes || (is_json(f) && has_kind(d, Doc::Bin)), std::string("rewrite:") + name(f), "loading and writing again changes the bytes: " + show(d));
    sample(std::string(name(f)) + " " + show(d, 200));
}

static void chain(Rng& r, uint64_t)
{
    size_t n = r.range(2, 5);
    std::vector<Fmt> fs;
    bool json = false;
    for(size_t i = 0; i < n; i++) { fs.push_back(r.pick(all_formats)); json |= is_json(fs.back()); }
    Doc d = gen_doc(r, opt(r, json));
    observe(d);
    Tree t;
    build_root(t, d, r);
    Doc want = canon(d);
    std::string path;
    bool one_tree = r.chance(50);
    for(auto f : fs) {
        path += std::string(path.empty() ? "" : ">") + name(f);
        auto bytes = encode(t, f);
        want = canon(expected(want, f));
        if(one_tree) decode(t, bytes, f);
        else { Tree u; decode(u, bytes, f); t = std::move(u); }
        check("chain", want, t.root(), path);
        count("hops");
    }
    sample(path + " " + show(d, 160));
}

static void collect(Node& n, std::vector<Node*>& out) { n.foreach_node([&](Node& k) { out.push_back(&k); }, true); }

static void subtree(Rng& r, uint64_t)
{
    Fmt f = r.pick(all_formats);
    Doc root = Doc::obj();
    root.add("pre", gen_scalar(r, opt(r, true)));
    for(auto k = r.range(1, 3); k > 0; k--) root.add("s" + std::to_string(k), gen_doc(r, opt(r, is_json(f))));
    observe(root);
    Tree t;
    build_root(t, root, r);
    std::vector<Node*> nodes;
    collect(t.root(), nodes);
    if(nodes.empty()) return;
    Node* n = nodes[r.below(nodes.size())];
    Doc part = walk(*n);
    auto bytes = with_parser(f, [&](auto& p) { return n->to_source(p); });
    Tree u;
    decode(u, bytes, f);
    check("subtree", canon(expected(part, f)), u.root(), std::string("a nested node written on its own as ") + name(f));
    check("subtree:source", canon(root), t.root(), "the tree a nested node was written from");
    sample(std::string(name(f)) + " " + show(part, 160));
}

// nodes and values taken over from another tree
static void transplant(Rng& r, uint64_t)
{
    Doc a = gen_doc(r, opt(r, true)), b = Doc::obj();
    observe(a);
    Tree ta, tb;
    build_root(ta, a, r);
    if(r.chance(50)) { auto by = encode(ta, Fmt::PSrl); decode(ta, by, Fmt::PSrl); a = canon(expected(canon(a), Fmt::PSrl)); }
    Doc want = Doc::obj();
    a = canon(a);
    size_t n = 0;
    ta.root().foreach_value([&](Value& v) {
        auto nm = "v" + std::to_string(n);
        tb.root().insert(nm, v);
        want.add(nm, a.kids[n++].second);
    });
    check("transplant", want, tb.root(), "values inserted from another tree");
    { Tree gone = std::move(ta); }
    check("transplant:after", want, tb.root(), "values inserted from a tree that is gone");
}

// objects whose classes hand over scopes and values of other trees, and functions that write scopes, while they are written straight into a document
struct Carrier {
    Node* n = nullptr; const Doc* d = nullptr; uint64_t seed = 0;
    void put(StoreContext* c, Node& to, const String& nm, Node* kn, Value* kv, const Doc& k, Rng& r) const
    {
        if(kv) { count("values handed over"); if(c && r.chance(50)) (*c)(nm, *kv); else to.insert(nm, *kv); return; }
        size_t how = r.below(4);
        if(how == 2 && k.k == Doc::Obj) { Carrier x; x.n = kn; x.d = &k; x.seed = r.u64(); count("objects inside of objects"); if(c && r.chance(50)) (*c)(nm, x); else to.insert(nm, x); }
        else if(how == 3) {
            uint64_t s = r.u64(); count("scopes written by functions");
            ScopeWrap w([this, s, kn, &k](Node& m) { Rng q(s); fill(nullptr, m, *kn, k, q); }, k.k == Doc::Obj ? Type::Object : Type::Array);
            if(c && r.chance(50)) (*c)(nm, w); else to.insert(nm, w);
        }
        else { count("scopes handed over"); if(c && how == 1) (*c)(nm, *kn); else to.insert(nm, *kn); }
    }
    void fill(StoreContext* c, Node& to, Node& from, const Doc& m, Rng& r) const
    {
        size_t vi = 0, ni = 0;
        for(auto& k : m.kids) {
            Name nm(k.first, r);
            if(k.second.scope()) put(c, to, nm.str(), &from.node(ni++), nullptr, k.second, r); else put(c, to, nm.str(), nullptr, &from.value(vi++), k.second, r);
        }
    }
    void srl_resolve(Context& c) { Rng r(seed); fill(nullptr, c.node(), *n, *d, r); }
};
// the same with the other kind of class
struct Carrier2 : Carrier {
    void srl_resolve(Context&) = delete;
    void srl_store(StoreContext& c) const { Rng r(seed); size_t vi = 0, ni = 0; for(auto& k : d->kids) { Name nm(k.first, r); put2(c, nm.str(), k.second, vi, ni, r); } }
    void srl_restore(RestoreContext&) { }
    void put2(StoreContext& c, const String& nm, const Doc& k, size_t& vi, size_t& ni, Rng& r) const
    {
        if(!k.scope()) { c(nm, n->value(vi++)); count("values handed over"); return; }
        Node* kn = &n->node(ni++);
        if(r.chance(50)) { c(nm, *kn); count("scopes handed over"); return; }
        if(k.k == Doc::Obj && r.chance(50)) { Carrier2 x; x.n = kn; x.d = &k; x.seed = r.u64(); c(nm, x); count("objects inside of objects"); return; }
        uint64_t s = r.u64(); count("scopes written by functions");
        c(nm, ScopeWrap([this, s, kn, &k](Node& m) { Rng q(s); fill(nullptr, m, *kn, k, q); }, k.k == Doc::Obj ? Type::Object : Type::Array));
    }
};

template<class C> static void carry(Rng& r, const Doc& d, Tree& src, const Doc& held, Fmt f)
{
    Doc want = canon(expected(d, f)); std::string ctx = std::string("objects that hand over parts of trees, as ") + name(f);
    C c; c.n = &src.root(); c.d = &held; c.seed = r.u64();
    Tree own; Buf b;
    switch(r.below(5)) {
        case 0 : b = with_parser(f, [&](Parser& p) { return own.store(c, p); }); ctx += " (store)"; break;
        case 1 : b = with_parser(f, [&](Parser& p) { return src.store(c, p); }); ctx += " (store by the tree itself)"; break;
        case 2 : { own.load_object(c); check("handed-over:tree", canon(d), own.root(), "objects that hand over parts of trees, in a tree"); b = encode(own, f); ctx += " (load_object)"; break; }
        case 3 : { Buf o; with_parser(f, [&](Parser& p) { own.pack(o, p, "one", 1, "object", c, "scope", src.root(), "last", 2); return 0; }); ctx += " (pack)";
            Tree u; decode(u, o, f); Doc w = Doc::obj(); w.add("one", Doc::integer(1)); w.add("last", Doc::integer(2)); w.add("object", d); w.add("scope", d);
            w.kids[3].second.k = src.root().type() == Type::Array ? Doc::Arr : Doc::Obj;
            check("handed-over:pack", canon(expected(canon(w), f)), u.root(), ctx); check("handed-over:source", canon(held), src.root(), ctx + ", the source"); return; }
        case 4 : { own.root().insert("object", c, "plain", 5); b = encode(own, f); Doc w = Doc::obj(); w.add("plain", Doc::integer(5)); w.add("object", d); want = canon(expected(canon(w), f)); ctx += " (insert)"; break; }
    }
    Tree u; decode(u, b, f); check("handed-over", want, u.root(), ctx); check("handed-over:source", canon(held), src.root(), ctx + ", the source");
}
static void handed_over(Rng& r, uint64_t)
{
    Fmt f = r.pick(all_formats); auto o = opt(r, true); Doc d = gen_doc(r, o); d.k = Doc::Obj;
    for(size_t i = 0; i < d.kids.size(); i++) if(d.kids[i].first.empty()) d.kids[i].first = "u" + std::to_string(i);
    observe(d);
    std::function<size_t(const Doc&)> depth = [&](const Doc& x) { size_t m = 0; for(auto& k : x.kids) m = std::max(m, 1 + depth(k.second)); return m; };
    if(depth(d) > 120) return;      // a deeper one may not be packed
    Tree src; build_root(src, d, r); Doc held = canon(d);
    if(r.chance(40)) { auto b = encode(src, Fmt::PSrl); decode(src, b, Fmt::PSrl); held = canon(expected(held, Fmt::PSrl)); }
    if(r.chance(50)) carry<Carrier>(r, held, src, held, f); else carry<Carrier2>(r, held, src, held, f);
    sample(std::string(name(f)) + " " + show(d, 160));
}

// everything a program can insert, with one script of calls: into a tree, or into a document that is being written
template<class C> static std::basic_string<C> as(const std::string& s)
{
    if constexpr(sizeof(C) == 1) return s;
    else { std::vector<uint32_t> c; utf8_decode(s, c); if constexpr(sizeof(C) == 2) { auto t = utf16_encode(c); return std::basic_string<C>((const C*)t.data(), t.size()); } else return std::basic_string<C>(c.begin(), c.end()); }
}
static std::string word(Rng& r) { auto s = r.chance(25) ? "" : gen_text(r, r.chance(90) ? 12 : 400); s.erase(std::remove(s.begin(), s.end(), '\0'), s.end()); return s; }
struct Item { int a = 0; std::string s; std::vector<int> v; void srl_resolve(Context& c) { c("a", a)("s", s)("v", v); } };
static Doc of(int a) { return Doc::integer(a, Type::I32); }
static Doc of(const Item& i) { Doc v = Doc::arr(); for(int x : i.v) v.add("", of(x)); return Doc::obj().add("a", of(i.a)).add("s", Doc::str(i.s)).add("v", v); }

template<class C> static void pointers(Node& to, const String& nm, Doc& d, const std::string& n, Rng& r)
{
    std::string u[3] = { word(r), word(r), word(r) }; std::basic_string<C> w[3] = { as<C>(u[0]), as<C>(u[1]), as<C>(u[2]) };
    const C *a = w[0].c_str(), *b = w[1].c_str(), *c = w[2].c_str(); int e = sizeof(C) * 8;
    if(r.chance(40)) { to.insert(nm, a); d.add(n, Doc::str(u[0], e)); }
    else if(r.chance(60)) { to.insert(nm, { a, b, c }); d.add(n, Doc::arr().add("", Doc::str(u[0], e)).add("", Doc::str(u[1], e)).add("", Doc::str(u[2], e))); }
    else { to.insert(nm, a, "more", b, "1", c); d.add(n, Doc::str(u[0], e)).add("more", Doc::str(u[1], e)).add("1", Doc::str(u[2], e)); }
}
static void script(Node& to, Doc& d, Rng& r, int depth)
{
    for(auto k = r.below(7); k > 0; k--) {
        std::string n = d.k == Doc::Arr ? "" : gen_name(r); Name holder(n, r); auto nm = holder.str();
        auto i = [&] { return (int)r.bits64(); };
        Item x; x.a = i(); x.s = word(r); for(auto m = r.below(3); m > 0; m--) x.v.push_back(i());
        Item y; y.s = word(r);
        switch(r.below(depth > 0 ? 15 : 13)) {
            case 0 : { int a = i(), b = i(), c = i(); to.insert(nm, { a, b, c }); d.add(n, Doc::arr().add("", of(a)).add("", of(b)).add("", of(c))); count("lists"); break; }
            case 1 : pointers<char>(to, nm, d, n, r); count("pointers to text"); break;
            case 2 : pointers<char16_t>(to, nm, d, n, r); break;
            case 3 : pointers<char32_t>(to, nm, d, n, r); break;
            case 4 : pointers<wchar_t>(to, nm, d, n, r); break;
            case 5 : { std::string a = word(r), b = word(r); to.insert(nm, { a, b }); d.add(n, Doc::arr().add("", Doc::str(a)).add("", Doc::str(b))); count("lists"); break; }
            case 6 : { double a = r.dbl(true), b = i(); to.insert(nm, { a, b, 0.5 }); d.add(n, Doc::arr().add("", Doc::fp(a)).add("", Doc::fp(b)).add("", Doc::fp(0.5))); count("lists"); break; }
            case 7 : { to.insert(nm, { x, y }); d.add(n, Doc::arr().add("", of(x)).add("", of(y))); count("lists of objects"); break; }
            case 8 : { to.insert(nm, { x.v, y.v, x.v }); Doc v = of(x).kids[2].second; d.add(n, Doc::arr().add("", v).add("", Doc::arr()).add("", v)); count("lists of lists"); break; }
            case 9 : { to.insert(nm, x, "second", y.s, "third", x.v, "fourth", true); d.add(n, of(x)).add("second", Doc::str(y.s)).add("third", of(x).kids[2].second).add("fourth", Doc::boolean(true)); count("several at once"); break; }
            case 10 : { std::unique_ptr<Item> none, one(new Item(x)); Item* raw = &y; to.insert(nm, none, "one", one, "raw", raw, "null", nullptr); d.add(n, Doc::null()).add("one", of(x)).add("raw", of(y)).add("null", Doc::null()); break; }
            case 11 : { std::pair<std::string, Item> p(x.s, y); std::tuple<int, std::string, bool> t(x.a, y.s, true); to.insert(nm, p, "t", t); d.add(n, Doc::obj().add("first", Doc::str(x.s)).add("second", of(y))).add("t", Doc::arr().add("", of(x.a)).add("", Doc::str(y.s)).add("", Doc::boolean(true))); break; }
            case 12 : { std::string b = word(r); Bytes by(Buf(b.begin(), b.end())); std::map<std::string, int> m { { "b", 2 }, { "a", 1 } }; to.insert(nm, by, "m", m);
                auto e = [](const char* k, int v) { return Doc::obj().add("key", Doc::str(k)).add("value", of(v)); };
                d.add(n, Doc::bin(b)).add("m", Doc::arr().add("", e("a", 1)).add("", e("b", 2))); break; }
            default : {
                uint64_t seed = r.u64(); bool arr = r.chance(40); Doc in = arr ? Doc::arr() : Doc::obj();
                { Tree scratch; Rng q(seed); Doc tmp = in; script(scratch.root(), tmp, q, depth - 1); in = tmp; }
                ScopeWrap w([=](Node& m) { Rng q(seed); Doc tmp = arr ? Doc::arr() : Doc::obj(); script(m, tmp, q, depth - 1); }, arr ? Type::Array : Type::Object);
                to.insert(nm, w); d.add(n, in); count("scopes by functions"); break; }
        }
    }
}

struct Scripted { uint64_t seed; int depth; void srl_resolve(Context& c) { Rng q(seed); Doc d = Doc::obj(); script(c.node(), d, q, depth); } };
static void inserted(Rng& r, uint64_t)
{
    Fmt f = r.pick(all_formats); Scripted o { r.u64(), (int)r.below(4) };
    Tree t; Doc d = Doc::obj(); Rng q(o.seed); script(t.root(), d, q, o.depth);
    observe(d); check("inserted:tree", canon(d), t.root(), "a tree made of what can be inserted");
    Doc want = canon(expected(canon(d), f)); std::string ctx = std::string("what can be inserted, as ") + name(f); Tree u;
    decode(u, encode(t, f), f); check("inserted:tree:written", want, u.root(), ctx);
    Buf b; int way = (int)r.below(5);
    switch(way) {
        case 0 : b = with_parser(f, [&](Parser& p) { return t.store(o, p); }); break;
        case 1 : { std::ostringstream s; with_parser(f, [&](Parser& p) { t.store(o, static_cast<std::ostream&>(s), p); return 0; }); auto x = s.str(); b.assign(x.begin(), x.end()); break; }
        case 2 : { Tree w; w.load_object(o); b = encode(w, f); break; }
        case 3 : { ScopeWrap w([&](Node& n) { Rng q2(o.seed); Doc d2 = Doc::obj(); script(n, d2, q2, o.depth); }); with_parser(f, [&](Parser& p) { Tree().pack(b, p, "it", w, "o", o); return 0; }); break; }
        case 4 : { std::vector<Scripted> v { o, o }; b = with_parser(f, [&](Parser& p) { return t.store(v, p); }); break; }
    }
    decode(u, b, f); ctx += ", way " + std::to_string(way);
    if(way < 3) check("inserted:written", want, u.root(), ctx);
    else for(size_t i = 0; i < 2; i++) { VCHECK(u.root().num_nodes() == 2 && u.root().num_values() == 0, "inserted:written", ctx + ": " + show(walk(u.root()))); check("inserted:written", want, u.root().node(i), ctx); }
    sample(std::string(name(f)) + " " + show(d, 160));
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P02", {
        { "roundtrip", 30000, 1500000, roundtrip },
        { "chain", 8000, 500000, chain },
        { "subtree", 4000, 150000, subtree },
        { "transplant", 2000, 60000, transplant },
        { "handed over", 12000, 600000, handed_over },
        { "inserted", 6000, 300000, inserted },
    });
}
