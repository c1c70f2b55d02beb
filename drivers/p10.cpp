// P10: the binary format: what is written follows the published layout with each name spelled out once, what follows
// the layout is read as what it says, and the layout does not change.
#include "zoo.h"
using namespace vf; using namespace Srl;

static GenOpt opt(Rng& r)
{
    GenOpt o;
    o.depth = (int)r.range(0, 7);
    o.budget = r.chance(80) ? (int)r.range(1, 40) : (int)r.range(40, 400);
    o.max_str = r.chance(3) ? 200000 : 20000;
    return o;
}

static void names_once(const Doc& d, std::set<std::string>& all) { for(auto& k : d.kids) { if(d.k == Doc::Obj && !k.first.empty()) all.insert(k.first); names_once(k.second, all); } }

static Doc judge(const Buf& b, const std::string& ctx)
{
    count("documents"); count("bytes", b.size());
    if(b.size() > 3) distinct(hash_bytes(b.data(), b.size()));
    try { return psrl_parse(b); }
    catch(RefError& e) { violation("psrl:invalid", ctx + ": not in the format's layout: " + e.what + ": " + hex(b, 300)); }
    return Doc();
}
static void compare(const Doc& want, const Doc& got, const char* key, const std::string& ctx)
{
    std::string w;
    count("elements", count_nodes(got));
    if(!same(want, got, &w)) violation(key, ctx + ": " + w + " want " + show(want, 500));
}

static void documents(Rng& r, uint64_t)
{
    Doc d = gen_doc(r, opt(r));
    Tree t; build_root(t, d, r);
    Buf b = encode(t, Fmt::PSrl);
    compare(canon(d), judge(b, show(d, 300)), "psrl:content", show(d, 300));
    // what is written is as small as the layout allows: the reference writer knows one spelling only
    Doc c = canon(d);
    VCHECK(b.size() <= psrl_write(c).size(), "psrl:size", "the document takes " + std::to_string(b.size()) + " bytes, the layout needs " + std::to_string(psrl_write(c).size()) + ": " + show(d));
    std::set<std::string> nm; names_once(c, nm);
    count("distinct names", nm.size());
    sample(show(d, 200));
}

// from the reference writer
static void foreign(Rng& r, uint64_t)
{
    Doc d = gen_doc(r, opt(r));
    Buf b = psrl_write(d);
    Exact e(b); Tree t; PSrl p;
    try { t.load_source(e.p, e.n, p); }
    catch(Srl::Exception& x) { violation("psrl-in:rejected", std::string("a document in the published layout was rejected: ") + x.what() + ": " + show(d)); }
    Doc want = canon(d);
    std::string w;
    count("documents read"); count("elements", count_nodes(d)); distinct(hash_bytes(b.data(), b.size()));
    if(!same(want, walk(t.root()), &w)) violation("psrl-in:content", w + " bytes " + hex(b, 200));
}

// how often names are shared: many names, repeated in nested scopes, similar ones, long ones
static void names(Rng& r, uint64_t)
{
    std::vector<std::string> pool;
    std::set<std::string> uniq;
    size_t n = r.pick<int>({ 1, 2, 7, 8, 64, 127, 128, 129, 300, 1000 });
    while(pool.size() < n) {
        std::string s;
        switch(r.below(4)) {
            case 0 : s = "n" + std::to_string(r.below(5000)); break;
            case 1 : s = gen_text(r, 40); break;
            case 2 : s = std::string(r.range(1, 300), (char)r.range('a', 'c')); break;
            case 3 : s = gen_name(r); break;
        }
        if(!s.empty() && uniq.insert(s).second) pool.push_back(s);
    }
    Doc d = Doc::obj();
    std::function<void(Doc&, int)> fill = [&](Doc& o, int depth) {
        for(auto k = r.below(depth == 3 ? 400 : 6); k > 0; k--) {
            auto& nm = r.pick(pool);
            if(depth > 0 && r.chance(20)) { Doc c = r.chance(70) ? Doc::obj() : Doc::arr(); fill(c, depth - 1); o.add(o.k == Doc::Obj ? nm : "", c); }
            else o.add(o.k == Doc::Obj ? nm : "", Doc::uinteger(k));
        }
    };
    fill(d, 3);
    Tree t; build_root(t, d, r);
    Buf b = encode(t, Fmt::PSrl);
    compare(canon(d), judge(b, "names"), "psrl:names", show(d, 300));
    Tree u; decode(u, b, Fmt::PSrl);
    compare(canon(d), walk(u.root()), "psrl:names-read", show(d, 300));
    count("name pools");
}

static void objects(Rng& r, uint64_t idx)
{
    zoo::ZOpt o; o.depth = (int)r.range(1, 3); o.max = 12;
    auto both = [&](auto& obj, const char* what) {
        Tree t, u;
        PSrl p;
        Buf a = t.store(obj, p);
        u.load_object(obj);
        Buf b = u.to_source(p);
        Doc da = judge(a, what), db = judge(b, what);
        compare(canon(da), canon(db), "psrl:object-routes", std::string(what) + " stored directly and over a tree");
        compare(canon(walk(u.root())), db, "psrl:object", what);
        count("objects");
    };
    switch(idx % 4) {
        case 0 : { zoo::Zoo z; zoo::gen(r, z, o); both(z, "Zoo"); break; }
        case 1 : { std::map<std::string, std::vector<std::string>> m; zoo::gen(r, m, o); both(m, "map"); break; }
        case 2 : { std::vector<std::tuple<std::string, double, std::u16string>> m; zoo::gen(r, m, o); both(m, "vector of tuples"); break; }
        case 3 : { std::list<zoo::Leaf> m; zoo::gen(r, m, o); both(m, "list of objects"); break; }
    }
    std::string s = gen_text(r, 300); double f = r.dbl(false); int64_t i = (int64_t)r.bits64();
    Tree t; Buf b; PSrl p;
    t.pack(b, p, "s", s, "f", f, "i", i, "n", nullptr, "s", "literal");
    compare(Doc::obj().add("s", Doc::str(s)).add("f", Doc::fp(f)).add("i", Doc::integer(i)).add("n", Doc::null()).add("s", Doc::str("literal")), judge(b, "pack"), "psrl:pack", "packed values");
}

// one parser writing and reading many documents remembers nothing of the earlier ones
static void reuse(Rng& r, uint64_t)
{
    PSrl p;
    for(int i = 0; i < 4; i++) {
        GenOpt o = opt(r); o.big = false;
        Doc d = gen_doc(r, o);
        Tree t; build_root(t, d, r);
        Buf b = t.to_source(p);
        compare(canon(d), judge(b, "reuse"), "psrl:reuse", "document " + std::to_string(i) + " with the same parser");
        Buf f = psrl_write(d);
        Tree u; Exact e(f); u.load_source(e.p, e.n, p);
        compare(canon(d), walk(u.root()), "psrl:reuse-read", "document " + std::to_string(i) + " with the same parser");
        count("documents with one parser", 2);
    }
}

// bytes of documents that exist out there
static void golden(Rng&, uint64_t)
{
    Tree t;
    t.root().insert("a", 1, "b", -300, "t", true, "s", "x", "n", nullptr);
    t.root().insert("f", 0.5f); t.root().insert("d", 0.1);
    t.root().insert("a", std::vector<int> { 1, 200 });
    auto b = t.to_source(PSrl());
    Buf want { 0x40, 0x03, 1, 'a', 1, 0x0B, 1, 'b', 0xAC, 2, 0x43, 1, 't', 0x22, 1, 's', 1, 'x', 0x0A, 1, 'n', 0x13, 1, 'f', 0, 0, 0, 0x3F,
               0x23, 1, 'd', 0x9A, 0x99, 0x99, 0x99, 0x99, 0x99, 0xB9, 0x3F, 0x86, 0, 0x01, 1, 0x01, 0xC8, 1, 0, 0 };
    VCHECK(b == want, "psrl:golden", "the layout changed: " + hex(b) + " instead of " + hex(want));
    count("golden documents");
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P10", {
        { "documents", 20000, 1000000, documents },
        { "foreign", 14000, 1000000, foreign },
        { "names", 3000, 150000, names },
        { "objects", 2000, 150000, objects },
        { "reuse", 3000, 100000, reuse },
        { "golden", 1, 1, golden },
    });
}
