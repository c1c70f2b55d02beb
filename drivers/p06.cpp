// P06: every JSON document that is written is a JSON text with exactly the tree's content, judged by an independent
// strict RFC 8259 reader.
#include "zoo.h"
using namespace vf; using namespace Srl;

static GenOpt opt(Rng& r)
{
    GenOpt o;
    o.finite = true;
    o.depth = (int)r.range(0, 7);
    o.budget = r.chance(80) ? (int)r.range(1, 40) : (int)r.range(40, 400);
    o.max_str = r.chance(3) ? 200000 : 20000;
    return o;
}

static Doc judge(const Buf& b, const std::string& ctx)
{
    std::string s(b.begin(), b.end());
    count("documents"); count("bytes", b.size());
    if(b.size() > 4) distinct(hash_bytes(b.data(), b.size()));
    try { return json_parse(s); }
    catch(RefError& e) { violation("json:invalid", ctx + ": not a JSON text: " + e.what + ": " + show(s, 600)); }
    return Doc();
}

// the same tokens, however they are spaced
static std::string strip(const Buf& b)
{
    std::string o; bool in = false, esc = false;
    for(char c : b) {
        if(in) { o += c; if(esc) esc = false; else if(c == '\\') esc = true; else if(c == '"') in = false; continue; }
        if(c == ' ' || c == '\t' || c == '\n' || c == '\r') continue;
        if(c == '"') in = true;
        o += c;
    }
    return o;
}

static void compare(const Doc& want, const Doc& got, const char* key, const std::string& ctx)
{
    std::string w;
    count("elements", count_nodes(got));
    if(!same(want, got, &w)) violation(key, ctx + ": " + w + " want " + show(want, 500));
}

static void documents(Rng& r, uint64_t)
{
    Doc d = gen_doc(r, opt(r));
    Tree t;
    build_root(t, d, r);
    Buf c = encode(t, Fmt::Json), s = encode(t, Fmt::JsonSpaced);
    Doc want = canon(expected(canon(d), Fmt::Json));
    compare(want, judge(c, "compact"), "json:content", "compact output of " + show(d, 300));
    compare(want, judge(s, "spaced"), "json:content-spaced", "spaced output of " + show(d, 300));
    VCHECK(std::string(c.begin(), c.end()) == strip(c), "json:compact", "compact output holds white space between tokens: " + show(c));
    VCHECK(strip(s) == std::string(c.begin(), c.end()), "json:spacing", "compact and spaced output differ in more than white space: " + show(d));
    // one parser for all, switched back and forth
    PJson p(r.chance(50));
    for(int i = 0; i < 3; i++) {
        bool compact = r.chance(50);
        p.set_compact(compact);
        auto b = t.to_source(p);
        VCHECK(b == (compact ? c : s), "json:mode", "a parser that was used before writes other bytes");
    }
    sample(show(d, 200));
}

// every code point, as value and as name, in all encodings
static void characters(Rng& r, uint64_t idx)
{
    uint32_t base = (uint32_t)idx * 256;
    if(base >= 0xD800 && base < 0xE000) return;
    Doc d = Doc::obj();
    for(uint32_t c = base; c < base + 256; c++) {
        auto u = utf8_encode({ c });
        d.add("v" + u, Doc::str(u, (int)r.pick<int>({ 8, 16, 32 })));
        d.add(u + "w" + u, Doc::str("a" + u + "b" + u, (int)r.pick<int>({ 8, 16, 32 })));
        count("code points");
    }
    Tree t; build_root(t, d, r);
    compare(d, judge(encode(t, r.chance(50) ? Fmt::Json : Fmt::JsonSpaced), "characters"), "json:characters", "code points from " + std::to_string(base));
}

// pairs of characters that matter to quoting
static void pairs(Rng& r, uint64_t idx)
{
    Doc d = Doc::obj();
    for(uint32_t k = 0; k < 128; k++) {
        std::string u { (char)idx, (char)k };
        d.add(u, Doc::str(u));
        d.add(u + u, Doc::str(u + "\\" + u));
        count("pairs");
    }
    Tree t; build_root(t, d, r);
    compare(d, judge(encode(t, Fmt::Json), "pairs"), "json:characters", "pairs with " + std::to_string(idx));
}

// objects, stored directly and over a tree, and containers as root
static void objects(Rng& r, uint64_t idx)
{
    zoo::ZOpt o; o.text = true; o.depth = (int)r.range(1, 3); o.max = 12;
    auto both = [&](auto& obj, const char* what) {
        Tree t, u;
        bool compact = r.chance(50);
        PJson p(compact);
        Buf a = t.store(obj, p);
        u.load_object(obj);
        Buf b = u.to_source(p);
        Doc da = judge(a, what), db = judge(b, what);
        Doc tree = canon(expected(walk(u.root()), Fmt::Json));
        compare(canon(da), canon(db), "json:object-routes", std::string(what) + " stored directly and over a tree");
        compare(tree, db, "json:object", what);
        count("objects");
    };
    switch(idx % 5) {
        case 0 : { zoo::Zoo z; zoo::gen(r, z, o); both(z, "Zoo"); break; }
        case 1 : { zoo::Tree_ z; zoo::gen(r, z, o); both(z, "Tree_"); break; }
        case 2 : { std::map<std::string, std::vector<std::string>> m; zoo::gen(r, m, o); both(m, "map"); break; }
        case 3 : { std::vector<std::tuple<std::string, double, std::u16string>> m; zoo::gen(r, m, o); both(m, "vector of tuples"); break; }
        case 4 : { std::list<zoo::Leaf> m; zoo::gen(r, m, o); both(m, "list of objects"); break; }
    }
    // packed values
    std::string s = gen_text(r, 300); double f = r.dbl(true); int64_t i = (int64_t)r.bits64();
    Tree t; Buf b; PJson p(r.chance(50));
    t.pack(b, p, "s", s, "f", f, "i", i, "n", nullptr, "c", "literal");
    Doc want = expected(Doc::obj().add("s", Doc::str(s)).add("f", Doc::fp(f)).add("i", Doc::integer(i)).add("n", Doc::null()).add("c", Doc::str("literal")), Fmt::Json);
    compare(want, judge(b, "pack"), "json:pack", "packed values");
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P06", {
        { "documents", 20000, 1000000, documents },
        { "characters", 4352, 4352, characters },
        { "pairs", 128, 128, pairs },
        { "objects", 2500, 150000, objects },
    });
}
