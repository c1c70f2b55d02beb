// P08: every MessagePack document that is written is valid MessagePack with exactly the tree's content, judged by an
// independent reader: byte order, prefixes, lengths and element counts.
#include "zoo.h"
using namespace vf; using namespace Srl;

static GenOpt opt(Rng& r)
{
    GenOpt o;
    o.depth = (int)r.range(0, 7);
    o.budget = r.chance(80) ? (int)r.range(1, 40) : (int)r.range(40, 400);
    o.max_str = r.chance(3) ? 200000 : 20000;
    return o;
}

static Doc judge(const Buf& b, const std::string& ctx)
{
    count("documents"); count("bytes", b.size());
    if(b.size() > 6) distinct(hash_bytes(b.data(), b.size()));
    try { return mp_parse(b); }
    catch(RefError& e) { violation("msgpack:invalid", ctx + ": not MessagePack: " + e.what + ": " + hex(b, 300)); }
    return Doc();
}

static void compare(const Doc& want, const Doc& got, const char* key, const std::string& ctx)
{
    std::string w;
    count("elements", count_nodes(got));
    if(!same(want, got, &w)) violation(key, ctx + ": " + w + " want " + show(want, 500));
}

static void documents(Rng& r, uint64_t)
{
    Doc d = gen_doc(r, opt(r));
    Tree t;
    build_root(t, d, r);
    compare(canon(d), judge(encode(t, Fmt::MsgPack), show(d, 300)), "msgpack:content", "document " + show(d, 300));
    sample(show(d, 200));
}

// every length around the limits of the length classes, for values, binary values, names
static void lengths(Rng& r, uint64_t idx)
{
    size_t n = idx < 600 ? idx : idx < 900 ? 65535 - 150 + (idx - 600) : (size_t)r.range(600, 140000);
    std::string s(n, 'a'); if(n) { s[0] = 'F'; s[n - 1] = 'L'; }
    Doc d = Doc::obj().add("s", Doc::str(s)).add("b", Doc::bin(s)).add("x" + s, Doc::uinteger(n)).add("t", Doc::str("tail"));
    Tree t; build_root(t, d, r);
    compare(canon(d), judge(encode(t, Fmt::MsgPack), "length"), "msgpack:lengths", "length " + std::to_string(n));
    count("lengths");
}

// counts of elements, values and scopes mixed
static void counts(Rng& r, uint64_t idx)
{
    size_t n = idx < 300 ? idx : (size_t)r.pick<int>({ 1000, 65534, 65535, 65536, 65537, 70000 });
    Doc d = r.chance(50) ? Doc::obj() : Doc::arr();
    for(size_t i = 0; i < n; i++) {
        Doc k = n < 400 && r.chance(30) ? (r.chance(50) ? Doc::obj().add("i", Doc::uinteger(i)) : Doc::arr()) : Doc::uinteger(i);
        d.add(d.k == Doc::Obj ? "k" + std::to_string(i % 1000) : "", k);
    }
    Doc root = Doc::obj().add("before", Doc::integer(-5)).add("w", d).add("u", Doc::arr().add("", Doc::str("last")));
    Tree t; build_root(t, root, r);
    compare(canon(root), judge(encode(t, Fmt::MsgPack), "count"), "msgpack:counts", "element count " + std::to_string(n));
    count("element counts");
}

// every 16 bit integer in every type that holds it
static void integers(Rng& r, uint64_t idx)
{
    Doc d = Doc::arr();
    for(int64_t v = (int64_t)idx * 256 - 65536; v < (int64_t)idx * 256 - 65536 + 256; v++) {
        using Srl::Type;
        if(v >= -128 && v <= 127) d.add("", Doc::integer(v, Type::I8));
        if(v >= 0 && v <= 255) d.add("", Doc::uinteger(v, Type::UI8));
        if(v >= -32768 && v <= 32767) d.add("", Doc::integer(v, Type::I16));
        if(v >= 0 && v <= 65535) d.add("", Doc::uinteger(v, Type::UI16));
        d.add("", Doc::integer(v, Type::I32)); d.add("", Doc::integer(v, Type::I64));
        if(v >= 0) { d.add("", Doc::uinteger(v, Type::UI32)); d.add("", Doc::uinteger(v, Type::UI64)); }
        count("integers");
    }
    for(int i = 0; i < 60; i++) {
        uint64_t v = r.bits64();
        d.add("", Doc::integer((int64_t)v)); d.add("", Doc::uinteger(v)); d.add("", Doc::integer((int32_t)v, Type::I32)); d.add("", Doc::uinteger((uint32_t)v, Type::UI32));
    }
    Tree t; build_root(t, d, r);
    compare(d, judge(encode(t, Fmt::MsgPack), "integers"), "msgpack:integers", "integers");
}

// objects stored directly and over a tree
static void objects(Rng& r, uint64_t idx)
{
    zoo::ZOpt o; o.depth = (int)r.range(1, 3); o.max = 12;
    auto both = [&](auto& obj, const char* what) {
        Tree t, u;
        PMsgPack p;
        Buf a = t.store(obj, p);
        u.load_object(obj);
        Buf b = u.to_source(p);
        Doc da = judge(a, what), db = judge(b, what);
        compare(canon(da), canon(db), "msgpack:object-routes", std::string(what) + " stored directly and over a tree");
        compare(canon(walk(u.root())), db, "msgpack:object", what);
        count("objects");
    };
    switch(idx % 5) {
        case 0 : { zoo::Zoo z; zoo::gen(r, z, o); both(z, "Zoo"); break; }
        case 1 : { zoo::Tree_ z; zoo::gen(r, z, o); both(z, "Tree_"); break; }
        case 2 : { std::map<std::string, std::vector<std::string>> m; zoo::gen(r, m, o); both(m, "map"); break; }
        case 3 : { std::vector<std::tuple<std::string, double, std::u16string>> m; zoo::gen(r, m, o); both(m, "vector of tuples"); break; }
        case 4 : { std::list<zoo::Leaf> m; zoo::gen(r, m, o); both(m, "list of objects"); break; }
    }
    std::string s = gen_text(r, 300); double f = r.dbl(false); int64_t i = (int64_t)r.bits64();
    Tree t; Buf b; PMsgPack p;
    t.pack(b, p, "s", s, "f", f, "i", i, "n", nullptr, "c", "literal");
    compare(Doc::obj().add("s", Doc::str(s)).add("f", Doc::fp(f)).add("i", Doc::integer(i)).add("n", Doc::null()).add("c", Doc::str("literal")), judge(b, "pack"), "msgpack:pack", "packed values");
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P08", {
        { "documents", 24000, 1500000, documents },
        { "lengths", 1000, 6000, lengths },
        { "counts", 320, 1000, counts },
        { "integers", 512, 512, integers },
        { "objects", 2500, 150000, objects },
    });
}
