// P14: what does not fit is refused by an exception of the library, never half taken over in silence: the field that
// failed keeps what it had, the document stays what it was, and the right document is still accepted afterwards.
#include "zoo.h"
using namespace vf; using namespace Srl;

struct In { int32_t n = 0; std::string s; std::vector<int16_t> v; void srl_resolve(Context& c) { c("n", n)("s", s)("v", v); } };
namespace zoo { template<> struct Z<In> {
    static void gen(Rng& r, In& l, const ZOpt& o) { zoo::gen(r, l.n, o); zoo::gen(r, l.s, o); zoo::gen(r, l.v, o); }
    static bool eq(const In& a, const In& b, string& w) { return zoo::eq(a.n, b.n, w) && zoo::eq(a.s, b.s, w) && zoo::eq(a.v, b.v, w); }
}; }
typedef char char6[6]; typedef int32_t int3[3]; typedef std::pair<int32_t, std::string> pr_t; typedef std::tuple<int16_t, std::string, In> tp_t; typedef std::map<std::string, int32_t> map_t;
#define NUMS(F) F(int8_t, i8) F(uint16_t, u16) F(int64_t, i64) F(uint64_t, u64) F(float, f) F(double, d) F(bool, b)
#define CONT(F) F(std::vector<int32_t>, vi) F(std::list<In>, li) F(map_t, m) F(std::set<int64_t>, st)
#define REST(F) F(std::string, s) F(In, in) F(tp_t, tp) F(pr_t, pr) F(int3, a3) F(char6, c6)
struct Rec {
#define F(T, n) T n {};
    NUMS(F) CONT(F) REST(F)
#undef F
    std::unique_ptr<In> up; std::shared_ptr<In> sp; std::vector<uint8_t> blob;
    void srl_resolve(Context& c)
    {
#define F(T, n) c(#n, n);
        NUMS(F) CONT(F) REST(F)
#undef F
        c("up", up)("sp", sp)("blob", VecWrap<uint8_t>(blob));
    }
    void fill(Rng& r, const zoo::ZOpt& o)
    {
#define F(T, n) zoo::gen(r, n, o);
        NUMS(F) CONT(F) REST(F)
#undef F
        if(li.empty()) { li.emplace_back(); zoo::gen(r, li.back(), o); }
        if(m.empty()) m["k"] = 7;
        up.reset(new In()); zoo::gen(r, *up, o); sp = std::make_shared<In>(); zoo::gen(r, *sp, o); blob.resize(r.below(40)); for(auto& x : blob) x = (uint8_t)r.u64();
    }
    bool equal(const Rec& o, std::string& w, const char* skip = "") const
    {
#define F(T, n) if(strcmp(skip, #n) && !zoo::eq(n, o.n, w)) { w = "." #n + w; return false; }
        NUMS(F) CONT(F) REST(F) F(_, up) F(_, sp) F(_, blob)
#undef F
        return true;
    }
};

static Doc* at(Doc& d, const std::string& name) { for(auto& k : d.kids) if(k.first == name) return &k.second; return nullptr; }
static void drop(Doc& d, const std::string& name) { for(size_t i = 0; i < d.kids.size(); i++) if(d.kids[i].first == name) { d.kids.erase(d.kids.begin() + i); return; } }
static void rename(Doc& d, const std::string& name, Rng& r)
{
    for(auto& k : d.kids) if(k.first == name) {
        switch(r.below(4)) { case 0 : k.first += "x"; break; case 1 : k.first[0] = (char)(k.first[0] - 32); break; case 2 : k.first = "x" + k.first; break; case 3 : k.first += std::string("\0", 1); break; }
        return;
    }
}
static Doc scope(Rng& r) { Doc d = r.chance(50) ? Doc::obj() : Doc::arr(); if(r.chance(60)) d.add(d.k == Doc::Obj ? "q" : "", Doc::integer(1)); return d; }
static Doc scalar(Rng& r) { switch(r.below(4)) { case 0 : return Doc::integer(5); case 1 : return Doc::str("text"); case 2 : return Doc::boolean(true); } return Doc::fp(1.5); }
static Doc no_number(Rng& r) { return Doc::str(r.pick<std::string>({ "abc", "", "1x", "x1", "--1", "1.2.3", "0x", "tru", "1 2", "e5", "+", "-", "." })); }

struct Broken { std::string field, what; };

// one thing that does not fit
static Broken spoil(Rng& r, Doc& d)
{
#define F(T, n) #n,
    static const std::vector<std::string> nums { NUMS(F) }, conts { CONT(F) }, all { NUMS(F) CONT(F) REST(F) "up", "sp", "blob" };
#undef F
    auto is_num = [&](const std::string& f) { return std::find(nums.begin(), nums.end(), f) != nums.end(); };
    std::string f;
    switch(r.below(16)) {
        case 0 : f = r.pick(all); drop(d, f); return { f, "absent" };
        case 1 : f = r.pick(all); rename(d, f, r); return { f, "renamed" };
        case 2 : f = r.pick(all); { auto* x = at(d, f); *x = x->scope() ? scalar(r) : scope(r); } return { f, "scope for value or value for scope" };
        case 3 : f = r.pick(nums); *at(d, f) = no_number(r); return { f, "text which is no number" };
        case 4 : {
            struct O { const char* f; Doc d; };
            std::vector<O> os { { "i8", Doc::integer(128) }, { "i8", Doc::integer(-129) }, { "i8", Doc::fp(1e3) }, { "u16", Doc::integer(65536) }, { "u16", Doc::integer(-1) }, { "u16", Doc::fp(-1e9) }, { "i64", Doc::uinteger(1ull << 63) },
                { "i64", Doc::fp(9223372036854775808.0) }, { "u64", Doc::integer(-1) }, { "u64", Doc::fp(1e300) }, { "b", Doc::integer(2) }, { "b", Doc::integer(-1) }, { "f", Doc::fp(1e39) }, { "i64", Doc::str("9223372036854775808") }, { "u64", Doc::str("-5") }, { "i8", Doc::str("300") } };
            auto& o = r.pick(os); *at(d, o.f) = o.d; return { o.f, "number out of range" };
        }
        case 5 : { auto x = r.pick<std::string>({ "n", "s", "v" }); f = r.pick<std::string>({ "in", "up" }); if(r.chance(50)) drop(*at(d, f), x); else rename(*at(d, f), x, r); return { f, "nested field absent" }; }
        case 6 : { f = "li"; auto& l = *at(d, f); auto& e = l.kids[r.below(l.kids.size())].second; if(r.chance(50)) drop(e, r.pick<std::string>({ "n", "s", "v" })); else *at(e, "n") = r.chance(50) ? scope(r) : no_number(r); return { f, "element which does not fit" }; }
        case 7 : { f = "m"; auto& l = *at(d, f); auto& e = l.kids[r.below(l.kids.size())].second; auto k = r.pick<std::string>({ "key", "value" }); if(r.chance(50)) drop(e, k); else rename(e, k, r); return { f, "map element without key or value" }; }
        case 8 : { f = "pr"; if(r.chance(30)) at(d, f)->k = Doc::Arr; else drop(*at(d, f), r.pick<std::string>({ "first", "second" })); return { f, "incomplete pair" }; }
        case 9 : { f = "tp"; auto& t = *at(d, f); if(r.chance(50)) t.kids.pop_back(); else { t.kids.erase(t.kids.begin() + (long)r.below(2)); } return { f, "tuple with too few elements" }; }
        case 10 : { f = "a3"; auto& t = *at(d, f); for(auto n = r.range(1, 3); n > 0; n--) t.kids.pop_back(); return { f, "array with too few elements" }; }
        case 11 : { f = "c6"; *at(d, f) = Doc::str(std::string(r.pick({ 6, 7, 100, 70000 }), 'x')); return { f, "text too long for its array" }; }
        case 12 : { f = "blob"; *at(d, f) = r.chance(50) ? Doc::str(r.pick<std::string>({ "a", "ab", "abc", "a=bc", "ab=c", "====", "abcde", "ab\xC3\xA4" , "ab c", "abc=def=" })) : r.chance(50) ? Doc::integer(3) : Doc::boolean(false); return { f, "no binary data" }; }
        case 13 : { f = "sp"; auto& s = *at(d, f); auto how = r.below(4); if(how == 0) drop(s, "srl_shared_key"); else if(how == 1) drop(s, "srl_shared_value"); else if(how == 2) drop(*at(s, "srl_shared_value"), "n"); else *at(s, "srl_shared_key") = r.chance(50) ? Doc::str("key") : Doc::integer(-1); return { f, "broken shared object" }; }
        case 14 : { f = "vi"; auto& v = *at(d, f); v.kids.insert(v.kids.begin() + (long)r.below(v.kids.size() + 1), { "", r.chance(50) ? no_number(r) : Doc::integer(1ll << 40) }); return { f, "element out of range" }; }
        default : { f = r.pick(conts); auto& v = *at(d, f); if(f == "st") { v.kids.insert(v.kids.begin() + (long)r.below(v.kids.size() + 1), { "", Doc::uinteger(~0ull) }); return { f, "element out of range" }; } (void)is_num; f = r.pick<std::string>({ "li", "m" }); auto& l = *at(d, f); l.kids[r.below(l.kids.size())].second = r.chance(50) ? Doc::obj() : Doc::obj().add("other", Doc::integer(1)); return { f, "empty element" }; }
    }
}

static const std::set<std::string> keeps { "i8", "u16", "i64", "u64", "f", "d", "b", "vi", "li", "m", "st" };

static void restore(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    zoo::ZOpt o; o.text = true; o.depth = 2; o.max = 6; o.big = false;
    Rec a; a.fill(r, o);
    Tree t; t.load_object(a);
    Doc good = walk(t.root()), bad = good;
    Broken x = spoil(r, bad);
    Doc canonical = canon(expected(canon(bad), f));
    // fields in another order are as good
    Tree w; build_root(w, bad, r);
    Buf b = encode(w, f), g = encode(t, f);
    Rec back, before; back.fill(r, o); { Buf s = with_parser(Fmt::PSrl, [&](Parser& p) { Tree q; return q.store(back, p); }); Tree q; q.restore<PSrl>(before, s); }
    static const char* routes[] = { "restore", "restore from stream", "load and paste", "load and unwrap", "unpack", "paste a field", "tree without bytes" };
    int route = (int)(idx / 4 % 7);
    std::string ctx = std::string(routes[route]) + ", " + name(f) + ", " + x.field + ": " + x.what, why;
    bool threw = false;
    Tree u;
    auto is_same = [&] { return same(canonical, walk(u.root()), &why); };
    auto refused = [&](const std::function<void()>& fn) {
        try { fn(); } catch(Srl::Exception& e) { threw = true; VCHECK(*e.what(), "refuse:message", ctx + ": an exception without a message"); count("refused"); return; }
        violation("refuse:accepted", ctx + ": accepted, document " + show(bad, 300));
    };
    Buf nested;
    switch(route) {
        case 0 : refused([&] { with_parser(f, [&](Parser& p) { u.restore(back, b, p); return 0; }); }); break;
        case 1 : { ChunkBuf cb(b, r.pick({ 0, 1, 100 }), r.u64()); std::istream is(&cb); refused([&] { with_parser(f, [&](Parser& p) { u.restore(back, is, p); return 0; }); }); break; }
        case 2 : decode(u, b, f); refused([&] { u.root().paste(back); }); VCHECK(is_same(), "refuse:tree-changed", ctx + ": " + why); break;
        case 3 : decode(u, b, f); refused([&] { Rec z = u.root().unwrap<Rec>(); }); VCHECK(is_same(), "refuse:tree-changed", ctx + ": " + why); break;
        case 4 : case 5 : {
            Tree n; n.root().insert("first", 1, "rec", w.root(), "last", 2); nested = encode(n, f);
            if(route == 4) { int first = 0, last = 0; refused([&] { with_parser(f, [&](Parser& p) { u.unpack(nested, p, "first", first, "rec", back, "last", last); return 0; }); }); VCHECK(first == 1 && last == 0, "refuse:order", ctx + ": fields around the refused one"); }
            else { decode(u, nested, f); Doc was = walk(u.root()); refused([&] { u.root().paste_field("rec", back); }); VCHECK(same(was, walk(u.root()), &why), "refuse:tree-changed", ctx + ": " + why); }
            break;
        }
        case 6 : { Doc was = walk(w.root()); refused([&] { w.root().paste(back); }); VCHECK(same(was, walk(w.root()), &why), "refuse:tree-changed", ctx + ": " + why); break; }
    }
    // the field that was refused still has what it had
    if(route != 3 && keeps.count(x.field)) {
        bool kept = true;
#define F(T, n) if(x.field == #n) kept = zoo::eq(back.n, before.n, why);
        NUMS(F) CONT(F)
#undef F
        VCHECK(kept, "refuse:target-changed", ctx + ": the field was changed all the same: " + why);
        count("targets compared");
    }
    // the same tree takes the right document, into the same object
    with_parser(f, [&](Parser& p) { u.restore(back, g, p); return 0; });
    VCHECK(a.equal(back, why), "refuse:afterwards", ctx + ", then the right document: " + why);
    count("accepted afterwards"); count("kind: " + x.what);
    distinct(hash_bytes(b.data(), b.size(), (uint64_t)route));
    if(idx < 60) sample(ctx);
}

// lookups in any tree: what is not there, or is something else, is refused
static void lookups(Rng& r, uint64_t)
{
    GenOpt o; o.depth = 3; o.budget = 15; o.max_str = 100; o.dup_names = false; o.finite = true; o.big = false;
    Doc d = gen_doc(r, o); d.k = Doc::Obj;
    std::set<std::string> used; Doc e = Doc::obj(); int n = 0;
    for(auto& k : d.kids) e.add(used.insert(k.first).second && k.first.size() ? k.first : "u" + std::to_string(n++), k.second);
    d = canon(e);
    Tree t; build_root(t, d, r);
    Fmt f = r.pick(all_formats);
    bool parsed = r.chance(60);
    if(parsed) { Buf b = encode(t, f); decode(t, b, f); d = canon(expected(d, f)); }
    auto refused = [&](const char* what, const std::function<void()>& fn) { try { fn(); } catch(Srl::Exception&) { count("refused"); return; } violation("lookup:accepted", std::string(what) + " in " + show(d, 300)); };
    std::string none = gen_name(r) + "\x01none";
    int i = 4711; std::string s = "keep"; std::vector<int> v { 1 }; In in; in.n = 5; Union u;
    Node& root = t.root();
    refused("unwrap_field of an absent name", [&] { root.unwrap_field<int>(none); });
    refused("paste_field of an absent name", [&] { root.paste_field(none, s); });
    refused("paste_field of an absent scope", [&] { root.paste_field(none, v); });
    refused("paste of an absent name", [&] { root.paste(none, i); });
    refused("Tree::get of an absent name", [&] { t.get(none); });
    refused("paste_field of an absent Union", [&] { root.paste_field(none, u); });
    VCHECK(!t.try_get(none) && !u.is_node() && !u.is_value(), "lookup:try_get", "try_get of an absent name");
    refused("paste_field of an index out of bounds", [&] { root.paste_field(root.num_values() + r.below(3), i); });
    refused("unwrap_field of an index out of bounds", [&] { root.unwrap_field<std::vector<int>>(root.num_nodes() + r.below(3)); });
    for(auto& k : d.kids) {
        if(k.second.scope()) {
            refused("a number out of a scope", [&] { root.unwrap_field<int>(k.first); }); refused("a string out of a scope", [&] { root.paste_field(k.first, s); });
            if(k.second.k == Doc::Arr) { Lib::HTable<std::string, int> h; refused("a table out of an array", [&] { root.paste_field(k.first, h); }); std::pair<int, int> p; refused("a pair out of an array", [&] { root.paste_field(k.first, p); }); }
            refused("a struct out of another scope", [&] { Node& x = root.node(k.first); if(x.has_value("n") && x.has_value("s") && x.has_node("v")) throw Srl::Exception("fits"); In part; root.paste_field(k.first, part); });       // fields read before the one which is not there are set
        } else {
            refused("a container out of a value", [&] { root.unwrap_field<std::vector<int>>(k.first); });
            refused("a struct out of a value", [&] { root.paste_field(k.first, in); });
            refused("a node out of a value", [&] { root.node(k.first); });
            if(k.second.k == Doc::Bin) refused("a number out of binary data", [&] { root.paste_field(k.first, i); });
            if(k.second.k == Doc::Bool || k.second.k == Doc::Int || k.second.k == Doc::Fp) { char16_t c = 'c'; Bytes by; refused("a character out of a number", [&] { root.paste_field(k.first, c); }); refused("binary data out of a number", [&] { root.paste_field(k.first, by); }); }
            if(k.second.k == Doc::Str && k.second.s.size() > 1) { char c = 'c'; char two[2] = "x"; refused("a character out of a longer string", [&] { root.paste_field(k.first, c); }); refused("an array out of a longer string", [&] { root.paste_field(k.first, two); }); VCHECK(c == 'c' && two[0] == 'x', "lookup:target", "the target of a refused character changed"); }
        }
    }
    VCHECK(i == 4711 && s == "keep" && v == std::vector<int> { 1 } && in.n == 5, "lookup:target", "the target of a refused lookup changed");
    std::string w;
    VCHECK(same(d, walk(root), &w), "lookup:tree-changed", "refused lookups changed the tree: " + w);
    distinct(vf::hash(d));
}

// a class that tries fields which are not there (or are scopes where it wants values) and goes on: the fields around them are restored
struct Tolerant {
    const Doc* d = nullptr; const Doc* outer = nullptr; Rng* r = nullptr; std::string ctx;
    static bool has(const Doc& d, const std::string& n) { for(auto& k : d.kids) if(k.first == n) return true; return false; }
    void refused(const char* what, const std::function<void()>& fn)
    {
        try { fn(); } catch(Srl::Exception&) { count("tried"); return; }
        violation("tolerant:accepted", ctx + ": " + what + " in " + show(*d, 200));
    }
    void absent(Node& n)
    {
        std::string nm = outer && outer->kids.size() && r->chance(60) ? r->pick(outer->kids).first : r->chance(40) ? r->pick<std::string>({ "n", "s", "v", "kids" }) : gen_name(*r) + "\x01none";
        if(has(*d, nm) || nm.empty()) nm += "\x01";
        if(has(*d, nm)) return;
        Name name(nm, *r); int i = 1; std::string s = "keep"; std::vector<int> v { 1 }; In in; in.n = 5; std::unique_ptr<In> up; std::shared_ptr<In> sp; Union u; std::map<std::string, int> m { { "a", 1 } };
        switch(r->below(8)) {
            case 0 : refused("absent number", [&] { n.paste_field(name.str(), i); }); break;
            case 1 : refused("absent string", [&] { n.paste_field(name.str(), s); }); break;
            case 2 : refused("absent vector", [&] { n.paste_field(name.str(), v); }); break;
            case 3 : refused("absent object", [&] { n.paste_field(name.str(), in); }); break;
            case 4 : refused("absent pointer", [&] { n.paste_field(name.str(), up); }); break;
            case 5 : refused("absent shared object", [&] { n.paste_field(name.str(), sp); }); break;
            case 6 : refused("absent union", [&] { n.paste_field(name.str(), u); }); break;
            case 7 : refused("absent map", [&] { n.paste_field(name.str(), m); }); break;
        }
        VCHECK(i == 1 && s == "keep" && v.size() == 1 && in.n == 5 && !up && !sp && m.size() == 1 && !u.is_node() && !u.is_value(), "tolerant:target", ctx + ": the target of an absent field was changed");
    }
    void srl_resolve(Context& c)
    {
        Node& n = c.node();
        std::vector<size_t> at(d->kids.size()); for(size_t i = 0; i < at.size(); i++) at[i] = i;
        if(r->chance(50)) r->shuffle(at);
        for(auto i : at) {
            auto& nm = d->kids[i].first; auto& k = d->kids[i].second; Name name(nm, *r); std::vector<uint32_t> cp;
            if(r->chance(25)) absent(n);
            if(k.scope() && r->chance(15)) refused("a number out of a scope", [&] { int x; n.paste_field(name.str(), x); });
            if(!k.scope() && k.k != Doc::Null && r->chance(15)) refused("an object out of a value", [&] { In x; n.paste_field(name.str(), x); });
            if(r->chance(20)) continue;
            if(k.k == Doc::Obj) { Tolerant t; t.d = &k; t.outer = d; t.r = r; t.ctx = ctx + "/" + show(nm); n.paste_field(name.str(), t); count("scopes restored all the same"); }
            else if(k.k == Doc::Int && k.mag <= INT64_MAX) { int64_t v = 0; n.paste_field(name.str(), v); VCHECK(v == (k.neg ? -(int64_t)k.mag : (int64_t)k.mag), "tolerant:content", ctx + ": another number under " + show(nm)); count("values restored all the same"); }
            else if(k.k == Doc::Str && utf8_decode(k.s, cp)) { std::string v; n.paste_field(name.str(), v); VCHECK(v == k.s, "tolerant:content", ctx + ": another text under " + show(nm)); count("values restored all the same"); }
        }
        if(r->chance(40)) absent(n);
    }
};
static Doc unique_names(const Doc& d)
{
    Doc o = d; o.kids.clear(); std::set<std::string> used;
    for(auto& k : d.kids) if(d.k == Doc::Arr) o.kids.push_back(k); else if(k.first.size() && used.insert(k.first).second) o.kids.emplace_back(k.first, k.second.k == Doc::Obj ? unique_names(k.second) : k.second);
    return o;
}
static void tolerant(Rng& r, uint64_t)
{
    GenOpt o; o.depth = 4; o.budget = 25; o.max_str = 200; o.dup_names = false; o.finite = true; o.big = false;
    Doc d = gen_doc(r, o); d.k = Doc::Obj; for(size_t i = 0; i < d.kids.size(); i++) if(d.kids[i].first.empty()) d.kids[i].first = "u" + std::to_string(i);
    d = unique_names(d);
    Fmt f = r.pick(all_formats); Tree t; build_root(t, d, r); Buf b = encode(t, f); Tree ref; decode(ref, b, f); Doc m = walk(ref.root());
    Tolerant x; x.d = &m; x.r = &r; x.ctx = name(f); Tree u; int way = (int)r.below(4); Exact e(b); ChunkBuf cb(b, r.pick({ 0, 1, 100 }), r.u64()); std::istream is(&cb);
    try {
        with_parser(f, [&](Parser& p) {
            if(way == 0) u.restore(x, e.p, e.n, p); else if(way == 1) u.restore(x, is, p); else if(way == 2) ref.root().paste(x); else { Tree v; v.root().insert("pre", 1, "x", ref.root(), "post", 2); Buf w = encode(v, f); int post = 0; u.unpack(w, p, "x", x, "post", post); VCHECK(post == 2, "tolerant:content", "the field behind"); }
        });
    } catch(Srl::Exception& y) { violation("tolerant:refused", x.ctx + ", way " + std::to_string(way) + ": " + y.what() + " of " + show(d, 300)); }
    std::string w; if(way == 2) VCHECK(same(m, walk(ref.root()), &w), "tolerant:tree-changed", w);
    distinct(vf::hash(d));
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P14", {
        { "tolerant", 12000, 500000, tolerant },
        { "restore", 11200, 500000, restore },
        { "lookups", 6000, 250000, lookups },
    });
}
