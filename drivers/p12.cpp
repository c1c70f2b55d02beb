// P12: objects held by base class pointers come back as what they were; nothing else is created from a class identifier.
#include "poly.h"
using namespace vf; using namespace Srl; using poly::Shape;

struct Scene {
    std::vector<std::unique_ptr<Shape>> all; std::unique_ptr<Shape> one; std::shared_ptr<Shape> shared, same; Shape* raw = nullptr;
    std::map<std::string, std::shared_ptr<Shape>> named; std::list<std::shared_ptr<Shape>> list; std::pair<std::string, std::shared_ptr<Shape>> pair; 
    std::unique_ptr<poly::Square> exact;         // held as what it is
    Scene() { } Scene(const Scene&) = delete; ~Scene() { delete raw; }
    Scene(Scene&& o) : all(std::move(o.all)), one(std::move(o.one)), shared(std::move(o.shared)), same(std::move(o.same)), raw(o.raw), named(std::move(o.named)), list(std::move(o.list)), pair(std::move(o.pair)), exact(std::move(o.exact)) { o.raw = nullptr; }
    void srl_resolve(Context& c) { c("all", all)("one", one)("shared", shared)("raw", raw)("named", named)("same", same)("list", list)("pair", pair)("exact", exact); }
    void fill(Rng& r, const zoo::ZOpt& o)
    {
        int d = (int)r.below(3);
        for(auto n = r.below(5); n > 0; n--) all.emplace_back(poly::make(r, o, d));
        one.reset(poly::make(r, o, d)); shared.reset(poly::make(r, o, d)); same = r.chance(60) ? shared : std::shared_ptr<Shape>(poly::make(r, o, 0));
        raw = poly::make(r, o, d);
        for(auto n = r.below(4); n > 0; n--) named["n" + std::to_string(n)].reset(poly::make(r, o, d));
        for(auto n = r.below(4); n > 0; n--) { if(r.chance(40)) list.push_back(shared); else list.emplace_back(poly::make(r, o, d)); }
        pair.first = gen_text(r, 20); pair.second.reset(poly::make(r, o, 0));
        exact.reset(new poly::Square()); exact->fill(r, o, 0);
    }
    bool equal(Scene& o, std::string& w)
    {
        if(all.size() != o.all.size() || named.size() != o.named.size() || list.size() != o.list.size()) { w = "number of elements"; return false; }
        for(size_t i = 0; i < all.size(); i++) if(!poly::equal(all[i].get(), o.all[i].get(), w)) return false;
        for(auto& n : named) { if(!o.named.count(n.first)) { w = "element lost"; return false; } if(!poly::equal(n.second.get(), o.named[n.first].get(), w)) return false; }
        for(auto x = list.begin(), y = o.list.begin(); x != list.end(); ++x, ++y) { if(!poly::equal(x->get(), y->get(), w)) return false; if((*x == shared) != (*y == o.shared)) { w = "sharing changed"; return false; } }
        if((shared == same) != (o.shared == o.same)) { w = "sharing changed"; return false; }
        return poly::equal(one.get(), o.one.get(), w) && poly::equal(shared.get(), o.shared.get(), w) && poly::equal(same.get(), o.same.get(), w) && poly::equal(raw, o.raw, w)
            && pair.first == o.pair.first && poly::equal(pair.second.get(), o.pair.second.get(), w) && poly::equal(exact.get(), o.exact.get(), w);
    }
};

static void balance(int64_t before, const char* what) { VCHECK(poly::live == before, "poly:leak", std::string(what) + ": " + std::to_string(poly::live - before) + " objects are left over"); }

static void scenes(Rng& r, uint64_t idx)
{
    int64_t before = poly::live;
    {
        static const char* routes[] = { "bytes", "stream", "load_object>to_source>restore", "load_source>paste", "load_object>unwrap", "into a used object", "pack" };
        Fmt f = all_formats[idx % 4];
        int route = (int)(idx / 4 % 7);
        zoo::ZOpt o; o.text = is_json(f); o.depth = 1; o.max = 6; o.big = r.chance(10);
        Scene s; s.fill(r, o);
        std::string ctx = std::string(routes[route]) + ", " + name(f), w;
        count(std::string("route ") + routes[route]);
        auto check = [&](Scene& b) {
            count("scenes compared"); count("objects alive", (uint64_t)(poly::live - before));
            if(!s.equal(b, w)) violation("poly:content", ctx + ": " + w);
        };
        Tree t; Scene back; Buf b;
        switch(route) {
            case 0 : b = with_parser(f, [&](Parser& p) { return t.store(s, p); }); with_parser(f, [&](Parser& p) { t.restore(back, b, p); return 0; }); check(back); break;
            case 1 : {
                std::stringstream ss;
                with_parser(f, [&](Parser& p) { t.store(s, static_cast<std::ostream&>(ss), p); return 0; });
                auto x = ss.str(); b.assign(x.begin(), x.end());
                ChunkBuf cb(b, r.pick({ 0, 0, 1, 1000 }), r.u64()); std::istream is(&cb);
                with_parser(f, [&](Parser& p) { t.restore(back, is, p); return 0; });
                check(back);
                break;
            }
            case 2 : { t.load_object(s); b = encode(t, f); Tree u; with_parser(f, [&](Parser& p) { u.restore(back, b, p); return 0; }); check(back); break; }
            case 3 : b = with_parser(f, [&](Parser& p) { return t.store(s, p); }); decode(t, b, f); t.root().paste(back); check(back); break;
            case 4 : { t.load_object(s); b = encode(t, f); Scene u = t.root().unwrap<Scene>(); check(u); break; }
            case 5 : {
                Scene used; zoo::ZOpt q = o; q.big = false; used.fill(r, q);
                b = with_parser(f, [&](Parser& p) { return t.store(s, p); });
                Buf c = with_parser(f, [&](Parser& p) { return t.store(s, p); });
                VCHECK(b == c, "poly:not-deterministic", ctx + ": storing twice gives different bytes");
                with_parser(f, [&](Parser& p) { t.restore(used, b, p); return 0; });
                check(used);
                break;
            }
            case 6 : {
                with_parser(f, [&](Parser& p) { t.pack(b, p, "n", 1, "s", s, "x", s.one); return 0; });
                std::unique_ptr<Shape> x; int n = 0;
                with_parser(f, [&](Parser& p) { t.unpack(b, p, "n", n, "s", back, "x", x); return 0; });
                check(back);
                if(!poly::equal(s.one.get(), x.get(), w)) violation("poly:content", ctx + ": " + w);
                break;
            }
        }
        distinct(hash_bytes(b.data(), b.size(), (uint64_t)f));
        if(idx < 30) sample(ctx + ", " + std::to_string(b.size()) + " bytes");
    }
    balance(before, "scenes");
}

// single pieces out of a tree, by every kind of pointer
static void pieces(Rng& r, uint64_t)
{
    int64_t before = poly::live;
    {
        Fmt f = r.pick(all_formats);
        zoo::ZOpt o; o.text = is_json(f); o.depth = 1; o.max = 6; o.big = false;
        Scene s; s.fill(r, o);
        Tree t; t.load_object(s);
        if(r.chance(70)) { Buf b = encode(t, f); decode(t, b, f); }
        std::string w;
        auto& all = t.root().node("all");
        for(size_t i = 0; i < s.all.size(); i++) {
            auto u = all.node(i).unwrap<std::unique_ptr<Shape>>();
            std::unique_ptr<Shape> raw(all.node(i).unwrap<Shape*>());
            auto g = all.get(i).unwrap<std::unique_ptr<Shape>>();
            std::unique_ptr<Shape> pasted(new poly::Circle());
            all.node(i).paste(pasted);
            for(auto* p : { u.get(), raw.get(), g.get(), pasted.get() }) { count("pieces compared"); if(!poly::equal(s.all[i].get(), p, w)) violation("poly:piece", std::string(name(f)) + ": " + w); }
        }
        auto f1 = t.root().unwrap_field<std::unique_ptr<Shape>>("one");
        if(!poly::equal(s.one.get(), f1.get(), w)) violation("poly:piece", w);
        // the object without a pointer, as its own class
        poly::Square sq; t.root().paste_field("exact", sq);
        if(!poly::equal(s.exact.get(), &sq, w)) violation("poly:piece", w);
        distinct(hash(walk(t.root())));
    }
    balance(before, "pieces");
}

static std::vector<Doc*> typed(Doc& d)
{
    std::vector<Doc*> v;
    for(auto& k : d.kids) { if(k.first == "srl_type_id") v.push_back(&k.second); auto s = typed(k.second); v.insert(v.end(), s.begin(), s.end()); }
    return v;
}

// the identifier decides: foreign, unknown, missing and mistyped ones are refused, and nothing is left behind
static void identifiers(Rng& r, uint64_t)
{
    int64_t before = poly::live;
    {
        Fmt f = r.pick(all_formats);
        zoo::ZOpt o; o.text = true; o.depth = 1; o.max = 4; o.big = false;
        Scene s; s.fill(r, o);
        Tree t; t.load_object(s);
        Doc d = canon(expected(walk(t.root()), f));
        auto ids = typed(d);
        Doc* id = r.pick(ids);
        std::string was = id->s;
        int how = (int)r.below(5);
        switch(how) {
            case 0 : *id = Doc::str("Other"); break;                           // registered, but of another kind
            case 1 : *id = Doc::str(r.chance(50) ? "unknown" : was.substr(0, was.size() - 1)); break;
            case 2 : *id = Doc::str(""); break;
            case 3 : *id = r.chance(50) ? Doc::uinteger(r.u64()) : Doc::null(); break;
            case 4 : *id = Doc::str(was + std::string(1, '\0')); break;
        }
        Tree u; build_root(u, d, r);
        Buf b = encode(u, f);
        Scene back;
        bool threw = false;
        std::string what;
        try {
            if(r.chance(50)) with_parser(f, [&](Parser& p) { Tree x; x.restore(back, b, p); return 0; });
            else { Tree x; decode(x, b, f); x.root().paste(back); }
        } catch(Srl::Exception& e) { threw = true; what = e.what(); }
        count("identifiers refused", threw); count(std::string("identifier kind ") + std::to_string(how));
        distinct(hash_bytes(b.data(), b.size(), (uint64_t)f));
        VCHECK(threw, "poly:identifier", std::string(name(f)) + ": an object of class " + was + " whose identifier was replaced by " + show(*id) + " was restored all the same");
    }
    balance(before, "identifiers");
}

// objects of every class, one field at a time: exactly the identifier that was registered is written
static void written(Rng& r, uint64_t)
{
    zoo::ZOpt o; o.text = true; o.depth = 1; o.max = 4; o.big = false;
    Fmt f = r.pick(all_formats);
    std::vector<std::unique_ptr<Shape>> v;
    for(auto n = r.range(1, 6); n > 0; n--) v.emplace_back(poly::make(r, o, 0));
    Tree t;
    Buf b = with_parser(f, [&](Parser& p) { return t.store(v, p); });
    Doc d = is_json(f) ? json_parse(std::string(b.begin(), b.end())) : f == Fmt::MsgPack ? mp_parse(b) : psrl_parse(b);
    VCHECK(d.k == Doc::Arr && d.kids.size() == v.size(), "poly:written", "number of elements");
    for(size_t i = 0; i < v.size(); i++) {
        auto& k = d.kids[i].second;
        uint64_t n = 0;
        for(auto& c : k.kids) if(c.first == "srl_type_id") { n++; VCHECK(c.second.k == Doc::Str && c.second.s == v[i]->srl_type_id().name(), "poly:written", "class identifier " + show(c.second)); }
        VCHECK(n == 1, "poly:written", std::to_string(n) + " class identifiers in one object");
        count("identifiers written");
    }
}

// an empty plain pointer to a base class has no class to write: it is refused and nothing remains of it (an empty shared one is null)
struct Plain { int32_t a = 1; Shape* p = nullptr; std::unique_ptr<Shape> u; std::shared_ptr<Shape> s; void srl_resolve(Context& c) { c("a", a)("u", u)("s", s)("p", p); } };
static void empty(Rng& r, uint64_t)
{
    zoo::ZOpt o; o.text = true; o.depth = 1; o.max = 4; o.big = false;
    Fmt f = r.pick(all_formats); auto before = poly::live; std::string w;
    {
        Plain x; bool owned = r.chance(50); if(!owned) x.u.reset(poly::make(r, o, 1)); if(r.chance(50)) x.s.reset(poly::make(r, o, 1));
        std::unique_ptr<Shape> full(poly::make(r, o, 1));
        Tree t; int how = (int)r.below(3);
        with_parser(f, [&](Parser& p) {
            bool threw = false;
            try { if(how == 0) t.store(x, p); else if(how == 1) { std::ostringstream s; t.store(x, s, p); } else t.load_object(x); } catch(Srl::Exception&) { threw = true; }
            VCHECK(threw, "poly:empty", std::string(name(f)) + ": an empty pointer to a base class was stored");
            x.p = full.get(); if(!x.u) x.u.reset(poly::make(r, o, 1)); Plain y; if(r.chance(50)) y.u.reset(poly::make(r, o, 1)); if(r.chance(50)) y.s.reset(poly::make(r, o, 1)); if(r.chance(50)) y.p = poly::make(r, o, 1);
            Buf b = t.store(x, p); t.restore(y, b, p);
            VCHECK(!x.u == !y.u && !x.s == !y.s && y.p && poly::equal(x.p, y.p, w) && (!x.u || poly::equal(x.u.get(), y.u.get(), w)) && (!x.s || poly::equal(x.s.get(), y.s.get(), w)), "poly:empty", std::string(name(f)) + ": after a refusal: " + w);
            delete y.p; y.p = nullptr;
            return 0;
        });
        count("empty pointers refused");
    }
    balance(before, "empty");
}

// an identifier belongs to one class
static void registering(Rng& r, uint64_t)
{
    bool threw = false;
    auto id = r.pick(poly::ids);
    try { Srl::register_type<poly::Other>(id.c_str()); } catch(Srl::Exception&) { threw = true; }
    VCHECK(threw, "poly:duplicate", "the identifier " + id + " was registered a second time");
    count("duplicate registrations refused");
    // and the first registration still stands
    Tree t; std::vector<std::unique_ptr<Shape>> v, w; zoo::ZOpt o; o.text = true; std::string why;
    for(int i = 0; i < 6; i++) v.emplace_back(poly::make(r, o, 0));
    Buf b = t.store<PJson>(v); t.restore<PJson>(w, b);
    for(int i = 0; i < 6; i++) if(!poly::equal(v[i].get(), w[i].get(), why)) violation("poly:duplicate", why);
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P12", {
        { "scenes", 5600, 250000, scenes },
        { "pieces", 2400, 100000, pieces },
        { "identifiers", 5000, 250000, identifiers },
        { "written", 2000, 50000, written },
        { "empty", 1200, 20000, empty },
        { "registering", 40, 400, registering },
    });
}
