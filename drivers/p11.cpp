// P11: objects which are shared come back as one object: the graph of references is preserved, every object is written
// once, and who owns what after restoring is what it was before storing.
#include "zoo.h"
using namespace vf; using namespace Srl;

static int64_t live = 0;
struct G {
    int32_t id = 0; std::string label;
    std::vector<std::shared_ptr<G>> out; std::map<std::string, std::shared_ptr<G>> named; std::shared_ptr<G> direct, direct2;
    std::weak_ptr<G> watch; std::shared_ptr<std::string> text; std::shared_ptr<std::vector<int32_t>> data; std::unique_ptr<G> own;
    std::list<std::tuple<std::string, std::shared_ptr<std::string>>> texts;
    bool has_watch = false;
    G() { live++; } ~G() { live--; } G(const G&) = delete;
    void srl_resolve(Context& c)
    {
        c("id", id)("out", out)("label", label)("direct", direct)("named", named)("text", text)("direct2", direct2)("data", data)("own", own)("texts", texts)("has_watch", has_watch);
        if(has_watch) c("watch", watch);
    }
};

struct World { std::shared_ptr<G> root; uint64_t edges = 0; };

// references lead to later members only, so that there are no cycles
static World make(Rng& r, size_t n, bool weak)
{
    World w;
    std::vector<std::shared_ptr<G>> pool;
    std::vector<std::shared_ptr<std::string>> texts; std::vector<std::shared_ptr<std::vector<int32_t>>> datas;
    for(auto k = r.range(1, 4); k > 0; k--) { texts.push_back(std::make_shared<std::string>(gen_text(r, 60))); datas.push_back(std::make_shared<std::vector<int32_t>>(r.below(6), (int32_t)r.u64())); }
    for(size_t i = 0; i < n; i++) { pool.push_back(std::make_shared<G>()); pool[i]->id = (int32_t)i; pool[i]->label = gen_text(r, 20); }
    auto later = [&](size_t i) { return pool[i + 1 + r.below(std::min<size_t>(n - i - 1, r.chance(50) ? 4 : n))]; };
    for(size_t i = 0; i < n; i++) {
        auto& g = *pool[i];
        if(r.chance(60)) g.text = r.pick(texts);
        if(r.chance(60)) g.data = r.pick(datas);
        for(auto k = r.below(3); k > 0; k--) g.texts.emplace_back("t" + std::to_string(k), r.pick(texts));
        if(i + 1 >= n) continue;
        for(auto k = r.below(4); k > 0; k--) { g.out.push_back(later(i)); w.edges++; }
        for(auto k = r.below(3); k > 0; k--) { g.named["e" + std::to_string(r.below(9))] = later(i); w.edges++; }
        if(r.chance(60)) { g.direct = later(i); w.edges++; }
        if(r.chance(40)) { g.direct2 = r.chance(50) && g.direct ? g.direct : later(i); w.edges++; }
        if(r.chance(20)) { g.own.reset(new G()); g.own->id = -(int32_t)i; g.own->direct = later(i); g.own->out = { later(i), g.own->direct }; w.edges += 3; }
    }
    // a weak reference to something the same member also owns, so that its end does not depend on where it is read first
    if(weak) for(size_t i = 0; i < n; i++) { auto& g = *pool[i]; if(g.direct && r.chance(50)) { g.watch = g.direct; g.has_watch = true; w.edges++; } }
    w.root = pool[0];
    return w;
}

struct Iso {
    std::map<const void*, const void*> ab, ba; std::string w; uint64_t objects = 0, aliases = 0;
    bool pair(const void* a, const void* b, bool& first)
    {
        auto x = ab.find(a), y = ba.find(b);
        first = x == ab.end() && y == ba.end();
        if(first) { ab[a] = b; ba[b] = a; objects++; return true; }
        aliases++;
        if(x == ab.end() || y == ba.end() || x->second != b) { w = x == ab.end() ? "two objects became one" : "one object became two"; return false; }
        return true;
    }
    template<class T> bool leaf(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b, const char* what)
    {
        if(!a != !b) { w = std::string(what) + (a ? " lost" : " appeared"); return false; }
        if(!a) return true;
        bool f;
        if(!pair(a.get(), b.get(), f)) { w = std::string(what) + ": " + w; return false; }
        if(*a != *b) { w = std::string(what) + " changed"; return false; }
        if(a.use_count() != b.use_count()) { w = std::string(what) + " has " + std::to_string(b.use_count()) + " owners instead of " + std::to_string(a.use_count()); return false; }
        return true;
    }
    bool same(G& a, G& b)
    {
        if(a.id != b.id || a.label != b.label || a.has_watch != b.has_watch) { w = "content of " + std::to_string(a.id) + " changed to " + std::to_string(b.id); return false; }
        if(a.out.size() != b.out.size() || a.named.size() != b.named.size() || a.texts.size() != b.texts.size() || !a.own != !b.own) { w = "number of references"; return false; }
        for(size_t i = 0; i < a.out.size(); i++) if(!node(a.out[i], b.out[i])) return false;
        for(auto& n : a.named) { auto f = b.named.find(n.first); if(f == b.named.end()) { w = "reference lost"; return false; } if(!node(n.second, f->second)) return false; }
        if(!node(a.direct, b.direct) || !node(a.direct2, b.direct2) || !leaf(a.text, b.text, "string") || !leaf(a.data, b.data, "vector")) return false;
        for(auto x = a.texts.begin(), y = b.texts.begin(); x != a.texts.end(); ++x, ++y) if(std::get<0>(*x) != std::get<0>(*y) || !leaf(std::get<1>(*x), std::get<1>(*y), "string in a tuple")) return false;
        if(a.has_watch && (a.watch.lock() != a.direct || b.watch.lock() != b.direct)) { w = "a weak reference points elsewhere"; return false; }
        return !a.own || same(*a.own, *b.own);
    }
    bool node(const std::shared_ptr<G>& a, const std::shared_ptr<G>& b)
    {
        if(!a != !b) { w = a ? "reference lost" : "reference appeared"; return false; }
        if(!a) return true;
        bool f;
        if(!pair(a.get(), b.get(), f)) return false;
        if(a.use_count() != b.use_count()) { w = "object " + std::to_string(a->id) + " has " + std::to_string(b.use_count()) + " owners instead of " + std::to_string(a.use_count()); return false; }
        return !f || same(*a, *b);
    }
};

// every shared object is spelled out exactly once
static void shared_in(const Doc& d, std::map<uint64_t, uint64_t>& defs, std::map<uint64_t, uint64_t>& refs)
{
    if(d.k == Doc::Obj) {
        const Doc* key = nullptr; bool val = false;
        for(auto& k : d.kids) { if(k.first == "srl_shared_key") key = &k.second; if(k.first == "srl_shared_value") val = true; }
        if(key) (val ? defs : refs)[key->mag]++;
    }
    for(auto& k : d.kids) shared_in(k.second, defs, refs);
}

static Doc parsed(const Buf& b, Fmt f)
{
    return is_json(f) ? json_parse(std::string(b.begin(), b.end())) : f == Fmt::MsgPack ? mp_parse(b) : psrl_parse(b);
}

static void written(const Buf& b, Fmt f, uint64_t objects, const char* ctx)
{
    std::map<uint64_t, uint64_t> defs, refs;
    shared_in(parsed(b, f), defs, refs);
    uint64_t n = 0;
    for(auto& d : defs) { VCHECK(d.second == 1, "shared:written-twice", std::string(ctx) + ": a shared object is written " + std::to_string(d.second) + " times"); n++; }
    for(auto& x : refs) VCHECK(defs.count(x.first), "shared:never-written", std::string(ctx) + ": a reference to an object that is not in the document");
    VCHECK(n == objects, "shared:count", std::string(ctx) + ": " + std::to_string(objects) + " shared objects, " + std::to_string(n) + " written");
    count("objects written", n); count("references written", refs.size());
}

struct Holder { std::shared_ptr<G> a; std::vector<std::shared_ptr<G>> more; void srl_resolve(Context& c) { c("a", a)("more", more); } };

static const char* routes[] = { "bytes", "stream", "load_object>to_source>restore", "load_source>paste", "load_object>paste", "second store", "through another format", "field of a tree" };

static void graphs(Rng& r, uint64_t idx)
{
    int64_t before = live;
    {
        Fmt f = all_formats[idx % 4];
        int route = (int)(idx / 4 % 8);
        World w = make(r, r.range(1, 26), r.chance(50));
        Holder h, back;
        h.a = w.root;
        for(auto n = r.below(4); n > 0; n--) h.more.push_back(r.chance(50) ? w.root : w.root->direct ? w.root->direct : w.root);
        w.root.reset();
        std::string ctx = std::string(routes[route]) + ", " + name(f);
        if(r.chance(30)) { back.a = std::make_shared<G>(); back.more = { back.a, nullptr }; }
        std::vector<std::shared_ptr<G>> keep;       // what a restored object pointed to before lives on unchanged
        if(back.a) { keep.push_back(back.a); back.a->id = 4711; }
        Iso self; self.node(h.a, h.a); for(auto& m : h.more) self.node(m, m);
        Buf b;
        {
            std::unique_ptr<Tree> t(new Tree());
            switch(route) {
                case 0 : b = with_parser(f, [&](Parser& p) { return t->store(h, p); }); with_parser(f, [&](Parser& p) { t->restore(back, b, p); return 0; }); break;
                case 1 : {
                    std::stringstream s;
                    with_parser(f, [&](Parser& p) { t->store(h, static_cast<std::ostream&>(s), p); return 0; });
                    auto x = s.str(); b.assign(x.begin(), x.end());
                    ChunkBuf cb(b, r.pick({ 0, 0, 3, 1000 }), r.u64()); std::istream is(&cb);
                    with_parser(f, [&](Parser& p) { t->restore(back, is, p); return 0; });
                    break;
                }
                case 2 : t->load_object(h); b = encode(*t, f); with_parser(f, [&](Parser& p) { Tree u; u.restore(back, b, p); return 0; }); break;
                case 3 : b = with_parser(f, [&](Parser& p) { return t->store(h, p); }); decode(*t, b, f); t->root().paste(back); break;
                case 4 : t->load_object(h); b = encode(*t, f); t->root().paste(back); break;
                case 5 : {
                    b = with_parser(f, [&](Parser& p) { return t->store(h, p); });
                    Holder other; other.a = h.more.empty() ? h.a : h.more[0];
                    with_parser(f, [&](Parser& p) { return t->store(other, p); });
                    Buf c = with_parser(f, [&](Parser& p) { return t->store(h, p); });
                    VCHECK(b == c, "shared:second-store", ctx + ": storing again with the same tree gives other bytes");
                    with_parser(f, [&](Parser& p) { Tree u; u.restore(back, c, p); return 0; });
                    break;
                }
                case 6 : {
                    Fmt g = r.pick(all_formats);
                    b = with_parser(f, [&](Parser& p) { return t->store(h, p); });
                    decode(*t, b, f);
                    Buf c = encode(*t, g);
                    with_parser(g, [&](Parser& p) { Tree u; u.restore(back, c, p); return 0; });
                    break;
                }
                case 7 : {
                    t->root().insert("x", 1, "h", h, "again", h.a);
                    b = encode(*t, f);
                    Tree u; decode(u, b, f);
                    u.root().paste_field("h", back);
                    std::shared_ptr<G> again;
                    u.root().paste_field("again", again);
                    VCHECK(again == back.a, "shared:tree-fields", ctx + ": one object referred to by two fields of a tree became two");
                    break;
                }
            }
        }
        written(b, f, self.objects, ctx.c_str());
        Iso iso;
        bool ok = h.more.size() == back.more.size();
        if(!ok) iso.w = "number of references";
        ok = ok && iso.node(h.a, back.a);
        for(size_t i = 0; ok && i < h.more.size(); i++) ok = iso.node(h.more[i], back.more[i]);
        if(!ok) violation("shared:graph", ctx + ": " + iso.w);
        count("objects compared", iso.objects); count("aliases compared", iso.aliases); count(std::string("route ") + routes[route]);
        if(iso.aliases > 2) distinct(hash_bytes(b.data(), b.size(), (uint64_t)f));
        for(auto& k : keep) VCHECK(k->id == 4711 && k.use_count() == 1, "shared:previous", ctx + ": restoring changed the object the pointer referred to before");
        if(idx < 40) sample(ctx + ": " + std::to_string(iso.objects) + " objects, " + std::to_string(iso.aliases) + " aliases");
    }
    VCHECK(live == before, "shared:leak", "after everything is gone " + std::to_string(live - before) + " objects are left");
}

// several objects packed into one document share what they share
static void packed(Rng& r, uint64_t idx)
{
    int64_t before = live;
    {
        Fmt f = all_formats[idx % 4];
        World w = make(r, r.range(2, 16), false);
        auto a = w.root, a2 = a->direct ? a->direct : a;
        auto s = std::make_shared<std::string>(gen_text(r, 50)), s2 = s;
        Holder h { a2, { a } };
        Buf b;
        Tree t;
        with_parser(f, [&](Parser& p) { t.pack(b, p, "a", a, "s", s, "h", h, "s2", s2, "a2", a2); return 0; });
        std::shared_ptr<G> x, x2; std::shared_ptr<std::string> y, y2; Holder k;
        with_parser(f, [&](Parser& p) { Tree u; u.unpack(b, p, "a", x, "s", y, "h", k, "s2", y2, "a2", x2); return 0; });
        w.root.reset();
        Iso iso;
        VCHECK(iso.node(a, x) && iso.node(a2, x2) && iso.leaf(s, y, "string") && iso.leaf(s2, y2, "string") && iso.node(h.a, k.a) && k.more.size() == 1 && iso.node(h.more[0], k.more[0]),
               "shared:pack", std::string(name(f)) + ": packed values: " + iso.w);
        written(b, f, iso.objects, "pack");
        count("objects compared", iso.objects); count("aliases compared", iso.aliases);
    }
    VCHECK(live == before, "shared:leak", "after everything is gone " + std::to_string(live - before) + " objects are left");
}

// objects stored one after the other through one tree do not get mixed up, whatever happens to their memory in between
static void sequence(Rng& r, uint64_t idx)
{
    Tree t; std::vector<std::weak_ptr<std::string>> earlier;
    for(int i = 0; i < 6; i++) {
        Fmt f = r.pick(all_formats);
        auto p1 = std::make_shared<std::string>("object " + std::to_string(i));
        std::vector<std::shared_ptr<std::string>> v(r.range(1, 5), p1), q;
        if(r.chance(50)) v.push_back(std::make_shared<std::string>("other " + std::to_string(i)));
        Buf b = with_parser(f, [&](Parser& p) { return t.store(v, p); });
        bool one = r.chance(70); Tree u;
        with_parser(f, [&](Parser& p) {
            Tree& x = one ? t : u;
            switch(r.below(4)) {
                case 0 : { ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); x.restore(q, is, p); break; }
                case 1 : x.load_source(b, p); x.root().paste(q); break;
                case 2 : { ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); x.load_source(is, p); x.root().paste(q); break; }
                default : x.restore(q, b, p);
            }
            return 0;
        });
        VCHECK(q.size() == v.size(), "shared:sequence", "number of elements");
        for(size_t k = 0; k < v.size(); k++) {
            VCHECK(q[k] && *q[k] == *v[k], "shared:sequence", "object " + std::to_string(k) + " of document " + std::to_string(i) + " is not the one that was stored");
            VCHECK((q[k] == q[0]) == (v[k] == v[0]), "shared:sequence", "aliasing changed in document " + std::to_string(i));
        }
        count("documents in sequence");
        if(one) {       // the objects of the documents before this one belong to nobody anymore
            for(auto& e : earlier) VCHECK(e.expired(), "shared:kept", "a tree keeps the objects of an earlier document alive");
            count("earlier objects gone", earlier.size()); earlier.clear();
            for(auto& e : q) earlier.push_back(e);
        }
        if(r.chance(30)) { t.clear(); q.clear(); for(auto& e : earlier) VCHECK(e.expired(), "shared:kept", "a cleared tree keeps restored objects alive"); earlier.clear(); }
    }
}

// objects which are held no longer than it takes to insert them: others get their memory, and must not be taken for them
struct Slots {
    struct alignas(16) Slot { uint8_t bytes[256]; };
    static std::vector<std::unique_ptr<Slot>>& free() { static std::vector<std::unique_ptr<Slot>> f; return f; }
    static void* get() { if(free().empty()) return new Slot(); auto p = free().back().release(); free().pop_back(); return p; }
    static void put(void* p) { free().emplace_back(static_cast<Slot*>(p)); }
};
template<class T> struct SlotAlloc {
    typedef T value_type; SlotAlloc() { } template<class U> SlotAlloc(const SlotAlloc<U>&) { }
    T* allocate(size_t n) { static_assert(sizeof(T) <= 256, ""); if(n != 1) abort(); return static_cast<T*>(Slots::get()); }
    void deallocate(T* p, size_t) { Slots::put(p); }
    bool operator==(const SlotAlloc&) const { return true; } bool operator!=(const SlotAlloc&) const { return false; }
};
struct L { int64_t id = 0; std::string s; std::shared_ptr<std::string> inner; L() { live++; } ~L() { live--; } L(const L&) = delete; void srl_resolve(Context& c) { c("id", id)("s", s)("inner", inner); } };
template<class T> static std::shared_ptr<T> shared(Rng& r)
{
    if(r.chance(50)) { T* p = new (Slots::get()) T(); return std::shared_ptr<T>(p, [](T* x) { x->~T(); Slots::put(x); }); }      // its memory is free as soon as the object is gone
    return std::allocate_shared<T>(SlotAlloc<T>());
}
static void fill(L& x, Rng& r) { x.id = (int64_t)r.u64(); x.s = gen_text(r, 20); if(r.chance(40)) { x.inner = shared<std::string>(r); *x.inner = gen_text(r, 20); } }
static void fill(std::string& x, Rng& r) { x = gen_text(r, 40); }
static void fill(std::vector<int32_t>& x, Rng& r) { x.assign(r.below(9), (int32_t)r.u64()); }
struct Entry { std::string name; int kind; uint64_t object; std::string text; bool weak; };     // what was inserted: content as text
static std::string text(const L& x) { return std::to_string(x.id) + " " + x.s + " " + (x.inner ? "+" + *x.inner : "-"); }
static std::string text(const std::string& x) { return x; }
static std::string text(const std::vector<int32_t>& x) { std::string s; for(auto i : x) s += std::to_string(i) + ","; return s; }

// the script draws from its own random source, insert(name, pointer) is a tree, a context or whatever
template<class Ins> static void passing_script(uint64_t seed, std::vector<Entry>& log, const Ins& insert, uint64_t base = 0)
{
    Rng r(seed); uint64_t made = 0;
    std::tuple<std::vector<std::pair<std::shared_ptr<L>, uint64_t>>, std::vector<std::pair<std::shared_ptr<std::string>, uint64_t>>, std::vector<std::pair<std::shared_ptr<std::vector<int32_t>>, uint64_t>>> pools;
    static std::string lasting[2] = { "one", "two" };
    auto step = [&](auto& pool, int kind) {
        typedef typename std::decay<decltype(*pool[0].first)>::type T;
        size_t k = r.below(4);
        if(k < pool.size() && r.chance(40)) pool.erase(pool.begin() + k);         // somebody lets go
        std::pair<std::shared_ptr<T>, uint64_t> p;
        if(!pool.empty() && r.chance(40)) p = r.pick(pool);
        else { p = { shared<T>(r), ++made }; fill(*p.first, r); if(r.chance(40)) pool.push_back(p); }
        if constexpr (std::is_same<T, std::string>::value) if(r.chance(10)) { auto n = r.below(2); p = { std::shared_ptr<T>(std::shared_ptr<T>(), &lasting[n]), 1000000 + n }; }     // nobody owns it
        bool weak = p.first.use_count() > 0 && r.chance(20);
        auto name = "n" + std::to_string(log.size());
        log.push_back({ name, kind, p.second + base, text(*p.first), weak });
        if(weak) insert(name, std::weak_ptr<T>(p.first)); else insert(name, p.first);
    };
    for(auto n = r.range(2, 40); n > 0; n--) switch(r.below(3)) { case 0 : step(std::get<0>(pools), 0); break; case 1 : step(std::get<1>(pools), 1); break; default : step(std::get<2>(pools), 2); }
}
struct Passing {
    std::function<void(StoreContext&)> f; std::function<void(RestoreContext&)> g;
    void srl_store(StoreContext& c) const { f(c); } void srl_restore(RestoreContext& c) { g(c); }
};
template<class Paste> static void passed(const std::vector<Entry>& log, const Paste& paste, const std::string& ctx)
{
    std::map<uint64_t, const void*> objects; std::set<const void*> seen;
    std::vector<std::shared_ptr<void>> keep;
    for(size_t i = 0; i < log.size(); i++) {
        auto& e = log[i]; auto& name = e.name; const void* at = nullptr; std::string t;
        auto one = [&](auto p) { if(e.weak) { std::weak_ptr<typename decltype(p)::element_type> w; paste(name, w); p = w.lock(); } else paste(name, p); VCHECK(p, "shared:passing", ctx + ": nothing restored"); keep.push_back(p); at = p.get(); t = text(*p); };
        if(e.kind == 0) one(std::shared_ptr<L>()); else if(e.kind == 1) one(std::shared_ptr<std::string>()); else one(std::shared_ptr<std::vector<int32_t>>());
        VCHECK(t == e.text, "shared:passing", ctx + ": object " + std::to_string(i) + " has the content of another: " + vf::show(t) + " instead of " + vf::show(e.text));
        auto f = objects.find(e.object);
        if(f != objects.end()) { VCHECK(f->second == at, "shared:passing", ctx + ": one object became two"); count("aliases compared"); }
        else { VCHECK(!seen.count(at), "shared:passing", ctx + ": two objects became one"); objects[e.object] = at; seen.insert(at); }
        count("passing objects");
    }
}
static void passing(Rng& r, uint64_t idx)
{
    int64_t before = live;
    {
        Fmt f = all_formats[idx % 4]; uint64_t seed = r.u64(); std::vector<Entry> log; Buf b; Tree t; std::string ctx;
        auto paste = [](Tree& u) { return [&u](const std::string& n, auto& p) { u.root().paste_field(n, p); }; };
        Passing o, q;
        o.f = [&](StoreContext& c) { passing_script(seed, log, [&](const std::string& n, const auto& p) { c(n, p); }); };
        q.g = [&](RestoreContext& c) { passed(log, [&](const std::string& n, auto& p) { c(n, p); }, ctx); };
        switch(idx / 4 % 3) {
            case 0 : ctx = "tree"; passing_script(seed, log, [&](const std::string& n, const auto& p) { t.root().insert(n, p); }); b = encode(t, f); break;
            case 1 : ctx = "store"; b = with_parser(f, [&](Parser& p) { return t.store(o, p); }); break;
            default : ctx = "load_object"; t.load_object(o); b = encode(t, f);
        }
        VCHECK(live == before, "shared:kept", ctx + ": an object is kept alive by what was inserted");
        switch(r.below(3)) {
            case 0 : { Tree u; decode(u, b, f); passed(log, paste(u), ctx); break; }
            case 1 : { Tree u; with_parser(f, [&](Parser& p) { u.restore(q, b, p); return 0; }); break; }
            default : { ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); Tree u; with_parser(f, [&](Parser& p) { u.restore(q, is, p); return 0; }); }
        }
        if(log.size() > 4) distinct(hash_bytes(b.data(), b.size(), (uint64_t)f));
    }
    VCHECK(live == before, "shared:leak", "after everything is gone " + std::to_string(live - before) + " objects are left");
}

// objects added to a tree which was read from a document with shared objects of its own
static void added(Rng& r, uint64_t idx)
{
    int64_t before = live;
    {
        Fmt f = all_formats[idx % 4], g = r.pick(all_formats); std::vector<Entry> log; Tree t, u, v; std::string ctx = std::string("added to a document in ") + name(f);
        passing_script(r.u64(), log, [&](const std::string& n, const auto& p) { t.root().insert(n, p); });
        Buf b = encode(t, f); decode(u, b, f);
        for(auto n = r.range(1, 2); n > 0; n--) {
            passing_script(r.u64(), log, [&](const std::string& n, const auto& p) { u.root().insert(n, p); }, n * 10000000);
            if(n > 1) { Buf c = encode(u, f); decode(u, c, f); }
        }
        Buf c = encode(u, g);
        Passing q; q.g = [&](RestoreContext& x) { passed(log, [&](const std::string& n, auto& p) { x(n, p); }, ctx); };
        if(r.chance(50)) { decode(v, c, g); passed(log, [&](const std::string& n, auto& p) { v.root().paste_field(n, p); }, ctx); }
        else with_parser(g, [&](Parser& p) { v.restore(q, c, p); return 0; });
        count("documents with additions");
    }
    VCHECK(live == before, "shared:leak", "after everything is gone " + std::to_string(live - before) + " objects are left");
}

// what was removed is written again when it is inserted again
static void removed(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4]; Tree t; auto p = shared<L>(r); fill(*p, r); p->inner.reset(); std::shared_ptr<L> q;
    t.root().insert("a", p); if(r.chance(50)) t.root().remove_node("a"); else t.root().remove_node((size_t)0);
    t.root().insert("b", p);
    Buf b = encode(t, f); Tree u; decode(u, b, f);
    try { u.root().paste_field("b", q); } catch(Srl::Exception&) { }
    VCHECK(q && text(*q) == text(*p), "shared:removed", "an object whose first reference was removed from the tree is not in the document");
}

// more objects than small keys can tell apart
struct Many { std::vector<std::shared_ptr<uint32_t>> v; void srl_resolve(Context& c) { c("v", v); } };

static void many(Rng& r, uint64_t idx)
{
    static const size_t borders[] = { 0xFF, 0x100, 0x7FFF, 0xFFFF, 0x10000 };
    Fmt f = all_formats[idx % 4]; size_t n = borders[idx / 4 % 5] + 2 + r.below(40);
    Many m; for(size_t i = 0; i < n; i++) m.v.push_back(std::make_shared<uint32_t>((uint32_t)i));
    std::vector<size_t> which; size_t again = 20 + r.below(60);
    for(size_t i = 0; i < again; i++) { which.push_back(r.chance(50) ? r.below(n) : n - 1 - r.below(std::min<size_t>(n, 50))); m.v.push_back(m.v[which[i]]); }
    Buf b; Tree t; if(idx / 20 % 2) { t.load_object(m); b = encode(t, f); } else with_parser(f, [&](Parser& p) { b = t.store(m, p); return 0; });
    Many q; Tree u; if(r.chance(50)) { decode(u, b, f); u.root().paste(q); } else with_parser(f, [&](Parser& p) { Exact e(b); u.restore(q, e.p, e.n, p); return 0; });
    std::string ctx = name(f) + std::string(", ") + std::to_string(n) + " objects";
    VCHECK(q.v.size() == n + again, "many:size", ctx + ": " + std::to_string(q.v.size()) + " pointers are restored of " + std::to_string(n + again));
    if(q.v.size() != n + again) return;
    std::set<void*> seen;
    for(size_t i = 0; i < n; i++) {
        if(!(q.v[i] && *q.v[i] == i && seen.insert(q.v[i].get()).second)) { violation("many:objects", ctx + ": object " + std::to_string(i) + " is another one"); break; }
    }
    for(size_t i = 0; i < again; i++) if(q.v[n + i] != q.v[which[i]]) { violation("many:references", ctx + ": reference " + std::to_string(i) + " is to another object"); break; }
    count("many objects", n); count("aliases compared", n + again);
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P11", {
        { "graphs", 6400, 300000, graphs },
        { "packed", 1600, 60000, packed },
        { "sequence", 1600, 60000, sequence },
        { "passing", 4800, 200000, passing },
        { "added", 1600, 60000, added },
        { "removed", 16, 16, removed },
        { "many", 40, 800, many },
    });
}
