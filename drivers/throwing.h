#pragma once
// P24 and P28: whatever of the user's code throws, and at whatever point: the exception gets through as it is, nothing is lost or
// destroyed twice, and target, tree and parser can be used again.
#include "zoo.h"
#include "poly.h"
#include <iconv.h>
using namespace vf; using namespace Srl;

#ifdef VF_OUT_OF_MEMORY
#define MEMORY_KEY "memory:lost"
#else
#define MEMORY_KEY "throws:memory"
#endif
struct Boom { int64_t id; };                // deliberately no std::exception
static int64_t fuse = 0, points = 0, live = 0; static bool armed = false;
#ifndef VF_OUT_OF_MEMORY
static void point()
{
    points++;
    if(armed && --fuse == 0) { armed = false; throw Boom { points }; }
}
#else
// P28: the points are the requests for memory of the library (and of the user's code it runs), which fail once or from then on
static bool counting = false, lasting = false, failed = false;
static void point() { }
static void* request(size_t n)
{
    if(counting) {
        points++;
        if(failed && lasting) throw std::bad_alloc();
        if(armed && --fuse == 0) { armed = false; failed = true; throw std::bad_alloc(); }
    }
    void* p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return request(n); }
void* operator new[](size_t n) { return request(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

struct Probe {
    int32_t id = 0; std::string text; std::unique_ptr<int> own { new int(1) };
    Probe() { point(); live++; }
    Probe(const Probe& o) : id(o.id), text(o.text) { point(); live++; }
    Probe(Probe&& o) noexcept : id(o.id), text(std::move(o.text)), own(std::move(o.own)) { own = o.own ? std::move(o.own) : std::move(own); live++; }
    Probe& operator=(Probe&& o) noexcept { id = o.id; text = std::move(o.text); own = std::move(o.own); return *this; }
    Probe& operator=(const Probe&) = delete;
    ~Probe() { live--; }
    void srl_resolve(Context& c) { point(); c("id", id); point(); c("text", text); }
    bool operator==(const Probe& o) const { return id == o.id && text == o.text; }
};
struct Split {                              // with separate methods
    Probe a; int64_t n = 0;
    void srl_store(StoreContext& c) const { point(); c("a", a)("n", n); }
    void srl_restore(RestoreContext& c) { point(); c("a", a)("n", n); point(); }
    bool operator==(const Split& o) const { return a == o.a && n == o.n; }
};
struct Base {
    Probe counted; int32_t b = 0;
    Base() { point(); }
    virtual ~Base() { }
    virtual const TypeID& srl_type_id();
    virtual void srl_resolve(Context& c) { point(); c("b", b); }
    virtual bool same(const Base& o) const { return typeid(*this) == typeid(o) && b == o.b; }
};
struct Derived : Base {
    Probe p; std::vector<std::unique_ptr<Base>> kids;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& c) override { Base::srl_resolve(c); point(); c("p", p)("kids", kids); }
    bool same(const Base& o) const override
    {
        if(!Base::same(o)) return false;
        auto& d = (const Derived&)o;
        if(!(p == d.p) || kids.size() != d.kids.size()) return false;
        for(size_t i = 0; i < kids.size(); i++) if(!kids[i]->same(*d.kids[i])) return false;
        return true;
    }
};
static const auto r_base = register_type<Base>("p24 base"); static const auto r_derived = register_type<Derived>("p24 derived");
const TypeID& Base::srl_type_id() { return r_base; }
const TypeID& Derived::srl_type_id() { return r_derived; }

static bool same_ptr(const Probe* a, const Probe* b) { return !a || !b ? !a && !b : *a == *b; }

struct Whole {
    Probe one; std::vector<Probe> vec; std::list<Probe> lst; std::map<std::string, Probe> map; std::unordered_map<int32_t, std::shared_ptr<Probe>> umap;
    std::unique_ptr<Probe> up; std::vector<std::unique_ptr<Probe>> ups; std::pair<Probe, int32_t> pair; std::tuple<int32_t, std::string> tup; Probe arr[2];
    Probe* raw = nullptr; std::shared_ptr<Probe> sh, sh2; std::vector<std::shared_ptr<Probe>> shs; std::unique_ptr<Base> poly; std::vector<std::unique_ptr<Base>> polys; std::shared_ptr<Base> spoly;
    Base* rpoly = nullptr; Lib::HTable<std::string, std::unique_ptr<Probe>> ht; Split split; std::vector<uint8_t> blob; std::string last; std::unique_ptr<Whole> deep;
    Whole() = default;
    ~Whole() { delete raw; delete rpoly; }
    Whole(const Whole&) = delete;
    void srl_resolve(Context& c)
    {
        c("one", one)("vec", vec)("lst", lst)("map", map)("umap", umap)("up", up)("ups", ups);
        point();
        c("pair", pair)("tup", tup)("arr", arr)("raw", raw)("sh", sh)("sh2", sh2)("shs", shs)("poly", poly)("polys", polys)("spoly", spoly)("rpoly", rpoly)("split", split);
        c("ht", ht);
        c("blob", BitWrap(blob.data(), blob.size(), [this](size_t n) { point(); blob.resize(n); return blob.data(); }));
        c("deep", deep)("last", last);
        point();
    }
};
static void fill(Rng& r, Probe& p) { p.id = (int32_t)r.bits64(); p.text = gen_text(r, r.chance(5) ? 3000 : 30); }
static void fill(Rng& r, Base& b, int depth)
{
    b.b = (int32_t)r.bits64();
    if(auto* d = dynamic_cast<Derived*>(&b)) { fill(r, d->p); if(depth > 0) for(auto n = r.below(3); n > 0; n--) { d->kids.emplace_back(r.chance(50) ? new Derived() : new Base()); fill(r, *d->kids.back(), depth - 1); } }
}
static std::unique_ptr<Base> base(Rng& r) { std::unique_ptr<Base> b(r.chance(60) ? new Derived() : new Base()); fill(r, *b, 2); return b; }
static void fill(Rng& r, Whole& w, int depth)
{
    fill(r, w.one);
    for(auto n = r.below(5); n > 0; n--) { w.vec.emplace_back(); fill(r, w.vec.back()); }
    for(auto n = r.below(4); n > 0; n--) { w.lst.emplace_back(); fill(r, w.lst.back()); }
    for(auto n = r.below(4); n > 0; n--) fill(r, w.map["k" + std::to_string(n)]);
    for(auto n = r.below(4); n > 0; n--) { auto& u = w.umap[(int32_t)r.u64()]; u = std::make_shared<Probe>(); fill(r, *u); }
    if(r.chance(70)) { w.up.reset(new Probe()); fill(r, *w.up); }
    for(auto n = r.below(4); n > 0; n--) { w.ups.emplace_back(new Probe()); fill(r, *w.ups.back()); }
    fill(r, w.pair.first); w.pair.second = (int32_t)r.u64(); w.tup = std::make_tuple((int32_t)r.u64(), gen_text(r, 10)); for(auto& a : w.arr) fill(r, a);
    if(r.chance(70)) { w.raw = new Probe(); fill(r, *w.raw); }
    if(r.chance(80)) { w.sh = std::make_shared<Probe>(); fill(r, *w.sh); }
    if(r.chance(60)) w.sh2 = w.sh; else { w.sh2 = std::make_shared<Probe>(); fill(r, *w.sh2); }
    for(auto n = r.below(4); n > 0; n--) { if(w.sh && r.chance(40)) w.shs.push_back(w.sh); else { w.shs.push_back(std::make_shared<Probe>()); fill(r, *w.shs.back()); } }
    w.poly = base(r); for(auto n = r.below(3); n > 0; n--) w.polys.push_back(base(r)); w.spoly = base(r); w.rpoly = base(r).release();
    for(auto n = r.below(4); n > 0; n--) { std::unique_ptr<Probe> p(new Probe()); fill(r, *p); w.ht.insert("h" + std::to_string(n), std::move(p)); }
    fill(r, w.split.a); w.split.n = (int64_t)r.u64();
    w.blob.resize(r.size(2000)); for(auto& b : w.blob) b = (uint8_t)r.u64();
    w.last = gen_text(r, 20);
    if(depth > 0 && r.chance(60)) { w.deep.reset(new Whole()); fill(r, *w.deep, depth - 1); }
}
static bool same(Whole& a, Whole& b, std::string& w)
{
#define S(x) if(!(x)) { w = #x; return false; }
    S(a.one == b.one) S(a.vec == b.vec) S(a.lst == b.lst) S(a.map == b.map) S(a.pair == b.pair) S(a.tup == b.tup) S(a.arr[0] == b.arr[0] && a.arr[1] == b.arr[1])
    S(same_ptr(a.up.get(), b.up.get())) S(a.ups.size() == b.ups.size()) for(size_t i = 0; i < a.ups.size(); i++) S(same_ptr(a.ups[i].get(), b.ups[i].get()))
    S(a.umap.size() == b.umap.size()) for(auto& e : a.umap) { auto f = b.umap.find(e.first); S(f != b.umap.end() && same_ptr(e.second.get(), f->second.get())) }
    S(same_ptr(a.raw, b.raw)) S(same_ptr(a.sh.get(), b.sh.get())) S(same_ptr(a.sh2.get(), b.sh2.get())) S((a.sh == a.sh2) == (b.sh == b.sh2)) S(a.shs.size() == b.shs.size())
    for(size_t i = 0; i < a.shs.size(); i++) { S(same_ptr(a.shs[i].get(), b.shs[i].get())) S((a.shs[i] == a.sh) == (b.shs[i] == b.sh)) }
    S(a.poly->same(*b.poly)) S(a.polys.size() == b.polys.size()) for(size_t i = 0; i < a.polys.size(); i++) S(a.polys[i]->same(*b.polys[i])) S(a.spoly->same(*b.spoly)) S(a.rpoly && b.rpoly && a.rpoly->same(*b.rpoly))
    S(a.split == b.split) S(a.blob == b.blob) S(a.last == b.last) S(a.ht.num_entries() == b.ht.num_entries())
    bool ok = true; a.ht.foreach([&](const std::string& k, std::unique_ptr<Probe>& p) { auto* q = b.ht.get(k); ok = ok && q && same_ptr(p.get(), q->get()); }); S(ok)
    S(!a.deep == !b.deep) if(a.deep) return same(*a.deep, *b.deep, w);
#undef S
    return true;
}

// streams which are points, too
struct InBuf : std::streambuf {
    const Buf& d; size_t off = 0, chunk; std::vector<char> w;
    InBuf(const Buf& b, size_t c) : d(b), chunk(c) { }
    int_type underflow() override
    {
        if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
        point();
        if(off >= d.size()) return traits_type::eof();
        size_t n = std::min(chunk, d.size() - off);
        w.assign(d.begin() + off, d.begin() + off + n); off += n; setg(w.data(), w.data(), w.data() + n);
        return traits_type::to_int_type(*gptr());
    }
};
struct OutBuf : std::streambuf {
    Buf d; size_t pos = 0;
    void put(const char* s, size_t n) { if(pos + n > d.size()) d.resize(pos + n); memcpy(d.data() + pos, s, n); pos += n; }
    int_type overflow(int_type c) override { point(); char x = (char)c; put(&x, 1); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { point(); put(s, (size_t)n); return n; }
    pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override { point(); int64_t b = w == std::ios::beg ? 0 : w == std::ios::cur ? (int64_t)pos : (int64_t)d.size(); if(b + o < 0) return pos_type(off_type(-1)); pos = (size_t)(b + o); return pos_type((off_type)pos); }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios::beg, m); }
    int sync() override { point(); return 0; }
};

// one operation: everything it needs is made before (without being armed), what it does is run; `again` checks the result of an undisturbed run
struct Op { std::string what; std::function<void()> run; std::function<void()> verify; };

#ifndef VF_OUT_OF_MEMORY
static void attempt(Rng& r, const std::function<std::unique_ptr<Op>(Tree&)>& make, const std::string& ctx, bool same_op)
{
    // how many points are there?
    int64_t total;
    {
        Tree t; auto op = make(t);
        points = 0; armed = false;
        op->run();
        total = points;
        op->verify();
    }
    count("points of operations", (uint64_t)total);
    std::vector<int64_t> ks;
    if(total <= 24 || thorough()) for(int64_t k = 1; k <= total; k++) ks.push_back(k);
    else for(int i = 0; i < 24; i++) ks.push_back(r.chance(10) ? total - (int64_t)r.below(3) : 1 + (int64_t)r.below((uint64_t)total));
    for(int64_t k : ks) {
        int64_t l0 = live;
        {
            Tree t; auto op = make(t);
            std::string c = ctx + " " + op->what + ", thrown at point " + std::to_string(k) + " of " + std::to_string(total);
            int64_t id = -1;
            points = 0; fuse = k; armed = true;
            try { op->run(); } catch(const Boom& b) { id = b.id; } catch(std::exception& e) { armed = false; violation("throws:replaced", c + ": the exception of the user was replaced by: " + e.what()); }
            VCHECK(!armed, "throws:points", c + ": the point was not reached");
            VCHECK(id == k, "throws:swallowed", c + ": the exception did not get through");
            count("exceptions thrown");
            // the same target, tree and parser can be used again
            if(same_op) { op->run(); op->verify(); count("repeated"); }
            else { Tree u; auto o2 = make(t); o2->run(); o2->verify(); count("tree used again"); }
        }
        VCHECK(live == l0, live > l0 ? "throws:leak" : "throws:destroyed", ctx + " thrown at point " + std::to_string(k) + " of " + std::to_string(total) + ": " + std::to_string(live - l0) + " objects remain");
    }
    count("operations");
}

#else
static void attempt(Rng& r, const std::function<std::unique_ptr<Op>(Tree&)>& make, const std::string& ctx, bool same_op)
{
    int64_t total;
    {
        Tree t; auto op = make(t);
        points = 0; armed = failed = false;
        counting = true; op->run(); counting = false;
        total = points;
        op->verify();
    }
    count("requests for memory", (uint64_t)total);
    std::vector<int64_t> ks;
    size_t limit = thorough() ? 400 : 30;
    if((size_t)total <= limit) for(int64_t k = 1; k <= total; k++) ks.push_back(k);
    else for(size_t i = 0; i < limit; i++) ks.push_back(r.chance(20) ? 1 + (int64_t)r.below(20) : 1 + (int64_t)r.below((uint64_t)total));
    for(int64_t k : ks) {
        int64_t l0 = live;
        lasting = r.chance(40);
        {
            Tree t; auto op = make(t);
            std::string c = ctx + " " + op->what + ", request " + std::to_string(k) + " of " + std::to_string(total) + (lasting ? " and all that follow fail" : " fails");
            bool threw = false; std::string other;
            points = 0; fuse = k; armed = true; failed = false; counting = true;
            try { op->run(); } catch(const std::bad_alloc&) { threw = true; } catch(const Srl::Exception& e) { counting = false; other = e.what(); } catch(const std::ios_base::failure& e) { counting = false; other = e.what(); }
            counting = armed = false;
            count(threw ? "failures reported" : other.size() ? "failures reported otherwise" : failed ? "failures overcome" : "failures not reached");
            if(!threw && other.empty()) op->verify();
            // the same target, tree and parser can be used when there is memory again
            try {
                if(same_op) { op->run(); op->verify(); count("repeated"); }
                else { make(t); Tree u; auto o2 = make(u); o2->run(); o2->verify(); count("tree used again"); }
            } catch(std::exception& e) { violation("memory:again", c + ": afterwards: " + e.what()); }
            (void)other;
        }
        VCHECK(live == l0, live > l0 ? "memory:leak" : "memory:destroyed", ctx + " request " + std::to_string(k) + " of " + std::to_string(total) + ": " + std::to_string(live - l0) + " objects remain");
    }
    count("operations");
}
#endif

static uint64_t fingerprint;
static void operation(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    std::string ctx = name(f);
    armed = false;
    Whole src; fill(r, src, (int)r.below(3));
    with_parser(f, [&](Parser& p) {
        Buf bytes = Tree().store(src, p);
        fingerprint = hash_bytes(bytes.data(), bytes.size(), idx % 40);
        auto target = [&] { auto w = std::make_shared<Whole>(); if(r.chance(40)) fill(r, *w, 1); return w; };
        auto check = [&](Whole& w, const char* what) { std::string y; VCHECK(same(src, w, y), "throws:result", ctx + " " + what + ": restored object differs in " + y); };
        size_t chunk = r.pick<size_t>({ 1, 7, 64, 1000, 100000 }); if(bytes.size() > 3000 && chunk < 64) chunk = 64;
        switch(idx / 4 % 10) {
            case 0 : attempt(r, [&](Tree& t) { auto w = target(); return std::make_unique<Op>(Op { "restore from memory", [&t, &p, &bytes, w] { t.restore(*w, bytes.data(), bytes.size(), p); }, [=] { check(*w, "from memory"); } }); }, ctx, true); break;
            case 1 : attempt(r, [&](Tree& t) { auto w = target(); return std::make_unique<Op>(Op { "restore from a stream", [&t, &p, &bytes, w, chunk] { InBuf b(bytes, chunk); std::istream is(&b); is.exceptions(std::ios::badbit); t.restore(*w, is, p); }, [=] { check(*w, "from a stream"); } }); }, ctx, true); break;
            case 2 : attempt(r, [&](Tree& t) { auto w = target(); t.load_source(bytes, p); return std::make_unique<Op>(Op { "paste from a tree", [&t, w] { t.root().paste(*w); }, [=] { check(*w, "from a tree"); } }); }, ctx, false); break;
            case 3 : {
                attempt(r, [&](Tree& t) { auto out = std::make_shared<Buf>(); return std::make_unique<Op>(Op { "store", [&t, &p, &src, out] { out->clear(); t.store(src, *out, p); }, [&, out] { VCHECK(*out == bytes, "throws:result", ctx + " store: other bytes than before"); } }); }, ctx, true);
                break;
            }
            case 4 : attempt(r, [&](Tree& t) { auto out = std::make_shared<Buf>(); return std::make_unique<Op>(Op { "store to a stream", [&t, &p, &src, out] { OutBuf b; std::ostream os(&b); os.exceptions(std::ios::badbit); t.store(src, os, p); *out = b.d; }, [&, out] { VCHECK(*out == bytes, "throws:result", ctx + " store to a stream: other bytes than before"); } }); }, ctx, true); break;
            case 5 : attempt(r, [&](Tree& t) { return std::make_unique<Op>(Op { "load_object", [&t, &src] { t.load_object(src); }, [&] { Buf b = t.to_source(p); Whole w; Tree().restore(w, b.data(), b.size(), p); check(w, "load_object"); } }); }, ctx, true); break;
            case 6 : {
                Buf packed; { Tree t; t.pack(packed, p, "n", 5, "w", src, "z", std::string("end")); }
                attempt(r, [&](Tree& t) { auto w = target(); auto n = std::make_shared<int>(0); return std::make_unique<Op>(Op { "unpack", [&t, &p, &packed, w, n] { t.unpack(packed, p, "n", *n, "w", *w); }, [=] { check(*w, "unpack"); VCHECK(*n == 5, "throws:result", "unpack: n"); } }); }, ctx, true);
                break;
            }
            case 7 : {
                Buf packed; { Tree t; t.pack(packed, p, "n", 5, "w", src); }
                attempt(r, [&](Tree& t) { auto out = std::make_shared<Buf>(); return std::make_unique<Op>(Op { "pack", [&t, &p, &src, out] { out->clear(); t.pack(*out, p, "n", 5, "w", src); }, [&packed, out, ctx] { VCHECK(*out == packed, "throws:result", ctx + " pack: other bytes"); } }); }, ctx, true);
                break;
            }
            case 8 : attempt(r, [&](Tree& t) { t.root().insert("w", src); auto got = std::make_shared<std::vector<std::unique_ptr<Probe>>>(); return std::make_unique<Op>(Op { "unwrap", [&t, got] {
                        Node& w = t.root().node("w");
                        std::unique_ptr<Probe> u(new Probe(w.unwrap_field<Probe>("one"))); auto v = w.unwrap_field<std::vector<Probe>>("vec"); auto s = w.unwrap_field<std::vector<std::unique_ptr<Base>>>("polys");
                        auto b = w.unwrap_field<std::unique_ptr<Base>>("poly"); auto m = w.node("map").unwrap<std::map<std::string, Probe>>(); auto sp = w.unwrap_field<Split>("split"); got->clear(); got->push_back(std::move(u));
                    }, [&, got] { VCHECK(*got->at(0) == src.one, "throws:result", "unwrap"); } }); }, ctx, false); break;
            default : {     // functions and scopes
                uint64_t seed = r.u64();
                attempt(r, [&](Tree& t) {
                    auto seen = std::make_shared<std::vector<int>>();
                    return std::make_unique<Op>(Op { "functions", [&t, &p, &src, seen, seed] {
                        Rng q(seed); t.clear(); seen->clear();
                        Probe held; held.id = 3;
                        t.root().insert("a", ScopeWrap([&](Node& n) { point(); n.insert("one", src.one); n.insert("in", ScopeWrap([&](Node& m) { m.insert("x", 1); point(); m.insert("p", held); }, Type::Array)); point(); n.insert("vec", src.vec); }));
                        t.root().foreach_node([&](Node& n) { point(); n.foreach_value([&](Value& v) { point(); seen->push_back((int)v.size()); }, true); }, true);
                        t.root().foreach_value([&](Value&) { point(); seen->push_back(-1); }, true);
                        Buf out; t.pack(out, p, "s", ScopeWrap([&](Node& n) { n.insert("h", held); point(); n.insert("k", ScopeWrap([&](Node& m) { point(); m.insert("one", src.one); })); }), "t", src.one);
                        Buf copy = std::move(out); Union s; Probe one; Tree u; u.unpack(copy, p, "s", s, "t", one);
                        seen->push_back(s.get("k").get("one").get("id").unwrap<int>());
                        if(!(one == src.one)) violation("throws:result", "unpacked probe");
                    }, [&, seen] { VCHECK(seen->back() == src.one.id && seen->size() > 3, "throws:result", "functions"); } });
                }, ctx, true);
            }
        }
    });
}

static void operations(Rng& r, uint64_t idx)
{
    for(auto* c : {
#ifndef VF_OUT_OF_MEMORY
        "points of operations", "exceptions thrown",
#else
        "requests for memory", "failures reported", "failures reported otherwise", "failures overcome", "failures not reached",
#endif
        "repeated", "tree used again", "operations" }) count(c, 0);
    int64_t l0 = live; Mem m0 = mem_now();
    operation(r, idx);
    VCHECK(live == l0, "throws:leak", "after all: " + std::to_string(live - l0) + " objects remain");
    Mem m1 = mem_now();
    VCHECK(m1.blocks == m0.blocks, MEMORY_KEY, std::string(name(all_formats[idx % 4])) + ", operation " + std::to_string(idx / 4 % 10) + ": " + std::to_string(m1.blocks - m0.blocks) + " blocks remain");
    distinct(fingerprint);
}

// what was given to the library may be gone afterwards
static void lifetimes(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
        count("scopes by function", 0);
    int64_t l0 = live; Mem m0 = mem_now();
    {
        Tree t; std::vector<std::pair<std::string, std::u32string>> fields;
        for(size_t n = r.range(1, 8), i = 0; i < n; i++) {
            auto nm = std::make_unique<std::string>("field " + std::to_string(i) + std::string(r.size(60), 'n'));
            auto text = std::make_unique<std::u32string>(zoo::text_as<char32_t>(gen_text(r, r.chance(20) ? 3000 : 30)));
            auto probe = std::make_shared<Probe>(); fill(r, *probe);
            fields.push_back({ *nm, *text });
            {
                std::function<void(Node&)> fn = [probe, t = *text, pad = std::string(r.size(100), 'p')](Node& x) { x.insert("text", t); x.insert("probe", *probe); x.insert("pad", pad); };
                auto w = std::make_unique<ScopeWrap>(fn, Type::Object);
                auto copy = std::make_unique<ScopeWrap>(*w);
                if(r.chance(50)) w = nullptr;
                fn = nullptr; probe = nullptr;
                t.root().insert(*nm, *copy);
                if(w) t.root().insert(*nm + "'", *w);
            }
            nm = nullptr; text = nullptr;
        }
        Tree moved(std::move(t)); Tree u; u = std::move(moved);
        for(auto& e : fields) {
            VCHECK(u.root().node(e.first).unwrap_field<std::u32string>("text") == e.second, "owned:scope", "a scope inserted by a function has lost its content");
            VCHECK(u.root().node(e.first).node("probe").num_values() == 2, "owned:scope", "an object in a scope");
        }
        with_parser(f, [&](Parser& p) { auto b = u.to_source(p); Tree v; { Buf c = b; v.load_source(c, p); for(auto& x : c) x = 0xEE; }
            for(auto& e : fields) VCHECK(v.root().node(e.first).unwrap_field<std::u32string>("text") == e.second, "owned:document", "a tree refers to the document it was loaded from"); fingerprint = hash_bytes(b.data(), b.size(), idx % 4); });
        count("scopes by function", fields.size());
        VCHECK(live == l0, "owned:function", "a function given to a scope still owns objects after the scope was inserted");
    }
    VCHECK(live == l0, "throws:leak", "objects remain"); VCHECK(mem_now().blocks == m0.blocks, "throws:memory", "blocks remain");
    distinct(fingerprint);
}

