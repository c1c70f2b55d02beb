// P26: binary data goes through every format as it is: what is stored is the memory as it was when it was handed over,
// and restoring asks once for memory of exactly the right size and writes exactly the data there.
#include <sys/mman.h>
#include "doc.h"
#include <deque>
using namespace vf; using namespace Srl;

static Buf random_bytes(Rng& r, size_t n)
{
    Buf b(n); int mode = (int)r.below(5);
    for(auto& x : b) x = mode == 0 ? (uint8_t)r.u64() : mode == 1 ? 0 : mode == 2 ? 0xFF : mode == 3 ? (uint8_t)r.pick<char>({ '"', '\\', '{', '}', ',', ':', '=', '\n' }) : r.pick<uint8_t>({ 0, 1, 0x3F, 0x40, 0x7F, 0x80, 0xC0, 0xC4, 0xFE, 0xFF });
    return b;
}
static size_t length(Rng& r)
{
    static const std::vector<size_t> at { 0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131072, 262144 };
    if(r.chance(40)) return r.below(64);
    size_t n = at[r.below(r.chance(90) ? 30 : at.size())];
    return r.chance(80) ? n : n + r.below(70);
}

// memory which an allocation function hands out, with known surroundings
struct Arena {
    static constexpr size_t guard = 24;
    std::vector<std::unique_ptr<Exact>> mem; std::vector<size_t> asked; bool exact;
    explicit Arena(bool e) : exact(e) { }
    uint8_t* give(size_t n)
    {
        asked.push_back(n);
        mem.emplace_back(new Exact(std::string(exact ? n : n + 2 * guard, '\x5A')));
        return mem.back()->p + (exact ? 0 : guard);
    }
    // the data written, "" if asked other than once with that size or something around it was changed
    bool holds(const Buf& want, std::string* why) const
    {
        if(asked.size() != 1) { *why = "memory was asked for " + std::to_string(asked.size()) + " times"; return false; }
        if(asked[0] != want.size()) { *why = std::to_string(asked[0]) + " bytes were asked for instead of " + std::to_string(want.size()); return false; }
        const Exact& m = *mem[0]; size_t at = exact ? 0 : guard;
        if(want.size() && std::memcmp(m.p + at, want.data(), want.size())) { *why = "other data: " + hex(m.p + at, want.size()) + " instead of " + hex(want); return false; }
        if(!exact) for(size_t i = 0; i < guard; i++) if(m.p[i] != 0x5A || m.p[guard + want.size() + i] != 0x5A) { *why = "memory around the data was written"; return false; }
        return true;
    }
    bool untouched() const { for(auto& m : mem) for(size_t i = 0; i < m->n; i++) if(m->p[i] != 0x5A) return false; return true; }
};

// one piece of binary data in one of the ways in which a user can hold it
struct Blob {
    int kind; Buf data; std::string name;           // kind 0: BitWrap, 1: Bytes, 2..8: VecWrap of some type
    bool constructed = false;                       // BitWrap only with data or only with a function
    std::unique_ptr<Arena> into;
    std::vector<uint8_t> v8; std::vector<char> vc; std::vector<int16_t> v16; std::vector<uint32_t> v32; std::vector<int64_t> v64; std::vector<float> vf; std::vector<double> vd;
    Bytes bytes;
    template<class F> void vec(F&& f) { switch(kind) { case 2 : f(v8); break; case 3 : f(vc); break; case 4 : f(v16); break; case 5 : f(v32); break; case 6 : f(v64); break; case 7 : f(vf); break; case 8 : f(vd); break; } }
    size_t unit() { size_t u = 1; vec([&](auto& v) { u = sizeof(v[0]); }); return u; }
    void fill()
    {
        if(kind == 1) bytes = Bytes(Buf(data));
        vec([&](auto& v) { v.resize(data.size() / sizeof(v[0])); if(data.size()) std::memcpy(v.data(), data.data(), data.size()); });
    }
    void overwrite(Rng& r)
    {
        for(auto& x : data) x = (uint8_t)r.u64();
        fill();
        vec([&](auto& v) { v.clear(); v.shrink_to_fit(); });
        if(kind == 1) bytes = Bytes();
    }
    void prepare(Rng& r)                            // a target, with something in it
    {
        into.reset(new Arena(r.chance(50)));
        if(r.chance(60)) { data.resize(unit() * r.below(40)); fill(); }
    }
    bool holds(const Buf& want, std::string* why)
    {
        if(kind == 0) return into->holds(want, why);
        Buf got;
        if(kind == 1) got = std::move(bytes).extract();
        vec([&](auto& v) { got.resize(v.size() * sizeof(v[0])); if(v.size()) std::memcpy(got.data(), v.data(), got.size()); });
        if(got == want) return true;
        *why = "other data: " + hex(got) + " instead of " + hex(want); return false;
    }
    std::function<uint8_t*(size_t)> fn() { return [this](size_t n) { return into->give(n); }; }
    template<class F> void visit(F&& f, bool storing)
    {
        if(kind == 0) { if(storing) f(BitWrap(data.data(), data.size())); else if(constructed) f(BitWrap(data.data(), data.size(), fn())); else f(BitWrap(fn())); }
        else if(kind == 1) f(bytes);
        else vec([&](auto& v) {
            typedef VecWrap<typename std::remove_reference<decltype(v[0])>::type> W;
            // a copy is as good as the wrapper it was made from, which may be gone
            if(constructed) { std::unique_ptr<W> first(new W(v)); W w(*first); first.reset(); f(w); } else f(W(v));
        });
    }
};

struct Holder {
    std::deque<Blob> blobs; std::vector<uint64_t> between; bool storing = true; std::vector<size_t> order;
    void srl_resolve(Context& c)
    {
        for(size_t i : order) {
            Blob& b = blobs[i];
            c("n" + std::to_string(i), between[i]);
            b.visit([&](auto&& w) { auto&& x = w; c(b.name, x); }, storing);
        }
    }
    void init(Rng& r, size_t n)
    {
        for(size_t i = 0; i < n; i++) {
            blobs.emplace_back(); Blob& b = blobs.back();
            b.kind = (int)r.below(9); b.name = "b" + std::to_string(i); b.constructed = r.chance(50);
            size_t len = length(r); len -= len % b.unit();
            b.data = random_bytes(r, len); b.fill();
            between.push_back(r.bits64()); order.push_back(i);
        }
    }
    // an object with the same fields to restore into
    void target(const Holder& h, Rng& r)
    {
        storing = false; order = h.order; between.assign(h.between.size(), 7);
        for(auto& s : h.blobs) {
            blobs.emplace_back(); Blob& b = blobs.back();
            b.kind = s.kind; b.name = s.name; b.constructed = r.chance(50);
            if(r.chance(30)) { b.kind = (int)r.below(9); if(s.data.size() % b.unit()) b.kind = (int)r.below(4); }   // another view of the same data
            b.prepare(r);
        }
    }
};

static void roundtrip(Rng& r, uint64_t idx)
{
    Holder h; h.init(r, 1 + r.below(r.chance(80) ? 5 : 16));
    std::vector<Buf> want; for(auto& b : h.blobs) want.push_back(b.data);
    size_t n = want.size();
    Fmt f = r.pick(all_formats);
    int way = (int)r.below(4);
    static const char* ways[] = { "store", "store to a stream", "load_object, overwrite, to_source", "insert, overwrite, to_source" };
    Buf doc; std::string ctx = std::string(name(f)) + ", " + ways[way];
    with_parser(f, [&](auto& p) {
        Tree t;
        if(way == 0) doc = t.store(h, p);
        else if(way == 1) { std::ostringstream os; t.store(h, os, p); auto s = os.str(); doc.assign(s.begin(), s.end()); }
        else {
            if(way == 2) t.load_object(h);
            else for(size_t i = 0; i < n; i++) {
                t.root().insert("n" + std::to_string(i), h.between[i]);
                h.blobs[i].visit([&](auto&& w) { t.root().insert(h.blobs[i].name, w); }, true);
            }
            for(auto& b : h.blobs) b.overwrite(r);
            doc = t.to_source(p);
        }
    });
    // what other readers of the format find there
    Doc d;
    if(is_json(f)) d = json_parse(std::string(doc.begin(), doc.end())); else if(f == Fmt::MsgPack) d = mp_parse(doc); else d = psrl_parse(doc);
    std::map<std::string, const Doc*> at; for(auto& k : d.kids) at[k.first] = &k.second;
    for(size_t i = 0; i < n; i++) {
        auto it = at.find("b" + std::to_string(i)); VCHECK(it != at.end(), "blob:written", ctx + ": data " + std::to_string(i) + " is missing");
        std::string got = it->second->s; bool ok = true;
        if(is_json(f)) ok = it->second->k == Doc::Str && b64_decode(it->second->s, got); else ok = it->second->k == Doc::Bin;
        VCHECK(ok && got == std::string(want[i].begin(), want[i].end()), "blob:written", ctx + ": " + std::to_string(want[i].size()) + " bytes " + hex(want[i]) + " were written as " + hex(it->second->s));
    }
    count("data written", n);
    for(int round = 0; round < 3; round++) {
        Holder g; g.target(h, r); g.order = h.order; if(r.chance(50)) r.shuffle(g.order);
        int rd = (int)r.below(6);
        static const char* reads[] = { "restore", "restore from a stream", "load_source, paste", "load_source, paste by field", "unpack", "load_source, other format, restore" };
        std::string c2 = ctx + ", " + reads[rd];
        Exact e(doc); Tree t;
        try {
            with_parser(f, [&](auto& p) {
                ChunkBuf cb(doc, r.chance(40) ? 0 : 1 + r.below(3000), r.u64()); std::istream is(&cb);
                if(rd == 0) t.restore(g, e.p, e.n, p);
                else if(rd == 1) t.restore(g, is, p);
                else if(rd == 2) { t.load_source(e.p, e.n, p); t.root().paste(g); }
                else if(rd == 3) {
                    t.load_source(is, p);
                    for(size_t i : g.order) { t.root().paste_field("n" + std::to_string(i), g.between[i]); g.blobs[i].visit([&](auto&& w) { auto&& x = w; t.root().paste_field(g.blobs[i].name, x); }, false); }
                } else if(rd == 4) {
                    for(size_t i = 0; i < n; i++) if(i != 0 || n == 1) g.blobs[i].kind = 99;
                    g.blobs[0].kind = 1; g.blobs[0].bytes = Bytes();
                    if(r.chance(50)) t.unpack(is, p, g.blobs[0].name, g.blobs[0].bytes, "n0", g.between[0]); else t.unpack(Lib::In::Source(e.p, e.n), p, "n0", g.between[0], g.blobs[0].name, g.blobs[0].bytes);
                } else {
                    t.load_source(e.p, e.n, p);
                    Fmt f2 = r.pick(all_formats); c2 += std::string(" ") + name(f2);
                    with_parser(f2, [&](auto& q) { auto b2 = t.to_source(q); Exact e2(b2); t.restore(g, e2.p, e2.n, q); });
                }
            });
        } catch(Srl::Exception& x) { violation("blob:refused", c2 + ": " + x.what()); }
        for(size_t i = 0; i < n; i++) {
            if(g.blobs[i].kind == 99) continue;
            std::string why;
            VCHECK(g.blobs[i].holds(want[i], &why), "blob:content", c2 + ", data " + std::to_string(i) + " of " + std::to_string(n) + ", kind " + std::to_string(g.blobs[i].kind) + ", " + std::to_string(want[i].size()) + " bytes: " + why);
            VCHECK(g.between[i] == h.between[i], "blob:neighbours", c2 + ": the number in front of data " + std::to_string(i));
            count("data restored"); count(std::string("restored by ") + (g.blobs[i].kind == 0 ? "BitWrap" : g.blobs[i].kind == 1 ? "Bytes" : "VecWrap"));
        }
    }
    distinct(hash_bytes(doc.data(), doc.size())); (void)idx;
}

// data inside of containers and of other objects, as values of their own
struct Inner { Bytes b; std::vector<double> v; void srl_resolve(Context& c) { c("b", b); auto w = VecWrap<double>(v); c("v", w); } };
struct Outer { std::vector<Bytes> list; std::map<std::string, Bytes> map; std::vector<Inner> in; std::unique_ptr<Inner> p; std::tuple<Bytes, int, Bytes> t;
    void srl_resolve(Context& c) { c("list", list)("map", map)("in", in)("p", p)("t", t); } };
static std::string S(Bytes& b) { auto v = std::move(b).extract(); return std::string(v.begin(), v.end()); }

static void nested(Rng& r, uint64_t)
{
    Outer o, g; std::vector<Buf> want;
    auto fresh = [&](size_t unit = 1) { size_t n = r.below(r.chance(90) ? 40 : 3000); want.push_back(random_bytes(r, n - n % unit)); return want.back(); };
    size_t a = r.below(5), b = r.below(4), c = r.below(4);
    auto inner = [&] { Inner i; i.b = Bytes(fresh()); Buf d = fresh(8); i.v.resize(d.size() / 8); if(d.size()) std::memcpy(i.v.data(), d.data(), d.size()); return i; };
    for(size_t i = 0; i < a; i++) o.list.emplace_back(fresh());
    for(size_t i = 0; i < b; i++) o.map.emplace("k" + std::to_string(i), Bytes(fresh()));
    for(size_t i = 0; i < c; i++) o.in.push_back(inner());
    if(r.chance(70)) o.p.reset(new Inner(inner()));
    std::get<0>(o.t) = Bytes(fresh()); std::get<1>(o.t) = 5; std::get<2>(o.t) = Bytes(fresh());
    Fmt f = r.pick(all_formats); Buf doc; bool stream = r.chance(50);
    if(r.chance(50)) { g.list.resize(r.below(4)); g.p.reset(new Inner); g.in.resize(2); }
    try {
        with_parser(f, [&](auto& p) {
            Tree t; doc = t.store(o, p);
            Exact e(doc); ChunkBuf cb(doc, r.chance(50) ? 0 : 1 + r.below(500), r.u64()); std::istream is(&cb);
            if(stream) Tree().restore(g, is, p); else if(r.chance(50)) Tree().restore(g, e.p, e.n, p); else { Tree u; u.load_source(e.p, e.n, p); u.root().paste(g); }
        });
    } catch(Srl::Exception& x) { violation("blob:nested:refused", std::string(name(f)) + ": " + x.what() + ": " + hex(doc)); }
    size_t i = 0;
    auto eq = [&](Bytes& b) { std::string s = S(b); VCHECK(s == std::string(want[i].begin(), want[i].end()), "blob:nested", std::string(name(f)) + (stream ? " stream" : "") + ": data " + std::to_string(i) + " is " + hex(s) + " instead of " + hex(want[i])); i++; count("data restored"); };
    auto eqi = [&](Inner& n) { eq(n.b); VCHECK(n.v.size() * 8 == want[i].size() && (n.v.empty() || !std::memcmp(n.v.data(), want[i].data(), want[i].size())), "blob:nested", std::string(name(f)) + ": numbers " + std::to_string(i)); i++; };
    VCHECK(g.list.size() == a && g.map.size() == b && g.in.size() == c && !!g.p == !!o.p && std::get<1>(g.t) == 5, "blob:nested", std::string(name(f)) + ": other shape");
    for(auto& x : g.list) eq(x);
    for(auto& x : g.map) eq(x.second);
    for(auto& x : g.in) eqi(x);
    if(g.p) eqi(*g.p);
    eq(std::get<0>(g.t)); eq(std::get<2>(g.t));
    distinct(hash_bytes(doc.data(), doc.size()));
}

// text in place of binary data: base64 is decoded, in every format and from the tree
static void text(Rng& r, uint64_t)
{
    Buf data = random_bytes(r, r.chance(80) ? r.below(50) : length(r));
    std::string t = b64(std::string(data.begin(), data.end()));
    bool broken = r.chance(50);
    if(broken) {
        switch(r.below(5)) {
            case 0 : t += r.pick<const char*>({ "A", "AB", "ABC", "=", "==", "!" }); break;
            case 1 : if(t.size()) t[r.below(t.size())] = r.pick<char>({ '=', '-', '_', ' ', '\n', '"', '\\', '\x7F', '*' }); break;
            case 2 : if(t.size()) t.resize(t.size() - 1 - r.below(std::min<size_t>(3, t.size()))); break;
            case 3 : t.insert(r.below(t.size() + 1), "===="); break;
            case 4 : if(t.size()) t[r.below(t.size())] = (char)r.range(128, 255); break;
        }
        std::string tmp; if(b64_decode(t, tmp)) { broken = false; data.assign(tmp.begin(), tmp.end()); }
        std::vector<uint32_t> c; if(!utf8_decode(t, c)) return;
    }
    Tree u; u.root().insert("n", 3, "t", t, "m", 4);
    Fmt f = r.pick(all_formats); int way = (int)r.below(3);
    Arena in(r.chance(50)); bool threw = false; std::string why; int m = 0, n = 0;
    std::vector<uint16_t> vec { 1, 2, 3 }; bool use_vec = data.size() % 2 == 0 && r.chance(40);
    auto paste = [&](auto& w) {
        if(way == 0) { u.root().paste_field("t", w); n = 3; m = 4; return; }
        with_parser(f, [&](auto& p) {
            auto b = u.to_source(p); Exact e(b); ChunkBuf cb(b, r.chance(50) ? 0 : 1 + r.below(100), r.u64()); std::istream is(&cb);
            if(way == 1) Tree().unpack(Lib::In::Source(e.p, e.n), p, "n", n, "t", w, "m", m); else Tree().unpack(is, p, "n", n, "t", w, "m", m);
        });
    };
    std::string ctx = std::string(name(f)) + ", way " + std::to_string(way) + ": text " + vf::show(t);
    try { if(use_vec) { VecWrap<uint16_t> w(vec); paste(w); } else { BitWrap w([&](size_t s) { return in.give(s); }); paste(w); } }
    catch(Srl::Exception&) { threw = true; }
    VCHECK(threw == broken, "blob:text:validity", ctx + (threw ? " was refused" : " was accepted"));
    if(!threw) {
        if(use_vec) VCHECK(vec.size() * 2 == data.size() && (data.empty() || !std::memcmp(vec.data(), data.data(), data.size())), "blob:text", ctx + " gave other elements");
        else VCHECK(in.holds(data, &why), "blob:text", ctx + ": " + why);
        VCHECK(n == 3 && m == 4, "blob:neighbours", ctx);
    } else VCHECK(in.asked.size() <= 1, "blob:text", ctx + ": memory was asked for repeatedly");
    count(broken ? "texts refused" : "texts decoded");
}

// what cannot be done is refused, and nothing is written anywhere
static void refuse(Rng& r, uint64_t)
{
    Fmt f = r.pick(all_formats); int way = (int)r.below(3);
    Buf data = random_bytes(r, 1 + length(r));
    int what = (int)r.below(6);
    Tree u; Exact mem(data);
    if(what == 0) {                                         // no data where there should be some
        BitWrap w(nullptr, 1 + r.below(100)); bool threw = false;
        try { u.root().insert("a", 1); u.root().insert("x", w); } catch(Srl::Exception&) { threw = true; }
        VCHECK(threw, "blob:refuse", "a null pointer with a size was stored");
        threw = false;
        try { with_parser(f, [&](auto& p) { Buf b; u.pack(b, p, "x", w); }); } catch(Srl::Exception&) { threw = true; }
        VCHECK(threw, "blob:refuse", "a null pointer with a size was packed");
        BitWrap none(nullptr, 0); Arena in(true); BitWrap back([&](size_t n) { return n ? nullptr : in.give(n); }); std::string why;
        with_parser(f, [&](auto& p) { Buf b; Tree().pack(b, p, "x", none); Tree().unpack(b, p, "x", back); });
        VCHECK(in.holds(Buf(), &why), "blob:refuse", "empty data: " + why);
        count("refused"); return;
    }
    BitWrap src(mem.p, mem.n);
    u.root().insert("n", 3, "x", src, "m", 4, "i", 17, "s", std::vector<int> { 1, 2 }, "z", nullptr, "f", 1.5, "t", true);
    bool threw = false; Arena in(r.chance(50)); std::string ctx; int m = 0;
    auto paste = [&](const char* field, auto& w) {
        try {
            if(way == 0) u.root().paste_field(field, w);
            else with_parser(f, [&](auto& p) { auto b = u.to_source(p); Exact e(b); ChunkBuf cb(b, r.chance(50) ? 0 : 1 + r.below(100), r.u64()); std::istream is(&cb); if(way == 1) Tree().unpack(Lib::In::Source(e.p, e.n), p, field, w, "m", m); else Tree().unpack(is, p, field, w); });
        } catch(Srl::Exception&) { threw = true; }
    };
    const char* field = what >= 4 ? r.pick<const char*>({ "i", "s", "z", "f", "t", "no such field" }) : "x";
    switch(what) {
        case 1 : { BitWrap w(mem.p, mem.n); paste(field, w); ctx = "no allocation function"; break; }
        case 2 : { size_t got = 0; int times = 0; BitWrap w([&](size_t n) { got = n; times++; return (uint8_t*)nullptr; }); paste(field, w); ctx = "no memory"; VCHECK(times == 1 && got == data.size(), "blob:refuse", "asked " + std::to_string(times) + " times for " + std::to_string(got)); break; }
        case 3 : {
            if(data.size() % 4 == 0) return;
            std::vector<uint32_t> v { 1, 2, 3 }; VecWrap<uint32_t> w(v); paste(field, w); ctx = "no whole number of elements";
            VCHECK(v == (std::vector<uint32_t> { 1, 2, 3 }), "blob:refuse", "the elements were changed although the data was refused"); break;
        }
        case 4 : { BitWrap w([&](size_t n) { return in.give(n); }); paste(field, w); ctx = std::string("field ") + field; VCHECK(in.asked.empty(), "blob:refuse", ctx + ": memory was asked for"); break; }
        case 5 : { Bytes b(Buf { 1, 2, 3 }); paste(field, b); ctx = std::string("Bytes from field ") + field; VCHECK(std::move(b).extract() == (Buf { 1, 2, 3 }), "blob:refuse", ctx + ": the content was changed"); break; }
    }
    VCHECK(threw, "blob:refuse", std::string(name(f)) + ", way " + std::to_string(way) + ": " + ctx + ": was accepted");
    VCHECK(!std::memcmp(mem.p, data.data(), data.size()), "blob:refuse", ctx + ": the stored memory was changed");
    // the tree holds what it held
    std::string why; BitWrap ok([&](size_t n) { return in.give(n); }); in.asked.clear(); in.mem.clear();
    u.root().paste_field("x", ok);
    VCHECK(in.holds(data, &why), "blob:refuse", ctx + ", then: " + why);
    count("refused");
}

// a wrapper stays usable: what it restored is what it stores next, through copies as well
template<class T> static void wrapper(Rng& r)
{
    std::vector<T> v(r.below(20)); Fmt f = r.pick(all_formats);
    std::unique_ptr<VecWrap<T>> w(new VecWrap<T>(v));
    for(auto n = r.range(1, 8); n > 0; n--) {
        size_t len = length(r); len -= len % sizeof(T);
        Buf data = random_bytes(r, len), got;
        if(r.chance(50)) w.reset(new VecWrap<T>(*w));    // the copy outlives what it is a copy of
        Tree t; t.root().insert("x", BitWrap(data.data(), data.size()));
        bool broken = sizeof(T) > 1 && r.chance(20); std::vector<T> before = v;
        if(broken) { data.push_back(1); t.clear(); t.root().insert("x", BitWrap(data.data(), data.size())); }
        bool threw = false;
        try {
            if(r.chance(40)) t.root().paste_field("x", *w);
            else with_parser(f, [&](auto& p) { auto b = t.to_source(p); Exact e(b); Tree().unpack(Lib::In::Source(e.p, e.n), p, "x", *w); });
        } catch(Srl::Exception&) { threw = true; }
        VCHECK(threw == broken, "blob:wrapper", std::string(name(f)) + (threw ? ": refused " : ": accepted ") + std::to_string(data.size()) + " bytes");
        if(broken) { data.resize(before.size() * sizeof(T)); if(data.size()) std::memcpy(data.data(), before.data(), data.size()); }
        VCHECK(v.size() * sizeof(T) == data.size() && (data.empty() || !std::memcmp(v.data(), data.data(), data.size())), "blob:wrapper", std::string(name(f)) + ": restored other data");
        Tree u; Bytes b;
        u.root().insert("x", *w); u.root().paste_field("x", b); got = std::move(b).extract();
        VCHECK(got == data, "blob:wrapper", std::string(name(f)) + ": stores " + hex(got) + " after " + hex(data) + " was restored");
        count("wrappers used again");
        if(data.size()) distinct(hash_bytes(data.data(), data.size()));
    }
}
static void wrappers(Rng& r, uint64_t idx)
{
    switch(idx % 5) { case 0 : wrapper<uint8_t>(r); break; case 1 : wrapper<int16_t>(r); break; case 2 : wrapper<float>(r); break; case 3 : wrapper<uint64_t>(r); break; default : wrapper<char>(r); }
}

// more than a value can hold: the size must not be cut. The memory is reserved only, nobody may have a reason to read it.
struct Over { const uint8_t* p; size_t n; int kind; bool twice;
    void srl_resolve(Context& c) { int one = 1, two = 2; if(twice) c("one", one);
        if(kind == 0) { BitWrap w(const_cast<uint8_t*>(p), n); c("x", w); } else if(kind == 1) { String w(p, n, Encoding::UTF8); c("x", w); } else if(kind == 2) { String w(p, n, Encoding::UTF16); c("x", w); } else { String w(p, n, Encoding::UTF8); c(w, two); }
        c("two", two); } };
static void oversize(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4]; int kind = (int)(idx / 4 % 4), way = (int)(idx / 16 % 4);
    static uint8_t* mem = nullptr; const size_t all = (1ull << 32) + (1 << 20);
    if(!mem) { mem = (uint8_t*)mmap(nullptr, all, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(mem == MAP_FAILED) { mem = nullptr; count("no room for oversized data"); return; } }
    size_t n = (1ull << 32) + 4 * r.below(r.pick({ 1, 3, 30, 3000 })); Over x { mem, n, kind, r.chance(50) };
    Tree t; bool threw = false; Buf out; std::ostringstream os; std::string ctx = "kind " + std::to_string(kind) + ", way " + std::to_string(way) + ", " + std::to_string(n) + " bytes, " + name(f);
    try {
        with_parser(f, [&](Parser& p) {
            switch(way) { case 0 : out = t.store(x, p); break; case 1 : t.store(x, static_cast<std::ostream&>(os), p); break; case 2 : t.pack(out, p, "n", 1, "x", x); break; default : t.root().insert("n", 1); t.root().insert("x", x); out = t.to_source(p); break; }
            return 0; });
    } catch(Srl::Exception&) { threw = true; }
    VCHECK(threw, "blob:oversize", ctx + " were written as " + std::to_string(out.size() + os.str().size()) + " bytes");
    Tree u; u.root().insert("a", 1); threw = false; String name_of(mem, 4, Encoding::UTF8);
    try { BitWrap w(mem, n); if(kind == 0) u.root().insert("x", w); else if(kind == 3) u.root().insert(String(mem, n, Encoding::UTF8), 1); else u.root().insert("x", String(mem, n, kind == 1 ? Encoding::UTF8 : Encoding::UTF16)); } catch(Srl::Exception&) { threw = true; }
    VCHECK(threw && u.root().num_values() == 1 && u.root().unwrap_field<int>("a") == 1, "blob:oversize", ctx + " were inserted");
    t.clear(); t.root().insert("a", 2); VCHECK(t.root().unwrap_field<int>("a") == 2, "blob:oversize", ctx + ": the tree afterwards");
    count("oversized refused"); distinct(hash_str(ctx, idx));
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P26", {
        { "roundtrip", 12000, 600000, roundtrip },
        { "nested", 4000, 200000, nested },
        { "text", 8000, 400000, text },
        { "refuse", 6000, 200000, refuse }, { "oversize", 128, 2000, oversize },
        { "wrappers", 2000, 200000, wrappers },
    });
}
