// P27: looking something up in a tree gives what is there under that name, whatever it is; converting it gives what
// converting the value or scope itself gives, and the ways that may fail without an exception do so exactly then.
#include "zoo.h"
using namespace vf; using namespace Srl;

static const Doc* find(const Doc& d, const std::string& n, bool scopes) { for(auto& k : d.kids) if(k.first == n && k.second.scope() == scopes) return &k.second; return nullptr; }
static const Doc* find(const Doc& d, const std::string& n) { auto* v = find(d, n, false); return v ? v : find(d, n, true); }
static Doc content(Union u) { return u.is_node() ? walk(*u.node()) : walk(*u.value()); }

struct Rec { int32_t n = 0; std::string s; std::vector<double> v; void srl_resolve(Context& c) { c("n", n)("s", s)("v", v); } };
namespace zoo { template<> struct Z<Rec> { static bool eq(const Rec& a, const Rec& b, string& w) { return zoo::eq(a.n, b.n, w) && zoo::eq(a.s, b.s, w) && zoo::eq(a.v, b.v, w); } };
template<> struct Z<Bytes> { static bool eq(const Bytes& a, const Bytes& b, string& w) { bool ok = std::move(const_cast<Bytes&>(a)).extract() == std::move(const_cast<Bytes&>(b)).extract(); if(!ok) w = "bytes"; return ok; } }; }

// what a number, text or truth value becomes as a T, as far as that is beyond doubt: 1 must succeed with `out`, 0 must be refused, -1 open
template<class T> static int model(const Doc& d, T& out)
{
    if constexpr(std::is_integral<T>::value && !std::is_same<T, bool>::value) {
        if(d.k == Doc::Int) {
            if(d.neg && d.mag) {
                if(!std::is_signed<T>::value || d.mag > (uint64_t)std::numeric_limits<T>::max() + 1) return 0;
                out = (T)(0 - d.mag); return 1;
            }
            if(d.mag > (uint64_t)std::numeric_limits<T>::max()) return 0;
            out = (T)d.mag; return 1;
        }
    }
    if constexpr(std::is_same<T, double>::value) {
        if(d.k == Doc::Fp) { out = d.d; return 1; }
        if(d.k == Doc::Int && d.mag < 1ull << 53) { out = d.neg ? -(double)d.mag : (double)d.mag; if(d.mag == 0) out = 0; return 1; }
    }
    if constexpr(std::is_same<T, bool>::value) if(d.k == Doc::Bool) { out = d.mag; return 1; }
    std::vector<uint32_t> c;
    if constexpr(std::is_same<T, std::string>::value) if(d.k == Doc::Str) { out = d.s; return 1; }
    if constexpr(std::is_same<T, std::u16string>::value) if(d.k == Doc::Str && utf8_decode(d.s, c)) { out = utf16_encode(c); return 1; }
    if constexpr(std::is_same<T, std::u32string>::value) if(d.k == Doc::Str && utf8_decode(d.s, c)) { out = utf32_encode(c); return 1; }
    if(d.scope() != TpTools::is_scope(Lib::Switch<T>::type)) return 0;
    return -1;
}

template<class T> static void convert(Union u, const Doc& d, const std::string& ctx)
{
    std::string how = ctx + ": as " + TpTools::get_name(Lib::Switch<T>::type) + "/" + std::to_string(sizeof(T)) + " of " + show(d, 120), w;
    // the value or scope itself
    std::optional<T> want;
    try {
        if constexpr(TpTools::is_scope(Lib::Switch<T>::type)) { if(u.is_node()) { T v {}; u.node()->paste(v); want.emplace(std::move(v)); } }
        else { if(u.is_value()) { T v {}; u.value()->paste(v); want.emplace(std::move(v)); } }
    } catch(Srl::Exception&) { }
    T m {}; int k = model<T>(d, m);
    if(k == 1) VCHECK(want && zoo::eq(m, *want, w), "union:conversion", how + ": " + (want ? w : "refused"));
    if(k == 0) VCHECK(!want, "union:conversion", how + ": accepted");
    auto judge = [&](const char* what, bool ok, const T* got) {
        VCHECK(ok == !!want, "union:outcome", how + ": " + what + (ok ? " accepts what is refused" : " refuses what is accepted"));
        if constexpr(std::is_same<T, Bytes>::value) return;         // compared once, below
        else if(ok) VCHECK(zoo::eq(*got, *want, w), "union:content", how + ": " + what + ": " + w);
        count(ok ? "conversions" : "conversions refused");
    };
    { bool ok = true; std::optional<T> g; try { g.emplace(u.unwrap<T>()); } catch(Srl::Exception&) { ok = false; } judge("unwrap", ok, g ? &*g : nullptr); }
    { bool ok = true; std::optional<T> g; try { g.emplace(u.operator T()); } catch(Srl::Exception&) { ok = false; } judge("conversion", ok, g ? &*g : nullptr); }
    { bool ok = true; T g {}; try { u.copy_to(g); } catch(Srl::Exception&) { ok = false; } judge("copy_to", ok, &g); }
    {
        std::optional<T> g;
        try { g = u.unwrap_if<T>(); } catch(...) { violation("union:unwrap_if", how + ": unwrap_if throws"); }
        judge("unwrap_if", !!g, g ? &*g : nullptr);
        if constexpr(std::is_same<T, Bytes>::value) if(g) VCHECK(zoo::eq(*g, *want, w), "union:content", how + ": " + w);
    }
}

static void convert_any(Rng& r, Union u, const Doc& d, const std::string& ctx)
{
#define C(N, T) case N : convert<T>(u, d, ctx); break;
    for(int i = 0; i < 6; i++) switch(r.below(24)) {
        C(0, int8_t) C(1, uint8_t) C(2, int16_t) C(3, uint16_t) C(4, int32_t) C(5, uint32_t) C(6, int64_t) C(7, uint64_t) C(8, float) C(9, double) C(10, bool)
        C(11, std::string) C(12, std::u16string) C(13, std::u32string) C(14, std::vector<int32_t>) C(15, std::vector<std::string>) C(16, std::vector<std::vector<double>>)
        C(17, Rec) C(18, std::list<Rec>) C(19, std::set<std::string>) C(20, Bytes) C(21, std::unique_ptr<Rec>) C(22, std::unique_ptr<int64_t>) C(23, std::deque<bool>)
    }
#undef C
}

static GenOpt opt(Rng& r) { GenOpt o; o.depth = (int)r.range(0, 5); o.budget = (int)r.range(1, 40); o.max_str = 300; o.big = r.chance(5); return o; }
static bool contains(const std::string& e, const std::string& n) { return e.find(n) != std::string::npos; }

// one level of a tree against the document
static void level(Rng& r, Tree& t, Node& node, const Doc& d, const std::string& ctx, int depth)
{
    std::vector<std::string> names; for(auto& k : d.kids) names.push_back(k.first);
    for(int i = 0; i < 3; i++) {
        std::string n = names.empty() || r.chance(30) ? gen_name(r) : r.pick(names);
        if(r.chance(15) && !names.empty()) { n = r.pick(names); if(r.chance(50)) n += "x"; else if(n.size()) n.resize(n.size() - 1); }
        Name nm(n, r);
        const Doc* want = find(d, n);
        bool threw = false; Union u;
        try { u = r.chance(50) ? node.get(nm.str()) : node[nm.str()]; } catch(Srl::Exception&) { threw = true; }
        VCHECK(threw == !want, "union:get", ctx + ": field " + vf::show(n) + (want ? " was not found in " : " was found in ") + show(d, 200));
        auto o = node.try_get(nm.str());
        VCHECK(!!o == !!want, "union:try_get", ctx + ": field " + vf::show(n));
        if(&node == &t.root()) {
            threw = false; Union x; try { x = t.get(nm.str()); } catch(Srl::Exception&) { threw = true; }
            auto y = t.try_get(nm.str());
            VCHECK(threw == !want && !!y == !!want, "union:get", ctx + ": of the tree, field " + vf::show(n));
            if(want) VCHECK(x.node() == u.node() && x.value() == u.value() && y->node() == u.node() && y->value() == u.value(), "union:get", ctx + ": of the tree, other than that of the root");
        }
        bool v = node.has_value(nm.str()), s = node.has_node(nm.str());
        VCHECK(v == !!find(d, n, false) && s == !!find(d, n, true), "union:has", ctx + ": " + vf::show(n));
        count(want ? "lookups" : "lookups of nothing");
        if(!want) continue;
        VCHECK(u.is_node() == want->scope() && u.is_value() == !want->scope() && !u.node() == !u.is_node() && !u.value() == !u.is_value(), "union:kind", ctx + ": field " + vf::show(n));
        VCHECK(o->node() == u.node() && o->value() == u.value(), "union:try_get", ctx + ": other field " + vf::show(n));
        if(u.is_node()) VCHECK(u.node() == &node.node(nm.str()), "union:get", ctx + ": other scope"); else VCHECK(u.value() == &node.value(nm.str()), "union:get", ctx + ": other value");
        std::string w; VCHECK(same(*want, content(u), &w), "union:content", ctx + ": field " + vf::show(n) + ": " + w);
        convert_any(r, u, *want, ctx + ": field " + vf::show(n));
        // the way through it
        std::string m = want->kids.empty() || r.chance(20) ? gen_name(r) : r.pick(want->kids).first;
        const Doc* inner = want->scope() ? find(*want, m) : nullptr;
        Name mm(m, r);
        threw = false; Union i2; std::string msg;
        try { i2 = u.get(mm.str()); } catch(Srl::Exception& e) { threw = true; msg = e.what(); }
        auto i3 = u.try_get(mm.str());
        VCHECK(threw == !inner && !!i3 == !!inner, "union:get", ctx + ": field " + vf::show(m) + " of field " + vf::show(n));
        if(inner) VCHECK(i2.node() == i3->node() && i2.value() == i3->value() && same(*inner, content(i2), &w), "union:content", ctx + ": field " + vf::show(m) + " of field " + vf::show(n) + ": " + w);
        // the message says which field it was
        std::vector<uint32_t> cp;
        if(threw && !m.empty() && n.find('\0') == std::string::npos && utf8_decode(m, cp) && std::all_of(m.begin(), m.end(), [](char c) { return isalnum((unsigned char)c); })) VCHECK(contains(msg, m), "union:message", ctx + ": the message does not name field " + m + ": " + msg);
        count("nested lookups");
    }
    // by position: scopes first if there is one, values otherwise
    std::vector<const Doc*> nodes, values; for(auto& k : d.kids) (k.second.scope() ? nodes : values).push_back(&k.second);
    for(size_t i : { (size_t)0, nodes.size(), values.size(), (size_t)r.below(10), (size_t)-1 }) {
        const Doc* want = i < nodes.size() ? nodes[i] : i < values.size() ? values[i] : nullptr;
        bool threw = false; Union u; try { u = node.get(i); } catch(Srl::Exception&) { threw = true; }
        auto o = node.try_get(i);
        VCHECK(threw == !want && !!o == !!want, "union:index", ctx + ": position " + std::to_string(i) + " of " + show(d, 100));
        std::string w;
        if(want) VCHECK(o->node() == u.node() && o->value() == u.value() && same(*want, content(u), &w), "union:index", ctx + ": position " + std::to_string(i) + ": " + w);
        count("positions");
    }
    if(depth < 4) for(size_t i = 0; i < nodes.size() && i < 3; i++) level(r, t, node.node(i), *nodes[i], ctx, depth + 1);
}

static void tree(Rng& r, uint64_t)
{
    Doc d = gen_doc(r, opt(r)); Tree t; std::string ctx = "built";
    if(r.chance(50)) build_root(t, d, r);
    else {
        Fmt f = r.pick(all_formats); ctx = name(f);
        Tree u; build_root(u, d, r); Buf b = encode(u, f); Exact e(b);
        ChunkBuf cb(b, r.chance(50) ? 0 : 1 + r.below(300), r.u64()); std::istream is(&cb);
        with_parser(f, [&](auto& p) { if(r.chance(50)) t.load_source(e.p, e.n, p); else t.load_source(is, p); });
    }
    Doc model = walk(t.root());
    if(ctx == "built") { std::string w; VCHECK(same(canon(d), model, &w), "union:tree", w); }
    level(r, t, t.root(), model, ctx, 0);
    std::string w; VCHECK(same(model, walk(t.root()), &w), "union:unchanged", ctx + ": looking at the tree changed it: " + w);
    if(d.kids.size()) distinct(hash(d));
}

// fields whose type is not known when they are restored, between fields whose type is
struct Part {
    std::vector<std::string> names; std::vector<int> kinds; std::vector<Union> unions; std::vector<Doc> other; Rng* r = nullptr; std::unique_ptr<Part> inner; std::string inner_name;
    size_t inner_at = ~(size_t)0; std::function<void(Part&)> ready;
    void ask(Node& n)
    {
        unions.resize(names.size()); other.resize(names.size());
        for(size_t i = 0; i < names.size(); i++) {
            if(i == inner_at) n.paste_field(String(inner_name), *inner);
            Name nm(names[i], *r);
            if(kinds[i] == 0) n.paste_field(nm.str(), unions[i]);
            else if(kinds[i] == 1) { std::string v; n.paste_field(nm.str(), v); other[i] = Doc::str(v); }
            else if(kinds[i] == 2) { int64_t v = 0; n.paste_field(nm.str(), v); other[i] = Doc::integer(v); }
        }
        if(ready) ready(*this);        // a union restored inside of an object is valid while that object is being restored
    }
    void srl_resolve(Context& c) { ask(c.node()); }
};

static Doc unique_names(const Doc& d)
{
    Doc o = d; o.kids.clear(); std::set<std::string> seen;
    for(auto& k : d.kids) if(seen.insert(k.first).second && (d.k == Doc::Arr || !k.first.empty())) o.kids.emplace_back(k.first, k.second.k == Doc::Obj ? unique_names(k.second) : k.second);
    return o;
}
static void plan(Rng& r, Part& p, const Doc& d, int depth)
{
    p.r = &r;
    std::vector<size_t> at(d.kids.size()); for(size_t i = 0; i < at.size(); i++) at[i] = i;
    if(r.chance(60)) r.shuffle(at);
    for(size_t i : at) {
        auto& k = d.kids[i];
        if(r.chance(15)) continue;
        if(depth < 4 && k.second.k == Doc::Obj && !p.inner && r.chance(50)) { p.inner.reset(new Part); p.inner_name = k.first; p.inner_at = p.names.size(); plan(r, *p.inner, k.second, depth + 1); continue; }
        p.names.push_back(k.first);
        std::vector<uint32_t> c;
        bool str = k.second.k == Doc::Str && utf8_decode(k.second.s, c), num = k.second.k == Doc::Int && (k.second.mag <= INT64_MAX);
        p.kinds.push_back(str && r.chance(40) ? 1 : num && r.chance(40) ? 2 : 0);
    }
    if(p.inner_at >= p.names.size()) p.inner.reset();               // asked for behind the last one: leave it
}
static void judge(Rng& r, Part& p, const Doc& d, const std::string& ctx)
{
    for(size_t i = 0; i < p.names.size(); i++) {
        const Doc* want = find(d, p.names[i]); std::string w;
        if(p.kinds[i] == 0) {
            VCHECK(p.unions[i].is_node() || p.unions[i].is_value(), "union:unpacked", ctx + ": nothing under " + vf::show(p.names[i]));
            VCHECK(same(*want, content(p.unions[i]), &w), "union:unpacked", ctx + ": field " + vf::show(p.names[i]) + ": " + w);
            convert_any(r, p.unions[i], *want, ctx + ": unpacked " + vf::show(p.names[i]));
            count("unions restored");
        } else {
            VCHECK(same(*want, p.other[i], &w) || (want->k == Doc::Int && want->mag == p.other[i].mag && want->neg == p.other[i].neg), "union:between", ctx + ": field " + vf::show(p.names[i]) + ": " + w);
            count("fields between");
        }
    }
}
static void judge_inside(Rng& r, Part& p, const Doc& d, const std::string& ctx)
{
    for(Part* x = &p; x; x = x->inner.get()) {
        const Doc* at = x == &p ? &d : nullptr; std::string path;
        if(!at) { const Doc* c = &d; for(Part* y = &p; y != x; y = y->inner.get()) { c = find(*c, y->inner_name); path += "/" + y->inner_name; } at = c; }
        x->ready = [&r, at, ctx](Part& q) { judge(r, q, *at, ctx + ", inside"); };
    }
}

static void unpacked(Rng& r, uint64_t)
{
    Doc d = gen_doc(r, opt(r)); d.k = Doc::Obj;
    for(size_t i = 0; i < d.kids.size(); i++) if(d.kids[i].first.empty()) d.kids[i].first = "f" + std::to_string(i);
    d = unique_names(d);
    Fmt f = r.pick(all_formats);
    Tree u; build_root(u, d, r); Buf b = encode(u, f);
    Tree ref; decode(ref, b, f); Doc m = walk(ref.root());          // values as the format keeps them
    Part p; plan(r, p, d, 0);
    Exact e(b); ChunkBuf cb(b, r.chance(50) ? 0 : 1 + r.below(300), r.u64()); std::istream is(&cb);
    int way = (int)r.below(4); std::string ctx = std::string(name(f)) + ", way " + std::to_string(way);
    Tree t; if(r.chance(20)) { build_root(t, Doc::obj().add("old", Doc::integer(1)), r); }
    judge_inside(r, p, m, ctx);
    try {
        with_parser(f, [&](auto& ps) {
            if(way == 0) t.restore(p, e.p, e.n, ps);
            else if(way == 1) t.restore(p, is, ps);
            else if(way == 2) { t.load_source(is, ps); t.root().paste(p); }
            else {
                // up to three by unpack
                if(p.names.size() < 3) { t.restore(p, e.p, e.n, ps); return; }
                p.ready = nullptr; p.names.resize(3); p.kinds.assign(3, 0); p.inner.reset(); p.unions.resize(3);
                Name a(p.names[0], r), c(p.names[1], r), g(p.names[2], r);
                auto &sa = a.s8, &sc = c.s8, &sg = g.s8;
                if(r.chance(50)) t.unpack(is, ps, sa, p.unions[0], sc, p.unions[1], sg, p.unions[2]);
                else t.unpack(Lib::In::Source(e.p, e.n), ps, sa, p.unions[0], sc, p.unions[1], sg, p.unions[2]);
            }
        });
    } catch(Srl::Exception& x) { violation("union:unpacked:refused", ctx + ": " + x.what() + " " + show(d)); }
    judge(r, p, m, ctx + " of " + show(d, 150));
    if(d.kids.size()) distinct(hash(d));
}

static void empty(Rng& r, uint64_t)
{
    Union u; bool threw;
    VCHECK(!u.is_node() && !u.is_value() && !u.node() && !u.value(), "union:empty", "something is in an empty union");
    auto refuse = [&](const char* what, auto&& fn) { threw = false; try { fn(); } catch(Srl::Exception&) { threw = true; } VCHECK(threw, "union:empty", std::string(what) + " of an empty union was accepted"); count("empty"); };
    refuse("unwrap", [&] { u.unwrap<int>(); }); refuse("unwrap", [&] { u.unwrap<std::vector<int>>(); }); refuse("conversion", [&] { std::string s = u.operator std::string(); });
    refuse("copy_to", [&] { int i; u.copy_to(i); }); refuse("copy_to", [&] { Rec v; u.copy_to(v); }); refuse("get", [&] { u.get(gen_name(r)); });
    VCHECK(!u.unwrap_if<int>() && !u.unwrap_if<std::vector<std::string>>() && !u.unwrap_if<Rec>() && !u.try_get(gen_name(r)), "union:empty", "something was found in an empty union");
    // a field that is not there is refused and leaves the union as it was
    Tree t; t.root().insert("a", 1); auto keep = t.get("a"); Union v = keep;
    refuse("paste_field", [&] { t.root().paste_field("b", v); });
    VCHECK(v.value() == keep.value(), "union:missing", "a union was changed although its field is missing");
    Fmt f = r.pick(all_formats); Buf b = encode(t, f); Union w;
    refuse("unpack", [&] { with_parser(f, [&](auto& p) { Tree().unpack(b, p, "b", w); }); });
    VCHECK(!w.is_node() && !w.is_value(), "union:missing", "a union holds something although its field is missing");
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P27", {
        { "tree", 16000, 800000, tree },
        { "unpacked", 16000, 800000, unpacked },
        { "empty", 40, 400, empty },
    });
}
