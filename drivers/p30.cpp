// P30: objects are created the way their class asks for: wherever the library has to make an object of a user's class it asks Ctor of this class,
// so that private and missing default constructors and routines of the user's own work; everything made is delivered or destroyed.
#include "zoo.h"
#include <deque>
#include <unordered_map>
using namespace vf; using namespace Srl;

static uint64_t issued = 0;                 // serial numbers given out by the routines of the user
static int64_t  live = 0;                   // objects of all classes below
static int64_t  fuse = -1;                  // the n-th creation from now throws
struct Refused { };
static uint64_t issue() { if(fuse >= 0 && fuse-- == 0) { fuse = -1; throw Refused(); } return ++issued; }

struct Live { Live() { live++; } Live(const Live&) { live++; } Live& operator=(const Live&) { return *this; } ~Live() { live--; } };
// (what a class inherits is not found by the library, each one has its own srl_resolve)
struct Made {                               // what all of them have; by says who made it
    Live alive; uint64_t by = 0; int32_t a = 0; std::string s;
    void srl_resolve(Context& c) { c("a", a)("s", s); }
    void fill(Rng& r) { a = (int32_t)r.bits64(); s = gen_text(r, 20); }
};
// a default constructor nobody but Ctor may use
#ifdef ORDINARY     // only compiled, to see whether these classes are what the compiler rejects
#define RESTRICTED public:
#define ORD(...) __VA_ARGS__
#else
#define RESTRICTED
#define ORD(...)
#endif
class Hidden : public Made { friend struct Srl::Ctor<Hidden>; RESTRICTED Hidden() { by = issue(); } public: void srl_resolve(Context& c) { Made::srl_resolve(c); } static Hidden get() { return Hidden(0); } explicit Hidden(int) { by = ~0ull; } };
// no default constructor at all
struct Special : Made { ORD(Special() { }) explicit Special(uint64_t n) { by = n; } void srl_resolve(Context& c) { Made::srl_resolve(c); } bool operator<(const Special& o) const { return std::tie(a, s) < std::tie(o.a, o.s); } };
// neither moved nor copied
struct Fixed : Made { ORD(Fixed() { }) explicit Fixed(uint64_t n) { by = n; } Fixed(Fixed&&) = delete; std::vector<Special> more; void srl_resolve(Context& c) { Made::srl_resolve(c); c("more", more); } void fill(Rng& r) { Made::fill(r); for(auto n = r.below(3); n > 0; n--) { more.emplace_back(1); more.back().fill(r); } } };
// the same with public default constructors as well, which are not to be used (their objects have no serial number)
struct Special2 : Made { Special2() { } explicit Special2(uint64_t n) { by = n; } void srl_resolve(Context& c) { Made::srl_resolve(c); } bool operator<(const Special2& o) const { return std::tie(a, s) < std::tie(o.a, o.s); } };
struct Hidden2 : Made { Hidden2() { } static Hidden2 get() { return Hidden2(); } void srl_resolve(Context& c) { Made::srl_resolve(c); } };
struct Fixed2 : Made { Fixed2() { } explicit Fixed2(uint64_t n) { by = n; } Fixed2(Fixed2&&) = delete; std::vector<Special2> more; void srl_resolve(Context& c) { Made::srl_resolve(c); c("more", more); } void fill(Rng& r) { Made::fill(r); for(auto n = r.below(3); n > 0; n--) { more.emplace_back(1); more.back().fill(r); } } };
// polymorphic: one with a private constructor, one with a routine
struct Base : Made { virtual ~Base() { } virtual const TypeID& srl_type_id() = 0; virtual void srl_resolve(Context& c) { Made::srl_resolve(c); } };
class Private : public Base { friend struct Srl::Ctor<Private>; RESTRICTED Private() { by = issue(); } public: explicit Private(int) { } const TypeID& srl_type_id() override; };
struct Routine : Base { const int secret; ORD(Routine() : secret(0) { }) explicit Routine(int x) : secret(x) { } int32_t extra = 0; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { Base::srl_resolve(c); c("extra", extra); } };
struct Both : Base { const TypeID& srl_type_id() override; };

#ifndef ORDINARY
namespace Srl {
    template<> struct Ctor<Special> { static Special Create() { count("made as values"); return Special(issue()); } static std::unique_ptr<Special> Create_New() { count("made on the heap"); return std::unique_ptr<Special>(new Special(issue())); } };
    template<> struct Ctor<Fixed>   { static std::unique_ptr<Fixed> Create_New() { count("made on the heap"); return std::unique_ptr<Fixed>(new Fixed(issue())); } };
    template<> struct Ctor<Special2> { static Special2 Create() { count("not by the default constructor"); return Special2(issue()); } static std::unique_ptr<Special2> Create_New() { return std::unique_ptr<Special2>(new Special2(issue())); } };
    template<> struct Ctor<Hidden2>  { static Hidden2 Create() { Hidden2 x; x.by = issue(); return x; } static std::unique_ptr<Hidden2> Create_New() { return std::unique_ptr<Hidden2>(new Hidden2(Create())); } };
    template<> struct Ctor<Fixed2>   { static std::unique_ptr<Fixed2> Create_New() { return std::unique_ptr<Fixed2>(new Fixed2(issue())); } };
    template<> struct Ctor<Both>     { static std::unique_ptr<Both> Create_New() { std::unique_ptr<Both> p(new Both()); p->by = issue(); return p; } };
    template<> struct Ctor<Routine> { static std::unique_ptr<Routine> Create_New() { count("polymorphic ones made"); std::unique_ptr<Routine> p(new Routine(4711)); p->by = issue(); return p; } };
}
#endif
static const auto id_both = Srl::register_type<Both>("Both"); static const auto id_private = Srl::register_type<Private>("Private"); static const auto id_routine = Srl::register_type<Routine>("Routine");
const TypeID& Private::srl_type_id() { return id_private; }
const TypeID& Both::srl_type_id() { return id_both; }
const TypeID& Routine::srl_type_id() { return id_routine; }

static uint64_t mark = 0; static bool fresh = false;        // what was issued before this restore does not count
static size_t seen = 0;
template<class A> static void equal(const A& a, const A& b, const std::string& where)
{
    VCHECK(a.a == b.a && a.s == b.s, "made:content", where + ": " + std::to_string(b.a) + " " + vf::show(b.s) + " instead of " + std::to_string(a.a) + " " + vf::show(a.s));
    VCHECK(!fresh || (b.by > mark && b.by <= issued), "made:by", where + ": an object which was not made by Ctor of its class");
    seen++;
}
template<class A> static void eq(const std::vector<A>& a, const std::vector<A>& b, const std::string& w);
static void eq(const Special& a, const Special& b, const std::string& w) { equal(a, b, w); }
static void eq(const Hidden& a, const Hidden& b, const std::string& w) { equal(a, b, w); }
static void eq(const Fixed& a, const Fixed& b, const std::string& w) { equal(a, b, w); eq(a.more, b.more, w + ".more"); }
static void eq(const Special2& a, const Special2& b, const std::string& w) { equal(a, b, w); }
static void eq(const Hidden2& a, const Hidden2& b, const std::string& w) { equal(a, b, w); }
static void eq(const Fixed2& a, const Fixed2& b, const std::string& w) { equal(a, b, w); eq(a.more, b.more, w + ".more"); }
static void eq(const Base& a, const Base& b, const std::string& w)
{
    VCHECK(typeid(a) == typeid(b), "made:class", w); equal(a, b, w);
    if(auto* x = dynamic_cast<const Routine*>(&a)) { auto* y = dynamic_cast<const Routine*>(&b); VCHECK(x->extra == y->extra && (!fresh || y->secret == 4711), "made:by", w); }
}
static void eq(const std::string& a, const std::string& b, const std::string& w) { VCHECK(a == b, "made:content", w); }
static void eq(int32_t a, int32_t b, const std::string& w) { VCHECK(a == b, "made:content", w); }
template<class P> static void eqp(const P& a, const P& b, const std::string& w) { VCHECK(!!a == !!b, "made:content", w + ": empty or not"); if(a) eq(*a, *b, w); }
template<class A> static void eq(const std::unique_ptr<A>& a, const std::unique_ptr<A>& b, const std::string& w) { eqp(a, b, w); }
template<class A> static void eq(const std::shared_ptr<A>& a, const std::shared_ptr<A>& b, const std::string& w) { eqp(a, b, w); }
template<class A, class B> static void eq(const std::pair<A, B>& a, const std::pair<A, B>& b, const std::string& w) { eq(a.first, b.first, w + ".first"); eq(a.second, b.second, w + ".second"); }
template<class C> static void eqc(const C& a, const C& b, const std::string& w) { VCHECK(a.size() == b.size(), "made:content", w + ": " + std::to_string(b.size()) + " elements instead of " + std::to_string(a.size())); auto i = b.begin(); for(auto& x : a) eq(x, *i++, w + "[]"); }
template<class A> static void eq(const std::vector<A>& a, const std::vector<A>& b, const std::string& w) { eqc(a, b, w); }

template<class Sp, class Hi, class Fx> struct Holder {
    std::vector<Sp> v; std::list<Hi> l; std::deque<Sp> d; std::set<Sp> s; std::map<Sp, Hi> m; std::unordered_map<std::string, Sp> um; Lib::HTable<std::string, Sp> ht;
    std::unique_ptr<Fx> u; std::shared_ptr<Sp> sh, sh2; std::weak_ptr<Sp> weak; Fx* raw = nullptr; std::vector<std::unique_ptr<Fx>> vu; std::list<std::shared_ptr<Hi>> ls; std::map<int32_t, std::shared_ptr<Fx>> mu;
    std::vector<std::vector<Hi>> vv; std::unique_ptr<Base> b; std::vector<std::unique_ptr<Base>> vb; std::shared_ptr<Base> sb; Base* rb = nullptr; std::unique_ptr<std::vector<Sp>> uv;
    Sp own { 1 }; Hi mine = Hi::get();
    Holder() { } Holder(Holder&&) = delete;
    ~Holder() { delete raw; delete rb; }
    void srl_resolve(Context& c)
    {
        c("v", v)("l", l)("d", d)("s", s)("m", m)("um", um)("ht", ht)("sh", sh)("weak", weak)("vu", vu)("ls", ls)("mu", mu)("vv", vv)("vb", vb)("sb", sb)("b", b)("rb", rb)("sh2", sh2)("u", u)("raw", raw)("uv", uv)("own", own)("mine", mine);
    }
    static Base* base(Rng& r) { Base* p; auto k = r.below(3); if(k == 0) p = new Private(1); else if(k == 1) p = new Both(); else { auto* q = new Routine(1); q->extra = (int32_t)r.u64(); p = q; } p->fill(r); return p; }
    void fill(Rng& r)
    {
        auto n = [&] { return r.below(5); };
        auto sp = [&] { Sp x(1); x.fill(r); return x; }; auto hi = [&] { Hi x = Hi::get(); x.fill(r); return x; };
        for(auto i = n(); i > 0; i--) v.push_back(sp()); for(auto i = n(); i > 0; i--) l.push_back(hi()); for(auto i = n(); i > 0; i--) d.push_back(sp());
        for(auto i = n(); i > 0; i--) s.insert(sp()); for(auto i = n(); i > 0; i--) m.emplace(sp(), hi());
        for(auto i = n(); i > 0; i--) um.emplace(gen_text(r, 9), sp()); for(auto i = n(); i > 0; i--) ht.insert(gen_text(r, 9), sp());
        if(r.chance(70)) { u.reset(new Fx(1)); u->fill(r); } sh = std::make_shared<Sp>(sp()); weak = sh; sh2 = r.chance(50) ? sh : std::make_shared<Sp>(sp()); if(r.chance(70)) { raw = new Fx(1); raw->fill(r); }
        for(auto i = n(); i > 0; i--) { vu.emplace_back(new Fx(1)); vu.back()->fill(r); } for(auto i = n(); i > 0; i--) ls.push_back(std::make_shared<Hi>(hi()));
        for(auto i = n(); i > 0; i--) { auto p = std::make_shared<Fx>(1); p->fill(r); mu[(int32_t)r.u64()] = p; }
        for(auto i = n(); i > 0; i--) { vv.emplace_back(); for(auto j = n(); j > 0; j--) vv.back().push_back(hi()); }
        b.reset(base(r)); for(auto i = n(); i > 0; i--) vb.emplace_back(base(r)); sb.reset(base(r)); rb = base(r); uv.reset(new std::vector<Sp>()); for(auto i = n(); i > 0; i--) uv->push_back(sp());
        own.fill(r); mine.fill(r);
    }
    void compare(const Holder& o) const
    {
        eq(v, o.v, "vector"); eqc(l, o.l, "list"); eqc(d, o.d, "deque"); eqc(s, o.s, "set"); eqc(m, o.m, "map"); eqp(u, o.u, "unique_ptr"); eqp(sh, o.sh, "shared_ptr"); eqp(sh2, o.sh2, "shared_ptr"); eqp(raw, o.raw, "pointer");
        VCHECK((sh == sh2) == (o.sh == o.sh2) && o.weak.lock() == o.sh, "made:shared", "identity of what is shared");
        eq(vu, o.vu, "vector of unique_ptr"); eqc(ls, o.ls, "list of shared_ptr"); eqc(mu, o.mu, "map of shared_ptr"); eq(vv, o.vv, "nested vectors"); eq(b, o.b, "polymorphic unique_ptr"); eq(vb, o.vb, "polymorphic vector"); eq(sb, o.sb, "polymorphic shared_ptr"); eqp(rb, o.rb, "polymorphic pointer"); eqp(uv, o.uv, "pointer to vector");
        VCHECK(um.size() == o.um.size() && ht.num_entries() == o.ht.num_entries(), "made:content", "sizes of tables");
        for(auto& e : um) { auto f = o.um.find(e.first); VCHECK(f != o.um.end(), "made:content", "unordered_map"); eq(e.second, f->second, "unordered_map"); }
        ht.foreach([&](const std::string& k, Sp& x) { auto* f = const_cast<Holder&>(o).ht.get(k); VCHECK(f, "made:content", "HTable"); eq(x, *f, "HTable"); });
        bool f = fresh; fresh = false; eq(own, o.own, "field"); eq(mine, o.mine, "field"); fresh = f;
    }
};

template<class H> static Buf store(H& h, Fmt f) { return with_parser(f, [&](Parser& p) { return Tree().store(h, p); }); }
template<class H> static void restore(H& h, const Buf& b, Fmt f, Tree& t, int route, uint64_t seed)
{
    with_parser(f, [&](Parser& p) {
        switch(route) {
            case 0 : t.restore(h, b.data(), b.size(), p); break;
            case 1 : { ChunkBuf cb(b, 0, seed); std::istream is(&cb); t.restore(h, is, p); break; }
            case 2 : t.load_source(b.data(), b.size(), p); t.root().paste(h); break;
            default : t.load_source(b.data(), b.size(), p); Union(t.root()).copy_to(h); break;
        }
    });
}

template<class H> static void holders(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4]; int route = (int)(idx / 4 % 4); int64_t before = live;
    {
        H a; a.fill(r); Buf b = store(a, f); int64_t mine = live; fresh = true;
        {
            H c; if(r.chance(40)) c.fill(r); Tree t; mark = issued; seen = 0; int64_t empty = live;
            restore(c, b, f, t, route, r.u64()); a.compare(c); count("objects", seen);
            uint64_t made = issued - mark; (void)empty;
            // every creation in turn fails
            if(made) for(auto k = thorough() ? made : std::min<uint64_t>(made, 6); k > 0; k--) {
                H g; if(r.chance(50)) g.fill(r);
                fuse = thorough() ? (int64_t)k - 1 : (int64_t)r.below(made); bool out = false;
                try { restore(g, b, f, t, route, r.u64()); } catch(Refused&) { out = true; } catch(Exception&) { out = true; }
                VCHECK(out, "made:refused", "an exception of the user's routine is lost"); fuse = -1; count("routines which threw");
                if(r.chance(40)) { mark = issued; restore(g, b, f, t, route, r.u64()); a.compare(g); }
            }
        }
        VCHECK(live == mine, "made:lost", std::to_string(live - mine) + " objects more than before are alive after all restored ones are gone, " + name(f) + " route " + std::to_string(route));
        distinct(hash_bytes(b.data(), b.size(), idx % 16)); fresh = false;
    }
    VCHECK(live == before, "made:lost", std::to_string(live - before) + " objects are alive");
}

// objects asked for one by one
template<class Sp, class Hi> static void single(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4]; int64_t before = live; fresh = true;
    {
        Sp a(1); a.fill(r); Hi h = Hi::get(); h.fill(r); std::vector<Sp> v; for(auto n = r.below(4); n > 0; n--) { v.emplace_back(1); v.back().fill(r); }
        mark = issued;
        Buf b = with_parser(f, [&](Parser& p) { return Tree().store(a, p); }), bh = with_parser(f, [&](Parser& p) { return Tree().store(h, p); }), bv = with_parser(f, [&](Parser& p) { return Tree().store(v, p); });
        VCHECK(issued == mark, "made:store", "storing makes objects");
        Tree t;
        with_parser(f, [&](Parser& p) {
            eq(a, t.restore<Sp>(b.data(), b.size(), p), "restore<T>"); eq(h, t.restore<Hi>(bh.data(), bh.size(), p), "restore<T>"); eq(v, t.restore<std::vector<Sp>>(bv, p), "restore<T>");
            eq(a, t.restore<Sp>(Lib::In::Source(b), p), "restore<T>");
            t.load_source(b.data(), b.size(), p); eq(a, t.root().unwrap<Sp>(), "unwrap<T>"); eq(a, Union(t.root()).unwrap<Sp>(), "union");
        });
        Tree u; u.root().insert("a", a, "h", h, "v", v); Node& n = u.root();
        eq(a, n.unwrap_field<Sp>("a"), "unwrap_field"); eq(h, n.unwrap_field<Hi>("h"), "unwrap_field"); eq(v, n.unwrap_field<std::vector<Sp>>("v"), "unwrap_field"); eq(h, n.unwrap_field<Hi>(1), "unwrap_field by position");
        eq(a, n.get("a").template unwrap<Sp>(), "union"); Sp c = u.get("a"); eq(a, c, "union"); auto o = n["h"].template unwrap_if<Hi>(); VCHECK(!!o, "made:content", "unwrap_if"); eq(h, *o, "unwrap_if");
        auto q = n.unwrap_field<std::unique_ptr<Sp>>("a"); eq(a, *q, "unwrap_field of a pointer");
        count("objects asked for", 12); distinct(hash_bytes(b.data(), b.size(), idx % 4));
    }
    fresh = false; VCHECK(live == before, "made:lost", std::to_string(live - before) + " objects are alive");
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P30", {
        { "holders", 2000, 80000, holders<Holder<Special, Hidden, Fixed>> }, { "holders2", 1600, 80000, holders<Holder<Special2, Hidden2, Fixed2>> },
        { "single", 2400, 100000, single<Special, Hidden> }, { "single2", 2000, 100000, single<Special2, Hidden2> } });
}
