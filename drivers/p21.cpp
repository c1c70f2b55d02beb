// P21: nesting up to the limit is accepted everywhere, anything deeper is refused by an exception before it can exhaust
// the stack; what is skipped may be of any depth.
#include "zoo.h"
#include <sys/resource.h>
#include <thread>
#include <pthread.h>
using namespace vf; using namespace Srl;

static const int Limit = 128;         // scopes below the root

struct Rec { int32_t n = 0; std::unique_ptr<Rec> next; std::vector<Rec> kids; void srl_resolve(Context& c) { c("n", n, CtxFlags::Optional)("next", next, CtxFlags::Optional)("kids", kids, CtxFlags::Optional); } };

// scopes inside of each other; path: kind of each scope from the root on, true for arrays
static Buf nested(Rng& r, Fmt f, const std::vector<bool>& arr, const std::vector<std::string>& names, bool close, bool siblings)
{
    Buf b; std::string s;
    size_t n = arr.size();
    if(is_json(f)) {
        for(size_t i = 0; i < n; i++) { if(i && !arr[i - 1]) s += "\"" + names[i] + "\":"; s += arr[i] ? "[" : "{"; if(siblings && r.chance(10)) s += arr[i] ? "1," : "\"v\":1,"; }
        if(arr[n - 1]) s += "1";
        if(close) for(size_t i = n; i-- > 0; ) s += arr[i] ? "]" : "}";
        b.assign(s.begin(), s.end());
    } else if(f == Fmt::MsgPack) {
        for(size_t i = 0; i < n; i++) {
            if(i && !arr[i - 1]) { s += (char)(0xA0 | names[i].size()); s += names[i]; }
            bool two = siblings && r.chance(10), last = i + 1 == n;
            s += (char)((arr[i] ? 0x90 : 0x80) | (last ? 0 : two ? 2 : 1));
            if(two && !last) { if(!arr[i]) s += "\xA1v"; s += '\x01'; }
        }
        b.assign(s.begin(), s.end());
    } else {
        // the reference writer is recursive; deep documents are put together here: type byte, name, scope ends
        Doc d = arr[0] ? Doc::arr() : Doc::obj();
        Buf head = psrl_write(d);
        (void)head;
        // from a shallow sample of each transition the bytes are learnt
        auto bytes = [&](bool root_arr, bool in_arr, const std::string& nm) { Doc x = root_arr ? Doc::arr() : Doc::obj(); x.add(root_arr ? "" : nm, in_arr ? Doc::arr() : Doc::obj()); Buf y = psrl_write(x); return Buf(y.begin() + 1, y.end() - 2); };
        Buf root = psrl_write(d); b.push_back(root[0]); uint8_t end = root[1];
        std::map<std::string, size_t> known;
        for(size_t i = 1; i < n; i++) {
            auto nm = arr[i - 1] ? std::string() : names[i];
            auto it = known.find(nm);
            if(arr[i - 1] || it == known.end()) { auto x = bytes(arr[i - 1], arr[i], nm); b.insert(b.end(), x.begin(), x.end()); if(!arr[i - 1]) { size_t id = known.size(); known[nm] = id; } }
            else {
                Doc x = Doc::obj(); for(size_t k = 0; k < known.size(); k++) for(auto& e : known) if(e.second == k) x.add(e.first, Doc::obj());
                x.add(nm, arr[i] ? Doc::arr() : Doc::obj());
                Buf y = psrl_write(x);
                b.push_back(y[y.size() - 4]); b.push_back(y[y.size() - 3]);
            }
        }
        if(close) b.insert(b.end(), n, end);
    }
    return b;
}

template<class F> static bool refused(F&& f) { try { f(); return false; } catch(Exception&) { return true; } }

static void on_small_stack(const std::function<void()>& f)
{
    // what is refused must be refused with little stack: a thread with 512 kB (sanitized frames are large)
    std::exception_ptr e;
    struct A { const std::function<void()>* f; std::exception_ptr* e; } a { &f, &e };
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20);
    pthread_t t;
    if(pthread_create(&t, &at, [](void* p) -> void* { auto* x = (A*)p; try { (*x->f)(); } catch(...) { *x->e = std::current_exception(); } return nullptr; }, &a)) { f(); return; }
    pthread_join(t, nullptr); pthread_attr_destroy(&at);
    if(e) std::rethrow_exception(e);
}

static void trees(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    size_t n = r.chance(50) ? (size_t)r.range(Limit - 2, Limit + 5) : r.chance(50) ? (size_t)r.range(1, Limit + 1) : r.chance(60) ? (size_t)r.range(Limit + 2, 1000) : (size_t)r.range(1000, thorough() ? 1000000 : 100000);
    std::vector<bool> arr; std::vector<std::string> names; int mode = (int)r.below(3);
    for(size_t i = 0; i < n; i++) { arr.push_back(mode == 0 ? r.chance(50) : mode == 1); names.push_back(r.pick<std::string>({ "a", "b", "next" })); }
    bool close = r.chance(70) || n <= (size_t)Limit + 1, sib = r.chance(50);
    Buf b = nested(r, f, arr, names, close, sib);
    Exact e(b); std::string ctx = std::string(name(f)) + ", " + std::to_string(n) + " scopes";
    bool deep = n > (size_t)Limit + 1;
    on_small_stack([&]() { with_parser(f, [&](Parser& p) {
        Tree t;
        bool no = refused([&]() { if(r.chance(50)) t.load_source(e.p, e.n, p); else { ChunkBuf cb(b, n > 5000 ? 4096 : 0, r.u64()); std::istream is(&cb); t.load_source(is, p); } });
        VCHECK(no == deep, "nesting:load", ctx + (no ? " were refused" : " were accepted"));
        if(!no) {
            Node* x = &t.root(); size_t k = 1;
            while(x->num_nodes()) { x = &x->node(0); k++; }
            VCHECK(k == n, "nesting:load", ctx + " were read as " + std::to_string(k));
            // and written again
            auto again = t.to_source(p); Tree u; u.load_source(again.data(), again.size(), p);
        }
        count(no ? "refused" : "accepted");
        // the tree and the parser are as good as new
        Buf ok = nested(r, f, { false, true }, { "a", "a" }, true, false);
        t.load_source(ok.data(), ok.size(), p);
        VCHECK(t.root().num_nodes() == 1 && t.root().node("a").type() == Type::Array, "nesting:reuse", ctx);
    }); });
    distinct(hash_bytes(b.data(), b.size(), (uint64_t)f));
}

// as a type which nests as deep as the document says
static void typed(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    size_t n = r.chance(60) ? (size_t)r.range(Limit - 3, Limit + 6) : r.chance(50) ? (size_t)r.range(1, Limit) : (size_t)r.range(Limit + 7, 30000);
    // root is a Rec; below it either a next (one scope) or kids (two scopes) or a map (three scopes and its element)
    std::vector<bool> arr { false }; std::vector<std::string> names { "" };
    bool links_only = r.chance(40);
    while(arr.size() < n) {
        if(links_only || r.chance(60) || arr.size() + 2 > n) { arr.push_back(false); names.push_back("next"); }
        else { arr.push_back(true); names.push_back("kids"); arr.push_back(false); names.push_back(""); }
    }
    n = arr.size();
    Buf b = nested(r, f, arr, names, true, false);
    Exact e(b); bool deep = n > (size_t)Limit + 1; std::string ctx = std::string(name(f)) + ", objects of " + std::to_string(n) + " scopes";
    on_small_stack([&]() { with_parser(f, [&](Parser& p) {
        Tree t; Rec got; int how = (int)r.below(3);
        bool no = refused([&]() {
            if(how == 0) t.restore(got, e.p, e.n, p);
            else if(how == 1) { ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); t.restore(got, is, p); }
            else { t.load_source(e.p, e.n, p); t.root().paste(got); }
        });
        VCHECK(no == deep, "nesting:restore", ctx + (no ? " were refused" : " were accepted"));
        if(!no) {
            Rec* x = &got; size_t k = 1;
            while(true) { if(x->next) { x = x->next.get(); k++; } else if(!x->kids.empty()) { x = &x->kids[0]; k += 2; } else break; }
            VCHECK(k == n, "nesting:restore", ctx + " were restored as " + std::to_string(k));
        }
        count(no ? "objects refused" : "objects accepted");
        Buf ok = nested(r, f, { false, false, false }, { "", "next", "next" }, true, false);
        Rec small; t.restore(small, ok.data(), ok.size(), p);
        VCHECK(small.next && small.next->next && !small.next->next->next, "nesting:reuse", ctx);
    }); });
    distinct(hash_bytes(b.data(), b.size(), 9));
}

// every way an object can ask for what is nested in it, one after the other as planned
enum Way { Named, Optional, Kids, Pointers, ByPosition, BehindValue, BehindScope, Map, Tuple, Table, Shared, ValueByPosition, Wrapped, AfterHas, ByNode, Poly, Weak, Pair, Ways };
static const int Scopes[Ways] = { 1, 1, 2, 2, 1, 1, 1, 3, 2, 2, 2, 1, 1, 1, 1, 1, 2, 2 };

struct Base_ { virtual ~Base_() { } virtual void srl_resolve(Context&) = 0; virtual const TypeID& srl_type_id() = 0; };
struct Plan { std::vector<int> ways; std::vector<bool> direct; size_t at = 0, reached = 0; };
static thread_local Plan* plan = nullptr;

struct Step {
    int32_t id = -1; size_t level = 0;
    Step() { }
    Step(size_t l) : id((int32_t)l), level(l) { }
    void store(Context& c);
    void restore(Context& c);
    void srl_resolve(Context& c) { if(c.mode() == Mode::Insert) store(c); else restore(c); }
};
struct Held : Base_ { Step s; void srl_resolve(Context& c) override { s.srl_resolve(c); } const TypeID& srl_type_id() override; };
static const auto held_id = register_type<Held>("P21-Held");
const TypeID& Held::srl_type_id() { return held_id; }

void Step::store(Context& c)
{
    c("id", id);
    if(level == plan->ways.size()) return;
    Step n(level + 1); int32_t v = 7; Step end(plan->ways.size());
    switch(plan->ways[level]) {
        case Named : case Optional : case AfterHas : c("next", n); break;
        case ByPosition : c("next", n); break;
        case Wrapped : c("next", n); break;
        case ByNode : c("next", n); break;
        case BehindValue : c("next", n)("late", v); break;
        case ValueByPosition : c("next", n)("late", v); break;
        case BehindScope : c("next", n)("late", end); break;
        case Kids : { std::vector<Step> k; k.push_back(n); c("next", k); break; }
        case Pointers : { std::vector<std::unique_ptr<Step>> k; k.emplace_back(new Step(n)); c("next", k); break; }
        case Map : { std::map<std::string, Step> k; k.emplace("k", n); c("next", k); break; }
        case Tuple : { std::tuple<int32_t, Step> k(1, n); c("next", k); break; }
        case Pair : { std::pair<int32_t, Step> k(1, n); c("next", k); break; }
        case Table : { Srl::Lib::HTable<std::string, Step> k; k.insert("k", n); c("next", k); break; }
        case Shared : { auto k = std::make_shared<Step>(n); c("next", k); break; }
        case Weak : { auto k = std::make_shared<Step>(n); std::weak_ptr<Step> w = k; c("next", w); break; }
        case Poly : { std::unique_ptr<Held> h(new Held()); h->s = n; std::unique_ptr<Base_> b(std::move(h)); c("next", b); break; }
    }
}
void Step::restore(Context& c)
{
    if(plan->at > plan->ways.size()) { c("id", id); return; }
    level = plan->at++;
    bool first = plan->direct[level];
    if(first) c("id", id);                       // otherwise the value comes before what was asked for
    if(level < plan->ways.size()) {
        Step n; int32_t v = 0; Step late;
        switch(plan->ways[level]) {
            case Named : c("next", n); break;
            case Optional : c("next", n, CtxFlags::Optional); break;
            case ByPosition : c(n); break;
            case Wrapped : { struct W { Step* s; void srl_resolve(Context& x) { s->srl_resolve(x); } } w { &n }; c("next", w); break; }
            case AfterHas : if(c.node().has_node("next")) c("next", n); break;
            case ByNode : c.node().paste_field("next", n); break;
            case BehindValue : c("late", v)("next", n); break;
            case ValueByPosition : if(!first) c("id", id); c(v); c("next", n); break;
            case BehindScope : { auto at = plan->at; plan->at = plan->ways.size() + 1; c("late", late); plan->at = at; c("next", n); break; }
            case Kids : { std::vector<Step> k; c("next", k); break; }
            case Pointers : { std::vector<std::unique_ptr<Step>> k; c("next", k); break; }
            case Map : { std::map<std::string, Step> k; c("next", k); break; }
            case Tuple : { std::tuple<int32_t, Step> k; c("next", k); break; }
            case Pair : { std::pair<int32_t, Step> k; c("next", k); break; }
            case Table : { Srl::Lib::HTable<std::string, Step> k; c("next", k); break; }
            case Shared : { std::shared_ptr<Step> k; c("next", k); break; }
            case Weak : { std::weak_ptr<Step> k; c("next", k); break; }
            case Poly : { std::unique_ptr<Base_> k; c("next", k); break; }
        }
        if(plan->ways[level] == ValueByPosition) first = true;
    }
    if(!first) c("id", id);
    if(id == (int32_t)level) plan->reached++;
}

static void ways(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4]; Plan pl;
    size_t n = r.chance(80) ? (size_t)r.range(Limit - 2, Limit + 6) : (size_t)r.range(1, Limit);
    int only = r.chance(60) ? (int)r.below(Ways) : -1, other = r.chance(50) ? (int)r.below(Ways) : Named;
    size_t scopes = 1;
    while(scopes < n) {
        int w = only < 0 ? (int)r.below(Ways) : scopes + Scopes[only] > n || r.chance(10) ? other : only;
        if(scopes + Scopes[w] > n) w = r.chance(50) ? Named : BehindValue;
        pl.ways.push_back(w); scopes += Scopes[w];
    }
    for(size_t i = 0; i <= pl.ways.size(); i++) pl.direct.push_back(r.chance(70));
    bool deep = n > (size_t)Limit + 1; std::string ctx = std::string(name(f)) + ", " + std::to_string(n) + " scopes, mostly way " + std::to_string(only) + " and " + std::to_string(other);
    int how = (int)r.below(4);
    on_small_stack([&]() { plan = &pl; with_parser(f, [&](Parser& p) {
        Step root((size_t)0); Tree t; auto b = t.store(root, p); Exact e(b); Step got; std::string why;
        // nothing may be left for the first one that is refused, nothing else may be refused
        bool no = true;
        try {
            if(how == 0) t.restore(got, e.p, e.n, p);
            else if(how == 1) { ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); t.restore(got, is, p); }
            else if(how == 2) { Tree u; u.restore(got, e.p, e.n, p); }
            else { t.load_source(e.p, e.n, p); t.root().paste(got); }
            no = false;
        } catch(Srl::Exception& x) { why = x.what(); }
        VCHECK(no == deep, "nesting:ways", ctx + ", route " + std::to_string(how) + (no ? " were refused: " : " were accepted") + why);
        if(!no) VCHECK(pl.reached == pl.ways.size() + 1, "nesting:ways", ctx + ", route " + std::to_string(how) + ": " + std::to_string(pl.reached) + " of " + std::to_string(pl.ways.size() + 1) + " objects restored");
        count(no ? "ways refused" : "ways accepted");
        distinct(hash_bytes(b.data(), b.size(), 12));
    }); });
}

// the limit counts scopes inside of each other, not scopes that follow each other
static void wide(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    Doc d = Doc::obj();
    for(size_t n = r.range(100, 600); n; n--) {
        Doc x = r.chance(50) ? Doc::obj() : Doc::arr();
        for(size_t k = r.below(4); k; k--) { Doc y = x.k == Doc::Obj ? Doc::arr() : Doc::obj(); y.add("z", Doc::integer((int64_t)k)); x.add("y", y); }
        d.add("k" + std::to_string(n % 7), x);
    }
    Rec got; Tree t;
    Buf b;
    if(is_json(f)) { auto s = json_write(r, d); b.assign(s.begin(), s.end()); } else b = f == Fmt::MsgPack ? mp_write(r, d) : psrl_write(d);
    Exact e(b);
    try { with_parser(f, [&](Parser& p) { t.load_source(e.p, e.n, p); if(r.chance(50)) t.restore(got, e.p, e.n, p); }); }
    catch(Exception& x) { violation("nesting:wide", std::string(name(f)) + ": " + x.what()); }
    Rec many; many.kids.resize(r.range(129, 400)); for(auto& k : many.kids) { k.next.reset(new Rec()); k.kids.resize(1); }
    with_parser(f, [&](Parser& p) {
        Tree u; auto s = u.store(many, p); Rec back;
        try { u.restore(back, s.data(), s.size(), p); u.load_source(s.data(), s.size(), p); Rec again; u.root().paste(again); VCHECK(again.kids.size() == many.kids.size(), "nesting:wide", "objects"); }
        catch(Exception& x) { violation("nesting:wide", std::string(name(f)) + ": " + x.what()); }
        VCHECK(back.kids.size() == many.kids.size(), "nesting:wide", "objects");
    });
    count("wide documents"); distinct(hash_bytes(b.data(), b.size(), 10));
}

// objects written at exactly the limit come back
static void written(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4]; size_t n = (size_t)r.range(1, Limit + 6);
    Rec a, *x = &a; std::vector<int32_t> ids; size_t scopes = 1 + 1;      // every Rec has the empty containers "kids"
    for(size_t i = 0; i < n; i++) { x->n = (int32_t)r.u64(); ids.push_back(x->n); if(i + 1 < n) { x->next.reset(new Rec()); x = x->next.get(); scopes++; } }
    with_parser(f, [&](Parser& p) {
        Tree t; auto b = t.store(a, p); Exact e(b); Rec got;
        bool no = refused([&]() { if(r.chance(50)) t.restore(got, e.p, e.n, p); else { t.load_source(e.p, e.n, p); t.root().paste(got); } });
        VCHECK(no == (scopes > (size_t)Limit + 1), "nesting:written", std::string(name(f)) + ": " + std::to_string(scopes) + " scopes " + (no ? "refused" : "accepted"));
        if(!no) { Rec* y = &got; for(auto id : ids) { VCHECK(y && y->n == id, "nesting:written", "content"); y = y->next.get(); } }
        distinct(hash_bytes(b.data(), b.size(), 11));
    });
    count("written");
}

// unknown fields are skipped whatever their depth
static void skipped(Rng& r, uint64_t idx)
{
    Fmt f = idx % 2 ? Fmt::Json : Fmt::MsgPack;
    size_t n = r.chance(50) ? (size_t)r.range(1, 400) : (size_t)r.range(400, thorough() ? 1000000 : 60000);
    std::vector<bool> arr; std::vector<std::string> names; for(size_t i = 0; i < n; i++) { arr.push_back(r.chance(50)); names.push_back("n"); }
    Buf in = nested(r, f, arr, names, true, true); std::string s((const char*)in.data(), in.size());
    s = is_json(f) ? "{\"kids\":[{\"zz\":" + s + "},{\"n\":4}],\"n\":7}" : std::string("\x82\xA4kids\x92\x81\xA2zz") + s + "\x81\xA1n\x04\xA1n\x07";
    struct K { int32_t n = 0; void srl_resolve(Context& c) { c("n", n, CtxFlags::Optional); } };
    struct Two { std::vector<K> kids; int32_t n = 0; void srl_resolve(Context& c) { c("kids", kids)("n", n); } } got;
    (void)got;
    // an element which asks for nothing has its whole content skipped
    struct Nil { void srl_resolve(Context&) { } };
    struct Top { std::vector<Nil> kids; int32_t n = 0; void srl_resolve(Context& c) { c("kids", kids)("n", n); } } top;
    Exact e(s);
    on_small_stack([&]() { with_parser(f, [&](Parser& p) {
        Tree t;
        try { t.restore(top, e.p, e.n, p); } catch(Exception& x) { violation("nesting:skipped", std::string(name(f)) + ", " + std::to_string(n) + " scopes: " + x.what()); }
    }); });
    VCHECK(top.n == 7 && top.kids.size() == 2, "nesting:skipped", std::string(name(f)) + ", " + std::to_string(n) + " scopes");
    count("skipped"); distinct(hash_str(s));
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P21", { { "trees", 4000, 60000, trees }, { "typed", 3000, 40000, typed }, { "wide", 800, 10000, wide }, { "written", 1500, 15000, written }, { "ways", 4800, 100000, ways }, { "skipped", 600, 4000, skipped } });
}
