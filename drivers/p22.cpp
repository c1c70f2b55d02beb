// P22: threads that use trees and parsers of their own do not disturb each other, also when they store the same objects,
// read the same bytes, create registered classes and fail; a tree can be handed from one thread to another.
#include "zoo.h"
#include <thread>
#include <mutex>
#include <sched.h>
#include <iconv.h>
#if defined(__x86_64__)
#include <x86intrin.h>
static uint64_t now() { return __rdtsc(); }
#else
static uint64_t now() { return (uint64_t)std::chrono::steady_clock::now().time_since_epoch().count(); }
#endif
using namespace vf; using namespace Srl;
using std::string;

struct Base {
    int32_t id = 0; string label;
    virtual ~Base() { } virtual const TypeID& srl_type_id() = 0;
    virtual void srl_resolve(Context& c) { c("id", id)("label", label); }
    virtual bool same(const Base& o, string& w) const { return typeid(*this) == typeid(o) && zoo::eq(id, o.id, w) && zoo::eq(label, o.label, w); }
};
struct D1 : Base { std::vector<double> v; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { Base::srl_resolve(c); c("v", v); }
    bool same(const Base& o, string& w) const override { return Base::same(o, w) && zoo::eq(v, static_cast<const D1&>(o).v, w); } };
struct D2 : Base { std::map<string, int32_t> m; std::u16string wide; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { Base::srl_resolve(c); c("m", m)("wide", wide); }
    bool same(const Base& o, string& w) const override { return Base::same(o, w) && zoo::eq(m, static_cast<const D2&>(o).m, w) && zoo::eq(wide, static_cast<const D2&>(o).wide, w); } };
const auto r1 = register_type<D1>("thread first"); const TypeID& D1::srl_type_id() { return r1; }
const auto r2 = register_type<D2>("thread second"); const TypeID& D2::srl_type_id() { return r2; }

struct Obj {
    int64_t n = 0; double d = 0; string s; std::u32string s32; std::vector<int32_t> v; std::map<string, std::vector<string>> m; std::list<zoo::Leaf> leaves;
    std::vector<std::unique_ptr<Base>> poly; std::vector<std::shared_ptr<zoo::Leaf>> shared; zoo::Tree_ tree; std::vector<uint8_t> bin; Lib::HTable<string, int32_t> tab; zoo::Anon anon;
    void srl_resolve(Context& c) { c("n", n)("d", d)("s", s)("s32", s32)("v", v)("m", m)("leaves", leaves)("poly", poly)("shared", shared)("tree", tree)("bin", VecWrap<uint8_t>(bin))("tab", tab)("anon", anon); }
    void fill(Rng& r)
    {
        zoo::ZOpt o; o.text = true; o.depth = 2; o.max = 6; o.big = r.chance(5);
        zoo::gen(r, n, o); zoo::gen(r, d, o); zoo::gen(r, s, o); zoo::gen(r, s32, o); zoo::gen(r, v, o); zoo::gen(r, m, o); zoo::gen(r, leaves, o); zoo::gen(r, tree, o); zoo::gen(r, tab, o); zoo::gen(r, anon, o);
        for(auto k = r.below(5); k; k--) {
            if(r.chance(50)) { auto* x = new D1(); poly.emplace_back(x); zoo::gen(r, x->v, o); } else { auto* x = new D2(); poly.emplace_back(x); zoo::gen(r, x->m, o); zoo::gen(r, x->wide, o); }
            zoo::gen(r, poly.back()->id, o); zoo::gen(r, poly.back()->label, o);
        }
        for(auto k = r.below(5); k; k--) { if(!shared.empty() && r.chance(40)) shared.push_back(r.pick(shared)); else { shared.emplace_back(new zoo::Leaf()); zoo::gen(r, *shared.back(), o); } }
        bin.resize(r.below(200)); for(auto& x : bin) x = (uint8_t)r.u64();
    }
    bool same(const Obj& o, string& w) const
    {
        if(!(zoo::eq(n, o.n, w) && zoo::eq(d, o.d, w) && zoo::eq(s, o.s, w) && zoo::eq(s32, o.s32, w) && zoo::eq(v, o.v, w) && zoo::eq(m, o.m, w) && zoo::eq(leaves, o.leaves, w) && zoo::eq(tree, o.tree, w) && zoo::eq(anon, o.anon, w))) return false;
        if(bin != o.bin || poly.size() != o.poly.size() || shared.size() != o.shared.size()) { w = "sizes"; return false; }
        for(size_t i = 0; i < poly.size(); i++) if(!poly[i]->same(*o.poly[i], w)) { w = "polymorphic " + w; return false; }
        for(size_t i = 0; i < shared.size(); i++) {
            if(!zoo::eq(*shared[i], *o.shared[i], w)) return false;
            for(size_t j = 0; j < i; j++) if((shared[i] == shared[j]) != (o.shared[i] == o.shared[j])) { w = "sharing"; return false; }
        }
        size_t k = 0; bool ok = true; auto& mine = const_cast<Obj&>(*this).tab; auto& his = const_cast<Obj&>(o).tab;
        his.foreach([&](const string& key, int32_t& x) { k++; auto* y = mine.get(key); if(!y || *y != x) ok = false; });
        if(!ok || k != mine.num_entries()) { w = "table"; return false; }
        return true;
    }
};

// what all threads may look at, and what has to come out, prepared by one thread
struct World {
    std::vector<std::unique_ptr<Obj>> objs; std::vector<std::vector<Buf>> bytes;       // [object][format]
    std::vector<string> texts, texts64; std::vector<Buf> docs; std::vector<uint64_t> docs_hash; std::vector<std::pair<double, string>> nums; std::vector<Buf> broken;
};
static World make(Rng& r)
{
    World w;
    for(int i = 0; i < 2; i++) {
        w.objs.emplace_back(new Obj()); w.objs.back()->fill(r); w.bytes.emplace_back();
        for(Fmt f : all_formats) { Tree t; with_parser(f, [&](Parser& p) { w.bytes.back().push_back(t.store(*w.objs.back(), p)); }); }
    }
    GenOpt g; g.finite = true; g.depth = 4; g.budget = 30; g.max_str = 500; g.binary = false;
    for(int i = 0; i < 4; i++) { Tree t; Doc d = gen_doc(r, g); d.k = Doc::Obj; Fmt f = all_formats[i]; build_root(t, d, r); w.docs.push_back(encode(t, f)); Tree u; decode(u, w.docs.back(), f); w.docs_hash.push_back(hash(walk(u.root()))); }
    for(int i = 0; i < 6; i++) { w.texts.push_back(gen_text(r, 300)); w.texts64.push_back(b64(w.texts.back())); }
    for(int i = 0; i < 6; i++) { double d = r.dbl(true); w.nums.push_back({ d, Tools::type_to_str(Value(d)) }); }
    for(int i = 0; i < 4; i++) { auto b = w.bytes[0][i]; b.resize(r.below(b.size())); w.broken.push_back(b); }
    return w;
}

struct Handover { std::mutex m; std::vector<std::pair<Tree, size_t>> trees; std::vector<std::pair<std::unique_ptr<Lib::HTable<string, string>>, size_t>> tables; };

struct Worker {
    const World& w; Handover& h; Rng r; size_t ops; std::vector<std::pair<uint64_t, uint64_t>> log; string bad; std::map<string, uint64_t> did; uint64_t accepted = 0;
    std::unique_ptr<Tree> own { new Tree() };
    Worker(const World& w_, Handover& h_, uint64_t seed, size_t n) : w(w_), h(h_), r(seed), ops(n) { log.reserve(n); }
    void expect(bool ok, const string& what) { if(!ok && bad.empty()) bad = what; }
    void step()
    {
        size_t o = r.below(w.objs.size()); size_t fi = r.below(4); Fmt f = all_formats[fi];
        switch(r.below(11)) {
            case 0 : did["stored"]++; with_parser(f, [&](Parser& p) { Tree t; auto b = (r.chance(50) ? t : *own).store(*w.objs[o], p); expect(b == w.bytes[o][fi], "an object was stored differently"); }); break;
            case 1 : { did["restored"]++; Obj x; string why; with_parser(f, [&](Parser& p) { Tree t; auto& b = w.bytes[o][fi]; (r.chance(50) ? t : *own).restore(x, b.data(), b.size(), p); }); expect(w.objs[o]->same(x, why), "an object was restored differently: " + why); break; }
            case 2 : { did["restored from streams"]++; Obj x; string why; with_parser(f, [&](Parser& p) { auto& b = w.bytes[o][fi]; ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); own->restore(x, is, p); }); expect(w.objs[o]->same(x, why), "an object was restored differently: " + why); break; }
            case 3 : { did["loaded"]++; Tree t; decode(t, w.docs[fi], f); expect(hash(walk(t.root())) == w.docs_hash[fi], "a document was read differently"); break; }
            case 4 : {
                did["converted"]++; auto& s = w.texts[r.below(w.texts.size())]; String a(s);
                expect(a.unwrap<char16_t>() == to16(s) && a.unwrap<char32_t>() == to32(s) && String(to16(s)) == a, "text was converted differently");
                size_t k = r.below(w.texts.size()); auto e = Tools::bytes_to_base64((const uint8_t*)w.texts[k].data(), w.texts[k].size());
                expect(string(e.begin(), e.end()) == w.texts64[k], "base64 differs"); auto back = Tools::base64_to_bytes((const char*)e.data(), e.size()); expect(string(back.begin(), back.end()) == w.texts[k], "base64 read differs"); break;
            }
            case 5 : { did["numbers"]++; for(auto& n : w.nums) { expect(Tools::type_to_str(Value(n.first)) == n.second, "a number was written differently"); auto v = Tools::str_to_type(String(n.second)); expect(v.first && (double)v.second.unwrap<double>() == n.first, "a number was read differently"); } break; }
            case 6 : {
                did["failed"]++; bool threw = false; Obj x;
                try { with_parser(f, [&](Parser& p) { auto& b = w.broken[fi]; own->restore(x, b.data(), b.size(), p); }); } catch(Exception&) { threw = true; }
                string why; expect(threw || w.objs[0]->same(x, why), "a cut document was accepted"); break;
            }
            case 7 : { did["tables"]++; std::unique_ptr<Lib::HTable<string, string>> t(new Lib::HTable<string, string>()); size_t n = r.below(60); for(size_t i = 0; i < n; i++) t->insert("k" + std::to_string(i), w.texts[i % w.texts.size()]); bool ok = t->num_entries() == n; for(size_t i = 0; i < n; i++) ok = ok && t->get("k" + std::to_string(i)) && *t->get("k" + std::to_string(i)) == w.texts[i % w.texts.size()]; expect(ok, "table"); std::lock_guard<std::mutex> l(h.m); h.tables.emplace_back(std::move(t), n); break; }
            case 8 : { did["given away"]++; Tree t; decode(t, w.docs[fi], f); if(r.chance(50)) { t.root().insert("own", string("x")); t.root().remove_value("own"); } std::lock_guard<std::mutex> l(h.m); h.trees.emplace_back(std::move(t), fi); break; }
            case 9 : {
                std::unique_ptr<std::pair<Tree, size_t>> t; std::pair<std::unique_ptr<Lib::HTable<string, string>>, size_t> tb;
                { std::lock_guard<std::mutex> l(h.m); if(!h.trees.empty()) { t.reset(new std::pair<Tree, size_t>(std::move(h.trees.back()))); h.trees.pop_back(); } if(!h.tables.empty()) { tb = std::move(h.tables.back()); h.tables.pop_back(); } }
                if(t) { did["taken over"]++; expect(hash(walk(t->first.root())) == w.docs_hash[t->second], "a tree taken over differs"); t->first.root().insert("more", w.texts); auto b = encode(t->first, Fmt::PSrl); Tree u; decode(u, b, Fmt::PSrl); std::vector<string> back; u.root().paste_field("more", back); expect(back == w.texts, "a tree taken over was written differently"); }
                if(tb.first) { bool ok = tb.first->num_entries() == tb.second; for(size_t i = 0; i < tb.second; i++) ok = ok && tb.first->get("k" + std::to_string(i)); for(size_t i = 0; i < 40; i++) tb.first->insert("new" + std::to_string(i), "v"); expect(ok, "a table taken over differs"); }
                break;
            }
            default : { did["built"]++; Tree t; auto& root = t.root(); for(int i = 0; i < 20; i++) { root.insert(i % 2 ? "a" : "b", i); root.insert("n", w.texts); } for(int i = 0; i < 10; i++) root.remove_value("a"); expect(root.num_values() == 10 && root.value("b").unwrap<int>() == 0 && root.num_nodes() == 20, "a tree was built differently"); break; }
        }
    }
    void run()
    {
        for(size_t i = 0; i < ops; i++) {
            uint64_t a = now();
            try { step(); } catch(Exception& e) { expect(false, string("unexpected exception: ") + e.what()); } catch(std::exception& e) { expect(false, string("unexpected exception: ") + e.what()); }
            log.push_back({ a, now() });
            if(r.chance(30)) sched_yield(); else if(r.chance(20)) for(volatile size_t k = r.below(3000); k; ) k = k - 1;
        }
    }
};

static void threads(Rng& r, uint64_t)
{
    World w = make(r); Handover h;
    size_t n = r.range(2, 5), ops = r.range(6, 24);
    std::vector<std::unique_ptr<Worker>> ws; std::vector<std::thread> ts;
    for(size_t i = 0; i < n; i++) ws.emplace_back(new Worker(w, h, r.u64(), ops));
    std::atomic<int> ready { 0 }; std::atomic<bool> go { false };
    for(auto& x : ws) ts.emplace_back([&, p = x.get()]() { ready++; while(!go.load(std::memory_order_relaxed)) sched_yield(); p->run(); });
    while(ready.load() < (int)n) sched_yield();
    go = true;
    for(auto& t : ts) t.join();
    // what was observed: operations which overlapped, and the order in which they ended
    std::vector<std::tuple<uint64_t, size_t, size_t>> ends; uint64_t overlaps = 0;
    for(size_t i = 0; i < n; i++) for(size_t k = 0; k < ws[i]->log.size(); k++) {
        ends.emplace_back(ws[i]->log[k].second, i, k);
        for(size_t j = 0; j < i; j++) for(auto& e : ws[j]->log) if(e.first < ws[i]->log[k].second && ws[i]->log[k].first < e.second) overlaps++;
    }
    std::sort(ends.begin(), ends.end());
    string order; for(auto& e : ends) order += (char)('a' + std::get<1>(e));
    count("operations", ends.size()); count("operations that overlapped", overlaps); count("threads", n); distinct(hash_str(order));
    for(auto& x : ws) { for(auto& d : x->did) count(d.first, d.second); if(!x->bad.empty()) violation("threads:result", x->bad); }
}

int main(int argc, char** argv)
{
    // the C library loads and unloads its conversion modules under locks which the sanitizer does not see: they stay loaded
    static const char* cs[] = { "UTF-8", "UTF-16LE", "UTF-32LE" };
    for(auto a : cs) for(auto b : cs) iconv_open(a, b);
    return run(argc, argv, "P22", { { "threads", 700, 12000, threads } });
}
