// P13: a tree under editing is what a sequential model says it is, after every history of insertions, removals and
// queries; handles stay valid as long as what they refer to is not removed.
#include "doc.h"
using namespace vf; using namespace Srl;

struct M {
    bool arr = false; std::string name; std::vector<std::pair<std::string, Doc>> vals; std::vector<std::shared_ptr<M>> nodes;
    Node* live = nullptr; std::vector<Value*> lv;
};
typedef std::shared_ptr<M> MP;

static MP from(const Doc& d, const std::string& name)
{
    auto m = std::make_shared<M>();
    m->arr = d.k == Doc::Arr; m->name = name;
    for(auto& k : d.kids) { auto nm = d.k == Doc::Obj ? k.first : ""; if(k.second.scope()) m->nodes.push_back(from(k.second, nm)); else m->vals.emplace_back(nm, k.second); }
    return m;
}
static MP copy(const M& o) { auto m = std::make_shared<M>(o); for(auto& n : m->nodes) n = copy(*n); return m; }
static Doc todoc(const M& m)
{
    Doc d = m.arr ? Doc::arr() : Doc::obj();
    for(auto& v : m.vals) d.kids.push_back(v);
    for(auto& n : m.nodes) d.kids.emplace_back(n->name, todoc(*n));
    return d;
}
static size_t total(const M& m) { size_t n = 1 + m.vals.size(); for(auto& k : m.nodes) n += total(*k); return n; }
static int depth(const M& m) { int d = 0; for(auto& k : m.nodes) d = std::max(d, depth(*k)); return d + 1; }
static void all(const MP& m, std::vector<MP>& v) { v.push_back(m); for(auto& k : m->nodes) all(k, v); }

// the live handles of the model: taken once, they have to stay good
static void bind(M& m, Node& n, bool keep)
{
    if(keep && m.live) VCHECK(m.live == &n, "edit:handle", "a node moved although it was not removed");
    m.live = &n;
    std::vector<Value*> lv; std::vector<Node*> ln;
    n.foreach_value([&](Value& v) { lv.push_back(&v); });
    n.foreach_node([&](Node& k) { ln.push_back(&k); });
    VCHECK(lv.size() == m.vals.size() && ln.size() == m.nodes.size(), "edit:count",
           "a node has " + std::to_string(lv.size()) + " values and " + std::to_string(ln.size()) + " nodes, it should have " + std::to_string(m.vals.size()) + " and " + std::to_string(m.nodes.size()));
    m.lv = lv;
    for(size_t i = 0; i < ln.size(); i++) bind(*m.nodes[i], *ln[i], keep);
}

static void compare(M& m, Node& n)
{
    VCHECK((n.type() == Type::Array) == m.arr, "edit:type", "the type of a node changed");
    VCHECK(n.name().unwrap<char>(false) == m.name, "edit:name", "a node is called " + show(n.name().unwrap<char>(false)) + " instead of " + show(m.name));
    VCHECK(n.num_values() == m.vals.size() && n.num_nodes() == m.nodes.size(), "edit:count", "number of values or nodes");
    for(size_t i = 0; i < m.vals.size(); i++) {
        Value& v = n.value(i);
        VCHECK(v.name().unwrap<char>(false) == m.vals[i].first, "edit:name", "a value is called " + show(v.name().unwrap<char>(false)) + " instead of " + show(m.vals[i].first));
        std::string w;
        VCHECK(same(m.vals[i].second, walk(v), &w), "edit:value", "value " + std::to_string(i) + ": " + w);
    }
    for(size_t i = 0; i < m.nodes.size(); i++) compare(*m.nodes[i], n.node(i));
    count("scopes compared"); count("values compared", m.vals.size());
}

static void pre(const MP& m, bool rec, std::vector<MP>& v) { for(auto& k : m->nodes) { v.push_back(k); if(rec) pre(k, rec, v); } }

static void queries(const MP& m, Node& n, Rng& r)
{
    // every name that occurs below, and one that does not
    std::vector<std::string> names;
    std::vector<MP> sub; pre(m, true, sub);
    for(auto& v : m->vals) names.push_back(v.first);
    for(auto& k : sub) { names.push_back(k->name); for(auto& v : k->vals) names.push_back(v.first); }
    std::string nm = r.chance(10) || names.empty() ? gen_name(r) : r.pick(names);
    Name holder(nm, r);
    auto s = holder.str();
    auto first_v = std::find_if(m->vals.begin(), m->vals.end(), [&](std::pair<std::string, Doc>& v) { return v.first == nm; });
    auto first_n = std::find_if(m->nodes.begin(), m->nodes.end(), [&](MP& k) { return k->name == nm; });
    bool hv = first_v != m->vals.end(), hn = first_n != m->nodes.end();
    VCHECK(n.has_value(s) == hv && n.has_node(s) == hn, "query:has", "has_value or has_node of " + show(nm));
    Value* wv = hv ? m->lv[first_v - m->vals.begin()] : nullptr;
    Node*  wn = hn ? (*first_n)->live : nullptr;
    auto none = [&](const char* what, const std::function<void()>& f) { try { f(); } catch(Srl::Exception&) { count("refused"); return; } violation("query:absent", std::string(what) + " of the absent " + show(nm) + " gave a result"); };
    if(hv) VCHECK(&n.value(s) == wv, "query:value", "value(" + show(nm) + ") is not the first value of that name"); else none("value", [&] { n.value(s); });
    if(hn) VCHECK(&n.node(s) == wn, "query:node", "node(" + show(nm) + ") is not the first node of that name"); else none("node", [&] { n.node(s); });
    auto isv = [&](Union u) { return hv ? u.value() == wv && !u.is_node() && u.is_value() : u.node() == wn && !u.is_value() && u.is_node(); };
    if(hv || hn) { VCHECK(isv(n.get(s)) && isv(n[s]), "query:get", "get(" + show(nm) + ")"); }
    else { none("get", [&] { n.get(s); }); none("operator[]", [&] { n[s]; }); }
    auto t = n.try_get(s);
    VCHECK(bool(t) == (hv || hn) && (!t || isv(*t)), "query:try_get", "try_get(" + show(nm) + ")");

    for(bool rec : { false, true }) {
        std::vector<MP> nodes; pre(m, rec, nodes);
        std::vector<Node*> wantn, fn; std::vector<Value*> wantv(m->lv), fv;
        for(auto& k : nodes) { wantn.push_back(k->live); if(k->name == nm) fn.push_back(k->live); if(rec) wantv.insert(wantv.end(), k->lv.begin(), k->lv.end()); }
        for(auto* v : wantv) if(v->name().unwrap<char>(false) == nm) fv.push_back(v);
        bool dflt = !rec && r.chance(50);   // not saying anything means: only what is directly below
        auto an = dflt ? n.all_nodes() : n.all_nodes(rec); auto av = dflt ? n.all_values() : n.all_values(rec);
        auto xn = dflt ? n.find_nodes(s) : n.find_nodes(s, rec); auto xv = dflt ? n.find_values(s) : n.find_values(s, rec);
        std::vector<Node*> en; std::vector<Value*> ev; auto on = [&](Node& x) { en.push_back(&x); }; auto ov = [&](Value& x) { ev.push_back(&x); };
        if(dflt) { n.foreach_node(on); n.foreach_value(ov); } else { n.foreach_node(on, rec); n.foreach_value(ov, rec); }
        VCHECK(en == wantn && ev == wantv, "query:foreach", "foreach_node or foreach_value visit something else than what is there");
        VCHECK(std::vector<Node*>(an.begin(), an.end()) == wantn, "query:all_nodes", "all_nodes differs from what is there");
        VCHECK(std::vector<Value*>(av.begin(), av.end()) == wantv, "query:all_values", "all_values differs from what is there");
        VCHECK(std::vector<Node*>(xn.begin(), xn.end()) == fn, "query:find_nodes", "find_nodes(" + show(nm) + ") gave " + std::to_string(xn.size()) + " instead of " + std::to_string(fn.size()));
        VCHECK(std::vector<Value*>(xv.begin(), xv.end()) == fv, "query:find_values", "find_values(" + show(nm) + ") gave " + std::to_string(xv.size()) + " instead of " + std::to_string(fv.size()));
        count("elements listed", wantn.size() + wantv.size());
    }
    // by position
    for(size_t i = 0; i < m->vals.size(); i++) VCHECK(&n.value(i) == m->lv[i], "query:index", "value(index)");
    for(size_t i = 0; i < m->nodes.size(); i++) VCHECK(&n.node(i) == m->nodes[i]->live && n.get(i).node() == m->nodes[i]->live, "query:index", "node(index)");
    if(m->nodes.empty()) for(size_t i = 0; i < m->vals.size(); i++) VCHECK(n.get(i).value() == m->lv[i], "query:index", "get(index)");
    size_t far = std::max(m->vals.size(), m->nodes.size()) + r.pick<size_t>({ 0, 0, 1, 1000, SIZE_MAX / 2 });
    none("value(index)", [&] { n.value(m->vals.size()); }); none("node(index)", [&] { n.node(m->nodes.size()); }); none("get(index)", [&] { n.get(far); });
    VCHECK(!n.try_get(far), "query:index", "try_get of an index out of bounds");
    count("queries");
}

static GenOpt small(bool scope = true)
{
    GenOpt o; o.depth = scope ? 2 : 0; o.budget = 8; o.max_str = 400; o.finite = true; o.big = false;
    return o;
}

static void edits(Rng& r, uint64_t idx)
{
    std::unique_ptr<Tree> t(new Tree());
    GenOpt o0 = small(); o0.budget = (int)r.range(0, 30); o0.depth = 4;
    Doc d0 = gen_doc(r, o0);
    build_root(*t, d0, r);
    MP root = from(d0, "");
    if(r.chance(40)) { Fmt f = r.pick(all_formats); d0 = canon(expected(canon(d0), f)); Buf b = encode(*t, f); decode(*t, b, f); root = from(d0, ""); }
    bind(*root, t->root(), false);
    std::vector<std::string> pool; for(int i = 0; i < 6; i++) pool.push_back(gen_name(r));
    std::string log;
    size_t steps = r.range(10, 60);
    for(size_t i = 0; i < steps; i++) {
        std::vector<MP> ms; all(root, ms);
        MP m = r.pick(ms);
        Node& n = *m->live;
        std::string nm = m->arr && r.chance(80) ? "" : r.chance(70) ? r.pick(pool) : gen_name(r);
        Name holder(nm, r);
        auto s = holder.str();
        int op = (int)r.below(19);
        bool grown = total(*root) > 400 || depth(*root) > 12;
        if(grown && op < 8) op = (int)r.range(8, 13);
        log += " " + std::to_string(op);
        switch(op) {
            case 0 : case 1 : case 2 : { GenOpt o = small(); Doc d = gen_scalar(r, o); insert_kid(n, nm, d, r); m->vals.emplace_back(nm, d); break; }
            case 3 : { Doc d = gen_doc(r, small()); insert_kid(n, nm, d, r); m->nodes.push_back(from(d, nm)); break; }
            case 4 : {      // a node of this tree again, possibly the node itself or what it is in
                MP src = r.pick(ms);
                if(total(*src) > 60 || depth(*src) > 6) break;
                MP c = copy(*src); c->name = nm;
                n.insert(s, *src->live);
                std::vector<MP> cs; all(c, cs); for(auto& x : cs) x->live = nullptr;
                m->nodes.push_back(c);
                count("nodes copied");
                break;
            }
            case 5 : {      // a node of another tree which does not live on
                Doc d = gen_doc(r, small());
                { Tree u; build_root(u, d, r); if(r.chance(50)) { Fmt f = Fmt::PSrl; d = canon(expected(canon(d), f)); Buf b = encode(u, f); decode(u, b, f); } n.insert(s, u.root()); }
                m->nodes.push_back(from(canon(d), nm));
                count("nodes taken over");
                break;
            }
            case 6 : {      // built on its own, then inserted
                Doc d = gen_doc(r, small()); d.k = Doc::Obj;
                Node x(*t); build(x, d, r); n.insert(s, x); m->nodes.push_back(from(canon(d), nm));
                break;
            }
            case 7 : {
                int kind = (int)r.below(3);
                if(kind == 0) { int32_t a = (int32_t)r.u64(); auto b = gen_text(r, 60); bool c = r.chance(50); n.insert(s, a, "second", b, s, c); m->vals.emplace_back(nm, Doc::integer(a, Type::I32)); m->vals.emplace_back("second", Doc::str(b)); m->vals.emplace_back(nm, Doc::boolean(c)); }
                else if(kind == 1) { n.insert(s, { 1, 2, 300000 }); Doc a = Doc::arr(); a.add("", Doc::integer(1, Type::I32)).add("", Doc::integer(2, Type::I32)).add("", Doc::integer(300000, Type::I32)); m->nodes.push_back(from(a, nm)); }
                else {      // a value of this tree again
                    MP src = r.pick(ms);
                    if(src->vals.empty()) break;
                    size_t k = r.below(src->vals.size());
                    Doc d = src->vals[k].second;
                    n.insert(s, *src->lv[k]); m->vals.emplace_back(nm, d);
                }
                break;
            }
            case 8 : {
                bool hit = false;
                n.remove_value(s);
                for(size_t k = 0; k < m->vals.size() && !hit; k++) if(m->vals[k].first == nm) { m->vals.erase(m->vals.begin() + k); hit = true; }
                count("removed by name", hit);
                break;
            }
            case 9 : {
                bool hit = false;
                n.remove_node(s);
                for(size_t k = 0; k < m->nodes.size() && !hit; k++) if(m->nodes[k]->name == nm) { m->nodes.erase(m->nodes.begin() + k); hit = true; }
                count("removed by name", hit);
                break;
            }
            case 10 : { size_t k = r.below(m->vals.size() + 2); n.remove_value(k); if(k < m->vals.size()) { m->vals.erase(m->vals.begin() + k); count("removed by index"); } break; }
            case 11 : { size_t k = r.below(m->nodes.size() + 2); n.remove_node(k); if(k < m->nodes.size()) { m->nodes.erase(m->nodes.begin() + k); count("removed by index"); } break; }
            case 12 : {
                if(m->vals.empty()) { MP other = r.pick(ms); if(other != m && other->lv.size()) n.remove_value(other->lv[0]); break; }      // not one of its own: nothing happens
                size_t k = r.below(m->vals.size()); n.remove_value(m->lv[k]); m->vals.erase(m->vals.begin() + k); count("removed by handle");
                break;
            }
            case 13 : {
                if(m->nodes.empty()) { n.remove_node(&t->root()); break; }
                size_t k = r.below(m->nodes.size()); n.remove_node(m->nodes[k]->live); m->nodes.erase(m->nodes.begin() + k); count("removed by handle");
                break;
            }
            case 14 : {     // writing and reading leaves the tree alone
                Fmt f = r.pick(all_formats);
                Buf b = encode(*t, f);
                Tree u; decode(u, b, f);
                std::string w;
                VCHECK(same(canon(expected(canon(todoc(*root)), f)), walk(u.root()), &w), "edit:written", std::string(name(f)) + ": the tree after" + log + ": " + w);
                count("written");
                break;
            }
            case 15 : {     // the tree moves, its content stays where it is
                std::unique_ptr<Tree> u(new Tree());
                if(r.chance(50)) u->root().insert("old", 1);
                if(r.chance(50)) *u = std::move(*t); else u.reset(new Tree(std::move(*t)));
                t = std::move(u);
                count("trees moved");
                break;
            }
            case 16 : case 17 : queries(m, n, r); break;
            case 18 : {
                if(!r.chance(10)) break;
                Type tp = t->root().type();
                t->clear(); bool arr = tp == Type::Array; root = std::make_shared<M>(); root->arr = arr; root->live = nullptr;
                VCHECK(t->root().type() == tp, "edit:clear", "clear changed the type of the root");
                bind(*root, t->root(), false);
                count("cleared");
                break;
            }
        }
        count("operations");
        try { bind(*root, t->root(), true); } catch(Violation&) { throw; }
        if(r.chance(20) || i + 1 == steps) compare(*root, t->root());
        distinct(hash_str(log, vf::hash(d0)));
    }
    queries(root, t->root(), r);
    if(idx < 20) sample(std::to_string(steps) + " operations:" + log + ", in the end " + std::to_string(total(*root)) + " elements");
}

// editing while iterating in the ways which are safe on lists: a callback which inserts elsewhere, and values changed in
// what a callback is given
static void callbacks(Rng& r, uint64_t)
{
    Tree t, log;
    GenOpt o = small(); o.budget = 25; o.depth = 4;
    Doc d = canon(gen_doc(r, o));
    build_root(t, d, r);
    MP m = from(d, ""); bind(*m, t.root(), false);
    Doc want = Doc::obj(); size_t n = 0;
    std::vector<MP> ms; pre(m, true, ms);
    bool rec = r.chance(70);
    t.root().foreach_value([&](Value& v) { log.root().insert("v" + std::to_string(n++), v); }, rec);
    size_t k = 0;
    for(auto& v : m->vals) want.add("v" + std::to_string(k++), v.second);
    if(rec) for(auto& x : ms) for(auto& v : x->vals) want.add("v" + std::to_string(k++), v.second);
    std::string w;
    VCHECK(same(want, walk(log.root()), &w), "visit:values", "values visited " + std::string(rec ? "recursively" : "") + ": " + w);
    // a callback may insert below the node it is given
    std::vector<Node*> seen;
    t.root().foreach_node([&](Node& x) { seen.push_back(&x); x.insert("visited", true); }, true);
    VCHECK(seen.size() == ms.size(), "visit:nodes", "nodes visited");
    for(size_t i = 0; i < seen.size(); i++) { VCHECK(seen[i] == ms[i]->live, "visit:nodes", "order of the nodes visited"); ms[i]->vals.emplace_back("visited", Doc::boolean(true)); }
    bind(*m, t.root(), true); compare(*m, t.root());
    // an exception out of a callback comes out of the visit
    if(seen.size()) {
        size_t stop = r.below(seen.size()), at = 0;
        struct Stop { };
        bool out = false;
        try { t.root().foreach_node([&](Node&) { if(at++ == stop) throw Stop(); }, true); } catch(Stop&) { out = true; }
        VCHECK(out && at == stop + 1, "visit:exception", "an exception thrown by a callback");
        compare(*m, t.root());
    }
    distinct(vf::hash(d));
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P13", {
        { "edits", 4000, 200000, edits },
        { "callbacks", 3000, 100000, callbacks },
    });
}
