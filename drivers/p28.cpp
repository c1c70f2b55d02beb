// P28: a request for memory that fails, at whatever point of whatever operation, is reported; nothing is corrupted, lost or
// destroyed twice, and everything works again once there is memory.
#define VF_OUT_OF_MEMORY
#include "throwing.h"


struct Failing {            // requests fail from the k-th on, or only that one
    Failing(Rng& r, int64_t k) { lasting = r.chance(40); points = 0; fuse = k; failed = false; armed = true; counting = true; }
    ~Failing() { counting = armed = false; }
};
struct Calm {               // what the harness does inside is not counted
    bool c = counting; Calm() { counting = false; } ~Calm() { counting = c; }
};

// a tree that is edited: an edit that fails leaves the tree as it was, or is done; of a scope that is inserted, a beginning may be there
static bool beginning(const Doc& part, const Doc& whole)
{
    if(part.k != whole.k) return false;
    if(!part.scope()) return same(part, whole);
    auto only = [](const Doc& d, bool sc) { std::vector<std::pair<std::string, Doc>> v; for(auto& k : d.kids) if(k.second.scope() == sc) v.push_back(k); return v; };
    for(bool sc : { false, true }) {
        auto p = only(part, sc), w = only(whole, sc);
        if(p.size() > w.size()) return false;
        for(size_t i = 0; i < p.size(); i++) if(p[i].first != w[i].first || !(i + 1 == p.size() && sc ? beginning(p[i].second, w[i].second) : same(p[i].second, w[i].second))) return false;
    }
    return true;
}
static void edits(Rng& r, uint64_t)
{
    for(auto* c : { "edits", "edits failed", "edits done", "table operations", "table operations failed" }) count(c, 0);
    uint64_t fp = 1; Mem m0 = mem_now();
    {
        GenOpt o; o.depth = 2; o.budget = 12; o.max_str = 400; o.big = false; o.dup_names = false;
        Tree t; Doc model = Doc::obj();
        for(int i = 0; i < 12; i++) {
            std::string nm = "f" + std::to_string(r.below(40)) + (r.chance(30) ? std::string(r.below(60), 'x') : "");
            Name n(nm, r);
            int what = (int)r.below(5); std::string ctx = "edit " + std::to_string(what);
            Doc after = model; Doc added;
            std::function<void()> run;
            auto text = std::make_shared<std::string>(gen_text(r, r.chance(50) ? 300 : 20));
            auto bytes = std::make_shared<Buf>(r.size(600)); for(auto& b : *bytes) b = (uint8_t)r.u64();
            Tree other;
            if(what == 0) { added = Doc::str(*text); run = [&] { t.root().insert(n.str(), *text); }; }
            else if(what == 1) { added = Doc::bin(std::string(bytes->begin(), bytes->end())); run = [&] { t.root().insert(n.str(), VecWrap<uint8_t>(*bytes)); }; }
            else if(what == 2) { added = Doc::integer((int64_t)r.u64()); int64_t v = (int64_t)(0 - added.mag); if(!added.neg) v = (int64_t)added.mag; run = [&, v] { t.root().insert(n.str(), v); }; }
            else if(what == 3) { added = canon(gen_doc(r, o)); build_root(other, added, r); added = walk(other.root()); run = [&] { t.root().insert(n.str(), other.root()); }; }
            else { std::vector<std::string> names; for(auto& k : model.kids) if(!k.second.scope()) names.push_back(k.first);
                if(names.empty()) continue;
                nm = r.pick(names); n = Name(nm, r);
                for(size_t j = 0; j < after.kids.size(); j++) if(after.kids[j].first == nm && !after.kids[j].second.scope()) { after.kids.erase(after.kids.begin() + j); break; }
                run = [&] { t.root().remove_value(n.str()); };
            }
            if(what < 4) after.kids.emplace_back(nm, added);
            int64_t k = (int64_t)r.range(1, r.chance(60) ? 4 : 30);
            bool threw = false;
            try { Failing f(r, k); run(); } catch(const std::bad_alloc&) { threw = true; } catch(const Srl::Exception&) { threw = true; }
            // what was given is gone
            for(auto& c : *text) c = '#';
            for(auto& b : *bytes) b = 0xEE;
            other = Tree();
            Doc now = walk(t.root()); std::string w;
            Doc was = canon(model), done = canon(after);
            count("edits"); count(threw ? "edits failed" : "edits done");
            if(!threw) VCHECK(same(done, now, &w), "memory:edit", ctx + " without exception: " + w);
            else if(!same(was, now) && !same(done, now)) {
                bool ok = what == 3 && now.kids.size() == was.kids.size() + 1;
                if(ok) { Doc cut = now; cut.kids.pop_back(); ok = same(was, cut, &w) && now.kids.back().first == nm && beginning(now.kids.back().second, added); }
                VCHECK(ok, "memory:edit", ctx + " that failed left something else than what was there: " + w + show(now, 200));
            }
            model = now; fp = hash(now) ^ fp * 31;
        }
        // everything works again
        Fmt f = r.pick(all_formats); std::string w;
        Doc again = walk(t.root()); Buf b = encode(t, f); Tree u; decode(u, b, f);
        VCHECK(same(canon(expected(again, f)), walk(u.root()), &w), "memory:edit", std::string(name(f)) + ": the tree is written differently afterwards: " + w);
        bool threw = false;
        try { Failing q(r, (int64_t)r.range(1, 20)); t.clear(); } catch(const std::bad_alloc&) { threw = true; }
        t.root().insert("z", 1); if(!threw) VCHECK(t.root().num_values() == 1 && t.root().num_nodes() == 0, "memory:clear", "after clear");
        VCHECK(t.root().unwrap_field<int>("z") == 1, "memory:clear", "after a clear that failed");
    }
    VCHECK(mem_now().blocks == m0.blocks, "memory:lost", "edits: " + std::to_string(mem_now().blocks - m0.blocks) + " blocks remain");
    distinct(fp);
}

// tables against a map
static void tables(Rng& r, uint64_t)
{
    for(auto* c : { "edits", "edits failed", "edits done", "table operations", "table operations failed" }) count(c, 0);
    uint64_t fp = 1; Mem m0 = mem_now();
    {
        Lib::HTable<std::string, std::string> h(r.below(20)); std::map<std::string, std::string> m;
        for(int i = 0; i < 150; i++) {
            std::string k = "key " + std::to_string(r.below(60)) + (r.chance(30) ? "and some more so that it needs memory" : ""), v = std::string(r.below(60), 'v') + std::to_string(i);
            int what = (int)r.below(6); bool threw = false;
            auto failing = r.chance(50);
            auto was = m;
            try {
                std::unique_ptr<Failing> q; if(failing) q.reset(new Failing(r, (int64_t)r.range(1, 4)));
                switch(what) {
                    case 0 : case 1 : h.insert(k, v); { Calm c; m.emplace(k, v); } break;
                    case 2 : h.upsert(k, v); { Calm c; m[k] = v; } break;
                    case 3 : h.remove(k); { Calm c; m.erase(k); } break;
                    case 4 : { auto e = h.extract(k); Calm c; auto f = m.find(k); VCHECK(!!e == (f != m.end()) && (!e || *e == f->second), "memory:table", "extract"); m.erase(k); break; }
                    case 5 : if(r.chance(20)) h.remove_if([&](const std::string& x, std::string&) { return x.size() % 3 == 0; }); else break; { Calm c; for(auto j = m.begin(); j != m.end();) if(j->first.size() % 3 == 0) j = m.erase(j); else ++j; } break;
                }
            } catch(const std::bad_alloc&) { threw = true; }
            counting = armed = false;
            count("table operations"); if(threw) count("table operations failed");
            // the table is what it was, or the operation was done to (some of) its keys
            std::map<std::string, std::string> now; h.foreach([&](const std::string& a, std::string& b) { VCHECK(now.emplace(a, b).second, "memory:table", "a key is there twice"); });
            VCHECK(now.size() == h.num_entries(), "memory:table:count", "operation " + std::to_string(what) + (threw ? " failed" : " done") + ": " + std::to_string(h.num_entries()) + " entries are said to be there, " + std::to_string(now.size()) + " are");
            if(!threw) VCHECK(now == m, "memory:table", "operation " + std::to_string(what) + ": other entries");
            else {
                for(auto& e : now) { auto f = was.find(e.first); bool ok = f != was.end() ? f->second == e.second || (what == 2 && e.first == k && e.second == v) : what < 3 && e.first == k && e.second == v; VCHECK(ok, "memory:table", "operation " + std::to_string(what) + " that failed: another entry " + e.first); }
                for(auto& e : was) VCHECK(now.count(e.first) || ((what == 3 || what == 4) && e.first == k) || (what == 5 && e.first.size() % 3 == 0), "memory:table", "operation " + std::to_string(what) + " that failed: entry " + e.first + " is lost");
                m = now;
            }
            for(auto& e : m) { auto* p = h.get(e.first); VCHECK(p && *p == e.second, "memory:table", "an entry is not found"); }
            fp = fp * 31 + hash_str(k) + (uint64_t)what + threw;
        }
    }
    VCHECK(mem_now().blocks == m0.blocks, "memory:lost", "tables: " + std::to_string(mem_now().blocks - m0.blocks) + " blocks remain");
    distinct(fp);
}

int main(int argc, char** argv)
{
    for(auto a : { "UTF-8", "UTF-16LE", "UTF-32LE" }) for(auto b : { "UTF-8", "UTF-16LE", "UTF-32LE" }) iconv_open(a, b);     // the system's tables come and go otherwise
    { Tree t; Whole w; Rng r(1); fill(r, w, 1); for(auto f : all_formats) with_parser(f, [&](Parser& p) { Whole o; auto b = t.store(w, p); t.restore(o, b.data(), b.size(), p); });
      t.root().insert(u"x", std::u32string(U"\u00e9")); for(auto f : all_formats) with_parser(f, [&](Parser& p) { Tree u; u.load_source(t.to_source(p), p); u.root().unwrap_field<std::u32string>(U"x"); u.root().unwrap_field<std::u16string>("x"); }); }  // lazily created state
    { Rng r(2); GenOpt o; o.depth = 4; o.budget = 400; for(int i = 0; i < 300; i++) { gen_doc(r, o); r.dbl(true); r.flt(true); r.dbl(false); r.flt(false); gen_text(r, 300); } }     // the harness' own tables
    return run(argc, argv, "P28", { { "operations", 800, 4000, operations }, { "edits", 8000, 300000, edits }, { "tables", 3000, 100000, tables } });
}
