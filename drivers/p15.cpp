// P15: trees and parsers are reusable and independent: whatever happened to them before, failures included, every
// operation gives what it gives with new ones, and what is done to one tree does not show in another.
#include "zoo.h"
#include "hostile.h"
using namespace vf; using namespace Srl;

struct Deep { int32_t n = 0; std::string s; std::vector<std::shared_ptr<std::string>> sh; std::unique_ptr<Deep> next; zoo::Anon an; int* fuse = nullptr;
    void srl_resolve(Context& c)
    {
        if(fuse && --*fuse < 0) throw std::runtime_error("bomb");
        c("n", n)("sh", sh)("next", next)("s", s)("an", an);
    }
};
struct Odd { int32_t n = 0; std::string nothing_like_it; void srl_resolve(Context& c) { c("n", n)("nothing like it", nothing_like_it); } };

static void fill(Rng& r, Deep& d, int depth)
{
    zoo::ZOpt o; o.text = true; o.depth = 1; o.max = 5; o.big = false;
    d.n = (int32_t)r.u64(); d.s = gen_text(r, r.chance(5) ? 5000 : 40); zoo::gen(r, d.an, o);
    std::vector<std::shared_ptr<std::string>> pool; for(auto n = r.range(1, 3); n > 0; n--) pool.push_back(std::make_shared<std::string>(gen_text(r, 20)));
    for(auto n = r.below(5); n > 0; n--) d.sh.push_back(r.pick(pool));
    if(depth > 0) { d.next.reset(new Deep()); fill(r, *d.next, depth - 1); }
}
static bool equal(const Deep& a, const Deep& b, std::string& w)
{
    if(a.n != b.n || a.s != b.s || !zoo::eq(a.an, b.an, w) || a.sh.size() != b.sh.size() || !a.next != !b.next) { w = "content " + w; return false; }
    for(size_t i = 0; i < a.sh.size(); i++) { if(!b.sh[i] || *a.sh[i] != *b.sh[i]) { w = "shared string"; return false; } if((a.sh[i] == a.sh[0]) != (b.sh[i] == b.sh[0])) { w = "sharing"; return false; } }
    return !a.next || equal(*a.next, *b.next, w);
}
static void arm(Deep& d, int* fuse) { d.fuse = fuse; if(d.next) arm(*d.next, fuse); }

// accepts some bytes, then fails
struct Full : std::streambuf {
    size_t left; explicit Full(size_t n) : left(n) { }
    int_type overflow(int_type c) override { return left ? (left--, c) : traits_type::eof(); }
    std::streamsize xsputn(const char*, std::streamsize n) override { auto k = std::min<size_t>((size_t)n, left); left -= k; return (std::streamsize)k; }
};
// a source which throws
struct Dying : std::streambuf {
    const Buf& d; size_t off = 0, die; char c = 0; bool eof;
    Dying(const Buf& b, size_t at, bool eof_) : d(b), die(at), eof(eof_) { }
    int_type underflow() override { if(off >= die) { if(eof) return traits_type::eof(); throw std::runtime_error("disk on fire"); } c = (char)d[off++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); }
};

struct Slot { std::unique_ptr<Tree> t { new Tree() }; bool known = true; Doc content = Doc::obj(); };

static Doc fresh_load(const Buf& b, Fmt f, bool& threw)
{
    Tree t;
    threw = false;
    try { decode(t, b, f); } catch(Srl::Exception&) { threw = true; return Doc(); }
    return walk(t.root());
}

static void histories(Rng& r, uint64_t idx)
{
    Slot slots[3];
    std::map<Fmt, std::vector<std::unique_ptr<Parser>>> parsers;
    for(int i = 0; i < 2; i++) {
        parsers[Fmt::Json].emplace_back(new PJson(true)); parsers[Fmt::JsonSpaced].emplace_back(new PJson(false));
        parsers[Fmt::MsgPack].emplace_back(new PMsgPack()); parsers[Fmt::PSrl].emplace_back(new PSrl());
    }
    std::string log, w;
    auto check = [&](const char* what) {
        for(auto& s : slots) {
            Doc d = walk(s.t->root());
            if(s.known) { VCHECK(same(s.content, d, &w), std::string("reuse:") + what, "a tree is not what it was made to be, after" + log + ": " + w); count("trees compared"); }
        }
    };
    GenOpt o; o.depth = 3; o.budget = 14; o.max_str = 300; o.big = false; o.finite = true; o.u16 = true;
    size_t steps = r.range(6, 30);
    for(size_t i = 0; i < steps; i++) {
        Slot& s = slots[r.below(3)];
        Fmt f = r.pick(all_formats);
        Parser& p = *parsers[f][r.below(2)];
        int op = (int)r.below(20);
        log += " " + std::to_string(op) + (is_json(f) ? "j" : f == Fmt::MsgPack ? "m" : "s");
        switch(op) {
            case 0 : case 1 : {     // load, from memory or a stream
                Doc d = gen_doc(r, o);
                Tree x; build_root(x, d, r); Buf b = encode(x, f);
                if(r.chance(50)) s.t->load_source(b, p); else { ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); s.t->load_source(is, p); }
                s.content = canon(expected(canon(d), f)); s.known = true;
                break;
            }
            case 2 : case 3 : {     // load what may be broken
                Buf b = r.chance(70) ? hostile::mutate(r, hostile::valid_doc(r, f), f) : hostile::garbage(r, f);
                if(b.size() > 20000) b.resize(20000);
                bool ft, threw = false; Doc d = fresh_load(b, f, ft);
                try { s.t->load_source(b, p); } catch(Srl::Exception&) { threw = true; }
                VCHECK(threw == ft, "reuse:load", std::string("a broken document is ") + (ft ? "refused by a new parser and accepted by a used one" : "accepted by a new parser and refused by a used one") + ", " + name(f) + ", after" + log + ": " + hex(b, 100));
                s.known = !threw; s.content = d;
                count(threw ? "failed loads" : "damaged loads");
                break;
            }
            case 4 : case 5 : {     // write
                Doc d = walk(s.t->root());
                Tree x; build_root(x, d, r);
                if(!s.known) { Tree y; Buf a = s.t->to_source(p); (void)a; break; }
                Buf a = r.chance(60) ? s.t->to_source(p) : [&] { std::stringstream ss; s.t->to_source(static_cast<std::ostream&>(ss), p); auto z = ss.str(); return Buf(z.begin(), z.end()); }();
                Buf b = encode(x, f);
                VCHECK(a == b, "reuse:bytes", std::string(name(f)) + ": used trees and parsers write other bytes than new ones, after" + log + ": " + hex(a, 60) + " instead of " + hex(b, 60));
                count("bytes compared", a.size());
                break;
            }
            case 6 : case 7 : {     // store an object through it
                Deep d; fill(r, d, (int)r.below(3));
                Buf a = s.t->store(d, p), b = with_parser(f, [&](Parser& q) { Tree x; return x.store(d, q); });
                VCHECK(a == b, "reuse:store", std::string(name(f)) + ": an object is stored as other bytes by a used tree, after" + log);
                count("bytes compared", a.size());
                break;
            }
            case 8 : {              // a store that fails in the middle
                Deep d; fill(r, d, 3); int fuse = (int)r.below(4); arm(d, &fuse);
                bool threw = false;
                try { Buf out; if(r.chance(50)) s.t->store(d, p); else s.t->pack(out, p, "a", 1, "d", d); } catch(std::runtime_error&) { threw = true; }
                VCHECK(threw, "reuse:bomb", "an exception out of srl_resolve did not get through");
                if(s.known && !same(s.content, walk(s.t->root()), &w)) s.known = false;     // pack clears, store does not
                count("failed stores");
                break;
            }
            case 9 : {              // load_object that fails in the middle
                Deep d; fill(r, d, 3); int fuse = (int)r.below(4); arm(d, &fuse);
                bool threw = false;
                try { s.t->load_object(d); } catch(std::runtime_error&) { threw = true; }
                VCHECK(threw, "reuse:bomb", "an exception out of srl_resolve did not get through");
                s.known = false; count("failed stores");
                break;
            }
            case 10 : {             // an output that is full
                Full full(r.below(40)); std::ostream os(&full);
                if(r.chance(30)) os.exceptions(std::ios::badbit | std::ios::failbit);
                try { s.t->to_source(os, p); } catch(Srl::Exception&) { } catch(std::ios_base::failure&) { }
                count("full outputs");
                break;
            }
            case 11 : {             // a source that dies or ends
                Doc d = gen_doc(r, o); Tree x; build_root(x, d, r); Buf b = encode(x, f);
                bool eof = r.chance(50);
                Dying dy(b, r.below(b.size()), eof); std::istream is(&dy);
                if(r.chance(30)) is.exceptions(std::ios::badbit);
                bool threw = false;
                try { s.t->load_source(is, p); } catch(Srl::Exception&) { threw = true; } catch(std::exception&) { threw = true; }
                VCHECK(threw, "reuse:dying", std::string(name(f)) + ": a source that ends in the middle was accepted");
                s.known = false; count("failed loads");
                break;
            }
            case 12 : {             // restore, all the way
                Deep d, q; fill(r, d, (int)r.below(3));
                Buf b = with_parser(f, [&](Parser& z) { Tree x; return x.store(d, z); });
                if(r.chance(50)) s.t->restore(q, b, p); else { ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); s.t->restore(q, is, p); }
                VCHECK(equal(d, q, w), "reuse:restore", std::string(name(f)) + ": an object restored with a used tree differs, after" + log + ": " + w);
                s.known = false; count("objects restored");
                break;
            }
            case 13 : {             // restore into something else, which fails
                Deep d; fill(r, d, 1); Odd odd;
                Buf b = with_parser(f, [&](Parser& z) { Tree x; return x.store(d, z); });
                bool threw = false;
                try { s.t->restore(odd, b, p); } catch(Srl::Exception&) { threw = true; }
                VCHECK(threw, "reuse:odd", "an object without its field was restored");
                s.known = false; count("failed restores");
                break;
            }
            case 14 : {             // a restore which the object interrupts
                Deep d, q; fill(r, d, 3); int fuse = 0; q.fuse = &fuse;
                Buf b = with_parser(f, [&](Parser& z) { Tree x; return x.store(d, z); });
                bool threw = false;
                try { s.t->restore(q, b, p); } catch(std::runtime_error&) { threw = true; }
                VCHECK(threw, "reuse:bomb", "an exception out of srl_resolve did not get through");
                s.known = false; count("failed restores");
                break;
            }
            case 15 : {             // unpack
                Buf b; int n = (int)r.below(1000), m = 0; std::string t1 = gen_text(r, 50), t2; std::vector<int> v { 1, 2, (int)r.below(100) }, v2;
                { Tree x; with_parser(f, [&](Parser& z) { x.pack(b, z, "n", n, "t", t1, "v", v); return 0; }); }
                Buf b2; s.t->pack(b2, p, "n", n, "t", t1, "v", v);
                VCHECK(b == b2, "reuse:pack", std::string(name(f)) + ": a used tree packs other bytes, after" + log);
                s.t->unpack(b, p, "v", v2, "t", t2, "n", m);
                VCHECK(n == m && t1 == t2 && v == v2, "reuse:unpack", "values unpacked with a used tree");
                s.known = false; count("objects restored");
                break;
            }
            case 16 : {             // trees change hands
                Slot& z = slots[r.below(3)];
                if(&z == &s) break;
                if(r.chance(50)) { *z.t = std::move(*s.t); z.content = s.content; z.known = s.known; s.content = Doc::obj(); s.known = true; }     // the one moved from starts over
                else { Tree tmp(std::move(*s.t)); *s.t = std::move(*z.t); *z.t = std::move(tmp); std::swap(s.content, z.content); std::swap(s.known, z.known); }
                count("trees moved");
                break;
            }
            case 17 : {             // taking over from another tree
                Slot& z = slots[r.below(3)];
                if(&z == &s || !z.known || !s.known || count_nodes(s.content) > 200) break;
                s.t->root().insert("from", z.t->root());
                s.content.add("from", z.content); s.content = canon(s.content);
                count("nodes taken over");
                break;
            }
            case 18 : { Type tp = s.t->root().type(); s.t->clear(); s.content = tp == Type::Array ? Doc::arr() : Doc::obj(); s.known = true; count("cleared"); break; }
            case 19 : {             // goes on after whatever happened
                std::string key = "added" + std::to_string(i);
                s.t->root().insert(key, (int32_t)i);
                VCHECK(s.t->root().unwrap_field<int32_t>(key) == (int32_t)i, "reuse:insert", "a value inserted into a used tree");
                if(s.known) { s.content.add(key, Doc::integer((int32_t)i, Type::I32)); s.content = canon(s.content); }
                break;
            }
        }
        count("operations");
        check("content");
        distinct(hash_str(log, idx));
    }
    if(idx < 20) sample(log);
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P15", {
        { "histories", 4000, 200000, histories },
    });
}
