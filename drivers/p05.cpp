// P05: whatever bytes arrive, reading them ends with a result or an exception of the library: no fault, no allocation
// out of proportion to the input, no endless work, and the tree and the parser can be used again.
#include "hostile.h"
using namespace vf; using namespace Srl;

static void load(Rng& r, uint64_t idx, Buf (*make)(Rng&, Fmt))
{
    Fmt f = all_formats[idx % 4];
    Buf b = make(r, f);
    static const char* hows[] = { "memory", "stream", "memory, parser and tree used before", "unpack to Unions" };
    int how = (int)r.below(4);
    hostile::guarded(b, f, hows[how], [&](Exact& e, Parser& p) {
        Tree t;
        std::unique_ptr<ChunkBuf> cb; std::unique_ptr<std::istream> is;
        auto use = [&](Tree& x) {
            // everything that was accepted can be looked at, written and read again
            Doc d = walk(x.root());
            count("accepted");
            if(r.chance(30)) {
                Fmt g = r.pick(all_formats);
                Buf out = encode(x, g);
                count("rewritten");
            }
        };
        switch(how) {
            case 1 : {
                cb.reset(new ChunkBuf(b, r.pick({ 0, 0, 1, 7, 1024, 100000 }), r.u64()));
                is.reset(new std::istream(cb.get()));
                t.load_source(*is, p);
                use(t);
                break;
            }
            case 2 : {
                t.root().insert("was", "here", "before", 1);
                auto by = t.to_source(p);
                t.load_source(by.data(), by.size(), p);
                t.load_source(e.p, e.n, p);
                use(t);
                break;
            }
            case 3 : {
                Union a, b, c;
                t.unpack(Lib::In::Source(e.p, e.n), p, "a", a, "id", b, "n0", c);
                for(auto* u : { &a, &b, &c }) { if(u->is_node()) walk(*u->node()); else walk(*u->value()); }
                count("accepted");
                break;
            }
            default : t.load_source(e.p, e.n, p); use(t); break;
        }
    });
}

// every single byte, and every pair, as a document
static void tiny(Rng& r, uint64_t idx)
{
    for(int k = 0; k < 256; k++)
        for(auto f : { Fmt::Json, Fmt::MsgPack, Fmt::PSrl }) {
            Buf b { (uint8_t)idx, (uint8_t)k };
            if(k == 0) b.pop_back();
            hostile::guarded(b, f, "tiny", [&](Exact& e, Parser& p) { Tree t; t.load_source(e.p, e.n, p); walk(t.root()); count("accepted"); });
        }
}

// single byte changes at every position of a document that has everything
static void every_byte(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    Rng fixed(idx / 40 + 1);
    GenOpt o = hostile::opt(fixed); o.max_str = 40; o.budget = 25; o.big = false;
    Doc d = Doc::obj();
    d.add("a", gen_doc(fixed, o)); d.add("t", Doc::str("x\n\xC3\xA4\"")); d.add("f", Doc::fp(1.5)); d.add("g", Doc::fp(0.1)); d.add("n", Doc::integer(-70000)); d.add("b", Doc::bin("bytes\xFF"));
    d.add("arr", Doc::arr().add("", Doc::null()).add("", Doc::boolean(true))); d.add("a", Doc::obj().add("a", Doc::uinteger(~0ull)));
    Tree t; build_root(t, d, fixed);
    Buf b = encode(t, f);
    size_t part = idx / 4 % 10;
    for(size_t p = part; p < b.size(); p += 10) {
        Buf m = b;
        for(auto v : { 0, 1, 0x7F, 0x80, 0xFF, 0xDF, 0xC6, (int)(b[p] ^ 1), (int)(b[p] + 1), (int)(b[p] ^ 0x80), (int)'"', (int)'\\', (int)'{', (int)']' }) {
            m[p] = (uint8_t)v;
            hostile::guarded(m, f, "every byte", [&](Exact& e, Parser& ps) { Tree x; x.load_source(e.p, e.n, ps); walk(x.root()); count("accepted"); });
        }
    }
    count("positions damaged", b.size() / 10);
}

int main(int argc, char** argv)
{
    std::vector<vf::Group> gs {
        { "mutated", 24000, 3000000, [](Rng& r, uint64_t i) { load(r, i, hostile::mutated); } },
        { "garbage", 12000, 1000000, [](Rng& r, uint64_t i) { load(r, i, hostile::garbage); } },
        { "attacks", 5000, 600000, [](Rng& r, uint64_t i) { load(r, i, hostile::attack); } },
        { "tiny", 256, 256, tiny },
        { "every_byte", 120, 4000, every_byte },
    };
    hostile::typed_groups(gs);
    return run(argc, argv, "P05", gs);
}
