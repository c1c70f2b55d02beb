// P09: every MessagePack document whose root is a map or an array is read as what it says, whichever of the permitted
// widths its producer chose; what the library cannot represent is refused.
#include "doc.h"
using namespace vf; using namespace Srl;

static GenOpt opt(Rng& r)
{
    GenOpt o;
    o.depth = (int)r.range(0, 7);
    o.budget = r.chance(80) ? (int)r.range(1, 40) : (int)r.range(40, 400);
    o.max_str = r.chance(3) ? 200000 : 9000;
    return o;
}

static void judge(const Buf& b, const char* key, const std::string& how)
{
    Doc want;
    try { want = canon(mp_parse(b)); }
    catch(RefError& e) { fprintf(stderr, "harness: reference reader rejects %s: %s\n", hex(b).c_str(), e.what.c_str()); exit(70); }
    count("documents"); count("bytes", b.size());
    if(want.kids.size()) distinct(hash_bytes(b.data(), b.size()));
    Exact e(b);
    Tree t; PMsgPack p;
    try { t.load_source(e.p, e.n, p); }
    catch(Srl::Exception& x) { violation(std::string(key) + ":rejected", how + ": valid MessagePack was rejected: " + x.what() + ": " + hex(b, 300)); }
    Doc got = walk(t.root());
    count("elements", count_nodes(got));
    std::string w;
    if(!same(want, got, &w)) violation(key, how + ": " + w + " bytes " + hex(b, 300));
}

static void documents(Rng& r, uint64_t)
{
    Doc d = gen_doc(r, opt(r));
    judge(mp_write(r, d, r.chance(20)), "msgpack-in", "random widths");
    sample(show(d, 200));
}

// every single prefix with random payload of the right size
static void prefixes(Rng& r, uint64_t idx)
{
    uint8_t p = (uint8_t)idx;
    Buf el { p };
    auto payload = [&](size_t n) { while(n--) el.push_back((uint8_t)r.u64()); };
    auto text = [&](size_t n) { while(n--) el.push_back((uint8_t)r.range(32, 126)); };
    auto len = [&](int w, size_t n) { for(int i = w - 1; i >= 0; i--) el.push_back((uint8_t)(n >> (8 * i))); };
    bool ok = true;
    auto items = [&](size_t n, bool map) { while(n--) { if(map) { el.push_back(0xA1); text(1); } el.push_back((uint8_t)r.below(128)); } };
    size_t n = r.size(300);
    if(p < 0x80 || p >= 0xE0 || p == 0xC0 || p == 0xC2 || p == 0xC3) { }
    else if(p <= 0x8F) items(p & 15, true);
    else if(p <= 0x9F) items(p & 15, false);
    else if(p <= 0xBF) text(p & 31);
    else switch(p) {
        case 0xC4 : n %= 256; len(1, n); payload(n); break;
        case 0xC5 : len(2, n); payload(n); break;
        case 0xC6 : len(4, n); payload(n); break;
        case 0xCA : case 0xCE : case 0xD2 : payload(4); break;
        case 0xCB : case 0xCF : case 0xD3 : payload(8); break;
        case 0xCC : case 0xD0 : payload(1); break;
        case 0xCD : case 0xD1 : payload(2); break;
        case 0xD9 : n %= 256; len(1, n); text(n); break;
        case 0xDA : len(2, n); text(n); break;
        case 0xDB : len(4, n); text(n); break;
        case 0xDC : len(2, n); items(n, false); break;
        case 0xDD : len(4, n); items(n, false); break;
        case 0xDE : len(2, n); items(n, true); break;
        case 0xDF : len(4, n); items(n, true); break;
        case 0xC1 : ok = false; break;                                       // never used
        case 0xC7 : ok = false; len(1, 3); payload(4); break;                // ext
        case 0xC8 : ok = false; len(2, 3); payload(4); break;
        case 0xC9 : ok = false; len(4, 3); payload(4); break;
        case 0xD4 : ok = false; payload(2); break;
        case 0xD5 : ok = false; payload(3); break;
        case 0xD6 : ok = false; payload(5); break;
        case 0xD7 : ok = false; payload(9); break;
        case 0xD8 : ok = false; payload(17); break;
    }
    // the element between neighbours which show if its end was found
    Buf b;
    if(r.chance(50)) { b = { 0x93, 0x07 }; b.insert(b.end(), el.begin(), el.end()); b.push_back(0xC3); }
    else { b = { 0x83, 0xA1, 'a', 0x07, 0xA1, 'b' }; b.insert(b.end(), el.begin(), el.end()); b.push_back(0xA1); b.push_back('c'); b.push_back(0xC3); }
    count(ok ? "prefixes" : "unsupported elements");
    if(ok) { judge(b, "msgpack-in:prefix", "prefix " + hex(el, 1)); return; }
    bool threw = false;
    Exact e(b); Tree t; PMsgPack ps;
    try { t.load_source(e.p, e.n, ps); } catch(Srl::Exception&) { threw = true; }
    VCHECK(threw, "msgpack-in:unsupported", "an element that cannot be represented was accepted as something else: " + hex(b));
}

// some fields of an object with many
struct Some {
    size_t n = 0; std::vector<size_t> at; std::vector<uint32_t> vals;
    void srl_resolve(Context& c)
    {
        for(size_t i : { (size_t)0, n / 3, n / 2, n - 2, n - 1 }) if(i < n && std::find(at.begin(), at.end(), i) == at.end()) at.push_back(i);
        vals.resize(at.size());
        for(size_t i = 0; i < at.size(); i++) c("k" + std::to_string(at[i] * 7), vals[i]);
    }
};

// every length around the limits of the widths, of every kind of element, in the tree and restored into objects
static void lengths(Rng& r, uint64_t idx)
{
    static const std::vector<size_t> ns = [] {
        std::vector<size_t> v;
        for(auto rg : { std::pair<size_t, size_t>{ 0, 40 }, { 120, 136 }, { 250, 262 }, { 32762, 32774 }, { 65530, 65545 }, { 70000, 70001 }, { 131070, 131074 } })
            for(size_t n = rg.first; n <= rg.second; n++) v.push_back(n);
        return v;
    }();
    size_t n = ns[(idx / 4) % ns.size()];
    bool stream = r.chance(50);
    Doc el; uint32_t h = (uint32_t)idx * 2654435761u;
    auto next = [&] { h = h * 1664525u + 1013904223u; return (h >> 8) & 0xFFFF; };
    switch(idx % 4) {
        case 0 : el = Doc::arr(); for(size_t i = 0; i < n; i++) el.add("", Doc::uinteger(next())); break;
        case 1 : el = Doc::obj(); for(size_t i = 0; i < n; i++) el.add("k" + std::to_string(i * 7), Doc::uinteger(next())); break;
        case 2 : { std::string t; for(size_t i = 0; i < n; i++) t += (char)('a' + next() % 26); el = Doc::str(t); break; }
        case 3 : { std::string t; for(size_t i = 0; i < n; i++) t += (char)next(); el = Doc::bin(t); break; }
    }
    Doc d = Doc::obj(); d.add("before", Doc::uinteger(n)); d.add("e", el); d.add("after", Doc::str("end"));
    Buf b = mp_write(r, d, r.chance(20));
    count("lengths");
    judge(b, "msgpack-in:length", (stream ? "stream, kind " : "memory, kind ") + std::to_string(idx % 4) + " of length " + std::to_string(n));
    Exact e(b);
    std::string how = "kind " + std::to_string(idx % 4) + " of length " + std::to_string(n) + (stream ? " restored from a stream" : " restored from memory");
    PMsgPack p; Tree t;
    auto go = [&](auto& v) {
        std::string end; uint64_t before = 0;
        try {
            ChunkBuf cb(b, r.chance(50) ? 0 : (size_t)r.range(1, 5000), r.u64()); std::istream is(&cb);
            if(stream) t.unpack(is, p, "before", before, "e", v, "after", end); else t.unpack(Lib::In::Source(e.p, e.n), p, "before", before, "e", v, "after", end);
        } catch(Srl::Exception& x) { violation("msgpack-in:length:rejected", how + ": " + x.what()); }
        VCHECK(before == n && end == "end", "msgpack-in:length:neighbours", how + ": the fields around it differ");
    };
    switch(idx % 4) {
        case 0 : { std::vector<uint32_t> v; go(v); VCHECK(v.size() == n, "msgpack-in:length:object", how + ": " + std::to_string(v.size()));
                   for(size_t i = 0; i < n; i++) VCHECK(v[i] == el.kids[i].second.mag, "msgpack-in:length:object", how + ": element " + std::to_string(i)); break; }
        case 1 : {
            Some v; v.n = n; go(v);
            for(size_t i = 0; i < v.at.size(); i++) VCHECK(v.vals[i] == el.kids[v.at[i]].second.mag, "msgpack-in:length:object", how + ": field " + std::to_string(v.at[i]));
            break;
        }
        case 2 : { std::string v; go(v); VCHECK(v == el.s, "msgpack-in:length:object", how); break; }
        case 3 : { std::vector<uint8_t> v; VecWrap<uint8_t> w(v); go(w); VCHECK(v.size() == n && std::equal(v.begin(), v.end(), (const uint8_t*)el.s.data()), "msgpack-in:length:object", how); break; }
    }
}

// keys that are no strings, in every shape, are refused and not taken for something else
static void keys(Rng& r, uint64_t)
{
    Buf b { 0x82, 0xA1, 'a', 0x01 };
    Doc k;
    switch(r.below(5)) {
        case 0 : k = Doc::uinteger(r.bits64()); break;
        case 1 : k = Doc::null(); break;
        case 2 : k = Doc::bin(gen_text(r, 30)); break;
        case 3 : k = Doc::arr(); break;
        case 4 : k = Doc::boolean(r.chance(50)); break;
    }
    Buf e = mp_write(r, k);
    b.insert(b.end(), e.begin(), e.end());
    b.push_back(0x02);
    Exact x(b); Tree t; PMsgPack p; bool threw = false;
    try { t.load_source(x.p, x.n, p); } catch(Srl::Exception&) { threw = true; }
    count("other keys");
    VCHECK(threw, "msgpack-in:keys", "a key that is no string was accepted: " + hex(b));
}

static void reuse(Rng& r, uint64_t)
{
    Tree t; PMsgPack p;
    for(int i = 0; i < 4; i++) {
        GenOpt o = opt(r); o.big = false;
        Buf b = mp_write(r, gen_doc(r, o));
        Exact e(b);
        t.load_source(e.p, e.n, p);
        std::string w;
        if(!same(canon(mp_parse(b)), walk(t.root()), &w)) violation("msgpack-in:reuse", "document " + std::to_string(i) + " read with the same parser: " + w);
        count("documents with one parser");
    }
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P09", {
        { "documents", 40000, 2000000, documents },
        { "prefixes", 6400, 256000, prefixes },
        { "lengths", 4 * 107, 4 * 107 * 8, lengths },
        { "keys", 600, 20000, keys },
        { "reuse", 4000, 100000, reuse },
    });
}
