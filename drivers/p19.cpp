// P19: the textual encodings of binary data are exact both ways, and what is no such text is refused without touching
// memory that is not concerned.
#include "doc.h"
#include <deque>
using namespace vf; using namespace Srl;

static std::string str(const std::vector<uint8_t>& v) { return std::string((const char*)v.data(), v.size()); }
static std::string Sb(const Buf& b) { return std::string(b.begin(), b.end()); }
static Buf random_bytes(Rng& r, size_t n)
{
    Buf b(n);
    int mode = (int)r.below(4);
    for(auto& x : b) x = mode == 0 ? (uint8_t)r.u64() : mode == 1 ? 0 : mode == 2 ? 0xFF : r.pick<uint8_t>({ 0, 1, 0x3F, 0x40, 0x7F, 0x80, 0xFB, 0xFE, 0xFF });
    return b;
}
static std::string ref_hex(const Buf& b) { std::string s; for(auto x : b) { s += "0123456789ABCDEF"[x >> 4]; s += "0123456789ABCDEF"[x & 15]; } return s; }
// decoding as RFC 4648 says: whole groups, padding only at the end, no other characters
static bool ref_dec(const std::string& s, Buf& out)
{
    out.clear();
    if(s.size() % 4) return false;
    auto v = [](char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; };
    for(size_t i = 0; i < s.size(); i += 4) {
        bool last = i + 4 == s.size(); int pad = 0;
        if(last && s[i + 3] == '=') { pad = 1; if(s[i + 2] == '=') pad = 2; }
        uint32_t w = 0;
        for(int k = 0; k < 4; k++) { int x = k >= 4 - pad ? 0 : v(s[i + k]); if(x < 0) return false; w = w << 6 | (uint32_t)x; }
        for(int k = 0; k < 3 - pad; k++) out.push_back((uint8_t)(w >> (16 - 8 * k)));
    }
    return true;
}

// a destination with known surroundings
struct Dest {
    Exact mem; size_t n;
    Dest(size_t size) : mem(std::string(size, '\x5A')), n(size) { }
    bool untouched(size_t from) const { for(size_t i = from; i < n; i++) if(mem.p[i] != 0x5A) return false; return true; }
};

static void check64(Rng& r, const std::string& s)
{
    Exact e(s); Buf want; bool ok = ref_dec(s, want);
    bool threw = false; std::vector<uint8_t> got;
    try { got = Tools::base64_to_bytes((const char*)e.p, s.size()); } catch(Exception&) { threw = true; }
    VCHECK(threw == !ok, "base64:validity", show(s) + (ok ? " was refused" : " was accepted"));
    if(ok) { VCHECK(got == want, "base64:decoding", show(s) + " gave " + hex(str(got))); VCHECK(Tools::get_base64_decoded_size((const char*)e.p, s.size()) == want.size(), "base64:size", show(s)); }
    // into memory of any size
    for(size_t size : { want.size(), (size_t)r.below(want.size() + 1), want.size() + (size_t)r.below(9) }) {
        Dest d(size); threw = false; size_t n = 0;
        try { n = Tools::base64_to_bytes(d.mem.p, size, (const char*)e.p, s.size()); } catch(Exception&) { threw = true; }
        VCHECK(threw == !ok, "base64:validity", show(s) + " into memory");
        if(ok) {
            VCHECK(n == want.size(), "base64:size", show(s) + " gave " + std::to_string(n) + " bytes");
            VCHECK(std::memcmp(d.mem.p, want.data(), std::min(size, want.size())) == 0, "base64:decoding", show(s));
        }
    }
    count(ok ? "decoded" : "refused");
}
static void check_hex(const std::string& s)
{
    Exact e(s); bool ok = s.size() % 2 == 0; Buf want;
    auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    for(size_t i = 0; ok && i < s.size(); i += 2) { int h = v(s[i]), l = v(s[i + 1]); if(h < 0 || l < 0) ok = false; else want.push_back((uint8_t)(h << 4 | l)); }
    bool threw = false; std::vector<uint8_t> got;
    try { got = Tools::hex_to_bytes(e.p, s.size()); } catch(Exception&) { threw = true; }
    VCHECK(threw == !ok, "hex:validity", show(s) + (ok ? " was refused" : " was accepted"));
    if(ok) VCHECK(got == want, "hex:decoding", show(s) + " gave " + hex(str(got)));
    for(size_t size : { s.size() / 2, s.size() / 2 + 3, s.size() / 2 ? s.size() / 2 - 1 : 0 }) {
        Dest d(size); threw = false;
        try { Tools::hex_to_bytes(d.mem.p, size, e.p, s.size()); } catch(Exception&) { threw = true; }
        VCHECK(threw == (!ok || size < s.size() / 2), "hex:validity", show(s) + " into " + std::to_string(size) + " bytes");
        if(!threw) { VCHECK(std::memcmp(d.mem.p, want.data(), want.size()) == 0, "hex:decoding", show(s)); VCHECK(d.untouched(want.size()), "hex:decoding", "wrote behind the result of " + show(s)); }
    }
    count(ok ? "decoded" : "refused");
}

static void check(Rng& r, const Buf& b)
{
    Exact e(b);
    std::string want = b64(Sb(b));
    auto t = Tools::bytes_to_base64(e.p, b.size());
    VCHECK(str(t) == want, "base64:encoding", hex(str(b)) + " gave " + show(str(t)));
    std::vector<uint8_t> buf(r.below(want.size() + 9), 0x33);
    size_t n = Tools::bytes_to_base64(e.p, b.size(), buf);
    VCHECK(n == want.size() && buf.size() >= n && std::memcmp(buf.data(), want.data(), n) == 0, "base64:encoding", hex(str(b)) + " into a buffer gave " + show(str(buf)));
    auto h = Tools::bytes_to_hex(e.p, b.size());
    VCHECK(str(h) == ref_hex(b), "hex:encoding", hex(str(b)) + " gave " + show(str(h)));
    check64(r, want); check_hex(ref_hex(b));
    std::string lower = ref_hex(b); for(auto& c : lower) if(r.chance(50)) c = (char)tolower(c);
    check_hex(lower);
    count("encoded");
    distinct(hash_bytes(b.data(), b.size(), 1));
}

static void small(Rng& r, uint64_t idx)
{
    // all data of one and two bytes, and a slice of three
    Buf one { (uint8_t)idx }; check(r, one);
    for(int i = 0; i < 256; i++) { Buf two { (uint8_t)idx, (uint8_t)i }; check(r, two); Buf three { (uint8_t)r.u64(), (uint8_t)idx, (uint8_t)i }; check(r, three); }
}
static void sizes(Rng& r, uint64_t idx)
{
    check(r, random_bytes(r, idx < 700 ? idx : r.chance(30) && !mined().empty() ? (size_t)(r.pick(mined()) % 100000) : r.below(r.chance(5) ? 200000 : 3000)));
}
static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void texts64(Rng& r, uint64_t)
{
    for(int k = 0; k < 16; k++) {
        std::string s = b64(Sb(random_bytes(r, r.below(40))));
        for(size_t m = r.below(4); m; m--) switch(r.below(6)) {
            case 0 : if(!s.empty()) s[r.below(s.size())] = (char)r.u64(); break;
            case 1 : if(!s.empty()) s[r.below(s.size())] = '='; break;
            case 2 : s.resize(r.below(s.size() + 1)); break;
            case 3 : s.insert(s.begin() + r.below(s.size() + 1), r.pick<char>({ '=', 'A', '-', '_', ' ', '\n', '\0', '\x80' })); break;
            case 4 : s += "===="; s.resize(s.size() - r.below(4)); break;
            default : if(!s.empty()) s[r.below(s.size())] = alphabet[r.below(64)]; break;
        }
        check64(r, s); distinct(hash_str(s));
    }
}
// every single character at every place of a group
static void chars(Rng& r, uint64_t idx)
{
    for(int at = 0; at < 8; at++) { std::string s = "QUJDREVG"; s[at] = (char)idx; check64(r, s); s = "QUI="; if(at < 4) { s[at] = (char)idx; check64(r, s); s = "QQ=="; s[at] = (char)idx; check64(r, s); } std::string h = "0123ABcd"; h[at] = (char)idx; check_hex(h); }
    distinct(idx + 7);
}
static void texts16(Rng& r, uint64_t)
{
    for(int k = 0; k < 16; k++) {
        std::string s; for(size_t n = r.below(40); n; n--) s += "0123456789abcdefABCDEF"[r.below(22)];
        if(r.chance(50) && !s.empty()) s[r.below(s.size())] = (char)r.u64();
        check_hex(s); distinct(hash_str(s));
    }
}

// binary data which went through JSON is the text of the data, and is restored as the data
static void documents(Rng& r, uint64_t idx)
{
    Buf b = random_bytes(r, r.chance(10) ? r.below(70000) : r.below(200));
    std::vector<uint8_t> got, v(b.begin(), b.end());
    Tree t; t.root().insert("a", 1); t.root().insert("b", BitWrap(v.data(), v.size())); t.root().insert("z", std::string("end"));
    for(Fmt f : { Fmt::Json, Fmt::JsonSpaced, Fmt::MsgPack, Fmt::PSrl }) with_parser(f, [&](Parser& p) {
        auto src = t.to_source(p); Exact e(src); Tree u; u.load_source(e.p, e.n, p);
        if(f == Fmt::Json || f == Fmt::JsonSpaced) {
            auto s = u.root().unwrap_field<std::string>("b");
            VCHECK(s == b64(Sb(b)), "base64:document", "the text in JSON is " + show(s));
        }
        got.clear(); size_t calls = 0;
        BitWrap w([&](size_t n) { calls++; got.resize(n); return got.data(); });
        u.root().paste_field("b", w);
        VCHECK(got == v, "base64:document", hex(str(v)) + " came back as " + hex(str(got)));
        VCHECK(u.root().unwrap_field<std::string>("z") == "end" && u.root().unwrap_field<int>("a") == 1, "base64:document", "other fields");
        count("documents");
    });
    distinct(hash_bytes(b.data(), b.size(), 2 + idx % 2));
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P19", {
        { "small", 256, 256, small }, { "sizes", 3000, 60000, sizes }, { "texts64", 6000, 200000, texts64 }, { "chars", 256, 256, chars },
        { "texts16", 3000, 60000, texts16 }, { "documents", 1500, 40000, documents },
    });
}
