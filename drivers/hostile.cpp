#include "hostile.h"
namespace hostile {
using namespace Srl;

GenOpt opt(Rng& r)
{
    GenOpt o;
    o.finite = true; o.depth = (int)r.range(0, 6);
    o.budget = (int)r.range(1, 60);
    o.max_str = r.chance(2) ? 70000 : 600;
    return o;
}

Buf valid_doc(Rng& r, Fmt f)
{
    Doc d = gen_doc(r, opt(r));
    if(r.chance(50)) { Tree t; build_root(t, d, r); return encode(t, f); }
    if(is_json(f)) { GenOpt o = opt(r); o.binary = false; auto s = json_write(r, gen_doc(r, o)); return Buf(s.begin(), s.end()); }
    return f == Fmt::MsgPack ? mp_write(r, d) : psrl_write(d);
}


// measured on the unchanged tree: one byte of input costs at most about 200 bytes of nodes and rounding; the bounds leave room
static const int64_t per_byte = 600, base = 6 << 20;
static const size_t  one_per_byte = 400, one_base = 3 << 20;

void guarded(const Buf& b, Fmt f, const char* how, const Use& fn)
{
    Exact e(b);
    bool threw = false;
    with_parser(f, [&](Parser& p) {
        auto before = mem_now();
        mem_reset_peak();
        try { fn(e, p); }
        catch(Srl::Exception&) { threw = true; }
        catch(const Violation&) { throw; }
        catch(...) { violation("hostile:exception", std::string("reading ends with ") + current_exception_name() + ", " + name(f) + ", " + how + ": " + hex(b, 200)); }
        auto peak = mem_peak() - before.bytes;
        count("inputs"); count("input bytes", b.size()); count(threw ? "refused" : "not refused");
        distinct(hash_bytes(b.data(), b.size(), (uint64_t)f));
        auto ctx = [&] { return std::string(name(f)) + ", " + how + ", " + std::to_string(b.size()) + " bytes: " + hex(b, 80); };
        VCHECK(peak <= per_byte * (int64_t)b.size() + base, "hostile:memory", std::to_string(peak) + " bytes of memory for " + ctx());
        VCHECK(mem_largest() <= one_per_byte * b.size() + one_base, "hostile:allocation", "one allocation of " + std::to_string(mem_largest()) + " bytes for " + ctx());
        if(getenv("VF_CALIBRATE") && b.size() > 2000) {
            static double worst = 0, worst1 = 0;
            double x = (double)peak / b.size(), y = (double)mem_largest() / b.size();
            if(x > worst) { worst = x; fprintf(stderr, "peak/byte %.1f %s\n", x, ctx().substr(0, 80).c_str()); }
            if(y > worst1) { worst1 = y; fprintf(stderr, "largest/byte %.1f %s\n", y, ctx().substr(0, 80).c_str()); }
        }
        // the same parser reads and writes on
        if(threw && f != Fmt::JsonSpaced) {
            Tree t;
            p.clear();
            static const auto& good = *new std::map<Fmt, Buf> {
                { Fmt::Json, [] { std::string s = "{\"k\":[1,\"x\"],\"z\":2}"; return Buf(s.begin(), s.end()); }() },
                { Fmt::MsgPack, { 0x82, 0xA1, 'k', 0x92, 1, 0xA1, 'x', 0xA1, 'z', 2 } },
                { Fmt::PSrl, psrl_write(Doc::obj().add("k", Doc::arr().add("", Doc::integer(1)).add("", Doc::str("x"))).add("z", Doc::integer(2))) } };
            auto& g = good.at(f);
            t.load_source(g.data(), g.size(), p);
            VCHECK(t.root().node("k").value(1).unwrap<std::string>() == "x" && t.root().unwrap_field<int>("z") == 2, "hostile:parser-after", "a parser reads wrong after it refused " + ctx());
            count("parsers used again");
        }
        return 0;
    });
}

static void put_len(Rng& r, Buf& b, Fmt f, size_t p)
{
    // overwrite what may be a length
    if(f == Fmt::MsgPack) {
        static const std::vector<uint8_t> heads { 0xC4, 0xC5, 0xC6, 0xD9, 0xDA, 0xDB, 0xDC, 0xDD, 0xDE, 0xDF, 0x8F, 0x9F, 0xBF, 0xCF, 0xCB };
        b[p] = r.pick(heads);
        for(size_t k = 1; k < 5 && p + k < b.size(); k++) b[p + k] = r.pick<uint8_t>({ 0xFF, 0x7F, 0x80, 0, 1, 0x10 });
    } else {
        for(size_t k = 0; k < r.range(1, 11) && p + k < b.size(); k++) b[p + k] = r.pick<uint8_t>({ 0xFF, 0x80, 0x7F, 0xFE });
    }
}

Buf mutate(Rng& r, Buf b, Fmt f)
{
    static const std::vector<std::string> tokens { "{", "}", "[", "]", ":", ",", "\"", "\\", "\\u", "\\uD800", "\\uDC00", "\\u0000", "//", "/*", "*/", "null", "true", "-", "1e999", "1e-999",
        "99999999999999999999", "\"srl_type_id\":\"Other\"", "\"srl_shared_key\":0", std::string("\0", 1), "\xFF\xFE", "\xC0\x80", "\xED\xA0\x80", "0x1p-1074", "nan", "inf" };
    for(auto n = r.range(1, r.chance(70) ? 3 : 12); n > 0 && !b.empty(); n--) {
        size_t p = r.below(b.size());
        size_t q = std::min(b.size(), p + r.range(1, r.chance(80) ? 6 : 200));
        switch(r.below(11)) {
            case 0 : b[p] ^= 1 << r.below(8); break;
            case 1 : b[p] = (uint8_t)r.u64(); break;
            case 2 : b[p] = (uint8_t)r.pick<int>({ 0, 1, 0x7F, 0x80, 0xFF, 0xC0, 0xC1, 0xDF, 0xDB, 0x9F, 0x8F, 0x62, 0x46, 0x42, 0x40, 0x44, 0x06, 0x29, 0x09 }); break;
            case 3 : b.erase(b.begin() + p, b.begin() + q); break;
            case 4 : { Buf c(b.begin() + p, b.begin() + q); b.insert(b.begin() + r.below(b.size() + 1), c.begin(), c.end()); break; }
            case 5 : b.resize(p); break;
            case 6 : for(auto k = r.range(1, 9); k > 0; k--) b.insert(b.begin() + p, (uint8_t)r.u64()); break;
            case 7 : put_len(r, b, f, p); break;
            case 8 : { auto& t = r.pick(tokens); b.insert(b.begin() + p, t.begin(), t.end()); break; }
            case 9 : { size_t m = std::min(b.size() - p, (size_t)4); for(size_t k = 0; k < m; k++) b[p + k] = 0xFF; break; }
            case 10 : { if(q < b.size()) std::reverse(b.begin() + p, b.begin() + q); break; }
        }
    }
    return b;
}

Buf mutated(Rng& r, Fmt f) { return mutate(r, valid_doc(r, r.chance(95) ? f : r.pick(all_formats)), f); }

Buf garbage(Rng& r, Fmt f)
{
    Buf b;
    static const std::string json = "{}[]:,\"\\ntfalsue0123456789.-+eE \n\t/*#'";
    size_t n = r.size(3000);
    int style = (int)r.below(3);
    while(b.size() < n) b.push_back(style == 0 ? (uint8_t)r.u64() : style == 1 && is_json(f) ? (uint8_t)json[r.below(json.size())] : (uint8_t)(r.chance(50) ? r.below(16) : r.u64()));
    if(r.chance(80)) {
        // get past the first token
        uint8_t h = is_json(f) ? (uint8_t)r.pick({ '{', '[' }) : f == Fmt::MsgPack ? (uint8_t)r.pick<int>({ 0x8F, 0x9F, 0xDD, 0xDF, 0xDE, 0xDC }) : (uint8_t)r.pick<int>({ 0x40, 0x80 });
        b.insert(b.begin(), h);
    }
    return b;
}

static void var(Buf& b, uint64_t v) { while(v >= 128) { b.push_back((uint8_t)(v | 128)); v >>= 7; } b.push_back((uint8_t)v); }

// inputs made to exhaust something
Buf attack(Rng& r, Fmt f)
{
    Buf b;
    size_t n = r.pick({ 100, 127, 128, 129, 1000, 20000, 100000 });
    auto rep = [&](std::string s, size_t k) { while(k--) b.insert(b.end(), s.begin(), s.end()); };
    int kind = (int)r.below(7);
    if(is_json(f)) {
        switch(kind) {
            case 0 : rep("[", n); if(r.chance(50)) rep("]", n); break;
            case 1 : rep("{\"a\":", n); if(r.chance(50)) { rep("1", 1); rep("}", n); } break;
            case 2 : rep("[", 1); rep(r.pick({ "0,", "[],", "{},", "\"\",", "null," }), n); rep("0]", 1); break;
            case 3 : rep("[\"", 1); rep(r.pick({ "\\\"", "\\\\", "\\u0000", "\\u00e4", "\\uD83D\\uDE00", "\\uD800", "/" , "\\" }), n); rep("\"]", 1); break;
            case 4 : rep("[", 1); rep(r.pick({ "9", "0", "1e", "-", "1.", "0." }), std::min<size_t>(n, 3000)); rep(r.pick({ "]", "", "e9]", "e999999999]" }), 1); break;
            case 5 : rep("{", 1); for(size_t i = 0; i < std::min<size_t>(n, 3000); i++) rep("\"k" + std::to_string(i) + "\":" + std::to_string(i) + ",", 1); rep("\"z\":0}", 1); break;
            case 6 : rep(r.pick({ " ", "\n", "/", "/*", "//", "*/" , ",", ":", "]" }), n); rep("[]", r.below(2)); break;
        }
    } else if(f == Fmt::MsgPack) {
        uint32_t len = r.pick<uint32_t>({ 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x10000000, 0x00FFFFFF, 70000 });
        auto be = [&](uint32_t v) { for(int s = 24; s >= 0; s -= 8) b.push_back((uint8_t)(v >> s)); };
        switch(kind) {
            case 0 : rep("\x91", n); if(r.chance(50)) rep(std::string("\xC0"), 1); break;
            case 1 : rep("\x81\xA1" "a", n); if(r.chance(50)) rep("\x01", 1); break;
            case 2 : b.push_back((uint8_t)r.pick<int>({ 0xDD, 0xDF })); be(len); rep(r.pick({ "\xC0", "\x90", "\xA0", "\xA1k\xC0" }), n); break;
            case 3 : b.push_back(0x91); b.push_back((uint8_t)r.pick<int>({ 0xDB, 0xC6 })); be(len); rep("x", r.below(3000)); break;
            case 4 : b.push_back(0x81); b.push_back(0xDB); be(len); rep("x", r.below(3000)); break;
            case 5 : rep(std::string("\xDD\0\0\0\1", 5), n / 5); break;
            case 6 : b.push_back(0xDF); be((uint32_t)std::min<size_t>(n, 3000)); for(size_t i = 0; i < std::min<size_t>(n, 3000); i++) { auto k = "k" + std::to_string(i); b.push_back((uint8_t)(0xA0 | k.size())); rep(k, 1); b.push_back(0xC0); } break;
        }
    } else {
        uint64_t len = r.pick<uint64_t>({ ~0ull, ~0ull >> 1, 1ull << 63, 0xFFFFFFFF, 0x7FFFFFFF, 1ull << 32, 1ull << 31, 1ull << 40, 70000 });
        switch(kind) {
            case 0 : rep("\x80", n); if(r.chance(50)) rep(std::string(1, '\0'), n); break;
            case 1 : b.push_back(0x40); for(size_t i = 0; i < n; i++) { if(i == 0) rep("\x42\x01" "a", 1); else rep(std::string("\x46\0", 2), 1); } break;
            case 2 : b.push_back(0x80); b.push_back((uint8_t)r.pick<int>({ 0x20, 0x10 })); var(b, len); rep("x", r.below(3000)); break;
            case 3 : b.push_back(0x40); b.push_back(0x22); var(b, len); rep("x", r.below(3000)); break;
            case 4 : b.push_back(0x40); b.push_back(0x26); var(b, r.chance(50) ? len : r.below(3)); rep("x", 10); break;
            case 5 : b.push_back(0x80); b.push_back(0x01); rep("\xFF", r.range(8, 12)); if(r.chance(50)) rep("\x01", 1); break;
            case 6 : b.push_back(0x40); for(size_t i = 0; i < std::min<size_t>(n, 3000); i++) { auto k = "k" + std::to_string(i); b.push_back(0x0A); var(b, k.size()); rep(k, 1); b.push_back(0x0E); var(b, r.below(i + 2)); } b.push_back(0); break;
        }
    }
    if(r.chance(20)) b = mutate(r, std::move(b), f);
    return b;
}
}
