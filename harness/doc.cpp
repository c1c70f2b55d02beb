#include "doc.h"

using namespace std;

namespace vf {

const vector<Fmt> all_formats { Fmt::Json, Fmt::JsonSpaced, Fmt::MsgPack, Fmt::PSrl };
const char* name(Fmt f)
{
    return f == Fmt::Json ? "PJson" : f == Fmt::JsonSpaced ? "PJson(spaced)" : f == Fmt::MsgPack ? "PMsgPack" : "PSrl";
}

// ---------------------------------------------------------------------------------------------------- comparison

static bool same_fp(double a, double b)
{
    if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return memcmp(&a, &b, 8) == 0;
}

bool same(const Doc& a, const Doc& b, string* where)
{
    auto fail = [&](const string& w) { if(where) *where = w; return false; };
    /* text shows floating point values beyond the range of int64 as shortest digits, which may read as an integer */
    if(a.k == Doc::Fp && a.mag == 1 && b.k == Doc::Int) {
        double v = (double)b.mag;
        return (b.neg ? -v : v) == a.d || fail("floating point as integer " + show(a, 60) + " <> " + show(b, 60));
    }
    if(a.k != b.k) return fail("kind " + show(a, 60) + " <> " + show(b, 60));
    switch(a.k) {
        case Doc::Null : return true;
        case Doc::Bool : return a.mag == b.mag || fail("bool");
        case Doc::Int  : return (a.mag == b.mag && (a.neg == b.neg || a.mag == 0)) || fail("integer " + show(a, 60) + " <> " + show(b, 60));
        case Doc::Fp   : return same_fp(a.d, b.d) || fail("floating point " + show(a, 60) + " <> " + show(b, 60));
        case Doc::Str  : return a.s == b.s || fail("string " + show(a, 160) + " <> " + show(b, 160));
        case Doc::Bin  : return a.s == b.s || fail("binary " + show(a, 160) + " <> " + show(b, 160));
        default : break;
    }
    if(a.kids.size() != b.kids.size()) return fail("number of elements " + to_string(a.kids.size()) + " <> " + to_string(b.kids.size()));
    for(size_t i = 0; i < a.kids.size(); i++) {
        if(a.k == Doc::Obj && a.kids[i].first != b.kids[i].first)
            return fail("name [" + to_string(i) + "] " + show(a.kids[i].first, 80) + " <> " + show(b.kids[i].first, 80));
        string w;
        if(!same(a.kids[i].second, b.kids[i].second, &w)) return fail("/" + show(a.kids[i].first, 30) + "[" + to_string(i) + "] " + w);
    }
    return true;
}

Doc canon(const Doc& d)
{
    if(!d.scope()) return d;
    Doc o = d;
    o.kids.clear();
    for(auto& k : d.kids) if(!k.second.scope()) o.kids.emplace_back(d.k == Doc::Arr ? "" : k.first, k.second);
    for(auto& k : d.kids) if(k.second.scope()) o.kids.emplace_back(d.k == Doc::Arr ? "" : k.first, canon(k.second));
    return o;
}

Doc expected(const Doc& d, Fmt f)
{
    Doc o = d;
    if(is_json(f)) {
        if(d.k == Doc::Bin) { o = Doc::str(b64(d.s)); }
        if(d.k == Doc::Fp && std::floor(d.d) == d.d && !(d.d == 0 && std::signbit(d.d)) && d.d >= -9223372036854775808.0 && d.d < 9223372036854775808.0)
            o = Doc::integer((int64_t)d.d);
        else if(d.k == Doc::Fp && std::fabs(d.d) >= 9223372036854775808.0) o.mag = 1;
    }
    for(auto& k : o.kids) { k.second = expected(k.second, f); if(o.k == Doc::Arr) k.first.clear(); }
    return o;
}

string show(const Doc& d, size_t max)
{
    string o;
    switch(d.k) {
        case Doc::Null : o = "null"; break;
        case Doc::Bool : o = d.mag ? "true" : "false"; break;
        case Doc::Int  : o = string(d.neg ? "-" : "") + to_string(d.mag) + ":" + Srl::TpTools::get_name(d.it); break;
        case Doc::Fp   : { char b[40]; snprintf(b, sizeof b, "%.17g", d.d); o = string(b) + ":" + Srl::TpTools::get_name(d.it); break; }
        case Doc::Str  : o = "\"" + show(d.s, 40) + "\"/" + to_string(d.enc); break;
        case Doc::Bin  : o = "bin(" + hex(d.s, 20) + ")"; break;
        default :
            o = d.k == Doc::Obj ? "{" : "[";
            for(auto& k : d.kids) {
                if(o.size() > max) { o += "..."; break; }
                if(o.size() > 1) o += ",";
                if(d.k == Doc::Obj) o += show(k.first, 30) + ":";
                o += show(k.second, max > o.size() ? max - o.size() : 0);
            }
            o += d.k == Doc::Obj ? "}" : "]";
    }
    if(o.size() > max) o = o.substr(0, max) + "...";
    return o;
}

uint64_t hash(const Doc& d)
{
    uint64_t h = mix(d.k * 31 + (uint64_t)d.it);
    h = mix(h ^ d.mag ^ (d.neg ? 0x55 : 0));
    h = hash_bytes(&d.d, 8, h);
    h = hash_str(d.s, h);
    for(auto& k : d.kids) { h = hash_str(k.first, h); h = mix(h ^ hash(k.second)); }
    return h;
}

size_t count_nodes(const Doc& d)
{
    size_t n = 1;
    for(auto& k : d.kids) n += count_nodes(k.second);
    return n;
}

bool has_kind(const Doc& d, Doc::K k)
{
    if(d.k == k) return true;
    for(auto& c : d.kids) if(has_kind(c.second, k)) return true;
    return false;
}

// ---------------------------------------------------------------------------------------------------- text

bool utf8_decode(const string& s, vector<uint32_t>& cps)
{
    cps.clear();
    for(size_t i = 0; i < s.size();) {
        uint8_t c = s[i];
        int n; uint32_t cp;
        if(c < 0x80) { cps.push_back(c); i++; continue; }
        else if(c >= 0xC2 && c <= 0xDF) { n = 1; cp = c & 0x1F; }
        else if(c >= 0xE0 && c <= 0xEF) { n = 2; cp = c & 0x0F; }
        else if(c >= 0xF0 && c <= 0xF4) { n = 3; cp = c & 0x07; }
        else return false;
        if(i + n >= s.size()) return false;
        for(int k = 1; k <= n; k++) {
            uint8_t x = s[i + k];
            if((x & 0xC0) != 0x80) return false;
            cp = cp << 6 | (x & 0x3F);
        }
        if((n == 2 && cp < 0x800) || (n == 3 && cp < 0x10000) || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) return false;
        cps.push_back(cp);
        i += n + 1;
    }
    return true;
}

string utf8_encode(const vector<uint32_t>& cps)
{
    string o;
    for(auto c : cps) {
        if(c < 0x80) o += (char)c;
        else if(c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 0x3F)); }
        else if(c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 0x3F)); o += (char)(0x80 | (c & 0x3F)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 0x3F)); o += (char)(0x80 | ((c >> 6) & 0x3F)); o += (char)(0x80 | (c & 0x3F)); }
    }
    return o;
}

u16string utf16_encode(const vector<uint32_t>& cps)
{
    u16string o;
    for(auto c : cps) {
        if(c < 0x10000) o += (char16_t)c;
        else { c -= 0x10000; o += (char16_t)(0xD800 | c >> 10); o += (char16_t)(0xDC00 | (c & 0x3FF)); }
    }
    return o;
}

u32string utf32_encode(const vector<uint32_t>& cps)
{
    u32string o;
    for(auto c : cps) o += (char32_t)c;
    return o;
}

static const char b64tab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

string b64(const string& s)
{
    string o;
    size_t i = 0;
    for(; i + 3 <= s.size(); i += 3) {
        uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2];
        for(int sh = 18; sh >= 0; sh -= 6) o += b64tab[v >> sh & 63];
    }
    if(s.size() - i == 1) {
        uint32_t v = (uint8_t)s[i] << 16;
        o += b64tab[v >> 18 & 63]; o += b64tab[v >> 12 & 63]; o += "==";
    } else if(s.size() - i == 2) {
        uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8;
        o += b64tab[v >> 18 & 63]; o += b64tab[v >> 12 & 63]; o += b64tab[v >> 6 & 63]; o += '=';
    }
    return o;
}

bool b64_decode(const string& s, string& out)
{
    out.clear();
    if(s.size() % 4) return false;
    size_t pad = 0;
    while(pad < 2 && pad < s.size() && s[s.size() - 1 - pad] == '=') pad++;
    uint32_t acc = 0; int nb = 0;
    for(size_t i = 0; i < s.size() - pad; i++) {
        const char* p = s[i] ? strchr(b64tab, s[i]) : nullptr;
        if(!p) return false;
        acc = acc << 6 | (uint32_t)(p - b64tab); nb += 6;
        if(nb >= 8) { nb -= 8; out += (char)(acc >> nb & 0xFF); }
    }
    return true;
}

// ---------------------------------------------------------------------------------------------------- generation

string gen_text(Rng& r, size_t max, bool ascii)
{
    size_t n = r.size(max);
    string o;
    int style = (int)r.below(ascii ? 2 : 7);
    if(n > 300 && r.chance(70)) {
        // long strings: a repeated unit, so that they stay cheap
        string unit = r.chance(50) || ascii ? string(1, (char)('a' + r.below(26))) : string("\xC3\xA4");
        while(o.size() + unit.size() <= n) o += unit;
        while(o.size() < n) o += 'z';
        if(!o.empty() && r.chance(60)) { size_t p = r.below(o.size()); if((uint8_t)o[p] < 0x80) o[p] = r.pick({ '"', '\\', '\n', '/', '\t', 'Q', '\x01' }); }
        return o;
    }
    vector<uint32_t> c;
    static const vector<uint32_t> edge { 0, 1, 7, 8, 9, 10, 12, 13, 0x1B, 0x1F, 0x20, '"', '\\', '/', '\'', '&', '<', '{', '}', '[', ']', ':', ',',
        'u', 'n', 't', 'b', 'f', 'r', 0x7E, 0x7F, 0x80, 0xA0, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0x2029, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
        0x10000, 0x10001, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF };
    while(n > 0) {
        uint32_t cp;
        if(style < 2) cp = 32 + r.below(95);
        else if(style == 2) cp = r.below(128);
        else if(style < 5) cp = r.pick(edge);
        else { do cp = r.below(0x110000); while(cp >= 0xD800 && cp < 0xE000); }
        size_t len = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
        if(len > n) { cp = 'a'; len = 1; }
        c.push_back(cp); n -= len;
    }
    return utf8_encode(c);
}

// pairs of names which have the same 64 bit FNV-1a hash: names are told apart by their characters, not by their hashes
const std::vector<std::string> colliding { "7mohtcOFVz", "c1E51sSEyx", "6a5x-VbtXk", "f_2k7GG-4v", "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ" };
string gen_name(Rng& r)
{
    static const vector<string> common { "a", "b", "c", "id", "name", "value", "key", "first", "second", "x", "y", "field_name", "exactly8", "nine_char",
        "srl_shared_key", "srl_type_id", "n0", "n1", "n2" };
    auto roll = r.below(10);
    if(r.chance(8)) return r.pick(colliding);
    if(roll < 6) return r.pick(common);
    if(roll < 8) return "f" + to_string(r.below(400));
    return gen_text(r, r.chance(5) ? 70000 : 300);
}

Doc gen_scalar(Rng& r, const GenOpt& o)
{
    using Srl::Type;
    auto roll = r.below(100);
    if(roll < 8) return o.nulls ? Doc::null() : Doc::boolean(true);
    if(roll < 16) return Doc::boolean(r.chance(50));
    if(roll < 48) {
        uint64_t v = r.bits64();
        switch(r.below(8)) {
            case 0 : return Doc::integer((int8_t)v, Type::I8);
            case 1 : return Doc::uinteger((uint8_t)v, Type::UI8);
            case 2 : return Doc::integer((int16_t)v, Type::I16);
            case 3 : return Doc::uinteger((uint16_t)v, Type::UI16);
            case 4 : return Doc::integer((int32_t)v, Type::I32);
            case 5 : return Doc::uinteger((uint32_t)v, Type::UI32);
            case 6 : return Doc::integer((int64_t)v, Type::I64);
            default : return Doc::uinteger(v, Type::UI64);
        }
    }
    if(roll < 65) {
        if(r.chance(40)) return Doc::fp(r.flt(o.finite), Type::FP32);
        return Doc::fp(r.dbl(o.finite), Type::FP64);
    }
    if(roll < 90 || !o.binary) return Doc::str(gen_text(r, r.chance(6) ? o.max_str : 400), o.u16 ? r.pick({ 8, 8, 16, 32 }) : 8);
    size_t n = r.size(r.chance(10) ? o.max_str : 300);
    string b(n, '\0');
    for(size_t i = 0; i < n; i++) b[i] = n > 400 ? (char)(i * 7) : (char)r.u64();
    return Doc::bin(b);
}

static Doc gen_scope(Rng& r, const GenOpt& o, int depth, int& budget)
{
    Doc d = r.chance(60) ? Doc::obj() : Doc::arr();
    size_t n = r.chance(70) ? r.below(6) : r.chance(80) ? r.below(20) : r.below(60);
    set<string> names;
    for(size_t i = 0; i < n && budget > 0; i++) {
        budget--;
        string nm = d.k == Doc::Obj ? gen_name(r) : "";
        if(d.k == Doc::Obj && (!o.dup_names || !r.chance(10))) {
            int tries = 0;
            while(names.count(nm)) { nm = tries++ < 3 ? gen_name(r) : nm + to_string(i); }
        }
        names.insert(nm);
        if(depth > 0 && r.chance(35)) d.add(nm, gen_scope(r, o, depth - 1, budget));
        else d.add(nm, gen_scalar(r, o));
    }
    return d;
}

Doc gen_doc(Rng& r, const GenOpt& o)
{
    int budget = o.budget;
    auto roll = r.below(100);
    if(o.big && roll < 3) {
        // wide scope
        Doc d = r.chance(50) ? Doc::obj() : Doc::arr();
        size_t n = r.pick({ 15, 16, 17, 31, 32, 127, 128, 129, 130, 255, 256, 257, 300, 1023, 1024, 1500 });
        for(size_t i = 0; i < n; i++) d.add(d.k == Doc::Obj ? "k" + to_string(r.chance(50) ? i : i % 200) : "", Doc::uinteger(i));
        Doc root = r.chance(50) ? Doc::obj() : Doc::arr();
        return r.chance(50) ? d : root.add(root.k == Doc::Obj ? "w" : "", d).add(root.k == Doc::Obj ? "tail" : "", Doc::str("end"));
    }
    if(o.big && roll < 6) {
        // deep nesting
        int n = r.pick({ 5, 20, 64, 100, 126, 127, 128 });
        Doc d = r.chance(50) ? Doc::obj() : Doc::arr();
        if(d.k == Doc::Obj) d.add("leaf", gen_scalar(r, o)); else d.add("", gen_scalar(r, o));
        for(int i = 0; i < n; i++) {
            Doc p = r.chance(50) ? Doc::obj() : Doc::arr();
            if(r.chance(20)) p.add(p.k == Doc::Obj ? "before" : "", Doc::uinteger(i));
            p.add(p.k == Doc::Obj ? "n" : "", d);
            if(r.chance(20)) p.add(p.k == Doc::Obj ? "after" : "", Doc::uinteger(i));
            d = p;
        }
        return d;
    }
    return gen_scope(r, o, o.depth, budget);
}

// ---------------------------------------------------------------------------------------------------- JSON

namespace {
struct JP {
    const string& s; size_t p = 0; int depth = 0;
    [[noreturn]] void fail(const string& w) { throw RefError { w + " at " + to_string(p) }; }
    char peek() { if(p >= s.size()) fail("unexpected end"); return s[p]; }
    void ws() { while(p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) p++; }
    unsigned hex4()
    {
        unsigned v = 0;
        for(int i = 0; i < 4; i++) {
            char c = peek(); p++;
            v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (fail("hex digit"), 0));
        }
        return v;
    }
    string str()
    {
        if(peek() != '"') fail("string expected");
        p++;
        string raw;
        for(;;) {
            unsigned char c = peek(); p++;
            if(c == '"') break;
            if(c < 0x20) fail("unescaped control character");
            if(c != '\\') { raw += (char)c; continue; }
            c = peek(); p++;
            switch(c) {
                case '"': case '\\': case '/': raw += (char)c; break;
                case 'b': raw += '\b'; break; case 'f': raw += '\f'; break; case 'n': raw += '\n'; break;
                case 'r': raw += '\r'; break; case 't': raw += '\t'; break;
                case 'u': {
                    unsigned u = hex4();
                    if(u >= 0xDC00 && u < 0xE000) fail("lone surrogate");
                    if(u >= 0xD800 && u < 0xDC00) {
                        if(peek() != '\\') fail("lone surrogate");
                        p++;
                        if(peek() != 'u') fail("lone surrogate");
                        p++;
                        unsigned l = hex4();
                        if(l < 0xDC00 || l > 0xDFFF) fail("lone surrogate");
                        u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                    }
                    raw += utf8_encode({ u });
                    break;
                }
                default : fail("bad escape");
            }
        }
        vector<uint32_t> cps;
        if(!utf8_decode(raw, cps)) fail("string is not UTF-8");
        return raw;
    }
    bool lit(const char* l) { size_t n = strlen(l); if(s.compare(p, n, l) == 0) { p += n; return true; } return false; }
    Doc value()
    {
        ws();
        char c = peek();
        if(c == '{') {
            if(++depth > 4000) fail("depth");
            Doc d = Doc::obj(); p++; ws();
            if(peek() == '}') { p++; depth--; return d; }
            for(;;) {
                ws(); string n = str(); ws();
                if(peek() != ':') fail("colon expected");
                p++;
                Doc v = value();
                d.kids.emplace_back(n, move(v));
                ws();
                if(peek() == ',') { p++; continue; }
                if(peek() == '}') { p++; depth--; return d; }
                fail("comma or brace expected");
            }
        }
        if(c == '[') {
            if(++depth > 4000) fail("depth");
            Doc d = Doc::arr(); p++; ws();
            if(peek() == ']') { p++; depth--; return d; }
            for(;;) {
                Doc v = value();
                d.kids.emplace_back("", move(v));
                ws();
                if(peek() == ',') { p++; continue; }
                if(peek() == ']') { p++; depth--; return d; }
                fail("comma or bracket expected");
            }
        }
        if(c == '"') return Doc::str(str());
        if(lit("true")) return Doc::boolean(true);
        if(lit("false")) return Doc::boolean(false);
        if(lit("null")) return Doc::null();
        return number();
    }
    Doc number()
    {
        size_t b = p; bool frac = false, neg = false;
        if(peek() == '-') { neg = true; p++; }
        if(peek() == '0') p++;
        else if(peek() >= '1' && peek() <= '9') { while(p < s.size() && isdigit((uint8_t)s[p])) p++; }
        else fail("value expected");
        size_t e = p;
        if(p < s.size() && s[p] == '.') { frac = true; p++; size_t q = p; while(p < s.size() && isdigit((uint8_t)s[p])) p++; if(p == q) fail("digit expected"); }
        if(p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
            frac = true; p++;
            if(p < s.size() && (s[p] == '+' || s[p] == '-')) p++;
            size_t q = p; while(p < s.size() && isdigit((uint8_t)s[p])) p++;
            if(p == q) fail("digit expected");
        }
        string t = s.substr(b, p - b);
        if(!frac) {
            // exact integers where they fit, otherwise the nearest double
            unsigned __int128 v = 0; bool big = false;
            for(size_t i = b + neg; i < e; i++) { v = v * 10 + (s[i] - '0'); if(v > (unsigned __int128)UINT64_MAX) { big = true; break; } }
            if(!big && !(neg && (v == 0 || v > (unsigned __int128)1 << 63))) { Doc d = Doc::uinteger((uint64_t)v); d.neg = neg; return d; }
        }
        return Doc::fp(strtod(t.c_str(), nullptr));
    }
};
}

Doc json_parse(const string& s)
{
    JP p { s };
    Doc d = p.value();
    p.ws();
    if(p.p != s.size()) p.fail("trailing data");
    return d;
}

static string json_ws(Rng& r, bool plain)
{
    if(plain) return "";
    string o;
    for(auto n = r.chance(60) ? 0 : r.below(4); n > 0; n--) o += r.pick({ ' ', '\t', '\n', '\r' });
    return o;
}

static string json_str(Rng& r, const string& s, bool plain)
{
    vector<uint32_t> cps;
    utf8_decode(s, cps);
    string o = "\"";
    auto u4 = [&](unsigned u) { char b[8]; snprintf(b, sizeof b, r.chance(50) ? "\\u%04x" : "\\u%04X", u); return string(b); };
    bool heavy = r.chance(20);
    for(auto c : cps) {
        if(!plain && (heavy || r.chance(4)) && cps.size() < 3000) {
            if(c < 0x10000) o += u4(c);
            else { uint32_t x = c - 0x10000; o += u4(0xD800 | x >> 10); o += u4(0xDC00 | (x & 0x3FF)); }
            continue;
        }
        switch(c) {
            case '"' : o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            case '\n': o += "\\n"; break; case '\t': o += "\\t"; break; case '\r': o += "\\r"; break;
            case '\b': o += "\\b"; break; case '\f': o += "\\f"; break;
            case '/' : o += r.chance(50) ? "\\/" : "/"; break;
            default  : if(c < 0x20) o += u4(c); else o += utf8_encode({ c });
        }
    }
    return o + "\"";
}

string json_write(Rng& r, const Doc& d, bool plain)
{
    switch(d.k) {
        case Doc::Null : return "null";
        case Doc::Bool : return d.mag ? "true" : "false";
        case Doc::Int  : return (d.neg ? "-" : "") + to_string(d.mag);
        case Doc::Fp   : {
            char b[64];
            switch(plain ? 0 : r.below(4)) {
                case 0 : snprintf(b, sizeof b, "%.17g", d.d); break;
                case 1 : snprintf(b, sizeof b, "%.16e", d.d); break;
                case 2 : snprintf(b, sizeof b, "%.17E", d.d); break;
                default: snprintf(b, sizeof b, "%.20g", d.d); break;
            }
            return b;
        }
        case Doc::Str : return json_str(r, d.s, plain);
        case Doc::Bin : return "\"" + b64(d.s) + "\"";
        default : break;
    }
    string o = d.k == Doc::Obj ? "{" : "[";
    bool first = true;
    for(auto& k : d.kids) {
        if(!first) o += ",";
        first = false;
        o += json_ws(r, plain);
        if(d.k == Doc::Obj) { o += json_str(r, k.first, plain); o += json_ws(r, plain); o += ":"; o += json_ws(r, plain); }
        o += json_write(r, k.second, plain);
        o += json_ws(r, plain);
    }
    if(d.kids.empty()) o += json_ws(r, plain);
    return o + (d.k == Doc::Obj ? "}" : "]");
}

// ---------------------------------------------------------------------------------------------------- MessagePack

namespace {
void be(Buf& o, uint64_t v, int n) { for(int i = n - 1; i >= 0; i--) o.push_back((uint8_t)(v >> (8 * i))); }

struct MP {
    const Buf& b; size_t p = 0;
    [[noreturn]] void fail(const string& w) { throw RefError { w + " at " + to_string(p) }; }
    uint64_t take(int n) { if(b.size() - p < (size_t)n) fail("unexpected end"); uint64_t v = 0; for(int i = 0; i < n; i++) v = v << 8 | b[p++]; return v; }
    string raw(uint64_t n) { if(b.size() - p < n) fail("unexpected end"); string s((const char*)&b[0] + p, n); p += n; return s; }
    static Doc sgn(int64_t v) { return Doc::integer(v); }
    Doc val(int depth = 0)
    {
        if(depth > 4000) fail("depth");
        uint8_t c = (uint8_t)take(1);
        if(c < 0x80) return Doc::uinteger(c);
        if(c >= 0xE0) return sgn((int8_t)c);
        if(c <= 0x8F) return map(c & 15, depth);
        if(c <= 0x9F) return arr(c & 15, depth);
        if(c <= 0xBF) return Doc::str(raw(c & 31));
        switch(c) {
            case 0xC0 : return Doc::null();
            case 0xC2 : return Doc::boolean(false);
            case 0xC3 : return Doc::boolean(true);
            case 0xC4 : { auto n = take(1); return Doc::bin(raw(n)); }
            case 0xC5 : { auto n = take(2); return Doc::bin(raw(n)); }
            case 0xC6 : { auto n = take(4); return Doc::bin(raw(n)); }
            case 0xCA : { uint32_t u = (uint32_t)take(4); float f; memcpy(&f, &u, 4); return Doc::fp(f, Srl::Type::FP32); }
            case 0xCB : { uint64_t u = take(8); double f; memcpy(&f, &u, 8); return Doc::fp(f); }
            case 0xCC : return Doc::uinteger(take(1)); case 0xCD : return Doc::uinteger(take(2));
            case 0xCE : return Doc::uinteger(take(4)); case 0xCF : return Doc::uinteger(take(8));
            case 0xD0 : return sgn((int8_t)take(1)); case 0xD1 : return sgn((int16_t)take(2));
            case 0xD2 : return sgn((int32_t)take(4)); case 0xD3 : return sgn((int64_t)take(8));
            case 0xD9 : { auto n = take(1); return Doc::str(raw(n)); }
            case 0xDA : { auto n = take(2); return Doc::str(raw(n)); }
            case 0xDB : { auto n = take(4); return Doc::str(raw(n)); }
            case 0xDC : { auto n = take(2); return arr(n, depth); }
            case 0xDD : { auto n = take(4); return arr(n, depth); }
            case 0xDE : { auto n = take(2); return map(n, depth); }
            case 0xDF : { auto n = take(4); return map(n, depth); }
            default : fail("unsupported prefix");
        }
    }
    Doc arr(uint64_t n, int depth) { Doc d = Doc::arr(); while(n--) d.kids.emplace_back("", val(depth + 1)); return d; }
    Doc map(uint64_t n, int depth)
    {
        Doc d = Doc::obj();
        while(n--) { Doc k = val(depth + 1); if(k.k != Doc::Str) fail("key is no string"); d.kids.emplace_back(k.s, val(depth + 1)); }
        return d;
    }
};

void mp_len(Rng& r, Buf& o, uint64_t n, bool canonical, int fix_max, uint8_t fix, int p8, int p16, int p32)
{
    vector<int> w;
    if(fix_max >= 0 && n <= (uint64_t)fix_max) w.push_back(0);
    if(p8 >= 0 && n <= 0xFF) w.push_back(1);
    if(p16 >= 0 && n <= 0xFFFF) w.push_back(2);
    w.push_back(4);
    int c = canonical ? w[0] : r.pick(w);
    if(c == 0) o.push_back(fix | (uint8_t)n);
    else if(c == 1) { o.push_back(p8); be(o, n, 1); }
    else if(c == 2) { o.push_back(p16); be(o, n, 2); }
    else { o.push_back(p32); be(o, n, 4); }
}

void mp_put(Rng& r, Buf& o, const Doc& d, bool canonical)
{
    switch(d.k) {
        case Doc::Null : o.push_back(0xC0); return;
        case Doc::Bool : o.push_back(d.mag ? 0xC3 : 0xC2); return;
        case Doc::Int  : {
            struct W { uint8_t p; int n; };
            vector<W> w;
            if(!d.neg || d.mag == 0) {
                if(d.mag <= 0x7F) w.push_back({ 0, 0 });
                if(d.mag <= 0xFF) w.push_back({ 0xCC, 1 });
                if(d.mag <= 0x7F) w.push_back({ 0xD0, 1 });
                if(d.mag <= 0xFFFF) w.push_back({ 0xCD, 2 });
                if(d.mag <= 0x7FFF) w.push_back({ 0xD1, 2 });
                if(d.mag <= 0xFFFFFFFF) w.push_back({ 0xCE, 4 });
                if(d.mag <= 0x7FFFFFFF) w.push_back({ 0xD2, 4 });
                w.push_back({ 0xCF, 8 });
                if(d.mag <= INT64_MAX) w.push_back({ 0xD3, 8 });
            } else {
                if(d.mag <= 32) w.push_back({ 0, 0 });
                if(d.mag <= 128) w.push_back({ 0xD0, 1 });
                if(d.mag <= 32768) w.push_back({ 0xD1, 2 });
                if(d.mag <= 2147483648u) w.push_back({ 0xD2, 4 });
                w.push_back({ 0xD3, 8 });
            }
            auto c = canonical ? w[0] : r.pick(w);
            uint64_t v = d.neg ? 0 - d.mag : d.mag;
            if(c.n == 0) o.push_back((uint8_t)v); else { o.push_back(c.p); be(o, v, c.n); }
            return;
        }
        case Doc::Fp : {
            if(d.it == Srl::Type::FP32) { float f = (float)d.d; uint32_t u; memcpy(&u, &f, 4); o.push_back(0xCA); be(o, u, 4); }
            else { uint64_t u; memcpy(&u, &d.d, 8); o.push_back(0xCB); be(o, u, 8); }
            return;
        }
        case Doc::Str : mp_len(r, o, d.s.size(), canonical, 31, 0xA0, 0xD9, 0xDA, 0xDB); o.insert(o.end(), d.s.begin(), d.s.end()); return;
        case Doc::Bin : mp_len(r, o, d.s.size(), canonical, -1, 0, 0xC4, 0xC5, 0xC6); o.insert(o.end(), d.s.begin(), d.s.end()); return;
        case Doc::Arr :
            mp_len(r, o, d.kids.size(), canonical, 15, 0x90, -1, 0xDC, 0xDD);
            for(auto& k : d.kids) mp_put(r, o, k.second, canonical);
            return;
        case Doc::Obj :
            mp_len(r, o, d.kids.size(), canonical, 15, 0x80, -1, 0xDE, 0xDF);
            for(auto& k : d.kids) { mp_put(r, o, Doc::str(k.first), canonical); mp_put(r, o, k.second, canonical); }
            return;
    }
}
}

Doc mp_parse(const Buf& b)
{
    MP p { b };
    Doc d = p.val();
    if(p.p != b.size()) p.fail("trailing data");
    return d;
}

Buf mp_write(Rng& r, const Doc& d, bool canonical) { Buf o; mp_put(r, o, d, canonical); return o; }

// ---------------------------------------------------------------------------------------------------- Srl binary format

namespace {
void varint(Buf& o, uint64_t v) { while(v >= 128) { o.push_back((uint8_t)(v | 128)); v >>= 7; } o.push_back((uint8_t)v); }

void psrl_put(Buf& o, const Doc& d, const string& nm, bool named, map<string, size_t>& idx)
{
    uint8_t f = 0;
    switch(d.k) {
        case Doc::Null : f = 8; break;
        case Doc::Bool : f = 1 | (d.mag ? 64 : 128); break;
        case Doc::Int  : f = 1 | (d.neg && d.mag ? 8 : 0); break;
        case Doc::Fp   : f = 1 | (d.it == Srl::Type::FP32 ? 16 : 32); break;
        case Doc::Str  : f = 32; break;
        case Doc::Bin  : f = 16; break;
        case Doc::Obj  : f = 64; break;
        case Doc::Arr  : f = 128; break;
    }
    if(named && !nm.empty()) {
        auto it = idx.find(nm);
        if(it != idx.end()) { o.push_back(f | 2 | 4); varint(o, it->second); }
        else { o.push_back(f | 2); varint(o, nm.size()); o.insert(o.end(), nm.begin(), nm.end()); size_t n = idx.size(); idx[nm] = n; }
    } else o.push_back(f);
    switch(d.k) {
        case Doc::Int : varint(o, d.mag); break;
        case Doc::Fp  :
            if(d.it == Srl::Type::FP32) { float v = (float)d.d; auto* p = (uint8_t*)&v; o.insert(o.end(), p, p + 4); }
            else { auto* p = (const uint8_t*)&d.d; o.insert(o.end(), p, p + 8); }
            break;
        case Doc::Str : case Doc::Bin : varint(o, d.s.size()); o.insert(o.end(), d.s.begin(), d.s.end()); break;
        case Doc::Obj : case Doc::Arr :
            for(auto& k : d.kids) psrl_put(o, k.second, k.first, d.k == Doc::Obj, idx);
            o.push_back(0);
            break;
        default : break;
    }
}

struct PS {
    const Buf& b; size_t p = 0; vector<string> names;
    [[noreturn]] void fail(const string& w) { throw RefError { w + " at " + to_string(p) }; }
    uint8_t byte() { if(p >= b.size()) fail("unexpected end"); return b[p++]; }
    uint64_t var() { uint64_t v = 0; for(int sh = 0;; sh += 7) { uint8_t c = byte(); if(sh > 63 || (sh == 63 && c > 1)) fail("varint"); v |= (uint64_t)(c & 127) << sh; if(!(c & 128)) return v; } }
    string raw(uint64_t n) { if(b.size() - p < n) fail("unexpected end"); string s((const char*)b.data() + p, n); p += n; return s; }
    bool item(bool named, string& nm, Doc& d)
    {
        uint8_t f = byte();
        nm.clear();
        if(f & 2) {
            if(!named) fail("name where none belongs");
            if(f & 4) { auto i = var(); if(i >= names.size()) fail("name index"); nm = names[i]; }
            else { auto n = var(); if(n == 0) fail("empty name written"); nm = raw(n); for(auto& x : names) if(x == nm) fail("name written twice"); names.push_back(nm); }
        } else if(f & 4) fail("index flag without name");
        uint8_t t = f & ~6;
        if(t == 0) { if(f) fail("flags on scope end"); return false; }
        switch(t) {
            case 8 : d = Doc::null(); return true;
            case 1 | 64 : d = Doc::boolean(true); return true;
            case 1 | 128 : d = Doc::boolean(false); return true;
            case 1 : d = Doc::uinteger(var()); return true;
            case 1 | 8 : d = Doc::uinteger(var()); d.neg = true; if(d.mag == 0 || d.mag > (uint64_t)1 << 63) fail("signed magnitude"); return true;
            case 1 | 16 : { string s = raw(4); float v; memcpy(&v, s.data(), 4); d = Doc::fp(v, Srl::Type::FP32); return true; }
            case 1 | 32 : { string s = raw(8); double v; memcpy(&v, s.data(), 8); d = Doc::fp(v); return true; }
            case 32 : { auto n = var(); d = Doc::str(raw(n)); return true; }
            case 16 : { auto n = var(); d = Doc::bin(raw(n)); return true; }
            case 64 : case 128 :
                d = t == 64 ? Doc::obj() : Doc::arr();
                for(;;) { string n; Doc k; if(!item(t == 64, n, k)) return true; d.kids.emplace_back(n, move(k)); }
            default : fail("flags");
        }
    }
};
}

Buf psrl_write(const Doc& d) { Buf o; map<string, size_t> idx; psrl_put(o, d, "", false, idx); return o; }

Doc psrl_parse(const Buf& b)
{
    PS p { b };
    string n; Doc d;
    if(!p.item(false, n, d) || !d.scope()) p.fail("no scope");
    if(p.p != b.size()) p.fail("trailing data");
    return d;
}

// ---------------------------------------------------------------------------------------------------- bridge


template<class T> static void put_num(Srl::Node& n, const Srl::String& nm, T v, bool as_value)
{
    if(as_value) n.insert(nm, Srl::Value(v)); else n.insert(nm, v);
}

void insert_kid(Srl::Node& node, const string& nm_, const Doc& d, Rng& r)
{
    using Srl::Type;
    Name holder(nm_, r);
    auto nm = holder.str();
    bool as_value = r.chance(40);
    uint64_t v = d.neg ? 0 - d.mag : d.mag;
    switch(d.k) {
        case Doc::Null : if(as_value) node.insert(nm, Srl::Value(Type::Null)); else node.insert(nm, nullptr); return;
        case Doc::Bool : put_num(node, nm, d.mag != 0, as_value); return;
        case Doc::Int  :
            switch(d.it) {
                case Type::I8   : put_num(node, nm, (int8_t)v, as_value); return;
                case Type::UI8  : put_num(node, nm, (uint8_t)v, as_value); return;
                case Type::I16  : put_num(node, nm, (int16_t)v, as_value); return;
                case Type::UI16 : put_num(node, nm, (uint16_t)v, as_value); return;
                case Type::I32  : put_num(node, nm, (int32_t)v, as_value); return;
                case Type::UI32 : put_num(node, nm, (uint32_t)v, as_value); return;
                case Type::I64  : put_num(node, nm, (int64_t)v, as_value); return;
                default         : put_num(node, nm, (uint64_t)v, as_value); return;
            }
        case Doc::Fp :
            if(d.it == Type::FP32) put_num(node, nm, (float)d.d, as_value); else put_num(node, nm, d.d, as_value);
            return;
        case Doc::Str : {
            vector<uint32_t> c;
            int enc = d.enc;
            if(enc != 8 && !utf8_decode(d.s, c)) enc = 8;
            if(enc == 16) {
                auto s = utf16_encode(c);
                if(as_value) node.insert(nm, Srl::Value(Srl::Lib::MemBlock((const uint8_t*)s.data(), s.size() * 2), Srl::Encoding::UTF16)); else node.insert(nm, s);
            } else if(enc == 32) {
                auto s = utf32_encode(c);
                if(as_value) node.insert(nm, Srl::Value(Srl::Lib::MemBlock((const uint8_t*)s.data(), s.size() * 4), Srl::Encoding::UTF32)); else node.insert(nm, s);
            } else if(as_value) {
                string tmp = d.s;
                node.insert(nm, Srl::Value(Srl::Lib::MemBlock((const uint8_t*)tmp.data(), tmp.size()), Srl::Encoding::UTF8));
            } else { string tmp = d.s; node.insert(nm, tmp); }
            return;
        }
        case Doc::Bin : {
            string tmp = d.s;
            if(as_value) node.insert(nm, Srl::Value(Srl::Lib::MemBlock((const uint8_t*)tmp.data(), tmp.size()), Type::Binary));
            else node.insert(nm, Srl::BitWrap((const uint8_t*)tmp.data(), tmp.size()));
            return;
        }
        default :
            node.insert(nm, Srl::ScopeWrap([&d, &r](Srl::Node& n) { build(n, d, r); }, d.k == Doc::Obj ? Type::Object : Type::Array));
    }
}

void build(Srl::Node& node, const Doc& d, Rng& r)
{
    for(auto& k : d.kids) insert_kid(node, d.k == Doc::Obj ? k.first : "", k.second, r);
}

void build_root(Srl::Tree& tree, const Doc& d, Rng& r)
{
    tree = Srl::Tree(d.k == Doc::Arr ? Srl::Type::Array : Srl::Type::Object);
    build(tree.root(), d, r);
}

Doc walk(const Srl::Value& v)
{
    using Srl::Type;
    switch(v.type()) {
        case Type::Null : return Doc::null();
        case Type::Bool : return Doc::boolean(v.unwrap<bool>());
        case Type::I8   : return Doc::integer(v.unwrap<int8_t>(), Type::I8);
        case Type::UI8  : return Doc::uinteger(v.unwrap<uint8_t>(), Type::UI8);
        case Type::I16  : return Doc::integer(v.unwrap<int16_t>(), Type::I16);
        case Type::UI16 : return Doc::uinteger(v.unwrap<uint16_t>(), Type::UI16);
        case Type::I32  : return Doc::integer(v.unwrap<int32_t>(), Type::I32);
        case Type::UI32 : return Doc::uinteger(v.unwrap<uint32_t>(), Type::UI32);
        case Type::I64  : return Doc::integer(v.unwrap<int64_t>(), Type::I64);
        case Type::UI64 : return Doc::uinteger(v.unwrap<uint64_t>(), Type::UI64);
        case Type::FP32 : return Doc::fp(v.unwrap<float>(), Type::FP32);
        case Type::FP64 : return Doc::fp(v.unwrap<double>(), Type::FP64);
        case Type::String : return Doc::str(v.unwrap<string>());
        case Type::Binary : return Doc::bin(string((const char*)v.data(), v.size()));
        default : violation("walk:value-type", "a tree holds a value of type " + Srl::TpTools::get_name(v.type())); return Doc();
    }
}

Doc walk(Srl::Node& node)
{
    Doc d = node.type() == Srl::Type::Array ? Doc::arr() : Doc::obj();
    VCHECK(node.type() == Srl::Type::Array || node.type() == Srl::Type::Object, "walk:node-type", "a node has type " + Srl::TpTools::get_name(node.type()));
    size_t nv = 0, nn = 0;
    node.foreach_value([&](Srl::Value& v) { nv++; d.kids.emplace_back(v.name().unwrap<char>(false), walk(v)); });
    node.foreach_node([&](Srl::Node& n) { nn++; d.kids.emplace_back(n.name().unwrap<char>(false), walk(n)); });
    VCHECK(nv == node.num_values() && nn == node.num_nodes(), "walk:counts", "num_values/num_nodes disagree with what foreach visits");
    return d;
}

Buf encode(Srl::Tree& t, Fmt f) { return with_parser(f, [&](auto& p) { return t.to_source(p); }); }
void  decode(Srl::Tree& t, const Buf& b, Fmt f)
{
    Exact e(b);
    with_parser(f, [&](auto& p) { t.load_source(e.p, e.n, p); return 0; });
}

} // namespace vf
