// P04: a number read as another type arrives exactly (fractions cut, floating point rounded) or is refused.
#include "doc.h"
#include <cfenv>
using namespace vf;
using namespace Srl;
typedef __int128 wide;

// what a source value is, independent of how it got there
struct Src {
    enum { Int, Fp, None, NoNumber } k = None;
    wide i = 0; double d = 0; bool single = false;
    std::string text;
};
static std::string show128(wide v) { if(v == 0) return "0"; bool n = v < 0; std::string s; while(v) { int q = (int)(v % 10); s.insert(s.begin(), (char)('0' + (q < 0 ? -q : q))); v /= 10; } return n ? "-" + s : s; }
static std::string show(const Src& s)
{
    if(s.k == Src::Int) return "integer " + show128(s.i);
    if(s.k == Src::Fp) { char b[60]; snprintf(b, sizeof b, "%s %.17g", s.single ? "float" : "double", s.d); return b; }
    return s.k == Src::None ? "null" : "text";
}

enum Verdict { Must, MustNot, May };
// what reading s as a T has to do; if it succeeds, the value has to be want (alt as the alternative where both are right)
template<class T> Verdict judge(const Src& s, T& want)
{
    want = T();
    if(s.k == Src::None) return Must;
    if(s.k == Src::NoNumber) return MustNot;
    if constexpr(std::is_floating_point<T>::value) {
        if(s.k == Src::Int) { want = (T)s.i; return Must; }
        want = (T)s.d;
        if(sizeof(T) == 8 || std::isnan(s.d) || (s.single)) return Must;
        if(std::isinf(s.d)) return May;
        if(std::fabs(s.d) <= std::numeric_limits<float>::max()) return Must;
        return std::isfinite(want) ? May : MustNot;
    } else {
        const wide lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
        if(s.k == Src::Int) { if(s.i < lo || s.i > hi) return MustNot; want = (T)s.i; return Must; }
        if(std::isnan(s.d) || std::isinf(s.d)) return MustNot;
        if(std::fabs(s.d) > 1e30) return MustNot;
        wide t = (wide)s.d;          // cut
        if(t < lo || t > hi) return MustNot;
        want = (T)t;
        if((double)t == s.d) return Must;
        if(std::is_same<T, bool>::value) return May;
        // a fraction next to a limit lies outside of the range of the type, strictly
        return (s.d < 0 && (double)lo > s.d) || (s.d > 0 && (wide)s.d == hi) ? May : Must;
    }
}

template<class T> bool equal(T a, T b)
{
    if constexpr(std::is_floating_point<T>::value) return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)) || (a == 0 && b == 0);
    else return a == b;
}
template<class T> std::string num(T v) { std::ostringstream o; o.precision(20); o << +v; return o.str(); }

template<class T, class F> void convert(const Src& s, const char* type, const char* how, bool bool_fraction_ok, F&& fn)
{
    T want;
    auto v = judge<T>(s, want);
    T got; unsigned char sentinel[sizeof(T)]; memset(sentinel, std::is_same<T, bool>::value ? 1 : 0x5B, sizeof(T)); memcpy(&got, sentinel, sizeof(T));
    bool ok = true;
    std::string err;
    try { fn(got); } catch(Srl::Exception& e) { ok = false; err = e.what(); }
    auto ctx = [&] { return show(s) + (s.text.empty() ? "" : " '" + vf::show(s.text, 60) + "'") + " as " + type + " by " + how; };
    count(ok ? "converted" : "refused");
    if(ok) {
        VCHECK(v != MustNot, std::string("number:wrong:") + type, ctx() + " gave " + num(got) + " instead of an error");
        if(v == May && std::is_same<T, bool>::value && s.k == Src::Fp) return;
        VCHECK(equal(got, want), std::string("number:value:") + type, ctx() + " gave " + num(got) + ", not " + num(want));
    } else {
        VCHECK(v != Must, std::string("number:refused:") + type, ctx() + " was refused: " + err);
        VCHECK(memcmp(&got, sentinel, sizeof(T)) == 0, std::string("number:touched:") + type, ctx() + " was refused but the target changed to " + num(got));
    }
}

#define TARGETS(F) F(bool) F(int8_t) F(uint8_t) F(int16_t) F(uint16_t) F(int32_t) F(uint32_t) F(int64_t) F(uint64_t) F(float) F(double)

// every type from one value
static void all_targets(const Src& s, const Value& v, const char* how)
{
#define F(T) convert<T>(s, #T, how, true, [&](T& t) { v.paste(t); });
    TARGETS(F)
#undef F
}
template<class S> static Src src_of(S v)
{
    Src s;
    if constexpr(std::is_floating_point<S>::value) { s.k = Src::Fp; s.d = v; s.single = sizeof(S) == 4 || (double)(float)v == (double)v; }
    else { s.k = Src::Int; s.i = v; }
    return s;
}
template<class S> static void direct(S v) { all_targets(src_of(v), Value(v), "Value"); }

// all values of the small types
static void exhaustive(Rng&, uint64_t idx)
{
    for(uint32_t i = 0; i < 256; i++) {
        uint16_t v = (uint16_t)(idx * 256 + i);
        direct<int16_t>((int16_t)v);
        direct<uint16_t>(v);
        if(v < 256) { direct<int8_t>((int8_t)v); direct<uint8_t>((uint8_t)v); }
        if(v < 2) direct<bool>(v != 0);
        count("exhaustive 16 bit values");
    }
    distinct(idx);
}

static std::vector<wide> edges()
{
    std::vector<wide> e;
    for(int b : { 0, 1, 7, 8, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 62, 63, 64 })
        for(int d = -2; d <= 2; d++) { e.push_back(((wide)1 << b) + d); e.push_back(-((wide)1 << b) + d); }
    return e;
}

static void boundaries(Rng& r, uint64_t)
{
    static const auto e = edges();
    for(int k = 0; k < 40; k++) {
        wide v = r.chance(60) ? r.pick(e) : (wide)(int64_t)r.bits64();
        if(v >= INT32_MIN && v <= INT32_MAX) direct<int32_t>((int32_t)v);
        if(v >= 0 && v <= UINT32_MAX) direct<uint32_t>((uint32_t)v);
        if(v >= INT64_MIN && v <= INT64_MAX) direct<int64_t>((int64_t)v);
        if(v >= 0 && v <= (wide)UINT64_MAX) direct<uint64_t>((uint64_t)v);
        double d = r.chance(50) ? (double)v : r.dbl(false);
        if(r.chance(30)) d = std::nextafter(d, r.chance(50) ? INFINITY : -INFINITY);
        if(r.chance(30)) d += r.pick({ 0.5, -0.5, 0.25, 0.999 });
        direct<double>(d);
        direct<float>(r.chance(50) ? r.flt(false) : std::fabs(d) < 3e38 ? (float)d : 1.5f);
        distinct(mix((uint64_t)v) ^ hash_bytes(&d, 8));
    }
}

// through documents: every format and way of reading, from the declared type to every other
template<class S> static void travels(Rng& r, S v, Fmt f)
{
    Src s = src_of(v);
    if constexpr(std::is_floating_point<S>::value) {
        if(is_json(f)) {
            if(!std::isfinite(v)) return;
            // numbers without a fraction are written as integers
            double d = v;
            if(std::floor(d) == d && std::fabs(d) < 9.2e18) { s.k = Src::Int; s.i = (wide)d; }
            else if(std::fabs(d) >= 9.2e18) return;
            s.single = (double)(float)d == d;
        }
    }
    Tree t;
    t.root().insert("pre", "x", "n", v, "post", 17);
    Buf b = encode(t, f);
    Exact e(b);
    int how = (int)r.below(6);
    static const char* hows[] = { "unwrap_field", "value().paste", "unpack", "Union", "paste_field by index", "Union from a stream" };
    Tree u;
    if(how != 2 && how != 5) decode(u, b, f);
#define F(T) convert<T>(s, #T, hows[how], true, [&](T& x) { switch(how) { \
        case 0 : x = u.root().unwrap_field<T>("n"); break; \
        case 1 : u.root().value("n").paste(x); break; \
        case 2 : { std::string a; int z; with_parser(f, [&](Parser& p) { u.unpack(Lib::In::Source(e.p, e.n), p, "n", x, "post", z, "pre", a); return 0; }); break; } \
        case 3 : { u.get("n").copy_to(x); break; } \
        case 4 : u.root().paste_field(1, x); break; \
        case 5 : { Union un; with_parser(f, [&](Parser& p) { u.unpack(Lib::In::Source(e.p, e.n), p, "n", un); return 0; }); un.copy_to(x); break; } \
    } });
    TARGETS(F)
#undef F
    count(std::string("travelled ") + name(f));
}

static void documents(Rng& r, uint64_t idx)
{
    static const auto e = edges();
    Fmt f = all_formats[idx % 4];
    wide v = r.chance(60) ? r.pick(e) : (wide)(int64_t)r.bits64();
    distinct(mix((uint64_t)v) + idx % 4);
    switch(r.below(10)) {
        case 0 : travels<int8_t>(r, (int8_t)v, f); break;
        case 1 : travels<uint8_t>(r, (uint8_t)v, f); break;
        case 2 : travels<int16_t>(r, (int16_t)v, f); break;
        case 3 : travels<uint16_t>(r, (uint16_t)v, f); break;
        case 4 : travels<int32_t>(r, (int32_t)v, f); break;
        case 5 : travels<uint32_t>(r, (uint32_t)v, f); break;
        case 6 : travels<int64_t>(r, (int64_t)v, f); break;
        case 7 : travels<uint64_t>(r, (uint64_t)v, f); break;
        case 8 : travels<double>(r, r.chance(40) ? (double)v : r.dbl(false), f); break;
        case 9 : travels<float>(r, r.flt(false), f); break;
    }
    if(idx < 4) sample("number through " + std::string(name(f)) + ": " + show128(v));
}

// numbers in text
static Src parse(const std::string& t)
{
    size_t a = 0, b = t.size();
    auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    while(a < b && sp(t[a])) a++;
    while(b > a && sp(t[b - 1])) b--;
    std::string s = t.substr(a, b - a);
    Src o; o.text = t;
    if(s == "true" || s == "false") { o.k = Src::Int; o.i = s == "true"; return o; }
    if(s == "null") { o.k = Src::None; return o; }
    size_t p = 0;
    if(p < s.size() && s[p] == '-') p++;
    size_t digits = p;
    while(p < s.size() && isdigit((unsigned char)s[p])) p++;
    if(p > digits && p == s.size()) {
        wide v = 0; bool big = false;
        for(size_t k = digits; k < s.size(); k++) { v = v * 10 + (s[k] - '0'); if(v > ((wide)1 << 66)) { big = true; break; } }
        bool neg = s[0] == '-';
        if(!big && (neg ? v > 0 && v <= (wide)1 << 63 : v <= (wide)UINT64_MAX)) { o.k = Src::Int; o.i = neg ? -v : v; return o; }
    }
    std::string z(s);
    char* end;
    double d = strtod(z.c_str(), &end);
    bool number = !s.empty() && *end == 0 && end == z.c_str() + z.size();
    if(!number) { o.k = Src::NoNumber; return o; }
    o.k = Src::Fp; o.d = d; o.single = (double)(float)d == d;
    return o;
}

static std::string number_text(Rng& r)
{
    static const auto e = edges();
    std::string s;
    auto digits = [&](size_t n) { std::string o; while(n--) o += (char)('0' + r.below(10)); return o; };
    switch(r.below(8)) {
        case 0 : case 1 : s = show128(r.pick(e)); break;
        case 2 : s = show128((wide)(int64_t)r.u64() * (int64_t)r.below(1000)); break;
        case 3 : s = (r.chance(50) ? "-" : "") + digits(r.range(1, r.chance(10) ? 400 : 25)); break;
        case 4 : s = (r.chance(50) ? "-" : "") + digits(r.range(1, 20)) + "." + digits(r.range(1, 25)); break;
        case 5 : s = (r.chance(50) ? "-" : "") + digits(r.range(1, 3)) + (r.chance(50) ? "." + digits(r.range(1, 9)) : "") + r.pick({ "e", "E" }) + r.pick({ "", "+", "-" }) + digits(r.range(1, 2)); break;
        case 6 : s = r.pick({ "true", "false", "null", "0", "-0", "-1", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                              "99999999999999999999", "0.0", "-0.0", "1e0", "256.0", "-129.0", "000127", "0000000000000000000000000001", "-000" }); break;
        case 7 : s = r.pick({ "", " ", "-", "--1", "1 2", "abc", "12a", "1.2.3", "1e", "e5", "tru", "truex", "nul", "nullx", "fals", "falsex", "0x", "+-3", "1,5", "true false", "\xC3\xA4" "1", ".", "-.", "9223372036854775807x", "18446744073709551616x" }); break;
    }
    if(r.chance(15)) s = r.pick({ " ", "\t", "\n ", "  " }) + s;
    if(r.chance(15)) s += r.pick({ " ", "\t", "\r\n" });
    return s;
}

static void text(Rng& r, uint64_t idx)
{
    std::string t = number_text(r);
    Src s = parse(t);
    distinct(hash_str(t));
    count(s.k == Src::NoNumber ? "texts that are no numbers" : "texts that are numbers");
    std::string keep8 = t; std::u16string k16 = to16(t); std::u32string k32 = to32(t);
    int enc = r.pick({ 8, 8, 16, 32 });
    Exact ex(enc == 8 ? std::string(t) : enc == 16 ? std::string((const char*)k16.data(), k16.size() * 2) : std::string((const char*)k32.data(), k32.size() * 4));
    Value v(Lib::MemBlock(ex.p, ex.n), enc == 8 ? Encoding::UTF8 : enc == 16 ? Encoding::UTF16 : Encoding::UTF32);
    all_targets(s, v, enc == 8 ? "UTF-8 text" : enc == 16 ? "UTF-16 text" : "UTF-32 text");
    // and as a string in a document
    Fmt f = all_formats[idx % 4];
    Tree a, b;
    a.root().insert("n", t);
    decode(b, encode(a, f), f);
#define F(T) convert<T>(s, #T, name(f), true, [&](T& x) { x = b.root().unwrap_field<T>("n"); });
    TARGETS(F)
#undef F
    // the conversion function itself
    auto c = Tools::str_to_type(keep8);
    VCHECK(c.first == (s.k != Src::NoNumber), "number:str_to_type", "str_to_type('" + vf::show(t) + "') says " + (c.first ? "success" : "failure"));
    if(c.first && s.k == Src::Int && t.find_first_of("tf") == std::string::npos) {
        bool neg = TpTools::is_signed(c.second.type());
        VCHECK(!TpTools::is_fp(c.second.type()) && (neg ? (wide)c.second.unwrap<int64_t>() : (wide)c.second.unwrap<uint64_t>()) == s.i, "number:str_to_type", "str_to_type('" + vf::show(t) + "') is another number");
    }
    if(idx < 8) sample("'" + vf::show(t) + "' is " + show(s));
}

// numbers as text: exact, and back
template<class S> static void to_text(Rng& r, S v)
{
    std::string want = std::is_same<S, bool>::value ? (v ? "true" : "false") : show128((wide)v);
    std::string a = Tools::type_to_str(Value(v));
    VCHECK(a == want, "number:to-text", "type_to_str gives '" + a + "' for " + want);
    Fmt f = r.pick(all_formats);
    Tree t, u;
    t.root().insert("n", v);
    VCHECK(t.root().unwrap_field<std::string>("n") == want, "number:to-text", "as string: " + t.root().unwrap_field<std::string>("n") + " for " + want);
    decode(u, encode(t, f), f);
    VCHECK(u.root().unwrap_field<std::string>("n") == want, "number:to-text", "as string after " + std::string(name(f)) + ": " + u.root().unwrap_field<std::string>("n") + " for " + want);
    VCHECK(u.root().unwrap_field<std::u16string>("n") == to16(want), "number:to-text", "as UTF-16 string for " + want);
    count("numbers as text");
}
static void to_text_group(Rng& r, uint64_t)
{
    uint64_t v = r.bits64();
    to_text<int8_t>(r, (int8_t)v); to_text<uint8_t>(r, (uint8_t)v); to_text<int16_t>(r, (int16_t)v); to_text<uint16_t>(r, (uint16_t)v);
    to_text<int32_t>(r, (int32_t)v); to_text<uint32_t>(r, (uint32_t)v); to_text<int64_t>(r, (int64_t)v); to_text<uint64_t>(r, v); to_text<bool>(r, v & 1);
    distinct(v);
}

// one element that doesn't fit refuses the whole container and leaves it as it was
static void containers(Rng& r, uint64_t)
{
    Fmt f = r.pick(all_formats);
    std::vector<int64_t> src; bool fits = true;
    for(auto n = r.range(1, 30); n > 0; n--) { src.push_back(r.chance(93) ? (int64_t)r.below(256) - 128 : (int64_t)r.bits64()); fits &= src.back() >= -128 && src.back() <= 127; }
    Tree t;
    Buf b = with_parser(f, [&](Parser& p) { return t.store(src, p); });
    std::vector<int8_t> got { 1, 2, 3 };
    bool ok = true;
    try {
        if(r.chance(50)) with_parser(f, [&](Parser& p) { t.restore(got, b, p); return 0; });
        else { Tree u; decode(u, b, f); u.root().paste(got); }
    } catch(Srl::Exception&) { ok = false; }
    VCHECK(ok == fits, "number:container", std::string(ok ? "a container of numbers that don't fit was accepted" : "a container of numbers that fit was refused") + " through " + name(f));
    if(ok) VCHECK(std::equal(src.begin(), src.end(), got.begin(), got.end()), "number:container", "other numbers in the container");
    else VCHECK((got == std::vector<int8_t> { 1, 2, 3 }), "number:container", "a refused container changed its target");
    count(fits ? "containers that fit" : "containers that don't fit");
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P04", {
        { "exhaustive", 256, 256, exhaustive },
        { "boundaries", 2000, 100000, boundaries },
        { "documents", 12000, 800000, documents },
        { "text", 12000, 800000, text },
        { "to_text", 2500, 100000, to_text_group },
        { "containers", 6000, 200000, containers },
    });
}
