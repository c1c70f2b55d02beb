// P25: floating point numbers written as text are numbers, short, and read back as the very same numbers; decimal texts of
// any length are read as the nearest floating point number.
#include "zoo.h"
#include "in_locale.h"
using namespace vf; using namespace Srl;

static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double   dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint32_t bits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static float    flt(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
static std::string hexf(double d) { char b[64]; snprintf(b, sizeof b, "%a (%.17g)", d, d); return b; }

// -?(0|[1-9][0-9]*)(.[0-9]+)?(e[+-]?[0-9]+)?  as any reader of JSON takes it; the number of significant digits
static bool grammar(const std::string& s, int& digits, bool& integer)
{
    size_t p = 0; digits = 0; integer = true; std::string m;
    if(p < s.size() && s[p] == '-') p++;
    size_t a = p;
    while(p < s.size() && isdigit((unsigned char)s[p])) m += s[p++];
    if(p == a || (s[a] == '0' && p - a > 1)) return false;
    if(p < s.size() && s[p] == '.') { integer = false; size_t b = ++p; while(p < s.size() && isdigit((unsigned char)s[p])) m += s[p++]; if(p == b) return false; }
    if(p < s.size() && s[p] == 'e') { integer = false; p++; if(p < s.size() && (s[p] == '+' || s[p] == '-')) p++; size_t b = p; while(p < s.size() && isdigit((unsigned char)s[p])) p++; if(p == b) return false; }
    size_t i = m.find_first_not_of('0'), e = m.find_last_not_of('0');
    digits = i == std::string::npos ? 1 : (int)(e - i + 1);
    return p == s.size();
}

static std::string text_of(const Value& v)
{
    // a destination of just the size that is asked for
    std::vector<uint8_t> out; size_t n = Tools::type_to_str(v, out);
    VCHECK(n <= out.size(), "fp:length", "a length beyond the buffer");
    return std::string(out.begin(), out.begin() + (long)n);
}

static void write(double d, const Value& v, const char* how)
{
    std::string s = text_of(v), ctx = std::string(how) + " " + hexf(d) + " is written as '" + s + "'";
    int digits; bool integer;
    VCHECK(s.size() <= 24, "fp:length", ctx);
    VCHECK(grammar(s, digits, integer), "fp:grammar", ctx);
    bool whole = std::floor(d) == d && d >= -9223372036854775808.0 && d < 9223372036854775808.0 && !(d == 0 && std::signbit(d));
    if(whole) {
        char b[64]; snprintf(b, sizeof b, "%.0f", d);
        VCHECK(s == b, "fp:integer", ctx + " instead of " + b);
    } else VCHECK(digits <= 17, "fp:digits", ctx);
    char* end; double back = strtod(s.c_str(), &end);
    VCHECK(*end == 0 && bits(back) == bits(d), "fp:exact", ctx + " which is " + hexf(back));
    // and by the library
    auto c = Tools::str_to_type(s);
    VCHECK(c.first, "fp:read", ctx + " which is not read as a number");
    VCHECK(bits(c.second.unwrap<double>()) == bits(d), "fp:read", ctx + " which is read as " + hexf(c.second.unwrap<double>()));
    count("numbers written");
}
static void one(double d) { if(std::isfinite(d)) { write(d, Value(d), "double"); distinct(bits(d)); } }
static void onef(float f) { if(std::isfinite(f)) { write((double)f, Value(f), "float"); distinct(bits((double)f) ^ 1); } }

// all exponents, with mantissas of all shapes
static void exponents(Rng& r, uint64_t idx)
{
    uint64_t e = idx << 52, m = 0xFFFFFFFFFFFFFull;
    if(idx >= 2047) return;
    for(uint64_t x : { (uint64_t)0, (uint64_t)1, (uint64_t)2, m, m - 1, m / 2, m / 2 + 1, m / 3, m / 3 * 2, (uint64_t)0x8000000000000ull }) { one(dbl(e | x)); one(-dbl(e | x)); }
    for(int b = 0; b < 52; b++) one(dbl(e | 1ull << b));
    for(int b = 0; b < 52; b++) one(-dbl(e | (m >> b)));
    for(int i = 0; i < (thorough() ? 2000 : 40); i++) one(dbl(e | (r.u64() & m) | (r.u64() & 1) << 63));
    count("exponents");
}

// decimal fractions and powers of ten, and what lies next to them
static void decimals(Rng& r, uint64_t)
{
    for(int i = 0; i < 40; i++) {
        std::string s = (r.chance(50) ? "-" : "") + std::to_string(r.below(r.pick<uint64_t>({ 10, 100, 10000, 1000000000ull, 1000000000000000ull, 100000000000000000ull }))) + "e" + std::to_string((int)r.below(660) - 340);
        if(r.chance(30)) s = std::to_string(r.below(1000000)) + "." + std::to_string(r.below(100000000));
        double d = strtod(s.c_str(), nullptr);
        if(!std::isfinite(d)) continue;
        one(d); one(std::nextafter(d, INFINITY)); one(std::nextafter(d, -INFINITY));
        onef((float)d); onef(std::nextafter((float)d, INFINITY));
        count("decimals");
    }
    for(int i = 0; i < 40; i++) { onef(flt((uint32_t)r.u64())); one(dbl(r.u64())); one((double)(int64_t)r.bits64()); one(std::ldexp((double)r.below(1u << 20), (int)r.below(200) - 100)); }
}

// floating point numbers of a single precision, all of them in steps
static void singles(Rng& r, uint64_t idx)
{
    uint32_t n = thorough() ? 4096 : 64, step = (uint32_t)(0x100000000ull / 8192 / n), base = (uint32_t)idx * (uint32_t)(0x100000000ull / 8192);
    for(uint32_t i = 0; i < n; i++) onef(flt(base + i * step + (uint32_t)r.below(step)));
    count("singles");
}

// ---- reading: exact arithmetic on decimal digits -----------------------------------------------------------------
// big decimal numbers: the exact decimal expansion of a double and of the midpoint to the next one
struct Big {
    std::vector<uint32_t> d;                    // base 10^9, little endian
    void mul(uint32_t f) { uint64_t c = 0; for(auto& x : d) { c += (uint64_t)x * f; x = (uint32_t)(c % 1000000000); c /= 1000000000; } if(c) d.push_back((uint32_t)c); }
    std::string str() const { std::string s; char b[16]; for(size_t i = d.size(); i-- > 0; ) { snprintf(b, sizeof b, i + 1 == d.size() ? "%u" : "%09u", d[i]); s += b; } return s.empty() ? "0" : s; }
};
// m * 2^e in decimal, exactly
static std::string exact(uint64_t m, int e)
{
    Big b; b.d = { (uint32_t)(m % 1000000000), (uint32_t)(m / 1000000000 % 1000000000), (uint32_t)(m / 1000000000 / 1000000000) };
    while(b.d.size() > 1 && !b.d.back()) b.d.pop_back();
    for(int i = 0; i < e; i++) b.mul(2);
    int shift = 0;
    for(int i = 0; i > e; i--) { b.mul(5); shift++; }
    std::string s = b.str();
    if(shift) { if((int)s.size() <= shift) s.insert(0, (size_t)shift + 1 - s.size(), '0'); s.insert(s.size() - (size_t)shift, "."); }
    return s;
}

static double through(Rng& r, const std::string& s, int how)
{
    Tree t;
    switch(how) {
        case 0 : { std::string doc = "{\"d\":" + s + "}"; Exact e(doc); t.load_source(e.p, e.n, PJson()); return t.root().unwrap_field<double>("d"); }
        case 1 : { std::string doc = "{\"a\":[1," + s + ",2]}"; Buf b(doc.begin(), doc.end()); ChunkBuf cb(b, r.pick<size_t>({ 0, 1, 7, 1024 }), r.u64()); std::istream is(&cb); t.load_source(is, PJson()); return t.root().node("a").unwrap_field<double>(1); }
        case 2 : { std::string doc = "{\"d\":" + s + "}"; Buf b(doc.begin(), doc.end()); double d = -1; t.unpack(b, PJson(), "d", d); return d; }
        case 3 : t.root().insert("d", s); return t.root().unwrap_field<double>("d");
        case 4 : t.root().insert("d", to16(s)); return t.root().unwrap_field<double>("d");
        default : { auto c = Tools::str_to_type(s); VCHECK(c.first, "fp:read", "'" + vf::show(s) + "' is not read as a number"); return c.second.unwrap<double>(); }
    }
}

static void midpoints(Rng& r, uint64_t)
{
    uint64_t u = r.chance(20) ? r.below(1u << r.range(1, 20)) : r.u64() >> 1;
    if(r.chance(30)) u = (r.range(1000, 1100) << 52) | (u & 0xFFFFFFFFFFFFFull);
    if((u >> 52) >= 2046) u &= ~(1ull << 62);
    double lo = dbl(u), hi = dbl(u + 1);
    int e = (int)(u >> 52); uint64_t m = (u & 0xFFFFFFFFFFFFFull) | (e ? 1ull << 52 : 0); e = e ? e - 1075 : -1074;
    std::string mid = exact(2 * m + 1, e - 1);
    double even = (u & 1) ? hi : lo;
    bool neg = r.chance(50);
    auto check = [&](std::string s, double want) {
        // integers which fit into 64 bits are read as integers, exactly
        if(neg) { s = "-" + s; want = -want; }
        // an exponent instead of many zeros
        for(int how = 0; how < 6; how++) {
            double got = through(r, s, how);
            VCHECK(bits(got) == bits(want), "fp:nearest", "way " + std::to_string(how) + ": '" + vf::show(s, 300) + "' is read as " + hexf(got) + ", the nearest is " + hexf(want));
            count("texts read");
        }
        distinct(hash_str(s));
    };
    std::string up = mid.find('.') == std::string::npos ? mid + ".0000000000000000000000000001" : mid + "0000000000001";
    std::string down = mid;             // one less in the last digit: the last one of a midpoint below one is 5, otherwise it may be any
    for(size_t i = down.size(); i-- > 0; ) { if(down[i] == '.') continue; if(down[i] == '0') { down[i] = '9'; continue; } down[i]--; break; }
    if(down.size() > 1 && down[0] == '0' && down[1] != '.') down.erase(0, 1);
    check(exact(m, e), lo); check(up, hi);
    if(u + 1 < 0x7FF0000000000000ull) { check(mid, even); if(mid.find('.') != std::string::npos) check(down, lo); }
    count("midpoints");
}

// numbers in documents, all formats and routes
struct Many { std::vector<double> d; std::vector<float> f; double a = 0, b = 0; float c = 0; std::map<std::string, double> m; std::vector<long double> l;
    void srl_resolve(Context& x) { x("d", d)("f", f)("a", a)("b", b)("c", c)("m", m)("l", l); } };
static void documents(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4]; bool fin = is_json(f); Many o;
    auto g = [&] { return r.chance(30) ? r.dbl(fin) : r.chance(50) ? (double)r.flt(fin) : [&] { double x; do x = dbl(r.u64()); while(fin && !std::isfinite(x)); return x; }(); };
    for(size_t n = r.size(300); n > 0; n--) o.d.push_back(g());
    for(size_t n = r.size(300); n > 0; n--) o.f.push_back(r.flt(fin));
    for(size_t n = r.size(40); n > 0; n--) o.l.push_back((long double)g());
    for(size_t n = r.size(20); n > 0; n--) o.m["k" + std::to_string(n)] = g();
    o.a = g(); o.b = g(); o.c = r.flt(fin);
    with_parser(f, [&](Parser& p) {
        Tree t; Buf b = t.store(o, p);
        for(int route = 0; route < 4; route++) {
            Many q; Tree u;
            switch(route) {
                case 0 : u.restore(q, b.data(), b.size(), p); break;
                case 1 : { ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); u.restore(q, is, p); break; }
                case 2 : u.load_source(b, p); u.root().paste(q); break;
                default : { Tree v; v.load_object(o); v.root().paste(q); }
            }
            auto eq = [&](double x, double y) { return (std::isnan(x) && std::isnan(y)) || bits(x) == bits(y); };
            std::string ctx = std::string(name(f)) + ", way " + std::to_string(route) + ": ";
            VCHECK(o.d.size() == q.d.size() && o.f.size() == q.f.size() && o.l.size() == q.l.size() && o.m.size() == q.m.size(), "fp:document", ctx + "sizes");
            for(size_t i = 0; i < o.d.size(); i++) VCHECK(eq(o.d[i], q.d[i]), "fp:document", ctx + hexf(o.d[i]) + " became " + hexf(q.d[i]));
            for(size_t i = 0; i < o.f.size(); i++) VCHECK(eq(o.f[i], q.f[i]) && std::signbit(o.f[i]) == std::signbit(q.f[i]), "fp:document", ctx + hexf(o.f[i]) + " became " + hexf(q.f[i]));
            for(size_t i = 0; i < o.l.size(); i++) VCHECK(eq((double)o.l[i], (double)q.l[i]), "fp:document", ctx + hexf((double)o.l[i]) + " became " + hexf((double)q.l[i]));
            for(auto& e : o.m) VCHECK(eq(e.second, q.m[e.first]), "fp:document", ctx + hexf(e.second) + " became " + hexf(q.m[e.first]));
            VCHECK(eq(o.a, q.a) && eq(o.b, q.b) && eq(o.c, q.c), "fp:document", ctx + hexf(o.a) + " became " + hexf(q.a));
            count("in documents", o.d.size() + o.f.size() + o.l.size() + o.m.size() + 3);
        }
    });
}

// the locale of the program is about what its users see, not about documents
static void in_locales(Rng& r, uint64_t idx)
{
    auto& all = locales(); const std::string& loc = all[idx % all.size()]; count("locale " + loc.substr(0, 5));
    auto there = [&](auto&& f) { InLocale l(loc); return f(); };
    for(int i = 0; i < 20; i++) {
        double d; do d = r.chance(50) ? r.dbl(true) : dbl(r.u64()); while(!std::isfinite(d));
        if(r.chance(40)) d = (double)(int64_t)r.below(100000000) / (double)r.pick({ 2, 8, 10, 100, 1000, 1 << 20 });
        std::string s = text_of(Value(d)), t = there([&] { return text_of(Value(d)); });
        VCHECK(s == t, "locale:write", hexf(d) + " is written as '" + vf::show(t) + "' in " + loc);
        if(r.chance(50)) { char b[64]; snprintf(b, sizeof b, r.pick({ "%.17g", "%.20e", "%.25g", "%.3f" }), d); if(std::string(b).find_first_of(".e") != std::string::npos) { s = b; d = strtod(b, nullptr); } }
        if(!std::isfinite(d)) continue;
        int how = (int)r.below(6); double got = there([&] { return through(r, s, how); });
        VCHECK(bits(got) == bits(d) || (d == 0 && got == 0), "locale:read", "way " + std::to_string(how) + ": '" + s + "' is read as " + hexf(got) + " in " + loc);
        // what only people write
        for(auto sep : { ",", "\xD9\xAB" }) { auto x = s; auto at = x.find('.'); if(at == std::string::npos) continue; x.replace(at, 1, sep); bool num = there([&] { return Tools::str_to_type(x).first; }); VCHECK(!num, "locale:read", "'" + vf::show(x) + "' is taken as a number in " + loc); }
        count("numbers in locales");
    }
    Fmt f = r.pick(all_formats); GenOpt g; g.finite = true; g.max_str = 2000; g.budget = 30; if(is_json(f)) g.binary = false;
    Doc d = gen_doc(r, g); Tree t; build_root(t, d, r); d = canon(d);
    Buf b = there([&] { return encode(t, f); }), plain = encode(t, f);
    VCHECK(b == plain, "locale:document", "a document is written in another way in " + loc);
    Tree u; there([&] { decode(u, b, f); return 0; }); std::string w;
    VCHECK(same(canon(expected(d, f)), walk(u.root()), &w), "locale:document", std::string(name(f)) + " in " + loc + ": " + w);
    if(is_json(f)) { auto s = json_write(r, d); Buf c(s.begin(), s.end()); Tree v, v2; there([&] { decode(v, c, f); return 0; }); decode(v2, c, f); VCHECK(same(walk(v2.root()), walk(v.root()), &w), "locale:document", std::string(name(f)) + " in " + loc + ": " + w + " of " + s); }
    count("documents in locales"); distinct(hash_bytes(b.data(), b.size(), idx % all.size()));
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P25", {
        { "exponents", 2047, 2047, exponents }, { "decimals", 2500, 250000, decimals }, { "singles", 8192, 8192, singles },
        { "midpoints", 3000, 200000, midpoints }, { "documents", 2000, 100000, documents },
        { "locales", 1200, 60000, in_locales },
    });
}
