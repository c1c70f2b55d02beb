// P07: every JSON text whose root is an object or an array is read as what it says, however it is spelled.
// The texts come from an independent writer, the meaning from an independent strict reader.
#include "doc.h"
using namespace vf; using namespace Srl;

static GenOpt opt(Rng& r)
{
    GenOpt o;
    o.finite = true; o.binary = false;
    o.depth = (int)r.range(0, 7);
    o.budget = r.chance(80) ? (int)r.range(1, 40) : (int)r.range(40, 400);
    o.max_str = r.chance(3) ? 200000 : 9000;
    return o;
}

// a number that names an integer is read as one, with every digit; everything else is the nearest double
static void judge(const std::string& text, const char* key, const std::string& how)
{
    Doc want;
    try { want = canon(json_parse(text)); }
    catch(RefError& e) { fprintf(stderr, "harness: reference reader rejects %s: %s\n", text.c_str(), e.what.c_str()); exit(70); }
    count("texts"); count("bytes", text.size());
    if(want.kids.size()) distinct(hash_str(text));
    Exact e(text);
    Tree t;
    PJson p;
    try { t.load_source(e.p, e.n, p); }
    catch(Srl::Exception& x) { violation(std::string(key) + ":rejected", how + ": a JSON text was rejected: " + x.what() + ": " + show(text, 600)); }
    Doc got = walk(t.root());
    count("elements", count_nodes(got));
    std::string w;
    if(!same(want, got, &w)) violation(key, how + ": " + w + " text " + show(text, 600));
}

static void spellings(Rng& r, uint64_t)
{
    Doc d = gen_doc(r, opt(r));
    std::string s = json_write(r, d, r.chance(10));
    // white space around the whole text
    if(r.chance(40)) for(auto n = r.below(4); n > 0; n--) { s = std::string(1, r.pick({ ' ', '\n', '\t', '\r' })) + s; s += r.pick({ ' ', '\n', '\t', '\r' }); }
    judge(s, "json-in", "spellings");
    sample(show(s, 200));
}

// every code point, raw and as escape in both cases, as value and as name
static void characters(Rng& r, uint64_t idx)
{
    uint32_t base = (uint32_t)idx * 256;
    if(base >= 0xD800 && base < 0xE000) return;
    std::string s = "{";
    char b[32];
    for(uint32_t c = base; c < base + 256; c++) {
        std::string esc, raw = utf8_encode({ c });
        if(c < 0x10000) { snprintf(b, sizeof b, c & 1 ? "\\u%04x" : "\\u%04X", c); esc = b; }
        else { uint32_t x = c - 0x10000; snprintf(b, sizeof b, c & 1 ? "\\u%04x\\u%04X" : "\\u%04X\\u%04x", 0xD800 | x >> 10, 0xDC00 | (x & 0x3FF)); esc = b; }
        if(c < 0x20 || c == '"' || c == '\\') raw = esc;
        if(s.size() > 1) s += ',';
        s += "\"e" + esc + "\":\"" + esc + "\",\"r" + raw + "\" : \"x" + raw + esc + "y\"";
        count("code points");
    }
    judge(s + "}", "json-in:characters", "code points from " + std::to_string(base));
}

// numbers in every spelling the grammar knows
static std::string digits(Rng& r, size_t n) { std::string o; while(n--) o += (char)('0' + r.below(10)); return o; }
static void numbers(Rng& r, uint64_t)
{
    std::string s = "[";
    for(auto n = r.range(1, 30); n > 0; n--) {
        if(s.size() > 1) s += ",";
        std::string v = r.chance(40) ? "-" : "";
        switch(r.below(8)) {
            case 0 : v += std::to_string(r.bits64()); break;
            case 1 : { auto d = digits(r, r.range(1, 22)); while(d.size() > 1 && d[0] == '0') d.erase(0, 1); v += d; break; }
            case 2 : v += "0." + digits(r, r.range(1, 25)); break;
            case 3 : v += std::to_string(r.below(1000)) + "." + digits(r, r.range(1, 18)); break;
            case 4 : v += std::to_string(r.below(100000)) + (r.chance(50) ? "e" : "E") + (r.chance(30) ? "+" : r.chance(50) ? "-" : "") + std::to_string(r.below(300)); break;
            // far more digits than any number needs, what comes after them counts all the same
            case 6 : v += (r.chance(50) ? "0." + std::string(r.below(70), '0') : std::to_string(r.range(1, 9)) + digits(r, r.below(90)) + ".") + digits(r, r.range(1, 120));
                     if(r.chance(60)) { v += r.chance(50) ? "e" : "E"; v += r.chance(30) ? "+" : r.chance(50) ? "-" : ""; v += std::to_string(r.below(200)); } break;
            case 7 : v += std::to_string(r.range(1, 9)) + digits(r, r.range(15, 250)); if(r.chance(50)) v += "e-" + std::to_string(r.below(150)); break;
            case 5 : v += std::to_string(r.below(10)) + "." + digits(r, r.range(1, 20)) + (r.chance(50) ? "e" : "E") + (r.chance(30) ? "+" : r.chance(50) ? "-" : "") + digits(r, r.range(1, 2)); break;
        }
        s += (r.chance(20) ? " " : "") + v + (r.chance(20) ? r.pick<const char*>({ " ", "\n", "\t", "\r\n", "  " }) : "");
        count("numbers");
    }
    judge(s + "]", "json-in:numbers", "numbers");
}

// literals at the end of scopes, empty scopes, nesting, separators with any white space
static void structure(Rng& r, uint64_t)
{
    std::function<std::string(int)> val, ws;
    ws = [&](int) { std::string o; for(auto n = r.chance(50) ? 0 : r.below(4); n > 0; n--) o += r.pick({ ' ', '\n', '\t', '\r' }); return o; };
    val = [&](int depth) -> std::string {
        if(depth > 0 && r.chance(55)) {
            bool obj = r.chance(50);
            std::string o(1, obj ? '{' : '[');
            auto n = r.below(4);
            for(uint64_t i = 0; i < n; i++) {
                if(i) o += ws(0) + ",";
                if(obj) o += ws(0) + r.pick<const char*>({ "\"a\"", "\"\"", "\"{\"", "\"]\"", "\":\"", "\",\"", "\"\\\"\"", "\"\\\\\"", "\"/*\"", "\"//\"", "\"true\"", "\"b\"" }) + ws(0) + ":";
                o += ws(0) + val(depth - 1);
            }
            return o + ws(0) + (obj ? "}" : "]");
        }
        return r.pick<const char*>({ "true", "false", "null", "0", "-1", "1.5", "1e3", "\"\"", "\"x\"", "\"}\"", "\"[\"", "\"\\\\\"", "\"\\\"\"", "\"a,b\"", "\"//\"", "\"/* */\"", "\"null\"", "\"1\"", "{}", "[]", "0.0", "-0", "-0.0" });
    };
    for(int i = 0; i < 8; i++) {
        std::string s = val((int)r.range(1, 7));
        if(s[0] != '{' && s[0] != '[') s = "[" + s + "]";
        judge(ws(0) + s + ws(0), "json-in:structure", "structure");
    }
}

// the same parser and tree for text after text
static void reuse(Rng& r, uint64_t)
{
    Tree t; PJson p;
    for(int i = 0; i < 4; i++) {
        GenOpt o = opt(r); o.big = false;
        Doc d = gen_doc(r, o);
        std::string s = json_write(r, d);
        Exact e(s);
        t.load_source(e.p, e.n, p);
        std::string w;
        if(!same(canon(json_parse(s)), walk(t.root()), &w)) violation("json-in:reuse", "text " + std::to_string(i) + " read with the same parser: " + w);
        count("texts with one parser");
    }
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P07", {
        { "spellings", 24000, 1500000, spellings },
        { "characters", 4352, 4352, characters },
        { "numbers", 12000, 1000000, numbers },
        { "structure", 8000, 500000, structure },
        { "reuse", 2500, 100000, reuse },
    });
}
