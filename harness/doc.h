// Abstract documents, independent reference codecs (JSON per RFC 8259, MessagePack, the Srl binary format, UTF-8/16/32,
// base64, hex) and the bridge to Srl trees. Nothing in the codecs uses code of the library under test.
#pragma once
#include "common.h"
#include "Srl/Srl.h"

namespace vf {

struct Doc {
    enum K { Null, Bool, Int, Fp, Str, Bin, Obj, Arr };
    K k = Null;
    Srl::Type it = Srl::Type::I32;   // Int: width used when inserting, Fp: FP32 / FP64
    bool      neg = false;           // Int: sign
    uint64_t  mag = 0;               // Int: magnitude, Bool: 0 / 1
    double    d = 0;
    std::string s;                   // Str: UTF-8, Bin: bytes
    int       enc = 8;               // Str: encoding used when inserting
    std::vector<std::pair<std::string, Doc>> kids;

    bool scope() const { return k == Obj || k == Arr; }
    static Doc null() { return Doc(); }
    static Doc boolean(bool b) { Doc x; x.k = Bool; x.mag = b; return x; }
    static Doc integer(int64_t v, Srl::Type t = Srl::Type::I64) { Doc x; x.k = Int; x.neg = v < 0; x.mag = v < 0 ? 0 - (uint64_t)v : (uint64_t)v; x.it = t; return x; }
    static Doc uinteger(uint64_t v, Srl::Type t = Srl::Type::UI64) { Doc x; x.k = Int; x.mag = v; x.it = t; return x; }
    static Doc fp(double v, Srl::Type t = Srl::Type::FP64) { Doc x; x.k = Fp; x.d = v; x.it = t; return x; }
    static Doc str(const std::string& v, int e = 8) { Doc x; x.k = Str; x.s = v; x.enc = e; return x; }
    static Doc bin(const std::string& v) { Doc x; x.k = Bin; x.s = v; return x; }
    static Doc obj() { Doc x; x.k = Obj; return x; }
    static Doc arr() { Doc x; x.k = Arr; return x; }
    Doc& add(const std::string& n, const Doc& c) { kids.emplace_back(n, c); return *this; }
};

enum class Fmt { Json, JsonSpaced, MsgPack, PSrl };
extern const std::vector<Fmt> all_formats;
const char* name(Fmt f);
inline bool is_json(Fmt f) { return f == Fmt::Json || f == Fmt::JsonSpaced; }

template<class F> auto with_parser(Fmt f, F&& fn)
{
    // by the base class, so that user types are not compiled once per format
    std::unique_ptr<Srl::Parser> p(f == Fmt::Json ? (Srl::Parser*)new Srl::PJson(true) : f == Fmt::JsonSpaced ? (Srl::Parser*)new Srl::PJson(false)
                                 : f == Fmt::MsgPack ? (Srl::Parser*)new Srl::PMsgPack() : (Srl::Parser*)new Srl::PSrl());
    return fn(*p);
}

// ---- comparison ------------------------------------------------------------------------------------------------
bool same(const Doc& a, const Doc& b, std::string* where = nullptr);   // structure, order, names, exact values
Doc  canon(const Doc& d);          // a tree keeps values and nodes apart: values first
Doc  expected(const Doc& d, Fmt f);// what reading d back from that format has to yield (canonical order not applied)
std::string show(const Doc& d, size_t max = 400);
uint64_t hash(const Doc& d);
size_t count_nodes(const Doc& d);
bool has_kind(const Doc& d, Doc::K k);

// ---- generation ------------------------------------------------------------------------------------------------
struct GenOpt {
    bool binary = true, finite = false, dup_names = true, u16 = true, nulls = true;
    size_t max_str = 70000; int depth = 5; int budget = 40;
    bool big = true;
};
std::string gen_text(Rng& r, size_t max, bool ascii = false);       // valid UTF-8
std::string gen_name(Rng& r);
extern const std::vector<std::string> colliding;    // pairs of names of equal hash
Doc gen_scalar(Rng& r, const GenOpt& o);
Doc gen_doc(Rng& r, const GenOpt& o);

// ---- reference codecs ------------------------------------------------------------------------------------------
struct RefError { std::string what; };
Doc   json_parse(const std::string& s);                              // strict, throws RefError
std::string json_write(Rng& r, const Doc& d, bool plain = false);    // random valid spelling
Doc   mp_parse(const Buf& b);
Buf mp_write(Rng& r, const Doc& d, bool canonical = false);
Doc   psrl_parse(const Buf& b);
Buf psrl_write(const Doc& d);
std::string b64(const std::string& s);
bool  b64_decode(const std::string& s, std::string& out);            // strict alphabet/padding/length
// strict transcoding; false if the source is not valid
bool  utf8_decode(const std::string& s, std::vector<uint32_t>& cps);
std::string utf8_encode(const std::vector<uint32_t>& cps);
std::u16string utf16_encode(const std::vector<uint32_t>& cps);
std::u32string utf32_encode(const std::vector<uint32_t>& cps);
inline std::u16string to16(const std::string& s) { std::vector<uint32_t> c; utf8_decode(s, c); return utf16_encode(c); }
inline std::u32string to32(const std::string& s) { std::vector<uint32_t> c; utf8_decode(s, c); return utf32_encode(c); }

// a field name in a random encoding
struct Name {
    std::string s8; std::u16string s16; std::u32string s32; int enc;
    Name(const std::string& n, Rng& r) : s8(n), enc(r.pick({ 8, 8, 8, 16, 32 }))
    {
        std::vector<uint32_t> c;
        if(enc != 8 && !utf8_decode(n, c)) enc = 8;
        if(enc == 16) s16 = utf16_encode(c);
        if(enc == 32) s32 = utf32_encode(c);
    }
    Srl::String str() const { return enc == 16 ? Srl::String(s16) : enc == 32 ? Srl::String(s32) : Srl::String(s8); }
};

// ---- bridge ----------------------------------------------------------------------------------------------------
enum Route { R_Native, R_Value, R_Nodes };
void build(Srl::Node& node, const Doc& d, Rng& r);                   // inserts d's kids into node
void build_root(Srl::Tree& tree, const Doc& d, Rng& r);
Doc  walk(Srl::Node& node);
Doc  walk(const Srl::Value& v);
void insert_kid(Srl::Node& node, const std::string& name, const Doc& kid, Rng& r);

Buf encode(Srl::Tree& t, Fmt f);
void  decode(Srl::Tree& t, const Buf& b, Fmt f);

} // namespace vf
