// P18: text is converted between its encodings exactly or refused, whatever its characters and wherever it is put.
#include "doc.h"
using namespace vf; using namespace Srl;

typedef std::vector<uint32_t> Cps;
static const Encoding encs[] = { Encoding::UTF8, Encoding::UTF16, Encoding::UTF32 };
static const char* ename(Encoding e) { return e == Encoding::UTF8 ? "UTF-8" : e == Encoding::UTF16 ? "UTF-16" : "UTF-32"; }

static std::string raw(const Cps& c, Encoding e)
{
    if(e == Encoding::UTF8) return utf8_encode(c);
    if(e == Encoding::UTF16) { auto s = utf16_encode(c); return std::string((const char*)s.data(), s.size() * 2); }
    auto s = utf32_encode(c); return std::string((const char*)s.data(), s.size() * 4);
}
// strict readers of the three encodings
static bool decode(const std::string& b, Encoding e, Cps& out)
{
    out.clear();
    if(e == Encoding::UTF8) return utf8_decode(b, out);
    const uint8_t* p = (const uint8_t*)b.data();
    if(e == Encoding::UTF32) {
        if(b.size() % 4) return false;
        for(size_t i = 0; i < b.size(); i += 4) { uint32_t c = p[i] | p[i + 1] << 8 | p[i + 2] << 16 | (uint32_t)p[i + 3] << 24; if(c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return false; out.push_back(c); }
        return true;
    }
    if(b.size() % 2) return false;
    for(size_t i = 0; i < b.size(); i += 2) {
        uint32_t c = p[i] | p[i + 1] << 8;
        if(c >= 0xDC00 && c < 0xE000) return false;
        if(c >= 0xD800 && c < 0xDC00) {
            if(i + 4 > b.size()) return false;
            uint32_t d = p[i + 2] | p[i + 3] << 8;
            if(d < 0xDC00 || d >= 0xE000) return false;
            c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00); i += 2;
        }
        out.push_back(c);
    }
    return true;
}
static std::string str(const std::vector<uint8_t>& v) { return std::string((const char*)v.data(), v.size()); }
template<class C> static std::string bytes(const std::basic_string<C>& s) { return std::string((const char*)s.data(), s.size() * sizeof(C)); }

// the text itself, in every encoding, through every way of converting
static void check(Rng& r, const Cps& c)
{
    std::string in[3]; std::deque<Exact> mem;
    for(int i = 0; i < 3; i++) { in[i] = raw(c, encs[i]); mem.emplace_back(in[i]); }
    for(int a = 0; a < 3; a++) {
        String s(mem[a].p, in[a].size(), encs[a]);
        for(int b = 0; b < 3; b++) {
            count("conversions");
            auto what = [&]() { return std::string(ename(encs[a])) + " to " + ename(encs[b]) + " of " + show(in[a]); };
            auto v = Tools::conv_charset(encs[b], s);
            VCHECK(str(v) == in[b], "charset:conversion", what() + " gave " + show(str(v)));
            // into a buffer that is in use, behind what it holds
            size_t at = r.chance(50) ? r.below(9) : r.below(300);
            std::vector<uint8_t> buf(at + (r.chance(50) ? 0 : r.below(in[b].size() + 20)), 0xEE), before;
            for(size_t i = 0; i < at; i++) buf[i] = (uint8_t)r.u64();
            before.assign(buf.begin(), buf.begin() + at);
            size_t n = Tools::conv_charset(encs[b], s, buf, true, at);
            VCHECK(n == in[b].size() && buf.size() >= at + n && (n == 0 || std::memcmp(buf.data() + at, in[b].data(), n) == 0), "charset:conversion", what() + " behind " + std::to_string(at) + " bytes gave " + std::to_string(n) + " bytes");
            VCHECK(std::equal(before.begin(), before.end(), buf.begin()), "charset:conversion", what() + " changed what was in front of it");
            VCHECK(s == String(mem[b].p, in[b].size(), encs[b]), "charset:comparison", what() + ": the same text compares different");
        }
        bool t = r.chance(50);
        VCHECK(bytes(s.unwrap<char>(t)) == in[0], "charset:unwrap", std::string(ename(encs[a])) + " " + show(in[0]));
        VCHECK(bytes(s.unwrap<char16_t>(t)) == in[1], "charset:unwrap", std::string(ename(encs[a])) + " to UTF-16 " + show(in[0]));
        VCHECK(bytes(s.unwrap<char32_t>(t)) == in[2], "charset:unwrap", std::string(ename(encs[a])) + " to UTF-32 " + show(in[0]));
        VCHECK(bytes(s.unwrap<wchar_t>(t)) == in[2], "charset:unwrap", std::string(ename(encs[a])) + " to wide " + show(in[0]));
    }
}

static void codepoints(Rng& r, uint64_t idx)
{
    Cps all;
    for(uint32_t c = (uint32_t)idx * 256; c < (idx + 1) * 256; c++) {
        if(c >= 0xD800 && c < 0xE000) continue;
        if(thorough() || c < 0x300 || r.chance(4)) check(r, { c });
        all.push_back(c); count("code points");
    }
    if(!all.empty()) { check(r, all); r.shuffle(all); check(r, all); }
    distinct(idx + 1);
}

static Cps gen(Rng& r)
{
    Cps c; size_t n = r.chance(5) ? r.range(500, 20000) : r.below(60);
    int mode = (int)r.below(6);
    for(size_t i = 0; i < n; i++) {
        int k = mode < 4 ? mode : (int)r.below(4);
        uint32_t x = k == 0 ? (uint32_t)r.below(0x80) : k == 1 ? (uint32_t)r.range(0x80, 0x7FF) : k == 2 ? (uint32_t)r.range(0x800, 0xFFFF) : (uint32_t)r.range(0x10000, 0x10FFFF);
        if(r.chance(10)) x = r.pick<uint32_t>({ 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF });
        if(x >= 0xD800 && x < 0xE000) x = 0xFFFD;
        c.push_back(x);
    }
    return c;
}

static void texts(Rng& r, uint64_t)
{
    Cps c = gen(r); check(r, c);
    distinct(hash_bytes((const uint8_t*)c.data(), c.size() * 4, 1));
    // other texts are not the same text
    Cps d = c;
    switch(r.below(4)) {
        case 0 : d.push_back((uint32_t)r.range(1, 0x7F)); break;
        case 1 : if(!d.empty()) d.pop_back(); break;
        case 2 : if(!d.empty()) d[r.below(d.size())] = (uint32_t)r.range(1, 0xD7FF); break;
        default : if(!d.empty()) { auto& x = d[r.below(d.size())]; x ^= 1 << r.below(7); } break;
    }
    for(auto& x : d) if(x >= 0xD800 && x < 0xE000) x = 0x20;
    for(int a = 0; a < 3; a++) for(int b = 0; b < 3; b++) {
        auto x = raw(c, encs[a]), y = raw(d, encs[b]); Exact ex(x), ey(y);
        count("comparisons");
        VCHECK((String(ex.p, x.size(), encs[a]) == String(ey.p, y.size(), encs[b])) == (c == d), "charset:comparison",
               std::string(ename(encs[a])) + " " + show(x) + " and " + ename(encs[b]) + " " + show(y));
    }
}

template<class C> static std::basic_string<C> made(const Cps& c);
template<> std::string made<char>(const Cps& c) { return utf8_encode(c); }
template<> std::u16string made<char16_t>(const Cps& c) { return utf16_encode(c); }
template<> std::u32string made<char32_t>(const Cps& c) { return utf32_encode(c); }
template<> std::wstring made<wchar_t>(const Cps& c) { auto s = utf32_encode(c); return std::wstring(s.begin(), s.end()); }

template<class C> static void pasted(Node& n, const String& name, const Cps& c, const char* what)
{
    std::basic_string<C> s, arr; n.paste_field(name, s);
    VCHECK(s == made<C>(c), "charset:field", std::string("restored as ") + what + ": " + show(bytes(s)) + ", expected " + show(bytes(made<C>(c))));
    std::vector<std::basic_string<C>> v;
    C fixed[64]; for(auto& x : fixed) x = 'x';
    bool fits = made<C>(c).size() < 64;
    try { n.paste_field(name, fixed); VCHECK(fits, "charset:array", "text too long was accepted"); VCHECK(std::basic_string<C>(fixed, made<C>(c).size()) == made<C>(c) && !fixed[made<C>(c).size()], "charset:array", what); }
    catch(Exception& e) { VCHECK(!fits, "charset:array", std::string("text that fits was refused: ") + e.what()); }
    count("fields");
}

// names and values of documents: any encoding in, any encoding out, through every format
static void documents(Rng& r, uint64_t idx)
{
    Tree t; Fmt f = all_formats[idx % 4];
    std::vector<std::pair<Cps, Cps>> kv; std::set<Cps> used;
    size_t n = r.range(1, 12);
    for(size_t i = 0; i < n; i++) {
        Cps k = gen(r), v = gen(r);
        if(k.size() > 2000) k.resize(2000);
        if(!used.insert(k).second) continue;
        kv.push_back({ k, v });
        Name nm(utf8_encode(k), r);
        switch(r.below(4)) {
            case 0 : t.root().insert(nm.str(), made<char>(v)); break;
            case 1 : t.root().insert(nm.str(), made<char16_t>(v)); break;
            case 2 : t.root().insert(nm.str(), made<char32_t>(v)); break;
            default : t.root().insert(nm.str(), made<wchar_t>(v)); break;
        }
    }
    Tree u;
    with_parser(f, [&](Parser& p) {
        if(r.chance(50)) { auto b = t.to_source(p); Exact e(b); u.load_source(e.p, e.n, p); }
        else { std::stringstream ss; t.to_source(ss, p); u.load_source(ss, p); }
    });
    r.shuffle(kv);
    for(Tree* x : { &t, &u }) for(auto& e : kv) {
        Name nm(utf8_encode(e.first), r);
        std::string k8 = utf8_encode(e.first);
        Node& root = x->root();
        VCHECK(root.has_value(nm.str()), "charset:name", "no field " + show(k8) + " in encoding " + std::to_string(nm.enc));
        pasted<char>(root, nm.str(), e.second, "char"); pasted<char16_t>(root, nm.str(), e.second, "char16_t");
        pasted<char32_t>(root, nm.str(), e.second, "char32_t"); pasted<wchar_t>(root, nm.str(), e.second, "wchar_t");
        VCHECK(root.value(nm.str()).name() == String(k8), "charset:name", "the name of the field is not " + show(k8));
    }
    distinct(hash_bytes((const uint8_t*)kv[0].second.data(), kv[0].second.size() * 4, 2));
}

// fields asked for in any encoding and any order while the document is being read
struct Dyn {
    struct F { Cps key; std::u32string text; int64_t n = 0; std::unique_ptr<Dyn> sub; int kind = 0; uint64_t enc = 0; bool optional = false, absent = false; };
    std::vector<F> f;
    void srl_resolve(Context& c)
    {
        for(auto& e : f) {
            if(e.absent && c.mode() == Mode::Insert) continue;
            Rng r(e.enc); Name nm(utf8_encode(e.key), r);
            uint64_t flag = e.optional ? CtxFlags::Optional : CtxFlags::None;
            switch(e.kind) {
                case 0 : c(nm.str(), e.text, flag); break;
                case 1 : c(nm.str(), e.n, flag); break;
                default : c(nm.str(), *e.sub, flag); break;
            }
            count("fields asked for");
        }
    }
};
static Dyn dyn(Rng& r, int depth)
{
    Dyn d; std::set<Cps> used;
    for(size_t n = r.range(1, 7); n > 0; n--) {
        Dyn::F e; e.key = gen(r); if(e.key.size() > 300) e.key.resize(r.below(300));
        if(e.key.empty() || !used.insert(e.key).second) continue;
        e.kind = depth > 0 && r.chance(30) ? 2 : (int)r.below(2); e.enc = r.u64(); e.optional = r.chance(25); e.absent = e.optional && r.chance(40);
        auto t = gen(r); if(t.size() > 400) t.resize(400); e.text = utf32_encode(t); e.n = (int64_t)r.bits64();
        if(e.kind == 2) e.sub.reset(new Dyn(dyn(r, depth - 1)));
        d.f.push_back(std::move(e));
    }
    return d;
}
static Dyn like(Rng& r, const Dyn& d)       // the same fields in another order and other encodings, without content
{
    Dyn o;
    for(auto& e : d.f) {
        Dyn::F x; x.key = e.key; x.kind = e.kind; x.optional = e.optional; x.absent = e.absent; x.enc = r.u64(); x.text = U"old"; x.n = -77;
        if(e.sub) x.sub.reset(new Dyn(like(r, *e.sub)));
        o.f.push_back(std::move(x));
    }
    if(r.chance(80)) r.shuffle(o.f);
    return o;
}
static void same_dyn(const Dyn& a, const Dyn& b, const std::string& ctx)
{
    std::map<Cps, const Dyn::F*> m; for(auto& e : a.f) m[e.key] = &e;
    for(auto& e : b.f) {
        auto* x = m.at(e.key); std::string k = ctx + ", field " + show(utf8_encode(e.key), 40);
        if(e.kind == 0) VCHECK(e.text == (x->absent ? U"old" : x->text), "charset:lookup", k);
        else if(e.kind == 1) VCHECK(e.n == (x->absent ? -77 : x->n), "charset:lookup", k);
        else if(!x->absent) same_dyn(*x->sub, *e.sub, k);
    }
}
static void lookups(Rng& r, uint64_t idx)
{
    Dyn d = dyn(r, 2); Fmt f = all_formats[idx % 4];
    with_parser(f, [&](Parser& p) {
        Buf b = Tree().store(d, p);
        for(int route = 0; route < 3; route++) {
            Dyn o = like(r, d);
            std::string ctx = std::string(name(f)) + (route == 0 ? " from memory" : route == 1 ? " from a stream" : " from a tree");
            try {
                Tree t;
                if(route == 0) { Exact e(b); t.restore(o, e.p, e.n, p); }
                else if(route == 1) { ChunkBuf cb(b, 0, r.u64()); std::istream is(&cb); t.restore(o, is, p); }
                else { t.load_source(b, p); t.root().paste(o); }
            } catch(Exception& e) { violation("charset:lookup", ctx + ": a field that is there was not found: " + e.what()); }
            same_dyn(d, o, ctx);
        }
        distinct(hash_bytes(b.data(), b.size(), idx % 4));
    });
}

// a document cannot contain what is no text: neither as a name nor as a value, from a tree or from an object
struct Named {
    struct In { int i = 1; void srl_resolve(Context& c) { c("i", i); } };
    const String* s = nullptr; int how = 0; bool ok = true;
    void srl_resolve(Context& c)
    {
        c("before", ok);
        String nm = *s; std::vector<int> v { 1, 2 }; std::string x = "text"; In in; std::map<std::string, int> m { { "a", 1 } };
        switch(how) {
            case 0 : c(nm, ok); break;
            case 1 : c(nm, x); break;
            case 2 : c(nm, v); break;
            case 3 : c(nm, in); break;
            case 4 : c(nm, m); break;
            case 5 : c.node().insert("value", *s); break;
            case 6 : c.node().insert(nm, nullptr); break;
        }
        c("after", ok);
    }
};
static void unwritable(Rng& r, const String& s, const std::string& b)
{
    static const char* forms[] = { "JSON", "indented JSON", "MessagePack", "binary" };
    Named x; x.s = &s; x.how = (int)r.below(7); int f = (int)r.below(4), way = (int)r.below(4);
    std::unique_ptr<Parser> p(f == 0 ? (Parser*)new PJson(true) : f == 1 ? (Parser*)new PJson(false) : f == 2 ? (Parser*)new PMsgPack() : (Parser*)new PSrl());
    Tree t; bool threw = false; std::vector<uint8_t> out; int one = 1;
    try {
        switch(way) {
            case 0 : t.store(x, *p); break;
            case 1 : t.pack(out, *p, "one", one, "x", x); break;
            case 2 : t.load_object(x); t.to_source(*p); break;
            case 3 : { std::ostringstream os; t.root().insert("x", x); t.to_source(os, *p); break; }
        }
    } catch(Exception&) { threw = true; }
    VCHECK(threw, "charset:written", std::string("invalid text ") + hex(b) + " was written as " + forms[f] + ", kind " + std::to_string(x.how) + ", way " + std::to_string(way));
    count("not written");
    Tree u; std::string text = "text", back; u.root().insert("s", text); auto w = u.to_source(*p); Tree v; v.load_source(w.data(), w.size(), *p);
    VCHECK(v.root().unwrap_field<std::string>("s") == text, "charset:written", "the parser afterwards");
    t.clear(); t.load_source(w.data(), w.size(), *p); VCHECK(t.root().unwrap_field<std::string>("s") == text, "charset:written", "the tree afterwards");
}

// text that is none is refused
static void invalid(Rng& r, uint64_t)
{
    Cps c = gen(r); if(c.size() > 200) c.resize(200);
    for(int k = 0; k < 12; k++) {
        Encoding e = encs[r.below(3)];
        std::string b = raw(c, e);
        switch(r.below(6)) {
            case 0 : if(!b.empty()) b.resize(r.below(b.size())); break;
            case 1 : b.insert(b.begin() + r.below(b.size() + 1), (char)r.u64()); break;
            case 2 : if(!b.empty()) b.erase(b.begin() + r.below(b.size())); break;
            case 3 : if(!b.empty()) b[r.below(b.size())] = (char)r.u64(); break;
            case 4 : {
                std::string bad = e == Encoding::UTF8 ? r.pick<std::string>({ "\xC0\x80", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF4\x90\x80\x80", "\xF8\x88\x80\x80\x80", "\xE0\x80\x80", "\xF0\x80\x80\x80", "\x80", "\xFF", "\xFE", "\xC2", "\xE2\x82", "\xF0\x9F\x98" })
                    : e == Encoding::UTF16 ? r.pick<std::string>({ std::string("\x00\xD8", 2), std::string("\x00\xDC", 2), std::string("\xFF\xDB\x41\x00", 4), std::string("\x41", 1) })
                    : r.pick<std::string>({ std::string("\x00\xD8\x00\x00", 4), std::string("\x00\x00\x11\x00", 4), std::string("\xFF\xFF\xFF\xFF", 4), std::string("\xFF\xFF\xFF\x7F", 4), std::string("\x41", 1), std::string("\x41\x00\x00", 3) });
                size_t unit = e == Encoding::UTF8 ? 1 : e == Encoding::UTF16 ? 2 : 4;
                b.insert(r.chance(50) ? b.size() : r.below(b.size() / unit + 1) * unit, bad); break;
            }
            default : for(size_t i = r.below(20); i; i--) b += (char)r.u64(); break;
        }
        Cps d; bool ok = decode(b, e, d);
        Exact m(b); String s(m.p, b.size(), e);
        for(Encoding to : encs) {
            if(to == e) continue;
            std::string ctx = std::string(ename(e)) + " to " + ename(to) + " of " + hex(b);
            bool threw = false; std::vector<uint8_t> v;
            try { v = Tools::conv_charset(to, s); } catch(Exception&) { threw = true; }
            VCHECK(threw == !ok, "charset:validity", ctx + (ok ? ": valid text was refused" : ": invalid text was accepted"));
            if(ok) VCHECK(str(v) == raw(d, to), "charset:conversion", ctx);
            auto w = Tools::conv_charset(to, s, false);
            VCHECK(str(w) == (ok ? raw(d, to) : std::string()), "charset:validity", ctx + " without exceptions gave " + hex(str(w)));
            count(ok ? "valid" : "refused");
        }
        distinct(hash_bytes((const uint8_t*)b.data(), b.size(), (uint64_t)e));
        // as the value of a field of another character type
        if(!ok) {
            Tree t; t.root().insert("before", 1); t.root().insert("s", s); t.root().insert("after", 2);
            std::u32string x32 = U"old"; std::string x8 = "old"; bool threw = false;
            try { if(e == Encoding::UTF8) t.root().paste_field("s", x32); else t.root().paste_field("s", x8); } catch(Exception&) { threw = true; }
            VCHECK(threw, "charset:validity", "a field of invalid " + std::string(ename(e)) + " " + hex(b) + " was restored");
            VCHECK(x32 == U"old" && x8 == "old", "charset:validity", "a field that failed was changed");
            char a8[1500] = "old"; char16_t a16[1500] = u"old"; char32_t a32[1500] = U"old"; wchar_t aw[1500] = L"old"; std::u16string x16 = u"old"; std::wstring xw = L"old"; int how = (int)r.below(6); threw = false;
            if(e == Encoding::UTF8 && how == 0) how = 1;
            if(e == Encoding::UTF16 && (how == 1 || how == 4)) how = 0;
            if(e == Encoding::UTF32 && (how == 2 || how == 3 || how == 5)) how = 1;
            try { if(how == 0) t.root().paste_field("s", a8); else if(how == 1) t.root().paste_field("s", a16); else if(how == 2) t.root().paste_field("s", a32); else if(how == 3) t.root().paste_field("s", aw); else if(how == 4) t.root().paste_field("s", x16); else t.root().paste_field("s", xw); } catch(Exception&) { threw = true; }
            VCHECK(threw, "charset:validity", "a field of invalid " + std::string(ename(e)) + " " + hex(b) + " was restored, kind " + std::to_string(how));
            VCHECK(!strcmp(a8, "old") && !std::u16string(a16).compare(u"old") && !std::u32string(a32).compare(U"old") && !std::wstring(aw).compare(L"old") && x16 == u"old" && xw == L"old", "charset:validity", "a field that failed was changed");
            count("not restored");
            VCHECK(t.root().unwrap_field<int>("before") == 1 && t.root().unwrap_field<int>("after") == 2, "charset:validity", "other fields");
        }
        if(!ok && e != Encoding::UTF8) unwritable(r, s, b);
    }
    Tree t; std::string junk = raw(c, Encoding::UTF8) + "x"; bool threw = false;
    String u((const uint8_t*)junk.data(), junk.size(), Encoding::Unknown);
    try { Tools::conv_charset(Encoding::UTF16, u); } catch(Exception&) { threw = true; }
    VCHECK(threw, "charset:validity", "text of no known encoding was converted");
    VCHECK(Tools::conv_charset(Encoding::UTF16, u, false).empty(), "charset:validity", "text of no known encoding was converted");
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P18", {
        { "codepoints", 4352, 4352, codepoints }, { "texts", 4000, 80000, texts },
        { "documents", 3000, 60000, documents }, { "lookups", 4000, 80000, lookups }, { "invalid", 4000, 80000, invalid },
    });
}
