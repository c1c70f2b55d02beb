// P03: streams and memory are interchangeable, however the stream cuts its data and wherever in it the output begins.
#include "doc.h"
#include <unistd.h>
using namespace vf;
using namespace Srl;

static GenOpt opt(Rng& r)
{
    GenOpt o;
    o.finite = true;
    o.depth = (int)r.range(0, 6);
    o.budget = r.chance(75) ? (int)r.range(1, 40) : (int)r.range(40, 300);
    o.max_str = r.chance(4) ? 300000 : 9000;
    return o;
}

struct Outcome {
    bool ok = false; Doc doc; std::string error; uint64_t refills = 0;
};

static Outcome load(std::function<void(Tree&)> fn)
{
    Outcome o;
    Tree t;
    try { fn(t); o.ok = true; }
    catch(Srl::Exception& e) { o.error = e.what(); }
    if(o.ok) o.doc = walk(t.root());
    return o;
}
static Outcome from_memory(const Buf& b, Fmt f)
{
    Exact e(b);
    return load([&](Tree& t) { with_parser(f, [&](Parser& p) { t.load_source(e.p, e.n, p); return 0; }); });
}
static Outcome from_stream(Rng& r, const Buf& b, Fmt f)
{
    Buf copy = b;
    ChunkBuf cb(copy, r.pick({ 0, 0, 0, 1, 2, 3, 7, 64, 1000, 1023, 1024, 1025, 5000 }), r.u64());
    std::istream is(&cb);
    auto o = load([&](Tree& t) {
        with_parser(f, [&](Parser& p) { t.load_source(is, p); return 0; });
        // nothing may refer to the stream's buffers any more
    });
    o.refills = cb.refills;
    return o;
}

static void agree(const Outcome& m, const Outcome& s, Fmt f, const Buf& b)
{
    count("documents"); count("refills", s.refills); count(std::string("format ") + name(f)); count(m.ok ? "accepted" : "rejected");
    if(s.refills > 1) distinct(hash_bytes(b.data(), b.size(), (uint64_t)f));
    std::string ctx = std::string(name(f)) + ", " + std::to_string(b.size()) + " bytes " + hex(b, 60);
    VCHECK(m.ok == s.ok, std::string("in:outcome:") + name(f), ctx + ": from memory " + (m.ok ? "accepted" : "rejected (" + m.error + ")") + ", from a stream " + (s.ok ? "accepted" : "rejected (" + s.error + ")"));
    std::string w;
    if(m.ok && !same(m.doc, s.doc, &w)) violation(std::string("in:content:") + name(f), ctx + ": a stream gives other content than memory: " + w);
}

static void valid(Rng& r, uint64_t)
{
    Fmt f = r.pick(all_formats);
    Doc d = gen_doc(r, opt(r));
    Buf b;
    if(r.chance(50)) { Tree t; build_root(t, d, r); b = encode(t, f); }
    else if(is_json(f)) { GenOpt o = opt(r); o.binary = false; d = gen_doc(r, o); auto s = json_write(r, d); b.assign(s.begin(), s.end()); }
    else b = f == Fmt::MsgPack ? mp_write(r, d) : psrl_write(d);
    auto m = from_memory(b, f);
    VCHECK(m.ok, "in:valid", std::string(name(f)) + ": a valid document was rejected: " + m.error);
    agree(m, from_stream(r, b, f), f, b);
    sample(std::string(name(f)) + " " + show(d, 160));
}

static void damaged(Rng& r, uint64_t)
{
    Fmt f = r.pick(all_formats);
    GenOpt o = opt(r); o.max_str = 3000; o.big = false;
    Doc d = gen_doc(r, o);
    Tree t; build_root(t, d, r);
    Buf b = encode(t, f);
    for(auto n = r.range(1, 4); n > 0 && !b.empty(); n--) {
        size_t p = r.below(b.size());
        switch(r.below(5)) {
            case 0 : b[p] ^= 1 << r.below(8); break;
            case 1 : b[p] = (uint8_t)r.u64(); break;
            case 2 : b.erase(b.begin() + p, b.begin() + p + std::min<size_t>(b.size() - p, r.range(1, 5))); break;
            case 3 : b.insert(b.begin() + p, (uint8_t)r.pick<int>({ 0, 0x7F, 0x80, 0xFF, 0xDF, 0xC1, '"', '{', '}', '[', ']', ',', ':', '\\', 0xD9, 0x62, 0x42 })); break;
            case 4 : b.resize(p); break;
        }
    }
    agree(from_memory(b, f), from_stream(r, b, f), f, b);
}

// several tokens of every kind right at the point where the reader refills its buffer
static void borders(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    Doc d = Doc::obj();
    size_t total = 0;
    GenOpt o = opt(r); o.max_str = 40;
    while(total < 3300) {
        std::string nm = "n" + std::to_string(r.below(300));
        Doc s = gen_scalar(r, o);
        if(r.chance(15)) { Doc k = r.chance(50) ? Doc::obj() : Doc::arr(); k.add(k.k == Doc::Obj ? "i" : "", s); s = k; }
        total += nm.size() + s.s.size() + 8;
        d.add(nm, s);
    }
    Tree t; build_root(t, d, r);
    Buf b = encode(t, f);
    // shift everything by one each time
    Doc head = Doc::obj();
    head.add("p", Doc::str(std::string(idx / 4 % 1100, 'x')));
    for(auto& k : d.kids) head.kids.push_back(k);
    Tree u; build_root(u, head, r);
    b = encode(u, f);
    auto m = from_memory(b, f);
    VCHECK(m.ok, "in:valid", std::string(name(f)) + ": a valid document was rejected: " + m.error);
    agree(m, from_stream(r, b, f), f, b);
}

// what the reader of JSON accepts beyond the standard: comments, stray commas, other spellings of literals; only agreement counts
static void lenient(Rng& r, uint64_t)
{
    GenOpt o = opt(r); o.binary = false; o.big = false; o.max_str = r.chance(20) ? 3000 : 60;
    std::string s = json_write(r, gen_doc(r, o)), t;
    bool quoted = false, esc = false;
    const auto percent = r.pick({ 2, 10, 40 });
    for(char c : s) {
        if(quoted) { t += c; if(esc) esc = false; else if(c == '\\') esc = true; else if(c == '"') quoted = false; continue; }
        bool structural = c == '{' || c == '}' || c == '[' || c == ']' || c == ',' || c == ':' || c == ' ' || c == '"';
        auto junk = [&] {
            switch(r.below(8)) {
                case 0 : t += "//" + std::string(r.size(1200), r.pick({ 'x', '/', '*', '"', ' ' })) + r.pick<const char*>({ "\n", "\r", "\r\n" }); break;
                case 1 : t += ","; break;
                case 2 : t += r.pick<const char*>({ " ", "\n", "\t", "\r\n", "\v", "\f", "\b" }); break;
                default: {
                    std::string body(r.size(1200), 'x');
                    for(auto& b : body) if(r.chance(20)) b = r.pick({ '*', '/', '{', '}', '"', '\\', ',', '\n' });
                    for(size_t k; (k = body.find("*/")) != std::string::npos; ) body[k + 1] = '-';
                    t += "/* " + body + (r.chance(50) ? "*" : "") + "*/";
                }
            }
            count("comments and the like");
        };
        if(structural && r.chance(percent)) junk();
        t += c;
        if(structural && c != '"' && r.chance(percent)) junk();
        if(c == '"') quoted = true;
    }
    if(r.chance(10)) t.resize(r.below(t.size() + 1));
    Buf b(t.begin(), t.end());
    auto m = from_memory(b, Fmt::Json);
    agree(m, from_stream(r, b, Fmt::Json), Fmt::Json, b);
    // a comment that ends at the end of any piece
    std::string c = "{" + std::string(r.below(3000), ' ') + "/* c " + std::string(r.below(40), r.pick({ ' ', '*', '/' })) + "*/\"a\":1,/*x*/\"b\":[2]}";
    b.assign(c.begin(), c.end());
    agree(from_memory(b, Fmt::Json), from_stream(r, b, Fmt::Json), Fmt::Json, b);
}

typedef std::map<std::string, std::vector<std::string>> Obj;

// restoring an object field by field
static void restore(Rng& r, uint64_t)
{
    Fmt f = r.pick(all_formats);
    Obj o, mem, str;
    for(auto n = r.below(9); n > 0; n--) {
        auto& v = o[gen_text(r, 60)];
        for(auto k = r.below(6); k > 0; k--) v.push_back(gen_text(r, r.chance(10) ? 9000 : 300));
    }
    Tree t;
    Buf b = with_parser(f, [&](Parser& p) { return t.store(o, p); });
    with_parser(f, [&](Parser& p) { t.restore(mem, b, p); return 0; });
    ChunkBuf cb(b, r.pick({ 0, 0, 1, 5, 1024 }), r.u64());
    std::istream is(&cb);
    with_parser(f, [&](Parser& p) { t.restore(str, is, p); return 0; });
    count("restored from streams"); count("refills", cb.refills);
    VCHECK(mem == o && str == o, std::string("in:restore:") + name(f), "restoring from a stream gives another object");

    std::ostringstream os;
    with_parser(f, [&](Parser& p) { t.store(o, static_cast<std::ostream&>(os), p); return 0; });
    auto s = os.str();
    VCHECK(os.good() && Buf(s.begin(), s.end()) == b, std::string("out:store:") + name(f), "storing to a stream writes other bytes than storing to a vector");
    count("stored to streams");

    // pack / unpack
    int a = (int)r.u64(), a2 = 0; std::string q = gen_text(r, 3000), q2; Obj o2;
    std::stringstream ps;
    with_parser(f, [&](Parser& p) { t.pack(ps, p, "a", a, "o", o, "q", q); return 0; });
    Buf pv;
    with_parser(f, [&](Parser& p) { t.pack(pv, p, "a", a, "o", o, "q", q); return 0; });
    s = ps.str();
    VCHECK(Buf(s.begin(), s.end()) == pv, std::string("out:pack:") + name(f), "packing to a stream writes other bytes than packing to a vector");
    ChunkBuf cb2(pv, 0, r.u64());
    std::istream is2(&cb2);
    with_parser(f, [&](Parser& p) { t.unpack(is2, p, "a", a2, "o", o2, "q", q2); return 0; });
    VCHECK(a == a2 && o == o2 && q == q2, std::string("in:unpack:") + name(f), "unpacking from a stream gives other values");
}

// output that cannot be rewound
struct Forward : std::streambuf {
    Buf got;
    int_type overflow(int_type c) override { if(c != traits_type::eof()) got.push_back((uint8_t)c); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { got.insert(got.end(), s, s + n); return n; }
};

static void output(Rng& r, uint64_t idx)
{
    Fmt f = all_formats[idx % 4];
    Doc d = gen_doc(r, opt(r));
    Tree t; build_root(t, d, r);
    Buf want = encode(t, f);
    count("written to streams"); count("bytes out", want.size());
    if(want.size() > 1024) distinct(hash_bytes(want.data(), want.size(), 99));
    auto key = std::string("out:bytes:") + name(f);
    switch(r.below(4)) {
        case 0 : {      // after what the stream holds already, several times
            std::stringstream s;
            std::string pre(r.size(5000), 'p');
            s << pre;
            Buf all(pre.begin(), pre.end());
            for(auto n = r.range(1, 3); n > 0; n--) {
                with_parser(f, [&](Parser& p) { t.to_source(static_cast<std::ostream&>(s), p); return 0; });
                all.insert(all.end(), want.begin(), want.end());
            }
            auto got = s.str();
            VCHECK(s.good() && Buf(got.begin(), got.end()) == all, key, "writing behind " + std::to_string(pre.size()) + " bytes of a stream gives other bytes than writing to a vector: " + show(d));
            count("appended");
            break;
        }
        case 1 : {      // into the middle of what is there
            std::string pre(r.size(5000), 'p'), post(want.size() + r.below(100), 'q');
            std::stringstream s(pre + post);
            s.seekp((std::streamoff)pre.size());
            with_parser(f, [&](Parser& p) { t.to_source(static_cast<std::ostream&>(s), p); return 0; });
            auto got = s.str();
            auto exp = pre + std::string(want.begin(), want.end()) + post.substr(want.size());
            VCHECK(s.good() && got == exp, key + ":overwrite", "writing into the middle of a stream changes bytes outside of the output: " + show(d));
            VCHECK((size_t)s.tellp() == pre.size() + want.size(), key + ":position", "the stream is not positioned behind the output");
            count("overwritten");
            break;
        }
        case 2 : {      // a file
            auto path = scratch() + "/out";
            size_t pre = r.below(3000);
            {
                std::ofstream o(path, std::ios::binary | std::ios::trunc);
                o << std::string(pre, 'p');
                with_parser(f, [&](Parser& p) { t.to_source(static_cast<std::ostream&>(o), p); return 0; });
                VCHECK(o.good(), key + ":file", "the file stream failed");
            }
            std::ifstream i(path, std::ios::binary);
            Buf got((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
            VCHECK(got.size() == pre + want.size() && std::equal(want.begin(), want.end(), got.begin() + pre), key + ":file", "a file has other bytes than a vector");
            i.clear(); i.seekg((std::streamoff)pre);
            Tree u;
            with_parser(f, [&](Parser& p) { u.load_source(i, p); return 0; });
            std::string w;
            if(!same(canon(expected(canon(d), f)), walk(u.root()), &w)) violation("in:file", "reading back from a file: " + w);
            count("files");
            break;
        }
        case 3 : {      // a stream without positions; lengths within one buffer need none
            if(f == Fmt::MsgPack && want.size() > 1000) return;
            Forward fb;
            std::ostream o(&fb);
            with_parser(f, [&](Parser& p) { t.to_source(o, p); return 0; });
            VCHECK(o.good() && fb.got == want, key + ":forward", "a stream without positions gets other bytes than a vector: " + show(d));
            count("forward only");
            break;
        }
    }
    sample(std::string(name(f)) + " " + show(d, 160));
}

// streams that fail
static void failing(Rng& r, uint64_t)
{
    struct Bad : std::streambuf {
        Buf d; size_t cut; bool thrown; std::vector<char> w; size_t off = 0; int mode;
        int_type underflow() override
        {
            if(off >= cut) { if(mode == 1) throw std::runtime_error("device"); return traits_type::eof(); }
            size_t n = std::min<size_t>(cut - off, 100);
            w.assign(d.begin() + off, d.begin() + off + n); off += n;
            setg(w.data(), w.data(), w.data() + n);
            return traits_type::to_int_type(*gptr());
        }
    };
    Fmt f = r.pick(all_formats);
    Doc d = gen_doc(r, opt(r));
    Tree t; build_root(t, d, r);
    Bad b; b.d = encode(t, f); b.cut = r.below(b.d.size()); b.mode = (int)r.below(2);
    std::istream is(&b);
    if(r.chance(30)) is.exceptions(std::ios::badbit);
    Tree u;
    bool threw = false;
    try { with_parser(f, [&](Parser& p) { u.load_source(is, p); return 0; }); }
    catch(Srl::Exception&) { threw = true; }
    catch(std::runtime_error&) { threw = true; }      // what the device or the stream raised
    VCHECK(threw, "in:failed-stream", std::string(name(f)) + ": a stream that ends or fails after " + std::to_string(b.cut) + " of " + std::to_string(b.d.size()) + " bytes was accepted");
    count("failed streams");
    // both can be used again
    Buf again = encode(t, f);
    decode(u, again, f);
    std::string w;
    if(!same(canon(expected(canon(d), f)), walk(u.root()), &w)) violation("in:after-failure", "after a failed stream: " + w);
}

// documents beyond 4 GiB; needs 14 GB of memory
struct Large {
    Buf data; int fields = 5; bool wrong = false; uint64_t total = 0; std::string first() const { return "f0"; }
    void mark(Buf& b, int i) { b.front() = (uint8_t)(i + 1); b.back() = (uint8_t)(i + 2); b[b.size() / 2] = (uint8_t)(i + 3); }
    void srl_resolve(Context& c)
    {
        for(int i = 0; i < fields; i++) {
            auto nm = "f" + std::to_string(i);
            if(c.mode() == Mode::Insert) { mark(data, i); c(nm, VecWrap<uint8_t>(data)); }
            else { Buf got; c(nm, VecWrap<uint8_t>(got)); mark(data, i); if(got.size() != data.size() || memcmp(got.data(), data.data(), got.size())) wrong = true; total += got.size(); }
        }
    }
};
static void large(Rng& r, uint64_t idx)
{
    Fmt f = (r.u64() + idx) % 2 ? Fmt::PSrl : Fmt::MsgPack; Large x; x.data.assign(((size_t)1030 << 20) + r.below(5000), 0xA5);
    Buf b; { Tree t; b = with_parser(f, [&](Parser& p) { return t.store(x, p); }); }
    VCHECK(b.size() > x.data.size() * 5, "out:large", std::string(name(f)) + ": " + std::to_string(b.size()) + " bytes");
    Tree t; with_parser(f, [&](Parser& p) { t.restore(x, b.data(), b.size(), p); return 0; });
    VCHECK(!x.wrong && x.total == 5 * (uint64_t)x.data.size(), "out:large", std::string(name(f)) + ": a document of " + std::to_string(b.size()) + " bytes came back different");
    count("documents beyond 4 GiB");
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P03", {
        { "valid", 16000, 800000, valid },
        { "damaged", 12000, 800000, damaged },
        { "borders", 4400, 88000, borders },
        { "lenient", 8000, 400000, lenient },
        { "restore", 3000, 150000, restore },
        { "output", 10000, 500000, output },
        { "failing", 4000, 150000, failing }, { "large", 0, 1, large },
    });
}
