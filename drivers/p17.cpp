// P17: the arena hands out memory which is aligned, inside of what it owns, and overlaps nothing that is still in use,
// through every history of requests, returns, clears and moves; everything is given back in the end.
#include "common.h"
#include "Srl/Srl.h"
#include <sanitizer/asan_interface.h>
using namespace vf; using Srl::Lib::Heap;

struct alignas(32) Wide { uint8_t b[96]; };
struct Obj { uint64_t a; std::string s; Obj(uint64_t x, std::string&& y) : a(x), s(std::move(y)) { } };

struct Arena {
    std::unique_ptr<Heap> h { new Heap() };
    struct Block { size_t n; uint8_t fill; };
    std::map<uint8_t*, Block> live;       // by address
    uint64_t bytes = 0; std::string log;

    void take(uint8_t* p, size_t n, size_t align, Rng& r)
    {
        VCHECK((size_t)p % align == 0, "heap:alignment", "memory of alignment " + std::to_string(align) + " at " + std::to_string((size_t)p % align) + " after" + log);
        if(n == 0) return;
        VCHECK(p && !__asan_region_is_poisoned(p, n), "heap:bounds", std::to_string(n) + " bytes reach out of what the arena owns, after" + log);
        auto next = live.lower_bound(p);
        VCHECK(next == live.end() || p + n <= next->first, "heap:overlap", std::to_string(n) + " bytes overlap memory in use, after" + log);
        if(next != live.begin()) { auto prev = std::prev(next); VCHECK(prev->first + prev->second.n <= p, "heap:overlap", std::to_string(n) + " bytes overlap memory in use, after" + log); }
        uint8_t f = (uint8_t)r.range(1, 255);
        memset(p, f, n);
        live[p] = { n, f }; bytes += n;
        count("blocks"); count("bytes", n);
    }
    void check()
    {
        for(auto& l : live) { for(size_t i = 0; i < l.second.n; i++) if(l.first[i] != l.second.fill) violation("heap:content", "memory in use was overwritten at " + std::to_string(i) + " of " + std::to_string(l.second.n) + ", after" + log); }
        count("blocks compared", live.size());
    }
    template<class T> void get(Rng& r, size_t n) { take((uint8_t*)h->get_mem<T>(n), n * sizeof(T), alignof(T), r); }
};

static size_t some_size(Rng& r)
{
    switch(r.below(12)) {
        case 0 : return 0; case 1 : return 1; case 2 : return r.pick<size_t>({ 255, 256, 257, 511, 512, 513, 1023, 1024, 2048 });
        case 3 : return r.chance(20) ? r.pick<size_t>({ 65535, 65536, 131072, 262143, 262144, 262145, 300000, 600000 }) : r.below(5000);
        case 4 : return r.below(5000); default : return r.below(200);
    }
}

static void histories(Rng& r, uint64_t idx)
{
    auto before = mem_now();
    uint64_t key;
    {
        Arena a;
        int bias = (int)r.below(4);
        size_t steps = r.pick<size_t>({ 40, 200, 200, 1000 });
        for(size_t i = 0; i < steps; i++) {
            int op = (int)r.below(bias == 0 ? 12 : bias == 1 ? 20 : 16);
            if(i < 30) a.log += " " + std::to_string(op);
            switch(op) {
                case 0 : case 1 : case 2 : default : a.get<uint8_t>(r, some_size(r)); break;
                case 3 : a.get<uint16_t>(r, some_size(r) / 2); break;
                case 4 : case 5 : a.get<uint64_t>(r, some_size(r) / 8); break;
                case 6 : a.get<Wide>(r, r.below(6)); break;
                case 7 : a.get<long double>(r, r.below(20)); break;
                case 8 : { auto* p = a.h->create<uint64_t>(r.u64()); a.take((uint8_t*)p, 8, alignof(uint64_t), r); break; }
                case 9 : case 10 : case 16 : case 17 : case 18 : {
                    if(a.live.empty()) break;
                    auto it = std::next(a.live.begin(), (long)r.below(a.live.size()));
                    auto* p = it->first; auto n = it->second.n;
                    for(size_t k = 0; k < n; k++) VCHECK(p[k] == it->second.fill, "heap:content", "memory in use was overwritten, after" + a.log);
                    a.live.erase(it);
                    if(n > 3 && r.chance(15)) {     // only a part of it
                        size_t cut = r.range(1, n - 1); uint8_t f = p[0]; a.live[p] = { cut, f }; p += cut; n -= cut;
                    }
                    a.h->put_mem(p, n); count("returned");
                    break;
                }
                case 11 : if(r.chance(10)) { a.check(); a.h->clear(); a.live.clear(); count("cleared"); } break;
                case 12 : {
                    if(!r.chance(15)) break;
                    if(r.chance(50)) a.h.reset(new Heap(std::move(*a.h)));
                    else {
                        std::unique_ptr<Heap> n(new Heap());
                        for(auto k = r.below(5); k > 0; k--) n->get_mem<uint8_t>(r.below(2000));
                        *n = std::move(*a.h);
                        // the one which was moved from starts over
                        auto* p = a.h->get_mem<uint32_t>(100); a.take((uint8_t*)p, 400, 4, r); a.live.erase((uint8_t*)p);
                        a.h = std::move(n);
                    }
                    count("moved");
                    break;
                }
            }
            count("operations");
            if(r.chance(6)) a.check();
        }
        a.check();
        key = hash_str(a.log, a.bytes);
        if(idx < 10) sample(std::to_string(steps) + " operations:" + a.log + ", " + std::to_string(a.live.size()) + " blocks in use");
    }
    auto after = mem_now();
    VCHECK(after.bytes <= before.bytes + 4096, "heap:leak", "an arena left " + std::to_string(after.bytes - before.bytes) + " bytes behind");
    distinct(key);
}

// containers which share one arena
static void containers(Rng& r, uint64_t)
{
    auto before = mem_now();
    uint64_t key;
    {
        Heap h;
        typedef std::pair<const uint32_t, std::string> P;
        std::list<std::string, Srl::Lib::HeapAllocator<std::string>> a { Srl::Lib::HeapAllocator<std::string>(h) }; std::list<std::string> ma;
        std::map<uint32_t, std::string, std::less<uint32_t>, Srl::Lib::HeapAllocator<P>> b { Srl::Lib::HeapAllocator<P>(h) }; std::map<uint32_t, std::string> mb;
        std::vector<uint64_t, Srl::Lib::HeapAllocator<uint64_t>> c { Srl::Lib::HeapAllocator<uint64_t>(h) }; std::vector<uint64_t> mc;
        std::vector<Obj*> objs;
        for(size_t n = r.range(50, 600); n > 0; n--) {
            std::string s(r.below(40), 'x'); s += std::to_string(n);
            switch(r.below(9)) {
                case 0 : a.push_back(s); ma.push_back(s); break;
                case 1 : a.push_front(s); ma.push_front(s); break;
                case 2 : if(!ma.empty()) { auto k = (long)r.below(ma.size()); a.erase(std::next(a.begin(), k)); ma.erase(std::next(ma.begin(), k)); } break;
                case 3 : case 4 : { auto k = (uint32_t)r.below(60); b[k] = s; mb[k] = s; break; }
                case 5 : { auto k = (uint32_t)r.below(60); b.erase(k); mb.erase(k); break; }
                case 6 : { auto k = r.u64(); c.push_back(k); mc.push_back(k); break; }
                case 7 : if(r.chance(10)) { c.resize(c.size() / 2); mc.resize(c.size()); } break;
                case 8 : objs.push_back(h.create<Obj>((uint64_t)n, std::move(s))); break;
            }
            count("operations");
        }
        VCHECK(std::equal(a.begin(), a.end(), ma.begin(), ma.end()), "heap:list", "a list on the arena is not what was put into it");
        VCHECK(std::equal(b.begin(), b.end(), mb.begin(), mb.end()), "heap:map", "a map on the arena is not what was put into it");
        VCHECK(std::equal(c.begin(), c.end(), mc.begin(), mc.end()), "heap:vector", "a vector on the arena is not what was put into it");
        for(auto* o : objs) { VCHECK((size_t)o % alignof(Obj) == 0 && o->s.substr(o->s.find_last_of('x') == std::string::npos ? 0 : o->s.find_last_of('x') + 1) == std::to_string(o->a), "heap:object", "an object on the arena changed"); o->~Obj(); }
        count("elements compared", ma.size() + mb.size() + mc.size() + objs.size());
        key = vf::hash_bytes(mc.data(), mc.size() * 8, ma.size());
    }
    auto after = mem_now();
    VCHECK(after.bytes <= before.bytes + 4096, "heap:leak", "an arena left " + std::to_string(after.bytes - before.bytes) + " bytes behind");
    distinct(key);
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P17", {
        { "histories", 2400, 200000, histories },
        { "containers", 1200, 60000, containers },
    });
}
