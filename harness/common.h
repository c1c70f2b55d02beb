// Shared infrastructure of the monitors: deterministic per-case randomness, the case loop, violation
// reporting, coverage counters, allocation accounting and a CPU-time watchdog.
#pragma once

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf {

typedef std::vector<uint8_t> Buf;

inline uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x1234567)
{
    auto* b = (const uint8_t*)p;
    for(size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ull;
    return mix(h ^ n);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 0x1234567) { return hash_bytes(s.data(), s.size(), h); }

// Integer constants mined from the sources under test (workload seeds only, never an oracle).
const std::vector<uint64_t>& mined();

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) { }
    uint64_t u64() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool     chance(unsigned percent) { return below(100) < percent; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template<class T> void shuffle(std::vector<T>& v)
    {
        for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
    }
    double unit() { return (double)(u64() >> 11) / 9007199254740992.0; }

    // sizes: mostly small, sometimes at the limits formats and buffers care about
    size_t size(size_t max);
    // integers: boundary heavy
    uint64_t bits64();
    double   dbl(bool finite);
    float    flt(bool finite);
};

struct Violation { std::string key, detail; };

void violation(const std::string& key, const std::string& detail);      // records, then throws Violation
void violation_nothrow(const std::string& key, const std::string& detail);

#define VCHECK(cond, key, detail) do { if(!(cond)) ::vf::violation(key, detail); } while(0)

struct Group {
    std::string name;
    uint64_t    quick, thorough;          // number of cases
    std::function<void(Rng&, uint64_t)> fn;
};

int run(int argc, char** argv, const char* prop, const std::vector<Group>& groups);

bool     thorough();
uint64_t seed();
void     count(const std::string& what, uint64_t n = 1);                // measured events
void     distinct(uint64_t h);                                          // a distinct non-trivial case
void     sample(const std::string& s);
std::string scratch();                                                  // scratch directory, removed at exit

std::string hex(const void* p, size_t n, size_t max = 160);
inline std::string hex(const Buf& b, size_t max = 160) { return hex(b.data(), b.size(), max); }
inline std::string hex(const std::string& b, size_t max = 160) { return hex(b.data(), b.size(), max); }
std::string show(const std::string& s, size_t max = 200);
inline std::string show(const Buf& b, size_t max = 200) { return show(std::string(b.begin(), b.end()), max); }

// live allocations as the sanitizer's allocator sees them
struct Mem { int64_t blocks, bytes; };
Mem     mem_now();
void    mem_reset_peak();
int64_t mem_peak();      // highest number of live bytes since the last reset
size_t  mem_largest();   // largest single request since the last reset

std::string current_exception_name();

// An input block that sits in a heap allocation of exactly its size, so that the sanitizer sees every over-read.
struct Exact {
    uint8_t* p; size_t n;
    explicit Exact(const Buf& b) : p((uint8_t*)malloc(b.size() ? b.size() : 1)), n(b.size()) { if(n) memcpy(p, b.data(), n); }
    explicit Exact(const std::string& b) : p((uint8_t*)malloc(b.size() ? b.size() : 1)), n(b.size()) { if(n) memcpy(p, b.data(), n); }
    ~Exact() { free(p); }
    Exact(const Exact&) = delete;
};

// istream over a byte vector which hands out chunks of the given sizes
class ChunkBuf : public std::streambuf {
    const Buf& d; size_t off = 0; size_t chunk; Rng rng; bool random;
    std::vector<char> window;
public:
    uint64_t refills = 0;
    ChunkBuf(const Buf& data, size_t chunk_, uint64_t seed_) : d(data), chunk(chunk_), rng(seed_), random(chunk_ == 0) { }
    int_type underflow() override
    {
        if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if(off >= d.size()) return traits_type::eof();
        size_t n = random ? 1 + rng.below(rng.chance(30) ? 2000 : 40) : chunk;
        if(n > d.size() - off) n = d.size() - off;
        window.assign(d.begin() + off, d.begin() + off + n);
        off += n; refills++;
        setg(window.data(), window.data(), window.data() + n);
        return traits_type::to_int_type(*gptr());
    }
};

} // namespace vf
