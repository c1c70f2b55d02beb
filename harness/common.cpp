#include "common.h"

#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <dirent.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void*, size_t),
                                                         void (*free_hook)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void* p);
#endif
#endif

namespace vf {

namespace {

struct State {
    std::string prop, tier = "quick", stats, scratch_dir;
    uint64_t seed = 1;
    std::string group; uint64_t idx = 0;
    uint64_t evaluations = 0;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, int> samples_of;
    uint64_t violations = 0;
    char* progress = nullptr;
    unsigned cpu_limit = 20;
    std::vector<uint64_t> mined;
} st;

std::atomic<int64_t> blocks { 0 }, bytes { 0 }, peak { 0 };
std::atomic<size_t>  largest { 0 };

#ifdef VF_ASAN
void on_malloc(const volatile void* p, size_t n)
{
    if(!p) return;
    blocks++;
    auto b = (bytes += (int64_t)n);
    auto pk = peak.load();
    while(b > pk && !peak.compare_exchange_weak(pk, b)) { }
    auto l = largest.load();
    while(n > l && !largest.compare_exchange_weak(l, n)) { }
}
void on_free(const volatile void* p)
{
    if(!p) return;
    blocks--;
    bytes -= (int64_t)__sanitizer_get_allocated_size(p);
}
#endif

void on_cpu(int)
{
    const char msg[] = "\nHANG\n";
    if(write(1, msg, sizeof msg - 1)) { }
    _exit(77);
}

void arm(unsigned sec)
{
    itimerval tv {};
    tv.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

std::string json_escape(const std::string& s)
{
    std::string o;
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if(c < 0x20 || c >= 0x7F) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

void progress(const std::string& s)
{
    if(st.progress) { strncpy(st.progress, s.c_str(), 250); }
}

void write_stats()
{
    if(st.stats.empty()) return;
    std::ofstream o(st.stats);
    o << "{\"evaluations\":" << st.evaluations << ",\"counters\":{";
    bool first = true;
    for(auto& c : st.counters) { o << (first ? "" : ",") << '"' << json_escape(c.first) << "\":" << c.second; first = false; }
    o << "},\"samples\":[";
    first = true;
    for(auto& s : st.samples) { o << (first ? "" : ",") << '"' << json_escape(s) << '"'; first = false; }
    o << "],\"violations\":" << st.violations << "}\n";
    std::ofstream d(st.stats + ".distinct", std::ios::binary);
    for(auto h : st.distinct) d.write((const char*)&h, 8);
}

void one_case(const Group& g, uint64_t idx)
{
    st.group = g.name; st.idx = idx;
    progress(g.name + ":" + std::to_string(idx));
    Rng rng(mix(hash_str(st.prop + "/" + g.name, 7)) ^ mix(st.seed * 0x1000003 + 17) ^ mix(idx + 0xABCDEF));
    arm(st.cpu_limit);
    try {
        g.fn(rng, idx);
    } catch(const Violation&) {
        // recorded already
    } catch(...) {
        violation_nothrow("unexpected-exception:" + g.name, "the case ended with " + current_exception_name());
    }
    arm(0);
    st.evaluations++;
    st.counters["cases:" + g.name]++;
}

} // namespace

const std::vector<uint64_t>& mined() { return st.mined; }

std::string current_exception_name()
{
    std::string n = "unknown exception", w;
    if(auto* t = abi::__cxa_current_exception_type()) {
        int status; char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &status);
        n = d ? d : t->name();
        free(d);
    }
    try { throw; } catch(const std::exception& e) { w = e.what(); } catch(...) { }
    return w.empty() ? n : n + "(" + w.substr(0, 200) + ")";
}

bool thorough() { return st.tier == "thorough"; }
uint64_t seed() { return st.seed; }
void count(const std::string& what, uint64_t n) { st.counters[what] += n; }
void distinct(uint64_t h) { if(st.distinct.size() < 2000000) st.distinct.insert(h); }
void sample(const std::string& s)
{
    if(st.samples_of[st.group]++ < 1 && st.samples.size() < 40)
        st.samples.push_back(st.group + ":" + std::to_string(st.idx) + " " + s.substr(0, 300));
}

std::string scratch()
{
    if(st.scratch_dir.empty()) {
        char t[] = "/tmp/vfscratch.XXXXXX";
        if(!mkdtemp(t)) { perror("mkdtemp"); _exit(70); }
        st.scratch_dir = t;
        atexit([] {
            if(DIR* d = opendir(st.scratch_dir.c_str())) {
                while(auto* e = readdir(d)) {
                    std::string n = e->d_name;
                    if(n != "." && n != "..") unlink((st.scratch_dir + "/" + n).c_str());
                }
                closedir(d);
            }
            rmdir(st.scratch_dir.c_str());
        });
    }
    return st.scratch_dir;
}

void violation_nothrow(const std::string& key, const std::string& detail)
{
    st.violations++;
    std::string line = "VIOL\t" + key + "\t" + st.group + ":" + std::to_string(st.idx) + "\t" + json_escape(detail.substr(0, 1500)) + "\n";
    fputs(line.c_str(), stdout);
    fflush(stdout);
    if(st.violations >= 25) { write_stats(); _exit(1); }
}

void violation(const std::string& key, const std::string& detail)
{
    violation_nothrow(key, detail);
    throw Violation { key, detail };
}

std::string hex(const void* p, size_t n, size_t max)
{
    std::string o; char b[4];
    for(size_t i = 0; i < n && i < max; i++) { snprintf(b, sizeof b, "%02x", ((const uint8_t*)p)[i]); o += b; }
    if(n > max) o += "...(" + std::to_string(n) + " bytes)";
    return o;
}

std::string show(const std::string& s, size_t max)
{
    std::string o;
    for(size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if(c < 0x20 || c >= 0x7F) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    if(s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
    return o;
}

Mem mem_now() { return { blocks.load(), bytes.load() }; }
void mem_reset_peak() { peak = bytes.load(); largest = 0; }
int64_t mem_peak() { return peak.load(); }
size_t mem_largest() { return largest.load(); }

size_t Rng::size(size_t max)
{
    static const std::vector<size_t> edge {
        0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 253, 254, 255, 256, 257,
        511, 512, 513, 1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 16383, 16384, 16385,
        65533, 65534, 65535, 65536, 65537, 131072, 262143, 262144, 262145
    };
    auto roll = below(100);
    size_t n;
    if(roll < 55) n = below(12);
    else if(roll < 72) n = below(70);
    else if(roll < 80) n = below(1400);
    else if(roll < 84 && !mined().empty()) n = pick(mined()) + below(3) - 1;
    else n = pick(edge);
    return n <= max ? n : below(max + 1);
}

uint64_t Rng::bits64()
{
    auto roll = below(100);
    if(roll < 15) return below(300);
    if(roll < 25) return 0 - below(300);
    if(roll < 65) {
        uint64_t p = below(64);
        uint64_t v = (uint64_t)1 << p;
        v += below(5) - 2;
        return chance(30) ? 0 - v : v;
    }
    if(roll < 75) {
        uint64_t p = 1; for(auto k = below(20); k > 0; k--) p *= 10;
        p += below(3) - 1;
        return chance(30) ? 0 - p : p;
    }
    if(roll < 80 && !mined().empty()) return pick(mined()) + below(3) - 1;
    return u64() >> below(64);
}

double Rng::dbl(bool finite)
{
    static const std::vector<double> edge {
        0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.1, 1.5, 2.5, 1e-5, 1e5, 1e15, 1e16, 1e17, 1e21, 1e22, 1e-6, 1e-7, 123456789.125,
        127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, -128, -129,
        -32768, -32769, -2147483648.0, -2147483649.0, 9007199254740991.0, 9007199254740992.0, 9007199254740993.0,
        9223372036854775807.0, 9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709551615.0,
        18446744073709549568.0, 3.4028234663852886e38, 3.4028235677973366e38, -3.4028234663852886e38, 1.17549435e-38, 1.401298464324817e-45,
        std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(), std::numeric_limits<double>::min(),
        std::numeric_limits<double>::denorm_min(), 2.2250738585072011e-308, 5e-324, 4.35, 0.3, 2.0/3.0
    };
    for(;;) {
        double d;
        auto roll = below(100);
        if(roll < 25) d = pick(edge);
        else if(roll < 40) d = (double)(int64_t)bits64();
        else if(roll < 55) { d = (double)(int64_t)below(2000000) / 1000.0 - 1000; }
        else if(roll < 70) { float f; uint32_t u = (uint32_t)u64(); memcpy(&f, &u, 4); d = f; }
        else if(roll < 80) { d = (unit() - 0.5) * std::pow(10.0, (double)below(40) - 20); }
        else { uint64_t u = u64(); memcpy(&d, &u, 8); }
        if(!finite && below(20) == 0) d = pick({ INFINITY, -INFINITY, NAN });
        if(!finite || std::isfinite(d)) return d;
    }
}

float Rng::flt(bool finite)
{
    for(;;) {
        float f;
        if(chance(50)) { uint32_t u = (uint32_t)u64(); memcpy(&f, &u, 4); }
        else { double d = dbl(finite); if(std::fabs(d) > 3.4028234663852886e38 && std::isfinite(d)) continue; f = (float)d; }
        if(!finite || std::isfinite(f)) return f;
    }
}

int run(int argc, char** argv, const char* prop, const std::vector<Group>& groups)
{
    st.prop = prop;
    std::string only, start, progress_file, mined_file;
    uint64_t shard = 0, nshards = 1; double scale = 1;
    bool list = false;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { if(i + 1 >= argc) { fprintf(stderr, "missing argument for %s\n", a.c_str()); exit(70); } return std::string(argv[++i]); };
        if(a == "--seed") st.seed = strtoull(next().c_str(), nullptr, 10);
        else if(a == "--tier") st.tier = next();
        else if(a == "--case") only = next();
        else if(a == "--start-after") start = next();
        else if(a == "--stats") st.stats = next();
        else if(a == "--progress") progress_file = next();
        else if(a == "--mined") mined_file = next();
        else if(a == "--scale") scale = atof(next().c_str());
        else if(a == "--cpu") st.cpu_limit = atoi(next().c_str());
        else if(a == "--list") list = true;
        else if(a == "--shard") { auto s = next(); shard = strtoull(s.c_str(), nullptr, 10); nshards = strtoull(s.c_str() + s.find('/') + 1, nullptr, 10); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 70; }
    }
    if(!mined_file.empty()) {
        std::ifstream f(mined_file); uint64_t v;
        while(f >> v) st.mined.push_back(v);
    }
    if(!progress_file.empty()) {
        int fd = open(progress_file.c_str(), O_RDWR | O_CREAT, 0644);
        if(fd < 0 || ftruncate(fd, 256) != 0) return 70;
        st.progress = (char*)mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if(st.progress == MAP_FAILED) return 70;
    }
#ifdef VF_ASAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    signal(SIGPROF, on_cpu);
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);

    bool skipping = !start.empty();
    for(auto& g : groups) {
        uint64_t n = thorough() ? g.thorough : g.quick;
        if(scale != 1 && n > 40) n = std::max<uint64_t>(40, (uint64_t)(n * scale));
        if(list) { printf("%s %llu\n", g.name.c_str(), (unsigned long long)n); continue; }
        if(!only.empty()) {
            auto c = only.rfind(':');
            if(only.substr(0, c) == g.name) one_case(g, strtoull(only.c_str() + c + 1, nullptr, 10));
            continue;
        }
        for(uint64_t i = 0; i < n; i++) {
            if(mix(i ^ 0x51ED) % nshards != shard) continue;
            if(skipping) {
                if(g.name + ":" + std::to_string(i) == start) skipping = false;
                continue;
            }
            one_case(g, i);
        }
    }
    progress("END");
    write_stats();
    return st.violations ? 1 : 0;
}

} // namespace vf
