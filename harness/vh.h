// Common machinery of the harnesses: seeded randomness, event counters, violation reports.
//
// A harness is run as  <binary> --scenario S --seed N --tier quick|thorough --out FILE [--budget K]
// It prints one line "@VIOL <json>" per violation and writes FILE (a JSON object of what was
// observed) when it ends normally. Exit status: 0 nothing found, 1 violations reported,
// 3 the harness itself could not work (never a verdict).
#ifndef VH_H
#define VH_H

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <unistd.h>

namespace vh
{

using Clock = std::chrono::steady_clock;

inline std::string json_escape(const std::string& s)
{
    std::string r;
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if(c == '\n') r += "\\n";
        else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    uint8_t u8() { return (uint8_t)next(); }
    uint16_t u16() { return (uint16_t)next(); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // A 16-bit value that lands on boundaries often.
    uint16_t edge16()
    {
        static const uint16_t edges[] = {0, 1, 2, 7, 8, 9, 15, 16, 127, 128, 255, 256, 257, 1967, 1968, 1969, 1999, 2000,
                                         2001, 123, 124, 125, 126, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF};
        return chance(1, 2) ? edges[below(sizeof(edges) / sizeof(edges[0]))] : u16();
    }
};

inline uint64_t fnv(const void* data, size_t n, uint64_t h = 1469598103934665603ull)
{
    auto p = (const uint8_t*)data;
    for(size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull;
    return h;
}
inline uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }

struct Ctx
{
    std::string scenario, out, tier = "quick";
    uint64_t seed = 1;
    long budget = 0; // number of cases; 0 means the scenario's default for the tier
    std::mutex m;
    std::map<std::string, uint64_t> counts;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, int> viol_by_key;
    int violations = 0;
    Clock::time_point t0 = Clock::now();
    bool thorough() const { return tier == "thorough"; }
    long cases(long quick, long thorough_n) const { return budget ? budget : (thorough() ? thorough_n : quick); }
};

inline Ctx& ctx()
{
    static Ctx* c = new Ctx; // never destroyed: pool threads may still report
    return *c;
}

inline void count(const std::string& what, uint64_t n = 1)
{
    std::lock_guard<std::mutex> l(ctx().m);
    ctx().counts[what] += n;
}
// A distinct, non-trivial case was evaluated.
inline void distinct(uint64_t h)
{
    std::lock_guard<std::mutex> l(ctx().m);
    if(ctx().distinct.size() < 2000000) ctx().distinct.insert(h);
}
inline void sample(const std::string& s)
{
    std::lock_guard<std::mutex> l(ctx().m);
    if(ctx().samples.size() < 4) ctx().samples.push_back(s.substr(0, 600));
}

// key: stable identification of what failed (matched against known findings).
// soft: the verdict rests on something not having happened in time; it is confirmed by a re-run.
inline void write_report_locked()
{
    auto& c = ctx();
    FILE* f = fopen(c.out.c_str(), "w");
    if(!f) { fprintf(stderr, "cannot write %s\n", c.out.c_str()); _exit(3); }
    fprintf(f, "{\"scenario\":\"%s\",\"seed\":%llu,\"distinct\":%zu,\"violations\":%d,\"wall_s\":%.3f,\"counts\":{",
            json_escape(c.scenario).c_str(), (unsigned long long)c.seed, c.distinct.size(), c.violations,
            std::chrono::duration<double>(Clock::now() - c.t0).count());
    bool first = true;
    for(auto& kv : c.counts)
    {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(f, "},\"samples\":[");
    for(size_t i = 0; i < c.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", json_escape(c.samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    if((f = fopen((c.out + ".hashes").c_str(), "wb")))
    {
        for(auto h : c.distinct) fwrite(&h, sizeof h, 1, f);
        fclose(f);
    }
}

inline void write_report()
{
    std::lock_guard<std::mutex> l(ctx().m);
    write_report_locked();
}

inline void violation(const std::string& key, const std::string& detail, bool soft = false)
{
    std::lock_guard<std::mutex> l(ctx().m);
    ++ctx().violations;
    if(++ctx().viol_by_key[key] > 3 && !soft) return;
    if(ctx().viol_by_key[key] > 20) return;
    printf("@VIOL {\"key\":\"%s\",\"soft\":%s,\"detail\":\"%s\"}\n", json_escape(key).c_str(), soft ? "true" : "false",
           json_escape(detail.substr(0, 3000)).c_str());
    fflush(stdout);
    // Broken code makes every wait run out: enough has been seen.
    static Clock::time_point first = Clock::now();
    if(Clock::now() - first > std::chrono::seconds(45))
    {
        write_report_locked();
        _exit(1);
    }
}

[[noreturn]] inline void harness_error(const std::string& why)
{
    fprintf(stderr, "HARNESS-ERROR: %s\n", why.c_str());
    fflush(nullptr);
    _exit(3);
}

// A counting latch: waits until at least n arrivals.
class Gate
{
public:
    void arrive()
    {
        std::lock_guard<std::mutex> l(m);
        ++n;
        cv.notify_all();
    }
    bool wait(size_t want, double seconds)
    {
        std::unique_lock<std::mutex> l(m);
        return cv.wait_until(l, std::chrono::system_clock::now() + std::chrono::microseconds((int64_t)(seconds * 1e6)), [&] { return n >= want; });
    }
    size_t get()
    {
        std::lock_guard<std::mutex> l(m);
        return n;
    }

private:
    std::mutex m;
    std::condition_variable cv;
    size_t n = 0;
};

constexpr double WATCHDOG_S = 20; // generous; its firing is confirmed by a second run

template <class F> bool eventually(F f, double seconds = WATCHDOG_S)
{
    auto end = Clock::now() + std::chrono::microseconds((int64_t)(seconds * 1e6));
    while(!f())
    {
        if(Clock::now() > end) return f();
        std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    return true;
}

inline std::string hex(const std::vector<uint8_t>& v, size_t max = 300)
{
    std::string r;
    char b[4];
    for(size_t i = 0; i < v.size() && i < max; ++i) { snprintf(b, sizeof b, "%02x", v[i]); r += b; }
    if(v.size() > max) r += "...(" + std::to_string(v.size()) + ")";
    return r;
}

using ScenarioMap = std::map<std::string, std::function<void()>>;

inline int run_main(int argc, char** argv, const ScenarioMap& scenarios)
{
    auto& c = ctx();
    for(int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if(k == "--scenario") c.scenario = v;
        else if(k == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
        else if(k == "--tier") c.tier = v;
        else if(k == "--out") c.out = v;
        else if(k == "--budget") c.budget = atol(v.c_str());
    }
    auto it = scenarios.find(c.scenario);
    if(it == scenarios.end() || c.out.empty())
    {
        fprintf(stderr, "usage: --scenario S --out FILE; scenarios:");
        for(auto& s : scenarios) fprintf(stderr, " %s", s.first.c_str());
        fprintf(stderr, "\n");
        return 3;
    }
    it->second();
    write_report();
    return c.violations ? 1 : 0;
}

} // namespace vh

#endif
