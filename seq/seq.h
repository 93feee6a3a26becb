// Driver for the sequential explorations: exhaustive enumeration of inputs, operation sequences and configurations
// against reference models, on the real code. Every scenario runs in forked children (its shards); a crash, a sanitizer
// report, an escaped exception, std::terminate or a hang in the code under test is a violation of the scenario.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <vector>

namespace seq
{
constexpr size_t BITS = 1u << 20;
struct Shard // in memory shared with the parent
{
    volatile uint64_t states, transitions, execs, progress;
    volatile int done;        // 1 finished, 3 violation
    char kind[48];
    char msg[4096];
    const char* volatile fmt; // what is being executed: a format and its numbers, or text
    volatile long long num[8];
    char text[512];
    char sample[400], sample2[400];
};
struct Ctx
{
    Shard* sh;
    uint8_t* bits;
    bool thorough;
    int shard, shards;
    uint64_t counter = 0;

    // deals the enumerated items to the shards
    bool mine() { return counter++ % shards == static_cast<uint64_t>(shard); }
    void state(uint64_t n = 1) { sh->states = sh->states + n; }
    void step(uint64_t n = 1) { sh->transitions = sh->transitions + n; }
    void exec() { sh->execs = sh->execs + 1; }
    // what is executed now, shown when it fails
    void at(const char* f, long long a = 0, long long b = 0, long long c = 0, long long d = 0, long long e = 0, long long g = 0, long long h = 0, long long i = 0)
    {
        sh->fmt = f;
        sh->num[0] = a; sh->num[1] = b; sh->num[2] = c; sh->num[3] = d;
        sh->num[4] = e; sh->num[5] = g; sh->num[6] = h; sh->num[7] = i;
        sh->progress = sh->progress + 1;
    }
    void at_text(const std::string& s)
    {
        sh->fmt = nullptr;
        size_t n = s.size() < sizeof sh->text - 1 ? s.size() : sizeof sh->text - 1;
        memcpy(sh->text, s.data(), n);
        sh->text[n] = 0;
        sh->progress = sh->progress + 1;
    }
    void outcome(uint64_t h)
    {
        h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        h %= BITS;
        __atomic_fetch_or(&bits[h >> 3], static_cast<uint8_t>(1u << (h & 7)), __ATOMIC_RELAXED);
    }
    void outcome(const std::string& s) { outcome(std::hash<std::string>()(s)); }
    void sample(const std::string& s)
    {
        char* d = sh->sample[0] ? sh->sample2 : sh->sample;
        snprintf(d, sizeof sh->sample, "%s", s.c_str());
    }
    [[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 2, 3)));
};
struct Scenario
{
    std::string name;
    int shards;
    std::function<void(Ctx&)> fn;
    std::string note;
};
std::vector<Scenario>& registry();
struct Reg
{
    Reg(const std::string& name, int shards, std::function<void(Ctx&)> fn, const std::string& note = "") { registry().push_back({name, shards, std::move(fn), note}); }
};
std::string show(const std::string& s); // quoted and escaped
}

#define CHECK(C, cond, ...)            \
    do                                 \
    {                                  \
        (C).step();                    \
        if (!(cond)) (C).fail(__VA_ARGS__); \
    } while (0)
