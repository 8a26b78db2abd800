// Choice-sequence property-based testing engine (generation, isolation, shrinking, replay, evidence).
//
// A case is a pure function of a sequence of bounded draws. Each case (or batch of cases) runs in a forked child;
// draws live in shared memory, so a crash or hang keeps its case. Failures are shrunk on the draw sequence and
// replayed three times before they are reported.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace pbt
{
constexpr uint32_t MAX_CHOICES = 1u << 16;
constexpr uint32_t MAX_SPANS = 1u << 14;
constexpr uint32_t MAX_LABELS = 96;

enum status : int
{
    st_running = 0,
    st_ok = 1,
    st_fail = 2,
    st_discard = 3
};

struct label_t
{
    char name[56];
    uint64_t n;
};

struct case_rec // shared between worker and child
{
    volatile int status;
    volatile int nontrivial;
    volatile uint32_t n;         // number of draws made
    volatile uint32_t nspans;
    volatile uint64_t case_no;   // case being run
    volatile uint64_t case_done; // cases completed in this child
    char key[128];
    char msg[6000];
    char sample[3000];
    uint32_t nlabels;
    label_t labels[MAX_LABELS];
    uint64_t digest;
    uint32_t choices[MAX_CHOICES];
    uint32_t span_b[MAX_SPANS], span_e[MAX_SPANS];
};

struct rng
{
    uint64_t s;
    explicit rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)(next() % n); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

// thrown (or process ended) by fail(); in-process harness code may rely on it never returning
class Case
{
public:
    Case(case_rec* r, uint64_t seed, const std::vector<uint32_t>* given) : r_(r), g_(seed), given_(given) {}

    // uniform in [0, n)
    uint32_t draw(uint32_t n);
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); } // inclusive
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }  // 0 (shrink target) = false
    uint32_t pick(std::initializer_list<uint32_t> weights);                     // index by weight, 0 is simplest
    template <typename T>
    T one_of(std::initializer_list<T> v)
    {
        return *(v.begin() + draw((uint32_t)v.size()));
    }
    uint32_t seed32() { return draw(0xffffffffu); }
    uint64_t u64();
    void span_begin();
    void span_end();

    void label(const char* name, uint64_t n = 1);
    void nontrivial() { r_->nontrivial = 1; }
    void sample(const std::string& s);
    void discard();
    [[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    bool replaying() const { return given_ != nullptr; }
    case_rec* rec() { return r_; }

private:
    case_rec* r_;
    rng g_;
    const std::vector<uint32_t>* given_;
    std::vector<uint32_t> open_;
};

struct Prop
{
    const char* id;
    const char* rule;             // how cases are made, what is non-trivial
    std::function<void(Case&)> run;
    uint64_t quick_cases;
    uint64_t thorough_cases;
    uint32_t batch;               // cases per child process
    uint32_t cpu_limit_s;         // CPU seconds per case before it counts as a hang
    uint32_t wall_limit_s;        // wall seconds per case without progress
    uint32_t workers;             // 0 = all cores
    uint32_t tries = 1;           // real threads or time: runs of a case that may be needed to see its failure again
};

void add(const Prop& p);
int main_loop(int argc, char** argv);
bool verbose();
} // namespace pbt
