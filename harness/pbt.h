/* A small property-based testing engine: random, coverage-guided generation of choice sequences, with shrinking and
   exact replay.  Every random decision of a property body goes through draw(); a case is the sequence of drawn values. */
#ifndef PBT_H_
#define PBT_H_
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

enum Kind { STRUCT = 0, VALUE = 1, BYTE = 2 };

/* Draw an integer in [0, max].  STRUCT draws are uniform, VALUE draws are biased to edges and dictionary values. */
uint64_t draw(uint64_t max, Kind kind = STRUCT);

inline uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)draw(n - 1); }
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + (uint32_t)draw(hi - lo); }
inline bool     chance(unsigned pct) { return draw(99) >= 100 - pct; }
/* List generation: "one more element?".  Expected length around pct/(100-pct). */
inline bool     more(unsigned pct, size_t have, size_t max) { return have < max && draw(99) >= 100 - pct; }
/* Value in [lo,hi] biased to the ends, small numbers and constants found in the code under test. */
inline uint32_t value(uint32_t lo, uint32_t hi) { return lo + (uint32_t)draw((uint64_t)hi - lo, VALUE); }
inline uint32_t u32() { return (uint32_t)draw(0xFFFFFFFFu, VALUE); }
inline uint8_t  u8() { return (uint8_t)draw(255, BYTE); }
/* A size, mostly small, sometimes up to max. */
uint32_t    size(uint32_t max);
/* n bytes: drawn one by one when short, else expanded from one drawn seed with a few drawn point edits. */
std::string bytes(size_t n);
/* n 32-bit values, most of them distinct. */
template<class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
/* Index chosen by weights (swarm-style weights are drawn by the caller). */
size_t      weighted(const std::vector<unsigned>& w);
/* Per case random on/off weights for n kinds of operation (at least one on). */
std::vector<unsigned> swarm(const std::vector<unsigned>& base);

void label(const char* text);
void nontrivial();
bool wantNote();
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void discard();
#define REQUIRE(COND, ...) do { if (!(COND)) pbt::fail(__VA_ARGS__); } while (0)

std::string format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hexdump(const void* p, size_t n, size_t maxBytes = 64);
std::string quote(const std::string& s, size_t max = 200);

/* The short string literals in the sources of the code under test. */
const std::vector<std::string>& sourceStrings();

/* Scratch directory of this worker (made and removed by the engine). */
const std::string& scratchDir();

/* Fixed inputs which demonstrate a known finding: returns normally if the code is right, fails otherwise. */
struct Known { const char* key; void (*probe)(); };

struct Property
{
    const char* id;
    void      (*body)();
    uint64_t    quickCases;
    uint64_t    thoroughCases;
    const char* rule;           /* how cases are made and what makes one non-trivial */
    std::vector<Known> known;
    void      (*workerInit)() = nullptr;
};

int run(int argc, char** argv, const std::vector<Property>& props);

} /* namespace pbt */
#endif
