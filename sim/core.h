// Deterministic simulation core: choice sequence, event log, counters, violation reporting.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- choices
// Every nondeterministic decision of a run is a draw. 0 is always the simplest value.
uint32_t draw(uint32_t n);                       // in [0,n), n>=1
uint32_t draw32();                               // full 32-bit value (content seeds)
bool chance(uint32_t num, uint32_t den);         // true with probability num/den; 0 -> false
inline int32_t rangei(int32_t lo, int32_t hi) { return lo + (int32_t)draw((uint32_t)(hi - lo) + 1u); }
uint32_t logsize(uint32_t max);                  // in [0,max], small values favoured
template <class T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }
inline bool flip() { return draw(2) == 1; }

// side PRNG for bulk content: a pure function of its seed, never consumes choices
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
};

// ---------------------------------------------------------------- log
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // hashed event
void evbytes(const char* p, size_t n);                                 // hash only
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
bool verbose();
void nontrivial();                               // the run exercised what the property is about
void count(const char* name, uint64_t n = 1);    // fault / probe counters, shared with the driver
void simTime(uint64_t units);                    // advance the simulated-time statistic

// ---------------------------------------------------------------- violations
// Records the violation and ends the process. sig is the stable part used for known findings.
[[noreturn]] void fail(const char* cls, const std::string& sig, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
// the run turned out to be uninteresting or outside the modelled space (counted)
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// edges executed (progress / hang budget)
void setEdgeBudget(uint64_t n);
uint64_t edges();
extern void (*edgeHook)();                       // fiber preemption

// live allocation accounting
int64_t liveAllocs();

// the client gives up at a drawn call (C19): everything is destroyed from where it stands
struct Abandon {};
extern int64_t abandonAfter;                     // calls left; negative: never
inline void clientCall() { if (abandonAfter >= 0 && abandonAfter-- == 0) throw Abandon(); }
// failing allocations (C24): armed while a call into the library is under way
struct MemPlan {
    bool on = false, armed = false, fired = false;
    uint32_t kinds = 0;                          // which calls can fail (memfault.cpp)
    int64_t left = 0;                            // calls until the first failure
    int64_t burst = 0;                           // failures from there on
};
extern MemPlan mem;
struct Armed { bool o; Armed() : o(mem.armed) { mem.armed = mem.on; } ~Armed() { mem.armed = o; } };
struct Unarmed { bool o; Unarmed() : o(mem.armed) { mem.armed = false; } ~Unarmed() { mem.armed = o; } };
template <class F> auto lib(F f) -> decltype(f()) { Armed a; return f(); }
void runScenario(const char* prop);              // the scenario of another property
struct Prop {
    const char* id;
    void (*run)();
    uint64_t edgeBudget;
    bool leakCheck;
    uint32_t quickRuns, thoroughRuns;
};
void registerProp(const Prop& p);
// runs f in a process of its own; f says whether the run counts as non-trivial
void ownProcess(bool (*f)());
struct Registrar { Registrar(const Prop& p) { registerProp(p); } };
std::string hexs(const std::string& s, size_t max = 32);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

} // namespace sim
#endif
