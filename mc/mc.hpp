// Stateless model-checking core: exhaustive depth-first enumeration of every
// sequence of choices made through mc::choose(), executed on the real code.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

extern int  tier;       // 0 quick, 1 thorough
extern bool replaying;  // true when a single recorded execution is re-run

// A nondeterministic choice in [0, n). Every alternative is explored.
int choose(int n, const char* what = "");
inline bool flip(const char* what = "") { return choose(2, what) == 1; }
template <class T, size_t N>
const T& pick(const T (&a)[N], const char* what = "") { return a[choose((int) N, what)]; }
template <class T>
const T& pick(const std::vector<T>& a, const char* what = "") { return a[choose((int) a.size(), what)]; }

// Property violated in the current execution (does not return).
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// The harness itself is broken (does not return): never a verdict about the code.
[[noreturn]] void broken(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Trace line, kept for the replay file of a failing execution.
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Count one transition (operation applied to the code under test).
void step(uint64_t n = 1);
// Register an observed abstract state; distinct ones are counted.
void state(uint64_t hash);
uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 1469598103934665603ULL);
inline uint64_t hash_str(const std::string& s, uint64_t seed = 1469598103934665603ULL) {
    return hash_bytes(s.data(), s.size(), seed);
}
// Count a comparison of a model prediction with the implementation's answer.
void validated(uint64_t n = 1);
// This execution exercised the property (reached its interesting branch).
void nontrivial();

std::string hex(const void* p, size_t n);
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
std::string quote(const std::string& s);

#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)

struct Scenario {
    std::string name;
    std::string bound;                 // what is enumerated, in words
    std::function<void()> body;        // one execution
    int split = 3;                     // choices used to partition work between processes
    std::function<void()> init;        // once per process
    bool thorough_only = false;
    bool repeat = false;               // executed again and again: nothing may stay allocated
};

// Known findings (specific failures recorded in /verif/known_findings.json):
// returns true and counts it if key is listed for this property.
bool known(const char* key);

int run(int argc, char** argv, const char* property, std::vector<Scenario> scenarios);

}  // namespace mc
#endif
