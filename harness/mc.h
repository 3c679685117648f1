// Stateless explicit-enumeration explorer.
//
// A harness registers scenarios. A scenario body asks for choices with choose(n); the explorer runs
// the body once for every possible sequence of choices (depth first), sharded over worker processes.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace mc {

/// Raised by fail(): the property does not hold on this execution
struct Violation { std::string msg; };
/// Raised by prune(): abandon this execution, it is outside of the bounds
struct Pruned {};
/// Raised by the explorer to stop at a given depth (do not catch: it is not a std::exception)
struct StopDepth {};

extern bool tracing;

/// Choose a number from 0 to n-1
unsigned choose(unsigned n, const char* label = "");
inline bool flag(const char* label = "") { return choose(2, label) == 1; }
template<typename T> const T& pick(const std::vector<T>& v, const char* label = "") { return v[choose(v.size(), label)]; }

/// Record a line in the trace of this execution (only when it is traced)
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/// Report a violation
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void prune();

/// Record the (canonical form of the) model state that has been reached
void state(const std::string& canonical);
void state(uint64_t hash);
/// Count model transitions
void step(unsigned n = 1);
/// Record an observed outcome
void outcome(const std::string& key);

/// True if key is listed as a known finding for this property; if so, it gets reported as such
bool known(const std::string& key);

/// True in the thorough tier
bool thorough();
/// Seed (not used to choose what is explored)
/// Path to the repository under test
const std::string& repo();
/// Scratch directory, private to this process tree and removed at the end
const std::string& scratch();

struct Options
{
    /// Seconds after which an execution is considered hung
    double timeout = 20;
    /// Check that executions do not leak memory
    bool leaks = true;
    /// Number of repetitions after which memory that keeps growing is a leak and not a cache
    unsigned leak_repeats = 6;
    /// Number of worker processes
    unsigned workers = 8;
};

/// Register a scenario
struct Scenario
{
    std::string name;
    std::function<void()> body;
    Options opts;
};
void add(const std::string& name, std::function<void()> body, Options opts = Options());

/// Implemented by the harness: register all scenarios
extern const char* property;
void setup();

std::string hex(const std::string& buf);
/// Printable form of a string
std::string esc(const std::string& buf);
std::string fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

uint64_t hash(const std::string& s);

#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)

}
