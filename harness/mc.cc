#include "mc.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN
#endif
#endif

#ifdef MC_ASAN
#include <sanitizer/allocator_interface.h>
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=99:hard_rss_limit_mb=3000:max_allocation_size_mb=1500:quarantine_size_mb=8:"
           "detect_stack_use_after_return=0:malloc_context_size=6:strict_string_checks=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=99"; }
#endif

namespace mc {

bool tracing = false;

namespace {

constexpr unsigned MAX_CHOICES = 4000;
constexpr unsigned MAX_MSG = 60000;

double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Slot
{
    std::atomic<double> started;   // start of the current execution, 0 if idle
    std::atomic<int> unit;
    std::atomic<unsigned> nchoices;
    uint32_t choices[MAX_CHOICES];
    std::atomic<uint64_t> execs;
    char msg[MAX_MSG];
};

struct Shared
{
    std::atomic<unsigned> next_unit;
    std::atomic<unsigned> stop;
};

Shared* shared = nullptr;
Slot* slots = nullptr;
Slot* slot = nullptr;          // slot of this process, if any

std::vector<Scenario> scenarios;
bool opt_thorough = false;
std::string opt_repo = "/repo";
std::string opt_scratch;
std::set<std::string> known_keys;

// Current execution
std::vector<uint32_t> choices, widths, forced;
bool exact_replay = false;
size_t stop_depth = SIZE_MAX;
std::vector<std::string> trace_lines;
FILE* trace_file = nullptr;
void add_trace(const std::string& s) { if (trace_file) fprintf(trace_file, "%s\n", s.c_str()); else trace_lines.push_back(s); }
// Statistics of this process
uint64_t n_execs = 0, n_steps = 0, n_pruned = 0;
std::unordered_set<uint64_t> states, outcomes;
std::set<std::string> known_seen;

// Allocation accounting
thread_local int ignore_alloc = 0;
std::atomic<int64_t> live_allocs{0};
struct IgnoreAlloc { IgnoreAlloc() { ++ignore_alloc; } ~IgnoreAlloc() { --ignore_alloc; } };

#ifdef MC_ASAN
// Only blocks that are allocated while accounting is on are counted
void malloc_hook(const volatile void*, size_t) { if (!ignore_alloc) live_allocs.fetch_add(1, std::memory_order_relaxed); }
void free_hook(const volatile void* p) { if (p && !ignore_alloc) live_allocs.fetch_sub(1, std::memory_order_relaxed); }
#endif

[[noreturn]] void die(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fputc('\n', stderr);
    fflush(stderr);
    _exit(2);
}

}

unsigned choose(unsigned n, const char* label)
{
    if (n == 0) die("mc: choice among 0 alternatives: %s", label);
    size_t pos = choices.size();
    if (pos >= stop_depth) throw StopDepth();
    if (pos >= MAX_CHOICES) die("mc: too many choices in an execution");
    uint32_t c = 0;
    if (pos < forced.size())
    {
        c = forced[pos];
        if (c >= n)
            die("mc: nondeterministic harness: choice %zu is %u out of %u (%s)", pos, c, n, label);
    }
    {
        IgnoreAlloc ia;
        choices.push_back(c);
        widths.push_back(n);
        if (tracing && n > 1) add_trace(fmt("choose %s: %u of %u", label, c, n));
    }
    if (slot)
    {
        slot->choices[pos] = c;
        slot->nchoices.store(pos + 1, std::memory_order_release);
    }
    return c;
}

std::string fmt(const char* f, ...)
{
    char* res = nullptr;
    va_list ap;
    va_start(ap, f);
    if (vasprintf(&res, f, ap) == -1) res = nullptr;
    va_end(ap);
    std::string s(res ? res : "");
    free(res);
    return s;
}

void trace(const char* f, ...)
{
    if (!tracing) return;
    IgnoreAlloc ia;
    char* res = nullptr;
    va_list ap;
    va_start(ap, f);
    if (vasprintf(&res, f, ap) == -1) res = nullptr;
    va_end(ap);
    add_trace(res ? res : "");
    free(res);
}

void fail(const char* f, ...)
{
    char* res = nullptr;
    va_list ap;
    va_start(ap, f);
    if (vasprintf(&res, f, ap) == -1) res = nullptr;
    va_end(ap);
    Violation v{res ? res : "?"};
    free(res);
    throw v;
}

void prune() { throw Pruned(); }

uint64_t hash(const std::string& s)
{
    uint64_t h = 0xcbf29ce484222325ULL;
    for (unsigned char c: s) { h ^= c; h *= 0x100000001b3ULL; }
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32;
    return h;
}
void state(uint64_t h) { IgnoreAlloc ia; if (states.size() < 4000000) states.insert(h); }
void state(const std::string& s) { state(hash(s)); }
void step(unsigned n) { n_steps += n; }
void outcome(const std::string& s) { IgnoreAlloc ia; if (outcomes.size() < 1000000) outcomes.insert(hash(s)); }

bool known(const std::string& key)
{
    if (known_keys.find(key) == known_keys.end()) return false;
    IgnoreAlloc ia;
    known_seen.insert(key);
    return true;
}

bool thorough() { return opt_thorough; }
const std::string& repo() { return opt_repo; }
const std::string& scratch() { return opt_scratch; }
void add(const std::string& name, std::function<void()> body, Options opts) { scenarios.push_back(Scenario{name, body, opts}); }

std::string hex(const std::string& buf)
{
    std::string r;
    for (unsigned char c: buf) { char b[3]; snprintf(b, 3, "%02x", c); r += b; }
    return r;
}
std::string esc(const std::string& buf)
{
    std::string r = "\"";
    for (unsigned char c: buf)
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c >= 32 && c < 127) r += c;
        else { char b[5]; snprintf(b, 5, "\\x%02x", c); r += b; }
    return r + "\"";
}

namespace {

enum Result { OK, STOPPED, VIOL };

/// Run one execution, following `forced`
Result run_once(Scenario& s, std::string& msg)
{
    choices.clear(); widths.clear(); trace_lines.clear();
    if (slot)
    {
        slot->nchoices.store(0);
        slot->started.store(now());
    }
    Result res = OK;
    try {
        s.body();
        ++n_execs;
    } catch (Violation& v) {
        IgnoreAlloc ia;
        msg = v.msg;
        res = VIOL;
    } catch (Pruned&) {
        ++n_pruned;
    } catch (StopDepth&) {
        res = STOPPED;
    } catch (std::exception& e) {
        IgnoreAlloc ia;
        msg = std::string("unexpected exception: ") + e.what();
        res = VIOL;
    }
    if (slot) { slot->started.store(0); slot->execs.store(n_execs); }
    return res;
}

Result run_checked(Scenario& s, std::string& msg)
{
    int64_t before = live_allocs.load();
    Result res = run_once(s, msg);
    if (res != OK || !s.opts.leaks) return res;
    if (live_allocs.load() <= before) return res;
    // Something grew: caches grow only once, leaks grow each time
    std::vector<uint32_t> save_forced, save_widths;
    { IgnoreAlloc ia; save_forced = forced; save_widths = widths; forced = choices; }
    unsigned grown = 0;
    uint64_t e = n_execs, st = n_steps;
    for (unsigned i = 0; i < s.opts.leak_repeats; ++i)
    {
        before = live_allocs.load();
        res = run_once(s, msg);
        if (res == VIOL) { IgnoreAlloc ia; msg += " (when executed again)"; break; }
        if (live_allocs.load() > before) ++grown; else break;
    }
    n_execs = e; n_steps = st;
    { IgnoreAlloc ia; forced = save_forced; widths = save_widths; }
    if (res == VIOL) return res;
    if (grown == s.opts.leak_repeats)
    {
        IgnoreAlloc ia;
        msg = "memory leak: live allocations grow each time this execution is repeated";
        return VIOL;
    }
    return res;
}

/// Move forced to the next execution; returns false if there are no more
bool advance(size_t fixed)
{
    IgnoreAlloc ia;
    forced = choices;
    while (forced.size() > fixed)
    {
        size_t i = forced.size() - 1;
        if (forced[i] + 1 < widths[i]) { ++forced[i]; return true; }
        forced.pop_back();
    }
    return false;
}

void write_vec(FILE* out, const std::vector<uint32_t>& v)
{
    uint32_t n = v.size();
    fwrite(&n, 4, 1, out);
    fwrite(v.data(), 4, n, out);
}

typedef std::vector<std::vector<uint32_t>> Units;

/// In a child: enumerate prefixes
void enumerate_units(Scenario& s, const std::string& outfile)
{
    Units units;
    std::string msg;
    for (size_t depth = 1; depth <= 8; ++depth)
    {
        units.clear();
        forced.clear();
        stop_depth = depth;
        bool any_stopped = false;
        bool over = false;
        while (true)
        {
            Result r = run_once(s, msg);
            if (r == STOPPED) any_stopped = true;
            units.push_back(choices);
            if (units.size() > 20000) { over = true; break; }
            if (!advance(0)) break;
        }
        if (over && depth > 1) { --depth; stop_depth = depth; // redo with a smaller depth
            units.clear(); forced.clear();
            while (true) { run_once(s, msg); units.push_back(choices); if (!advance(0)) break; }
            break; }
        if (!any_stopped || units.size() >= 200) break;
    }
    FILE* out = fopen(outfile.c_str(), "wb");
    for (auto& u: units) write_vec(out, u);
    fclose(out);
}

Units read_units(const std::string& fname)
{
    Units res;
    FILE* in = fopen(fname.c_str(), "rb");
    if (!in) return res;
    uint32_t n;
    while (fread(&n, 4, 1, in) == 1)
    {
        std::vector<uint32_t> v(n);
        if (n && fread(v.data(), 4, n, in) != n) break;
        res.push_back(v);
    }
    fclose(in);
    return res;
}

void init_child(unsigned idx, const std::string& tag)
{
    slot = &slots[idx];
    std::string fname = opt_scratch + "/stderr-" + tag;
    int fd = open(fname.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); close(fd); }
    struct rlimit rl { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
}

void dump_stats(const std::string& fname)
{
    FILE* out = fopen(fname.c_str(), "wb");
    uint64_t h[5] = { n_execs, n_steps, n_pruned, states.size(), outcomes.size() };
    fwrite(h, sizeof(h), 1, out);
    for (auto v: states) fwrite(&v, 8, 1, out);
    for (auto v: outcomes) fwrite(&v, 8, 1, out);
    for (auto& k: known_seen) fprintf(out, "%s\n", k.c_str());
    fclose(out);
}

void report_violation(const std::string& msg)
{
    slot->nchoices.store(choices.size());
    for (size_t i = 0; i < choices.size(); ++i) slot->choices[i] = choices[i];
    snprintf(slot->msg, MAX_MSG, "%s", msg.c_str());
}

/// In a child: explore units
[[noreturn]] void worker(Scenario& s, const Units& units, unsigned idx, int first, const std::string& statfile)
{
    init_child(idx, fmt("w%u", idx));
    stop_depth = SIZE_MAX;
    while (true)
    {
        int u = first;
        first = -1;
        if (u < 0)
        {
            if (shared->stop.load()) break;
            u = shared->next_unit.fetch_add(1);
        }
        if ((size_t)u >= units.size()) break;
        slot->unit.store(u);
        forced = units[u];
        while (true)
        {
            std::string msg;
            if (run_checked(s, msg) == VIOL)
            {
                report_violation(msg);
                shared->stop.store(1);
                _exit(77);
            }
            if (shared->stop.load()) break;
            if (!advance(units[u].size())) break;
        }
    }
    dump_stats(statfile);
    _exit(0);
}

struct Found
{
    std::string scenario;
    std::vector<uint32_t> prefix;  // executions before this, starting from the unit prefix, are needed to reproduce
    bool whole_unit = false;
    std::vector<uint32_t> choices;
    std::string msg;
};

std::string slurp(const std::string& fname, size_t max = 6000)
{
    std::string res;
    FILE* in = fopen(fname.c_str(), "rb");
    if (!in) return res;
    char buf[4096];
    size_t n;
    while (res.size() < max && (n = fread(buf, 1, sizeof(buf), in)) > 0) res.append(buf, n);
    fclose(in);
    return res;
}

std::string describe_status(int st)
{
    if (WIFSIGNALED(st)) return fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    return fmt("exit status %d", WEXITSTATUS(st));
}

/// First interesting line of a sanitizer report
std::string summary(const std::string& err)
{
    size_t p = err.find("ERROR: ");
    if (p == std::string::npos) p = err.find("runtime error");
    if (p == std::string::npos) p = err.find("terminate called");
    if (p == std::string::npos) return err.substr(0, 300);
    size_t b = err.rfind('\n', p);
    b = b == std::string::npos ? 0 : b + 1;
    return err.substr(b, std::min<size_t>(err.find('\n', p) - b, 400));
}

/// Run a single execution (or a whole unit) alone in a fresh process. Returns true if it fails.
/// error is set if it ended in a way that is neither a success nor a failure of the property
bool confirm(Scenario& s, const std::vector<uint32_t>& ch, const std::vector<uint32_t>* unit_prefix, double limit,
             std::string& msg, std::vector<uint32_t>& out_choices, bool& hang)
{
    hang = false;
    Slot& sl = slots[s.opts.workers];
    memset((void*)&sl, 0, sizeof(Slot));
    shared->stop.store(0);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        init_child(s.opts.workers, "confirm");
        stop_depth = SIZE_MAX;
        std::string m;
        if (unit_prefix)
        {
            forced = *unit_prefix;
            while (true)
            {
                if (run_checked(s, m) == VIOL) { report_violation(m); _exit(77); }
                if (choices == ch) break;
                if (!advance(unit_prefix->size())) break;
            }
        } else {
            forced = ch;
            if (run_checked(s, m) == VIOL) { report_violation(m); _exit(77); }
        }
        _exit(0);
    }
    double start = now();
    int st = 0;
    while (true)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        double t = sl.started.load();
        if (now() - start > limit && t > 0 && now() - t > limit)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hang = true;
            break;
        }
        usleep(2000);
    }
    out_choices.assign(sl.choices, sl.choices + sl.nchoices.load());
    if (hang)
    {
        msg = fmt("execution does not terminate within %.0f seconds", limit);
        return true;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 2)
        die("mc: harness error while confirming: %s", slurp(opt_scratch + "/stderr-confirm").c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { msg = sl.msg; return true; }
    std::string err = slurp(opt_scratch + "/stderr-confirm", 12000);
    msg = "crash: " + describe_status(st) + ": " + summary(err) + "\n" + err.substr(0, 5000);
    return true;
}

struct Totals
{
    uint64_t execs = 0, steps = 0, pruned = 0, states = 0, outcomes = 0, units = 0;
    std::set<std::string> known;
    double wall = 0;
    std::vector<std::string> samples;
};

bool explore(Scenario& s, Totals& tot, Found& found)
{
    double t0 = now();
    unsigned W = s.opts.workers;
    memset((void*)slots, 0, sizeof(Slot) * (W + 1));
    shared->next_unit.store(0);
    shared->stop.store(0);
    std::string base = opt_scratch + "/" + s.name;
    for (auto& c: base) if (c == ' ') c = '_';

    // Enumerate units in a child, since it runs the code under test
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        init_child(W, "enum");
        enumerate_units(s, base + ".units");
        _exit(0);
    }
    int st = 0;
    bool enum_hang = false;
    while (waitpid(pid, &st, WNOHANG) != pid)
    {
        double t = slots[W].started.load();
        if (t > 0 && now() - t > s.opts.timeout * 2) { kill(pid, SIGKILL); waitpid(pid, &st, 0); enum_hang = true; break; }
        usleep(2000);
    }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || enum_hang)
    {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 2) die("%s", slurp(opt_scratch + "/stderr-enum").c_str());
        // The code crashes even in the first executions
        std::vector<uint32_t> ch(slots[W].choices, slots[W].choices + slots[W].nchoices.load()), oc;
        std::string msg;
        bool hang;
        found.scenario = s.name;
        if (confirm(s, ch, nullptr, s.opts.timeout * 3, msg, oc, hang))
        {
            found.choices = oc; found.msg = msg; return true;
        }
        found.choices = ch;
        found.msg = "crash: " + describe_status(st) + ": " + slurp(opt_scratch + "/stderr-enum", 8000);
        return true;
    }
    Units units = read_units(base + ".units");
    tot.units = units.size();
    if (units.empty()) die("mc: no units in scenario %s", s.name.c_str());

    std::map<pid_t, unsigned> running;
    unsigned spawned = 0;
    std::vector<std::string> statfiles;
    auto spawn = [&](unsigned idx, int first) {
        std::string sf = base + fmt(".stat%u", spawned++);
        statfiles.push_back(sf);
        slots[idx].started.store(0);
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) worker(s, units, idx, first, sf);
        if (p < 0) die("mc: cannot fork: %s", strerror(errno));
        running[p] = idx;
    };
    for (unsigned i = 0; i < W; ++i) spawn(i, -1);

    bool failed = false;
    auto kill_all = [&]() {
        for (auto& r: running) kill(r.first, SIGKILL);
        for (auto& r: running) { int x; waitpid(r.first, &x, 0); }
        running.clear();
    };
    while (!running.empty())
    {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0 && running.count(p))
        {
            unsigned idx = running[p];
            running.erase(p);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            Slot& sl = slots[idx];
            if (WIFEXITED(st) && WEXITSTATUS(st) == 2)
            {
                kill_all();
                die("%s", slurp(opt_scratch + fmt("/stderr-w%u", idx)).c_str());
            }
            std::vector<uint32_t> ch(sl.choices, sl.choices + sl.nchoices.load()), oc;
            int unit = sl.unit.load();
            std::string msg, err;
            bool is_viol = WIFEXITED(st) && WEXITSTATUS(st) == 77;
            if (is_viol) msg = sl.msg;
            else {
                err = slurp(opt_scratch + fmt("/stderr-w%u", idx), 12000);
                msg = "crash: " + describe_status(st) + ": " + summary(err);
            }
            shared->stop.store(1);
            // Let the others end by themselves, to avoid disturbing the confirmation
            kill_all();
            found.scenario = s.name;
            std::string cmsg;
            bool hang;
            if (confirm(s, ch, nullptr, s.opts.timeout * 3, cmsg, oc, hang))
            {
                found.choices = is_viol ? ch : oc;
                found.msg = cmsg;
            } else if (confirm(s, ch, &units[unit], s.opts.timeout * 3, cmsg, oc, hang)) {
                found.whole_unit = true;
                found.prefix = units[unit];
                found.choices = oc;
                found.msg = cmsg + "\n(needs the executions that precede it in its unit)";
            } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                // Out of memory or similar: explore the scenario again from the start
                static unsigned sigkills = 0;
                if (++sigkills > 2) die("mc: workers get killed");
                for (auto& f: statfiles) unlink(f.c_str());
                tot = Totals();
                found = Found();
                return explore(s, tot, found);
            } else {
                found.choices = ch;
                found.prefix = units[unit];
                found.whole_unit = true;
                found.msg = msg + "\n(depends on the history of the worker process)\n" + err.substr(0, 4000);
            }
            failed = true;
            break;
        }
        double t = now();
        for (auto& r: running)
        {
            Slot& sl = slots[r.second];
            double started = sl.started.load();
            if (started > 0 && t - started > s.opts.timeout)
            {
                std::vector<uint32_t> ch(sl.choices, sl.choices + sl.nchoices.load()), oc;
                int unit = sl.unit.load();
                unsigned idx = r.second;
                kill(r.first, SIGKILL);
                int x;
                waitpid(r.first, &x, 0);
                running.erase(r.first);
                std::string cmsg;
                bool hang;
                if (confirm(s, ch, nullptr, s.opts.timeout * 3, cmsg, oc, hang))
                {
                    shared->stop.store(1);
                    kill_all();
                    found.scenario = s.name;
                    found.choices = oc;
                    found.msg = cmsg;
                    failed = true;
                } else {
                    // It was just slow
                    shared->stop.store(0);
                    spawn(idx, unit);
                }
                break;
            }
        }
        if (failed) break;
        usleep(2000);
    }
    tot.wall = now() - t0;
    if (failed) { for (auto& f: statfiles) unlink(f.c_str()); return true; }

    std::unordered_set<uint64_t> all_states, all_outcomes;
    for (auto& f: statfiles)
    {
        FILE* in = fopen(f.c_str(), "rb");
        if (!in) continue;
        uint64_t h[5];
        if (fread(h, sizeof(h), 1, in) == 1)
        {
            tot.execs += h[0]; tot.steps += h[1]; tot.pruned += h[2];
            uint64_t v;
            for (uint64_t i = 0; i < h[3] && fread(&v, 8, 1, in) == 1; ++i) all_states.insert(v);
            for (uint64_t i = 0; i < h[4] && fread(&v, 8, 1, in) == 1; ++i) all_outcomes.insert(v);
            char line[1000];
            while (fgets(line, 1000, in)) { std::string k(line); if (!k.empty() && k.back() == '\n') k.pop_back(); tot.known.insert(k); }
        }
        fclose(in);
        unlink(f.c_str());
    }
    tot.states = all_states.size();
    tot.outcomes = all_outcomes.size();

    // Samples: trace a few executions, in a child
    fflush(nullptr);
    pid = fork();
    if (pid == 0)
    {
        init_child(W, "sample");
        FILE* out = fopen((base + ".samples").c_str(), "wt");
        tracing = true;
        for (double pos: { 0.5, 0.93 })
        {
            forced = units[(size_t)(pos * (units.size() - 1))];
            stop_depth = SIZE_MAX;
            std::string msg;
            run_once(s, msg);
            unsigned n = 0;
            fprintf(out, "[%s] ", s.name.c_str());
            for (auto& l: trace_lines) { if (n++ > 40) break; fprintf(out, "%s; ", l.substr(0, 200).c_str()); }
            fputc('\n', out);
        }
        fclose(out);
        _exit(0);
    }
    double ts = now();
    while (waitpid(pid, &st, WNOHANG) != pid) { if (now() - ts > 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; } usleep(1000); }
    std::string smp = slurp(base + ".samples", 8000);
    size_t b = 0;
    while (b < smp.size()) { size_t e = smp.find('\n', b); if (e == std::string::npos) break; tot.samples.push_back(smp.substr(b, e - b)); b = e + 1; }
    return false;
}

std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c: s)
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) r += fmt("\\u%04x", c);
        else r += c;
    return r + "\"";
}

/// Trace a failing execution in a child, returning the trace
std::string trace_found(Scenario& s, const Found& f)
{
    std::string fname = opt_scratch + "/trace";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        init_child(s.opts.workers, "trace");
        alarm(30);
        tracing = true;
        forced = f.choices;
        stop_depth = SIZE_MAX;
        std::string msg;
        // Write trace lines as they come, since the process may crash
        FILE* out = fopen(fname.c_str(), "wt");
        setvbuf(out, nullptr, _IONBF, 0);
        trace_file = out;
        run_once(s, msg);
        fprintf(out, "result: %s\n", msg.c_str());
        fclose(out);
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    return slurp(fname, 40000);
}

Scenario* find_scenario(const std::string& name)
{
    for (auto& s: scenarios) if (s.name == name) return &s;
    return nullptr;
}

}
}

using namespace mc;

int main(int argc, char** argv)
{
    std::string out, replay_out, replay, only, knownfile;
    for (int i = 1; i < argc; ++i)
    {
        std::string a(argv[i]);
        auto arg = [&]() -> std::string { if (i + 1 >= argc) die("missing argument to %s", a.c_str()); return argv[++i]; };
        if (a == "--thorough") opt_thorough = true;
        else if (a == "--repo") opt_repo = arg();
        else if (a == "--scratch") opt_scratch = arg();
        else if (a == "--out") out = arg();
        else if (a == "--replay-out") replay_out = arg();
        else if (a == "--replay") replay = arg();
        else if (a == "--known") knownfile = arg();
        else if (a == "--only") only = arg();
        else die("unknown argument %s", a.c_str());
    }
    if (opt_scratch.empty())
    {
        char tmpl[] = "/tmp/mcXXXXXX";
        opt_scratch = mkdtemp(tmpl);
    }
    if (!knownfile.empty())
    {
        FILE* in = fopen(knownfile.c_str(), "rt");
        char line[2000];
        if (in)
        {
            while (fgets(line, 2000, in))
            {
                std::string k(line);
                while (!k.empty() && (k.back() == '\n' || k.back() == ' ')) k.pop_back();
                if (!k.empty()) known_keys.insert(k);
            }
            fclose(in);
        }
    }
    choices.reserve(MAX_CHOICES); widths.reserve(MAX_CHOICES); forced.reserve(MAX_CHOICES);
    unsigned maxw = 16;
    shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    slots = (Slot*)mmap(nullptr, sizeof(Slot) * (maxw + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifdef MC_ASAN
    __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
#endif
    setup();

    if (!replay.empty())
    {
        FILE* in = fopen(replay.c_str(), "rt");
        if (!in) die("cannot open %s", replay.c_str());
        char line[100000];
        std::string scen;
        std::vector<uint32_t> ch, prefix;
        bool whole = false;
        while (fgets(line, sizeof(line), in))
        {
            if (strncmp(line, "scenario: ", 10) == 0) { scen = line + 10; while (!scen.empty() && scen.back() == '\n') scen.pop_back(); }
            auto parse = [&](const char* s, std::vector<uint32_t>& v) { char* e; while (true) { unsigned long x = strtoul(s, &e, 10); if (e == s) break; v.push_back(x); s = e; } };
            if (strncmp(line, "choices:", 8) == 0) parse(line + 8, ch);
            if (strncmp(line, "unit:", 5) == 0) { whole = true; parse(line + 5, prefix); }
        }
        fclose(in);
        Scenario* s = find_scenario(scen);
        if (!s) die("scenario %s not found", scen.c_str());
        tracing = !whole;
        std::string msg;
        Result r;
        if (whole)
        {
            forced = prefix;
            while (true)
            {
                r = run_checked(*s, msg);
                if (r == VIOL || choices == ch || !advance(prefix.size())) break;
            }
        } else {
            forced = ch;
            r = run_checked(*s, msg);
        }
        for (auto& l: trace_lines) printf("%s\n", l.c_str());
        if (r == VIOL) { printf("VIOLATED: %s\n", msg.c_str()); return 1; }
        printf("holds on this execution\n");
        return 0;
    }

    std::string json = "{\"scenarios\": [";
    bool first = true;
    int rc = 0;
    std::set<std::string> all_known;
    for (auto& s: scenarios)
    {
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        Totals tot;
        Found found;
        bool bad = explore(s, tot, found);
        fprintf(stdout, "%s/%s: executions=%llu transitions=%llu states=%llu outcomes=%llu pruned=%llu units=%llu wall=%.1fs%s\n",
                property, s.name.c_str(), (unsigned long long)tot.execs, (unsigned long long)tot.steps, (unsigned long long)tot.states,
                (unsigned long long)tot.outcomes, (unsigned long long)tot.pruned, (unsigned long long)tot.units, tot.wall, bad ? " VIOLATED" : "");
        fflush(stdout);
        all_known.insert(tot.known.begin(), tot.known.end());
        if (!first) json += ", ";
        first = false;
        json += fmt("{\"name\": %s, \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"outcomes\": %llu, \"pruned\": %llu, \"wall\": %.2f, \"samples\": [",
                json_str(s.name).c_str(), (unsigned long long)tot.execs, (unsigned long long)tot.steps, (unsigned long long)tot.states,
                (unsigned long long)tot.outcomes, (unsigned long long)tot.pruned, tot.wall);
        for (size_t i = 0; i < tot.samples.size(); ++i) json += (i ? ", " : "") + json_str(tot.samples[i]);
        json += "]}";
        if (bad)
        {
            rc = 1;
            std::string tr = trace_found(s, found);
            std::string fname = replay_out.empty() ? opt_scratch + "/replay.txt" : replay_out;
            FILE* o = fopen(fname.c_str(), "wt");
            if (o)
            {
                fprintf(o, "property: %s\nscenario: %s\n", property, s.name.c_str());
                if (found.whole_unit) { fprintf(o, "unit:"); for (auto c: found.prefix) fprintf(o, " %u", c); fprintf(o, "\n"); }
                fprintf(o, "choices:");
                for (auto c: found.choices) fprintf(o, " %u", c);
                fprintf(o, "\n--- trace\n%s\n--- violation\n%s\n", tr.c_str(), found.msg.c_str());
                fclose(o);
            }
            printf("violated: %s: %s\n", s.name.c_str(), found.msg.substr(0, 1500).c_str());
            printf("VIOLATION property=%s replay=%s\n", property, fname.c_str());
            fflush(stdout);
            break;
        }
    }
    json += "], \"known\": [";
    bool fk = true;
    for (auto& k: all_known) { if (!fk) json += ", "; fk = false; json += json_str(k); }
    json += "]}\n";
    if (!out.empty())
    {
        FILE* o = fopen(out.c_str(), "wt");
        if (o) { fputs(json.c_str(), o); fclose(o); }
    }
    return rc;
}
