// C18: configuration is per thread, and scoped overrides always restore it.
//
// The library is built with a callback on each edge of its control flow graph and on each load and store: these are the
// points where the scheduler can stop a thread and run another one.
// libflags: -fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores
#include "mc.h"
#include <wreport/var.h>
#include <wreport/varinfo.h>
#include <wreport/options.h>
#include <wreport/notes.h>
#include <wreport/error.h>
#include <wreport/conv.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/tableinfo.h>
#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <functional>
#include <memory>
#include <sstream>
#include <thread>
#include <semaphore.h>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <climits>
using namespace wreport;
using mc::fmt;

const char* mc::property = "C18";

// Scheduler: one thread runs at a time, and gives control back at the end of its budget of scheduling points

namespace {

struct Ctl
{
    /// Number of points of each kind that can be passed before giving back control
    long budget = LONG_MAX;
    /// If true, only edges are scheduling points
    bool edges_only = false;
    long edges = 0, accesses = 0;
    char* stack_lo = nullptr;
    char* stack_hi = nullptr;
    sem_t go;
    sem_t* back = nullptr;
    bool blocked = false;
};
thread_local Ctl* self = nullptr;

__attribute__((noinline)) void give_back()
{
    Ctl* c = self;
    sem_post(c->back);
    while (sem_wait(&c->go) != 0) ;
}

inline void point(Ctl* c)
{
    if (c->budget == LONG_MAX) return;
    if (--c->budget < 0) give_back();
}

inline void access_point(const void* addr)
{
    Ctl* c = self;
    if (!c) return;
    if ((const char*)addr >= c->stack_lo && (const char*)addr < c->stack_hi) return;
    ++c->accesses;
    if (!c->edges_only) point(c);
}

}

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {}
void __sanitizer_cov_trace_pc_guard(uint32_t*) { Ctl* c = self; if (!c) return; ++c->edges; point(c); }
void __sanitizer_cov_load1(uint8_t* p) { access_point(p); }
void __sanitizer_cov_load2(uint16_t* p) { access_point(p); }
void __sanitizer_cov_load4(uint32_t* p) { access_point(p); }
void __sanitizer_cov_load8(uint64_t* p) { access_point(p); }
void __sanitizer_cov_load16(__uint128_t* p) { access_point(p); }
void __sanitizer_cov_store1(uint8_t* p) { access_point(p); }
void __sanitizer_cov_store2(uint16_t* p) { access_point(p); }
void __sanitizer_cov_store4(uint32_t* p) { access_point(p); }
void __sanitizer_cov_store8(uint64_t* p) { access_point(p); }
void __sanitizer_cov_store16(__uint128_t* p) { access_point(p); }

/// A thread that finds a lock taken gives back control, as its owner may be waiting to be scheduled
int pthread_mutex_lock(pthread_mutex_t* m)
{
    typedef int (*fn)(pthread_mutex_t*);
    static fn real = (fn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!self) return real(m);
    for (;;)
    {
        int res = pthread_mutex_trylock(m);
        if (res != EBUSY) return res;
        self->blocked = true;
        give_back();
        self->blocked = false;
    }
}
}

namespace {

typedef std::function<std::string()> Op;
struct NamedOp { const char* name; Op run; };

_Varinfo i_int, i_dec, i_str, i_bin, i_small, i_temp_c, i_temp_k, i_qc;

struct Hook : public options::DomainErrorHook
{
    std::string seen;
    void handle_domain_error_int(Var& var, int32_t val) override { seen += fmt("i%d ", (int)val); var.seti(7); }
    void handle_domain_error_double(Var& var, double val) override { seen += fmt("d%g ", val); var.unset(); }
};

std::string config()
{
    return fmt("[%d%d%d%d]", (int)options::var_silent_domain_errors, (int)options::var_clamp_domain_errors,
               options::var_hook_domain_errors != nullptr, (int)notes::logs());
}

/// Result of a set of out of range and other sets
std::string try_set(std::function<void(Var&)> f, Varinfo info)
{
    Var v(info);
    std::string res;
    try {
        f(v);
    } catch (error& e) {
        res = fmt("error %d %s ", (int)e.code(), e.what());
    }
    res += v.isset() ? v.enqs() : "unset";
    return res + config() + ";";
}
std::string out_of_range(int n)
{
    std::string res;
    res += try_set([&](Var& v) { v.seti(100000 + n); }, &i_small);
    res += try_set([&](Var& v) { v.setd(-1e9 - n); }, &i_dec);
    return res;
}

std::vector<NamedOp> make_ops()
{
    std::vector<NamedOp> res;
    res.push_back({"default", [] { return out_of_range(1); }});
    res.push_back({"silent", [] {
        auto o = options::local_override(options::var_silent_domain_errors, true);
        return out_of_range(2);
    }});
    res.push_back({"clamp", [] {
        auto o = options::local_override(options::var_clamp_domain_errors, true);
        return out_of_range(3);
    }});
    res.push_back({"hook", [] {
        Hook h;
        auto o = options::local_override<options::DomainErrorHook*>(options::var_hook_domain_errors, &h);
        std::string r = out_of_range(4);
        return r + h.seen;
    }});
    res.push_back({"enqc", [] {
        Var a(&i_int, 12345), b(&i_dec, -9.87), c(&i_str, "ABC");
        const char* p = a.enqc();
        std::string r = c.enqc();
        r += p;
        p = b.enqc();
        r += a.format("");
        r += p;
        return r;
    }});
    res.push_back({"enqc2", [] {
        Var a(&i_int, 77), b(&i_dec, 54.32);
        std::string r;
        const char* p = b.enqc();
        r += fmt("%d %g ", a.enqi(), b.enqd());
        r += p;
        return r + "/" + a.enqc() + "/" + b.enqs();
    }});
    res.push_back({"format", [] {
        Var a(&i_int, 4242), b(&i_dec, -1.25), c(&i_str, "XYZ");
        std::string r = a.format("-") + b.format("-") + c.format("-") + Var(&i_int).format("UNDEF");
        std::stringstream s;
        a.seta(Var(&i_qc, 50));
        a.print(s);
        b.print_without_attrs(s);
        return r + s.str();
    }});
    res.push_back({"setf", [] {
        Var a(&i_int), b(&i_dec), c(&i_str);
        a.setf("321"); b.setf("-7.65"); c.setf("LONG");
        std::string r = a.enqs() + b.enqs() + c.enqs();
        a.setc("11"); b.sets("-1234"); c.setc_truncate("ABCDEFGHIJKLMNOP");
        return r + a.enqs() + b.enqs() + c.enqs();
    }});
    res.push_back({"collect", [] {
        std::stringstream s;
        {
            notes::Collect c(s);
            notes::logf("one %d ", 1);
            notes::log() << "two " << 2.5 << " ";
            notes::logf("%s", config().c_str());
        }
        notes::logf("lost");
        notes::log() << "lost";
        return s.str() + config();
    }});
    res.push_back({"collect2", [] {
        std::stringstream s, t;
        try {
            notes::Collect c(s);
            notes::logf("outer ");
            {
                notes::Collect d(t);
                notes::log() << "inner " << std::hex << 255 << " ";
            }
            notes::logf("again %d", 3);
            error_consistency::throwf("thrown %d", 4);
        } catch (std::exception& e) {
            notes::logf("lost");
            return s.str() + "|" + t.str() + "|" + e.what() + config();
        }
        return std::string();
    }});
    res.push_back({"notarget", [] {
        std::string r = config();
        std::ostream& o = notes::log();
        bool dec = (o.flags() & std::ios::basefield) == std::ios::dec;
        o << std::hex << "lost" << 12;
        dec = dec && (o.flags() & std::ios::basefield) == std::ios::hex;
        o << std::dec;
        notes::logf("lost %d", 12);
        return r + fmt("%d%d", (int)o.good(), (int)dec) + config();
    }});
    res.push_back({"target", [] {
        std::stringstream s;
        notes::set_target(s);
        std::string r = config() + (notes::get_target() == &s ? "same" : "different");
        notes::logf("a%db ", 5);
        notes::log() << "c ";
        notes::unset_target();
        notes::logf("lost");
        return r + s.str() + config();
    }});
    res.push_back({"diff", [] {
        std::stringstream s;
        notes::Collect c(s);
        Var a(&i_int, 1), b(&i_int, 2), d(&i_str, "A"), e(&i_str, "B"), f(&i_dec, 1.0);
        unsigned n = a.diff(b) + d.diff(e) + a.diff(f);
        f.seta(Var(&i_qc, 1));
        Var g(&i_dec, 1.0);
        n += f.diff(g);
        return fmt("%u ", n) + s.str();
    }});
    res.push_back({"direct", [] {
        // Options can also be set directly
        options::var_silent_domain_errors = true;
        std::string r = out_of_range(5);
        options::var_silent_domain_errors = false;
        options::var_clamp_domain_errors = true;
        r += out_of_range(6);
        options::var_clamp_domain_errors = false;
        r += out_of_range(7);
        return r;
    }});
    res.push_back({"errors", [] {
        std::string r;
        try { error_consistency::throwf("A %d %s", 1, "x"); } catch (error& e) { r += fmt("%d %s;", (int)e.code(), e.what()); }
        try { error_notfound::throwf("B %d %s", 2, "y"); } catch (error& e) { r += fmt("%d %s;", (int)e.code(), e.what()); }
        try { error_parse::throwf("file", 12, "C %d", 3); } catch (error& e) { r += fmt("%d %s;", (int)e.code(), e.what()); }
        try { Var(&i_int).enqi(); } catch (error& e) { r += fmt("%d %s;", (int)e.code(), e.what()); }
        try { Var v(&i_str); v.setc("0123456789ABCDEF"); } catch (error& e) { r += fmt("%d %s;", (int)e.code(), e.what()); }
        return r;
    }});
    res.push_back({"convert", [] {
        double d = convert_units("K", "C", 300.0);
        Var a(&i_temp_k, 280.15);
        Var b(&i_temp_c, a);
        return fmt("%.4f ", d) + b.format("") + varcode_format(WR_VAR(3, 7, 80)) + fmt("%d", (int)varcode_parse("B12101")) + varcode_format(WR_VAR(0, 12, 101));
    }});
    res.push_back({"header", [] {
        // Decoding something that is not right reports where
        std::string r;
        try { BufrBulletin::decode(std::string("BUFR\0\0\x20\x07garbage", 15), "file.bufr", 42); } catch (error& e) { r += e.what(); }
        try { CrexBulletin::decode(std::string("CREX++\r\r\nT00garbage", 19), "file.crex", 43); } catch (error& e) { r += e.what(); }
        return r;
    }});
    return res;
}
const std::vector<NamedOp>& ops() { static std::vector<NamedOp> o = make_ops(); return o; }

void init_infos()
{
    i_int.set_bufr(WR_VAR(0, 1, 2), "INT", "NUMERIC", 0, 6, 0, 20);
    i_small.set_bufr(WR_VAR(0, 1, 1), "SMALL", "NUMERIC", 0, 3, 0, 7);
    i_dec.set_bufr(WR_VAR(0, 6, 2), "DEC", "M", 2, 5, -20000, 16);
    i_str.set_bufr(WR_VAR(0, 1, 19), "STR", "CCITTIA5", 0, 8, 0, 64);
    i_temp_k.set_bufr(WR_VAR(0, 12, 101), "TEMP", "K", 2, 5, 0, 16);
    i_temp_c.set_bufr(WR_VAR(0, 12, 102), "TEMPC", "C", 2, 5, -10000, 16);
    i_qc.set_bufr(WR_VAR(0, 33, 7), "QC", "%", 0, 3, 0, 7);
}

/// What each operation gives when it runs alone
std::vector<std::string> alone;
/// Number of points of each operation: edges only, or also memory accesses
std::vector<long> n_edges, n_points;

struct Thread
{
    Ctl ctl;
    std::thread t;
    const Op* op = nullptr;
    std::string result;
    bool finished = true;
    bool quit = false;

    Thread(sem_t* back)
    {
        sem_init(&ctl.go, 0, 0);
        ctl.back = back;
        t = std::thread([this] { main(); });
    }
    ~Thread()
    {
        quit = true;
        sem_post(&ctl.go);
        t.join();
        sem_destroy(&ctl.go);
    }
    void main()
    {
        pthread_attr_t a;
        pthread_getattr_np(pthread_self(), &a);
        void* addr; size_t size;
        pthread_attr_getstack(&a, &addr, &size);
        pthread_attr_destroy(&a);
        ctl.stack_lo = (char*)addr; ctl.stack_hi = (char*)addr + size;
        for (;;)
        {
            while (sem_wait(&ctl.go) != 0) ;
            if (quit) return;
            self = &ctl;
            std::string r;
            try {
                r = (*op)();
            } catch (std::exception& e) {
                r = std::string("raised ") + e.what();
            }
            self = nullptr;
            result = r;
            finished = true;
            sem_post(ctl.back);
        }
    }
};

struct Pool
{
    sem_t back;
    std::vector<std::unique_ptr<Thread>> threads;
    Pool(unsigned n) { sem_init(&back, 0, 0); for (unsigned i = 0; i < n; ++i) threads.emplace_back(new Thread(&back)); }
    ~Pool() { threads.clear(); sem_destroy(&back); }

    void start(unsigned t, const Op& op, bool edges_only)
    {
        Thread& th = *threads[t];
        th.op = &op;
        th.finished = false;
        th.ctl.edges_only = edges_only;
        th.ctl.edges = th.ctl.accesses = 0;
    }
    /// Let a thread pass n scheduling points
    void run(unsigned t, long n)
    {
        Thread& th = *threads[t];
        if (th.finished) return;
        th.ctl.budget = n;
        sem_post(&th.ctl.go);
        while (sem_wait(&back) != 0) ;
    }
    void finish()
    {
        for (unsigned i = 0; ; ++i)
        {
            bool all = true;
            for (unsigned t = 0; t < threads.size(); ++t)
            {
                run(t, LONG_MAX);
                all = all && threads[t]->finished;
            }
            if (all) return;
            if (i > 1000) mc::fail("the threads wait for each other");
        }
    }
};

/// Threads of this process, which have run all operations once
Pool& pool()
{
    static Pool* p = nullptr;
    static pid_t owner = 0;
    if (p && owner == getpid()) return *p;
    p = new Pool(3);
    owner = getpid();
    for (unsigned t = 0; t < 3; ++t)
        for (unsigned twice = 0; twice < 2; ++twice)
            for (auto& o : ops())
            {
                p->start(t, o.run, false);
                p->run(t, LONG_MAX);
            }
    return *p;
}

void measure()
{
    for (unsigned i = 0; i < ops().size(); ++i)
    {
        Pool& p = pool();
        p.start(0, ops()[i].run, false);
        p.run(0, LONG_MAX);
        alone.push_back(p.threads[0]->result);
        n_edges.push_back(p.threads[0]->ctl.edges);
        n_points.push_back(p.threads[0]->ctl.edges + p.threads[0]->ctl.accesses);
        if (getenv("C18_VERBOSE")) fprintf(stderr, "%s: %ld edges %ld points: %s\n", ops()[i].name, n_edges[i], n_points[i], mc::esc(alone[i]).c_str());
    }
}

void check(unsigned t, unsigned op, const char* what)
{
    const std::string& r = pool().threads[t]->result;
    MC_CHECK(r == alone[op], "%s: operation %s in thread %u gives\n%s\ninstead of\n%s", what, ops()[op].name, t, mc::esc(r).c_str(), mc::esc(alone[op]).c_str());
    mc::outcome(fmt("%u %s", op, r.c_str()));
}

/// One thread is stopped at each of its points, and the other one runs to the end
void one_preemption()
{
    unsigned a = mc::choose(ops().size(), "first"), b = mc::choose(ops().size(), "second");
    long k = mc::choose(n_points[a] + 1, "point");
    mc::trace("thread 0 runs %s up to point %ld, then thread 1 runs %s, then thread 0 ends", ops()[a].name, k, ops()[b].name);
    Pool& p = pool();
    p.start(0, ops()[a].run, false); p.start(1, ops()[b].run, false);
    p.run(0, k);
    p.run(1, LONG_MAX);
    p.finish();
    mc::step(3);
    mc::state(fmt("%u/%ld/%u", a, k, b));
    check(0, a, "stopped"); check(1, b, "run meanwhile");
}

/// Two preemptions: the first thread is stopped, the second one is stopped, and then each one ends
void two_preemptions(const std::vector<unsigned>& which, bool edges_only, unsigned stride_k)
{
    unsigned a = mc::pick(which, "first"), b = mc::pick(which, "second");
    const std::vector<long>& n = edges_only ? n_edges : n_points;
    long k = mc::choose(n[a] / stride_k + 1, "point") * stride_k;
    long j = mc::choose(n[b] + 1, "point 2");
    mc::trace("thread 0 runs %s up to point %ld, thread 1 runs %s up to point %ld, then thread 0 ends, then thread 1", ops()[a].name, k, ops()[b].name, j);
    Pool& p = pool();
    p.start(0, ops()[a].run, edges_only); p.start(1, ops()[b].run, edges_only);
    p.run(0, k);
    p.run(1, j);
    p.run(0, LONG_MAX);
    p.finish();
    mc::step(4);
    mc::state(fmt("%u/%ld/%u/%ld", a, k, b, j));
    check(0, a, "stopped first"); check(1, b, "stopped second");
}

// Programs made of single steps on options and notes targets, which are interleaved in all ways and compared with a model
// where each thread has its own stack of settings

struct StepModel
{
    bool silent = false, clamp = false, hook = false;
    int target = -1;
};

enum StepKind { PUSH_SILENT, PUSH_NOSILENT, PUSH_CLAMP, PUSH_NOCLAMP, PUSH_HOOK, PUSH_NOHOOK, PUSH_COLLECT, POP, RAISE_POP, POP_ALL, LOG, SET, END_KINDS };
const char* step_names[] = {"silent", "not silent", "clamp", "not clamp", "hook", "no hook", "collect", "leave scope", "leave scope by exception", "leave all scopes by exception", "log", "set"};

/// The state of a thread as nested scopes: it is run as a recursive function that reads the steps to do from a queue
struct Scopes
{
    /// Called to get the next step; returns END_KINDS at the end
    std::function<StepKind()> next;
    /// Called after each step
    std::function<void()> done;
    std::string obs;
    std::vector<std::unique_ptr<std::stringstream>> streams;
    std::vector<std::unique_ptr<Hook>> hooks;

    struct Raise { unsigned levels; };

    void observe()
    {
        obs += config() + fmt("h%d", hook_index());
        obs += fmt("t%d;", target_index());
        done();
    }
    int hook_index()
    {
        if (!options::var_hook_domain_errors) return -1;
        for (unsigned i = 0; i < hooks.size(); ++i) if (hooks[i].get() == options::var_hook_domain_errors) return i;
        return -2;
    }
    int target_index()
    {
        if (!notes::get_target()) return -1;
        for (unsigned i = 0; i < streams.size(); ++i) if (streams[i].get() == notes::get_target()) return i;
        return -2;
    }
    void leave(unsigned) {}

    void scope(unsigned depth)
    {
        for (;;)
        {
            StepKind k = next();
            unsigned before = depth;
            try {
                switch (k)
                {
                    case PUSH_SILENT: { auto o = options::local_override(options::var_silent_domain_errors, true); observe(); scope(depth + 1); break; }
                    case PUSH_NOSILENT: { auto o = options::local_override(options::var_silent_domain_errors, false); observe(); scope(depth + 1); break; }
                    case PUSH_CLAMP: { auto o = options::local_override(options::var_clamp_domain_errors, true); observe(); scope(depth + 1); break; }
                    case PUSH_NOCLAMP: { auto o = options::local_override(options::var_clamp_domain_errors, false); observe(); scope(depth + 1); break; }
                    case PUSH_HOOK:
                    {
                        hooks.emplace_back(new Hook);
                        auto o = options::local_override<options::DomainErrorHook*>(options::var_hook_domain_errors, hooks.back().get());
                        observe(); scope(depth + 1); break;
                    }
                    case PUSH_NOHOOK:
                    {
                        auto o = options::local_override<options::DomainErrorHook*>(options::var_hook_domain_errors, nullptr);
                        observe(); scope(depth + 1); break;
                    }
                    case PUSH_COLLECT:
                    {
                        streams.emplace_back(new std::stringstream);
                        notes::Collect c(*streams.back());
                        observe(); scope(depth + 1); break;
                    }
                    case POP: return;
                    case RAISE_POP: throw Raise{1};
                    case POP_ALL: throw Raise{depth};
                    case LOG:
                        notes::logf("L%d ", (int)streams.size());
                        notes::log() << "M" << streams.size() << " ";
                        observe();
                        continue;
                    case SET:
                        obs += out_of_range(8);
                        observe();
                        continue;
                    case END_KINDS: if (depth) throw Raise{depth}; return;
                }
            } catch (Raise& r) {
                // Raised by the scope below this one, which has been left; or in this one
                if (k == RAISE_POP || k == POP_ALL || k == END_KINDS) throw;
                if (r.levels > 1) { observe_left(); throw Raise{r.levels - 1}; }
            }
            (void)before;
            observe();
            if (ended) { if (depth) throw Raise{depth}; return; }
        }
    }
    bool ended = false;
    void observe_left() { obs += "left " + config() + fmt("h%dt%d;", hook_index(), target_index()); }

    std::string run()
    {
        scope(0);
        for (auto& s : streams) obs += "|" + s->str();
        for (auto& h : hooks) obs += "/" + h->seen;
        return obs;
    }
};

/// The model of Scopes: computes what is observed, for a list of steps
struct ScopesModel
{
    struct Frame { bool silent, clamp; int hook, target; };
    std::vector<Frame> stack{{false, false, -1, -1}};
    std::vector<std::string> streams, hooks;
    std::string obs;
    std::string config() const
    {
        const Frame& f = stack.back();
        return fmt("[%d%d%d%d]", (int)f.silent, (int)f.clamp, f.hook >= 0, f.target >= 0);
    }
    void observe() { obs += config() + fmt("h%dt%d;", stack.back().hook, stack.back().target); }
    void set_one(bool is_int)
    {
        Frame& f = stack.back();
        std::string r;
        if (f.silent) r = "unset";
        else if (f.clamp) r = is_int ? "126" : "-20000";
        else if (f.hook >= 0)
        {
            hooks[f.hook] += is_int ? "i100008 " : "d-1e+09 ";
            r = is_int ? "7" : "unset";
        }
        else r = "?"; // the text of the error is checked by the other scenarios
        obs += r + config() + ";";
    }
    bool legal(StepKind k) const
    {
        if (k == POP || k == RAISE_POP) return stack.size() > 1;
        if (k == POP_ALL) return stack.size() > 2;
        return true;
    }
    void step(StepKind k)
    {
        Frame f = stack.back();
        switch (k)
        {
            case PUSH_SILENT: f.silent = true; stack.push_back(f); observe(); break;
            case PUSH_NOSILENT: f.silent = false; stack.push_back(f); observe(); break;
            case PUSH_CLAMP: f.clamp = true; stack.push_back(f); observe(); break;
            case PUSH_NOCLAMP: f.clamp = false; stack.push_back(f); observe(); break;
            case PUSH_HOOK: f.hook = hooks.size(); hooks.emplace_back(); stack.push_back(f); observe(); break;
            case PUSH_NOHOOK: f.hook = -1; stack.push_back(f); observe(); break;
            case PUSH_COLLECT: f.target = streams.size(); streams.emplace_back(); stack.push_back(f); observe(); break;
            case POP: case RAISE_POP: stack.pop_back(); observe(); break;
            case POP_ALL:
                while (stack.size() > 2) { stack.pop_back(); obs += "left " + config() + fmt("h%dt%d;", stack.back().hook, stack.back().target); }
                stack.pop_back();
                observe();
                break;
            case LOG:
                if (f.target >= 0) streams[f.target] += fmt("L%d M%d ", (int)streams.size(), (int)streams.size());
                observe();
                break;
            case SET: set_one(true); set_one(false); observe(); break;
            case END_KINDS: break;
        }
    }
    void end()
    {
        if (stack.size() > 1)
        {
            while (stack.size() > 2) { stack.pop_back(); obs += "left " + config() + fmt("h%dt%d;", stack.back().hook, stack.back().target); }
            stack.pop_back();
            observe();
        }
        for (auto& s : streams) obs += "|" + s;
        for (auto& h : hooks) obs += "/" + h;
    }
    std::string canonical() const
    {
        std::string r;
        for (auto& f : stack) r += fmt("%d%d%d,%d;", (int)f.silent, (int)f.clamp, f.hook, f.target);
        return r;
    }
};

/// Errors are all seen as ?
std::string simplify(const std::string& obs)
{
    std::string res;
    for (size_t i = 0; i < obs.size(); )
    {
        if (obs.compare(i, 6, "error ") == 0)
        {
            size_t e = obs.find("unset[", i);
            res += "?";
            i = e == std::string::npos ? obs.size() : e + 5;
        }
        else
            res += obs[i++];
    }
    return res;
}

std::vector<StepKind> choose_steps(unsigned n, const std::vector<StepKind>& kinds, ScopesModel& model, unsigned thread)
{
    std::vector<StepKind> res;
    for (unsigned i = 0; i < n; ++i)
    {
        StepKind k = mc::pick(kinds, "step");
        if (!model.legal(k)) mc::prune();
        mc::trace("thread %u: %s", thread, step_names[k]);
        model.step(k);
        mc::step();
        mc::state(model.canonical());
        res.push_back(k);
    }
    model.end();
    return res;
}

/// All nestings of scopes in one thread
void nesting(unsigned n, const std::vector<StepKind>& kinds)
{
    ScopesModel model;
    std::vector<StepKind> steps = choose_steps(n, kinds, model, 0);
    Scopes s;
    unsigned pos = 0;
    s.next = [&] { if (pos < steps.size()) return steps[pos++]; s.ended = true; return END_KINDS; };
    s.done = [] {};
    std::string obs = simplify(s.run());
    MC_CHECK(obs == model.obs, "observed\n%s\ninstead of\n%s", obs.c_str(), model.obs.c_str());
    MC_CHECK(config() == "[0000]", "the configuration is not restored at the end: %s", config().c_str());
    mc::outcome(obs);
}

/// Programs of new threads, interleaved step by step; the main thread changes its configuration before and meanwhile
void interleaved(unsigned threads, unsigned n, const std::vector<StepKind>& kinds)
{
    std::vector<ScopesModel> models(threads);
    std::vector<std::vector<StepKind>> progs;
    for (unsigned t = 0; t < threads; ++t) progs.push_back(choose_steps(n, kinds, models[t], t));
    // Configuration of the thread that starts them
    unsigned mine = mc::choose(2, "main thread");
    mc::trace("main thread: %s", mine ? "silent, collect" : "default");
    // Each thread can be scheduled once for each of its steps, plus once to begin and once to end
    std::vector<unsigned> left(threads, n + 2), order;
    std::string schedule;
    while (order.size() < threads * (n + 2))
    {
        std::vector<unsigned> can;
        for (unsigned t = 0; t < threads; ++t) if (left[t]) can.push_back(t);
        unsigned t = mc::pick(can, "schedule");
        --left[t];
        order.push_back(t);
        schedule += fmt("%u", t);
    }
    mc::trace("schedule: %s", schedule.c_str());
    bool old = options::var_silent_domain_errors;
    std::stringstream target;
    if (mine) { options::var_silent_domain_errors = true; notes::set_target(target); }
    std::vector<Scopes> scopes(threads);
    std::vector<unsigned> pos(threads, 0);
    std::vector<Op> bodies;
    std::vector<std::string> results(threads);
    {
        Pool p(threads);
        for (unsigned t = 0; t < threads; ++t)
        {
            Scopes& s = scopes[t];
            s.next = [&progs, &pos, &s, t]() -> StepKind { give_back(); if (pos[t] < progs[t].size()) return progs[t][pos[t]++]; s.ended = true; return END_KINDS; };
            s.done = [] {};
            bodies.push_back([&s] { return s.run(); });
        }
        for (unsigned t = 0; t < threads; ++t) p.start(t, bodies[t], true);
        for (auto t : order) p.run(t, LONG_MAX);
        p.finish();
        for (unsigned t = 0; t < threads; ++t) results[t] = simplify(p.threads[t]->result);
    }
    std::string cfg = config();
    bool seen = !target.str().empty();
    options::var_silent_domain_errors = old;
    notes::unset_target();
    mc::step(schedule.size());
    for (unsigned t = 0; t < threads; ++t)
        MC_CHECK(results[t] == models[t].obs, "with schedule %s thread %u observes\n%s\ninstead of\n%s", schedule.c_str(), t, results[t].c_str(), models[t].obs.c_str());
    MC_CHECK(cfg == (mine ? "[1001]" : "[0000]"), "the other threads changed the configuration of the main thread to %s", cfg.c_str());
    MC_CHECK(!seen, "notes of the other threads are sent to the target of the main thread");
    mc::outcome(schedule);
}

/// Threads that end leave nothing behind
void thread_end()
{
    unsigned a = mc::choose(ops().size(), "operation"), b = mc::choose(ops().size(), "second");
    mc::trace("a new thread runs %s, then another one %s", ops()[a].name, ops()[b].name);
    std::string ra, rb;
    std::thread t1([&] { ra = ops()[a].run(); });
    t1.join();
    std::thread t2([&] { rb = ops()[b].run(); });
    t2.join();
    mc::step(2);
    MC_CHECK(ra == alone[a], "operation %s in a new thread gives\n%s\ninstead of\n%s", ops()[a].name, mc::esc(ra).c_str(), mc::esc(alone[a]).c_str());
    MC_CHECK(rb == alone[b], "operation %s in a new thread gives\n%s\ninstead of\n%s", ops()[b].name, mc::esc(rb).c_str(), mc::esc(alone[b]).c_str());
}

/// The same operations in sequence in the same thread do not affect each other
void sequences(unsigned n)
{
    std::vector<unsigned> seq;
    for (unsigned i = 0; i < n; ++i)
    {
        seq.push_back(mc::choose(ops().size(), "operation"));
        mc::trace("%s", ops()[seq.back()].name);
    }
    for (unsigned i = 0; i < n; ++i)
    {
        std::string r = ops()[seq[i]].run();
        MC_CHECK(r == alone[seq[i]], "operation %u %s gives\n%s\ninstead of\n%s", i, ops()[seq[i]].name, mc::esc(r).c_str(), mc::esc(alone[seq[i]]).c_str());
        mc::step();
    }
}

}

void mc::setup()
{
    init_infos();
    measure();
    Options nl; nl.leaks = false;

    std::vector<StepKind> all{PUSH_SILENT, PUSH_NOSILENT, PUSH_CLAMP, PUSH_NOCLAMP, PUSH_HOOK, PUSH_NOHOOK, PUSH_COLLECT, POP, RAISE_POP, POP_ALL, LOG, SET};
    std::vector<StepKind> fewer{PUSH_SILENT, PUSH_CLAMP, PUSH_HOOK, PUSH_COLLECT, POP, RAISE_POP, LOG, SET};
    std::vector<StepKind> few{PUSH_SILENT, PUSH_HOOK, PUSH_COLLECT, POP, LOG, SET};
    mc::add("nesting", [=] { nesting(thorough() ? 6 : 5, all); }, nl);
    mc::add("nesting-deep", [=] { nesting(thorough() ? 9 : 7, {PUSH_SILENT, PUSH_NOSILENT, PUSH_COLLECT, RAISE_POP, POP_ALL, LOG}); }, nl);
    mc::add("sequences", [] { sequences(thorough() ? 4 : 3); }, nl);
    mc::add("thread-end", thread_end);
    mc::add("one-preemption", one_preemption, nl);
    mc::add("interleaved-2x1", [=] { interleaved(2, 1, fewer); }, nl);
    mc::add("interleaved-2x2", [=] { interleaved(2, 2, few); }, nl);
    if (thorough()) mc::add("interleaved-3x1", [=] { interleaved(3, 1, few); }, nl);
    std::vector<unsigned> some;
    for (unsigned i = 0; i < ops().size(); ++i) some.push_back(i);
    mc::add("two-preemptions", [=] { two_preemptions(some, !thorough(), 1); }, nl);
}
