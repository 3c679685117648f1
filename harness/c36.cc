// C36: child processes get exactly the streams, files and environment asked for, and are waited for and
// signaled correctly whenever they end.
//
// Redirections are run for real, in a helper process with known open files; waiting is run on a virtual process,
// that ends at each point where it can; failures of pipe and fork are injected.
// ldflags: -ldl
#include "mc.h"
#include <wreport/utils/subprocess.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <stdexcept>
#include <system_error>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace wreport;
using subprocess::Redirect;

const char* mc::property = "C36";

namespace virt {

const pid_t PID = 3999999;
enum State { NONE, RUNNING, ENDED, REAPED };
bool active = false;
State state = NONE;
int status = 0;
unsigned ends = 0;              // Choices left about when the process ends
unsigned interrupts = 0;        // Choices left about signals
long long slept = 0;            // Virtual time
std::vector<std::pair<pid_t, int>> signals;
int kill_errno = 0;
std::string bad;

// Failures
unsigned pipe_fails = 0, pipes = 0;
bool fork_fails = false;

void note(const std::string& s) { if (bad.empty()) bad = s; }

void may_end()
{
    if (state != RUNNING || !ends) return;
    if (mc::flag("the process ends")) { state = ENDED; mc::trace("the process ends"); }
}

bool handler_installed()
{
    struct sigaction sa;
    sigaction(SIGCHLD, nullptr, &sa);
    return (sa.sa_flags & SA_SIGINFO) || (sa.sa_handler != SIG_DFL && sa.sa_handler != SIG_IGN);
}

pid_t do_wait(pid_t pid, int* st, int options)
{
    if (pid != PID) { note(mc::fmt("wait for process %d", (int)pid)); errno = ECHILD; return -1; }
    if (state == NONE || state == REAPED) { if (state == REAPED) note("wait for a process that has already been waited for"); errno = ECHILD; return -1; }
    may_end();
    if (state == RUNNING)
    {
        if (options & WNOHANG) return 0;
        state = ENDED;      // Waits until it does
    }
    if (!(options & WNOWAIT)) state = REAPED;
    if (st) *st = status;
    return PID;
}

int do_sleep(long long ns, long long& left)
{
    if (ns < 0) { errno = EINVAL; return -1; }
    mc::trace("sleep %lld ns", ns);
    left = 0;
    bool was = state == RUNNING;
    may_end();
    if (was && state == ENDED && handler_installed())
    {
        // Interrupted by SIGCHLD, or it came before the sleep
        static const std::vector<int> parts { 0, 1, 2, 3 };
        switch (mc::pick(parts, "when"))
        {
            case 0: left = ns; break;
            case 1: left = ns / 2; break;
            case 2: left = 0; break;
            case 3: slept += ns; return 0;
        }
        slept += ns - left;
        errno = EINTR;
        return -1;
    }
    if (interrupts && mc::flag("interrupted"))
    {
        --interrupts;
        left = ns - ns / 3;
        slept += ns - left;
        errno = EINTR;
        return -1;
    }
    slept += ns;
    return 0;
}

}

template<typename F> F next(const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}

extern "C" {
pid_t fork()
{
    if (virt::fork_fails) { errno = EAGAIN; return -1; }
    if (virt::active) { virt::state = virt::RUNNING; return virt::PID; }
    static auto f = next<pid_t(*)()>("fork");
    return f();
}
static int do_pipe(int* fds, int flags)
{
    if (virt::pipe_fails && ++virt::pipes == virt::pipe_fails) { errno = EMFILE; return -1; }
    return syscall(SYS_pipe2, fds, flags);
}
int pipe(int* fds) noexcept { return do_pipe(fds, 0); }
int pipe2(int* fds, int flags) noexcept { return do_pipe(fds, flags); }
pid_t waitpid(pid_t pid, int* st, int options)
{
    if (virt::active) return virt::do_wait(pid, st, options);
    return syscall(SYS_wait4, pid, st, options, nullptr);
}
pid_t wait4(pid_t pid, int* st, int options, struct rusage* ru)
{
    if (virt::active) return virt::do_wait(pid, st, options);
    return syscall(SYS_wait4, pid, st, options, ru);
}
int nanosleep(const struct timespec* ts, struct timespec* rem)
{
    if (!virt::active) return syscall(SYS_nanosleep, ts, rem);
    if (ts->tv_nsec < 0 || ts->tv_nsec > 999999999 || ts->tv_sec < 0) { errno = EINVAL; return -1; }
    long long left;
    int res = virt::do_sleep(ts->tv_sec * 1000000000ll + ts->tv_nsec, left);
    if (res == -1 && rem) { rem->tv_sec = left / 1000000000; rem->tv_nsec = left % 1000000000; }
    return res;
}
int clock_nanosleep(clockid_t clock, int flags, const struct timespec* ts, struct timespec* rem)
{
    if (!virt::active) return syscall(SYS_clock_nanosleep, clock, flags, ts, rem) == -1 ? errno : 0;
    if (flags) return ENOTSUP;
    return nanosleep(ts, rem) == -1 ? errno : 0;
}
int kill(pid_t pid, int sig) noexcept
{
    if (!virt::active)
    {
        // Only children of ours
        if (pid > 1) return syscall(SYS_kill, pid, sig);
        errno = EPERM;
        return -1;
    }
    virt::signals.emplace_back(pid, sig);
    if (pid != virt::PID) { errno = EPERM; return -1; }
    if (virt::kill_errno) { errno = virt::kill_errno; return -1; }
    if (virt::state == virt::NONE || virt::state == virt::REAPED) { errno = ESRCH; return -1; }
    return 0;
}
}

namespace {

const int MAXFD = 48;

struct Fd
{
    bool open, null, fifo;
    dev_t dev;
    ino_t ino;
    int mode;
    bool same(const Fd& o) const { return open == o.open && (!open || (dev == o.dev && ino == o.ino && mode == o.mode)); }
};

Fd look(int fd)
{
    Fd res { false, false, false, 0, 0, 0 };
    struct stat st;
    if (fstat(fd, &st) == -1) return res;
    res.open = true;
    struct stat n;
    res.null = S_ISCHR(st.st_mode) && stat("/dev/null", &n) == 0 && st.st_rdev == n.st_rdev;
    res.fifo = S_ISFIFO(st.st_mode);
    res.dev = st.st_dev; res.ino = st.st_ino;
    res.mode = fcntl(fd, F_GETFL) & O_ACCMODE;
    return res;
}

struct Table
{
    Fd fds[MAXFD];
    void scan() { for (int i = 0; i < MAXFD; ++i) fds[i] = look(i); }
};

struct Report
{
    bool done;
    char failure[1000];
    // In the child process
    bool ran;
    Table child;
    char cwd[512];
    bool leader;
    pid_t ppid;
    char data[200000];
    size_t size;
    void fail(const std::string& s) { if (!failure[0]) snprintf(failure, sizeof(failure), "%s", s.c_str()); }
};

/// Run something in a new process, with a few files open
void in_helper(const char* what, const std::vector<bool>& closed, std::function<void(Report&)> f)
{
    std::string dir = mc::scratch() + mc::fmt("/c36-%d", (int)getpid());
    mkdir(dir.c_str(), 0777);
    Report* r = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (r == MAP_FAILED) mc::fail("harness: mmap");
    pid_t pid = fork();
    if (pid == -1) mc::fail("harness: fork");
    if (pid == 0)
    {
        alarm(30);
        struct rlimit rl { MAXFD, MAXFD };
        setrlimit(RLIMIT_NOFILE, &rl);
        for (int i = 0; i < 1024; ++i) syscall(SYS_close, i);
        // 0, 1 and 2, and some others, each with a file of its own
        for (int i: {0, 1, 2, 5, 7, 9, 20, 47})
        {
            if (i < 3 && closed[i]) continue;
            int fd = open(mc::fmt("%s/f%d", dir.c_str(), i).c_str(), O_RDWR | O_CREAT, 0666);
            if (fd != i) { if (dup2(fd, i) == -1) r->fail("harness: dup2"); close(fd); }
        }
        // Files opened for the ones above may have used the numbers of closed ones, but not any more
        try {
            f(*r);
        } catch (std::exception& e) {
            r->fail(std::string("exception: ") + e.what());
        }
        r->done = true;
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) == -1 && errno == EINTR) ;
    std::string msg = r->failure;
    bool done = r->done;
    munmap(r, sizeof(Report));
    if (!msg.empty()) mc::fail("%s: %s", what, msg.c_str());
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) mc::fail("%s: it never ends", what);
    if (!done || st) mc::fail("%s: the process ended with status %d", what, st);
}

/// A child process that tells what it sees
struct Spy : public subprocess::Child
{
    Report& r;
    int code = 0;
    std::function<void()> more;
    Spy(Report& r) : r(r) {}
    int main() noexcept override
    {
        r.child.scan();
        r.leader = getsid(0) == getpid();
        r.ppid = getppid();
        if (!getcwd(r.cwd, sizeof(r.cwd))) r.cwd[0] = 0;
        if (more) more();
        r.ran = true;
        return code;
    }
};

/// What is asked for a stream
struct Ask
{
    enum Kind { UNCHANGED, DEVNULL, PIPE, STDOUT, FD } kind;
    int fd;
    std::string str() const
    {
        switch (kind)
        {
            case UNCHANGED: return "unchanged";
            case DEVNULL: return "null";
            case PIPE: return "pipe";
            case STDOUT: return "stdout";
            default: return std::to_string(fd);
        }
    }
};
const std::vector<Ask> asks { {Ask::UNCHANGED, -1}, {Ask::DEVNULL, -1}, {Ask::PIPE, -1}, {Ask::FD, 5}, {Ask::FD, 7}, {Ask::FD, 0}, {Ask::FD, 1}, {Ask::FD, 2} };

void apply(subprocess::Child& c, int stream, const Ask& a)
{
    Redirect r = a.kind == Ask::UNCHANGED ? Redirect::UNCHANGED : a.kind == Ask::DEVNULL ? Redirect::DEVNULL : a.kind == Ask::PIPE ? Redirect::PIPE : Redirect::STDOUT;
    bool fd = a.kind == Ask::FD;
    switch (stream)
    {
        case 0: if (fd) c.set_stdin(a.fd); else c.set_stdin(r); break;
        case 1: if (fd) c.set_stdout(a.fd); else c.set_stdout(r); break;
        case 2: if (fd) c.set_stderr(a.fd); else c.set_stderr(r); break;
    }
}
int parent_end(const subprocess::Child& c, int stream) { return stream == 0 ? c.get_stdin() : stream == 1 ? c.get_stdout() : c.get_stderr(); }
const char* names[] = { "stdin", "stdout", "stderr" };

/// Check what the streams of the child are
void check_streams(Report& r, const Table& before, const Table& during, const subprocess::Child& c, const Ask* a)
{
    for (int i = 0; i < 3; ++i)
    {
        const Fd& got = r.child.fds[i];
        int end = parent_end(c, i);
        switch (a[i].kind)
        {
            case Ask::UNCHANGED: if (!got.same(before.fds[i])) r.fail(std::string(names[i]) + " of the child has changed"); break;
            case Ask::DEVNULL: if (!got.open || !got.null) r.fail(std::string(names[i]) + " of the child is not /dev/null"); break;
            case Ask::FD: if (!got.same(before.fds[a[i].fd])) r.fail(std::string(names[i]) + (got.open ? " of the child is not the file descriptor given" : " of the child is closed")); break;
            case Ask::STDOUT: if (!got.same(r.child.fds[1])) r.fail("stderr of the child is not its stdout"); break;
            case Ask::PIPE:
                if (!got.open || !got.fifo) { r.fail(std::string(names[i]) + " of the child is not a pipe"); break; }
                if (end < 0 || end >= MAXFD || !during.fds[end].open) { r.fail(std::string("the end of the pipe for ") + names[i] + " is not open"); break; }
                if (got.ino != during.fds[end].ino || got.dev != during.fds[end].dev) r.fail(std::string("the pipe for ") + names[i] + " goes elsewhere");
                if (got.mode == during.fds[end].mode || got.mode != (i == 0 ? O_RDONLY : O_WRONLY)) r.fail(std::string("the pipe for ") + names[i] + " goes the wrong way");
                break;
        }
        if (a[i].kind != Ask::PIPE && end != -1) r.fail(std::string("there is a file descriptor for ") + names[i] + " without a pipe");
    }
}

/// Check that the parent has the same files open as before, and the ends of pipes
void check_parent(Report& r, const Table& before, const Table& now, const std::vector<int>& ends, const char* when)
{
    for (int i = 0; i < MAXFD; ++i)
    {
        bool end = std::find(ends.begin(), ends.end(), i) != ends.end();
        if (end && !now.fds[i].fifo) r.fail(mc::fmt("the end of a pipe is closed %s", when));
        if (!end && !now.fds[i].same(before.fds[i])) r.fail(mc::fmt("file descriptor %d of the parent is %s %s", i, now.fds[i].open ? "left open" : "closed", when));
    }
}

void redirections(bool with_closed)
{
    Ask a[3];
    a[0] = mc::pick(asks, "stdin");
    a[1] = mc::pick(asks, "stdout");
    unsigned e = mc::choose(asks.size() + 1, "stderr");
    a[2] = e == asks.size() ? Ask{Ask::STDOUT, -1} : asks[e];
    std::vector<bool> closed { false, false, false };
    if (with_closed) { unsigned m = 1 + mc::choose(7, "closed in the parent"); for (int i = 0; i < 3; ++i) closed[i] = m & (1 << i); }
    bool close_fds = mc::flag("close_fds");
    // Which files to pass
    static const std::vector<std::vector<int>> passes { {}, {9}, {20, 47}, {5, 9}, {1, 9} };
    std::vector<int> pass;
    if (!with_closed) pass = mc::pick(passes, "passed");
    // Only file descriptors that exist
    for (auto& x: a) if (x.kind == Ask::FD && x.fd < 3 && closed[x.fd]) mc::prune();
    if (a[2].kind == Ask::STDOUT && a[1].kind == Ask::UNCHANGED && closed[1]) mc::prune();
    std::string what = mc::fmt("stdin %s stdout %s stderr %s close_fds %d passed %zu closed %d%d%d", a[0].str().c_str(), a[1].str().c_str(), a[2].str().c_str(), close_fds, pass.size(), (int)closed[0], (int)closed[1], (int)closed[2]);
    mc::trace("%s", what.c_str());
    in_helper(what.c_str(), closed, [&](Report& r) {
        Table before, during, after;
        before.scan();
        {
            Spy c(r);
            for (int i = 0; i < 3; ++i) apply(c, i, a[i]);
            c.close_fds = close_fds;
            // Passing some files implies closing the others
            bool closing = close_fds || !pass.empty();
            c.pass_fds = pass;
            c.code = 7;
            for (int i = 0; i < 3; ++i) if (parent_end(c, i) != -1) r.fail("there is a pipe before starting");
            if (c.pid() != 0 || c.started() || c.terminated()) r.fail("the process is started before it is");
            c.fork();
            if (c.pid() == 0 || !c.started() || c.terminated()) r.fail("the process is not started after it is");
            int res = c.wait();
            during.scan();
            if (!r.ran) { r.fail(mc::fmt("the child did not run: it ended with %d", res)); return; }
            if (res != 7 || c.returncode() != 7 || !c.terminated()) r.fail(mc::fmt("the exit code is %d instead of 7", res));
            if (r.ppid != getpid()) r.fail("it is not a child of this process");
            std::vector<int> ends;
            for (int i = 0; i < 3; ++i) if (a[i].kind == Ask::PIPE) ends.push_back(parent_end(c, i));
            check_streams(r, before, during, c, a);
            check_parent(r, before, during, ends, "after starting");
            // Other files of the child
            for (int i = 3; i < MAXFD; ++i)
            {
                bool passed = std::find(pass.begin(), pass.end(), i) != pass.end();
                bool given = false;
                for (auto& x: a) if (x.kind == Ask::FD && x.fd == i) given = true;
                if (closing && !passed) { if (r.child.fds[i].open) r.fail(mc::fmt("file descriptor %d is left open in the child", i)); }
                else if (given && !passed) continue;
                else if (!r.child.fds[i].same(before.fds[i])) r.fail(mc::fmt("file descriptor %d is %s in the child", i, r.child.fds[i].open ? "different" : "closed"));
            }
            if (r.leader) r.fail("the child is in a session of its own");
        }
        after.scan();
        check_parent(r, before, after, {}, "at the end");
    });
    mc::step(3);
    mc::state(what);
}

/// Streams asked for more than once, pipes closed early
void settings()
{
    int stream = mc::choose(3, "stream");
    static const std::vector<Ask> some { {Ask::UNCHANGED, -1}, {Ask::DEVNULL, -1}, {Ask::PIPE, -1}, {Ask::FD, 5} };
    unsigned n = 1 + mc::choose(3, "times");
    std::vector<Ask> list;
    for (unsigned i = 0; i < n; ++i) list.push_back(mc::pick(some, "asked"));
    unsigned closing = mc::choose(3, "closed");
    std::string what = std::string(names[stream]);
    for (auto& x: list) what += " " + x.str();
    in_helper(what.c_str(), {false, false, false}, [&](Report& r) {
        Table before, during, after;
        before.scan();
        {
            Spy c(r);
            for (auto& x: list) apply(c, stream, x);
            c.fork();
            auto set = [&] { for (auto& x: some) { bool thrown = false; try { apply(c, stream, x); } catch (std::exception&) { thrown = true; } if (!thrown) r.fail("streams can be changed after starting"); } };
            set();
            c.wait();
            during.scan();
            if (!r.ran) { r.fail("the child did not run"); return; }
            Ask a[3] = { {Ask::UNCHANGED, -1}, {Ask::UNCHANGED, -1}, {Ask::UNCHANGED, -1} };
            a[stream] = list.back();
            check_streams(r, before, during, c, a);
            set();
            bool pipe = list.back().kind == Ask::PIPE;
            check_parent(r, before, during, pipe ? std::vector<int>{parent_end(c, stream)} : std::vector<int>(), "after starting");
            for (unsigned i = 0; i < closing; ++i)
            {
                if (!pipe) continue;
                switch (stream) { case 0: c.close_stdin(); break; case 1: c.close_stdout(); break; case 2: c.close_stderr(); break; }
                if (parent_end(c, stream) != -1) r.fail("there is a pipe after closing it");
                after.scan();
                check_parent(r, before, after, {}, "after closing the pipe");
            }
        }
        after.scan();
        check_parent(r, before, after, {}, "at the end");
    });
    mc::step(3);
    mc::state(what + mc::fmt(" %u", closing));
}

/// Directory, session
void surroundings()
{
    static const std::vector<std::string> dirs { "", "/", "sub", "sub/..", "/nonexistent/dir", "file" };
    std::string dir = mc::pick(dirs, "directory");
    bool session = mc::flag("session");
    int code = mc::choose(256, "exit code");
    if (code % 51 && (!dir.empty() || session)) mc::prune();
    std::string base = mc::scratch() + mc::fmt("/c36-s%d", (int)getpid());
    mkdir(base.c_str(), 0777); mkdir((base + "/sub").c_str(), 0777);
    FILE* f = fopen((base + "/file").c_str(), "w"); if (f) fclose(f);
    std::string what = "directory " + dir + (session ? " session" : "");
    in_helper(what.c_str(), {false, false, false}, [&](Report& r) {
        if (chdir(base.c_str()) == -1) r.fail("harness: chdir");
        Spy c(r);
        c.cwd = dir;
        c.start_new_session = session;
        c.code = code;
        c.fork();
        int res = c.wait();
        char cwd[512];
        if (!getcwd(cwd, sizeof(cwd)) || base != cwd) r.fail("the directory of the parent changes");
        if (getsid(0) == getpid()) r.fail("the parent is in a new session");
        if (dir == "file" || dir == "/nonexistent/dir")
        {
            if (r.ran) r.fail("the child runs in the wrong directory");
            if (res == 0) r.fail("a child that cannot start ends successfully");
            return;
        }
        if (!r.ran) { r.fail("the child did not run"); return; }
        if (res != code || c.returncode() != code) r.fail(mc::fmt("the exit code is %d instead of %d", res, code));
        if (!WIFEXITED(c.raw_returncode()) || WEXITSTATUS(c.raw_returncode()) != code) r.fail("wrong raw exit code");
        std::string want = dir.empty() || dir == "sub/.." ? base : dir == "sub" ? base + "/sub" : dir;
        if (want != r.cwd) r.fail(std::string("the child is in ") + r.cwd + " instead of " + want);
        if (r.leader != session) r.fail(session ? "the child is not in a session of its own" : "the child is in a session of its own");
    });
    mc::step();
    mc::state(what + std::to_string(code));
}

/// Data goes through pipes in both directions and they end
void data()
{
    static const std::vector<size_t> sizes { 0, 1, 4096, 65536, 65537, 150000 };
    size_t size = mc::pick(sizes, "size");
    bool close_fds = mc::flag("close_fds");
    unsigned out = mc::choose(4, "output");     // stdout, stderr, stderr through stdout, both
    std::string what = mc::fmt("%zu bytes to %u", size, out);
    in_helper(what.c_str(), {false, false, false}, [&](Report& r) {
        signal(SIGPIPE, SIG_IGN);
        {
            Spy c(r);
            c.close_fds = close_fds;
            c.set_stdin(Redirect::PIPE);
            if (out == 0) c.set_stdout(Redirect::PIPE);
            else if (out == 1) c.set_stderr(Redirect::PIPE);
            else if (out == 2) { c.set_stdout(Redirect::PIPE); c.set_stderr(Redirect::STDOUT); }
            else { c.set_stdout(Redirect::PIPE); c.set_stderr(Redirect::PIPE); }
            c.more = [&] {
                // Read all the input, then write it
                ssize_t n;
                while (r.size < sizeof(r.data) && (n = read(0, r.data + r.size, sizeof(r.data) - r.size)) > 0) r.size += n;
                // The parent has time to try to read
                usleep(2000);
                size_t pos = 0;
                while (pos < r.size) { n = write(out ? 2 : 1, r.data + pos, r.size - pos); if (n <= 0) break; pos += n; }
                if (out == 3) { close(2); if (write(1, "end", 3) != 3) r.fail("cannot write"); }
            };
            c.fork();
            std::string sent(size, 'x');
            for (size_t i = 0; i < size; ++i) sent[i] = 'a' + i % 23;
            size_t pos = 0;
            while (pos < size) { ssize_t n = write(c.get_stdin(), sent.data() + pos, size - pos); if (n <= 0) { r.fail("cannot write to the child"); break; } pos += n; }
            c.close_stdin();
            std::string got;
            char buf[5000];
            int fd = out == 1 || out == 3 ? c.get_stderr() : c.get_stdout();
            ssize_t n;
            while ((n = read(fd, buf, sizeof(buf))) > 0) got.append(buf, n);
            if (out == 3)
            {
                std::string rest;
                while ((n = read(c.get_stdout(), buf, sizeof(buf))) > 0) rest.append(buf, n);
                if (rest != "end") r.fail("wrong data on stdout");
            }
            if (got != sent) r.fail(mc::fmt("%zu bytes came back as %zu", size, got.size()));
            if (c.wait() != 0) r.fail("wrong exit code");
        }
    });
    mc::step();
    mc::state(what + (close_fds ? "c" : ""));
}

/// Pipes or fork fail
void failures()
{
    Ask a[3];
    static const std::vector<Ask> some { {Ask::UNCHANGED, -1}, {Ask::PIPE, -1}, {Ask::FD, 5}, {Ask::DEVNULL, -1} };
    for (auto& x: a) x = mc::pick(some, "stream");
    bool before_fd = mc::flag("given a file descriptor before");
    unsigned pipes = 0;
    for (auto& x: a) pipes += x.kind == Ask::PIPE;
    unsigned which = mc::choose(pipes + 1, "failing");      // A pipe, or the fork
    bool again = mc::flag("again");
    std::string what = mc::fmt("%s %s %s failing %u", a[0].str().c_str(), a[1].str().c_str(), a[2].str().c_str(), which);
    in_helper(what.c_str(), {false, false, false}, [&](Report& r) {
        Table before, during, after;
        before.scan();
        {
            Spy c(r);
            for (int i = 0; i < 3; ++i) { if (before_fd) apply(c, i, {Ask::FD, 7}); apply(c, i, a[i]); }
            virt::pipes = 0; virt::pipe_fails = which < pipes ? which + 1 : 0; virt::fork_fails = which == pipes;
            bool thrown = false;
            try { c.fork(); } catch (std::system_error& e) {
                thrown = true;
                if (e.code().value() != (which < pipes ? EMFILE : EAGAIN)) r.fail(mc::fmt("the error is %d", e.code().value()));
            }
            virt::pipe_fails = 0; virt::fork_fails = false;
            if (!thrown) r.fail("no error");
            if (c.started() || c.pid() || c.terminated()) r.fail("the process is started");
            during.scan();
            if (again)
            {
                c.fork();
                c.wait();
                if (!r.ran) r.fail("the child did not run the second time");
                during.scan();
                check_streams(r, before, during, c, a);
                std::vector<int> ends;
                for (int i = 0; i < 3; ++i) if (a[i].kind == Ask::PIPE) ends.push_back(parent_end(c, i));
                check_parent(r, before, during, ends, "after starting");
            }
        }
        after.scan();
        check_parent(r, before, after, {}, "after it failed");
    });
    mc::step();
    mc::state(what + mc::fmt(" %d %d", before_fd, again));
}

/// A process that never runs
struct Virtual : public subprocess::Child
{
    int main() noexcept override { return 0; }
};

struct Simulation
{
    struct sigaction before;
    static void handler(int, siginfo_t*, void*) {}
    Simulation(unsigned disposition)
    {
        virt::active = true; virt::state = virt::NONE; virt::status = 0; virt::ends = 1; virt::interrupts = 0; virt::slept = 0; virt::signals.clear(); virt::kill_errno = 0; virt::bad.clear();
        struct sigaction sa;
        memset(&sa, 0, sizeof(sa));
        sigemptyset(&sa.sa_mask);
        sa.sa_handler = SIG_DFL;
        if (disposition) { sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_RESTART; sigaddset(&sa.sa_mask, SIGUSR1); }
        sigaction(SIGCHLD, &sa, nullptr);
        sigaction(SIGCHLD, nullptr, &before);
    }
    ~Simulation()
    {
        virt::active = false;
        struct sigaction sa;
        memset(&sa, 0, sizeof(sa));
        sa.sa_handler = SIG_DFL;
        sigaction(SIGCHLD, &sa, nullptr);
    }
    void check(const char* what)
    {
        if (!virt::bad.empty()) mc::fail("%s: %s", what, virt::bad.c_str());
        struct sigaction now;
        sigaction(SIGCHLD, nullptr, &now);
        if (now.sa_flags != before.sa_flags || now.sa_sigaction != before.sa_sigaction || sigismember(&now.sa_mask, SIGUSR1) != sigismember(&before.sa_mask, SIGUSR1))
            mc::fail("%s: the handler of SIGCHLD is changed", what);
    }
};

/// All sequences of operations on a process, with the process ending at any point
void lifetimes()
{
    static const std::vector<int> statuses { 0, 1 << 8, 255 << 8, 0x1700, 9, 15, 11 | 128 };
    static const std::vector<int> waits { 0, 1, 999, 1000, 1500, 60001 };
    Simulation sim(mc::choose(2, "disposition"));
    virt::status = mc::pick(statuses, "status");
    int msecs = mc::pick(waits, "timeout");
    virt::interrupts = mc::choose(mc::thorough() ? 3 : 2, "interruptions");
    unsigned depth = mc::thorough() ? 5 : 4;
    Virtual c;
    bool known = false;     // It has been told that it has ended
    std::string hist;
    auto started = [] { return virt::state != virt::NONE; };
    for (unsigned i = 0; i < depth; ++i)
    {
        // The only thing that makes sense first is starting, but the others are errors
        unsigned op = mc::choose(9, "operation");
        if (op == 8) break;
        bool thrown = false;
        std::string what;
        virt::slept = 0;
        virt::signals.clear();
        virt::kill_errno = 0;
        bool s = started(), k = known;
        int st = -1;
        switch (op)
        {
            case 0:
                what = "fork";
                if (s) mc::prune();
                c.fork();
                break;
            case 1: case 2: case 3:
            {
                what = op == 1 ? "poll" : op == 2 ? "wait" : "timed wait";
                bool res = false; int code = 0;
                try {
                    if (op == 1) res = c.poll(); else if (op == 2) code = c.wait(); else res = c.wait(msecs);
                } catch (std::exception& e) { thrown = true; }
                if (!s) { MC_CHECK(thrown, "%s before starting is not an error", what.c_str()); break; }
                MC_CHECK(!thrown, "%s fails", what.c_str());
                if (op == 2)
                {
                    MC_CHECK(virt::state == virt::REAPED, "wait returns before the process ends");
                    if (WIFEXITED(virt::status)) MC_CHECK(code == WEXITSTATUS(virt::status), "wait returns %d instead of %d", code, WEXITSTATUS(virt::status));
                    known = true;
                }
                else
                {
                    bool ended = virt::state == virt::ENDED || virt::state == virt::REAPED;
                    MC_CHECK(res == ended, "%s returns %d but the process %s", what.c_str(), res, ended ? "has ended" : "has not ended");
                    if (res) known = true;
                }
                if (op == 3 && !k)
                {
                    if (!known) MC_CHECK(virt::slept >= msecs * 1000000ll, "wait for %d milliseconds returns after %lld ns", msecs, virt::slept);
                    MC_CHECK(virt::slept <= msecs * 1000000ll, "wait for %d milliseconds sleeps %lld ns", msecs, virt::slept);
                }
                else MC_CHECK(virt::slept == 0 || op == 2, "%s sleeps", what.c_str());
                st = known;
                break;
            }
            case 4: case 5: case 6: case 7:
            {
                int sig = op == 4 ? SIGTERM : op == 5 ? SIGKILL : SIGUSR1;
                what = mc::fmt("signal %d", sig);
                if (op == 7) virt::kill_errno = EPERM;
                try {
                    if (op == 4) c.terminate(); else if (op == 5) c.kill(); else c.send_signal(sig);
                } catch (std::exception& e) { thrown = true; }
                if (!s || known)
                {
                    MC_CHECK(virt::signals.empty(), "%s is sent to process %d %s", what.c_str(), (int)virt::signals[0].first, s ? "after it has ended and been waited for" : "before starting");
                    MC_CHECK(s || thrown, "%s before starting is not an error", what.c_str());
                    break;
                }
                MC_CHECK(virt::signals.size() == 1 && virt::signals[0].first == virt::PID && virt::signals[0].second == sig, "%s is not what is sent", what.c_str());
                MC_CHECK(thrown == (op == 7), "%s: %s", what.c_str(), thrown ? "error" : "no error");
                break;
            }
        }
        sim.check(what.c_str());
        MC_CHECK(c.started() == started() && c.pid() == (started() ? virt::PID : 0), "%s: wrong process", what.c_str());
        MC_CHECK(c.terminated() == known, "%s: the process is %sknown to have ended", what.c_str(), known ? "not " : "");
        if (known)
        {
            MC_CHECK(c.raw_returncode() == virt::status, "%s: the status is %d instead of %d", what.c_str(), c.raw_returncode(), virt::status);
            if (WIFEXITED(virt::status)) MC_CHECK(c.returncode() == WEXITSTATUS(virt::status), "%s: the exit code is %d", what.c_str(), c.returncode());
        }
        mc::step();
        hist += mc::fmt("%u%c", op, st == -1 ? ' ' : st ? '+' : '-');
        mc::state(mc::fmt("%d %d %d %d ", virt::status, msecs, (int)virt::state, known) + what);
    }
    mc::outcome(hist);
}

/// Environments
void environments()
{
    static const std::vector<std::string> initial { "A=0", "AB=2", "A", "BA=1", "=x", "B=" };
    static const std::vector<std::string> keys { "A", "AB", "B", "C" }, values { "", "1", "A=1" };
    subprocess::Popen p;
    std::vector<std::string> model;
    unsigned n = mc::choose(4, "entries");
    for (unsigned i = 0; i < n; ++i) model.push_back(mc::pick(initial, "entry"));
    p.env = model;
    unsigned m = 1 + mc::choose(mc::thorough() ? 3 : 2, "settings");
    std::string hist;
    for (unsigned i = 0; i < m; ++i)
    {
        std::string k = mc::pick(keys, "key"), v = mc::pick(values, "value");
        p.setenv(k, v);
        bool found = false;
        for (auto& e: model) if (e.compare(0, k.size() + 1, k + "=") == 0) { e = k + "=" + v; found = true; break; }
        if (!found) model.push_back(k + "=" + v);
        std::string got;
        for (auto& e: p.env) got += e + "|";
        std::string want;
        for (auto& e: model) want += e + "|";
        MC_CHECK(got == want, "after setting %s to %s, the environment is %s instead of %s", k.c_str(), v.c_str(), got.c_str(), want.c_str());
        mc::step();
        mc::state(want);
    }
}

/// Programs
void programs()
{
    static const std::vector<std::vector<std::string>> argss { {}, {""}, {"a"}, {"a b", "", "c"}, {"*", "$HOME", "-x"} };
    std::vector<std::string> args = mc::pick(argss, "arguments");
    unsigned how = mc::choose(5, "executable");     // path, executable, found in PATH, missing, not executable
    unsigned envs = mc::choose(3, "environment");   // the same, given, a copy with a change
    unsigned err = mc::choose(2, "stderr");
    std::string base = mc::scratch() + mc::fmt("/c36-p%d", (int)getpid());
    mkdir(base.c_str(), 0777);
    auto put = [&](const char* name, int mode) {
        std::string p = base + "/" + name;
        if (access(p.c_str(), F_OK) == 0) return;
        FILE* f = fopen(p.c_str(), "w");
        fputs("#!/bin/sh\necho \"prog=$0\"\nfor i in \"$@\"; do echo \"arg=$i\"; done\necho \"one=$C36_ONE two=$C36_TWO\"\nexit 5\n", f);
        fclose(f);
        chmod(p.c_str(), mode);
    };
    put("prog", 0755); put("data", 0644);
    std::string what = mc::fmt("program %u with %zu arguments, environment %u", how, args.size(), envs);
    in_helper(what.c_str(), {false, false, false}, [&](Report& r) {
        ::setenv("PATH", (base + ":/usr/bin:/bin").c_str(), 1);
        ::setenv("C36_ONE", "1", 1);
        ::unsetenv("C36_TWO");
        subprocess::Popen p({how == 0 ? base + "/prog" : how == 1 ? "any name" : how == 2 ? "prog" : how == 3 ? "c36-missing" : base + "/data"});
        if (how == 1) p.executable = base + "/prog";
        for (auto& a: args) p.args.push_back(a);
        std::string one = "1", two;
        if (envs == 1) { p.setenv("C36_TWO", "2"); one = ""; two = "2"; }
        if (envs == 2) { p.copy_env_from_parent(); p.setenv("C36_TWO", "x y"); p.setenv("C36_ONE", ""); one = ""; two = "x y"; }
        p.set_stdout(Redirect::PIPE);
        if (err) p.set_stderr(Redirect::PIPE);
        p.fork();
        std::string got;
        char buf[2000];
        ssize_t n;
        while ((n = read(p.get_stdout(), buf, sizeof(buf))) > 0) got.append(buf, n);
        std::string errors;
        if (err) while ((n = read(p.get_stderr(), buf, sizeof(buf))) > 0) errors.append(buf, n);
        int res = p.wait();
        if (getenv("C36_TWO") || strcmp(getenv("C36_ONE"), "1")) r.fail("the environment of the parent changes");
        if (how >= 3)
        {
            if (res == 0 || !WIFEXITED(p.raw_returncode())) r.fail("a program that does not exist runs");
            if (err && errors.empty()) r.fail("no message about a program that does not exist");
            return;
        }
        std::string want = "prog=" + base + "/prog\n";
        for (auto& a: args) want += "arg=" + a + "\n";
        want += "one=" + one + " two=" + two + "\n";
        if (got != want) r.fail("the program writes \"" + mc::esc(got) + "\" instead of \"" + mc::esc(want) + "\"");
        if (res != 5) r.fail(mc::fmt("the exit code is %d", res));
        if (!errors.empty()) r.fail("errors: " + mc::esc(errors));
    });
    mc::step();
    mc::state(what + mc::fmt(" %u", err));
}

/// All statuses
void statuses()
{
    unsigned kind = mc::choose(3, "kind");
    unsigned n = mc::choose(kind ? 65 : 256, "number");
    if (kind && n == 0) mc::prune();
    int st = kind == 0 ? n << 8 : kind == 1 ? n : n | 128;
    std::string want = kind == 0 ? n == 0 ? "terminated successfully" : mc::fmt("exited with code %u", n) : mc::fmt("was interrupted, killed by signal %u%s", n, kind == 2 ? " (core dumped)" : "");
    std::string got = subprocess::Child::format_raw_returncode(st);
    mc::step();
    mc::state(want);
    MC_CHECK(got == want, "status %d is \"%s\" instead of \"%s\"", st, got.c_str(), want.c_str());
}

}

void mc::setup()
{
    mc::Options o; o.leaks = false; o.timeout = 60;
    mc::add("redirections", []{ redirections(false); }, o);
    mc::add("closed", []{ redirections(true); }, o);
    mc::add("settings", settings, o);
    mc::add("surroundings", surroundings, o);
    mc::add("data", data, o);
    mc::add("failures", failures, o);
    mc::add("programs", programs, o);
    mc::Options l;
    mc::add("lifetimes", lifetimes, l);
    mc::add("environments", environments, l);
    mc::add("statuses", statuses, l);
}
