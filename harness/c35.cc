// C35: helpers for files are exact, all or nothing where they say so, and do not leak, whatever fails.
//
// The system calls that the helpers use are interposed: each of them can be made to fail or to do only a part
// of what it was asked, and the files are looked at before and after each of them. Calls that would destroy
// something outside of the scratch directory are refused and reported.
// ldflags: -ldl
#include "mc.h"
#include <wreport/utils/sys.h>
#include <wreport/utils/string.h>
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <utime.h>
#include <vector>
#include <sanitizer/asan_interface.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace wreport;

const char* mc::property = "C35";

namespace box {

bool armed = false;
std::string root;               // Everything must stay here
unsigned calls = 0;             // System calls made by the code under test
unsigned fault_at = 0;          // Which one fails (0: none)
int fault_errno = 0;
bool faulted = false;
std::string fault_name;
std::vector<size_t> sizes;      // How much each read or write does
size_t io = 0;
bool unknown_types = false;     // The file system does not tell the type of directory entries
std::string bad;                // What went wrong
std::function<void()> watch;    // Called before and after each system call
std::map<void*, size_t> maps;   // Memory mapped
bool watching = false;
std::vector<int> lock_errors;   // Errors given by locking, one after the other
size_t locking = 0;

void note(const std::string& s) { if (bad.empty()) bad = s; }

void look()
{
    if (!watch || watching) return;
    watching = true;
    watch();
    watching = false;
}

/// Called at the beginning of each interposed function: true if it has to fail
bool enter(const char* name)
{
    if (!armed || watching) return false;
    look();
    ++calls;
    if (calls != fault_at) return false;
    faulted = true;
    fault_name = name;
    errno = fault_errno;
    return true;
}

size_t part(size_t count)
{
    if (!armed || watching || io >= sizes.size()) return count;
    size_t s = sizes[io++];
    return s < count ? s : count;
}

template<typename T> T leave(T res)
{
    if (!armed || watching) return res;
    int e = errno;
    look();
    errno = e;
    return res;
}

/// Where a path really is, without following its last component
std::string locate(int dirfd, const char* path)
{
    std::string p = path;
    if (p.empty() || p[0] != '/')
    {
        char buf[4096];
        ssize_t n = ::readlink(dirfd == AT_FDCWD ? "/proc/self/cwd" : mc::fmt("/proc/self/fd/%d", dirfd).c_str(), buf, sizeof(buf));
        if (n <= 0) return "?";
        p = std::string(buf, n) + "/" + p;
    }
    while (p.size() > 1 && p.back() == '/') p.pop_back();
    size_t pos = p.rfind('/');
    std::string dir = pos ? p.substr(0, pos) : "/", last = p.substr(pos + 1);
    char* r = ::realpath(dir.c_str(), nullptr);
    if (!r) return p;
    std::string res = r;
    free(r);
    if (last == "." || last.empty()) return res;
    if (last == "..") return res.substr(0, res.rfind('/'));
    return res + "/" + last;
}

/// Refuse to touch what is out of the box
bool refuse(const char* name, int dirfd, const char* path)
{
    if (!armed || watching) return false;
    std::string where = locate(dirfd, path);
    if (where.size() > root.size() && where.compare(0, root.size() + 1, root + "/") == 0) return false;
    note(std::string(name) + " of " + where + ", which is somewhere else");
    errno = EPERM;
    return true;
}

}

// Interposed functions: they do the system calls on their own
extern "C" {

static bool writing(int flags) { return (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY; }

int openat(int dirfd, const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, int); va_end(ap);
    if (box::enter("open")) return -1;
    if (box::armed && strcmp(path, "/dev/null") && !(flags & O_PATH) && writing(flags) && box::refuse("open", dirfd, path)) return -1;
    return box::leave((int)syscall(SYS_openat, dirfd, path, flags, mode));
}
int open(const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, int); va_end(ap);
    return openat(AT_FDCWD, path, flags, mode);
}
int open64(const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, int); va_end(ap);
    return openat(AT_FDCWD, path, flags, mode);
}
int openat64(int dirfd, const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, int); va_end(ap);
    return openat(dirfd, path, flags, mode);
}
int creat(const char* path, mode_t mode) { return openat(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int close(int fd)
{
    bool fault = box::enter("close");
    int res = syscall(SYS_close, fd);
    if (box::armed && !box::watching && res == -1 && errno == EBADF) box::note(mc::fmt("close of file descriptor %d, that is not open", fd));
    if (fault) { errno = box::fault_errno; res = -1; }
    return box::leave(res);
}
ssize_t read(int fd, void* buf, size_t count)
{
    if (box::enter("read")) return -1;
    if (box::armed && __asan_region_is_poisoned(buf, count)) { box::note("read past the end of a buffer"); errno = EFAULT; return -1; }
    return box::leave((ssize_t)syscall(SYS_read, fd, buf, box::part(count)));
}
ssize_t write(int fd, const void* buf, size_t count)
{
    if (box::enter("write")) return -1;
    if (box::armed && __asan_region_is_poisoned((void*)buf, count)) { box::note("write from past the end of a buffer"); errno = EFAULT; return -1; }
    return box::leave((ssize_t)syscall(SYS_write, fd, buf, box::part(count)));
}
ssize_t pread(int fd, void* buf, size_t count, off_t off)
{
    if (box::enter("pread")) return -1;
    return box::leave((ssize_t)syscall(SYS_pread64, fd, buf, box::part(count), off));
}
ssize_t pwrite(int fd, const void* buf, size_t count, off_t off)
{
    if (box::enter("pwrite")) return -1;
    return box::leave((ssize_t)syscall(SYS_pwrite64, fd, buf, box::part(count), off));
}
int fstatat(int dirfd, const char* path, struct stat* st, int flags)
{
    if (box::enter("stat")) return -1;
    return box::leave((int)syscall(SYS_newfstatat, dirfd, path, st, flags));
}
int stat(const char* path, struct stat* st) { return fstatat(AT_FDCWD, path, st, 0); }
int lstat(const char* path, struct stat* st) { return fstatat(AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat* st) { return fstatat(fd, "", st, AT_EMPTY_PATH); }
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
    if (box::armed && !box::watching && (cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW || cmd == F_OFD_GETLK || cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK) && box::locking < box::lock_errors.size())
    {
        if (int e = box::lock_errors[box::locking++]) { errno = e; return -1; }
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
    return fcntl(fd, cmd, arg);
}
int fchmod(int fd, mode_t mode)
{
    if (box::enter("fchmod")) return -1;
    return box::leave((int)syscall(SYS_fchmod, fd, mode));
}
int renameat(int d1, const char* a, int d2, const char* b)
{
    if (box::enter("rename")) return -1;
    if (box::refuse("rename", d1, a) || box::refuse("rename", d2, b)) return -1;
    return box::leave((int)syscall(SYS_renameat2, d1, a, d2, b, 0));
}
int rename(const char* a, const char* b) { return renameat(AT_FDCWD, a, AT_FDCWD, b); }
int unlinkat(int dirfd, const char* path, int flags)
{
    if (box::enter("unlink")) return -1;
    if (box::refuse("removal", dirfd, path)) return -1;
    return box::leave((int)syscall(SYS_unlinkat, dirfd, path, flags));
}
int unlink(const char* path) { return unlinkat(AT_FDCWD, path, 0); }
int rmdir(const char* path) { return unlinkat(AT_FDCWD, path, AT_REMOVEDIR); }
int remove(const char* path)
{
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, path, &st, AT_SYMLINK_NOFOLLOW) == -1) return -1;
    return unlinkat(AT_FDCWD, path, S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0);
}
int truncate(const char* path, off_t len)
{
    if (box::enter("truncate")) return -1;
    if (box::refuse("truncation", AT_FDCWD, path)) return -1;
    return box::leave((int)syscall(SYS_truncate, path, len));
}
int ftruncate(int fd, off_t len)
{
    if (box::enter("ftruncate")) return -1;
    return box::leave((int)syscall(SYS_ftruncate, fd, len));
}
static int make_temp(char* templ, bool dir)
{
    if (box::enter(dir ? "mkdtemp" : "mkstemp")) return -1;
    size_t len = strlen(templ);
    if (len < 6 || strcmp(templ + len - 6, "XXXXXX")) { errno = EINVAL; return -1; }
    if (box::refuse("creation", AT_FDCWD, templ)) return -1;
    for (unsigned i = 0; i < 1000; ++i)
    {
        snprintf(templ + len - 6, 7, "t%05u", i);
        int res = dir ? syscall(SYS_mkdirat, AT_FDCWD, templ, 0700) : syscall(SYS_openat, AT_FDCWD, templ, O_RDWR | O_CREAT | O_EXCL, 0600);
        if (res != -1 || errno != EEXIST) return box::leave(res);
    }
    return -1;
}
int mkstemp(char* templ) { return make_temp(templ, false); }
int mkstemp64(char* templ) { return make_temp(templ, false); }
int mkostemp(char* templ, int) { return make_temp(templ, false); }
char* mkdtemp(char* templ) { return make_temp(templ, true) == -1 ? nullptr : templ; }
static void* real(const char* name) { return dlsym(RTLD_NEXT, name); }
DIR* fdopendir(int fd)
{
    static auto f = (DIR* (*)(int))real("fdopendir");
    if (box::enter("fdopendir")) return nullptr;
    return box::leave(f(fd));
}
struct dirent* readdir(DIR* d)
{
    static auto f = (struct dirent* (*)(DIR*))real("readdir");
    if (box::enter("readdir")) return nullptr;
    struct dirent* res = f(d);
    if (box::armed && !box::watching && res && box::unknown_types) res->d_type = DT_UNKNOWN;
    return box::leave(res);
}
void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off)
{
    if (fd >= 0 && box::enter("mmap")) return MAP_FAILED;
    void* res = (void*)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
    if (fd >= 0 && box::armed && !box::watching && res != MAP_FAILED) box::maps[res] = len;
    return res;
}
int munmap(void* addr, size_t len)
{
    if (box::armed && !box::watching)
    {
        auto i = box::maps.find(addr);
        if (i != box::maps.end() && i->second == len) box::maps.erase(i);
        else if (i != box::maps.end()) { box::note("only a part of a memory map is unmapped"); box::maps.erase(i); }
    }
    return syscall(SYS_munmap, addr, len);
}

}

namespace {

std::string slurp(const std::string& path)
{
    int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd == -1) return "(none)";
    std::string res;
    char buf[512];
    ssize_t n;
    while ((n = syscall(SYS_read, fd, buf, sizeof(buf))) > 0) res.append(buf, n);
    syscall(SYS_close, fd);
    return n == 0 ? "=" + res : "(dir)";
}

void put(const std::string& path, const std::string& data, mode_t mode = 0644)
{
    int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd == -1) mc::fail("harness: cannot create %s", path.c_str());
    if (syscall(SYS_write, fd, data.data(), data.size()) != (ssize_t)data.size()) mc::fail("harness: cannot write");
    syscall(SYS_fchmod, fd, mode);
    syscall(SYS_close, fd);
}

/// Everything that there is in a directory, recursively
std::string tree(const std::string& dir)
{
    std::string res;
    std::vector<std::string> names;
    for (auto& e: std::filesystem::directory_iterator(dir)) names.push_back(e.path().filename());
    std::sort(names.begin(), names.end());
    for (auto& n: names)
    {
        std::string p = dir + "/" + n;
        struct stat st;
        syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW);
        res += n;
        if (S_ISLNK(st.st_mode)) res += "@";
        else if (S_ISDIR(st.st_mode)) res += "/[" + tree(p) + "]";
        else if (S_ISREG(st.st_mode)) res += slurp(p);
        else res += "|";
        res += " ";
    }
    return res;
}

unsigned count_fds()
{
    unsigned res = 0;
    for (int i = 0; i < 64; ++i) if (fcntl(i, F_GETFD) != -1) ++res;
    return res;
}

/// A scratch directory, and an unprivileged user who can only use that one
struct Box
{
    std::string root;
    unsigned fds;
    mode_t mask;
    bool other = false;
    Box()
    {
        root = mc::fmt("%s/c35-%d", mc::scratch().c_str(), (int)getpid());
        std::filesystem::remove_all(root);
        std::filesystem::create_directories(root);
        // The other user has to reach it
        std::string parent = mc::scratch().substr(0, mc::scratch().rfind('/'));
        chmod(mc::scratch().c_str(), 0711);
        if (parent.find("verif-mc") != std::string::npos) chmod(parent.c_str(), 0711);
        chmod(root.c_str(), 0755);
        // Where there is no other user (in user namespaces), what is refused below is all that there is
        other = chown(root.c_str(), 65534, 65534) == 0;
        if (other && (setegid(65534) == -1 || seteuid(65534) == -1)) mc::fail("harness: cannot become another user");
        mask = ::umask(022);
        box::armed = false; box::root = root; box::calls = box::fault_at = 0; box::faulted = false; box::fault_name.clear(); box::sizes.clear(); box::io = 0;
        box::unknown_types = false; box::bad.clear(); box::watch = nullptr; box::maps.clear();
        fds = count_fds();
    }
    ~Box()
    {
        box::armed = false;
        box::watch = nullptr;
        box::sizes.clear();
        ::umask(mask);
        if (other && (seteuid(0) == -1 || setegid(0) == -1)) abort();
        std::error_code ec;
        std::filesystem::remove_all(root, ec);
    }
    std::string p(const std::string& name) const { return root + "/" + name; }

    /// Choose which call fails
    void fault(unsigned max, bool errors = true)
    {
        box::fault_at = mc::choose(max + 1, "failing call");
        box::fault_errno = EIO;
        if (box::fault_at && errors && mc::thorough()) box::fault_errno = mc::flag("error") ? ENOSPC : EIO;
    }

    /// Run code under test. Returns what it throws
    std::string run(std::function<void()> f)
    {
        std::string res;
        box::armed = true;
        try {
            f();
        } catch (std::exception& e) {
            box::armed = false;
            res = e.what();
            if (res.empty()) res = "(no message)";
        } catch (...) {
            box::armed = false;
            throw;
        }
        box::armed = false;
        mc::step(box::calls);
        if (!box::bad.empty()) mc::fail("%s%s", box::bad.c_str(), box::faulted ? (" after " + box::fault_name + " fails").c_str() : "");
        if (box::fault_at && !box::faulted) mc::prune();
        if (box::io < box::sizes.size()) mc::prune();
        return res;
    }
    std::string after() const { return box::faulted ? " when " + box::fault_name + " fails" : ""; }

    void no_leaks(unsigned open = 0)
    {
        unsigned n = count_fds();
        if (n != fds + open) mc::fail("%u file descriptors are left open instead of %u%s", n - fds, open, after().c_str());
        if (!box::maps.empty()) mc::fail("memory is left mapped%s", after().c_str());
    }
};

mode_t mode_of(const std::string& path)
{
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, path.c_str(), &st, AT_SYMLINK_NOFOLLOW) == -1) return 0;
    return st.st_mode & 07777;
}

/// How much of each read or write is done
void choose_sizes(unsigned max, unsigned total)
{
    for (unsigned i = 0; i < max; ++i)
    {
        unsigned s = mc::choose(total, "bytes done");   // 0: all of them
        if (!s) break;
        box::sizes.push_back(s);
    }
}

/// Writing a file in all ways, with anything failing
void write_any(bool atomic)
{
    static const std::vector<std::string> olds { "(none)", "=", "=old", "=a longer one", "(dir)" };
    static const std::vector<std::string> news { "", "n", "new1" };
    static const std::vector<mode_t> modes { 0777, 0644, 0600 }, masks { 022, 077, 0 };
    std::string old = mc::pick(olds, "old");
    std::string data = mc::pick(news, "new");
    // All permissions with a function, and all functions with the same permissions
    mode_t mode = 0644, mask = 022;
    unsigned how = mc::choose(atomic ? 5 : 6, "function");
    if (how == 0) { mode = mc::pick(modes, "mode"); mask = mc::pick(masks, "umask"); }
    Box b;
    if (data.size() > 1) choose_sizes(3, data.size());
    b.fault(8);
    std::string target = b.p("target");
    if (old[0] == '=') put(target, old.substr(1), 0640); else if (old == "(dir)") mkdir(target.c_str(), 0755);
    put(b.p("targetother"), "x");
    ::umask(mask);
    if (atomic) box::watch = [&] {
        std::string cur = slurp(target);
        if (cur != old && cur != "=" + data) box::note("the file has \"" + mc::esc(cur) + "\" while it is written");
        if (cur != old && mode_of(target) != (mode & ~mask)) box::note("the new file has the wrong permissions");
        if (cur == old && old[0] == '=' && cur != "=" + data && mode_of(target) != 0640) box::note("the permissions of the old file change");
    };
    std::string err = b.run([&] {
        if (atomic) switch (how)
        {
            case 0: sys::write_file_atomically(std::filesystem::path(target), data, mode); break;
            case 1: sys::write_file_atomically(target, data, mode); break;
            case 2: sys::write_file_atomically(target.c_str(), data, mode); break;
            case 3: sys::write_file_atomically(std::filesystem::path(target), data.data(), data.size(), mode); break;
            case 4: sys::write_file_atomically(target, data.data(), data.size(), mode); break;
        } else switch (how)
        {
            case 0: sys::write_file(std::filesystem::path(target), data, mode); break;
            case 1: sys::write_file(target, data, mode); break;
            case 2: sys::write_file(target.c_str(), data, mode); break;
            case 3: sys::write_file(std::filesystem::path(target), data.data(), data.size(), mode); break;
            case 4: sys::write_file(target, data.data(), data.size(), mode); break;
            case 5: sys::write_file(target.c_str(), data.data(), data.size(), mode); break;
        }
    });
    mode_t curmask = ::umask(mask);
    b.no_leaks();
    if (curmask != mask) mc::fail("the umask is changed%s", b.after().c_str());
    std::string cur = slurp(target);
    if (err.empty())
    {
        if (old == "(dir)") mc::fail("writing on a directory succeeds%s", b.after().c_str());
        if (box::faulted && (box::fault_name == "write" || box::fault_name == "close" || box::fault_name == "rename" || box::fault_name == "fchmod")) mc::fail("no error is reported%s", b.after().c_str());
        if (cur != "=" + data) mc::fail("the file has \"%s\" instead of \"%s\"%s", mc::esc(cur).c_str(), mc::esc(data).c_str(), b.after().c_str());
        mode_t expected = !atomic && old[0] == '=' ? 0640 : mode & ~mask;
        if (mode_of(target) != expected) mc::fail("the file has mode %o instead of %o", (unsigned)mode_of(target), (unsigned)expected);
    } else {
        if (!box::faulted && old != "(dir)") mc::fail("unexpected error: %s", err.c_str());
        if (err.find(target) == std::string::npos) mc::fail("the error does not name the file: %s", err.c_str());
        if (atomic && cur != old) mc::fail("the file is changed to \"%s\"%s", mc::esc(cur).c_str(), b.after().c_str());
    }
    std::string expected = cur == "(none)" ? "targetother=x " : cur == "(dir)" ? "target/[] targetother=x " : "target" + cur + " targetother=x ";
    if (box::faulted && box::fault_name == "unlink") ;   // The temporary file cannot be removed
    else if (tree(b.root) != expected) mc::fail("there is %sinstead of %s%s", tree(b.root).c_str(), expected.c_str(), b.after().c_str());
    mc::state(expected + (err.empty() ? "" : " error") + mc::fmt(" %u %o %o %u", how, (unsigned)mode, (unsigned)mask, box::fault_at));
    mc::outcome(box::fault_name + (err.empty() ? "ok" : "error"));
}

void write_atomic() { write_any(true); }
void write_plain() { write_any(false); }

void read_file()
{
    static const std::vector<unsigned> sizes { 0, 1, 2, 511, 4095, 4096, 4097, 8192, 10000, 100000 };
    unsigned kind = mc::choose(sizes.size() + 3, "file"), how = mc::choose(3, "function");
    Box b;
    b.fault(6);
    std::string data, path = b.p("file");
    if (kind < sizes.size())
    {
        for (unsigned i = 0; i < sizes[kind]; ++i) data += (char)(i * 7 + i / 256);
        put(path, data);
    } else if (kind == sizes.size() + 1) mkdir(path.c_str(), 0755);
    else if (kind == sizes.size() + 2) { if (!b.other) mc::prune(); put(path, "x", 0200); }
    std::string got = "?";
    std::string err = b.run([&] { got = how == 0 ? sys::read_file(std::filesystem::path(path)) : how == 1 ? sys::read_file(path) : sys::read_file(path.c_str()); });
    b.no_leaks();
    if (err.empty())
    {
        if (kind >= sizes.size()) mc::fail("reading what cannot be read succeeds%s", b.after().c_str());
        if (got != data) mc::fail("reading %zu bytes gives %zu%s", data.size(), got.size(), b.after().c_str());
    } else {
        if (!box::faulted && kind < sizes.size()) mc::fail("unexpected error: %s", err.c_str());
        if (err.find(path) == std::string::npos) mc::fail("the error does not name the file: %s", err.c_str());
    }
    mc::state(mc::fmt("%u %u %u", kind, how, box::fault_at));
}

/// Reading and writing with partial reads and writes
void partial()
{
    unsigned op = mc::choose(6, "operation"), have = mc::choose(mc::thorough() ? 7 : 5, "size"), count = mc::choose(mc::thorough() ? 6 : 5, "count");
    Box b;
    if (count) choose_sizes(mc::thorough() ? 4 : 3, std::min(count, 4u));
    b.fault(5, false);
    std::string path = b.p("file"), content("abcdefgh", have);
    put(path, content);
    sys::File f(std::filesystem::path(path), O_RDWR);
    std::vector<char> buf(count, '.');
    const std::string out("123456", count);
    bool full = false;
    size_t res = 999;
    std::string err = b.run([&] {
        switch (op)
        {
            case 0: full = f.read_all_or_retry(buf.data(), count); break;
            case 1: f.read_all_or_throw(buf.data(), count); break;
            case 2: res = f.read(buf.data(), count); break;
            case 3: f.write_all_or_retry(out.data(), out.size()); break;
            case 4: f.write_all_or_throw(out); break;
            case 5: f.write_all_or_retry(out); break;
        }
    });
    size_t first = box::sizes.empty() ? count : std::min<size_t>(box::sizes[0], count);
    std::string now = slurp(path).substr(1), got(buf.begin(), buf.end());
    auto changed = [&](size_t n) { std::string e = content; if (e.size() < n) e.resize(n); return e.replace(0, n, out, 0, n); };
    if (box::faulted)
    {
        // Something may have been read or written
        if (err.empty()) mc::fail("operation %u: no error is reported%s", op, b.after().c_str());
    } else switch (op)
    {
        case 0:
            if (count > have && have > 0) { if (err.empty()) mc::fail("reading %u of %u bytes does not fail", count, have); }
            else if (!err.empty()) mc::fail("reading %u of %u bytes fails: %s", count, have, err.c_str());
            else if (full != (count <= have)) mc::fail("reading %u of %u bytes returns %d", count, have, (int)full);
            else if (full && got != content.substr(0, count)) mc::fail("reading %u of %u bytes gives \"%s\"", count, have, got.c_str());
            break;
        case 1:
            if (err.empty() != (std::min<size_t>(first, have) == count)) mc::fail("reading %u of %u bytes in one go, of which %zu are given, %s", count, have, first, err.empty() ? "succeeds" : "fails");
            if (err.empty() && got != content.substr(0, count)) mc::fail("reading %u of %u bytes gives \"%s\"", count, have, got.c_str());
            break;
        case 2:
            if (!err.empty() || res != std::min<size_t>(first, have) || got.compare(0, res, content, 0, res) != 0 || got.substr(res) != std::string(count - res, '.')) mc::fail("reading %u of %u bytes, of which %zu are given, gives %zu: \"%s\"", count, have, first, res, got.c_str());
            break;
        case 3: case 5:
            if (!err.empty()) mc::fail("writing fails: %s", err.c_str());
            if (now != changed(count)) mc::fail("writing \"%s\" on \"%s\" gives \"%s\"", out.c_str(), content.c_str(), now.c_str());
            break;
        case 4:
            if (err.empty() != (first == count)) mc::fail("writing %u bytes in one go, of which %zu are done, %s", count, first, err.empty() ? "succeeds" : "fails");
            if (now != changed(first)) mc::fail("writing %zu of \"%s\" on \"%s\" gives \"%s\"", first, out.c_str(), content.c_str(), now.c_str());
            break;
    }
    if (!err.empty() && err.find(path) == std::string::npos) mc::fail("the error does not name the file: %s", err.c_str());
    mc::state(mc::fmt("%u %u %u %u ", op, have, count, box::fault_at) + now + got);
}

/// Histories of operations on a file, against a vector
void contents()
{
    Box b;
    std::string path = b.p("file"), model = "abc";
    put(path, model);
    size_t pos = 0;
    sys::File f(std::filesystem::path(path), O_RDWR);
    unsigned depth = mc::thorough() ? 4 : 3;
    for (unsigned d = 0; d < depth; ++d)
    {
        unsigned op = mc::choose(10, "operation");
        unsigned arg = op == 7 || op == 9 ? 0 : mc::choose(3, "argument");
        mc::trace("operation %u %u", op, arg);
        mc::step();
        char buf[8] = "-------";
        auto store = [&](size_t at, const std::string& s) { if (model.size() < at + s.size()) model.resize(at + s.size()); model.replace(at, s.size(), s); };
        std::string s(arg, (char)('0' + d));
        switch (op)
        {
            case 0: MC_CHECK(f.write(s.data(), s.size()) == arg, "write returns another size"); if (arg) store(pos, s); pos += arg; break;
            case 1: MC_CHECK(f.pwrite(s, 2) == arg, "pwrite returns another size"); if (arg) store(2, s); break;
            case 2: {
                size_t n = f.read(buf, arg), e = pos < model.size() ? std::min<size_t>(arg, model.size() - pos) : 0;
                MC_CHECK(n == e && std::string(buf, n) == model.substr(e ? pos : 0, e), "read gives %zu bytes instead of %zu", n, e);
                pos += n;
                break;
            }
            case 3: {
                size_t n = f.pread(buf, 3, arg), e = arg < model.size() ? std::min<size_t>(3, model.size() - arg) : 0;
                MC_CHECK(n == e && std::string(buf, n) == model.substr(e ? arg : 0, e), "pread gives %zu bytes instead of %zu", n, e);
                break;
            }
            case 4: MC_CHECK(f.lseek(arg) == (off_t)arg, "lseek"); pos = arg; break;
            case 5: MC_CHECK(f.lseek(arg, SEEK_CUR) == (off_t)(pos + arg), "lseek"); pos += arg; break;
            case 6: MC_CHECK(f.lseek(arg, SEEK_END) == (off_t)(model.size() + arg), "lseek"); pos = model.size() + arg; break;
            case 7: {
                std::string err;
                try { f.lseek(-1); } catch (std::system_error& e) { err = e.what(); MC_CHECK(e.code().value() == EINVAL, "wrong error code"); }
                MC_CHECK(err.find(path) != std::string::npos, "seeking before the start does not fail, or does not name the file: %s", err.c_str());
                break;
            }
            case 8: f.ftruncate(arg * 2); model.resize(arg * 2); break;
            case 9:
                if (model.empty()) break;
                {
                    sys::MMap m = f.mmap(model.size(), PROT_READ, MAP_SHARED);
                    MC_CHECK(m.size() == model.size() && std::string((const char*)m, m.size()) == model, "mmap gives another content");
                }
                break;
        }
        struct stat st;
        f.fstat(st);
        MC_CHECK(st.st_size == (off_t)model.size() && sys::size(path) == model.size(), "the size is %zu instead of %zu", (size_t)st.st_size, model.size());
        MC_CHECK(slurp(path) == "=" + model, "the file has \"%s\" instead of \"%s\"", mc::esc(slurp(path)).c_str(), mc::esc(model).c_str());
        mc::state(mc::fmt("%zu ", pos) + model);
    }
}

/// Histories of opening, closing, moving and destroying handles: every descriptor is closed once
void handles()
{
    static const unsigned N = 2;
    Box b;
    for (unsigned i = 0; i < 3; ++i) put(b.p(mc::fmt("f%u", i)), "x");
    struct Model { bool exists = false; int file = -1; int name = -1; } model[N];
    std::unique_ptr<sys::File> slot[N];
    unsigned depth = mc::thorough() ? 6 : 5;
    unsigned open = 0, faults = 0;
    for (unsigned d = 0; d < depth; ++d)
    {
        unsigned i = mc::choose(N, "slot"), j = 1 - i;
        unsigned op = mc::choose(8, "operation");
        bool failing = false;
        std::string what;
        // Only one system call can fail
        box::calls = 0; box::fault_at = 0; box::faulted = false;
        auto may_fail = [&] { if (faults || !(model[i].file >= 0)) return; failing = mc::flag("close fails"); if (failing) { ++faults; box::fault_at = 1; box::fault_errno = EIO; } };
        std::string err;
        mc::trace("operation %u on %u", op, i);
        mc::step();
        switch (op)
        {
            case 0: // Unopened
                err = b.run([&] { slot[i].reset(); slot[i].reset(new sys::File(std::filesystem::path(b.p(mc::fmt("f%u", i))))); });
                if (model[i].file >= 0) --open;
                model[i].exists = true; model[i].file = -1; model[i].name = i;
                break;
            case 1: // Open, possibly again
                if (!model[i].exists || model[i].name < 0) mc::prune();
                may_fail();
                err = b.run([&] { slot[i]->open(O_RDONLY); });
                if (failing) { --open; model[i].file = -1; if (err.empty()) mc::fail("open does not report an error closing the previous file"); err.clear(); break; }
                if (model[i].file < 0) ++open;
                model[i].file = model[i].name;
                break;
            case 2:
                if (!model[i].exists) mc::prune();
                may_fail();
                err = b.run([&] { slot[i]->close(); });
                if (model[i].file >= 0) --open;
                model[i].file = -1;
                if (failing) { if (err.empty()) mc::fail("close does not report an error"); err.clear(); }
                break;
            case 3: // Move construct
                if (!model[j].exists) mc::prune();
                err = b.run([&] { slot[i].reset(); slot[i].reset(new sys::File(std::move(*slot[j]))); });
                if (model[i].file >= 0) --open;
                model[i] = model[j];
                model[j].file = -1; model[j].name = -1;
                break;
            case 4: // Move assign
                if (!model[i].exists || !model[j].exists) mc::prune();
                may_fail();
                err = b.run([&] { *slot[i] = std::move(*slot[j]); });
                if (model[i].file >= 0) --open;
                if (failing) { model[i].file = -1; if (err.empty()) mc::fail("assignment does not report an error closing the previous file"); err.clear(); break; }
                model[i] = model[j];
                model[j].file = -1; model[j].name = -1;
                break;
            case 5: { // To itself
                if (!model[i].exists) mc::prune();
                sys::File& self = *slot[i];
                err = b.run([&] { *slot[i] = std::move(self); });
                break;
            }
            case 6:
                if (!model[i].exists) mc::prune();
                may_fail();
                err = b.run([&] { slot[i].reset(); });
                if (model[i].file >= 0) --open;
                model[i] = Model();
                break;
            case 7: { // A file that is not there
                if (model[i].exists) mc::prune();
                bool res = true;
                err = b.run([&] { slot[i].reset(new sys::File(std::filesystem::path(b.p("missing")))); res = slot[i]->open_ifexists(O_RDONLY); });
                if (res) mc::fail("open_ifexists of a missing file returns true");
                model[i].exists = true; model[i].file = model[i].name = -1;
                break;
            }
        }
        if (!err.empty()) mc::fail("unexpected error: %s", err.c_str());
        for (unsigned k = 0; k < N; ++k)
        {
            if (model[k].exists != (bool)slot[k]) mc::fail("harness: wrong model");
            if (!slot[k]) continue;
            if (slot[k]->is_open() != (model[k].file >= 0) || ((int)*slot[k] != -1) != (model[k].file >= 0)) mc::fail("handle %u is %s", k, slot[k]->is_open() ? "open" : "closed");
            if (model[k].file >= 0)
            {
                struct stat st;
                slot[k]->fstat(st);
                if (st.st_ino != sys::inode(b.p(mc::fmt("f%d", model[k].file)))) mc::fail("handle %u refers to another file", k);
            }
            if (model[k].name >= 0 && slot[k]->path() != b.p(mc::fmt("f%d", model[k].name))) mc::fail("handle %u is named %s", k, slot[k]->path().c_str());
        }
        box::fault_at = 0;
        b.no_leaks(open);
        mc::state(mc::fmt("%d %d %d %d %d %d", model[0].exists, model[0].file, model[0].name, model[1].exists, model[1].file, model[1].name));
    }
    for (auto& s: slot) b.run([&] { s.reset(); });
    b.no_leaks();
}

/// Handles opened again and again, while the file comes and goes
void reopened()
{
    Box b;
    std::string name = b.p("f");
    unsigned depth = mc::thorough() ? 5 : 4;
    bool dir = mc::flag("directory");
    std::unique_ptr<sys::File> file;
    std::unique_ptr<sys::Path> path;
    auto there = [&] { struct stat st; return ::stat(name.c_str(), &st) == 0; };
    auto create = [&] { if (dir) ::mkdir(name.c_str(), 0777); else put(name, "x"); };
    create();
    if (dir) path.reset(new sys::Path(std::filesystem::path(name)));
    else file.reset(new sys::File(std::filesystem::path(name)));
    bool open = dir;
    ino_t at = 0;
    if (dir) { struct stat st; path->fstat(st); at = st.st_ino; }
    for (unsigned d = 0; d < depth; ++d)
    {
        mc::step();
        std::string err;
        bool res = true;
        switch (unsigned op = mc::choose(4, "operation"))
        {
            case 0: case 1: {
                if (op == 1 && dir) mc::prune();
                err = b.run([&] { if (dir) path->open(O_RDONLY); else if (op == 0) file->open(O_RDONLY); else res = file->open_ifexists(O_RDONLY); });
                bool exists = there();
                if (op == 0 && exists == !err.empty()) mc::fail("open of a file that is %s: %s", exists ? "there" : "missing", err.empty() ? "no error" : err.c_str());
                if (op == 1 && (!err.empty() || res != exists)) mc::fail("open_ifexists of a file that is %s returns %d %s", exists ? "there" : "missing", res, err.c_str());
                open = exists;
                if (exists) at = sys::inode(name);
                break;
            }
            case 2: err = b.run([&] { if (dir) path->close(); else file->close(); }); if (!err.empty()) mc::fail("close: %s", err.c_str()); open = false; break;
            case 3: if (there()) { if (dir) ::rmdir(name.c_str()); else ::unlink(name.c_str()); } else create(); break;
        }
        bool is = dir ? path->is_open() : file->is_open();
        if (is != open) mc::fail("the handle is %s", is ? "open" : "closed");
        if (open) { struct stat st; if (dir) path->fstat(st); else file->fstat(st); if (st.st_ino != at) mc::fail("the handle refers to another file"); }
        b.no_leaks(open);
        mc::state(mc::fmt("%d %d %d", dir, open, there()));
    }
    path.reset(); file.reset();
    b.no_leaks();
}

/// Histories of memory maps
void maps()
{
    static const unsigned N = 2;
    Box b;
    put(b.p("f"), std::string(5000, 'a') + std::string(5000, 'b'));
    sys::File f(std::filesystem::path(b.p("f")), O_RDONLY);
    std::unique_ptr<sys::MMap> slot[N];
    int model[N] = { -2, -2 };  // -2: no object, -1: moved, otherwise size
    unsigned depth = mc::thorough() ? 6 : 5;
    for (unsigned d = 0; d < depth; ++d)
    {
        unsigned i = mc::choose(N, "slot"), j = 1 - i;
        unsigned op = mc::choose(6, "operation");
        std::string err;
        mc::trace("operation %u on %u", op, i);
        mc::step();
        switch (op)
        {
            case 0: err = b.run([&] { slot[i].reset(new sys::MMap(f.mmap(5000 + i * 5000, PROT_READ, MAP_PRIVATE))); }); model[i] = 5000 + i * 5000; break;
            case 1: if (model[j] == -2) mc::prune(); err = b.run([&] { slot[i].reset(); slot[i].reset(new sys::MMap(std::move(*slot[j]))); }); model[i] = model[j]; model[j] = -1; break;
            case 2: if (model[i] == -2 || model[j] == -2) mc::prune(); err = b.run([&] { *slot[i] = std::move(*slot[j]); }); model[i] = model[j]; model[j] = -1; break;
            case 3: { if (model[i] == -2) mc::prune(); sys::MMap& self = *slot[i]; err = b.run([&] { *slot[i] = std::move(self); }); break; }
            case 4: if (model[i] < 0) mc::prune(); err = b.run([&] { slot[i]->munmap(); }); model[i] = -1; break;
            case 5: if (model[i] == -2) mc::prune(); err = b.run([&] { slot[i].reset(); }); model[i] = -2; break;
        }
        if (!err.empty()) mc::fail("unexpected error: %s", err.c_str());
        size_t live = 0;
        for (unsigned k = 0; k < N; ++k) if (model[k] >= 0)
        {
            ++live;
            const char* p = *slot[k];
            if (slot[k]->size() != (size_t)model[k]) mc::fail("map %u has size %zu", k, slot[k]->size());
            if (p[0] != 'a' || p[4999] != 'a' || p[model[k] - 1] != (model[k] > 5000 ? 'b' : 'a')) mc::fail("map %u has something else", k);
        }
        if (box::maps.size() != live) mc::fail("%zu maps are there instead of %zu", box::maps.size(), live);
        mc::state(mc::fmt("%d %d", model[0], model[1]));
    }
    for (auto& s: slot) b.run([&] { s.reset(); });
    if (!box::maps.empty()) mc::fail("memory is left mapped");
}

enum Kind { FILE_, DIR_, LINK_DIR, LINK_FILE, LINK_NONE, FIFO_, SOCK_, KINDS };
const char* kind_names[] = { "file", "directory", "link to a directory", "link to a file", "dangling link", "fifo", "socket" };

void make(const Box& b, const std::string& path, unsigned kind)
{
    switch (kind)
    {
        case FILE_: put(path, "data"); break;
        case DIR_: mkdir(path.c_str(), 0755); break;
        case LINK_DIR: symlink(b.p("outside").c_str(), path.c_str()); break;
        case LINK_FILE: symlink(b.p("outside/precious").c_str(), path.c_str()); break;
        case LINK_NONE: symlink("nothing", path.c_str()); break;
        case FIFO_: mkfifo(path.c_str(), 0644); break;
        case SOCK_: mknod(path.c_str(), S_IFSOCK | 0644, 0); break;
    }
}

void outside(const Box& b)
{
    mkdir(b.p("outside").c_str(), 0755);
    mkdir(b.p("outside/sub").c_str(), 0755);
    put(b.p("outside/precious"), "gold");
    put(b.p("outside/sub/more"), "silver");
}
const char* OUTSIDE = "precious=gold sub/[more=silver ] ";

/// Looking at directories
void directories()
{
    Box b;
    outside(b);
    std::string dir = b.p("dir");
    mkdir(dir.c_str(), 0755);
    unsigned n = mc::choose(mc::thorough() ? 5 : 4, "entries");
    std::map<std::string, unsigned> expected;
    unsigned prev = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = prev + mc::choose(KINDS - prev, "kind");
        prev = k;
        std::string name = mc::fmt("e%u", i);
        make(b, dir + "/" + name, k);
        expected[name] = k;
    }
    box::unknown_types = mc::flag("types are not known");
    bool move = mc::flag("move iterators");
    b.fault(move ? 0 : 8 + 2 * n);
    std::map<std::string, unsigned> got;
    std::string bits;
    bool dot = false, dotdot = false;
    std::unique_ptr<sys::Path> path;
    std::string err = b.run([&] {
        path.reset(new sys::Path(std::filesystem::path(dir)));
        auto visit = [&](sys::Path::iterator& i) {
            std::string name = i->d_name;
            if (name == ".") { dot = true; if (!i.isdir()) box::note(". is not a directory"); return; }
            if (name == "..") { dotdot = true; if (!i.isdir()) box::note(".. is not a directory"); return; }
            if (name != (*i).d_name || got.count(name) || !expected.count(name)) { box::note("wrong entry " + name); return; }
            unsigned k = expected[name];
            got[name] = k;
            bool is[7] = { i.isreg(), i.isdir(), i.islnk(), i.isfifo(), i.issock(), i.isblk(), i.ischr() };
            unsigned want = k == FILE_ ? 0 : k == DIR_ ? 1 : k == FIFO_ ? 3 : k == SOCK_ ? 4 : 2;
            for (unsigned t = 0; t < 7; ++t) if (is[t] != (t == want)) { box::note(mc::fmt("a %s is%s of type %u%s", kind_names[k], is[t] ? "" : " not", t, box::unknown_types ? " when types are not known" : "")); }
        };
        if (move)
        {
            sys::Path::iterator first = path->begin();
            sys::Path::iterator i = std::move(first);
            for ( ; i != path->end(); ++i) visit(i);
        } else {
            sys::Path::iterator i = path->begin();
            for ( ; i != path->end(); ++i) { if (i == path->end()) box::note("iterators do not compare well"); visit(i); }
            if (!(i == path->end())) box::note("iterators do not compare well at the end");
        }
    });
    path.reset();
    b.no_leaks();
    if (err.empty())
    {
        if (box::faulted && box::fault_name != "close") mc::fail("no error is reported%s", b.after().c_str());
        if (got != expected || !dot || !dotdot) mc::fail("%zu entries of %zu are there%s", got.size(), expected.size(), b.after().c_str());
    } else if (!box::faulted) mc::fail("unexpected error: %s", err.c_str());
    std::string st = mc::fmt("%d %d %u ", box::unknown_types, move, box::fault_at);
    for (auto& i: expected) st += (char)('a' + i.second);
    mc::state(st);
}

/// Removing trees: all of it, and nothing else
void rmtree()
{
    Box b;
    outside(b);
    std::string dir = b.p("dir");
    mkdir(dir.c_str(), 0755);
    std::vector<std::string> dirs { dir };
    unsigned n = mc::choose(mc::thorough() ? 5 : 4, "nodes");
    std::string st;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned parent = mc::choose(dirs.size(), "parent"), k = mc::choose(KINDS - 1, "kind");
        std::string path = dirs[parent] + mc::fmt("/%s%u", i % 2 ? ".n" : "n", i);
        make(b, path, k);
        st += mc::fmt("%u/%u ", parent, k);
        if (k == DIR_) dirs.push_back(path);
    }
    unsigned how = mc::choose(5, "function");
    box::unknown_types = mc::flag("types are not known");
    // Many faults are equivalent when nothing special is there
    b.fault(n > 2 && !mc::thorough() ? 0 : 6 + 9 * n);
    bool res = true;
    std::string err = b.run([&] {
        switch (how)
        {
            case 0: sys::rmtree(dir); break;
            case 1: res = sys::rmtree_ifexists(std::filesystem::path(dir)); break;
            case 2: res = sys::rmtree_ifexists(dir); break;
            case 3: { sys::Path p{std::filesystem::path(dir)}; p.rmtree(); break; }
            case 4: res = sys::rmtree_ifexists(dir.c_str()); break;
        }
    });
    b.no_leaks();
    if (!res) mc::fail("rmtree_ifexists says that the directory does not exist%s", b.after().c_str());
    if (tree(b.p("outside")) != OUTSIDE) mc::fail("something is removed outside of the directory: there is %s%s", tree(b.p("outside")).c_str(), b.after().c_str());
    struct stat s;
    bool there = syscall(SYS_newfstatat, AT_FDCWD, dir.c_str(), &s, AT_SYMLINK_NOFOLLOW) != -1;
    if (err.empty() && there) mc::fail("after removing it, the directory has %s%s", tree(dir).c_str(), b.after().c_str());
    if (!err.empty() && !box::faulted) mc::fail("unexpected error: %s", err.c_str());
    mc::state(st + mc::fmt("%u %d %u", how, box::unknown_types, box::fault_at));
    mc::outcome(err.empty() ? "removed" : box::fault_name);
}

/// Types and properties of files
void stats()
{
    Box b;
    outside(b);
    unsigned kind = mc::choose(KINDS + 2, "kind"), fn = mc::choose(18, "function");
    std::string path = b.p("x");
    if (kind < KINDS) make(b, path, kind);
    else if (kind == KINDS + 1) path = b.p("outside/precious/x");
    bool follow_missing = kind == LINK_NONE || kind == KINDS;       // Not there, following links
    bool error = kind == KINDS + 1;                                 // Other errors
    struct stat st;
    bool have = syscall(SYS_newfstatat, AT_FDCWD, path.c_str(), &st, 0) != -1;
    if (have) { timespec ts[2] { { 1000, 0 }, { 123456, 0 } }; utimensat(AT_FDCWD, path.c_str(), ts, 0); }
    if (kind == LINK_NONE && fn != 10) syscall(SYS_newfstatat, AT_FDCWD, path.c_str(), &st, AT_SYMLINK_NOFOLLOW);
    b.fault(2);
    long long got = -1;
    std::filesystem::path fp(path);
    std::string err = b.run([&] {
        struct stat r;
        std::unique_ptr<struct stat> u;
        switch (fn)
        {
            case 0: u = sys::stat(path); got = u ? (long long)u->st_ino : -2; break;
            case 1: u = sys::stat(path.c_str()); got = u ? (long long)u->st_ino : -2; break;
            case 2: u = sys::stat(fp); got = u ? (long long)u->st_ino : -2; break;
            case 3: sys::stat(path, r); got = r.st_ino; break;
            case 4: sys::stat(path.c_str(), r); got = r.st_ino; break;
            case 5: sys::stat(fp, r); got = r.st_ino; break;
            case 6: got = sys::isdir(path); break;
            case 7: got = sys::isreg(path); break;
            case 8: got = sys::isfifo(path); break;
            case 9: got = sys::issock(path); break;
            case 10: got = sys::islnk(path); break;
            case 11: got = sys::isblk(path) || sys::ischr(path); break;
            case 12: got = sys::timestamp(fp); break;
            case 13: got = sys::timestamp(fp, 77); break;
            case 14: got = sys::size(fp); break;
            case 15: got = sys::size(fp, 78); break;
            case 16: got = sys::inode(fp); break;
            case 17: got = sys::inode(fp, 79); break;
        }
    });
    bool strict = (fn >= 3 && fn <= 5) || fn == 12 || fn == 14 || fn == 16;
    bool is_link = kind == LINK_DIR || kind == LINK_FILE || kind == LINK_NONE;
    bool fails = error || (strict && follow_missing);
    if (box::faulted) { if (err.empty()) mc::fail("function %u: no error is reported%s", fn, b.after().c_str()); }
    else if (fails != !err.empty()) mc::fail("function %u on a %s %s %s", fn, kind < KINDS ? kind_names[kind] : "missing file", fails ? "does not fail" : "fails:", err.c_str());
    if (!err.empty()) { if (err.find(path) == std::string::npos) mc::fail("the error does not name the file: %s", err.c_str()); }
    else
    {
        long long e = 0;
        mode_t m = have ? st.st_mode : 0;
        if (fn <= 5) e = have ? (long long)st.st_ino : -2;
        else if (fn == 6) e = S_ISDIR(m); else if (fn == 7) e = S_ISREG(m); else if (fn == 8) e = S_ISFIFO(m); else if (fn == 9) e = S_ISSOCK(m);
        else if (fn == 10) e = is_link; else if (fn == 11) e = 0;
        else if (fn <= 13) e = have ? 123456 : 77; else if (fn <= 15) e = have ? st.st_size : 78; else e = have ? st.st_ino : 79;
        if (got != e) mc::fail("function %u on a %s gives %lld instead of %lld", fn, kind < KINDS ? kind_names[kind] : "missing file", got, e);
    }
    mc::state(kind * 64 + fn * 3 + box::fault_at);
}

/// Creating, renaming and removing
void names()
{
    Box b;
    static const char* states[] = { "missing", "file", "empty directory", "directory" };
    unsigned sa = mc::choose(4, "a"), sb = mc::choose(4, "b"), fn = mc::choose(10, "function");
    auto create = [&](const char* name, unsigned s) {
        if (s == 1) put(b.p(name), name); else if (s >= 2) { mkdir(b.p(name).c_str(), 0755); if (s == 3) put(b.p(name) + "/in", "x"); }
    };
    create("a", sa); create("b", sb);
    if (sb && fn != 1 && fn != 8) mc::prune();
    b.fault(2);
    if (box::fault_at && fn >= 5 && fn <= 6) mc::prune();       // std::filesystem
    std::string before = tree(b.root), a = b.p("a"), bb = b.p("b");
    int res = -1;
    std::string err = b.run([&] {
        switch (fn)
        {
            case 0: res = sys::unlink_ifexists(a); break;
            case 1: res = sys::rename_ifexists(a, bb); break;
            case 2: sys::unlink(a); break;
            case 3: sys::rmdir(a); break;
            case 4: res = sys::rmtree_ifexists(std::filesystem::path(a)); break;
            case 5: res = sys::mkdir_ifmissing(a); break;
            case 6: res = sys::makedirs(a + "/x/y"); break;
            case 7: res = sys::unlink_ifexists(a.c_str()); break;
            case 8: sys::rename(a, bb); break;
            case 9: res = sys::unlink_ifexists(std::filesystem::path(a)); break;
        }
    });
    std::string now = tree(b.root), expected = before;
    bool fails = false;
    int eres = -1;
    std::string A = sa == 0 ? "" : sa == 1 ? "a=a " : sa == 2 ? "a/[] " : "a/[in=x ] ";
    switch (fn)
    {
        case 0: case 7: case 9: if (sa >= 2) fails = true; else { eres = sa; expected = ""; } break;
        case 2: if (sa != 1) fails = true; else expected = ""; break;
        case 3: if (sa != 2) fails = true; else expected = ""; break;
        case 4: if (sa == 1) fails = true; else { eres = sa != 0; expected = ""; } break;
        case 5: if (sa == 1) fails = true; else { eres = sa == 0; if (sa == 0) expected = "a/[] "; } break;
        case 6: if (sa == 1) fails = true; else { eres = 1; expected = sa == 3 ? "a/[in=x x/[y/[] ] ] " : "a/[x/[y/[] ] ] "; } break;
        case 1: case 8:
            if (sa == 0) { if (fn == 1) eres = 0; else fails = true; }
            else if (sb == 3 || (sb == 2 && sa == 1) || (sb == 1 && sa >= 2)) fails = true;
            else { if (fn == 1) eres = 1; expected = A; expected[0] = 'b'; }
            break;
    }
    b.no_leaks();
    if (box::faulted)
    {
        if (err.empty() && now != expected) mc::fail("function %u on a %s: no error is reported%s", fn, states[sa], b.after().c_str());
        if (err.empty() && box::fault_name != "close" && res != eres) mc::fail("function %u on a %s returns %d%s", fn, states[sa], res, b.after().c_str());
    } else {
        if (fails != !err.empty()) mc::fail("function %u on a %s and a %s %s%s", fn, states[sa], states[sb], fails ? "succeeds" : "fails: ", err.c_str());
        if (fails) expected = before;
        else if (res != eres) mc::fail("function %u on a %s and a %s returns %d instead of %d", fn, states[sa], states[sb], res, eres);
        if (now != expected) mc::fail("function %u on a %s and a %s leaves %s instead of %s", fn, states[sa], states[sb], now.c_str(), expected.c_str());
    }
    if (!err.empty() && err.find(a) == std::string::npos) mc::fail("the error does not name the file: %s", err.c_str());
    mc::state(mc::fmt("%u %u %u %u", sa, sb, fn, box::fault_at));
}

/// Temporary files and directories
void temporary()
{
    Box b;
    unsigned how = mc::choose(4, "kind"), content = mc::choose(3, "content"), end = mc::choose(4, "end");
    bool dir = how >= 2, prefix_c = how % 2;
    put(b.p("tmpother"), "x");
    b.fault(dir ? 16 : 5);
    std::string prefix = b.p("tmp"), name, inside;
    std::string err = b.run([&] {
        if (!dir)
        {
            std::unique_ptr<sys::Tempfile> f(prefix_c ? new sys::Tempfile(prefix.c_str()) : new sys::Tempfile(std::filesystem::path(prefix)));
            name = f->path();
            if (content) f->write_all_or_retry("abcd", content);
            if (end == 1) f->unlink_on_exit(false);
            if (end == 2) f->unlink();
            if (end == 3) f->close();
            box::watching = true; inside = tree(b.root); box::watching = false;
        } else {
            std::unique_ptr<sys::Tempdir> d(prefix_c ? new sys::Tempdir(prefix.c_str()) : new sys::Tempdir(std::filesystem::path(prefix)));
            name = d->path();
            if (content) { box::watching = true; put(name + "/f", "y"); if (content > 1) { mkdir((name + "/d").c_str(), 0755); put(name + "/d/g", "z"); } box::watching = false; }
            if (end == 1) d->rmtree_on_exit(false);
            if (end == 2) d->rmtree();
            box::watching = true; inside = tree(b.root); box::watching = false;
        }
    });
    b.no_leaks();
    std::string now = tree(b.root);
    const std::string other = "tmpother=x ";
    if (!err.empty() && !box::faulted) mc::fail("unexpected error: %s", err.c_str());
    if (err.empty())
    {
        std::string base = name.substr(name.rfind('/') + 1);
        if (name.compare(0, prefix.size(), prefix) != 0) mc::fail("the temporary is %s", name.c_str());
        std::string e = dir ? base + "/[" + (content > 1 ? "d/[g=z ] " : "") + (content ? "f=y " : "") + "] " : base + "=" + std::string("abcd", content) + " ";
        auto sorted = [&](const std::string& e) { return "tmpother" < base ? other + e : e + other; };
        if (!box::faulted)
        {
            if (inside != (end == 2 ? other : sorted(e))) mc::fail("while it is used there is %s", inside.c_str());
            if (now != (end == 1 ? sorted(e) : other)) mc::fail("at the end there is %s", now.c_str());
        } else if (box::fault_name != "unlink" && box::fault_name != "close" && !dir && end != 1 && now != other) mc::fail("at the end there is %s%s", now.c_str(), b.after().c_str());
    }
    if (now.find(other) == std::string::npos) mc::fail("other files are removed%s", b.after().c_str());
    mc::state(mc::fmt("%u %u %u %u", how, content, end, box::fault_at));
}

/// Relative to a directory
void relative()
{
    Box b;
    outside(b);
    unsigned kind = mc::choose(KINDS + 1, "kind"), fn = mc::choose(13, "function");
    mkdir(b.p("dir").c_str(), 0755);
    std::string path = b.p("dir/x");
    if (kind < KINDS) make(b, path, kind);
    if (kind == FIFO_ && fn <= 1) mc::prune();      // Would wait
    sys::Path d(std::filesystem::path(b.p("dir")));
    struct stat want, lwant;
    bool there = syscall(SYS_newfstatat, AT_FDCWD, path.c_str(), &want, 0) != -1, lthere = syscall(SYS_newfstatat, AT_FDCWD, path.c_str(), &lwant, AT_SYMLINK_NOFOLLOW) != -1;
    b.fault(1);
    int res = -5, fd = -1;
    struct stat st;
    std::string link;
    std::string err = b.run([&] {
        switch (fn)
        {
            case 0: fd = d.openat("x", O_RDONLY); break;
            case 1: fd = d.openat_ifexists("x", O_RDONLY); break;
            case 2: res = d.faccessat("x", F_OK); break;
            case 3: d.fstatat("x", st); break;
            case 4: res = d.fstatat_ifexists("x", st); break;
            case 5: d.lstatat("x", st); break;
            case 6: res = d.lstatat_ifexists("x", st); break;
            case 7: d.unlinkat("x"); break;
            case 8: d.mkdirat("x"); break;
            case 9: d.rmdirat("x"); break;
            case 10: d.symlinkat("somewhere", "x"); break;
            case 11: link = d.readlinkat("x"); break;
            case 12: { sys::Path sub(d, "x"); sub.fstat(st); if (sub.path() != path) box::note("wrong path"); break; }
        }
    });
    if (box::faulted) { if (err.empty()) mc::fail("function %u: no error is reported%s", fn, b.after().c_str()); mc::state(fn); return; }
    bool link_k = kind == LINK_DIR || kind == LINK_FILE || kind == LINK_NONE;
    bool fails = false;
    switch (fn)
    {
        case 0: fails = !there || kind == SOCK_; break;
        case 1: fails = kind == SOCK_; break;
        case 3: case 12: fails = !there; break;
        case 5: fails = !lthere; break;
        case 7: fails = !lthere || kind == DIR_; break;
        case 8: case 10: fails = lthere; break;
        case 9: fails = kind != DIR_; break;
        case 11: fails = !link_k; break;
    }
    std::string what = mc::fmt("function %u on a %s", fn, kind < KINDS ? kind_names[kind] : "missing file");
    if (fails != !err.empty()) mc::fail("%s %s %s", what.c_str(), fails ? "succeeds" : "fails:", err.c_str());
    if (fails) { if (err.find(b.p("dir")) == std::string::npos) mc::fail("%s: the error does not name the directory: %s", what.c_str(), err.c_str()); }
    else
    {
        struct stat now;
        bool nthere = syscall(SYS_newfstatat, AT_FDCWD, path.c_str(), &now, AT_SYMLINK_NOFOLLOW) != -1;
        if (fn <= 1 && (fd != -1) != there) mc::fail("%s gives %d", what.c_str(), fd);
        if (fd != -1) { syscall(SYS_newfstatat, fd, "", &st, AT_EMPTY_PATH); if (st.st_ino != want.st_ino) mc::fail("%s opens something else", what.c_str()); syscall(SYS_close, fd); }
        if (fn == 2 && res != (int)there) mc::fail("%s gives %d", what.c_str(), res);
        if (fn == 4 && res != (int)there) mc::fail("%s gives %d", what.c_str(), res);
        if (fn == 6 && res != (int)lthere) mc::fail("%s gives %d", what.c_str(), res);
        if ((fn == 3 || fn == 4 || fn == 12) && there && st.st_ino != want.st_ino) mc::fail("%s looks at something else", what.c_str());
        if ((fn == 5 || fn == 6) && lthere && st.st_ino != lwant.st_ino) mc::fail("%s looks at something else", what.c_str());
        if ((fn == 7 || fn == 9) && nthere) mc::fail("%s does not remove it", what.c_str());
        if (fn == 8 && (!nthere || !S_ISDIR(now.st_mode))) mc::fail("%s does not create it", what.c_str());
        if (fn == 10 && slurp(path) != "(none)") mc::fail("%s does not create it", what.c_str());
        if (fn == 10 && d.readlinkat("x") != "somewhere") mc::fail("%s creates another link", what.c_str());
        if (fn == 11 && link != (kind == LINK_DIR ? b.p("outside") : kind == LINK_FILE ? b.p("outside/precious") : "nothing")) mc::fail("%s gives %s", what.c_str(), link.c_str());
    }
    if (tree(b.p("outside")) != OUTSIDE) mc::fail("%s changes other files", what.c_str());
    b.no_leaks(1);
    mc::state(kind * 16 + fn);
}

/// Links of all lengths
void links()
{
    Box b;
    unsigned len = 1 + mc::choose(mc::thorough() ? 4000 : 1100, "length");
    std::string target;
    for (unsigned i = 0; i < len; ++i) target += i % 200 == 199 ? '/' : (char)('a' + i % 26);
    if (symlink(target.c_str(), b.p("l").c_str()) == -1) mc::fail("harness: cannot create a link");
    sys::Path d{std::filesystem::path(b.root)};
    std::string got = d.readlinkat("l");
    mc::step();
    if (got != target) mc::fail("a link of %u characters is read as one of %zu", len, got.size());
    mc::state(len);
}

/// Programs in the path
void programs()
{
    Box b;
    // Each directory: missing, without the program, with it not executable, with it
    unsigned n = mc::choose(4, "directories");
    std::string path, expected;
    bool empty_between = mc::flag("empty elements"), relative = mc::flag("relative");
    struct Cwd { std::filesystem::path old = std::filesystem::current_path(); ~Cwd() { std::filesystem::current_path(old); } } cwd;
    std::filesystem::current_path(b.root);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned s = mc::choose(4, "state");
        std::string dir = b.p(mc::fmt("d%u", i));
        if (s) mkdir(dir.c_str(), 0755);
        if (s >= 2) put(dir + "/prog", "x", s == 3 ? 0755 : 0644);
        if (s == 3 && expected.empty()) expected = relative ? (std::filesystem::current_path() / mc::fmt("d%u/prog", i)).native() : dir + "/prog";
        if (i || empty_between) path += ":";
        if (empty_between && i) path += ":";
        path += relative ? mc::fmt("d%u", i) : dir;
    }
    if (empty_between) path += ":";
    struct Env { std::string old; Env(const std::string& p) : old(getenv("PATH") ? getenv("PATH") : "") { setenv("PATH", p.c_str(), 1); } ~Env() { setenv("PATH", old.c_str(), 1); } } env(path);
    std::string got = sys::which("prog");
    mc::step(3);
    if (got != (expected.empty() ? "prog" : expected)) mc::fail("with path %s the program is %s", path.c_str(), got.c_str());
    if (sys::which(b.p("x/prog")) != b.p("x/prog")) mc::fail("an absolute path is changed");
    if (sys::which("x/prog") != std::filesystem::current_path() / "x/prog") mc::fail("a relative path gives %s", sys::which("x/prog").c_str());
    mc::state(mc::fmt("%u %d %d", n, (int)relative, (int)empty_between) + (expected.empty() ? "" : expected.substr(b.root.size())));
}

/// Times and limits
void times()
{
    static const std::vector<long> secs { 0, 1, 2, 5, 1000000 }, nsecs { 0, 1, 499999999, 500000000, 999999999 };
    timespec a { mc::pick(secs, "s"), mc::pick(nsecs, "ns") }, z { mc::pick(secs, "s"), mc::pick(nsecs, "ns") };
    long long x = a.tv_sec * 1000000000LL + a.tv_nsec, y = z.tv_sec * 1000000000LL + z.tv_nsec;
    unsigned long long got = sys::timesec_elapsed(a, z), e = y > x ? y - x : 0;
    mc::step();
    if (got != e) mc::fail("from %lld to %lld ns are %llu ns instead of %llu", x, y, got, e);
    sys::Clock c(CLOCK_MONOTONIC);
    unsigned long long t1 = c.elapsed(), t2 = c.elapsed();
    if (t2 < t1) mc::fail("a clock goes back");
    mc::state(mc::fmt("%lld %lld", x, y));
}

void restored()
{
    Box b;
    std::string f = b.p("f");
    put(f, "abc");
    unsigned ts = mc::choose(3, "time") * 1000000000u + 5, what = mc::choose(4, "what");
    std::string err;
    if (what == 0)
    {
        err = b.run([&] { sys::touch(f, ts); });
        struct stat st0;
        if (::stat(f.c_str(), &st0) == -1) mc::fail("harness: cannot stat");
        if (!err.empty() || sys::timestamp(f) != (time_t)ts || st0.st_atim.tv_sec != (time_t)ts) mc::fail("touch does not set the times");
        err = b.run([&] { sys::touch(b.p("missing"), ts); });
        if (err.find("missing") == std::string::npos) mc::fail("touching a missing file does not fail");
    }
    else if (what == 1)
    {
        timespec was[2] { { (time_t)ts + 11, 123 }, { (time_t)ts, 456 } };
        if (utimensat(AT_FDCWD, f.c_str(), was, 0) == -1) mc::fail("harness: cannot set times");
        sys::File file(std::filesystem::path(f), O_RDWR);
        {
            sys::PreserveFileTimes p(file);
            file.write_all_or_retry("x", 1);
            if (sys::timestamp(f) == (time_t)ts) mc::fail("harness: writing does not change the time");
        }
        struct stat st;
        sys::stat(f, st);
        if (st.st_mtim.tv_sec != (time_t)ts || st.st_atim.tv_sec != (time_t)ts + 11 || st.st_mtim.tv_nsec != 456 || st.st_atim.tv_nsec != 123 || slurp(f) != "=xbc") mc::fail("the times are not preserved");
        timespec t[2] { { 7, 3 }, { 8, 4 } };
        file.futimens(t);
        sys::stat(f, st);
        if (st.st_atim.tv_sec != 7 || st.st_atim.tv_nsec != 3 || st.st_mtim.tv_sec != 8 || st.st_mtim.tv_nsec != 4) mc::fail("futimens sets other times");
    }
    else if (what == 2)
    {
        rlimit before, in, after;
        sys::getrlimit(RLIMIT_NOFILE, before);
        {
            sys::OverrideRlimit o(RLIMIT_NOFILE, before.rlim_cur ? before.rlim_cur - 1 : 0);
            sys::getrlimit(RLIMIT_NOFILE, in);
            if (in.rlim_cur != (before.rlim_cur ? before.rlim_cur - 1 : 0) || in.rlim_max != before.rlim_max) mc::fail("the limit is not changed");
            o.set(0);
            sys::getrlimit(RLIMIT_NOFILE, in);
            if (in.rlim_cur != 0 || in.rlim_max != before.rlim_max) mc::fail("the limit is not changed again");
        }
        sys::getrlimit(RLIMIT_NOFILE, after);
        if (after.rlim_cur != before.rlim_cur || after.rlim_max != before.rlim_max) mc::fail("the limit is not restored");
    }
    else
    {
        mode_t m = sys::umask(ts & 0777);
        mode_t n = sys::umask(m);
        if (n != (ts & 0777) || m != 022) mc::fail("umask gives other values");
        std::filesystem::path p("dir/name.txt");
        if (sys::with_suffix(p, ".gz") != "dir/name.txt.gz") mc::fail("with_suffix gives %s", sys::with_suffix(p, ".gz").c_str());
        bool ok = false;
        try { sys::with_suffix("dir/", ".gz"); } catch (std::invalid_argument&) { ok = true; }
        if (!ok) mc::fail("with_suffix accepts a path without a name");
        sys::File file(std::filesystem::path(f), O_RDWR);
        int fl = file.getfl();
        file.setfl(fl | O_APPEND);
        if (!(file.getfl() & O_APPEND)) mc::fail("flags are not set");
        int other = file.dup();
        struct stat st;
        syscall(SYS_newfstatat, other, "", &st, AT_EMPTY_PATH);
        if (st.st_ino != sys::inode(f) || other == (int)file) mc::fail("dup gives another file");
        syscall(SYS_close, other);
        file.fsync(); file.fdatasync(); file.fchmod(0600);
        if (mode_of(f) != 0600) mc::fail("fchmod does not change the mode");
    }
    mc::step();
    mc::state(what * 4 + ts % 4);
}

/// Locks that other descriptors of the file have
void locks()
{
    Box b;
    put(b.p("f"), "0123456789");
    sys::File f1(std::filesystem::path(b.p("f")), O_RDWR), f2(std::filesystem::path(b.p("f")), O_RDWR);
    struct L { int type; off_t start, len; };
    auto pick = [&] { L l; l.type = mc::flag("exclusive") ? F_WRLCK : F_RDLCK; l.start = mc::choose(4, "start"); l.len = mc::choose(3, "length"); return l; };
    L a = pick(), c = pick();
    auto fl = [](const L& l) { struct flock r; memset(&r, 0, sizeof(r)); r.l_type = l.type; r.l_whence = SEEK_SET; r.l_start = l.start; r.l_len = l.len; return r; };
    struct flock la = fl(a), lc = fl(c);
    auto end = [](const L& l) { return l.len ? l.start + l.len : 1000000; };
    bool conflict = a.start < end(c) && c.start < end(a) && (a.type == F_WRLCK || c.type == F_WRLCK);
    mc::step(4);
    if (!f1.ofd_setlk(la)) mc::fail("a lock of a file without locks is not obtained");
    struct flock test = lc;
    if (f2.ofd_getlk(test) == conflict) mc::fail("testing a lock gives %d", (int)conflict);
    if (f2.ofd_setlk(lc) == conflict) mc::fail("obtaining a lock gives %d", (int)conflict);
    if (conflict)
    {
        la.l_type = F_UNLCK;
        f1.ofd_setlk(la);
    }
    lc = fl(c);
    if (!f2.ofd_setlkw(lc)) mc::fail("a lock that is free is not obtained");
    mc::state(mc::fmt("%d %d %d %d %d %d", a.type, (int)a.start, (int)a.len, c.type, (int)c.start, (int)c.len));
}

/// Locks that are refused, interrupted or fail
void lock_failures()
{
    Box b;
    put(b.p("f"), "0123456789");
    sys::File f(std::filesystem::path(b.p("f")), O_RDWR), other(std::filesystem::path(b.p("f")), O_RDWR);
    static const std::vector<int> errors { 0, EINTR, EAGAIN, EACCES, EIO, EDEADLK, ENOLCK, EBADF };
    box::lock_errors.clear(); box::locking = 0;
    unsigned n = mc::choose(4, "interruptions");
    for (unsigned i = 0; i < n; ++i) box::lock_errors.push_back(EINTR);
    int last = mc::pick(errors, "error");
    if (last == EINTR) mc::prune();
    if (last) box::lock_errors.push_back(last);
    unsigned how = mc::choose(5, "function");
    // Locking without waiting is not interrupted
    if (n && (how == 0 || how == 4)) mc::prune();
    struct flock l; memset(&l, 0, sizeof(l));
    l.l_type = F_WRLCK; l.l_whence = SEEK_SET;
    bool res = false;
    std::string err = b.run([&] {
        switch (how)
        {
            case 0: res = f.ofd_setlk(l); break;
            case 1: res = f.ofd_setlkw(l); break;
            case 2: res = f.ofd_setlkw(l, true); break;
            case 3: res = f.ofd_setlkw(l, false); break;
            case 4: res = f.ofd_getlk(l); break;
        }
    });
    bool interrupted = how == 3 && n;
    size_t used = box::locking;
    box::lock_errors.clear(); box::locking = 0;
    std::string what = mc::fmt("function %u, %u interruptions, error %d", how, n, last);
    if (interrupted)
    {
        if (!err.empty() || res) mc::fail("%s: an interrupted lock gives %d %s", what.c_str(), (int)res, err.c_str());
        if (used != 1) mc::fail("%s: an interrupted lock is tried again", what.c_str());
    }
    else if (last && how == 0 && (last == EAGAIN || last == EACCES))
    {
        if (!err.empty() || res) mc::fail("%s: a lock held by others gives %d %s", what.c_str(), (int)res, err.c_str());
    }
    else if (last) { if (err.empty()) mc::fail("%s: no error", what.c_str()); }
    else if (!err.empty() || !res) mc::fail("%s: gives %d %s", what.c_str(), (int)res, err.c_str());
    // It is locked only if it says so
    struct flock t; memset(&t, 0, sizeof(t));
    t.l_type = F_WRLCK; t.l_whence = SEEK_SET;
    bool free = other.ofd_getlk(t);
    if (free == (res && how != 4)) mc::fail("%s: the file is %slocked", what.c_str(), free ? "not " : "");
    mc::step(n + 1);
    mc::state(what);
}

}

void mc::setup()
{
    Options o; o.leaks = true; o.leak_repeats = 4;
    add("write-atomically", write_atomic, o);
    add("write", write_plain, o);
    add("read", read_file, o);
    add("partial", partial, o);
    add("contents", contents, o);
    add("handles", handles, o);
    add("reopened", reopened, o);
    add("maps", maps, o);
    add("directories", directories, o);
    add("rmtree", rmtree, o);
    add("stats", stats, o);
    add("names", names, o);
    add("temporary", temporary, o);
    add("relative", relative, o);
    add("links", links, o);
    add("programs", programs, o);
    add("times", times, o);
    add("restored", restored, o);
    add("locks", locks, o);
    add("lock-failures", lock_failures, o);
}
