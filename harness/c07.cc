// C07: reading a stream finds every message, byte for byte, with its offset.
#include "bufrmodel.h"
using namespace bm;

const char* mc::property = "C07";

namespace {

/// A stream that gives its contents in pieces and fails where asked
struct Cookie
{
    std::string data;
    size_t pos = 0, chunk = 1000000, fail_at = ~0ull;
    bool seekable = true;
    /// Position of the start of data in the stream
    off64_t base = 0;
    static ssize_t read(void* c, char* buf, size_t n)
    {
        Cookie& s = *(Cookie*)c;
        if (s.pos >= s.fail_at) { errno = EIO; return -1; }
        n = std::min({n, s.chunk, s.data.size() - s.pos, s.fail_at - s.pos});
        memcpy(buf, s.data.data() + s.pos, n);
        s.pos += n;
        return n;
    }
    static int seek(void* c, off64_t* off, int whence)
    {
        Cookie& s = *(Cookie*)c;
        if (!s.seekable) { errno = ESPIPE; return -1; }
        off64_t p = whence == SEEK_SET ? *off - s.base : whence == SEEK_CUR ? (off64_t)s.pos + *off : (off64_t)s.data.size() + *off;
        s.pos = p;
        *off = p + s.base;
        return 0;
    }
    FILE* open()
    {
        cookie_io_functions_t f = { read, nullptr, seek, nullptr };
        return fopencookie(this, "r", f);
    }
};

struct Closer { FILE* f; ~Closer() { if (f) fclose(f); } };

/// What should be read from a position on
struct Expect
{
    enum Kind { MESSAGE, END, ERROR } kind;
    size_t start = 0, end = 0;
};

Expect expect(bool crex, const std::string& s, size_t pos, size_t fail_at)
{
    Expect e;
    size_t avail = std::min(s.size(), fail_at);
    bool fails = fail_at <= s.size();
    std::string seen = s.substr(0, avail);
    size_t p = seen.find(crex ? "CREX++" : "BUFR", pos);
    if (p == std::string::npos) { e.kind = fails ? Expect::ERROR : Expect::END; return e; }
    e.start = p;
    if (!crex)
    {
        if (p + 8 > avail) { e.kind = Expect::ERROR; return e; }
        size_t len = ((size_t)(unsigned char)s[p + 4] << 16) | ((unsigned char)s[p + 5] << 8) | (unsigned char)s[p + 6];
        if (len < 12 || p + len > avail) { e.kind = Expect::ERROR; return e; }
        e.kind = Expect::MESSAGE; e.end = p + len;
        return e;
    }
    // The first "++", newlines, "7777" that ends after the start
    for (size_t i = p + 6; i < avail; ++i)
    {
        if (seen.compare(i, 2, "++") != 0) continue;
        size_t j = i + 2;
        while (j < avail && (seen[j] == '\r' || seen[j] == '\n')) ++j;
        if (j == i + 2 || seen.compare(j, 4, "7777") != 0) continue;
        e.kind = Expect::MESSAGE; e.end = j + 4;
        return e;
    }
    e.kind = Expect::ERROR;
    return e;
}

bool read(bool crex, FILE* f, std::string& buf, const char* fname, off_t* off)
{
    return crex ? CrexBulletin::read(f, buf, fname, off) : BufrBulletin::read(f, buf, fname, off);
}

/// Read the whole stream and compare
void check(bool crex, const std::string& s, FILE* f, size_t start, size_t fail_at, bool offsets, const char* fname, off_t base = 0)
{
    size_t pos = start;
    std::string buf = "something that was there before";
    for (unsigned n = 0; ; ++n)
    {
        Expect e = expect(crex, s, pos, fail_at);
        off_t off = -7;
        bool got = false;
        std::string res = outcome_of([&] { got = read(crex, f, buf, fname, offsets ? &off : nullptr); });
        mc::step();
        mc::outcome(res.substr(0, 7) + (got ? " message" : ""));
        switch (e.kind)
        {
            case Expect::ERROR:
                if (res == "ok") mc::fail("reading message %u of \"%s\" after %zu: %s instead of an error", n, mc::esc(s).c_str(), pos, got ? "a message" : "the end of the stream");
                return;
            case Expect::END:
                if (res != "ok") mc::fail("reading message %u of \"%s\" after %zu: %s instead of the end of the stream", n, mc::esc(s).c_str(), pos, res.c_str());
                if (got) mc::fail("reading message %u of \"%s\" after %zu: a message instead of the end of the stream", n, mc::esc(s).c_str(), pos);
                // And it stays there
                if (read(crex, f, buf, fname, nullptr)) mc::fail("a message after the end of the stream");
                return;
            case Expect::MESSAGE: {
                if (res != "ok") mc::fail("reading message %u of \"%s\" after %zu: %s", n, mc::esc(s).c_str(), pos, res.c_str());
                if (!got) mc::fail("reading message %u of \"%s\" after %zu: message not found", n, mc::esc(s).c_str(), pos);
                std::string m = s.substr(e.start, e.end - e.start);
                if (buf != m) mc::fail("reading message %u of \"%s\" after %zu: \"%s\" instead of \"%s\"", n, mc::esc(s).c_str(), pos, mc::esc(buf).c_str(), mc::esc(m).c_str());
                if (offsets && off != base + (off_t)e.start) mc::fail("reading message %u of \"%s\" after %zu: offset is %lld instead of %zu", n, mc::esc(s).c_str(), pos, (long long)off, e.start);
                pos = e.end;
                if (offsets && ftello(f) != base + (off_t)pos) mc::fail("after reading message %u of \"%s\" the stream is at %lld instead of %zu", n, mc::esc(s).c_str(), (long long)ftello(f), pos);
                break;
            }
        }
        if (s.size() < 1000) mc::state(mc::hash(s.substr(0, std::min(s.size(), fail_at)) + mc::fmt("@%zu", pos)));
    }
}

void check_memory(bool crex, const std::string& s)
{
    if (mc::tracing) mc::trace("stream: %s", mc::esc(s).c_str());
    Cookie c; c.data = s;
    Closer f { c.open() };
    check(crex, s, f.f, 0, ~0ull, true, nullptr);
}

std::string bufr(unsigned len, const std::string& body);
extern const std::vector<std::string> bufr_messages, crex_messages, bufr_gaps, crex_gaps;

/// Messages far inside a big file
void far(bool crex)
{
    Cookie c;
    c.base = mc::pick(std::vector<off64_t>{ 0xff, 0xfffe, 0x10000, 0xfffffe, 0x7ffffff0ll, 0x7fffffffll, 0x80000000ll, 0xfffffff0ll, 0x100000000ll, 0x1fffffffcll, 5000000000ll, 0x7ffffffffffll }, "position");
    const auto& m = crex ? crex_messages : bufr_messages;
    const auto& g = crex ? crex_gaps : bufr_gaps;
    c.data = mc::pick(g, "gap") + mc::pick(m, "message") + mc::pick(g, "gap") + mc::pick(m, "message");
    Closer f { c.open() };
    check(crex, c.data, f.f, 0, ~0ull, true, nullptr, c.base);
}

std::string bufr(unsigned len, const std::string& body)
{
    std::string m = std::string("BUFR") + (char)(len >> 16) + (char)(len >> 8) + (char)len + '\4' + body;
    if (m.size() < len) m.resize(len, '7');
    return m.substr(0, std::max<size_t>(8, len));
}

const std::vector<std::string> bufr_messages {
    bufr(12, ""), bufr(13, "BUFR"), bufr(20, "ab\0BUFR\0\0\x0c"), bufr(16, "BUFBUFRB"), bufr(30, "7777 7777"),
    bufr(300, "long BUF"),
};
const std::vector<std::string> bufr_bad { bufr(11, ""), bufr(0, ""), bufr(4, "xxxx"), bufr(8, ""), bufr(0xffffff, "").substr(0, 40), "BUF", "BUFR", std::string("BUFR\0\0", 6) };
const std::vector<std::string> bufr_gaps { "", "B", "BU", "BUF", "BB", "BUB", "BUFB", "BBUF", "BUFU", "UFR", "R", "\n", std::string(3, '\0'), "CREX++", "7777", "BUF R", "bufr" };

const std::vector<std::string> crex_messages {
    "CREX++\r\r\n++\r\r\n7777", "CREX++++\n7777", "CREX++\r\r\nT000203 A000 B01001++\r\r\n 001++\r\r\n7777", "CREX++T++\r\n1+\r\n7777+++\r7777",
    "CREX++ a++ 7777 ++\r\n777++\n7777", "CREX++ CREX++\n77 ++\r\r\n77++7777++\n7777",
};
const std::vector<std::string> crex_bad { "CREX++\r\r\n7777", "CREX+", "CREX++", "CREX++\r\n777", "CREX++ ++7777", "CREX++ +\n7777", "CREX++7777" };
const std::vector<std::string> crex_gaps { "", "C", "CRE", "CREX", "CREX+", "CC", "CRECREX", "CREX+ +", "CREX+C", "++\r\n7777", "\r\r\n", "7777", "BUFR", std::string(2, '\0'), "crex++" };

/// All sequences of messages and what is between them
void sequences(bool crex, unsigned n)
{
    const auto& msgs = crex ? crex_messages : bufr_messages;
    const auto& gaps = crex ? crex_gaps : bufr_gaps;
    const auto& bad = crex ? crex_bad : bufr_bad;
    std::string s;
    for (unsigned i = 0; i < n; ++i) { s += mc::pick(gaps, "gap"); s += mc::pick(msgs, "message"); }
    unsigned k = mc::choose(gaps.size() + bad.size(), "last");
    s += k < gaps.size() ? gaps[k] : bad[k - gaps.size()];
    check_memory(crex, s);
}

/// Anything that can be made of the characters that matter
void characters(bool crex, unsigned len)
{
    static const std::string b = "BUFRx", c = "CREX+7\r\n ";
    const std::string& a = crex ? c : b;
    std::string s;
    for (unsigned i = 0; i < len; ++i) s += a[mc::choose(a.size(), "character")];
    s += crex ? crex_messages[0] : bufr_messages[0];
    check_memory(crex, s);
}

/// The inside of a CREX message, with all that looks like its end
void crex_inside(unsigned len)
{
    static const std::string a = "+\r\n7x";
    std::string s = "CREX++";
    for (unsigned i = 0; i < len; ++i) s += a[mc::choose(a.size(), "character")];
    s += mc::flag("end") ? "++\r\r\n7777" : "";
    check_memory(true, s);
}

/// The inside of a CREX message, as sequences of longer pieces of its end
void crex_tokens(unsigned len)
{
    static const std::vector<std::string> tokens { "+", "++", "\r", "\r\r\n", "7", "77", "777", "7777", "x", "CREX++" };
    std::string s = "CREX++";
    for (unsigned i = 0; i < len; ++i) s += mc::pick(tokens, "token");
    s += mc::flag("end") ? "++\r\r\n7777" : "";
    check_memory(true, s);
}

/// All the sequences of newlines that can be before the end mark, and inside of the message
void crex_newlines(unsigned maxlen)
{
    std::string s = "CREX++";
    auto newlines = [&](unsigned max) { unsigned n = mc::choose(max + 1, "newlines"); for (unsigned i = 0; i < n; ++i) s += mc::flag("newline") ? '\n' : '\r'; };
    newlines(2);
    s += mc::pick(std::vector<std::string>{"", "T", "T++", "T++\r\r\n 7777"}, "contents");
    s += "++";
    newlines(maxlen);
    s += "7777";
    if (mc::flag("another message")) s += "\r\r\n" + crex_messages[0];
    check_memory(true, s);
}

/// All the places where the stream can be cut, or where reading can fail
void faults(bool crex)
{
    const auto& msgs = crex ? crex_messages : bufr_messages;
    const auto& gaps = crex ? crex_gaps : bufr_gaps;
    std::string s = mc::pick(gaps, "gap");
    size_t lead = s.size();
    s += mc::pick(msgs, "message");
    s += gaps[mc::choose(4, "gap")];
    s += mc::pick(msgs, "message");
    size_t at = mc::choose(s.size() + 1, "where");
    Cookie c;
    size_t start = 0;
    bool offsets = true;
    switch (mc::choose(5, "fault"))
    {
        case 0: s.resize(at); break;
        case 1: c.fail_at = at; break;
        // Short reads are not faults
        case 2: c.chunk = 1 + at % 9; if (at > 9) mc::prune(); break;
        case 3: start = std::min(at, lead); if (at > lead) mc::prune(); break;
        case 4: c.seekable = false; offsets = false; if (at > 1) mc::prune(); c.chunk = at ? 3 : 1000; break;
    }
    c.data = s;
    mc::trace("stream: %s", mc::esc(s).c_str());
    Closer f { c.open() };
    unsigned mode = mc::choose(2, "buffering");
    if (mode == 1) setvbuf(f.f, nullptr, _IONBF, 0);
    for (size_t i = 0; i < start; ++i) if (c.fail_at > start) getc(f.f);
    check(crex, s, f.f, start, c.fail_at, offsets, mc::flag("name") ? "test-file" : nullptr);
}

/// Write to a file, and read back
void written(bool crex, unsigned n)
{
    const auto& msgs = crex ? crex_messages : bufr_messages;
    const auto& gaps = crex ? crex_gaps : bufr_gaps;
    std::string path = mc::scratch() + mc::fmt("/w%d", (int)getpid());
    FILE* f = fopen(path.c_str(), "w+");
    if (!f) mc::fail("cannot create %s", path.c_str());
    Closer closer { f };
    std::vector<std::string> all;
    std::vector<off_t> offs;
    for (unsigned i = 0; i < n; ++i)
    {
        const std::string& gap = mc::pick(gaps, "gap");
        fwrite(gap.data(), gap.size(), 1, f);
        const std::string& m = mc::pick(msgs, "message");
        offs.push_back(ftello(f));
        if (crex) CrexBulletin::write(m, f, mc::flag("name") ? "name" : nullptr);
        else BufrBulletin::write(m, f, mc::flag("name") ? "name" : nullptr);
        all.push_back(m);
        mc::step();
    }
    rewind(f);
    std::string buf;
    for (unsigned i = 0; i < n; ++i)
    {
        off_t off;
        if (!read(crex, f, buf, nullptr, &off)) mc::fail("message %u not found", i);
        if (buf != all[i]) mc::fail("message %u is \"%s\" instead of \"%s\"", i, mc::esc(buf).c_str(), mc::esc(all[i]).c_str());
        if (off != offs[i]) mc::fail("message %u is at %lld instead of %lld", i, (long long)off, (long long)offs[i]);
        mc::step();
    }
    if (read(crex, f, buf, nullptr, nullptr)) mc::fail("there is one message too many");
}

/// Errors writing are reported
void write_errors(bool crex)
{
    const auto& msgs = crex ? crex_messages : bufr_messages;
    struct Sink
    {
        size_t room; std::string got;
        static ssize_t write(void* c, const char* buf, size_t n)
        {
            Sink& s = *(Sink*)c;
            n = std::min(n, s.room - s.got.size());
            if (!n) { errno = ENOSPC; return 0; }
            s.got.append(buf, n);
            return n;
        }
    } sink;
    const std::string& m = mc::pick(msgs, "message");
    std::string full = m + (crex ? "\r\r\n" : "");
    sink.room = mc::choose(full.size() + 1, "room");
    cookie_io_functions_t io = { nullptr, Sink::write, nullptr, nullptr };
    FILE* f = fopencookie(&sink, "w", io);
    setvbuf(f, nullptr, _IONBF, 0);
    Closer closer { f };
    const char* name = mc::flag("name") ? "name" : nullptr;
    std::string res = outcome_of([&] { if (crex) CrexBulletin::write(m, f, name); else BufrBulletin::write(m, f, name); });
    mc::step();
    if (res == "ok" && sink.got != full) mc::fail("wrote %zu of %zu bytes and reported no error", sink.got.size(), full.size());
    if (res != "ok" && sink.room == full.size()) mc::fail("wrote all and reported %s", res.c_str());
}

/// Messages as the library writes them, and the sample files, one after the other
std::vector<std::string> files[2];
void samples(bool crex)
{
    const auto& fs = files[crex];
    std::string s;
    for (unsigned i = 0; i < 2; ++i)
    {
        std::string raw = slurp(fs[i ? 0 : mc::choose(fs.size(), "file")]);
        s += (crex ? crex_gaps : bufr_gaps)[mc::choose(4, "gap")];
        s += raw;
    }
    check_memory(crex, s);
}

/// All declared lengths around the size of what there is
void lengths()
{
    unsigned real = 12 + mc::choose(20, "size");
    unsigned declared = mc::choose(40, "declared");
    std::string m = bufr(real, "abcd");
    m[6] = declared;
    m[5] = mc::choose(2, "more");
    m[4] = mc::choose(2, "much more");
    check_memory(false, "xx" + m + (mc::flag("another") ? bufr(14, "") : ""));
}

/// Long messages
void large()
{
    static const std::vector<unsigned> lens { 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 0x7fffff, 0x800000, 0xffffff };
    unsigned len = mc::pick(lens, "length");
    std::string m = bufr(len, "abcd");
    int cut = (int)mc::choose(3, "cut") - 1;
    if (cut == -1) m.resize(m.size() - 1);
    else if (cut == 1) m += bufr(12, "");
    Cookie c; c.data = m;
    static const std::vector<size_t> chunks { 1000000, 4096, 511 };
    c.chunk = mc::pick(chunks, "chunk");
    Closer f { c.open() };
    // Do not show it all in messages
    std::string buf; off_t off;
    std::string res = outcome_of([&] { if (!BufrBulletin::read(f.f, buf, nullptr, &off)) mc::fail("not found"); });
    mc::step();
    if (cut == -1) { if (res == "ok") mc::fail("a message of %u bytes that lacks one was read", len); return; }
    if (res != "ok") mc::fail("cannot read a message of %u bytes: %s", len, res.c_str());
    if (buf != m.substr(0, len)) mc::fail("a message of %u bytes was read as %zu different bytes", len, buf.size());
    if (cut == 1 && (!BufrBulletin::read(f.f, buf, nullptr, &off) || off != len)) mc::fail("message after one of %u bytes not found", len);
}


/// Long CREX messages
void crex_large()
{
    static const std::vector<unsigned> lens { 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000, 1000000, 0x1000001 };
    unsigned len = mc::pick(lens, "length");
    std::string end = "++\r\r\n7777";
    std::string m = "CREX++\r\r\n";
    while (m.size() + end.size() < len) m += m.size() % 7 ? 'x' : m.size() % 2 ? '+' : '\n';
    m += end;
    int cut = (int)mc::choose(3, "cut") - 1;
    std::string data = m;
    if (cut == -1) data.resize(m.size() - 1);
    else if (cut == 1) data += crex_messages[0];
    Cookie c; c.data = data;
    static const std::vector<size_t> chunks { 1000000, 4096, 511 };
    c.chunk = mc::pick(chunks, "chunk");
    Closer f { c.open() };
    std::string buf; off_t off;
    std::string res = outcome_of([&] { if (!CrexBulletin::read(f.f, buf, nullptr, &off)) mc::fail("not found"); });
    mc::step();
    if (cut == -1) { if (res == "ok") mc::fail("a message of %u bytes that lacks one was read", len); return; }
    if (res != "ok") mc::fail("cannot read a CREX message of %u bytes: %s", len, res.c_str());
    if (buf != m) mc::fail("a CREX message of %u bytes was read as %zu different bytes", len, buf.size());
    if (cut == 1 && (!CrexBulletin::read(f.f, buf, nullptr, &off) || off != (off_t)m.size())) mc::fail("CREX message after one of %u bytes not found", len);
}

}

void mc::setup()
{
    files[0] = test_files("bufr");
    files[1] = test_files("crex");
    Options o;
    bool th = thorough();
    for (unsigned i = 0; i < 2; ++i)
    {
        bool crex = i;
        const char* n = crex ? "crex" : "bufr";
        for (unsigned k = 0; k <= (th ? 3 : 2); ++k) add(mc::fmt("%s-sequences-%u", n, k), [crex, k]{ sequences(crex, k); }, o);
        for (unsigned k = 0; k <= (crex ? (th ? 7 : 6) : (th ? 9 : 8)); ++k) add(mc::fmt("%s-characters-%u", n, k), [crex, k]{ characters(crex, k); }, o);
        add(mc::fmt("%s-far", n), [crex]{ far(crex); }, o);
        add(mc::fmt("%s-faults", n), [crex]{ faults(crex); }, o);
        for (unsigned k = 1; k <= (th ? 3 : 2); ++k) add(mc::fmt("%s-written-%u", n, k), [crex, k]{ written(crex, k); }, o);
        add(mc::fmt("%s-write-errors", n), [crex]{ write_errors(crex); }, o);
        add(mc::fmt("%s-samples", n), [crex]{ samples(crex); }, o);
    }
    for (unsigned k = 0; k <= (th ? 9 : 8); ++k) add(mc::fmt("crex-inside-%u", k), [k]{ crex_inside(k); }, o);
    add("crex-newlines", [th]{ crex_newlines(th ? 9 : 7); }, o);
    add("lengths", lengths, o);
    for (unsigned k = 3; k <= (th ? 6 : 5); ++k) add(mc::fmt("crex-tokens-%u", k), [k]{ crex_tokens(k); }, o);
    add("large", large, o);
    add("large-crex", crex_large, o);
}
