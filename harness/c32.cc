// C32: errors and notes tell what went wrong and where, whole.
#include "crexmodel.h"
#include <wreport/error.h>
#include <wreport/dtable.h>
#include <regex.h>
#include <thread>
#include <cerrno>
using namespace bm;

const char* mc::property = "C32";

namespace {

/// A text of a length, made of different characters
std::string text(size_t len)
{
    std::string r;
    for (size_t i = 0; i < len; ++i) r += "abcdefghij klmnop:%{}\xc3\xa8\n"[(i * 7 + i / 11) % 24];
    return r;
}

const std::vector<unsigned>& lengths()
{
    static std::vector<unsigned> l;
    if (l.empty())
    {
        for (unsigned i = 0; i <= (mc::thorough() ? 5000 : 600); ++i) l.push_back(i);
        for (unsigned i: {1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 65535, 65536, 70000}) if (i > l.back()) l.push_back(i);
    }
    return l;
}

const char* class_name(unsigned n) { static const char* x[] = { "notfound", "type", "handles", "toolong", "system", "consistency", "parse", "regexp", "unimplemented", "domain", "alloc" }; return x[n]; }
const ErrorCode codes[] = { WR_ERR_NOTFOUND, WR_ERR_TYPE, WR_ERR_HANDLES, WR_ERR_TOOLONG, WR_ERR_SYSTEM, WR_ERR_CONSISTENCY, WR_ERR_PARSE, WR_ERR_REGEX, WR_ERR_UNIMPLEMENTED, WR_ERR_DOMAIN, WR_ERR_ALLOC };

/// What is said by the regular expression functions
std::string regex_text(int code) { char buf[512]; regex_t re; memset(&re, 0, sizeof(re)); regerror(code, &re, buf, 512); return buf; }

/// Raise an error of a class, in one of the ways to do it; returns what it must say
template<typename E> void raise_plain(unsigned how, const std::string& msg)
{
    switch (how)
    {
        case 0: throw E(msg);
        case 1: E::throwf("%s", msg.c_str());
        case 2: E::throwf("%d %s %c", 42, msg.c_str(), '!');
    }
}
std::string plain_text(unsigned how, const std::string& msg) { return how == 2 ? "42 " + msg + " !" : msg; }

std::string raise_text(unsigned cls, unsigned how, const std::string& msg, int err, const char* file, int line)
{
    switch (cls)
    {
        case 4: return plain_text(how == 3 ? 0 : how, msg) + ": " + ::strerror(err);
        case 6: return how == 3 ? msg : std::string(file) + ":" + std::to_string(line) + ": " + plain_text(how, msg);
        case 7: return plain_text(how, msg) + ": " + regex_text(REG_EPAREN);
        default: return plain_text(how, msg);
    }
}

void raise(unsigned cls, unsigned how, const std::string& msg, int err, const char* file, int line)
{
    regex_t re; memset(&re, 0, sizeof(re));
    switch (cls)
    {
        case 0: raise_plain<error_notfound>(how, msg); break;
        case 1: raise_plain<error_type>(how, msg); break;
        case 2: raise_plain<error_handles>(how, msg); break;
        case 3: raise_plain<error_toolong>(how, msg); break;
        case 4: if (how == 3) { errno = 0; throw error_system(msg, err); } errno = err; raise_plain<error_system>(how, msg); break;
        case 5: raise_plain<error_consistency>(how, msg); break;
        case 6:
            switch (how)
            {
                case 0: throw error_parse(file, line, msg);
                case 1: error_parse::throwf(file, line, "%s", msg.c_str());
                case 2: error_parse::throwf(file, line, "%d %s %c", 42, msg.c_str(), '!');
                case 3: throw error_parse(msg);
            }
            break;
        case 7:
            switch (how)
            {
                case 0: throw error_regexp(REG_EPAREN, &re, msg);
                case 1: error_regexp::throwf(REG_EPAREN, &re, "%s", msg.c_str());
                case 2: error_regexp::throwf(REG_EPAREN, &re, "%d %s %c", 42, msg.c_str(), '!');
            }
            break;
        case 8: raise_plain<error_unimplemented>(how, msg); break;
        case 9: raise_plain<error_domain>(how, msg); break;
        case 10: throw error_alloc(msg.c_str());
    }
}

bool right_class(const error& e, unsigned cls)
{
    switch (cls)
    {
        case 0: return dynamic_cast<const error_notfound*>(&e);
        case 1: return dynamic_cast<const error_type*>(&e);
        case 2: return dynamic_cast<const error_handles*>(&e);
        case 3: return dynamic_cast<const error_toolong*>(&e);
        case 4: return dynamic_cast<const error_system*>(&e);
        case 5: return dynamic_cast<const error_consistency*>(&e);
        case 6: return dynamic_cast<const error_parse*>(&e);
        case 7: return dynamic_cast<const error_regexp*>(&e);
        case 8: return dynamic_cast<const error_unimplemented*>(&e);
        case 9: return dynamic_cast<const error_domain*>(&e);
        case 10: return dynamic_cast<const error_alloc*>(&e);
    }
    return false;
}

void check(const error& e, unsigned cls, const std::string& expected, const char* what)
{
    mc::step();
    MC_CHECK(e.code() == codes[cls], "%s: the code of %s is %d instead of %d", what, class_name(cls), (int)e.code(), (int)codes[cls]);
    MC_CHECK(right_class(e, cls), "%s: %s is of another class", what, class_name(cls));
    MC_CHECK(e.what() == expected, "%s: the message of %s is \"%s\" instead of \"%s\"", what, class_name(cls), e.what(), expected.c_str());
}

/// Raise an error, in every way in which it can get to who handles it
void errors_one(unsigned cls, unsigned how, const std::string& msg, int err, const char* file, int line)
{
    if (cls == 10 && how) mc::prune();
    if (how == 3 && cls != 4 && cls != 6) mc::prune();
    std::string expected = raise_text(cls, how, msg, err, file, line);
    std::exception_ptr p;
    try { raise(cls, how, msg, err, file, line); mc::fail("no error was raised"); }
    catch (error& e) { check(e, cls, expected, "caught"); p = std::current_exception(); }
    catch (std::exception& e) { mc::fail("%s raises another kind of exception: %s", class_name(cls), e.what()); }
    try { std::rethrow_exception(p); } catch (error& e) { check(e, cls, expected, "raised again"); }
    // Copies
    auto copies = [&](auto* dummy) {
        using E = std::remove_pointer_t<decltype(dummy)>;
        try { std::rethrow_exception(p); }
        catch (E& e) {
            E a(e); check(a, cls, expected, "copy");
            E b(std::move(a)); check(b, cls, expected, "moved");
            check(e, cls, expected, "copied from");
        }
    };
    switch (cls)
    {
        case 0: copies((error_notfound*)0); break; case 1: copies((error_type*)0); break; case 2: copies((error_handles*)0); break;
        case 3: copies((error_toolong*)0); break; case 4: copies((error_system*)0); break; case 5: copies((error_consistency*)0); break;
        case 6: copies((error_parse*)0); break; case 7: copies((error_regexp*)0); break; case 8: copies((error_unimplemented*)0); break;
        case 9: copies((error_domain*)0); break; case 10: copies((error_alloc*)0); break;
    }
    mc::state(mc::hash(mc::fmt("%u %u ", cls, how) + expected));
}

void messages()
{
    unsigned cls = mc::choose(11, "class"), how = mc::choose(4, "how");
    errors_one(cls, how, text(mc::pick(lengths(), "length")), ENOENT, "file", 12);
}

void system_errors()
{
    static const std::vector<unsigned> lens { 0, 10, 500 };
    int err = mc::choose(140, "errno");
    std::string msg = text(mc::pick(lens, "length"));
    errors_one(4, mc::choose(4, "how"), msg, err, "", 0);
}

void parse_errors()
{
    static const std::vector<int> lines { 0, 1, 9, 10, 99, 100, 12345, 999999, 1000000, INT_MAX, -1, INT_MIN };
    static const std::vector<unsigned> names { 0, 1, 10, 100, 255, 256, 257, 1000, 4096, 5000 }, lens { 0, 1, 100, 2000 };
    std::string file = text(mc::pick(names, "file name")), msg = text(mc::pick(lens, "length"));
    errors_one(6, mc::choose(3, "how"), msg, 0, file.c_str(), mc::pick(lines, "line"));
}

void descriptions()
{
    static const char* d[] = { "no error", "item not found", "wrong variable type", "cannot allocate memory", "ODBC error", "handle management error", "buffer is too short to fit data",
        "error reported by the system", "consistency check failed", "parse error", "write error", "regular expression error", "feature not implemented", "value outside valid domain" };
    for (unsigned i = 0; i < 14; ++i)
    {
        mc::step();
        std::string got = error::strerror((ErrorCode)i);
        MC_CHECK(got == d[i], "the description of code %u is \"%s\" instead of \"%s\"", i, got.c_str(), d[i]);
    }
}

/// Notes of all lengths, alone and after others
void note_lengths()
{
    unsigned len = mc::pick(lengths(), "length");
    unsigned before = mc::choose(3, "notes before");
    std::stringstream out;
    std::string expected;
    notes::Collect c(out);
    for (unsigned i = 0; i <= before; ++i)
    {
        std::string t = text(i < before ? 5 + i * 600 : len);
        switch (mc::choose(3, "how"))
        {
            case 0: notes::logf("%s", t.c_str()); expected += t; break;
            case 1: notes::logf("<%d %s>", 12, t.c_str()); expected += "<12 " + t + ">"; break;
            case 2: notes::log() << t; expected += t; break;
        }
        mc::step();
    }
    mc::state(mc::hash(expected));
    MC_CHECK(out.str() == expected, "notes are \"%s\" instead of \"%s\"", out.str().c_str(), expected.c_str());
}

/*
 * Where errors are
 */
const std::vector<std::string>& file_names()
{
    static std::vector<std::string> n { "f", "(memory)", "with%s and %d%n.bufr", std::string(300, 'n'), std::string(5000, 'x'), "a:12+3: b" };
    return n;
}

template<typename BULLETIN> void where(const std::string& raw, const std::string& fname, size_t offset, bool header)
{
    Quiet quiet;
    try {
        if (header) BULLETIN::decode_header(raw, fname.c_str(), offset);
        else BULLETIN::decode(raw, fname.c_str(), offset);
        mc::outcome("decoded");
    } catch (error_parse& e) {
        std::string start = fname + ":" + std::to_string(offset) + "+";
        std::string msg = e.what();
        // Errors in the tables that the message needs are at that table
        for (const std::string& dir: {mc::repo() + "/tables/", mc::scratch() + "/tables/"})
            if (msg.compare(0, dir.size(), dir) == 0) { mc::outcome("table"); mc::step(); return; }
        mc::outcome("error");
        if (msg.compare(0, start.size(), start) != 0) mc::fail("an error at %s is reported as %s", start.c_str(), msg.c_str());
        // Position, then the message
        size_t p = start.size(), q = p;
        while (q < msg.size() && isdigit(msg[q])) ++q;
        MC_CHECK(q > p, "an error has no position: %s", msg.c_str());
        MC_CHECK(msg.compare(q, 2, ": ") == 0 && msg.size() > q + 2, "an error has no message: %s", msg.c_str());
        unsigned long long pos = strtoull(msg.c_str() + p, 0, 10);
        // The position is inside or at the end of the data, or of what is declared by its sections
        if (pos > raw.size() + (1 << 24)) mc::fail("an error is reported %llu bytes after the start of %zu bytes: %s", pos, raw.size(), msg.c_str());
    } catch (error& e) { mc::outcome("other error"); MC_CHECK(strlen(e.what()) > 0, "an error has no message"); }
    mc::step();
}

const std::vector<size_t>& offsets() { static std::vector<size_t> o { 0, 1, 12345, (size_t)1 << 31, ((size_t)1 << 32) + 5, ((size_t)1 << 62) }; return o; }

std::string bufr_sample()
{
    Header h;
    Bits b; b.add(5, 7); b.add(2, 8); for (int i = 0; i < 2; ++i) b.add('a' + i, 8); b.add(33, 7);
    return message(h, {B(1, 4), R(1, 0), B(31, 1), B(1, 11), B(1, 4)}, 1, false, b);
}

void bufr_where()
{
    std::string raw = bufr_sample();
    unsigned kind = mc::choose(2, "fault");
    if (kind == 0) raw.resize(mc::choose(raw.size(), "cut at"));
    else { unsigned p = mc::choose(raw.size(), "position"); static const std::vector<unsigned> v { 0, 1, 0x7f, 0xff }; raw[p] = mc::pick(v, "value"); }
    where<BufrBulletin>(raw, mc::pick(file_names(), "file name"), mc::pick(offsets(), "offset"), mc::flag("header only"));
}

void crex_where()
{
    static const std::string msg = "CREX++\r\r\nT000399 A001 B01001 B01003 B01012++\r\r\n5 123 ab++\r\r\n7777";
    std::string raw = msg;
    unsigned kind = mc::choose(2, "fault");
    if (kind == 0) raw.resize(mc::choose(raw.size(), "cut at"));
    else { unsigned p = mc::choose(raw.size(), "position"); static const std::string v = "x+ 9\r"; raw[p] = v[mc::choose(v.size(), "value")]; }
    where<CrexBulletin>(raw, mc::pick(file_names(), "file name"), mc::pick(offsets(), "offset"), mc::flag("header only"));
}

/// A line that cannot be read in a table: the error has the name of the table and the number of the line
void table_lines()
{
    const unsigned kind = mc::choose(4, "table");       // 0: BUFR B, 1: CREX B, 2: BUFR D, 3: CREX D
    const unsigned lines = mc::thorough() ? 300 : 120;
    unsigned bad = mc::choose(lines, "line");
    unsigned how = mc::choose(3, "how");
    std::string out;
    for (unsigned i = 0; i < lines; ++i)
    {
        std::string l;
        if (kind < 2)
        {
            unsigned n = (i == bad && how == 2 && i) ? i - 1 : i;        // the same entry twice
            if (i == bad && how == 2 && !i) mc::prune();
            l = tm_::bufr_line(12 + n / 200, n % 200, "DESCRIPTION", "K", 1, 0, 12);
            l.resize(119, ' ');
            if (kind == 1) l += mc::fmt("%-24.24s%3d%11u", "K", 1, 4);
            if (i == bad && how == 0) l = l.substr(0, 100);
            if (i == bad && how == 1) l = "";
        } else {
            l = mc::fmt(" 3%02u%03u  1 001001", 1 + i / 200, i % 200);
            if (i == bad && how == 0) l = l.substr(0, 12);
            if (i == bad && how == 1) l = "unreadable line, for sure";
            if (i == bad && how == 2) { if (i + 1 == lines) mc::prune(); l[9] = '0'; }
        }
        out += l + "\n";
    }
    std::string path = mc::scratch() + mc::fmt("/table%d.txt", (int)getpid());
    std::ofstream(path) << out;
    std::string res = "loaded";
    try {
        switch (kind)
        {
            case 0: Vartable::load_bufr(path); break;
            case 1: Vartable::load_crex(path); break;
            case 2: DTable::load_bufr(path); break;
            case 3: DTable::load_crex(path); break;
        }
    } catch (error_parse& e) { res = e.what(); }
    catch (error& e) { res = std::string("other error: ") + e.what(); }
    unlink(path.c_str());
    mc::step();
    mc::state(mc::hash(out));
    std::string start = path + ":" + std::to_string(bad + 1) + ": ";
    if (res.compare(0, start.size(), start) != 0) mc::fail("line %u of a table cannot be read, and the error is: %s", bad + 1, res.c_str());
}

/// Files that are not there or cannot be opened
void missing_files()
{
    const unsigned kind = mc::choose(4, "table");
    std::string path = mc::scratch() + "/" + mc::pick(file_names(), "file name");
    bool dir = mc::flag("inside of a file");
    if (dir) { std::string f = mc::scratch() + mc::fmt("/file%d", (int)getpid()); std::ofstream{f} << "x"; path = f + "/x"; }
    FILE* f = fopen(path.c_str(), "r");
    int err = errno;
    MC_CHECK(!f, "the file is there");
    std::string res = "loaded";
    try {
        switch (kind)
        {
            case 0: Vartable::load_bufr(path); break;
            case 1: Vartable::load_crex(path); break;
            case 2: DTable::load_bufr(path); break;
            case 3: DTable::load_crex(path); break;
        }
    } catch (error_system& e) { res = e.what(); }
    catch (error& e) { res = std::string("other error: ") + e.what(); }
    std::string end = std::string(": ") + ::strerror(err);
    MC_CHECK(res.find(path) != std::string::npos, "the error does not name the file: %s", res.c_str());
    MC_CHECK(res.size() > end.size() && res.substr(res.size() - end.size()) == end, "the error does not end with %s: %s", end.c_str(), res.c_str());
    mc::step();
}

}

void mc::setup()
{
    install_tables();
    cm::install_crex_tables();
    mc::Options o; o.timeout = 20;
    mc::add("messages", messages, o);
    mc::add("system", system_errors, o);
    mc::add("parse", parse_errors, o);
    mc::add("descriptions", descriptions, o);
    mc::add("notes", note_lengths, o);
    mc::add("where-bufr", bufr_where, o);
    mc::add("where-crex", crex_where, o);
    mc::add("tables", table_lines, o);
    mc::add("missing", missing_files, o);
}
