// C28: the wrep tool processes all the messages of all the files it is given.
//
// The tool is compiled in the harness, and its main function is called with all combinations of options and input files. What it
// prints is compared with what is printed calling the library for each of the messages that were put in the files.
// link: c28_wrep.cc
// depends: src
#include "crexmodel.h"
#include <wreport/internals/tabledir.h>
#include <wreport/bulletin/dds-scanfeatures.h>
#include <sys/mman.h>
#include <getopt.h>
#include <unistd.h>
using namespace cm;

const char* mc::property = "C28";
int wrep_main(int argc, char* argv[]);
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));

namespace {

/*
 * Running the tool
 */

std::string slurp_fd(int fd)
{
    std::string r; char buf[65536]; ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while ((n = read(fd, buf, sizeof(buf))) > 0) r.append(buf, n);
    return r;
}

struct Result { int status = -1; std::string out, err, thrown; };

/// Send standard output and standard error elsewhere
struct Redirect
{
    int saved[2], fds[2];
    Redirect()
    {
        fflush(stdout); fflush(stderr);
        for (int i = 0; i < 2; ++i)
        {
            saved[i] = dup(i + 1);
            fds[i] = memfd_create("wrep", 0);
            dup2(fds[i], i + 1);
        }
        if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(long)saved[1]);
    }
    void done(Result& r)
    {
        fflush(stdout); fflush(stderr);
        r.out = slurp_fd(fds[0]); r.err = slurp_fd(fds[1]);
        restore();
    }
    void restore()
    {
        if (saved[0] < 0) return;
        fflush(stdout); fflush(stderr);
        for (int i = 0; i < 2; ++i) { dup2(saved[i], i + 1); close(saved[i]); close(fds[i]); }
        if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)2);
        saved[0] = -1;
    }
    ~Redirect() { restore(); }
};

std::string join(const std::vector<std::string>& v) { std::string r; for (auto& i: v) r += " " + i; return r; }

Result wrep(const std::vector<std::string>& args)
{
    std::vector<std::string> copy = args;
    copy.insert(copy.begin(), "wrep");
    std::vector<char*> argv;
    for (auto& a: copy) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    optind = 0; opterr = 1;
    Result r;
    Redirect redirect;
    try { r.status = wrep_main(argv.size() - 1, argv.data()); }
    catch (std::exception& e) { r.thrown = e.what(); }
    redirect.done(r);
    notes::unset_target();
    mc::step();
    mc::state(mc::fmt("%d ", r.status) + r.out);
    if (mc::tracing) mc::trace("wrep%s: status %d\nstdout: %s\nstderr: %s", join(args).c_str(), r.status, mc::esc(r.out).c_str(), mc::esc(r.err).c_str());
    if (!r.thrown.empty()) mc::fail("wrep%s ends with the unhandled exception %s", join(args).c_str(), r.thrown.c_str());
    return r;
}

/*
 * What the library does with each message
 */

enum Act { DUMP, TRACE, STRUCTURE, DDS, PRINT, UNPARSABLE, TABLES, FEATURES, NACTS };
const char* act_short[] = { "-d", "-t", "-s", "-D", "-p", "-U", "-T", "-F" };
const char* act_long[] = { "--dump", "--trace", "--structure", "--dds", "--print", "--unparsable", "--tables", "--features" };

struct Piece { std::string name, raw; bool message = true; };

template<typename F> std::string print_to(F f, std::string* error)
{
    char* buf = nullptr; size_t size = 0;
    FILE* out = open_memstream(&buf, &size);
    try { f(out); } catch (std::exception& e) { if (error) *error = e.what(); }
    fclose(out);
    std::string r(buf, size);
    free(buf);
    return r;
}

std::string print_vars(const Bulletin& b, const std::string& fname, const Codes& codes)
{
    std::string r;
    unsigned n = 0;
    for (auto& s: b.subsets)
    {
        r += fname + mc::fmt(":%u:", ++n);
        for (auto c: codes)
            for (auto& v: s)
                if (v.code() == c) { r += "\t" + v.format(); break; }
        r += "\n";
    }
    return r;
}

std::string features(const Bulletin& b)
{
    bulletin::ScanFeatures scan(b.tables, b.datadesc);
    scan.run();
    std::string r;
    for (auto& f: scan.features) r += (r.empty() ? "" : ",") + f;
    return r;
}

struct Expected
{
    std::string out;
    std::vector<std::string> errors;
    bool header = false, any_out = false;
};

void expect_message(Expected& e, Act act, bool crex, const Codes& codes, const std::string& raw, const std::string& fname, size_t offset)
{
    std::string error;
    auto decode = [&](bool head) -> std::unique_ptr<Bulletin> {
        if (crex) return CrexBulletin::decode(raw, fname.c_str(), offset);
        if (head) return BufrBulletin::decode_header(raw, fname.c_str(), offset);
        return BufrBulletin::decode(raw, fname.c_str(), offset);
    };
    switch (act)
    {
        case DUMP: e.out += print_to([&](FILE* out) { decode(false)->print(out); }, &error); break;
        case STRUCTURE: e.out += print_to([&](FILE* out) { decode(false)->print_structured(out); }, &error); break;
        case DDS: e.out += print_to([&](FILE* out) { decode(true)->print_datadesc(out); }, &error); break;
        case TRACE:
            if (crex) { e.any_out = true; print_to([&](FILE*) { decode(false); }, &error); }
            else e.out += print_to([&](FILE* out) { BufrBulletin::decode_verbose(raw, out, fname.c_str(), offset); }, &error);
            break;
        case PRINT: e.out += print_to([&](FILE* out) { std::string s = print_vars(*decode(false), fname, codes); fwrite(s.data(), s.size(), 1, out); }, &error); break;
        case UNPARSABLE:
            print_to([&](FILE*) { decode(false); }, &error);
            if (!error.empty()) e.out += raw;
            break;
        case TABLES:
            e.out += print_to([&](FILE* out) {
                auto b = decode(true);
                if (!e.header)
                {
                    if (crex) fprintf(out, "Filename\tOffset\tMaster\tEdition\tTable\n");
                    else fprintf(out, "%-*s\tOffset\tCentre\tSubc.\tMaster\tLocal\n", (int)fname.size(), "Filename");
                    e.header = true;
                }
                if (auto m = dynamic_cast<BufrBulletin*>(b.get()))
                    fprintf(out, "%s\t%zu\t%d\t%d\t%d\t%d\n", fname.c_str(), offset, m->originating_centre, m->originating_subcentre, m->master_table_version_number, m->master_table_version_number_local);
                else if (auto m = dynamic_cast<CrexBulletin*>(b.get()))
                    fprintf(out, "%s\t%zu\t%d\t%d\t%d\n", fname.c_str(), offset, m->master_table_number, m->edition_number, m->master_table_version_number);
            }, &error);
            break;
        case FEATURES: e.out += print_to([&](FILE* out) { auto b = decode(true); fprintf(out, "%s:%zu:%s\n", fname.c_str(), offset, features(*b).c_str()); }, &error); break;
        default: break;
    }
    if (!error.empty()) e.errors.push_back(error);
}

void compare(const std::vector<std::string>& args, const Result& r, const Expected& e, bool verbose)
{
    if (!e.any_out && r.out != e.out)
        mc::fail("wrep%s prints\n%s\ninstead of\n%s", join(args).c_str(), mc::esc(r.out).c_str(), mc::esc(e.out).c_str());
    size_t pos = 0;
    for (auto& s: e.errors)
    {
        size_t p = r.err.find(s, pos);
        if (p == std::string::npos) mc::fail("wrep%s does not report the error '%s', or not in order: %s", join(args).c_str(), s.c_str(), mc::esc(r.err).c_str());
        pos = p + s.size();
    }
    if (e.errors.empty() && !verbose && !r.err.empty()) mc::fail("wrep%s reports errors when there are none: %s", join(args).c_str(), mc::esc(r.err).c_str());
    if (e.errors.empty() && r.status != 0) mc::fail("wrep%s ends with status %d when there were no errors", join(args).c_str(), r.status);
    mc::outcome(mc::fmt("status %d, %zu errors", r.status, std::min<size_t>(e.errors.size(), 3)));
}

/*
 * Messages and files
 */

std::string tmpdir() { static std::string d; static pid_t p; if (p != getpid()) { p = getpid(); d = mc::scratch() + mc::fmt("/files%d", (int)p); std::filesystem::create_directories(d); } return d; }
/// Names have the same length in all executions, whatever the process
std::string write_file(unsigned n, const std::string& data)
{
    std::string p = tmpdir() + mc::fmt("/f%u", n);
    FILE* f = fopen(p.c_str(), "wb");
    fwrite(data.data(), data.size(), 1, f);
    fclose(f);
    return p;
}
/// Name of a file that is not there
std::string missing_file() { return tmpdir() + "/missing"; }

std::vector<Piece> bufr_pieces, crex_pieces;
Codes codes_bufr, codes_crex;

std::string bufr_message(const Codes& dds, unsigned nsub, bool compressed, Header h = Header())
{
    Made m; m.dds = dds; m.h = h;
    for (unsigned s = 0; s < nsub; ++s)
    {
        PatternSource src(2, 0); src.salt = s;
        Model model(custom(), src);
        model.run(dds);
        m.fields.push_back(src.fields);
    }
    if (!compressed) return m.plain();
    Bits bits;
    write_compressed(bits, m.fields, [](unsigned, const char*) { return 0u; });
    return message(m.h, m.dds, m.fields.size(), true, bits);
}
std::string crex_message(const Codes& dds, unsigned nsub, bool digits)
{
    CMade m; m.dds = dds; m.h.check_digit = digits;
    for (unsigned s = 0; s < nsub; ++s)
    {
        CSource src; src.salt = s; src.rich = 0; src.counts = {2};
        CModel model(custom_crex(), src);
        model.run(m.dds);
        m.fields.push_back(src.fields);
    }
    return text(m);
}

std::string with_version(const std::string& m, unsigned v) { std::string r = m; r[8 + 13] = (char)v; return r; }

void make_pieces()
{
    auto& b = bufr_pieces;
    std::string one = bufr_message({B(1, 2), B(1, 3), B(1, 13)}, 1, false);
    b.push_back({"one subset", one});
    b.push_back({"three subsets, compressed", bufr_message({D(1, 4), B(1, 12), R(2, 0), B(31, 1), B(1, 3), B(1, 2)}, 3, true)});
    Header h3; h3.edition = 3;
    b.push_back({"operators and bitmaps", bufr_message({C(6, 5), B(1, 250), C(1, 130), B(1, 3), C(1, 0), B(1, 31), C(22, 0), R(1, 3), B(31, 31), B(33, 7)}, 2, false, h3)});
    // The data is missing some bytes, but the header can be decoded
    {
        Bits bits; bits.add(0, 8);
        b.push_back({"short data", message(Header(), {B(1, 13)}, 1, false, bits)});
        b.push_back({"unknown element", message(Header(), {B(1, 2), B(1, 199)}, 1, false, bits)});
        Header h; h.mtv = 254;
        b.push_back({"no tables", message(h, {B(1, 2)}, 1, false, bits)});
    }
    { std::string s = one; s[7] = 9; b.push_back({"bad edition", s}); }
    { std::string s = one; s[s.size() - 1] = '8'; b.push_back({"no end mark", s}); }
    b.push_back({"noise", std::string("\0\1 7777 BUF\r\n", 13), false});

    auto& c = crex_pieces;
    c.push_back({"one subset", crex_message({B(1, 3), R(2, 0), B(1, 11), B(1, 2), B(1, 13)}, 1, true)});
    c.push_back({"two subsets", crex_message({D(1, 4), R(1, 2), B(1, 10), D(1, 5)}, 2, false)});
    c.push_back({"bad digit", "CREX++\r\r\nT000399 A001 B01001 B01002++\r\r\n 1 1x++\r\r\n7777\r\r\n"});
    c.push_back({"no tables", "CREX++\r\r\nT990199 A001 B01001++\r\r\n 1++\r\r\n7777\r\r\n"});
    c.push_back({"noise", "\r\r\nCRE 7777 \r\r\n", false});
    codes_bufr = {B(1, 2), B(1, 13), B(1, 3)};
    codes_crex = {B(1, 2), B(1, 13), B(1, 3)};
}

struct File { std::string data; std::vector<std::pair<size_t, std::string>> messages; bool truncated = false, missing = false; std::string name; };

/// CREX messages end with their end mark
std::string as_read(const std::string& raw, bool crex) { return crex ? raw.substr(0, raw.rfind("7777") + 4) : raw; }

void append(File& f, const Piece& p, bool crex)
{
    if (p.message) f.messages.push_back({f.data.size(), as_read(p.raw, crex)});
    f.data += p.raw;
}
/// The beginning of a message, at the end of a file
void append_cut(File& f, const Piece& p, size_t size) { f.truncated = true; f.data += p.raw.substr(0, size); }

std::string list(const Codes& c) { std::string r; for (auto i: c) r += (r.empty() ? "" : ",") + varcode_format(i); return r; }

void run_files(Act act, bool crex, bool verbose, bool long_opts, std::vector<File>& files, const Codes& codes)
{
    std::vector<std::string> args;
    if (crex) args.push_back(long_opts ? "--crex" : "-c");
    if (verbose) args.push_back(long_opts ? "--verbose" : "-v");
    if (act != DUMP || long_opts) args.push_back(long_opts ? act_long[act] : act_short[act]);
    if (act == PRINT) { if (long_opts) args.back() += "=" + list(codes); else args.push_back(list(codes)); }
    Expected e;
    bool trouble = false;
    for (unsigned i = 0; i < files.size(); ++i)
    {
        auto& f = files[i];
        f.name = f.missing ? missing_file() : write_file(i, f.data);
        args.push_back(f.name);
        if (f.missing) { e.errors.push_back(f.name); continue; }
        for (auto& m: f.messages) expect_message(e, act, crex, codes, m.second, f.name, m.first);
        if (f.truncated) trouble = true;
    }
    Result r = wrep(args);
    if (trouble && e.errors.empty()) { e.errors.push_back(""); MC_CHECK(!r.err.empty(), "wrep%s says nothing of a message that is cut", join(args).c_str()); }
    compare(args, r, e, verbose);
    // A file that is cut must be named
    for (auto& f: files) if (f.truncated && r.err.find(f.name) == std::string::npos) mc::fail("wrep%s does not tell which file is cut: %s", join(args).c_str(), mc::esc(r.err).c_str());
}

/// Choose the contents of a file
File choose_file(bool crex, unsigned maxlen, bool tail)
{
    auto& pieces = crex ? crex_pieces : bufr_pieces;
    File f;
    unsigned n = mc::choose(maxlen + 1, "number of pieces");
    for (unsigned i = 0; i < n; ++i) append(f, mc::pick(pieces, "piece"), crex);
    if (tail)
        switch (mc::choose(3, "tail"))
        {
            case 1: append_cut(f, pieces[0], pieces[0].raw.size() / 2); break;
            case 2: append_cut(f, pieces[1], crex ? 12 : 9); break;
        }
    return f;
}

void one_file(bool crex)
{
    Act act = (Act)mc::choose(NACTS, "action");
    bool verbose = mc::flag("verbose"), lo = mc::flag("long options");
    std::vector<File> files;
    files.push_back(choose_file(crex, mc::thorough() ? (crex ? 5 : 4) : (crex ? 4 : 3), true));
    run_files(act, crex, verbose, lo, files, crex ? codes_crex : codes_bufr);
}

void many_files(bool crex)
{
    Act act = (Act)mc::choose(NACTS, "action");
    bool verbose = mc::flag("verbose");
    std::vector<File> files;
    unsigned n = 2 + mc::choose(mc::thorough() ? 2 : 1, "number of files");
    for (unsigned i = 0; i < n; ++i)
    {
        if (mc::flag("missing file")) { files.emplace_back(); files.back().missing = true; }
        else files.push_back(choose_file(crex, n == 2 ? 2 - i : 1, i == 0));
    }
    run_files(act, crex, verbose, false, files, crex ? codes_crex : codes_bufr);
}

/// The first message is broken in all possible places, and the second is fine
void faults(bool crex)
{
    Act act = (Act)mc::choose(NACTS, "action");
    auto& pieces = crex ? crex_pieces : bufr_pieces;
    const Piece& p = pieces[mc::choose(crex ? 2 : 3, "message")];
    std::string raw = as_read(p.raw, crex);
    // Where the start mark and the length are is what finds messages, that is another property
    unsigned pos = (crex ? 9 : 7) + mc::choose(raw.size() - (crex ? 18 : 11), "position");
    static const std::vector<unsigned char> values_b = { 0, 1, 0x7f, 0x80, 0xff }, values_c = { ' ', '0', '9', 'x', '/' };
    unsigned char val = mc::pick(crex ? values_c : values_b, "value");
    if ((unsigned char)raw[pos] == val) mc::prune();
    raw[pos] = val;
    File f;
    append(f, Piece{"", crex ? raw + "\r\r\n" : raw}, crex);
    append(f, pieces[0], crex);
    std::vector<File> files{f};
    run_files(act, crex, false, false, files, crex ? codes_crex : codes_bufr);
}

/// All the lists of variables
void variables(bool crex)
{
    auto& pieces = crex ? crex_pieces : bufr_pieces;
    static const Codes pool = { B(1, 2), B(1, 3), B(1, 13), B(1, 12), B(1, 99), D(1, 1), B(31, 1), C(1, 0) };
    unsigned n = 1 + mc::choose(mc::thorough() ? 4 : 3, "number of variables");
    Codes codes;
    for (unsigned i = 0; i < n; ++i) codes.push_back(mc::pick(pool, "variable"));
    bool lo = mc::flag("long options");
    std::vector<File> files(1);
    append(files[0], pieces[mc::choose(2, "message")], crex);
    append(files[0], pieces[mc::choose(3, "message")], crex);
    run_files(PRINT, crex, false, lo, files, codes);
}

/// Long values, and many variables, subsets and messages
void large(bool crex)
{
    static const std::vector<Piece> b {
        {"long strings", bufr_message({B(1, 14), B(1, 15), C(8, 255), B(1, 13), C(8, 0), B(1, 2), C(6, 255), B(1, 250)}, 2, false)},
        {"many subsets", bufr_message({B(1, 2), B(1, 13), B(1, 3)}, 300, true)},
        {"many variables", bufr_message({R(3, 0), B(31, 1), R(2, 200), B(1, 3), B(1, 13), B(1, 15), B(1, 14), B(1, 2)}, 1, false)},
    };
    static const std::vector<Piece> c {
        {"many subsets", crex_message({B(1, 2), B(1, 13), B(1, 3)}, 300, true)},
        {"many variables", crex_message({R(3, 0), R(2, 200), B(1, 3), B(1, 13), B(1, 2)}, 1, true)},
        {"long text", crex_message({B(1, 13), R(1, 250), B(1, 13), R(1, 250), B(1, 3)}, 12, false)},
    };
    auto& pieces = crex ? c : b;
    Act act = (Act)mc::choose(NACTS, "action");
    const Piece& p = mc::pick(pieces, "message");
    unsigned n = mc::pick(std::vector<unsigned>{ 1, 3, 12 }, "number of messages");
    std::vector<File> files(1 + mc::choose(2, "number of files"));
    for (auto& f: files) for (unsigned i = 0; i < n; ++i) append(f, i % 7 == 5 ? (crex ? crex_pieces : bufr_pieces)[3] : p, crex);
    Codes codes { B(1, 15), B(1, 13), B(1, 14), B(1, 250), B(1, 3) };
    for (unsigned i = 0; i < 30; ++i) codes.push_back(i % 2 ? B(1, 13) : B(1, 2));
    run_files(act, crex, false, false, files, codes);
}

/// All combinations of options
void options()
{
    // What is left after all options: the last action is what counts
    int act = DUMP;
    bool crex = false, help = false, info = false, list_tables = false, bad = false, verbose = false;
    Codes codes;
    std::vector<std::string> args;
    unsigned n = mc::choose(mc::thorough() ? 4 : 3, "number of options") + 1;
    bool grouped = mc::flag("grouped");
    std::string group;
    for (unsigned i = 0; i < n && !bad; ++i)
    {
        unsigned o = mc::choose(NACTS + 7, "option");
        bool lo = mc::flag("long");
        if (grouped && lo) mc::prune();
        auto add = [&](const std::string& s, const std::string& l) { if (grouped) group += s.substr(1); else args.push_back(lo ? l : s); };
        if (o < NACTS)
        {
            act = o; help = info = list_tables = false;
            if (o == PRINT)
            {
                codes = mc::flag("list") ? codes_bufr : Codes{B(1, 3)};
                if (grouped) { args.push_back("-" + group + "p" + list(codes)); group.clear(); }
                else if (lo) { if (mc::flag("separate")) { args.push_back("--print"); args.push_back(list(codes)); } else args.push_back("--print=" + list(codes)); }
                else { if (mc::flag("separate")) { args.push_back("-p"); args.push_back(list(codes)); } else args.push_back("-p" + list(codes)); }
            }
            else add(act_short[o], act_long[o]);
        }
        else if (o == NACTS) { add("-h", "--help"); help = true; info = list_tables = false; }
        else if (o == NACTS + 1) { add("-i", "--info"); info = true; help = list_tables = false; }
        else if (o == NACTS + 2) { add("-L", "--list-tables"); list_tables = true; help = info = false; }
        else if (o == NACTS + 3) { add("-c", "--crex"); crex = true; }
        else if (o == NACTS + 4) { add("-v", "--verbose"); verbose = true; }
        else if (o == NACTS + 5) { add("-x", "--no-such-option"); bad = true; }
        else
        {
            // An action with something that is not a list of variables
            if (grouped) mc::prune();
            static const std::vector<std::string> wrong = { "wrong!", "B0100x", "B01001,B0x001", "Xyzxyz" };
            std::string w = mc::pick(wrong, "wrong list");
            if (lo) args.push_back("--print=" + w); else { args.push_back("-p"); args.push_back(w); }
            bad = true;
        }
    }
    if (!group.empty()) args.push_back("-" + group);
    unsigned nfiles = mc::choose(2, "number of files");
    std::vector<File> files(nfiles);
    Expected e;
    auto& pieces = crex ? crex_pieces : bufr_pieces;
    for (unsigned i = 0; i < nfiles; ++i)
    {
        append(files[i], pieces[0], crex);
        append(files[i], pieces[crex ? 2 : 3], crex);
        append(files[i], pieces[1], crex);
        std::string name = write_file(i, files[i].data);
        args.push_back(name);
        if (!help && !info && !list_tables && !bad)
            for (auto& m: files[i].messages) expect_message(e, (Act)act, crex, codes, m.second, name, m.first);
    }
    Result r = wrep(args);
    if (bad)
    {
        MC_CHECK(r.status > 0, "wrep%s ends with status %d", join(args).c_str(), r.status);
        MC_CHECK(!r.err.empty() && r.out.empty(), "wrep%s: wrong usage is not reported to standard error: %s", join(args).c_str(), mc::esc(r.out).c_str());
        return;
    }
    if (help)
    {
        MC_CHECK(r.status == 0, "wrep%s ends with status %d", join(args).c_str(), r.status);
        MC_CHECK(r.err.empty(), "wrep%s: help is printed to standard error", join(args).c_str());
        for (auto& l: { "--verbose", "--crex", "--help", "--info", "--dump", "--trace", "--structure", "--dds", "--print", "--unparsable", "--tables", "--features", "--list-tables" })
            MC_CHECK(r.out.find(l) != std::string::npos, "wrep%s does not describe %s: %s", join(args).c_str(), l, r.out.c_str());
        return;
    }
    if (info)
    {
        MC_CHECK(r.status == 0 && r.err.empty(), "wrep%s ends with status %d: %s", join(args).c_str(), r.status, r.err.c_str());
        MC_CHECK(r.out.find(getenv("WREPORT_TABLES")) != std::string::npos && r.out.find(getenv("WREPORT_EXTRA_TABLES")) != std::string::npos, "wrep%s does not tell the directories with tables: %s", join(args).c_str(), r.out.c_str());
        return;
    }
    if (list_tables)
    {
        MC_CHECK(r.status == 0, "wrep%s ends with status %d", join(args).c_str(), r.status);
        std::string s = print_to([&](FILE* out) { tabledir::Tabledirs::get().print(out); }, nullptr);
        MC_CHECK(s == r.out, "wrep%s lists other tables than those that there are: %s", join(args).c_str(), mc::esc(r.out).c_str());
        return;
    }
    if (!nfiles)
    {
        MC_CHECK(r.status > 0 && r.out.empty() && !r.err.empty(), "wrep%s without files ends with status %d and prints %s", join(args).c_str(), r.status, mc::esc(r.out).c_str());
        return;
    }
    compare(args, r, e, verbose);
}

/// The sample files of the repository
void samples()
{
    static const std::vector<std::string> bufr = test_files("bufr"), crex = test_files("crex");
    Act act = (Act)mc::choose(NACTS, "action");
    bool verbose = mc::flag("verbose");
    unsigned n = mc::choose(bufr.size() + crex.size(), "file");
    bool c = n >= bufr.size();
    std::string name = c ? crex[n - bufr.size()] : bufr[n];
    if (std::filesystem::file_size(name) > (mc::thorough() ? 200000 : 20000)) mc::prune();
    Codes codes = { B(1, 1), B(4, 1), B(12, 101), B(1, 19), B(5, 1) };
    Expected e;
    bool trouble = false;
    FILE* in = fopen(name.c_str(), "rb");
    try {
        std::string raw; off_t offset;
        while (c ? CrexBulletin::read(in, raw, name.c_str(), &offset) : BufrBulletin::read(in, raw, name.c_str(), &offset))
            expect_message(e, act, c, codes, raw, name, offset);
    } catch (std::exception& x) { e.errors.push_back(x.what()); trouble = true; }
    fclose(in);
    (void)trouble;
    std::vector<std::string> args;
    if (c) args.push_back("-c");
    if (verbose) args.push_back("-v");
    args.push_back(act_short[act]);
    if (act == PRINT) args.push_back(list(codes));
    args.push_back(name);
    compare(args, wrep(args), e, verbose);
}

/// Features, against a walk of the descriptors
void scan_features()
{
    static const std::vector<Codes> items = {
        {B(1, 2)}, {C(1, 130), B(1, 3), C(1, 0)}, {C(2, 129), B(1, 3), C(2, 0)}, {C(4, 2), B(31, 21), B(1, 2), C(4, 0)}, {C(5, 3)}, {C(6, 5), B(1, 250)}, {C(6, 7), B(1, 250)},
        {C(7, 1), B(1, 3), C(7, 0)}, {C(8, 3), B(1, 12), C(8, 0)}, {R(1, 2), B(1, 2)}, {R(2, 0), B(31, 1), B(1, 3), B(1, 2)}, {R(1, 0), B(31, 0), D(1, 1)}, {D(1, 4)}, {D(1, 5)}, {D(1, 2), B(1, 3), D(1, 3)},
        {R(4, 2), R(2, 0), B(31, 2), C(5, 1), B(1, 2)},
    };
    unsigned n = 1 + mc::choose(mc::thorough() ? 4 : 3, "number of items");
    Codes dds;
    for (unsigned i = 0; i < n; ++i) for (auto c: mc::pick(items, "item")) dds.push_back(c);
    std::set<std::string> exp;
    std::function<void(const Codes&)> walk = [&](const Codes& v) {
        for (size_t i = 0; i < v.size(); ++i)
            switch (WR_VAR_F(v[i]))
            {
                case 1:
                    if (WR_VAR_Y(v[i]) == 0) exp.insert("Rxx000:" + varcode_format(v[++i])); else exp.insert("Rxxyyy");
                    break;
                case 2:
                    if (WR_VAR_X(v[i]) == 6) { exp.insert(varcode_format(v[i]) + ":" + varcode_format(v[i + 1])); ++i; }
                    else exp.insert(varcode_format(v[i]));
                    break;
                case 3: walk(custom().d.at(v[i])); break;
            }
    };
    walk(dds);
    std::string line;
    for (auto& f: exp) line += (line.empty() ? "" : ",") + f;
    std::string raw;
    try { raw = bufr_message(dds, 1, false); } catch (Unspec&) { mc::prune(); }
    std::string name = write_file(0, raw);
    Result r = wrep({"-F", name});
    MC_CHECK(r.out == name + ":0:" + line + "\n" && r.err.empty() && r.status == 0, "wrep -F on %s prints %s%s instead of %s", str(dds).c_str(), r.out.c_str(), r.err.c_str(), line.c_str());
    mc::state(line);
}

}

void mc::setup()
{
    install_tables();
    install_crex_tables();
    setenv("WREPORT_TABLES", (mc::repo() + "/tables").c_str(), 1);
    make_pieces();
    mc::Options o; o.timeout = 60;
    mc::add("features", scan_features, o);
    mc::add("options", options, o);
    mc::add("files-bufr", []{ one_file(false); }, o);
    mc::add("files-crex", []{ one_file(true); }, o);
    mc::add("many-bufr", []{ many_files(false); }, o);
    mc::add("many-crex", []{ many_files(true); }, o);
    mc::add("large-bufr", []{ large(false); }, o);
    mc::add("large-crex", []{ large(true); }, o);
    mc::add("variables-bufr", []{ variables(false); }, o);
    mc::add("variables-crex", []{ variables(true); }, o);
    mc::add("faults-bufr", []{ faults(false); }, o);
    mc::add("faults-crex", []{ faults(true); }, o);
    mc::add("samples", samples, o);
}
