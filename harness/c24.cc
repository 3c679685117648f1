// C24: decoding and encoding do not depend on what was processed before.
//
// What each message decodes to, and encodes back to, is found out first in a process of its own that does nothing else.
// Then all histories of operations are run, in processes that start afresh or that have been used for other histories, and
// each operation has to give that same result. After each operation, the bulletins that were made by the previous ones and are
// still there are looked at again.
#include "crexmodel.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace cm;

const char* mc::property = "C24";

namespace {

std::string dump_full(const Var& v)
{
    Varinfo i = v.info();
    std::string r = dump(v) + "|" + i->desc + "|" + i->unit + mc::fmt("|%u|%d|%d|%g|%g", i->len, i->imin, i->imax, i->dmin, i->dmax);
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) r += "{" + dump_full(*a) + "}";
    return r;
}
std::string dump_full(const Bulletin& b)
{
    std::string r;
    if (auto c = dynamic_cast<const BufrBulletin*>(&b)) r = dump_header(*c);
    else r = dump_header(dynamic_cast<const CrexBulletin&>(b));
    r += mc::fmt(" [%s] [%s]\n", b.tables.btable ? b.tables.btable->path().filename().c_str() : "", b.tables.dtable ? std::filesystem::path(b.tables.dtable->pathname()).filename().c_str() : "");
    for (auto& s: b.subsets) { r += "subset:\n"; for (auto& v: s) r += dump_full(v) + "\n"; }
    return r;
}
std::string kind(const std::string& outcome) { return outcome.substr(0, outcome.find(':')); }

struct Message
{
    std::string name, raw;
    bool crex = false;
    // What happens in a process that does nothing else
    std::string decoded, header, encoded, printed;
};
std::vector<Message> messages;

template<typename F> std::unique_ptr<Bulletin> run(const Message& m, std::string& outcome, F f)
{
    std::unique_ptr<Bulletin> b;
    outcome = kind(outcome_of([&]{ b = f(); }));
    return b;
}
std::unique_ptr<Bulletin> decode(const Message& m, std::string& outcome)
{
    return run(m, outcome, [&]() -> std::unique_ptr<Bulletin> { if (m.crex) return CrexBulletin::decode(m.raw); return BufrBulletin::decode(m.raw); });
}
std::unique_ptr<Bulletin> decode_verbose(const Message& m, std::string& outcome)
{
    static FILE* null = fopen("/dev/null", "w");
    return run(m, outcome, [&]() -> std::unique_ptr<Bulletin> { if (m.crex) return CrexBulletin::decode_verbose(m.raw, null); return BufrBulletin::decode_verbose(m.raw, null); });
}
std::unique_ptr<Bulletin> decode_header(const Message& m, std::string& outcome)
{
    return run(m, outcome, [&]() -> std::unique_ptr<Bulletin> { if (m.crex) return CrexBulletin::decode_header(m.raw); return BufrBulletin::decode_header(m.raw); });
}
std::string encode(const Bulletin& b)
{
    std::string raw;
    std::string o = outcome_of([&]{ raw = b.encode(); });
    return kind(o) + " " + mc::hex(raw);
}
std::string print(const Bulletin& b)
{
    char* buf = nullptr; size_t size = 0;
    FILE* out = open_memstream(&buf, &size);
    std::string o = outcome_of([&]{ b.print(out); b.print_structured(out); b.print_datadesc(out); });
    fclose(out);
    std::string r = kind(o) + std::string(buf, size);
    free(buf);
    return r;
}

/// Run f in a process of its own; returns what it returns, or "!" and what went wrong
std::string in_process(const std::function<std::string()>& f)
{
    int fds[2];
    if (pipe(fds)) abort();
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fds[0]);
        std::string r;
        try { r = "=" + f(); }
        catch (mc::Violation& e) { r = "!" + e.msg; }
        catch (std::exception& e) { r = std::string("!unexpected exception ") + e.what(); }
        for (size_t p = 0; p < r.size(); ) { ssize_t n = write(fds[1], r.data() + p, r.size() - p); if (n <= 0) break; p += n; }
        _exit(0);
    }
    close(fds[1]);
    std::string r;
    char buf[4096]; ssize_t n;
    while ((n = read(fds[0], buf, sizeof(buf))) > 0) r.append(buf, n);
    close(fds[0]);
    int status;
    waitpid(pid, &status, 0);
    if (status != 0 || r.empty()) return mc::fmt("!the process ended with status %d", status);
    return r;
}
std::string get(const std::string& r)
{
    if (r[0] == '!') { fprintf(stderr, "cannot find out what a message decodes to: %s\n", r.c_str()); _exit(3); }
    return r.substr(1);
}

void find_out(Message& m)
{
    m.decoded = in_process([&]{ std::string o; auto b = decode(m, o); return b ? dump_full(*b) : o; });
    m.header = in_process([&]{ std::string o; auto b = decode_header(m, o); return b ? dump_full(*b) : o; });
    m.encoded = in_process([&]{ std::string o; auto b = decode(m, o); return b ? encode(*b) : ""; });
    m.printed = in_process([&]{ std::string o; auto b = decode(m, o); return b ? print(*b) : ""; });
}

std::string bufr_message(const Codes& dds, unsigned nsub, unsigned count, bool compressed, Header h = Header(), unsigned salt = 0)
{
    Made m; m.dds = dds; m.h = h;
    try {
    for (unsigned s = 0; s < nsub; ++s)
    {
        PatternSource src(count, 0); src.salt = s + salt;
        Model model(custom(), src);
        model.run(dds);
        m.fields.push_back(src.fields);
    }
    } catch (Unspec& e) { fprintf(stderr, "C24: %s: %s\n", str(dds).c_str(), e.why.c_str()); throw; }
    if (!compressed) return m.plain();
    Bits bits;
    write_compressed(bits, m.fields, [](unsigned, const char*) { return 0u; });
    return message(m.h, m.dds, m.fields.size(), true, bits);
}

void add_message(const std::string& name, const std::string& raw, bool crex = false) { Message m; m.name = name; m.raw = raw; m.crex = crex; messages.push_back(m); }

std::string crex_message(const Codes& dds, bool digits)
{
    CMade m; m.dds = dds; m.h.check_digit = digits;
    for (unsigned s = 0; s < 2; ++s)
    {
        CSource src; src.salt = s; src.rich = 0; src.counts = {1};
        CModel model(custom_crex(), src);
        model.run(m.dds);
        m.fields.push_back(src.fields);
    }
    return text(m);
}

/// Bulletins that are there
struct Kept { const Message* m; std::unique_ptr<Bulletin> b; bool header; };

enum Op { DECODE, VERBOSE, HEADER, ENCODE, PRINT, NOPS };
const char* op_names[] = { "decode", "decode verbosely", "decode header of", "decode and encode", "decode and print" };

struct History
{
    std::vector<Kept> kept;
    std::string log;

    void look(const Kept& k, const char* when)
    {
        std::string now = dump_full(*k.b);
        const std::string& was = k.header ? k.m->header : k.m->decoded;
        if (now != was.substr(1)) mc::fail("%s: bulletin %s changed %s: it is\n%s\ninstead of\n%s", log.c_str(), k.m->name.c_str(), when, now.c_str(), was.substr(1).c_str());
    }
    void look_all() { for (auto& k: kept) look(k, "after that"); }

    void op(unsigned o, const Message& m)
    {
        log += std::string(log.empty() ? "" : ", ") + op_names[o] + " " + m.name;
        mc::step();
        std::string res;
        auto b = o == VERBOSE ? decode_verbose(m, res) : o == HEADER ? decode_header(m, res) : decode(m, res);
        bool header = o == HEADER;
        const std::string& expected = header ? m.header : m.decoded;
        if (!b)
        {
            if ("=" + res != expected) mc::fail("%s: %s instead of\n%s", log.c_str(), res.c_str(), expected.c_str());
        } else {
            Kept k{&m, std::move(b), header};
            look(k, "compared to when it is the only one");
            if (o == ENCODE)
            {
                std::string e = "=" + encode(*k.b);
                if (e != m.encoded) mc::fail("%s: encoded as %s instead of %s", log.c_str(), e.c_str(), m.encoded.c_str());
                look(k, "when encoded");
            }
            if (o == PRINT)
            {
                std::string e = "=" + print(*k.b);
                if (e != m.printed) mc::fail("%s: printed as %s instead of %s", log.c_str(), e.c_str(), m.printed.c_str());
                look(k, "when printed");
            }
            kept.push_back(std::move(k));
        }
        look_all();
    }
    /// Destroy, use again, compare or copy what there is
    void other(unsigned o)
    {
        mc::step();
        switch (o)
        {
            case 0:
                log += ", destroy the oldest";
                if (!kept.empty()) kept.erase(kept.begin());
                break;
            case 1:
                log += ", encode the oldest";
                if (!kept.empty() && !kept[0].header)
                {
                    std::string e = "=" + encode(*kept[0].b);
                    if (e != kept[0].m->encoded) mc::fail("%s: encoded as %s instead of %s", log.c_str(), e.c_str(), kept[0].m->encoded.c_str());
                }
                break;
            case 2:
            {
                log += ", compare all";
                bool same[2];
                for (auto& a: kept) for (auto& b: kept)
                {
                    unsigned d = 0;
                    std::stringstream s; notes::Collect c(s);
                    d = a.b->diff(*b.b);
                    bool eq = a.m == b.m && a.header == b.header;
                    if (eq && d) mc::fail("%s: the same message compares as different: %s", log.c_str(), s.str().c_str());
                }
                break;
            }
            case 3:
                log += ", change and destroy the newest";
                if (!kept.empty())
                {
                    for (auto& s: kept.back().b->subsets) { for (auto& v: s) { v.clear_attrs(); v.unset(); } if (!s.empty()) s.pop_back(); }
                    kept.back().b->datadesc.clear();
                    kept.pop_back();
                }
                break;
            case 4:
                log += ", alter elements";
                // Ask for elements altered in a way that messages do not use, and in the same way that they do
                for (auto& k: kept)
                    for (int scale: { 0, 1, 2, 3 }) for (unsigned len: { 5u, 7u, 9u })
                        for (auto c: { B(1, 3), B(1, 4), B(1, 2) })
                            outcome_of([&]{ k.b->tables.btable->query_altered(c, scale, len, -3); });
                break;
            case 5:
                log += ", clear the newest and use it for something else";
                if (!kept.empty())
                {
                    kept.back().b->clear();
                    outcome_of([&]{ kept.back().b->load_tables(); });
                    kept.back().b->datadesc.push_back(B(1, 1));
                    outcome_of([&]{ kept.back().b->obtain_subset(0).store_variable_i(B(1, 1), 1); kept.back().b->encode(); });
                    kept.pop_back();
                }
                break;
        }
        look_all();
    }
};
const unsigned NOTHER = 6;

}

void mc::setup()
{
    install_tables();
    install_crex_tables();
    // Tables that cannot be used: one is broken, one has no sequences
    std::string dir = mc::scratch() + "/tables/";
    std::ofstream(dir + "B0000000000000201000.txt") << custom_b() << " 999999 broken\n";
    std::ofstream(dir + "D0000000000000201000.txt") << custom_d();
    std::ofstream(dir + "B0000000000000202000.txt") << custom_b();
    std::ofstream(dir + "B0000000000000203000.txt") << custom_b();
    std::ofstream(dir + "D0000000000000203000.txt") << custom_d() << " 301099  2 00100\n";
    // The same elements, differently described
    {
        std::string other = custom_b();
        for (size_t p = 0; (p = other.find("ELEMENT", p)) != std::string::npos; p += 7) other.replace(p, 7, "OTHER  ");
        std::ofstream(dir + "B0000000000000199000.txt") << other;
        std::ofstream(dir + "D0000000000000199000.txt") << custom_d();
    }
    custom(); custom_crex();
    Header h;
    auto version = [&](unsigned v) { Header r = h; r.mtv = v; return r; };
    messages.clear();
    add_message("alterations", bufr_message({C(1, 130), C(2, 129), B(1, 3), B(1, 4), C(1, 0), C(2, 0), B(1, 3), C(7, 1), B(1, 4)}, 2, 1, false));
    add_message("other alterations", bufr_message({C(1, 131), B(1, 3), B(1, 4), C(1, 0), C(2, 130), B(1, 3), C(8, 3), B(1, 12)}, 2, 1, false, h, 1));
    add_message("same elements in other tables", bufr_message({C(1, 130), B(1, 3), C(1, 0), B(1, 3), B(1, 12), D(1, 1)}, 1, 1, false, version(199)));
    add_message("local and character data", bufr_message({C(6, 5), B(1, 250), C(6, 12), B(1, 250), C(5, 2), C(5, 3), C(6, 5), B(1, 251)}, 1, 1, false));
    add_message("other local and character data", bufr_message({C(6, 12), B(1, 251), C(6, 7), B(1, 250), C(5, 3), C(6, 12), B(1, 250)}, 1, 1, false));
    add_message("bitmaps", bufr_message({B(1, 2), B(1, 3), C(22, 0), C(36, 0), R(1, 0), B(31, 1), B(31, 31), B(1, 31), R(1, 0), B(31, 1), B(33, 7), C(22, 0), C(37, 0), B(33, 2)}, 2, 2, true));
    add_message("other bitmaps", bufr_message({B(1, 2), B(1, 12), C(23, 0), R(1, 2), B(31, 31), C(23, 255), D(1, 5), C(22, 0), R(1, 1), B(31, 31), B(33, 7)}, 1, 1, false));
    add_message("associated fields and references", bufr_message({C(4, 2), B(31, 21), B(1, 2), C(3, 6), B(1, 3), C(3, 255), B(1, 3)}, 2, 1, false));
    std::string m = messages[0].raw;
    add_message("cut", m.substr(0, m.size() - 7));
    m = messages[5].raw;
    add_message("cut in the middle of bitmaps", m.substr(0, m.size() - 9) + "7777");
    {
        Bits bits; bits.add(0x5555, 16); bits.add(0, 64);
        add_message("unknown element", message(h, {C(1, 130), B(1, 3), C(4, 2), B(31, 21), B(1, 3), B(1, 199)}, 1, false, bits));
        add_message("unknown sequence", message(h, {C(6, 5), B(1, 250), D(5, 5)}, 1, false, bits));
        add_message("bad bitmap", message(h, {B(1, 2), C(22, 0), R(1, 9), B(31, 31), B(33, 7)}, 1, false, bits));
        add_message("broken B table", message(version(201), {B(1, 2), D(1, 1)}, 1, false, bits));
        add_message("missing D table", message(version(202), {B(1, 2), D(1, 1)}, 1, false, bits));
        add_message("broken D table", message(version(203), {B(1, 2), D(1, 1)}, 1, false, bits));
        add_message("no tables", message(version(254), {B(1, 2), D(1, 1)}, 1, false, bits));
    }
    add_message("CREX", crex_message({B(1, 3), R(2, 0), B(1, 11), B(1, 2), B(1, 13)}, true), true);
    add_message("other CREX", crex_message({D(1, 4), R(1, 2), B(1, 10), D(1, 5)}, false), true);
    m = messages[messages.size() - 2].raw;
    add_message("broken CREX", m.substr(0, m.size() - 20) + "x", true);
    add_message("CREX without tables", "CREX++\r\r\nT990101 A001 B01001++\r\r\n 10++\r\r\n7777\r\r\n", true);
    for (auto& x: messages) find_out(x);
    for (auto& x: messages)
    {
        if (x.decoded[0] == '!' || x.header[0] == '!' || x.encoded[0] == '!' || x.printed[0] == '!')
            { fprintf(stderr, "C24: cannot process %s alone: %s %s %s %s\n", x.name.c_str(), x.decoded.c_str(), x.header.c_str(), x.encoded.c_str(), x.printed.c_str()); }
        if (getenv("C24_SHOW")) fprintf(stderr, "%s: %s\n%s\n", x.name.c_str(), x.decoded.c_str(), x.encoded.c_str());
    }

    Options fresh; fresh.leaks = false; fresh.timeout = 60;
    // All pairs of operations, in a process that has done nothing else
    auto run_fresh = [](unsigned n, bool all_ops) {
        std::vector<std::pair<unsigned, const Message*>> ops;
        std::string key;
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned mi = mc::choose(messages.size(), "message"), o = all_ops ? mc::choose(NOPS, "operation") : i + 1 == n ? (unsigned)ENCODE : (unsigned)DECODE;
            ops.push_back(std::make_pair(o, &messages[mi]));
            key += mc::fmt("%u.%u ", o, mi);
        }
        unsigned other = all_ops ? mc::choose(NOTHER, "other operation") : 0;
        std::string res = in_process([&]{
            History h;
            for (size_t i = 0; i < ops.size(); ++i)
            {
                h.op(ops[i].first, *ops[i].second);
                if (i == 0) h.other(other);
            }
            return std::string();
        });
        if (res[0] != '=') mc::fail("%s", res.c_str() + 1);
        mc::state("fresh " + key + mc::fmt("%u", other));
        mc::step(n + 1);
    };
    add("fresh-2", [=]{ run_fresh(2, true); }, fresh);
    add("fresh-3", [=]{ run_fresh(3, false); }, fresh);
    // Longer histories in a process where all sort of things already happened
    Options warm; warm.timeout = 60;
    add("warm", []{
        History h;
        unsigned n = mc::thorough() ? 4 : 3;
        std::string key;
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned nm = messages.size();
            bool last = i + 1 == n;
            unsigned c = mc::choose(nm + (last ? nm : 0) + (i ? NOTHER : 0), "operation");
            key += mc::fmt("%u ", c);
            if (c < nm) h.op(DECODE, messages[c]);
            else if (last && c < 2 * nm) h.op(ENCODE, messages[c - nm]);
            else h.other(c - nm - (last ? nm : 0));
        }
        mc::state("warm " + key);
    }, warm);
    // The sample files, each after each of the others
    add("samples", []{
        static std::vector<Message> samples;
        if (samples.empty())
            for (auto k: { "bufr", "crex" })
                for (auto& f: test_files(k))
                {
                    Message m; m.name = f; m.raw = slurp(f); m.crex = k[0] == 'c';
                    if (m.raw.size() > (mc::thorough() ? 2500u : 800u)) continue;
                    samples.push_back(m);
                }
        Message& a = samples[mc::choose(samples.size(), "first")];
        Message& b = samples[mc::choose(samples.size(), "second")];
        if (a.decoded.empty()) find_out(a);
        if (b.decoded.empty()) find_out(b);
        History h;
        h.op(ENCODE, a);
        h.op(ENCODE, b);
        mc::state(a.name + " " + b.name);
    }, fresh);
}
