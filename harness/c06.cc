// C06: malformed CREX input is rejected or decoded, never harmful.
#include "crexmodel.h"
using namespace cm;

const char* mc::property = "C06";

namespace {

FILE* devnull()
{
    static FILE* f = fopen("/dev/null", "w");
    return f;
}

/// Decode anything: it must either work or raise one of the exceptions of the library
void decode(const std::string& t)
{
    mc::trace("input: %s", mc::esc(t).c_str());
    // No room after the end
    std::string in(t); in.shrink_to_fit();
    Quiet quiet;
    std::unique_ptr<CrexBulletin> h, b;
    std::string rh = outcome_of([&] { h = CrexBulletin::decode_header(in); });
    std::string rb = outcome_of([&] { b = CrexBulletin::decode(in); });
    mc::step(2);
    mc::outcome(rh.substr(0, 8) + "," + rb.substr(0, 8));
    if (b && !h) mc::fail("decoded, but not the header alone: %s", rh.c_str());
    if (b)
    {
        if (dump_header(*b) != dump_header(*h)) mc::fail("header decoded alone differs: %s: %s", dump_header(*h).c_str(), dump_header(*b).c_str());
        // What was decoded can be used
        std::string d = dump_subsets(*b);
        mc::state(mc::hash(d));
        // Each variable takes at least one character
        for (auto& s: b->subsets) if (s.size() > in.size()) mc::fail("%zu variables from %zu characters", s.size(), in.size());
        if (b->subsets.size() > in.size()) mc::fail("%zu subsets from %zu characters", b->subsets.size(), in.size());
        outcome_of([&] { b->print(devnull()); });
        outcome_of([&] { b->encode(); });
        mc::step(3);
    }
}

struct Base { Codes dds; unsigned nsub; unsigned count; bool digit; std::string supp; unsigned rich; };
const std::vector<Base> bases {
    { {B(1, 1), B(1, 12)}, 1, 1, false, "", 0 },
    { {B(1, 3), R(2, 0), B(1, 11), B(1, 2), B(1, 13)}, 2, 2, true, "", 0 },
    { {D(1, 4), R(1, 2), B(1, 10), D(1, 5)}, 3, 1, false, " SOME TEXT + ", 0 },
    { {B(1, 6), B(2, 1), B(2, 2), R(1, 0), D(1, 1)}, 2, 0, false, "", 1 },
    { {R(3, 3), B(1, 1), R(1, 0), B(1, 12)}, 1, 3, true, " X", 0 },
};

std::string base(unsigned i)
{
    static std::map<unsigned, std::string> cache;
    std::string& r = cache[i];
    if (!r.empty()) return r;
    const Base& b = bases[i];
    struct Src : CSource { bool missing = false; CField value(const BEntry& e) override { CField f = CSource::value(e); if (missing && fields.size() % 2) fields.back().set = f.set = false; return f; } };
    CMade m; m.dds = b.dds; m.h.check_digit = b.digit;
    for (unsigned s = 0; s < b.nsub; ++s)
    {
        Src src; src.salt = s; src.rich = 0; src.counts = {b.count}; src.missing = b.rich;
        CModel model(custom_crex(), src);
        model.run(b.dds);
        m.fields.push_back(src.fields);
    }
    Layout l; l.supp = b.supp;
    return r = text(m, l);
}

const std::string alphabet = std::string(" \n+/-017789ABCDERST\t.") + '\0' + '\xff';

void truncated()
{
    std::string t = base(mc::choose(bases.size(), "message"));
    t.resize(mc::choose(t.size() + 1, "length"));
    decode(t);
}

void changed(bool reduced)
{
    std::string t = base(mc::choose(bases.size(), "message"));
    size_t pos = mc::choose(t.size(), "position");
    switch (mc::choose(reduced ? 1 : 5, "change"))
    {
        case 0: t[pos] = alphabet[mc::choose(alphabet.size(), "character")]; break;
        case 1: t.insert(pos, 1, alphabet[mc::choose(alphabet.size(), "character")]); break;
        case 2: t.erase(pos, 1 + mc::choose(8, "length")); break;
        case 3: t.insert(pos, t.substr(pos, 1 + mc::choose(8, "length"))); break;
        case 4: t[pos] = (char)mc::choose(256, "character"); break;
    }
    decode(t);
}

/// Changed, then truncated
void changed_truncated()
{
    std::string t = base(mc::choose(mc::thorough() ? bases.size() : 2, "message"));
    size_t pos = mc::choose(t.size(), "position");
    static const std::string few = " +/-19CRE";
    t[pos] = few[mc::choose(few.size(), "character")];
    t.resize(pos + 1 + mc::choose(std::min<size_t>(t.size() - pos, mc::thorough() ? 200 : 40), "length"));
    decode(t);
}

/// Two changes
void changed_twice(unsigned i)
{
    std::string t = base(i);
    static const std::string few = "+/- 9CR";
    size_t pos = mc::choose(t.size() - 1, "position");
    size_t pos1 = pos + 1 + mc::choose(std::min<size_t>(t.size() - pos - 1, mc::thorough() ? 200 : 24), "position");
    t[pos] = few[mc::choose(few.size(), "character")];
    t[pos1] = few[mc::choose(few.size(), "character")];
    decode(t);
}

/// Anything that can be made of the parts of a message
void tokens(unsigned len, bool header)
{
    static const std::vector<std::string> all {
        "T000399 ", "A000 ", "A000001 ", "B01001 ", "B01012 ", "B99999 ", "R01000 ", "R01002 ", "R00000 ", "R63255 ", "D01005 ", "D63255 ",
        "C01255 ", "C05002 ", "C06005 ", "C22000 ", "E ", "++ ", "+ ", "1 ", "0002 ", "9999 ", "AB ", "// ", "SUPP ", "7777"
    };
    static const std::vector<std::string> descriptors {
        "B01001", "B01012 ", "R01000 ", "R01002 ", "R00000 ", "R02000 ", "R63255 ", "D01005 ", "C01120 ", "C02255", "C03008 ", "C04008 ", "C05002 ", "C06005 ", "C07009 ", "C08255 ", "C22000 ", "C23000 ", "C23255 ",
        "C36000 ", "C37000 ", "B31000 ", "B31001 ", "B31012 ", "B31021 ", "B31031 ", "B33007 ", "E "
    };
    static const std::vector<std::string> data {
        "", "1 1 1 1 1 1 1 1 1 1++ 7777\r\r\n", "0002 1 2 AB 0001 AB 1 2 3++ 7777\r\r\n", "10002 20001 31 45 51 60 7AB 8AB 91 01 11 21++7777\r\r\n", "9999 9999 9999", "//// // / // // / // / ++ 7777",
        "0000 0000 0000 0000++\r\r\n7777\r\r\n", "-001 -1 -0002 -1++ 7777  ", "1+2+3+4++7777     "
    };
    std::string t = "CREX++ ";
    if (header)
    {
        t += "T000399 A000 ";
        for (unsigned i = 0; i < len; ++i) t += mc::pick(descriptors, "descriptor");
        t += "++ ";
        t += mc::pick(data, "data");
    } else
        for (unsigned i = 0; i < len; ++i) t += mc::pick(all, "token");
    decode(t);
}

/// Little data, and descriptors that ask for a lot of work
void work()
{
    static const std::vector<std::string> parts { "R01255 ", "R01000 ", "R02255 ", "R63255 ", "D01004 ", "C01130 ", "C05001 ", "B01001 ", "C06000 ", "R01000 B31000 " };
    std::string t = "CREX++ T000399 A000 ";
    unsigned n = 1 + mc::choose(3, "length");
    for (unsigned i = 0; i < n; ++i) t += mc::pick(parts, "part");
    // A lot of them
    unsigned times = mc::choose(2, "times") ? 40 : 1;
    std::string p = t.substr(20);
    for (unsigned i = 1; i < times; ++i) t += p;
    static const std::vector<std::string> lasts { "", "B01001 ", "C01130 ", "C01130 C02130 ", "D01001 " };
    t += mc::pick(lasts, "last");
    t += "++ ";
    static const std::vector<std::string> data { "", "9999 9999 9999 9999", "1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1", "9999 ++ 7777     " };
    t += mc::pick(data, "data");
    decode(t);
}

/// The text of very short messages
void shortest()
{
    std::string t = "CREX++ T000399 A000 ";
    t.resize(mc::choose(t.size() + 1, "start"));
    unsigned n = mc::choose(mc::thorough() ? 4 : 3, "length");
    for (unsigned i = 0; i < n; ++i) t += alphabet[mc::choose(alphabet.size(), "character")];
    decode(t);
}

/// All the digits in the header
void header_fields()
{
    static const std::vector<std::string> ts { "T", "T0", "T00", "T0003", "T00039", "T000399", "T0003990", "T00039900", "T9999999999999", "T-10399", "T 00399", "T00 399", "TAAAAAA", "T+0+0+0", "T000399000000" };
    static const std::vector<std::string> as { "A", "A0", "A00", "A000", "A0000", "A00000", "A000000", "A0000000", "A999", "A999999", "A-01", "A-00001", "A AAA", "AAAA", "A00000000000000000000", "A256", "A000256", "" };
    std::string t = "CREX++ " + mc::pick(ts, "tables") + " " + mc::pick(as, "category");
    static const std::vector<std::string> rest { " B01001++ 1++ 7777  ", "", " ", " B01001", "++", "B01001++1++7777  ", " B01001E++ 11++7777 ", " EEE++ 1++7777 " };
    t += mc::pick(rest, "rest");
    decode(t);
}

std::vector<std::string> files;
void samples()
{
    size_t k = mc::choose(files.size(), "file");
    std::string raw = slurp(files[k]);
    size_t max = mc::thorough() ? 100000 : 800;
    if (raw.size() > max && mc::choose(2, "kind"))
    {
        // The end of long messages
        raw = raw.substr(0, raw.size() - mc::choose(300, "cut"));
        decode(raw);
        return;
    }
    size_t pos = mc::choose(std::min(raw.size(), max), "position");
    static const std::string few = " +/-7B";
    unsigned c = mc::choose(few.size() + 2, "change");
    if (c == few.size()) raw.resize(pos);
    else if (c == few.size() + 1) raw.erase(pos, 1);
    else raw[pos] = few[c];
    decode(raw);
}

}

void mc::setup()
{
    install_crex_tables();
    files = test_files("crex");
    Options o; o.timeout = 20;
    bool th = thorough();
    add("truncated", truncated, o);
    add("changed", []{ changed(false); }, o);
    add("changed-truncated", changed_truncated, o);
    for (unsigned i = 0; i < bases.size(); ++i) add(mc::fmt("changed-twice-%u", i), [i]{ changed_twice(i); }, o);
    for (unsigned n = 1; n <= (th ? 5 : 4); ++n) add(mc::fmt("tokens-%u", n), [n]{ tokens(n, false); }, o);
    for (unsigned n = 1; n <= (th ? 4 : 3); ++n) add(mc::fmt("descriptors-%u", n), [n]{ tokens(n, true); }, o);
    add("work", work, o);
    add("shortest", shortest, o);
    add("header-fields", header_fields, o);
    add("samples", samples, o);
}
