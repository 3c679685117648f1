// C04: malformed BUFR input is rejected or decoded, never harmful.
#include "bufrmodel.h"
using namespace bm;

const char* mc::property = "C04";

namespace {

FILE* devnull()
{
    static FILE* f = fopen("/dev/null", "w");
    return f;
}

/// Decode anything: it must either work or raise one of the exceptions of the library
void decode(const std::string& raw, bool deep = false)
{
    if (mc::tracing) mc::trace("input: %s", mc::hex(raw).c_str());
    std::string in(raw); in.shrink_to_fit();
    Quiet quiet;
    std::unique_ptr<BufrBulletin> h, b;
    std::string rh = outcome_of([&] { h = BufrBulletin::decode_header(in); });
    std::string rb = outcome_of([&] { b = BufrBulletin::decode(in); });
    mc::step(2);
    mc::outcome(rh.substr(0, 8) + "," + rb.substr(0, 8));
    if (b && !h) mc::fail("decoded, but not the header alone: %s", rh.c_str());
    if (!b) return;
    if (dump_header(*b) != dump_header(*h)) mc::fail("header decoded alone differs: %s: %s", dump_header(*h).c_str(), dump_header(*b).c_str());
    // Each variable takes at least one bit
    size_t total = 0;
    for (auto& s: b->subsets)
    {
        total += s.size();
        if (s.size() > in.size() * 8) mc::fail("%zu variables in a subset from %zu bytes", s.size(), in.size());
    }
    if (!b->compression && total > in.size() * 8) mc::fail("%zu variables from %zu bytes", total, in.size());
    if (b->subsets.size() > 65535) mc::fail("%zu subsets", b->subsets.size());
    // What was decoded can be used
    if (total > 2000 && !deep) return;
    mc::state(mc::hash(dump_subsets(*b)));
    outcome_of([&] { b->print(devnull()); });
    outcome_of([&] { b->encode(); });
    mc::step(2);
}

struct Base { Codes dds; unsigned nsub; unsigned count; bool compressed; unsigned edition; std::string optional; };
const std::vector<Base> bases {
    { {B(1, 3), B(1, 12)}, 1, 1, false, 4, "" },
    { {B(1, 3), B(1, 12)}, 2, 1, true, 4, "" },
    { {B(1, 2), R(2, 0), B(31, 1), B(1, 11), B(1, 3), B(1, 8)}, 2, 2, false, 3, "ab" },
    { {B(1, 2), R(2, 0), B(31, 1), B(1, 11), B(1, 3), B(1, 8)}, 2, 2, true, 4, "abcd" },
    { {B(1, 2), B(1, 3), C(22, 0), R(1, 2), B(31, 31), R(1, 2), B(33, 7)}, 1, 1, false, 4, "" },
    { {B(1, 2), B(1, 3), C(22, 0), C(36, 0), R(1, 0), B(31, 1), B(31, 31), B(1, 31), R(1, 0), B(31, 1), B(33, 7), C(22, 0), C(37, 0), B(33, 2)}, 2, 2, true, 4, "" },
    { {C(4, 2), B(31, 21), B(1, 2), C(4, 0), C(5, 2), C(6, 5), B(1, 250), C(1, 130), B(1, 4)}, 2, 1, false, 2, "" },
    { {B(1, 2), C(23, 0), R(1, 1), B(31, 31), C(23, 255), D(1, 5), C(3, 6), B(1, 3), C(3, 255), B(1, 3)}, 1, 1, false, 4, "" },
    { {C(4, 8), B(31, 21), B(1, 4), B(1, 12), C(4, 0), B(1, 13)}, 3, 1, true, 4, "" },
};

/// Alternate marked and not marked elements
struct Src : PatternSource { Src(unsigned n) : PatternSource(n, 0) {} };

std::string base(unsigned i)
{
    static std::map<unsigned, std::string> cache;
    std::string& r = cache[i];
    if (!r.empty()) return r;
    const Base& b = bases[i];
    Made m; m.dds = b.dds; m.h.edition = b.edition; m.h.optional = b.optional;
    try {
        for (unsigned s = 0; s < b.nsub; ++s)
        {
            PatternSource src(b.count, 0); src.salt = s;
            Model model(custom(), src);
            model.run(b.dds);
            m.fields.push_back(src.fields);
        }
        if (!b.compressed) return r = m.plain();
        Bits bits;
        write_compressed(bits, m.fields, [](unsigned, const char*) { return 0u; });
        return r = message(m.h, m.dds, m.fields.size(), true, bits);
    }
    catch (Invalid& e) { mc::fail("base %u: %s", i, e.why.c_str()); }
    catch (Unspec& e) { mc::fail("base %u: %s", i, e.why.c_str()); }
    return r;
}

void truncated()
{
    std::string t = base(mc::choose(bases.size(), "message"));
    t.resize(mc::choose(t.size() + 1, "length"));
    if (mc::flag("length fixed") && t.size() >= 8) { t[4] = 0; t[5] = t.size() >> 8; t[6] = t.size(); }
    decode(t);
}

void changed()
{
    std::string t = base(mc::choose(bases.size(), "message"));
    size_t pos = mc::choose(t.size(), "position");
    t[pos] = mc::choose(256, "byte");
    decode(t);
}

/// Missing and extra bytes
void shifted()
{
    std::string t = base(mc::choose(bases.size(), "message"));
    size_t pos = mc::choose(t.size(), "position");
    switch (mc::choose(2, "change"))
    {
        case 0: t.erase(pos, 1 + mc::choose(8, "length")); break;
        case 1: t.insert(pos, 1 + mc::choose(8, "length"), mc::flag("ones") ? '\xff' : '\0'); break;
    }
    decode(t);
}

const std::vector<unsigned> bytes { 0, 1, 2, 0x3f, 0x40, 0x80, 0xc0, 0xfe, 0xff };

void changed_twice(unsigned i, unsigned dist)
{
    std::string t = base(i);
    size_t pos = mc::choose(t.size() - 1, "position");
    size_t pos1 = pos + 1 + mc::choose(std::min<size_t>(t.size() - pos - 1, dist), "position");
    t[pos] = mc::pick(bytes, "byte");
    t[pos1] = mc::pick(bytes, "byte");
    decode(t);
}

void changed_truncated()
{
    std::string t = base(mc::choose(bases.size(), "message"));
    size_t pos = mc::choose(t.size(), "position");
    t[pos] = mc::pick(bytes, "byte");
    t.resize(pos + 1 + mc::choose(t.size() - pos, "length"));
    decode(t);
}

/// Contents of the data section
void fill(Bits& bits, unsigned kind, unsigned n)
{
    switch (kind)
    {
        case 0: bits.add_bytes(std::string(n, '\0'), n * 8); break;
        case 1: bits.add_bytes(std::string(n, '\xff'), n * 8); break;
        case 2: bits.add_bytes(std::string(n, '\x55'), n * 8); break;
        case 3: for (unsigned i = 0; i < n; ++i) bits.add(i, 8); break;
        case 4: for (unsigned i = 0; i < n; ++i) bits.add(i % 3 == 2 ? 1 : 0, 8); break;
        case 5: bits.add(2, 8); bits.add(0, 6); bits.add_bytes(std::string(n, '\x20'), n * 8); break;
    }
}

void with_descriptors(const Codes& dds, unsigned sizes)
{
    Header h;
    Bits bits;
    static const unsigned lens[] = { 24, 0, 1, 3, 200 };
    unsigned n = lens[mc::choose(sizes, "data length")];
    fill(bits, n ? mc::choose(6, "data") : 0, n);
    const unsigned subs[] = { 1, 2, 0, mc::thorough() ? 65535u : 4000u };
    unsigned nsub = subs[mc::choose(n > 50 ? 2 : sizes > 3 ? 4 : 2, "subsets")];
    bool comp = mc::flag("compressed");
    mc::trace("descriptors: %s", str(dds).c_str());
    decode(message(h, dds, nsub, comp, bits));
}

/// All descriptors
void descriptors1()
{
    unsigned f = mc::choose(4, "F"), x = mc::choose(64, "X"), y = mc::choose(256, "Y");
    with_descriptors({ (Varcode)WR_VAR(f, x, y) }, 2);
}

/// All operators and replications, on something
void descriptors_on()
{
    Varcode c = mc::flag("replication") ? R(mc::choose(6, "X"), mc::choose(256, "Y")) : C(mc::choose(64, "X"), mc::choose(256, "Y"));
    static const std::vector<Codes> rest { {B(1, 3), B(1, 12), B(1, 2)}, {B(31, 21), B(1, 2), B(1, 250)}, {B(31, 1), B(1, 4), B(1, 2)}, {B(31, 31), B(33, 2), B(33, 2)}, {R(1, 255), B(31, 31), C(23, 255)}, {C(22, 0), R(1, 1), B(31, 31)} };
    Codes dds { B(1, 2), c };
    const Codes& r = mc::pick(rest, "rest");
    // Only the supported operators look at what follows
    if (!mc::thorough() && WR_VAR_F(c) == 2 && WR_VAR_X(c) > 8 && WR_VAR_X(c) != 22 && WR_VAR_X(c) != 23 && WR_VAR_X(c) != 36 && WR_VAR_X(c) != 37 && &r != &rest[0]) mc::prune();
    dds.insert(dds.end(), r.begin(), r.end());
    with_descriptors(dds, 1);
}

const Codes interesting {
    B(1, 1), B(1, 3), B(1, 5), B(1, 12), B(1, 15), B(2, 2), B(1, 250), B(31, 0), B(31, 1), B(31, 2), B(31, 12), B(31, 21), B(31, 31), B(33, 7), B(33, 15),
    R(0, 0), R(1, 0), R(1, 1), R(1, 2), R(1, 255), R(2, 0), R(2, 3), R(63, 255),
    C(1, 0), C(1, 1), C(1, 130), C(1, 255), C(2, 1), C(2, 255), C(3, 0), C(3, 6), C(3, 33), C(3, 255), C(4, 0), C(4, 1), C(4, 32), C(4, 33), C(5, 0), C(5, 1), C(5, 255), C(6, 0), C(6, 1), C(6, 5), C(6, 33), C(6, 255),
    C(7, 0), C(7, 1), C(7, 9), C(7, 255), C(8, 0), C(8, 1), C(8, 255), C(9, 32), C(21, 5), C(22, 0), C(23, 0), C(23, 255), C(24, 0), C(25, 255), C(32, 255), C(35, 0), C(36, 0), C(37, 0), C(37, 255), C(63, 255),
    D(1, 2), D(1, 4), D(1, 5), D(1, 7), D(63, 255),
};
const Codes fewer {
    B(1, 2), B(1, 12), B(1, 250), B(31, 0), B(31, 1), B(31, 21), B(31, 31), B(33, 7), R(1, 0), R(1, 2), R(2, 255), C(1, 130), C(3, 6), C(3, 255), C(4, 8), C(5, 1), C(6, 5), C(8, 1), C(22, 0), C(23, 0), C(23, 255), C(36, 0), C(37, 0), C(37, 255), D(1, 5),
};

void programs(unsigned len, const Codes& from, unsigned sizes, bool data_first)
{
    Codes dds;
    if (data_first) dds = { B(1, 2), B(1, 12) };
    for (unsigned i = 0; i < len; ++i) dds.push_back(mc::pick(from, "descriptor"));
    with_descriptors(dds, sizes);
}

/// Small input that asks for a lot of work
void work()
{
    static const std::vector<Codes> parts { {R(1, 255)}, {R(1, 0), B(31, 2)}, {R(2, 255)}, {R(1, 0), B(31, 1)}, {C(1, 130)}, {C(5, 1)}, {B(1, 1)}, {C(6, 0)}, {D(1, 4)}, {C(22, 0)}, {C(4, 1), B(31, 21)} };
    Codes p;
    unsigned n = 1 + mc::choose(mc::thorough() ? 3 : 2, "length");
    for (unsigned i = 0; i < n; ++i) { const Codes& c = mc::pick(parts, "part"); p.insert(p.end(), c.begin(), c.end()); }
    unsigned times = mc::choose(2, "times") ? 30 : 1;
    Codes dds;
    for (unsigned i = 0; i < times; ++i) dds.insert(dds.end(), p.begin(), p.end());
    static const std::vector<Codes> lasts { {}, {B(1, 1)}, {C(1, 130), C(2, 130)}, {D(1, 1)}, {R(1, 0), B(31, 0), B(1, 2)} };
    const Codes& l = mc::pick(lasts, "last");
    dds.insert(dds.end(), l.begin(), l.end());
    Header h;
    Bits bits;
    unsigned kind = mc::choose(3, "data");
    bool big = mc::flag("long");
    fill(bits, kind, big ? 100 : 4);
    unsigned nsub = !big && mc::choose(2, "subsets") ? (mc::thorough() ? 65535 : 4000) : 1;
    decode(message(h, dds, nsub, mc::flag("compressed"), bits));
}

/// Section lengths that lie
void lengths()
{
    unsigned i = mc::choose(bases.size(), "message");
    std::string t = base(i);
    // Where sections start
    size_t s1 = 8, s2 = s1 + (unsigned char)t[s1 + 2];
    size_t s3 = s2;
    if (!bases[i].optional.empty()) s3 = s2 + (unsigned char)t[s2 + 2];
    size_t s4 = s3 + (unsigned char)t[s3 + 2];
    std::vector<size_t> starts { 4, s1, s2, s3, s4 };
    for (unsigned k = 0; k < 2; ++k)
    {
        size_t s = starts[mc::choose(5, "section")];
        unsigned old = ((unsigned char)t[s] << 16) | ((unsigned char)t[s + 1] << 8) | (unsigned char)t[s + 2];
        std::vector<unsigned> vals { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 18, 21, 22, 23, old - 3, old - 2, old - 1, old + 1, old + 2, old + 3, 255, 256, 65535, 65536, 0x7fffff, 0x800000, 0xffffff };
        unsigned v = mc::pick(vals, "length");
        t[s] = v >> 16; t[s + 1] = v >> 8; t[s + 2] = v;
    }
    decode(t);
}

/// All lengths of data sections, with all that can be found at their end
void ends()
{
    static const std::vector<Codes> templates { {B(1, 5)}, {B(1, 12)}, {B(1, 15)}, {C(5, 9)}, {C(6, 255), B(1, 250)}, {C(4, 32), B(31, 21), B(1, 5)}, {R(1, 0), B(31, 2), B(1, 1)}, {B(1, 2), C(22, 0), R(1, 0), B(31, 2), B(31, 31)}, {C(3, 31), B(1, 3), C(3, 255), B(1, 3)}, {R(1, 255), B(1, 5)} };
    Codes dds = mc::pick(templates, "template");
    unsigned n = mc::choose(mc::thorough() ? 70 : 24, "data length");
    unsigned kind = mc::choose(4, "data");
    Bits bits;
    if (kind == 3) bits.add(mc::choose(64, "start"), 6);
    fill(bits, kind == 3 ? 1 : kind, n);
    Header h;
    std::string t = message(h, dds, 1 + mc::choose(3, "subsets"), mc::flag("compressed"), bits);
    if (mc::flag("no end")) t.resize(t.size() - 4);
    decode(t);
}

/// Bytes that are not a message
void shortest()
{
    std::string t = base(0);
    t.resize(mc::choose(12, "start"));
    unsigned n = mc::choose(4, "length");
    for (unsigned i = 0; i < n; ++i) t += (char)mc::pick(bytes, "byte");
    decode(t);
}

std::vector<std::string> files;
/// Sample files: positions in the headers and at the start of data, and at their end
void samples()
{
    size_t k = mc::choose(files.size(), "file");
    std::string raw = slurp(files[k]);
    if (raw.size() > (mc::thorough() ? 20000 : 1500)) { raw.resize(mc::thorough() ? 20000 : 1500); }
    size_t max = mc::thorough() ? 1000 : 120;
    size_t pos = mc::choose(std::min(raw.size(), max), "position");
    static const std::vector<unsigned> few { 0, 1, 0x80, 0xff };
    unsigned c = mc::choose(few.size() + 2, "change");
    if (c == few.size()) raw.resize(pos);
    else if (c == few.size() + 1) raw.resize(raw.size() - std::min(raw.size(), pos));
    else raw[pos] = few[c];
    decode(raw);
}
void samples_whole()
{
    size_t k = mc::choose(files.size(), "file");
    std::string raw = slurp(files[k]);
    unsigned n = mc::thorough() ? 64 : 16;
    // Cut in as many equally spaced places
    unsigned c = mc::choose(n, "cut");
    raw.resize(raw.size() * c / n + mc::choose(2, "odd"));
    decode(raw);
}

}

void mc::setup()
{
    install_tables();
    files = test_files("bufr");
    Options o; o.timeout = 30;
    bool th = thorough();
    add("truncated", truncated, o);
    add("changed", changed, o);
    add("shifted", shifted, o);
    for (unsigned i = 0; i < bases.size(); ++i) add(mc::fmt("changed-twice-%u", i), [i, th]{ changed_twice(i, th ? 200 : 6); }, o);
    add("changed-truncated", changed_truncated, o);
    add("descriptors-1", descriptors1, o);
    add("descriptors-on", descriptors_on, o);
    add("programs-1", []{ programs(1, interesting, 5, true); }, o);
    add("programs-2", [th]{ programs(2, interesting, th ? 5 : 1, true); }, o);
    add("programs-3", [th]{ programs(3, th ? interesting : fewer, 1, true); }, o);
    if (th) add("programs-4", []{ programs(4, fewer, 1, true); }, o);
    add("work", work, o);
    add("lengths", lengths, o);
    add("ends", ends, o);
    add("shortest", shortest, o);
    add("samples", samples, o);
    add("samples-cut", samples_whole, o);
}
