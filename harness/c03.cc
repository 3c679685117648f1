// C03: compressed and uncompressed BUFR decode to the same subsets.
#include "bufrmodel.h"
using namespace bm;

const char* mc::property = "C03";

namespace {

typedef std::function<unsigned(unsigned, const char*)> Variant;

Variant all_variants = [](unsigned n, const char* label) { return mc::choose(n, label); };
Variant plain_variant = [](unsigned, const char*) { return 0u; };
/// Different variants for different elements, with the same choices for all
struct Cycle
{
    unsigned mode, n = 0;
    unsigned operator()(unsigned k, const char*) { return (mode + n++ * 5) % k; }
};

void check(const Made& m, Variant variant, const char* what)
{
    if (m.invalid) mc::prune();
    Bits bits;
    try { write_compressed(bits, m.fields, variant); } catch (Unspec&) { mc::prune(); }
    std::string comp = message(m.h, m.dds, m.fields.size(), true, bits);
    mc::trace("descriptors: %s", str(m.dds).c_str());
    if (mc::tracing) { mc::trace("values: %s", canon(m.vals).c_str()); mc::trace("compressed: %s", mc::hex(comp).c_str()); }
    mc::step(2);
    Quiet quiet;
    std::unique_ptr<BufrBulletin> b;
    std::string res = outcome_of([&] { b = BufrBulletin::decode(comp); });
    if (!b) mc::fail("%s: cannot decode compressed %s: %s", what, str(m.dds).c_str(), res.c_str());
    check_header(*b, m.h, m.dds, true, what);
    check_subsets(*b, m.vals, (std::string(what) + " compressed").c_str());
    mc::state(mc::hash(comp));
    for (auto& v: m.vals) mc::step(v.size());
    if (m.fields.size() > 1000) return;
    // The same, not compressed
    std::string plain = m.plain();
    std::unique_ptr<BufrBulletin> p;
    res = outcome_of([&] { p = BufrBulletin::decode(plain); });
    if (!p) mc::fail("%s: cannot decode uncompressed %s: %s", what, str(m.dds).c_str(), res.c_str());
    check_subsets(*p, m.vals, (std::string(what) + " uncompressed").c_str());
}

/// All values of narrow elements in all subsets, with all ways of representing them
void values(unsigned nsubsets, unsigned maxbits)
{
    static const Codes elements { B(1, 1), B(1, 2), B(2, 1), B(1, 3), B(2, 2), B(1, 4), B(1, 7), B(1, 8), B(1, 6), B(1, 5), B(33, 2) };
    Codes ok;
    for (auto c: elements) if (custom().b.at(c).bits <= maxbits) ok.push_back(c);
    Codes dds { mc::pick(ok, "element"), B(1, 1) };
    unsigned bits = custom().b.at(dds[0]).bits;
    Made m = make(custom(), dds, nsubsets, [&](ChoiceSource& s, unsigned i) { s.rich = 3; if (bits > 3 && nsubsets > 3) s.rich = 2; s.rich_fields = 1; }, true);
    unsigned count = 0;
    check(m, [&](unsigned n, const char* label) { return count++ < 4 ? mc::choose(n, label) : 0; }, "values");
}

void narrow(unsigned nsubsets, Varcode code)
{
    Made m = make(custom(), { code }, nsubsets, [&](ChoiceSource& s, unsigned) { s.rich = 3; }, true);
    check(m, all_variants, "narrow");
}

void strings(unsigned nsubsets)
{
    static const std::vector<Codes> templates { {B(1, 11)}, {B(1, 12)}, {C(8, 3), B(1, 11)}, {B(1, 13)}, {B(1, 14)}, {C(8, 63), B(1, 11)} };
    Codes dds = mc::pick(templates, "template");
    dds.push_back(B(1, 1));
    Made m = make(custom(), dds, nsubsets, [&](ChoiceSource& s, unsigned i) { s.rich = i < 2 ? 3 : 2; s.salt = mc::thorough() ? i : i % 2; s.rich_fields = 1; }, true);
    unsigned count = 0;
    check(m, [&](unsigned n, const char* label) { return count++ < 3 ? mc::choose(n, label) : 0; }, "strings");
}

/// All bytes in strings of two characters, and some in longer ones
void bytes(unsigned len)
{
    Codes dds { C(8, len), B(1, 12), B(1, 1) };
    // If there is another subset, it has another string
    Made m = make(custom(), dds, 1 + mc::choose(2, "subsets"), [&](ChoiceSource& s, unsigned i) { s.rich = 0; s.rich_fields = 1; s.all_bytes = i == 0; }, true);
    // When differences are cut to what is used, this would be a missing value
    const MVal& v = m.vals[0][0];
    if (v.set && v.s.find_first_not_of('\xff') == std::string::npos) mc::prune();
    unsigned count = 0;
    check(m, [&](unsigned n, const char* label) { return count++ < 3 ? mc::choose(n, label) : 0; }, "bytes");
}

/// Sequences of all that can be compressed
void sequences(unsigned len, unsigned nsubsets)
{
    static const std::vector<Codes> items {
        {B(1, 3)}, {B(1, 12)}, {B(1, 8)}, {B(2, 1)}, {C(1, 130)}, {C(1, 0)}, {C(2, 129)}, {C(7, 1)}, {C(8, 1)}, {D(1, 2)}, {D(1, 5)},
        {R(1, 2), B(1, 2)}, {R(1, 0), B(31, 0), B(1, 11)}, {R(2, 0), B(31, 1), B(1, 3), C(2, 128)}, {R(1, 0), B(31, 2), B(2, 2)},
        {C(4, 2), B(31, 21)}, {C(4, 1), B(31, 21)}, {C(4, 0)}, {C(6, 5), B(1, 192)}, {B(1, 1)},
        {C(22, 0), R(1, 2), B(31, 31), R(1, 2), B(33, 7)}, {C(22, 0), C(36, 0), R(1, 0), B(31, 1), B(31, 31), B(1, 31), B(33, 7)},
        {C(23, 0), R(1, 1), B(31, 31), C(23, 255)}, {C(22, 0), C(37, 0), B(33, 2)},
    };
    Codes dds;
    for (unsigned i = 0; i < len; ++i) { const Codes& c = mc::pick(items, "item"); dds.insert(dds.end(), c.begin(), c.end()); }
    Made m = make(custom(), dds, nsubsets, [&](ChoiceSource& s, unsigned i) { s.rich = len <= 2 && nsubsets == 2 ? 1 : 0; s.af_rich = len <= 2 ? 1 : 0; s.counts = {0, 2}; s.sigs = {2}; }, true);
    Cycle c; c.mode = mc::choose(len <= 2 ? 6 : 2, "variant");
    check(m, c, "sequences");
}

/// Delayed replications: all counts, also those with all bits set
void counts()
{
    static const Codes factors { B(31, 0), B(31, 1), B(31, 2), B(31, 11), B(31, 12) };
    Varcode f = mc::pick(factors, "factor");
    Codes dds { R(1, 0), f, B(1, 2), B(1, 3) };
    unsigned nsub = 1 + mc::choose(3, "subsets");
    Made m = make(custom(), dds, nsub, [&](ChoiceSource& s, unsigned) { s.rich = 0; s.counts = {0, 1, 2, 3, 254, 255, 256, 65535}; }, true);
    check(m, plain_variant, "counts");
}

/// Associated fields
void associated(unsigned nsubsets)
{
    static const std::vector<unsigned> widths { 1, 2, 3, 7, 8, 31, 32 };
    unsigned w = mc::pick(widths, "width");
    static const std::vector<Codes> rest { {B(1, 2)}, {B(1, 12)}, {B(1, 1), C(4, 0), B(1, 3)}, {R(1, 0), B(31, 0), B(1, 1)} };
    Codes dds { C(4, w), B(31, 21) };
    const Codes& r = mc::pick(rest, "rest");
    dds.insert(dds.end(), r.begin(), r.end());
    Made m = make(custom(), dds, nsubsets, [&](ChoiceSource& s, unsigned i) { s.rich = i == 0 ? 1 : 0; s.af_rich = w > 7 ? 0 : nsubsets > 2 || w > 2 ? 2 : 3; s.sigs = {1, 2, 7, 63}; s.counts = {0, 1}; }, true);
    unsigned count = 0;
    check(m, [&](unsigned n, const char* label) { return count++ < 3 ? mc::choose(n, label) : 0; }, "associated fields");
}

/// Quality values and substituted values
void bitmaps(unsigned nsubsets)
{
    static const std::vector<Codes> templates {
        {B(1, 2), B(1, 12), B(1, 3), C(22, 0), R(1, 3), B(31, 31), R(1, 3), B(33, 7)},
        {B(1, 2), B(1, 12), C(23, 0), R(1, 2), B(31, 31), R(1, 2), C(23, 255)},
        {B(1, 2), B(1, 12), C(22, 0), C(36, 0), R(1, 2), B(31, 31), B(33, 2), B(33, 2), C(22, 0), C(37, 0), B(33, 3), B(33, 3), C(37, 255)},
        {B(1, 2), R(1, 0), B(31, 0), B(1, 3), C(22, 0), R(1, 0), B(31, 1), B(31, 31), B(33, 15), B(33, 15)},
    };
    Codes dds = mc::pick(templates, "template");
    Made m = make(custom(), dds, nsubsets, [&](ChoiceSource& s, unsigned i) { s.rich = i == 0 || nsubsets == 2 ? 1 : 0; s.counts = {1, 2}; }, true);
    Cycle c; c.mode = mc::choose(3, "variant");
    check(m, c, "bitmaps");
}

/// Fields and differences of all widths
void widths()
{
    unsigned bits = 1 + mc::choose(32, "bits");
    Codes dds { C(1, 128 + bits - 7), B(1, 4) };
    if (bits == 7) dds = { B(1, 4) };
    // The two values
    std::vector<uint64_t> vals { 0, 1, ones(bits) / 2, ones(bits) - 1 };
    Made m;
    m.dds = dds;
    unsigned nsub = 1 + mc::choose(4, "subsets");
    for (unsigned i = 0; i < nsub; ++i)
    {
        unsigned k = mc::choose(5, "value");
        Field f; f.kind = Field::NUM; f.bits = bits; f.code = B(1, 4);
        f.raw = k == 4 ? ones(bits) : std::min<uint64_t>(vals[k], 0x7fffffff) & ones(bits);
        MVal v; v.code = f.code; v.bits = bits; v.set = f.raw != ones(bits); v.num = f.raw;
        m.fields.push_back({ f }); m.vals.push_back({ v });
    }
    check(m, all_variants, "widths");
}

/// Many subsets
void many()
{
    static const std::vector<unsigned> ns { 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 65534, 65535 };
    unsigned n = mc::pick(ns, "subsets");
    Codes dds { B(1, 3), B(1, 12), B(1, 8) };
    if (n > 1000) dds = { B(1, 3), B(1, 4) };
    unsigned kind = mc::choose(4, "kind");
    Made m = make(custom(), dds, n, [&](ChoiceSource& s, unsigned i) { s.rich = 0; s.salt = kind == 0 ? 0 : kind == 1 ? i : kind == 2 ? i / 2 : i == n - 1; }, true);
    check(m, plain_variant, "many");
}

/// Semantic values that differ between subsets cannot be represented: never decoded as something else
void semantic()
{
    unsigned nsub = 2;
    unsigned d0 = mc::choose(2, "first"), d1 = mc::choose(2, "second");
    Bits bits;
    Header h;
    Codes dds;
    switch (mc::choose(2, "kind"))
    {
        case 0: // Replication count
            dds = { R(1, 0), B(31, 1), B(1, 2) };
            bits.add(1, 8); bits.add(2, 6); bits.add(d0, 2); bits.add(d1, 2);
            break;
        case 1: // Bitmap
            dds = { B(1, 2), C(22, 0), R(1, 1), B(31, 31), B(33, 2) };
            bits.add(1, 2); bits.add(0, 6);
            bits.add(0, 1); bits.add(1, 6); bits.add(d0, 1); bits.add(d1, 1);
            break;
    }
    bits.add(0, 60);
    std::string raw = message(h, dds, nsub, true, bits);
    std::unique_ptr<BufrBulletin> b;
    std::string res = outcome_of([&] { b = BufrBulletin::decode(raw); });
    mc::step();
    mc::outcome(res.substr(0, 7));
    if (b && d0 != d1) mc::fail("decoded a compressed message with %s that differs between subsets", str(dds).c_str());
}

}

void mc::setup()
{
    install_tables();
    Options o; o.leaks = false;
    bool th = thorough();
    add("values-1", []{ values(1, 32); }, o);
    add("values-2", []{ values(2, 32); }, o);
    add("values-3", []{ values(3, 32); }, o);
    add("values-4", [th]{ values(4, th ? 32 : 2); }, o);
    for (unsigned n = 1; n <= (th ? 8 : 6); ++n) add(mc::fmt("bits-1-%u", n), [n]{ narrow(n, B(1, 1)); }, o);
    for (unsigned n = 1; n <= (th ? 7 : 5); ++n) add(mc::fmt("bits-2-%u", n), [n]{ narrow(n, B(1, 2)); }, o);
    for (unsigned n = 1; n <= (th ? 5 : 4); ++n) add(mc::fmt("bits-3-%u", n), [n]{ narrow(n, B(1, 3)); }, o);
    for (unsigned n = 1; n <= 3; ++n) add(mc::fmt("bytes-%u", n), [n]{ bytes(n); }, o);
    for (unsigned n = 1; n <= (th ? 4 : 3); ++n) add(mc::fmt("strings-%u", n), [n]{ strings(n); }, o);
    add("sequences-1", []{ sequences(1, 2); }, o);
    add("sequences-2", []{ sequences(2, 2); }, o);
    add("sequences-3", []{ sequences(3, 2); }, o);
    add("sequences-3-3", []{ sequences(3, 3); }, o);
    add("sequences-4", []{ sequences(4, 3); }, o);
    if (th) add("sequences-5", []{ sequences(5, 2); }, o);
    add("counts", counts, o);
    add("associated-1", []{ associated(1); }, o);
    add("associated-2", []{ associated(2); }, o);
    add("associated-3", []{ associated(3); }, o);
    add("bitmaps-1", []{ bitmaps(1); }, o);
    add("bitmaps-2", []{ bitmaps(2); }, o);
    add("bitmaps-3", []{ bitmaps(3); }, o);
    add("widths", widths, o);
    add("semantic", semantic, o);
    o.timeout = 120;
    add("many", many, o);
}
