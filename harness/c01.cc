// C01: BUFR encode then decode gives back the same bulletin.
#include "bufrmodel.h"
using namespace bm;

const char* mc::property = "C01";

namespace {

/// Values with what encoding would write
void canonicalise(Made& m) { for (auto& f: m.fields) f = canonical(f); }

std::string encode(const Bulletin& b, std::string* err = nullptr)
{
    std::string res;
    std::string o = outcome_of([&]{ res = b.encode(); });
    if (err) *err = o;
    else if (o != "ok") mc::fail("cannot encode %s: %s", str(b.datadesc).c_str(), o.c_str());
    return res;
}

/// Encode, compare with the expected bytes, decode and compare with the values
void roundtrip(Made m, const char* what)
{
    if (m.invalid || m.lossy) mc::prune();
    canonicalise(m);
    std::string expected = m.plain();
    mc::trace("descriptors: %s", str(m.dds).c_str());
    if (mc::tracing) { mc::trace("values: %s", canon(m.vals).c_str()); mc::trace("expected: %s", mc::hex(expected).c_str()); }
    Quiet quiet;
    mc::step(2);
    auto b = make_bulletin(m.h, m.dds, m.vals);
    std::string got = encode(*b);
    if (got != expected) mc::fail("%s: %s encoded as %s instead of %s", what, str(m.dds).c_str(), mc::hex(got).c_str(), mc::hex(expected).c_str());
    check_subsets(*b, m.vals, (std::string(what) + " after encoding").c_str());
    std::unique_ptr<BufrBulletin> b1;
    std::string res = outcome_of([&]{ b1 = BufrBulletin::decode(got); });
    if (!b1) mc::fail("%s: cannot decode what was encoded: %s", what, res.c_str());
    Header h = m.h;
    check_header(*b1, h, m.dds, false, what);
    check_subsets(*b1, m.vals, what);
    mc::state(mc::hash(got));
    mc::step(2);
}

Codes choose_codes(const std::vector<Codes>& items, unsigned len)
{
    Codes res;
    for (unsigned i = 0; i < len; ++i)
    {
        const Codes& c = mc::pick(items, "item");
        res.insert(res.end(), c.begin(), c.end());
    }
    return res;
}

void sequences(unsigned len, unsigned nsubsets)
{
    static const std::vector<Codes> items {
        {B(1, 1)}, {B(1, 3)}, {B(2, 2)}, {B(1, 12)}, {B(1, 8)},
        {C(1, 130)}, {C(1, 0)}, {C(2, 129)}, {C(7, 1)}, {C(8, 1)}, {C(8, 3)}, {D(1, 2)}, {D(1, 5)},
        {R(1, 2), B(1, 2)}, {R(1, 0), B(31, 0), B(1, 11)}, {R(2, 0), B(31, 1), B(1, 3), C(2, 128)},
        {C(3, 6), B(1, 3), C(3, 255)}, {C(4, 2), B(31, 21)}, {C(4, 0)}, {C(5, 3)}, {C(6, 5), B(1, 192)}, {C(6, 11), B(1, 250)},
        {C(22, 0), R(1, 2), B(31, 31), R(1, 2), B(33, 7)}, {C(23, 0), R(1, 0), B(31, 1), B(31, 31), B(1, 31), R(1, 1), C(23, 255)},
    };
    Codes dds = choose_codes(items, len);
    Made m = make(custom(), dds, nsubsets, [&](ChoiceSource& s, unsigned i) { s.rich = len <= 2 ? 2 : 0; s.counts = {0, 2}; s.refs = {3, -2}; s.af_rich = len <= 2 ? 1 : 0; s.sigs = len <= 2 ? std::vector<unsigned>{1, 2, 7, 63} : std::vector<unsigned>{2}; });
    roundtrip(m, "sequences");
}

/// Elements used with their own reference value and with ones that are defined, defined again and cancelled
void references(unsigned len)
{
    static const std::vector<Codes> items {
        {B(1, 3)}, {B(1, 2)}, {C(3, 6), B(1, 3), C(3, 255)}, {C(3, 5), B(1, 3), B(1, 2), C(3, 255)}, {C(3, 0)}, {R(1, 0), B(31, 1), B(1, 3)}, {C(1, 130)}
    };
    Made m = make(custom(), choose_codes(items, len), 1, [&](ChoiceSource& s, unsigned) { s.rich = 0; s.counts = {0, 2}; s.refs = {3, -2}; });
    roundtrip(m, "references");
}

/// All values of single elements
void values()
{
    static const Codes elements {
        B(1, 1), B(1, 2), B(1, 3), B(1, 4), B(1, 5), B(1, 6), B(1, 7), B(1, 8), B(1, 9), B(1, 11), B(1, 12), B(1, 13), B(1, 14), B(1, 15), B(2, 1), B(2, 2), B(2, 3), B(1, 192)
    };
    Codes dds;
    switch (mc::choose(7, "operator"))
    {
        case 0: break;
        case 1: dds.push_back(C(1, 96 + mc::choose(64, "Y"))); break;
        case 2: dds.push_back(C(2, 110 + mc::choose(36, "Y"))); break;
        case 3: dds.push_back(C(7, mc::choose(10, "Y"))); break;
        case 4: dds.push_back(C(8, mc::choose(12, "Y"))); break;
        case 5: dds.push_back(C(8, 200 + mc::choose(56, "Y"))); break;
        case 6: dds = { C(1, 115 + mc::choose(26, "Y1")), C(2, 120 + 4 * mc::choose(6, "Y2")) }; break;
    }
    bool plain = dds.empty();
    dds.push_back(mc::pick(elements, "element"));
    dds.push_back(C(1, 0)); dds.push_back(B(1, 1));
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) { s.rich = 3; s.narrow = plain ? 13 : 6; });
    // A string with only high bytes is a missing value
    roundtrip(m, "values");
}

/// All bytes in all kinds of fields made of bytes
void bytes()
{
    unsigned n = 1 + mc::choose(3, "length");
    Codes dds;
    switch (mc::choose(3, "kind"))
    {
        case 0: dds = { C(5, n) }; break;
        case 1: dds = { C(8, n), B(1, 12) }; break;
        case 2: dds = { C(6, n * 8 - mc::choose(4, "bits less")), B(1, 250) }; break;
    }
    dds.push_back(B(1, 2));
    roundtrip(make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) { s.rich = 0; s.all_bytes = true; }), "bytes");
}

/// Character data and local elements
void local()
{
    Codes dds;
    switch (mc::choose(3, "kind"))
    {
        case 0: dds = { C(5, 1 + mc::choose(255, "chars")) }; break;
        case 1: dds = { C(6, 1 + mc::choose(255, "bits")), B(1, 250) }; break;
        case 2: dds = { R(2, 2), C(6, 11), B(1, 250), C(5, 3), C(5, 3), C(6, 12), B(1, 250), C(6, 11), B(1, 251) }; break;
    }
    dds.push_back(B(1, 3));
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) { s.rich = dds.size() > 5 ? 1 : 3; });
    roundtrip(m, "local");
}

/// Associated fields
void associated()
{
    static const std::vector<unsigned> widths { 1, 2, 3, 4, 7, 8, 16, 32 };
    unsigned w = mc::pick(widths, "width");
    static const std::vector<Codes> rest {
        {B(1, 2)}, {B(1, 12)}, {B(1, 3), C(4, 0), B(1, 3)}, {R(1, 0), B(31, 1), B(1, 12), C(4, 0), B(1, 1)}, {B(2, 1), C(4, 0), C(4, 3), B(31, 21), B(2, 1)}, {C(1, 130), B(1, 3), D(1, 8)},
    };
    Codes dds { C(4, w), B(31, 21) };
    const Codes& r = mc::pick(rest, "rest");
    dds.insert(dds.end(), r.begin(), r.end());
    Made m = make(custom(), dds, 1 + mc::choose(2, "subsets"), [&](ChoiceSource& s, unsigned i) {
        if (i) { s.rich = 0; s.af_rich = 1; s.sigs = {2}; s.counts = {1}; return; }
        s.rich = 1; s.af_rich = w > 7 ? 0 : w <= 3 ? 3 : 2; s.sigs = {1, 2, 6, 7, 8, 21, 63}; s.counts = {0, 2}; });
    roundtrip(m, "associated fields");
}

/// All header fields, one or two at a time
void headers()
{
    Header h;
    h.edition = 2 + mc::choose(3, "edition");
    bool e4 = h.edition == 4;
    struct F { unsigned* p; std::vector<unsigned> vals; };
    std::vector<unsigned> byte { 0, 1, 127, 128, 254, 255 };
    std::vector<unsigned> word = e4 ? std::vector<unsigned>{ 0, 1, 255, 256, 257, 32767, 32768, 65534, 65535 } : byte;
    std::vector<F> fields {
        { &h.centre, word }, { &h.subcentre, word }, { &h.update, byte }, { &h.category, byte }, { &h.subcategory_local, byte },
        { &h.mtvl, byte }, { &h.month, byte }, { &h.day, byte }, { &h.hour, byte }, { &h.minute, byte },
        { &h.year, e4 ? std::vector<unsigned>{ 0, 1, 255, 256, 1950, 1999, 2000, 2001, 2050, 2051, 2099, 2100, 65535 } : std::vector<unsigned>{ 1951, 1952, 1999, 2000, 2001, 2002, 2049, 2050 } },
    };
    if (e4) { fields.push_back({ &h.second, byte }); fields.push_back({ &h.subcategory, byte }); }
    else { h.second = 0; }
    unsigned a = mc::choose(fields.size(), "first");
    *fields[a].p = mc::pick(fields[a].vals, "value");
    unsigned c = mc::choose(fields.size(), "second");
    if (c < a) mc::prune();
    if (c != a) *fields[c].p = mc::pick(fields[c].vals, "value");
    Made m = make(custom(), { B(1, 3) }, 1, [](ChoiceSource& s, unsigned) { s.rich = 0; });
    m.h = h;
    roundtrip(m, "headers");
}

/// Years that edition 2 and 3 can represent, all the years of edition 4
void years()
{
    Header h;
    h.edition = 2 + mc::choose(3, "edition");
    if (h.edition == 4) h.year = 257 * mc::choose(256, "year");
    else h.year = 1951 + mc::choose(100, "year");
    Made m = make(custom(), { B(1, 3) }, 1, [](ChoiceSource& s, unsigned) { s.rich = 0; });
    m.h = h;
    roundtrip(m, "years");
}

/// Optional section, number of descriptors and of subsets, length of data
void sizes()
{
    Header h;
    h.edition = 2 + mc::choose(3, "edition");
    static const std::vector<unsigned> lens { 0, 1, 2, 3, 4, 5, 255, 256, 1000, 65535, 65536 };
    unsigned len = mc::pick(lens, "optional section");
    for (unsigned i = 0; i < len; ++i) h.optional.push_back((char)(i * 37 + (i == 0 ? mc::choose(2, "start") * 65 : 0)));
    static const std::vector<unsigned> ns { 1, 2, 3, 127, 128, 255, 256, 300 };
    unsigned nd = mc::pick(ns, "descriptors"), nsub = mc::pick(ns, "subsets");
    if ((nd > 3) + (nsub > 3) + (len > 5) > 1) mc::prune();
    Codes dds;
    for (unsigned i = 0; i < nd; ++i) dds.push_back(B(1, 1 + (i % 3)));
    Made m = make(custom(), dds, nsub, [](ChoiceSource& s, unsigned) { s.rich = 0; });
    m.h = h;
    roundtrip(m, "sizes");
}

/// The largest messages, and those too big to be encoded
void limits()
{
    Header h;
    unsigned which = mc::choose(5, "limit");
    auto b = BufrBulletin::create();
    set_header(*b, h);
    b->load_tables();
    if (which == 4)
    {
        // Optional section too long
        static const std::vector<unsigned> less { 0, 1, 2, 50, 51, 52, 53, 54, 55, 56, 57, 58, 100 };
        unsigned n = 0xffffff - mc::pick(less, "length");
        b->optional_section = std::string(n, 'x');
        b->datadesc = { B(1, 1) };
        b->obtain_subset(0).store_variable_i(B(1, 1), 0);
        std::string err;
        std::string raw = encode(*b, &err);
        size_t expected = 8 + 22 + 4 + n + n % 2 + 8 + 2 + 4 + 2 + 4;
        if (expected > 0xffffff)
        {
            if (err == "ok") mc::fail("encoded a message of %zu bytes", raw.size());
            mc::outcome("too long");
            return;
        }
        if (err != "ok") mc::fail("cannot encode: %s", err.c_str());
        MC_CHECK(raw.size() == expected, "encoded %zu bytes instead of %zu", raw.size(), expected);
        auto b1 = BufrBulletin::decode(raw);
        MC_CHECK(b1->optional_section == b->optional_section + std::string(n % 2, '\0'), "optional section has changed");
        return;
    }
    unsigned nsub = which == 0 ? 65535 : which == 1 ? 65536 : 65535;
    b->datadesc = { C(8, which >= 2 ? 255 : 1), B(1, 12) };
    if (which == 3) b->datadesc.push_back(B(1, 12));
    Varinfo info = b->tables.btable->query_altered(B(1, 12), 0, which >= 2 ? 255 * 8 : 8, 0);
    Var v(info, which >= 2 ? std::string(255, 'x').c_str() : "y");
    for (unsigned i = 0; i < nsub; ++i)
    {
        Subset& s = b->obtain_subset(i);
        s.reserve(2);
        s.shrink_to_fit();
        s.store_variable(v);
        if (which == 3) s.store_variable(v);
    }
    std::string err;
    std::string raw = encode(*b, &err);
    if (which == 1 || which == 3)
    {
        if (err == "ok") mc::fail("encoded a message of %zu bytes with %u subsets", raw.size(), nsub);
        mc::outcome("too big");
        return;
    }
    if (err != "ok") mc::fail("cannot encode: %s", err.c_str());
    b.reset();
    auto b1 = BufrBulletin::decode(raw);
    MC_CHECK(b1->subsets.size() == nsub, "%zu subsets instead of %u", b1->subsets.size(), nsub);
    for (auto& s: b1->subsets) MC_CHECK(s.size() == 1 && !strcmp(s[0].enqc(), v.enqc()), "the value has changed");
    mc::outcome("limit");
}

/// Very long lists of descriptors
void descriptors()
{
    Header h;
    h.edition = 2 + mc::choose(3, "edition");
    static const std::vector<unsigned> ns { 1000, 8187, 8188, 8189, 16379, 16380, 16381, 32763, 32764, 32765, 65535, 65536, 70000 };
    unsigned nd = mc::pick(ns, "descriptors");
    auto b = BufrBulletin::create();
    set_header(*b, h);
    b->load_tables();
    for (unsigned i = 0; i < nd; ++i)
    {
        b->datadesc.push_back(B(1, 1 + i % 3));
        b->obtain_subset(0).store_variable_undef(b->datadesc.back());
        if (i % 3 == 1) b->subsets[0].back().seti(i / 3 % 3);
    }
    std::string err;
    std::string raw = encode(*b, &err);
    if (err != "ok") mc::fail("cannot encode %u descriptors: %s", nd, err.c_str());
    auto b1 = BufrBulletin::decode(raw);
    if (b1->datadesc != b->datadesc) mc::fail("%u descriptors become %zu, or change", nd, b1->datadesc.size());
    MC_CHECK(b1->subsets.size() == 1 && b1->subsets[0].size() == nd, "%u variables become %zu", nd, b1->subsets.empty() ? (size_t)0 : b1->subsets[0].size());
    for (unsigned i = 0; i < nd; ++i)
        if (dump(b1->subsets[0][i]) != dump(b->subsets[0][i])) mc::fail("variable %u of %u becomes %s", i, nd, dump(b1->subsets[0][i]).c_str());
    if (b1->encode() != raw) mc::fail("%u descriptors: encoding again gives a different message", nd);
    mc::state(mc::hash(raw));
    mc::step(3);
}

/// Numbers that may not fit the field they are encoded to
void unfit()
{
    static const Codes elements { B(1, 1), B(1, 2), B(1, 3), B(1, 4), B(1, 6), B(1, 7), B(1, 9), B(2, 1), B(1, 192), B(33, 2) };
    Varcode code = mc::pick(elements, "element");
    const BEntry& e = custom().b.at(code);
    // A field with a different width, that can hold more or less
    unsigned wbits = e.bits + mc::choose(4, "wider");
    int wref = e.ref - (int)mc::choose(3, "lower");
    int sdiff = (int)mc::choose(3, "scale") - 1;
    auto b = BufrBulletin::create();
    set_header(*b, Header());
    b->load_tables();
    b->datadesc = { code };
    Varinfo wide = b->tables.btable->query_altered(code, e.scale + sdiff, wbits, wref);
    int64_t lo = e.ref, hi = e.ref + (int64_t)ones(e.bits) - 1;
    int64_t mul = sdiff == 1 ? 10 : 1;
    // In units of the wide description
    std::vector<int64_t> cand;
    if (sdiff == -1) { cand = { lo / 10 - 1, lo / 10, hi / 10, hi / 10 + 1, 0 }; }
    else for (int64_t d: { -2, -1, 0, 1, 2 }) { cand.push_back((lo + d) * mul); cand.push_back((hi + d) * mul); }
    int64_t v = cand[mc::choose(cand.size(), "value")];
    if (v < wide->imin || v > wide->imax) mc::prune();
    // Value in units of the field
    int64_t fv = sdiff == -1 ? v * 10 : v / mul;
    bool fits = fv >= lo && fv <= hi;
    Var var(wide, (int)v);
    b->obtain_subset(0).store_variable(var);
    mc::step();
    std::string err;
    std::string raw = encode(*b, &err);
    mc::trace("%s value %lld in a field from %lld to %lld: %s", varcode_format(code).c_str(), (long long)fv, (long long)lo, (long long)hi, err.c_str());
    mc::outcome(fits ? "fits" : "does not fit");
    if (fits != (err == "ok")) mc::fail("%s: encoding %lld in a field that can have values from %lld to %lld gives %s", varcode_format(code).c_str(), (long long)fv, (long long)lo, (long long)hi, err.c_str());
    if (!fits) return;
    auto b1 = BufrBulletin::decode(raw);
    const Var& r = b1->subsets.at(0).at(0);
    MC_CHECK(r.isset() && r.enqi() == fv, "%s: %lld was encoded, and %s decoded", varcode_format(code).c_str(), (long long)fv, r.format().c_str());
    mc::state(mc::hash(raw));
}

/// Associated fields and quality values that may not fit
void unfit_attrs()
{
    bool af = mc::flag("associated field");
    unsigned bits = 1 + mc::choose(8, "bits");
    static const std::vector<int> vals { 0, 1, 2, 3, 6, 7, 14, 15, 30, 31, 62, 63, 100, 126 };
    int val = mc::pick(vals, "value");
    auto b = BufrBulletin::create();
    set_header(*b, Header());
    b->load_tables();
    Subset& s = b->obtain_subset(0);
    Var v(b->tables.btable->query(B(1, 2)), 1);
    v.seta(Var(b->tables.btable->query(B(33, 40)), val));
    if (af)
    {
        b->datadesc = { C(4, bits), B(31, 21), B(1, 2) };
        s.store_variable_i(B(31, 21), 7);
        s.store_variable(v);
    } else {
        if (bits == 8) mc::prune();
        b->datadesc = { B(1, 2), C(22, 0), R(1, 1), B(31, 31), C(1, 128 + bits - 7), B(33, 40) };
        s.store_variable(v);
        s.append_fixed_dpb(C(22, 0), 1);
    }
    // With all bits set, only one bit associated fields are not missing
    int64_t hi = (int64_t)ones(bits) - (af && bits == 1 ? 0 : 1);
    bool fits = val <= hi;
    std::string err;
    std::string raw = encode(*b, &err);
    mc::step();
    mc::outcome(fits ? "fits" : "does not fit");
    if (fits != (err == "ok")) mc::fail("encoding %s %d in %u bits gives %s", af ? "associated field" : "quality value", val, bits, err.c_str());
    if (!fits) return;
    auto b1 = BufrBulletin::decode(raw);
    const Var& r = b1->subsets.at(0).at(af ? 1 : 0);
    const Var* a = r.enqa(B(33, 40));
    MC_CHECK(a && a->isset() && a->enqi() == val, "attribute %d decoded as %s", val, a ? a->format("missing").c_str() : "none");
    mc::state(mc::hash(raw));
}

/// Bulletins that do not match their descriptors
void mismatch()
{
    static const std::vector<Codes> templates {
        {B(1, 2), B(1, 3), B(1, 12)}, {R(1, 0), B(31, 1), B(1, 2), B(1, 3)}, {C(4, 2), B(31, 21), B(1, 2), B(1, 3)}, {B(1, 2), C(22, 0), R(1, 1), B(31, 31), B(33, 7)},
        {C(5, 2), B(1, 2)}, {C(6, 11), B(1, 250), B(1, 2)}, {D(1, 5)},
    };
    const Codes& dds = mc::pick(templates, "template");
    Made m = make(custom(), dds, 1, [](ChoiceSource& s, unsigned) { s.rich = 0; s.counts = {1}; });
    auto b = make_bulletin(m.h, m.dds, m.vals);
    Subset& s = b->subsets[0];
    switch (mc::choose(6, "change"))
    {
        case 0: s.erase(s.begin() + mc::choose(s.size(), "removed")); break;
        case 1: { unsigned pos = mc::choose(s.size() + 1, "added"); s.insert(s.begin() + pos, Var(b->tables.btable->query(B(1, 4)), 3)); break; }
        case 2: { unsigned pos = mc::choose(s.size(), "replaced"); s[pos] = Var(b->tables.btable->query(B(1, 4)), 3); break; }
        case 3: s.clear(); break;
        case 4: b->subsets.clear(); break;
        case 5: b->datadesc.clear(); break;
    }
    std::string err;
    std::string raw = encode(*b, &err);
    mc::step();
    mc::outcome(err.substr(0, 8));
    if (err == "ok") mc::fail("a bulletin that does not match its descriptors (%s) got encoded: %s", str(dds).c_str(), mc::hex(raw).c_str());
}

/// Different ways of filling a subset
void filling()
{
    static const Codes elements { B(1, 1), B(1, 3), B(1, 6), B(1, 7), B(1, 8), B(1, 9), B(2, 3), B(1, 11), B(1, 13) };
    Varcode code = mc::pick(elements, "element");
    Made m = make(custom(), { code, B(1, 2) }, 1, [](ChoiceSource& s, unsigned) { s.rich = 2; s.ascii_only = true; });
    canonicalise(m);
    auto b = BufrBulletin::create();
    set_header(*b, m.h);
    b->load_tables();
    b->datadesc = m.dds;
    Subset& s = b->obtain_subset(0);
    unsigned how = mc::choose(5, "how");
    for (auto& v: m.vals[0])
    {
        if (!v.set) { if (how % 2) s.store_variable_undef(v.code); else s.store_variable_undef(b->tables.btable->query(v.code)); continue; }
        if (v.kind == 's') { if (how % 2) s.store_variable_c(v.code, v.s.c_str()); else s.store_variable(v.code, make_var(b->tables, v)); continue; }
        switch (how)
        {
            case 0: if (v.scale) { s.store_variable_d(v.code, v.num / pow(10, v.scale)); } else s.store_variable_i(v.code, v.num); break;
            case 1: s.store_variable_d(v.code, v.scale > 0 ? v.num / pow(10, v.scale) : v.num * pow(10, -v.scale)); break;
            case 2: s.store_variable_c(v.code, std::to_string(v.num).c_str()); break;
            case 3: s.store_variable(v.code, make_var(b->tables, v)); break;
            case 4: s.store_variable(make_var(b->tables, v)); break;
        }
    }
    std::string got = encode(*b);
    std::string expected = m.plain();
    if (got != expected) mc::fail("%s encoded as %s instead of %s", canon(m.vals).c_str(), mc::hex(got).c_str(), mc::hex(expected).c_str());
    check_subsets(*BufrBulletin::decode(got), m.vals, "filling");
    mc::state(mc::hash(got));
    mc::step(2);
}

/// All sequences of the shipped tables
void shipped_sequences()
{
    const Shipped& s = mc::pick(shipped_tables, "table");
    if (!mc::thorough() && s.h.mtv != 33 && s.h.mtv != 19 && s.h.mtv != 12) mc::prune();
    if (!same_tables(s)) mc::prune();
    unsigned count = mc::choose(3, "count");
    unsigned mode = mc::choose(2, "values");
    Quiet quiet;
    for (auto& i: s.t.d)
    {
        Made m; m.h = s.h; m.dds = { i.first };
        m.fields.resize(1); m.vals.resize(1);
        PatternSource src(count, mode);
        Model model(s.t, src);
        model.limit = 20000;
        try { model.run(m.dds); } catch (Invalid& e) { continue; } catch (Unspec&) { continue; }
        if (model.loses_refs() || model.lossy) continue;
        m.vals[0] = model.vars;
        m.fields[0] = src.fields;
        if (mc::tracing) mc::trace("%s %s", s.b.c_str(), varcode_format(i.first).c_str());
        roundtrip(m, (s.b + " " + varcode_format(i.first)).c_str());
    }
}

/// Real messages: what was decoded, encoded and decoded again is the same
std::vector<std::string> test_messages;
void testdata()
{
    const std::string& path = mc::pick(test_messages, "file");
    std::string raw = slurp(path);
    size_t start = raw.find("BUFR");
    if (start == std::string::npos) mc::prune();
    raw = raw.substr(start);
    unsigned edition = 2 + mc::choose(3, "edition");
    Quiet quiet;
    std::unique_ptr<BufrBulletin> b, b1;
    outcome_of([&] { b = BufrBulletin::decode(raw); });
    if (!b) { mc::outcome("not decoded"); mc::prune(); }
    std::string hdr = dump_header(*b);
    std::string sub = dump_subsets(*b);
    unsigned orig = b->edition_number;
    if (edition < 4 && orig == 4 && (b->originating_centre > 255 || b->originating_subcentre > 255 || b->rep_year < 1951 || b->rep_year > 2050)) mc::prune();
    b->edition_number = edition;
    std::string enc, err;
    err = outcome_of([&] { enc = b->encode(); });
    if (err != "ok") { mc::outcome("not encoded: " + path.substr(path.rfind('/'))); return; }
    err = outcome_of([&] { b1 = BufrBulletin::decode(enc); });
    if (!b1) mc::fail("%s: cannot decode what was encoded: %s", path.c_str(), err.c_str());
    b1->edition_number = orig;
    b1->compression = b->compression;
    if (edition < 4 && orig == 4) { b1->rep_second = b->rep_second; b1->data_subcategory = b->data_subcategory; }
    if (b->optional_section.size() + 1 == b1->optional_section.size()) b1->optional_section.pop_back();
    std::string hdr1 = dump_header(*b1);
    if (hdr != hdr1) mc::fail("%s: header changes from %s to %s", path.c_str(), hdr.c_str(), hdr1.c_str());
    std::string sub1 = dump_subsets(*b1);
    if (sub != sub1)
    {
        size_t p = 0;
        while (p < sub.size() && p < sub1.size() && sub[p] == sub1[p]) ++p;
        p = sub.rfind('\n', p) == std::string::npos ? 0 : sub.rfind('\n', p);
        mc::fail("%s: data changes from %s to %s", path.c_str(), sub.substr(p, 100).c_str(), sub1.substr(p, 100).c_str());
    }
    mc::outcome("same");
    mc::state(path + mc::fmt("%u", edition));
    mc::step(4);
}

}

void mc::setup()
{
    install_tables();
    load_shipped();
    test_messages = test_files("bufr");
    Options o; o.leaks = false;
    Options so = o; so.timeout = 300;
    bool th = thorough();
    add("sequences-1", []{ sequences(1, 2); }, o);
    add("sequences-2", []{ sequences(2, 1); }, o);
    add("sequences-3", []{ sequences(3, 2); }, o);
    if (th) add("sequences-4", []{ sequences(4, 2); }, o);
    for (unsigned n = 3; n <= (th ? 6 : 5); ++n)
        add(mc::fmt("references-%u", n), [n]{ references(n); }, o);
    add("values", values, o);
    add("bytes", bytes, o);
    add("local", local, o);
    add("associated", associated, o);
    add("headers", headers, o);
    add("years", years, o);
    add("sizes", sizes, o);
    add("descriptors", descriptors, o);
    add("unfit", unfit, o);
    add("unfit-attrs", unfit_attrs, o);
    add("mismatch", mismatch, o);
    add("filling", filling, o);
    add("shipped-sequences", shipped_sequences, so);
    add("testdata", testdata, so);
    so.workers = 4;
    add("limits", limits, so);
}
