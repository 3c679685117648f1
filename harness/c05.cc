// C05: CREX encode then decode gives back the same bulletin.
#include "crexmodel.h"
using namespace cm;

const char* mc::property = "C05";

namespace {

void roundtrip(const CMade& m, const char* what)
{
    if (m.invalid) mc::prune();
    std::string expected = text(m);
    mc::trace("descriptors: %s", str(m.dds).c_str());
    mc::trace("expected: %s", mc::esc(expected).c_str());
    Quiet quiet;
    auto b = make_crex_bulletin(m.h, m.dds, m.vals);
    std::string got;
    std::string res = outcome_of([&] { got = b->encode(); });
    mc::step(2);
    if (res != "ok") mc::fail("%s: cannot encode %s: %s", what, str(m.dds).c_str(), res.c_str());
    if (got != expected) mc::fail("%s: encoded as \"%s\" instead of \"%s\"", what, mc::esc(got).c_str(), mc::esc(expected).c_str());
    check_subsets(*b, m.vals, "after encoding");
    std::unique_ptr<CrexBulletin> d;
    res = outcome_of([&] { d = CrexBulletin::decode(got); });
    if (!d) mc::fail("%s: cannot decode \"%s\": %s", what, mc::esc(got).c_str(), res.c_str());
    check_header(*d, m.h, m.dds, what);
    check_subsets(*d, m.vals, what);
    mc::state(mc::hash(got));
    // Once more, from what was decoded
    std::string again;
    res = outcome_of([&] { again = d->encode(); });
    if (res != "ok") mc::fail("%s: cannot encode again %s: %s", what, str(m.dds).c_str(), res.c_str());
    if (again != expected) mc::fail("%s: encoded again as \"%s\" instead of \"%s\"", what, mc::esc(again).c_str(), mc::esc(expected).c_str());
    mc::step(2);
}

const std::vector<Codes> items {
    {B(1, 1)}, {B(1, 3)}, {B(1, 12)}, {B(1, 4)}, {B(1, 10)}, {B(2, 1)}, {D(1, 1)}, {D(1, 4)}, {D(1, 5)},
    {R(1, 2), B(1, 2)}, {R(1, 0), B(1, 11)}, {R(2, 0), B(1, 3), B(1, 1)}, {R(1, 3), D(1, 1)}, {R(3, 2), B(1, 2), R(1, 0), B(1, 12)}, {R(1, 0), D(1, 5)},
};

void sequences(unsigned len, unsigned nsubsets)
{
    Codes dds;
    for (unsigned i = 0; i < len; ++i) { const Codes& c = mc::pick(items, "item"); dds.insert(dds.end(), c.begin(), c.end()); }
    bool digit = mc::flag("check digit");
    CMade m = make_crex(custom_crex(), dds, nsubsets, [&](CSource& s, unsigned i) { s.rich = len == 1 ? 2 : len == 2 && nsubsets == 1 ? 1 : 0; s.rich_fields = nsubsets > 1 ? 3 : 6; s.counts = nsubsets > 1 && i ? std::vector<unsigned>{1} : std::vector<unsigned>{0, 2}; });
    m.h.check_digit = digit;
    roundtrip(m, "sequences");
}

/// All values of single elements, in two subsets
void values()
{
    static const Codes elements { B(1, 1), B(1, 2), B(1, 3), B(1, 4), B(1, 5), B(1, 6), B(1, 9), B(1, 10), B(1, 11), B(1, 12), B(1, 13), B(1, 14), B(2, 1), B(2, 2), B(33, 7), B(31, 1) };
    Codes dds { mc::pick(elements, "element") };
    unsigned nsub = 1 + mc::choose(2, "subsets");
    bool digit = mc::flag("check digit");
    CMade m = make_crex(custom_crex(), dds, nsub, [&](CSource& s, unsigned) { s.rich = 3; });
    m.h.check_digit = digit;
    roundtrip(m, "values");
}

/// All the values of pairs of elements that follow each other
void pairs()
{
    static const Codes elements { B(1, 1), B(1, 2), B(1, 11), B(1, 12), B(1, 13), B(1, 6) };
    Codes dds { mc::pick(elements, "first"), mc::pick(elements, "second") };
    bool digit = mc::flag("check digit");
    CMade m = make_crex(custom_crex(), dds, 1, [&](CSource& s, unsigned) { s.rich = 3; });
    m.h.check_digit = digit;
    roundtrip(m, "pairs");
}

/// Values from decoded text of all numbers of digits
void headers()
{
    static const std::vector<unsigned> cat { 0, 1, 9, 10, 99, 100, 254, 255 }, sub { 0, 1, 9, 10, 99, 100, 254, 0xff }, mtv { 0, 1, 9, 10, 98, 99 };
    CMade m = make_crex(custom_crex(), {B(1, 1)}, 1, [&](CSource& s, unsigned) { s.rich = 0; });
    m.h.category = mc::pick(cat, "category");
    m.h.subcategory = mc::pick(sub, "subcategory");
    m.h.mtv = mc::pick(mtv, "version");
    m.h.check_digit = mc::flag("check digit");
    if (m.h.mtv <= 3 && m.h.edition == 3) { /* the table for version 99 is the only one for edition 3 */ }
    roundtrip(m, "headers");
}

/// All values of each field of the header
void all_headers()
{
    CMade m = make_crex(custom_crex(), {B(1, 1)}, 1, [&](CSource& s, unsigned) { s.rich = 0; });
    m.h.check_digit = mc::flag("check digit");
    switch (mc::choose(3, "field"))
    {
        case 0: m.h.category = mc::choose(256, "category"); if (mc::flag("subcategory")) m.h.subcategory = 7; break;
        case 1: m.h.subcategory = mc::choose(256, "subcategory"); break;
        case 2: m.h.mtv = mc::choose(100, "version"); break;
    }
    roundtrip(m, "all-headers");
}

/// Strings of all lengths in long elements
void long_strings()
{
    static const Codes elements { B(1, 14), B(1, 15), B(1, 16), B(1, 17) };
    Varcode code = mc::pick(elements, "element");
    unsigned max = custom_crex().b.at(code).len;
    unsigned k = mc::choose(mc::thorough() || max < 300 ? max : 120, "length");
    unsigned len = mc::thorough() || max < 300 || k < 60 ? k + 1 : max - (119 - k);
    CMade m = make_crex(custom_crex(), {B(1, 1), code, B(1, 2)}, 1, [&](CSource& s, unsigned) { s.rich = 0; });
    m.h.check_digit = mc::flag("check digit");
    // The same, with a string of the given length
    for (auto& v: m.vals[0]) if (v.code == code) v.s.resize(len);
    for (auto& f: m.fields[0]) if (f.str) f.s.resize(len);
    roundtrip(m, "long-strings");
}

/// Replications of any number of descriptors
void wide()
{
    unsigned n = 1 + mc::choose(63, "descriptors");
    static const std::vector<unsigned> kinds { 0, 1, 2, 3 };
    unsigned times = mc::pick(kinds, "times");      // 0: delayed
    bool before = mc::flag("something before"), digit = mc::flag("check digit");
    Codes dds;
    if (before) dds.push_back(B(1, 2));
    dds.push_back(R(n, times));
    for (unsigned i = 0; i < n; ++i) dds.push_back(i % 3 == 0 ? B(1, 1) : i % 3 == 1 ? B(1, 12) : B(1, 3));
    dds.push_back(B(1, 2));
    CMade m = make_crex(custom_crex(), dds, 1 + mc::choose(2, "subsets"), [&](CSource& s, unsigned) { s.rich = 0; s.counts = {0, 2}; });
    m.h.check_digit = digit;
    roundtrip(m, "wide");
}

/// Descriptors for counts, as in BUFR, are not written
void factors()
{
    unsigned n = 1 + mc::choose(63, "descriptors");
    static const Codes counts { B(31, 1), B(31, 2) };
    Varcode count = mc::pick(counts, "count");
    bool digit = mc::flag("check digit"), twice = mc::flag("twice");
    Codes one { R(n, 0) };
    for (unsigned i = 0; i < n; ++i) one.push_back(i % 3 == 0 ? B(1, 1) : i % 3 == 1 ? B(1, 12) : B(31, 1));
    Codes dds { B(1, 2) };
    for (unsigned i = 0; i <= twice; ++i) dds.insert(dds.end(), one.begin(), one.end());
    // A descriptor of a count may also be an element of its own
    dds.push_back(B(31, 1));
    // The interpreter would take an element for a count, if it were the first one
    CMade m = make_crex(custom_crex(), dds, 1 + mc::choose(2, "subsets"), [&](CSource& s, unsigned) { s.rich = 0; s.counts = {0, 2}; });
    m.h.check_digit = digit;
    std::string expected = text(m);
    Codes with;
    for (auto& c: m.dds) { with.push_back(c); if (c == R(n, 0)) with.push_back(count); }
    auto vals = m.vals;
    for (auto& s: vals) for (auto& v: s) if (v.code == B(31, 12)) v.code = count;
    auto b = make_crex_bulletin(m.h, with, vals);
    std::string got;
    std::string res = outcome_of([&] { got = b->encode(); });
    if (res != "ok") mc::fail("factors: cannot encode %s: %s", str(with).c_str(), res.c_str());
    if (got != expected) mc::fail("factors: encoded as \"%s\" instead of \"%s\"", mc::esc(got).c_str(), mc::esc(expected).c_str());
    std::unique_ptr<CrexBulletin> d;
    res = outcome_of([&] { d = CrexBulletin::decode(got); });
    if (!d) mc::fail("factors: cannot decode \"%s\": %s", mc::esc(got).c_str(), res.c_str());
    check_subsets(*d, m.vals, "factors");
    mc::state(mc::hash(got));
    mc::step(2);
}

/// Header fields that cannot be represented are errors
void bad_headers()
{
    CMade m = make_crex(custom_crex(), {B(1, 1)}, 1, [&](CSource& s, unsigned) { s.rich = 0; });
    auto b = make_crex_bulletin(m.h, m.dds, m.vals);
    uint8_t v = 100 + mc::choose(156, "value");
    switch (mc::choose(3, "field"))
    {
        case 0: b->master_table_number = v; break;
        case 1: b->edition_number = v; break;
        case 2: b->master_table_version_number = v; break;
    }
    std::string got;
    std::string res = outcome_of([&] { got = b->encode(); });
    mc::step();
    if (res == "ok") mc::fail("encoded a header with a field of %u as \"%s\"", v, mc::esc(got).c_str());
}

/// Replication counts
void counts()
{
    static const std::vector<unsigned> ns { 0, 1, 2, 9, 10, 11, 99, 100, 999, 1000, 9998, 9999 };
    unsigned n = mc::pick(ns, "count");
    bool digit = mc::flag("check digit");
    static const std::vector<Codes> templates { {R(1, 0), B(1, 1)}, {R(2, 0), B(1, 11), B(1, 1), B(1, 2)}, {B(1, 2), R(1, 0), B(1, 12)} };
    CMade m = make_crex(custom_crex(), mc::pick(templates, "template"), 1, [&](CSource& s, unsigned) { s.rich = 0; s.counts = {n}; });
    m.h.check_digit = digit;
    roundtrip(m, "counts");
}

void many()
{
    static const std::vector<unsigned> ns { 1, 2, 9, 10, 11, 100, 1000 };
    unsigned n = mc::pick(ns, "subsets");
    bool digit = mc::flag("check digit");
    CMade m = make_crex(custom_crex(), {B(1, 1), B(1, 12), B(1, 3)}, n, [&](CSource& s, unsigned) { s.rich = 0; });
    m.h.check_digit = digit;
    roundtrip(m, "many");
}

/// Values that do not fit the digits of their element are errors, and values of other scales are rounded
void wrong()
{
    static const Codes elements { B(1, 1), B(1, 2), B(1, 3), B(1, 4), B(1, 5), B(1, 9) };
    Varcode code = mc::pick(elements, "element");
    const BEntry& e = custom_crex().b.at(code);
    int64_t max = 1; for (unsigned i = 0; i < e.len; ++i) max *= 10;
    max -= 2;
    int scale = (int)mc::choose(5, "scale") - 2 + e.scale;
    _Varinfo info;
    info.set_crex(code, "TEST", "NUMERIC", scale, 10);
    std::vector<int64_t> vals;
    for (int64_t v: { (int64_t)0, max / 10, max - 1, max, max + 1, max + 2, max + 3, max * 10, max * 10 + 4, max * 10 + 9, max * 10 + 10, max * 10 + 14, max * 10 + 16, max * 10 + 20, max * 10 + 30, max * 100, max * 100 + 149, max * 100 + 300, (int64_t)INT_MAX })
        for (int s: { 1, -1 })
            if (v * s >= INT_MIN && v * s <= INT_MAX) vals.push_back(v * s);
    int v = mc::pick(vals, "value");
    Var var(&info);
    var.seti(v);
    auto b = CrexBulletin::create();
    CHeader h;
    set_header(*b, h);
    b->load_tables();
    b->datadesc = { code, B(1, 2) };
    b->obtain_subset(0).store_variable(var);
    b->subsets[0].store_variable_i(B(1, 2), 7);
    std::string got;
    std::string res = outcome_of([&] { got = b->encode(); });
    mc::step();
    // Exact value with the scale of the element
    int64_t num = v, den = 1;
    for (int s = scale; s < e.scale; ++s) num *= 10;
    for (int s = e.scale; s < scale; ++s) den *= 10;
    double exact = (double)num / den;
    bool fits = exact < max + 0.5 && exact > -max - 1.5, tie = 2 * std::abs(num % den) == den;
    mc::outcome(mc::fmt("%d %s", fits, res.substr(0, 7).c_str()));
    if (tie && fabs(fabs(exact) - max) < 2) { mc::prune(); }
    if (!fits)
    {
        if (res == "ok") mc::fail("%s: %f encoded to %u digits as \"%s\"", varcode_format(code).c_str(), exact, e.len, mc::esc(got).c_str());
        return;
    }
    if (res != "ok") mc::fail("%s: %f not encoded to %u digits: %s", varcode_format(code).c_str(), exact, e.len, res.c_str());
    auto d = CrexBulletin::decode(got);
    if (d->subsets.size() != 1 || d->subsets[0].size() != 2) mc::fail("wrong number of variables");
    int r = d->subsets[0][0].enqi();
    if (fabs(r - exact) > 0.5 + 1e-9) mc::fail("%s: %f encoded and decoded as %d", varcode_format(code).c_str(), exact, r);
    if (d->subsets[0][1].enqi() != 7) mc::fail("the value that follows is decoded as %d", d->subsets[0][1].enqi());
    mc::state(mc::hash(got));
}

/// Strings that cannot be represented are errors; strings that are too long are cut
void wrong_strings()
{
    static const std::vector<std::string> vals { "", " ", "/", "/a", " a", "\ta", "\n", "//", "a/", "abc", "a b", "abcdefghijkl", "+", "++" };
    std::string v = mc::pick(vals, "string");
    static const Codes elements { B(1, 11), B(1, 12), B(1, 13) };
    Varcode code = mc::pick(elements, "element");
    unsigned len = custom_crex().b.at(code).len;
    _Varinfo info; info.set_crex(code, "TEST", "CHARACTER", 0, 20);
    Var var(&info); var.setc(v.c_str());
    auto b = CrexBulletin::create();
    CHeader h; h.check_digit = mc::flag("check digit");
    set_header(*b, h);
    b->load_tables();
    b->datadesc = { code, B(1, 2) };
    b->obtain_subset(0).store_variable(var);
    b->subsets[0].store_variable_i(B(1, 2), 7);
    std::string got;
    std::string res = outcome_of([&] { got = b->encode(); });
    mc::step();
    mc::outcome(res.substr(0, 7));
    if (res != "ok") { if (!v.empty() && v[0] != '/' && !isspace(v[0])) mc::fail("cannot encode \"%s\": %s", v.c_str(), res.c_str()); return; }
    auto d = CrexBulletin::decode(got);
    if (d->subsets.size() != 1 || d->subsets[0].size() != 2) mc::fail("wrong number of variables");
    std::string cut = v.substr(0, len);
    while (cut.size() > 1 && cut.back() == ' ') cut.pop_back();
    const Var& r = d->subsets[0][0];
    if (!r.isset() || r.enqs() != cut) mc::fail("\"%s\" encoded as \"%s\" and decoded as %s", mc::esc(v).c_str(), mc::esc(got).c_str(), r.format("missing").c_str());
    if (d->subsets[0][1].enqi() != 7) mc::fail("the value that follows is decoded as %d", d->subsets[0][1].enqi());
    mc::state(mc::hash(got));
}

/// Subsets that do not match the descriptors are errors
void mismatch()
{
    CMade m = make_crex(custom_crex(), {B(1, 1), R(1, 0), B(1, 12), B(1, 3)}, 2, [&](CSource& s, unsigned) { s.rich = 0; s.counts = {2}; });
    unsigned k = mc::choose(2, "subset"), pos = mc::choose(m.vals[k].size() + 1, "position");
    MVals& v = m.vals[k];
    MVal extra; extra.code = B(1, 2); extra.set = true; extra.num = 3;
    switch (mc::choose(6, "change"))
    {
        case 0: if (pos == v.size()) mc::prune(); v.erase(v.begin() + pos); break;
        case 1: v.insert(v.begin() + pos, extra); break;
        case 2: if (pos == v.size()) mc::prune(); v[pos] = extra; break;
        case 3: v.resize(pos); if (pos == 5) mc::prune(); break;
        case 4: v[1].num = 3 + mc::choose(4, "count"); break;
        case 5: v[1].num = mc::choose(2, "count"); break;
    }
    auto b = make_crex_bulletin(m.h, m.dds, m.vals);
    std::string got;
    std::string res = outcome_of([&] { got = b->encode(); });
    mc::step();
    if (res == "ok") mc::fail("encoded a subset that does not match the descriptors as \"%s\"", mc::esc(got).c_str());
}

/// All ways of separating values, with or without the optional section
void layouts(unsigned len)
{
    static const std::vector<std::string> gaps { " ", "  ", "\r\r\n", "\n", " \r\n " };
    static const std::vector<std::string> eols { "\r\r\n", "\n", " ", "", "\r\n\r\n" };
    static const std::vector<std::string> supps { "", " TEXT", " + ", "\r\n1 2 3 7777 ", "+ " };
    static const std::vector<std::string> ends { "7777\r\r\n", "7777", "7777\n\n", "7777 OTHER" };
    Codes dds;
    for (unsigned i = 0; i < len; ++i) { const Codes& c = mc::pick(items, "item"); dds.insert(dds.end(), c.begin(), c.end()); }
    Layout l;
    std::string g = mc::pick(gaps, "gap");
    l.gap = [&] { return g; };
    l.eol = mc::pick(eols, "end of line");
    l.supp = mc::pick(supps, "optional section");
    l.end = mc::pick(ends, "end");
    bool digit = mc::flag("check digit");
    unsigned nsub = 1 + mc::choose(3, "subsets");
    CMade m = make_crex(custom_crex(), dds, nsub, [&](CSource& s, unsigned) { s.rich = 0; s.counts = {1}; });
    if (m.invalid) mc::prune();
    m.h.check_digit = digit;
    if (l.supp.size() && l.supp.back() == '+') mc::prune();
    std::string t = text(m, l);
    mc::trace("text: %s", mc::esc(t).c_str());
    std::unique_ptr<CrexBulletin> d;
    Quiet quiet;
    std::string res = outcome_of([&] { d = CrexBulletin::decode(t); });
    mc::step();
    if (!d) mc::fail("cannot decode \"%s\": %s", mc::esc(t).c_str(), res.c_str());
    check_header(*d, m.h, m.dds, "layouts");
    check_subsets(*d, m.vals, "layouts");
    mc::state(mc::hash(t));
}

/// A wrong check digit is noticed in any position
void digits()
{
    CMade m = make_crex(custom_crex(), {B(1, 1), R(1, 0), B(1, 12), B(1, 3)}, 3, [&](CSource& s, unsigned) { s.rich = 0; s.counts = {2}; });
    m.h.check_digit = true;
    unsigned pos = mc::choose(15, "value"), d = mc::choose(10, "digit");
    std::string t = text(m);
    // Find the digits: they are the first thing of each value, after a space
    size_t p = t.find("E++\r\r\n") + 5;
    for (unsigned i = 0; i <= pos; ++i) p = t.find(' ', p + 1);
    bool same = t[p + 1] == (char)('0' + d);
    t[p + 1] = '0' + d;
    std::unique_ptr<CrexBulletin> b;
    std::string res = outcome_of([&] { b = CrexBulletin::decode(t); });
    mc::step();
    if (same && !b) mc::fail("cannot decode \"%s\": %s", mc::esc(t).c_str(), res.c_str());
    if (!same && b) mc::fail("a wrong check digit %u for value %u is not noticed in \"%s\"", d, pos, mc::esc(t).c_str());
}

/// Every element of the shipped tables
struct ShippedCrex { std::string b; TableSet t; CHeader h; };
std::vector<ShippedCrex> shipped;

void shipped_elements(const ShippedCrex& s)
{
    static thread_local std::map<const ShippedCrex*, Codes> all;
    Codes& codes = all[&s];
    if (codes.empty()) for (auto& e: s.t.b) codes.push_back(e.first);
    unsigned x = mc::choose(64, "class");
    Codes in; for (auto c: codes) if (WR_VAR_X(c) == x) in.push_back(c);
    if (in.empty()) mc::prune();
    Codes dds { mc::pick(in, "element") };
    if (s.t.b.at(dds[0]).len == 0) mc::prune();
    CMade m = make_crex(s.t, dds, 1, [&](CSource& src, unsigned) { src.rich = 3; });
    m.h = s.h;
    m.h.check_digit = mc::flag("check digit");
    auto b = CrexBulletin::create(); set_header(*b, m.h); b->load_tables();
    if (b->tables.btable->path() != s.b) mc::prune();
    roundtrip(m, "shipped");
}

/// Every sequence of the shipped tables
void shipped_sequences(const ShippedCrex& s)
{
    std::vector<Varcode> codes; for (auto& e: s.t.d) codes.push_back(e.first);
    if (codes.empty()) mc::prune();
    Varcode c = codes[mc::choose(codes.size(), "sequence")];
    unsigned n = mc::choose(3, "count");
    CMade m = make_crex(s.t, {c}, 2, [&](CSource& src, unsigned) { src.rich = 0; src.counts = {n}; });
    m.h = s.h;
    auto b = CrexBulletin::create(); set_header(*b, m.h); b->load_tables();
    if (b->tables.btable->path() != s.b) mc::prune();
    roundtrip(m, "shipped sequences");
}

/// The sample files, encoded and decoded
void samples()
{
    static std::vector<std::string> files = test_files("crex");
    std::string path = files[mc::choose(files.size(), "file")];
    std::string raw = slurp(path);
    Quiet quiet;
    std::unique_ptr<CrexBulletin> b;
    std::string res = outcome_of([&] { b = CrexBulletin::decode(raw); });
    mc::outcome(res.substr(0, 7));
    if (!b) return;
    std::string enc;
    res = outcome_of([&] { enc = b->encode(); });
    if (res != "ok") { mc::outcome("not encoded"); return; }
    auto d = CrexBulletin::decode(enc);
    mc::step(3);
    if (dump_subsets(*b) != dump_subsets(*d)) mc::fail("%s differs after encoding and decoding", path.c_str());
    if (d->encode() != enc) mc::fail("%s is encoded differently after decoding", path.c_str());
    mc::state(mc::hash(enc));
}

}

void mc::setup()
{
    install_crex_tables();
    for (auto& p: tm_::shipped('B'))
    {
        if (!tm_::is_crex(p)) continue;
        ShippedCrex s; s.b = p;
        std::string n = std::filesystem::path(p).filename();
        std::string d = std::filesystem::path(p).parent_path().string() + "/D" + n.substr(1);
        if (!std::filesystem::exists(d)) continue;
        s.h.mt = atoi(n.substr(1, 2).c_str()); s.h.edition = atoi(n.substr(3, 2).c_str()); s.h.mtv = atoi(n.substr(5, 2).c_str());
        s.t = load_crex_tables(p, d);
        shipped.push_back(s);
    }
    Options o; o.leaks = false;
    bool th = thorough();
    for (unsigned n = 1; n <= (th ? 4 : 3); ++n)
        for (unsigned s = 1; s <= 2; ++s)
            add(mc::fmt("sequences-%u-%u", n, s), [n, s]{ sequences(n, s); }, o);
    if (!th) add("sequences-4-1", []{ sequences(4, 1); }, o);
    add("values", values, o);
    add("pairs", pairs, o);
    add("headers", headers, o);
    add("bad-headers", bad_headers, o);
    add("all-headers", all_headers, o);
    add("long-strings", long_strings, o);
    add("wide", wide, o);
    add("factors", factors, o);
    add("counts", counts, o);
    add("many", many, o);
    add("wrong-numbers", wrong, o);
    add("wrong-strings", wrong_strings, o);
    add("mismatch", mismatch, o);
    add("layouts-1", []{ layouts(1); }, o);
    add("layouts-2", []{ layouts(2); }, o);
    add("digits", digits, o);
    for (size_t i = 0; i < shipped.size(); ++i)
    {
        std::string n = std::filesystem::path(shipped[i].b).stem();
        add("shipped-elements-" + n, [i]{ shipped_elements(shipped[i]); }, o);
        add("shipped-sequences-" + n, [i]{ shipped_sequences(shipped[i]); }, o);
    }
    add("samples", samples, o);
}
