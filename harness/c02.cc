// C02: BUFR decoding follows the descriptor and operator semantics.
#include "bufrmodel.h"
using namespace bm;

const char* mc::property = "C02";

namespace {

typedef std::function<void(ChoiceSource&, unsigned)> Config;

/// Decode a message and compare it with the model
void check(const Made& m, const char* what)
{
    std::string msg = m.plain();
    mc::trace("descriptors: %s", str(m.dds).c_str());
    if (mc::tracing) { mc::trace("expected: %s%s", canon(m.vals).c_str(), m.invalid ? ("then invalid: " + m.why).c_str() : ""); mc::trace("message: %s", mc::hex(msg).c_str()); }
    mc::step();
    Quiet quiet;
    std::unique_ptr<BufrBulletin> b;
    std::string res = outcome_of([&] { b = BufrBulletin::decode(msg); });
    if (m.invalid)
    {
        mc::outcome("invalid: " + m.why);
        if (b) mc::fail("%s: decoded a message that is not valid (%s): %s", what, m.why.c_str(), str(m.dds).c_str());
        return;
    }
    if (!b) mc::fail("%s: cannot decode %s: %s", what, str(m.dds).c_str(), res.c_str());
    mc::state(mc::hash(msg));
    check_header(*b, m.h, m.dds, false, what);
    check_subsets(*b, m.vals, what);
    for (auto& v: m.vals) mc::step(v.size());
}

Codes choose_codes(const std::vector<Codes>& items, unsigned len)
{
    Codes res;
    for (unsigned i = 0; i < len; ++i)
    {
        const Codes& c = mc::pick(items, "item");
        res.insert(res.end(), c.begin(), c.end());
    }
    return res;
}

bool has_data(const Codes& c)
{
    for (auto i: c) if (WR_VAR_F(i) != 2 && i != D(1, 2)) return true;
    return false;
}

/// All sequences of operators and elements: where each operator starts and ends having effect
void operators(unsigned len, bool all)
{
    static const std::vector<Codes> items {
        {B(1, 2)}, {B(1, 3)}, {B(2, 1)}, {B(1, 11)},
        {C(1, 129)}, {C(1, 0)}, {C(2, 127)}, {C(2, 0)}, {C(7, 1)}, {C(7, 0)}, {C(8, 2)}, {C(8, 0)}, {D(1, 2)}, {D(1, 3)},
    };
    static const std::vector<Codes> more {
        {B(1, 9)}, {B(2, 2)}, {C(1, 126)}, {C(2, 130)}, {C(7, 2)}, {R(1, 2), B(1, 3)}, {R(2, 2), C(1, 131), B(1, 3)}, {R(2, 2), B(1, 3), C(2, 129)},
        {R(2, 0), B(31, 1), C(8, 1), B(1, 12)}, {C(3, 4), B(1, 3), C(3, 255)}, {C(3, 0)}, {C(6, 5), B(1, 192)}, {C(6, 3), B(1, 250)},
        {C(5, 2)},
    };
    std::vector<Codes> use = items;
    if (all) use.insert(use.end(), more.begin(), more.end());
    Codes dds = choose_codes(use, len);
    if (WR_VAR_F(dds.back()) == 2 || !has_data(dds)) mc::prune();
    Made m = make(custom(), dds, 1, [](ChoiceSource& s, unsigned) { s.rich = 0; s.counts = {0, 2}; s.refs = {3}; });
    check(m, "operators");
}

/// Operators do not last from one subset to the next
void subsets(unsigned n, unsigned len)
{
    static const std::vector<Codes> items {
        {B(1, 3)}, {B(1, 12)}, {C(1, 130)}, {C(2, 129)}, {C(7, 1)}, {C(8, 1)}, {C(3, 4), B(1, 3), C(3, 255)}, {C(4, 2), B(31, 21)},
        {R(1, 0), B(31, 1), B(1, 2)}, {C(3, 4), B(1, 3)}, {C(6, 3), B(1, 250)}, {D(1, 2)},
    };
    Codes dds = choose_codes(items, len);
    if (!has_data(dds)) mc::prune();
    Made m = make(custom(), dds, n, [](ChoiceSource& s, unsigned) { s.rich = 0; s.counts = {0, 2}; s.refs = {3, -2}; s.af_rich = 0; });
    check(m, "subsets");
}

/// All values of single elements, with all the changes that operators can make
void values()
{
    static const Codes elements {
        B(1, 1), B(1, 2), B(1, 3), B(1, 4), B(1, 5), B(1, 6), B(1, 7), B(1, 8), B(1, 9), B(1, 11), B(1, 12), B(1, 13), B(1, 14), B(1, 15), B(2, 1), B(2, 2), B(2, 3), B(1, 192), B(33, 7), B(33, 15)
    };
    Varcode e = mc::pick(elements, "element");
    Codes dds;
    switch (mc::choose(6, "operator"))
    {
        case 0: break;
        case 1: dds.push_back(C(1, mc::choose(256, "Y"))); break;
        case 2: dds.push_back(C(2, mc::choose(256, "Y"))); break;
        case 3: dds.push_back(C(7, mc::choose(mc::thorough() ? 256 : 20, "Y"))); break;
        case 4: dds.push_back(C(8, mc::choose(mc::thorough() ? 256 : 20, "Y"))); break;
        case 5: dds = { C(1, 100 + mc::choose(56, "Y1")), C(2, 108 + 4 * mc::choose(10, "Y2")) }; break;
    }
    dds.push_back(e);
    // Followed by something, to see where it ends
    dds.push_back(C(1, 0)); dds.push_back(B(1, 1));
    bool plain = dds.size() == 3;
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) { s.rich = 3; s.narrow = plain ? 13 : 6; });
    check(m, "values");
}

/// All bytes in all kinds of fields made of bytes
void bytes()
{
    unsigned n = 1 + mc::choose(4, "length");
    Codes dds;
    switch (mc::choose(3, "kind"))
    {
        case 0: dds = { C(5, n) }; break;
        case 1: dds = { C(8, n), B(1, 12) }; break;
        case 2: dds = { C(6, n * 8 - mc::choose(4, "bits less")), B(1, 250) }; break;
    }
    dds.push_back(B(1, 2));
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) { s.rich = 0; s.all_bytes = true; });
    check(m, "bytes");
}

/// All pairs (and triples of some) of local descriptors and character data of given sizes
void local_sizes(unsigned n)
{
    static const std::vector<unsigned> few { 1, 5, 7, 8, 9, 12, 16, 17, 40 };
    Codes dds;
    for (unsigned i = 0; i < n; ++i)
    {
        if (mc::choose(2, "kind")) { dds.push_back(C(5, 1 + mc::choose(4, "length"))); continue; }
        unsigned bits = n == 2 ? 1 + mc::choose(mc::thorough() ? 80 : 41, "bits") : mc::pick(few, "bits");
        dds.push_back(C(6, bits));
        dds.push_back(mc::pick(Codes{B(1, 250), B(1, 251)}, "code"));
    }
    dds.push_back(B(1, 2));
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) { s.rich = 0; });
    check(m, "local descriptors");
}

/// Templates with nested replications
void replications(unsigned depth)
{
    std::function<Codes(unsigned)> gen = [&](unsigned d) -> Codes {
        switch (mc::choose(d ? 3 : 2, "kind"))
        {
            case 0: return { B(1, 2) };
            case 1: return { B(1, 11) };
            default: break;
        }
        unsigned n = 1 + mc::choose(2, "items");
        Codes body;
        for (unsigned i = 0; i < n; ++i) { Codes c = gen(d - 1); body.insert(body.end(), c.begin(), c.end()); }
        Codes res;
        switch (mc::choose(4, "replication"))
        {
            case 0: res = { R(body.size(), 2) }; break;
            case 1: res = { R(body.size(), 0), B(31, 0) }; break;
            case 2: res = { R(body.size(), 0), B(31, 1) }; break;
            case 3: res = { R(body.size(), 0), B(31, 2) }; break;
        }
        res.insert(res.end(), body.begin(), body.end());
        return res;
    };
    Codes dds = gen(depth);
    dds.push_back(B(1, 2));
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) { s.rich = 0; if (depth > 2) s.counts = {0, 2}; });
    check(m, "replications");
}

/// Replication counts
void counts()
{
    static const Codes factors { B(31, 0), B(31, 1), B(31, 2), B(31, 11), B(31, 12) };
    static const std::vector<Codes> bodies { {B(1, 1)}, {B(1, 2), B(1, 11)}, {D(1, 1)}, {R(1, 0), B(31, 0), B(1, 2)}, {C(1, 129), B(1, 2)}, {C(1, 129)} };
    const Codes& body = mc::pick(bodies, "body");
    Codes dds;
    if (mc::flag("delayed")) dds = { R(body.size(), 0), mc::pick(factors, "factor") };
    else dds = { R(body.size(), 1 + mc::choose(255, "count")) };
    dds.insert(dds.end(), body.begin(), body.end());
    dds.push_back(B(1, 3));
    bool delayed = WR_VAR_Y(dds[0]) == 0;
    bool nested = body[0] == R(1, 0);
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) {
        s.rich = 0;
        if (delayed) { if (nested) s.counts = {0, 1, 3}; else s.counts = {0, 1, 2, 3, 4, 127, 128, 254, 255, 256, 1000, 65535}; }
        else if (nested) s.counts = {1};
    });
    check(m, "counts");
}

/// Not enough descriptors
void cut()
{
    static const std::vector<Codes> templates {
        {R(2, 2), B(1, 2), B(1, 3)}, {R(2, 0), B(31, 1), B(1, 2), B(1, 3)}, {R(3, 0), B(31, 0), R(1, 2), B(1, 2), B(1, 3)},
        {C(4, 2), B(31, 21), B(1, 2)}, {C(6, 3), B(1, 250)}, {D(1, 4)}, {D(1, 99)}, {B(1, 99)}, {B(1, 2), D(63, 255)},
        {C(4, 2), B(1, 2)}, {C(3, 33), B(1, 3), C(3, 255), B(1, 3)}, {C(7, 10), B(1, 2)}, {C(22, 0), R(1, 4), B(31, 31)}, {C(23, 255)}, {C(22, 0), R(2, 1), B(31, 31), B(1, 2)},
        {B(1, 2), C(22, 0), R(1, 1), B(1, 2)},
    };
    Codes dds = mc::pick(templates, "template");
    dds.resize(1 + mc::choose(dds.size(), "length"));
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) { s.rich = 0; });
    check(m, "cut");
}

/// Associated fields: widths, significances, values, cancellation
void associated()
{
    static const Codes elements { B(1, 2), B(1, 11), B(1, 3), B(2, 1) };
    static const std::vector<std::pair<unsigned, unsigned>> widths { {1, 3}, {2, 3}, {3, 2}, {7, 2}, {4, 2}, {8, 0}, {15, 0}, {16, 0}, {31, 0}, {32, 0} };
    auto w = mc::pick(widths, "width");
    Codes dds { C(4, w.first), B(31, 21), mc::pick(elements, "first") };
    switch (mc::choose(7, "after"))
    {
        case 0: dds.push_back(B(1, 3)); break;
        case 1: dds.insert(dds.end(), { C(4, 0), B(1, 2) }); break;
        case 2: dds.insert(dds.end(), { R(1, 2), B(1, 12) }); break;
        case 3: dds.insert(dds.end(), { R(1, 0), B(31, 1), B(1, 2), C(4, 0), B(1, 2) }); break;
        case 4: dds.insert(dds.end(), { C(4, 0), C(4, 2), B(31, 21), B(1, 2) }); break;
        case 5: dds.insert(dds.end(), { C(1, 131), B(1, 3), D(1, 9), B(1, 3) }); break;
        case 6: break;
    }
    std::vector<unsigned> sigs;
    for (unsigned i = 1; i < 64; ++i) sigs.push_back(i);
    bool two = dds.size() > 4 && dds[4] == C(4, 2);
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) {
        s.rich = 1; s.af_rich = w.second; s.counts = {0, 2};
        s.sigs = two ? std::vector<unsigned>{1, 2, 6, 7, 8, 21, 30, 63} : sigs;
        if (w.first >= 7 && !two) s.sigs = {1, 2, 6, 7, 8, 21, 30, 63};
    });
    check(m, "associated fields");
}

/// Changes of reference values
void references()
{
    unsigned bits = 1 + mc::choose(32, "bits");
    static const Codes elements { B(1, 3), B(1, 2), B(1, 7), B(1, 8), B(1, 5) };
    Varcode e = mc::pick(elements, "element");
    Codes dds { C(3, bits), e };
    switch (mc::choose(6, "form"))
    {
        case 0: dds.insert(dds.end(), { C(3, 255), e, B(1, 2) }); break;
        case 1: dds.insert(dds.end(), { B(1, 2), C(3, 255), e, B(1, 2), C(3, 0), e, B(1, 2) }); break;
        case 2: dds.insert(dds.end(), { C(3, 255), e, C(3, 5), e, C(3, 255), e }); break;
        case 3: dds.insert(dds.end(), { C(3, 255), C(1, 129), C(2, 129), e, C(1, 0), e }); break;
        case 4: dds.insert(dds.end(), { C(3, 0), e }); break;
        case 5: dds.insert(dds.end(), { C(3, 255), R(1, 2), e, D(1, 1) }); break;
    }
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) {
        s.rich = 0;
        s.refs = {0, 1, -1, 2, -3, 7, 100, -1000, 1000000, -2000000, 1073741823, -1073741823};
    });
    check(m, "references");
}

/// Character data and local elements
void local()
{
    Codes dds;
    switch (mc::choose(7, "kind"))
    {
        case 5: { unsigned n = 1 + mc::choose(127, "bits"); dds = { C(6, n), B(1, 250), C(6, n + 128), B(1, 250), C(6, n), B(1, 250), C(6, 1), B(1, 250) }; break; }
        case 6: { unsigned n = 1 + mc::choose(70, "lengths"); for (unsigned i = 1; i <= n; ++i) { dds.push_back(C(5, i)); dds.push_back(C(6, 40 + i)); dds.push_back(B(1, 250)); } break; }
        case 0: dds = { C(5, 1 + mc::choose(mc::thorough() ? 255 : 80, "chars")) }; break;
        case 1: dds = { C(6, 1 + mc::choose(255, "bits")), B(1, 250) }; break;
        case 2: dds = { C(6, 1 + mc::choose(40, "bits")), mc::pick(Codes{B(1, 2), B(1, 3), B(1, 192), B(1, 8), B(1, 12), B(2, 3), B(1, 5)}, "known") }; break;
        case 3: dds = { C(6, 0), mc::pick(Codes{B(1, 250), B(1, 2)}, "skipped") }; break;
        case 4: dds = { R(2, 2), C(6, 11), B(1, 250), C(5, 3), C(5, 3), C(6, 12), B(1, 250), C(6, 11), B(1, 251) }; break;
    }
    dds.push_back(B(1, 3));
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) { s.rich = dds.size() > 10 ? 0 : dds.size() > 5 ? 1 : 3; });
    check(m, "local");
}

void shipped_elements()
{
    const Shipped& s = mc::pick(shipped_tables, "table");
    if (!same_tables(s)) mc::prune();
    for (auto& i: s.t.b)
    {
        if (i.second.str && (i.second.bits == 0 || i.second.bits % 8)) continue;
        uint64_t miss = ones(i.second.bits);
        std::vector<uint64_t> raws { 0, 1, miss / 3, miss - 1, miss };
        for (unsigned k = 0; k < (i.second.str ? 3 : raws.size()); ++k)
        {
            Made m; m.h = s.h; m.dds = { i.first, i.first };
            m.fields.resize(1); m.vals.resize(1);
            Bits bits;
            if (i.second.str) for (unsigned j = 0; j < i.second.bits / 8 * 2; ++j) bits.add(k == 0 ? 'A' + j % 26 : k == 1 ? 0xff : j ? ' ' : 'x', 8);
            else { bits.add(raws[k], i.second.bits); bits.add(raws[k], i.second.bits); }
            std::string buf = bits.buf;
            BitSource src(buf, 0, bits.size());
            Model model(s.t, src);
            try { model.run(m.dds); } catch (Invalid& e) { m.invalid = true; m.why = e.why; } catch (Unspec&) { continue; }
            m.vals[0] = model.vars;
            Field f; f.kind = Field::STR; f.bits = bits.size(); f.s = bits.buf;
            if (f.bits % 8) f.s.back() = (char)((unsigned char)f.s.back() >> (8 - f.bits % 8));
            m.fields[0] = { f };
            check(m, (s.b + " " + varcode_format(i.first)).c_str());
        }
    }
}

/// All sequences of the shipped tables
void shipped_sequences()
{
    const Shipped& s = mc::pick(shipped_tables, "table");
    if (!same_tables(s)) mc::prune();
    unsigned count = mc::choose(3, "count");
    unsigned mode = mc::choose(2, "values");
    for (auto& i: s.t.d)
    {
        Made m; m.h = s.h; m.dds = { i.first };
        m.fields.resize(1); m.vals.resize(1);
        PatternSource src(count, mode);
        Model model(s.t, src);
        model.limit = 20000;
        try { model.run(m.dds); } catch (Invalid& e) { m.invalid = true; m.why = e.why; } catch (Unspec&) { continue; }
        m.vals[0] = model.vars;
        m.fields[0] = src.fields;
        if (mc::tracing) mc::trace("%s %s", s.b.c_str(), varcode_format(i.first).c_str());
        check(m, (s.b + " " + varcode_format(i.first)).c_str());
    }
}

/// Real messages: the model and the library must agree (this also validates the model)
std::vector<std::string> test_messages;
void testdata()
{
    const std::string& path = mc::pick(test_messages, "file");
    std::ifstream in(path, std::ios::binary);
    std::string raw((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    size_t start = raw.find("BUFR");
    if (start == std::string::npos) mc::prune();
    raw = raw.substr(start);
    Quiet quiet;
    std::unique_ptr<BufrBulletin> b;
    std::string res = outcome_of([&] { b = BufrBulletin::decode(raw); });
    if (!b) { mc::outcome("not decoded"); mc::prune(); }
    if (b->compression) { mc::outcome("compressed"); mc::prune(); }
    TableSet t = load_tables(b->tables.btable->path(), b->tables.dtable->path());
    std::vector<MVals> vals;
    BitSource src(raw, (b->section_end[3] + 4) * 8, b->section_end[4] * 8);
    try {
        for (size_t i = 0; i < b->subsets.size(); ++i)
        {
            Model m(t, src);
            m.run(b->datadesc);
            vals.push_back(m.vars);
        }
    } catch (Unspec& e) { mc::outcome("unspecified: " + e.why); mc::prune(); }
    catch (Invalid& e) { mc::fail("%s: decoded, but it is not valid: %s", path.c_str(), e.why.c_str()); }
    check_subsets(*b, vals, path.c_str());
    mc::outcome("same");
    mc::state(path);
    for (auto& v: vals) mc::step(v.size());
}

}

void mc::setup()
{
    install_tables();
    load_shipped();
    for (auto& e: std::filesystem::recursive_directory_iterator(mc::repo() + "/testdata/bufr"))
        if (e.is_regular_file()) test_messages.push_back(e.path());
    std::sort(test_messages.begin(), test_messages.end());
    Options o; o.leaks = false;
    bool th = thorough();
    add("operators-1", []{ operators(1, true); }, o);
    add("operators-2", []{ operators(2, true); }, o);
    add("operators-3", []{ operators(3, true); }, o);
    add("operators-4", []{ operators(4, true); }, o);
    add("operators-5", [th]{ operators(5, th); }, o);
    add("subsets-2", []{ subsets(2, 2); }, o);
    add("subsets-3", []{ subsets(2, 3); }, o);
    if (th) add("subsets-3-3", []{ subsets(3, 3); }, o);
    add("values", values, o);
    add("bytes", bytes, o);
    add("local-sizes-2", []{ local_sizes(2); }, o);
    add("local-sizes-3", []{ local_sizes(3); }, o);
    add("replications-1", []{ replications(1); }, o);
    add("replications-2", []{ replications(2); }, o);
    if (th) add("replications-3", []{ replications(3); }, o);
    add("counts", counts, o);
    add("cut", cut, o);
    add("associated", associated, o);
    add("references", references, o);
    add("local", local, o);
    Options so = o; so.timeout = 300;
    add("shipped-elements", shipped_elements, so);
    add("shipped-sequences", shipped_sequences, so);
    add("testdata", testdata, so);
}
