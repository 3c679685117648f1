// C23: data present bitmaps attach quality data to the right variables.
#include "bufrmodel.h"
using namespace bm;

const char* mc::property = "C23";

namespace {

/// Decode, compare with the model, encode, compare the bytes, decode again
void check(Made m, const char* what, bool compressed = false)
{
    mc::trace("descriptors: %s", str(m.dds).c_str());
    Quiet quiet;
    std::string raw;
    if (compressed)
    {
        if (m.invalid) mc::prune();
        Bits bits;
        unsigned n = 0;
        try { write_compressed(bits, m.fields, [&](unsigned k, const char*) { return n++ % k; }); } catch (Unspec&) { mc::prune(); }
        raw = message(m.h, m.dds, m.fields.size(), true, bits);
    } else
        raw = m.plain();
    if (mc::tracing) { mc::trace("values: %s", canon(m.vals).c_str()); mc::trace("message: %s", mc::hex(raw).c_str()); }
    std::unique_ptr<BufrBulletin> b;
    std::string res = outcome_of([&] { b = BufrBulletin::decode(raw); });
    mc::step();
    mc::state(mc::hash(raw));
    if (m.invalid)
    {
        mc::outcome("invalid: " + m.why);
        if (b) mc::fail("%s: %s decoded, but %s", what, str(m.dds).c_str(), m.why.c_str());
        return;
    }
    if (!b) mc::fail("%s: cannot decode %s: %s", what, str(m.dds).c_str(), res.c_str());
    check_subsets(*b, m.vals, what);
    for (auto& v: m.vals) mc::step(v.size());
    if (m.lossy) return;
    for (auto& f: m.fields) f = canonical(f);
    std::string expected = m.plain();
    b->compression = false;
    std::string got;
    res = outcome_of([&] { got = b->encode(); });
    if (res != "ok") mc::fail("%s: cannot encode %s: %s", what, str(m.dds).c_str(), res.c_str());
    if (got != expected) mc::fail("%s: %s encoded as %s instead of %s", what, str(m.dds).c_str(), mc::hex(got).c_str(), mc::hex(expected).c_str());
    check_subsets(*b, m.vals, "after encoding");
    // The same from a bulletin that is made of new
    auto made = make_bulletin(m.h, m.dds, m.vals);
    res = outcome_of([&] { got = made->encode(); });
    if (res != "ok") mc::fail("%s: cannot encode new %s: %s", what, str(m.dds).c_str(), res.c_str());
    if (got != expected) mc::fail("%s: new %s encoded as %s instead of %s", what, str(m.dds).c_str(), mc::hex(got).c_str(), mc::hex(expected).c_str());
    auto again = BufrBulletin::decode(got);
    check_subsets(*again, m.vals, "decoded again");
    mc::step(3);
}

/// Data that a bitmap can refer to
const std::vector<Codes>& data_blocks()
{
    static const std::vector<Codes> d {
        {B(1, 2), B(1, 12), B(1, 3)},
        {B(1, 2), C(5, 2), B(1, 3), C(5, 1), B(1, 11)},
        {R(1, 0), B(31, 1), B(1, 3), B(1, 2)},
        {D(1, 4)},
        {B(1, 2), R(2, 2), B(1, 1), C(5, 1), C(6, 5), B(1, 250)},
        {C(1, 129), B(1, 2), C(1, 0), C(8, 3), B(1, 11), C(8, 0), D(1, 5)},
        {C(4, 2), B(31, 21), B(1, 2), B(1, 3), C(4, 0), B(1, 2)},
        {B(1, 3), B(1, 2), C(22, 0), R(1, 2), B(31, 31), B(33, 2), B(1, 2), C(5, 1)},
    };
    return d;
}

/// All bitmap lengths, patterns, ways to give the length, and numbers of values
void patterns(unsigned maxlen, bool compressed)
{
    unsigned n = 1 + mc::choose(maxlen, "length");
    Codes dds = mc::pick(data_blocks(), "data");
    bool subst = mc::flag("substituted");
    dds.push_back(subst ? C(23, 0) : C(22, 0));
    if (mc::flag("C36")) dds.push_back(C(36, 0));
    if (mc::flag("delayed")) { dds.push_back(R(1, 0)); dds.push_back(B(31, 1)); }
    else dds.push_back(R(1, n));
    dds.push_back(B(31, 31));
    unsigned values = mc::choose(maxlen + 2, "values");
    if (values > n + 1) mc::prune();
    if (!subst && mc::flag("originator")) { dds.push_back(B(1, 31)); dds.push_back(B(1, 32)); }
    Varcode v = subst ? C(23, 255) : B(33, 7);
    if (values) { dds.push_back(R(1, values)); dds.push_back(v); }
    dds.push_back(B(1, 2));
    Made m;
    m.dds = dds;
    try {
        unsigned nsub = compressed ? 2 : 1;
        for (unsigned i = 0; i < nsub; ++i)
        {
            ChoiceSource src;
            src.salt = i; src.rich = 0; src.sigs = {2}; src.af_rich = 0;
            src.counts = {n};
            if (i) src.follow = &m.fields[0];
            Model model(custom(), src);
            try { model.run(dds); } catch (Invalid& e) { m.invalid = true; m.why = e.why; }
            m.fields.push_back(src.fields); m.vals.push_back(model.vars);
            if (model.lossy || model.loses_refs()) m.lossy = true;
            if (m.invalid) break;
        }
    } catch (Unspec&) { mc::prune(); }
    check(m, "patterns", compressed);
}

/// Sequences of data, bitmaps, values, reuses and cancellations
void programs(unsigned len, unsigned nsubsets, bool compressed)
{
    static const std::vector<Codes> items {
        {B(1, 2)}, {B(1, 12)}, {C(5, 1)}, {R(1, 0), B(31, 0), B(1, 3)},
        {C(22, 0), R(1, 2), B(31, 31)}, {C(22, 0), C(36, 0), R(1, 0), B(31, 1), B(31, 31)}, {C(23, 0), R(1, 1), B(31, 31)},
        {C(22, 0), C(37, 0)}, {C(23, 0), C(37, 0)}, {C(37, 255)},
        {B(33, 7)}, {R(1, 2), B(33, 2)}, {B(33, 15)}, {C(23, 255)}, {B(1, 31), B(1, 32)},
    };
    Codes dds { B(1, 2), B(1, 3) };
    for (unsigned i = 0; i < len; ++i) { const Codes& c = mc::pick(items, "item"); dds.insert(dds.end(), c.begin(), c.end()); }
    Made m = make(custom(), dds, nsubsets, [&](ChoiceSource& s, unsigned i) { s.rich = 0; s.counts = {1, 2}; s.salt = i; }, compressed);
    check(m, "programs", compressed);
}

/// Operators that begin and end their effect before, between and after the parts of a bitmap
void operators(bool compressed)
{
    static const std::vector<Codes> items {
        {}, {C(1, 130)}, {C(1, 0)}, {C(2, 129)}, {C(2, 0)}, {C(3, 8), B(1, 2), C(3, 255)}, {C(3, 0)}, {C(4, 2), B(31, 21)}, {C(4, 0)},
        {C(5, 1)}, {C(6, 4), B(1, 192)}, {C(7, 1)}, {C(7, 0)}, {C(8, 3)}, {C(8, 0)},
    };
    Codes dds;
    auto add = [&](const Codes& c) { dds.insert(dds.end(), c.begin(), c.end()); };
    const Codes& before = mc::pick(items, "before");
    add(before);
    add({B(1, 2), B(1, 12)});
    bool more = !compressed || mc::thorough();
    if (more) add(mc::pick(items, "after the data"));
    switch (mc::choose(3, "bitmap"))
    {
        case 0: add({C(22, 0), R(1, 2), B(31, 31)}); break;
        case 1: add({C(22, 0), C(36, 0), R(1, 0), B(31, 1), B(31, 31)}); break;
        case 2: add({C(23, 0), R(1, 2), B(31, 31)}); break;
    }
    bool subst = WR_VAR_X(dds[dds.size() - 3]) == 23;
    add(mc::pick(items, "after the bitmap"));
    if (subst) add({C(23, 255)}); else add({B(33, 7)});
    if (more) add(mc::pick(items, "after the value"));
    add({B(1, 2), B(1, 31)});
    Made m = make(custom(), dds, compressed ? 2 : 1, [&](ChoiceSource& s, unsigned i) { s.rich = 0; s.counts = {2}; s.salt = i; }, compressed);
    check(m, "operators", compressed);
}

/// Quality values of all types, with all values
void values()
{
    static const Codes quality { B(33, 2), B(33, 3), B(33, 7), B(33, 15), B(33, 40), B(33, 41), B(33, 50) };
    static const Codes data { B(1, 1), B(1, 2), B(1, 3), B(1, 4), B(1, 5), B(1, 6), B(1, 7), B(1, 8), B(1, 9), B(1, 11), B(1, 12), B(1, 13), B(1, 14), B(1, 15), B(1, 31), B(2, 1), B(2, 2), B(1, 192) };
    Codes dds;
    if (mc::flag("substituted"))
    {
        // Substituted values are like those that they replace, also when operators that altered it are no more in effect
        Varcode c = mc::pick(data, "data");
        switch (mc::choose(6, "operator"))
        {
            case 0: dds = { c }; break;
            case 1: dds = { C(1, 130), c, C(1, 0) }; break;
            case 2: dds = { C(2, 130), c, C(2, 0) }; break;
            case 3: dds = { C(8, 3), c, C(8, 0) }; break;
            case 4: dds = { C(7, 1), c, C(7, 0) }; break;
            case 5: dds = { c, C(1, 130), C(8, 3) }; break;
        }
        for (auto i: Codes{ C(23, 0), R(1, 1), B(31, 31), C(23, 255), B(1, 2) }) dds.push_back(i);
    } else {
        dds = { mc::pick(data, "data") };
        bool alter = mc::flag("altered");
        if (alter) dds.push_back(C(1, 130));
        for (auto i: Codes{ C(22, 0), R(1, 1), B(31, 31), mc::pick(quality, "quality"), B(1, 2) }) dds.push_back(i);
    }
    Made m = make(custom(), dds, 1, [&](ChoiceSource& s, unsigned) { s.rich = 3; s.narrow = mc::thorough() ? 7 : 4; });
    check(m, "values");
}

/// Long bitmaps, with one or two marked elements in any position
void longer()
{
    static const std::vector<unsigned> ns { 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255 };
    static const std::vector<unsigned> more { 256, 257, 300, 1000, 4000 };
    unsigned n;
    Codes dds;
    bool delayed = mc::flag("delayed");
    if (delayed && mc::flag("long"))
    {
        n = mc::pick(more, "length");
        dds = { R(1, 0), B(31, 2), B(1, 2), C(5, 1), C(22, 0), R(1, 0), B(31, 2), B(31, 31) };
    } else {
        n = mc::pick(ns, "length");
        dds = { R(1, n), B(1, 2), C(5, 1), C(22, 0) };
        if (delayed) { dds.push_back(R(1, 0)); dds.push_back(B(31, 1)); dds.push_back(B(31, 31)); }
        else { dds.push_back(R(1, n)); dds.push_back(B(31, 31)); }
    }
    for (auto i: Codes{ R(1, 2), B(33, 7), B(1, 2) }) dds.push_back(i);
    unsigned a = mc::choose(std::min(n, 260u), "first"), b = mc::choose(3, "second");
    if (n > 260) a = a < 130 ? a : n - 260 + a;
    b = b == 0 ? a : b == 1 ? 0 : n - 1;
    bool invert = mc::flag("invert");
    struct Src : PatternSource
    {
        unsigned a, b, pos = 0; bool invert;
        Src(unsigned n, unsigned a, unsigned b, bool invert) : PatternSource(n, 0), a(a), b(b), invert(invert) {}
        uint64_t num(Field::Kind kind, unsigned bits, Varcode code) override
        {
            uint64_t v = PatternSource::num(kind, bits, code);
            if (kind != Field::BITMAP) return v;
            bool marked = pos == a || pos == b;
            ++pos;
            return fields.back().raw = (marked == invert);
        }
    };
    Made m; m.dds = dds;
    // The other subset has a different bitmap with the same beginning, that is also shorter if that is possible
    for (unsigned i = 0; i < 2; ++i)
    {
        unsigned n1 = i && delayed ? n - 1 : n;
        Src src(n1, i ? (a + 1) % n1 : a, b % n1, invert);
        Model model(custom(), src);
        try { model.run(dds); } catch (Unspec&) { mc::prune(); }
        m.fields.push_back(src.fields); m.vals.push_back(model.vars);
        if (model.lossy || model.loses_refs()) m.lossy = true;
    }
    check(m, "long");
}

/// Bitmaps computed from the attributes of the variables
void build()
{
    auto b = BufrBulletin::create();
    Header h;
    set_header(*b, h);
    b->load_tables();
    Subset& s = b->obtain_subset(0);
    unsigned n = 1 + mc::choose(mc::thorough() ? 6 : 4, "variables");
    MVals vals;
    static const Codes codes { B(1, 2), B(1, 12), C(5, 2) };
    Codes dds;
    unsigned ndata = 0;
    const Tables& t = b->tables;
    for (unsigned i = 0; i < n; ++i)
    {
        Varcode c = mc::pick(codes, "variable");
        dds.push_back(c);
        Var v(WR_VAR_F(c) == 2 ? t.get_chardata(c, 2) : t.btable->query(c));
        if (c == B(1, 2)) v.seti(i % 3); else v.setc(i % 2 ? "a" : "bc");
        if (WR_VAR_F(c) == 0)
        {
            ++ndata;
            unsigned a = mc::choose(3, "attributes");
            if (a >= 1) v.seta(Var(t.btable->query(B(33, 7)), 10 + (int)i));
            if (a == 2) v.seta(Var(t.btable->query(B(33, 2)), 1));
        }
        s.store_variable(v);
    }
    std::string before = dump(s);
    unsigned size = 1 + mc::choose(n + 1, "size");
    unsigned op = mc::choose(2, "operator") ? WR_VAR(2, 23, 0) : WR_VAR(2, 22, 0);
    std::vector<bool> has;
    for (auto& v: s) if (WR_VAR_F(v.code()) == 0) has.push_back(v.enqa(B(33, 7)) != nullptr);
    Quiet quiet;
    if (mc::flag("fixed"))
    {
        s.append_fixed_dpb(op, size);
        if (s.size() != n + 1 || s[n].code() != op) mc::fail("append_fixed_dpb did not append the bitmap");
        if (s[n].enqs() != std::string(size, '+')) mc::fail("append_fixed_dpb of %u appended %s", size, s[n].enqs().c_str());
        mc::step();
        return;
    }
    if (size > ndata)
    {
        // It can only be reported as an error when encoding: there is nothing to refer to
        s.append_dpb(op, size, B(33, 7));
        if (s.size() != n + 1 || s[n].enqs().size() != size) mc::fail("append_dpb did not append the bitmap");
        mc::step();
        return;
    }
    int count = s.append_dpb(op, size, B(33, 7));
    std::string expected;
    int marked = 0;
    for (unsigned i = 0; i < size; ++i) { bool p = has[ndata - size + i]; expected += p ? '+' : '-'; marked += p; }
    if (count != marked) mc::fail("append_dpb returned %d instead of %d", count, marked);
    if (s.size() != n + 1 || s[n].code() != op) mc::fail("append_dpb did not append the bitmap");
    if (s[n].enqs() != expected) mc::fail("append_dpb of %u appended %s instead of %s", size, s[n].enqs().c_str(), expected.c_str());
    mc::step();
    // All the attributes marked are encoded
    if (op != WR_VAR(2, 22, 0)) return;
    dds.push_back(op); dds.push_back(R(1, size)); dds.push_back(B(31, 31));
    if (count) { dds.push_back(R(1, count)); dds.push_back(B(33, 7)); }
    b->datadesc = dds;
    std::string raw;
    std::string res = outcome_of([&] { raw = b->encode(); });
    if (res != "ok") mc::fail("cannot encode %s with a bitmap of %s: %s", str(dds).c_str(), expected.c_str(), res.c_str());
    auto d = BufrBulletin::decode(raw);
    unsigned pos = 0;
    if (d->subsets[0].size() != n + 1) mc::fail("wrong number of variables");
    for (unsigned i = 0; i < n; ++i)
    {
        const Var& v = d->subsets[0][i];
        bool expect = false;
        if (WR_VAR_F(v.code()) == 0) { expect = has[pos] && pos >= ndata - size; ++pos; }
        const Var* a = v.enqa(B(33, 7));
        if ((a != nullptr) != expect) mc::fail("variable %u of %s with bitmap %s %s", i, str(dds).c_str(), expected.c_str(), a ? "got the attribute" : "lost the attribute");
        if (a && a->enqi() != 10 + (int)i) mc::fail("variable %u of %s with bitmap %s got the attribute of another", i, str(dds).c_str(), expected.c_str());
        if (v.enqa(B(33, 2))) mc::fail("unexpected attribute");
    }
    mc::state(mc::hash(raw));
    mc::step(3);
}

}

void mc::setup()
{
    install_tables();
    Options o; o.leaks = false;
    bool th = thorough();
    add("patterns", [th]{ patterns(th ? 9 : 6, false); }, o);
    add("patterns-compressed", [th]{ patterns(th ? 7 : 5, true); }, o);
    for (unsigned n = 1; n <= (th ? 5 : 4); ++n)
        add(mc::fmt("programs-%u", n), [n]{ programs(n, 1, false); }, o);
    for (unsigned n = 1; n <= (th ? 4 : 3); ++n)
        add(mc::fmt("programs-subsets-%u", n), [n]{ programs(n, 2, false); }, o);
    for (unsigned n = 1; n <= (th ? 5 : 4); ++n)
        add(mc::fmt("programs-compressed-%u", n), [n]{ programs(n, 2, true); }, o);
    add("operators", []{ operators(false); }, o);
    add("operators-compressed", []{ operators(true); }, o);
    add("values", values, o);
    add("long", longer, o);
    add("build", build, o);
}
