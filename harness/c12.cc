// C12: equality and differences of variables are consistent.
#include "varmodel.h"
#include <wreport/notes.h>
#include <sstream>
using namespace vm;

const char* mc::property = "C12";

namespace {

struct Pool { std::vector<MVar> v; };

const std::vector<MVar>& pool()
{
    static std::vector<MVar> res;
    if (!res.empty()) return res;
    const Infos& in = infos();
    static _Varinfo bin6, bin8, bin12, bin16, bin40, strs[3], crexdec, intasbin;
    bin6.set_binary(WR_VAR(0, 30, 1), "BINARY 6", 6);
    bin8.set_binary(WR_VAR(0, 30, 1), "BINARY 8", 8);
    bin12.set_binary(WR_VAR(0, 30, 1), "BINARY 12", 12);
    bin16.set_binary(WR_VAR(0, 30, 1), "BINARY 16", 16);
    bin40.set_binary(WR_VAR(0, 30, 1), "BINARY 40", 40);
    for (unsigned i = 0; i < 3; ++i) strs[i].set_string(WR_VAR(0, 1, 15), "STRING", 2 << i);
    // Same code and scale, different encoding
    crexdec.set_crex(WR_VAR(0, 12, 101), "DECIMAL IN CREX", "C", 2, 5);
    // Same code as other types
    intasbin.set_binary(WR_VAR(0, 1, 1), "BINARY WITH THE CODE OF AN INTEGER", 32);
    static _Varinfo intassr;
    intassr.set_string(WR_VAR(0, 1, 1), "STRING WITH THE CODE OF AN INTEGER", 4);
    static _Varinfo intasdec;
    intasdec.set_bufr(WR_VAR(0, 1, 1), "DECIMAL WITH THE CODE OF AN INTEGER", "K", 1, 3, 0, 10);

    static _Varinfo a1, a1s, a2, a3;
    a1.set_bufr(WR_VAR(0, 33, 7), "CONFIDENCE", "%", 0, 3, 0, 7);
    a1s.set_string(WR_VAR(0, 33, 7), "CONFIDENCE AS STRING", 4);
    a2.set_string(WR_VAR(0, 33, 20), "ATTR STRING", 6);
    a3.set_bufr(WR_VAR(0, 1, 1), "ATTR", "NUMERIC", 0, 3, 0, 7);

    std::vector<std::map<Varcode, MAttr>> asets;
    auto attr = [&](std::map<Varcode, MAttr>& m, Varinfo i, int n) { MAttr a; a.info = i; if (n >= 0) a.val = value(i, n); m[i->code] = a; };
    asets.emplace_back();
    { std::map<Varcode, MAttr> m; attr(m, &a1, 0); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a1, 2); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a1, -1); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a1s, 0); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a2, 0); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a1, 0); attr(m, &a2, 0); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a1, 0); attr(m, &a2, 2); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a1, 0); attr(m, &a2, -1); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a3, 0); attr(m, &a1, 0); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a3, 0); attr(m, &a1, 0); attr(m, &a2, 0); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a3, 0); attr(m, &a1, 0); attr(m, &a2, 2); asets.push_back(m); }
    { std::map<Varcode, MAttr> m; attr(m, &a3, 2); attr(m, &a2, 0); asets.push_back(m); }

    std::vector<std::pair<Varinfo, std::vector<Val>>> bases;
    auto num = [](std::initializer_list<int> l) { std::vector<Val> r(1); for (int i: l) { Val v; v.isset = true; v.i = i; r.push_back(v); } return r; };
    auto str = [](Varinfo info, std::initializer_list<const char*> l) {
        std::vector<Val> r(1);
        for (auto i: l) { MVar m; m.info = info; m.assign_text(i); r.push_back(m.val); }
        return r;
    };
    auto bin = [](Varinfo info, std::initializer_list<std::string> l) {
        std::vector<Val> r(1);
        for (auto i: l) { MVar m; m.info = info; m.assign_bytes(i); r.push_back(m.val); }
        return r;
    };
    bases.emplace_back(&in.integer, num({0, 1, 65}));
    bases.emplace_back(&intassr, str(&intassr, {"", "A", "1", "0"}));
    bases.emplace_back(&intasbin, bin(&intasbin, {"", "A", "\1"}));
    bases.emplace_back(&intasdec, num({0, 1, 65}));
    bases.emplace_back(&in.decimal, num({0, 1, 1234}));
    bases.emplace_back(&crexdec, num({0, 1, 1234, -5}));
    bases.emplace_back(&in.dneg, num({0, 7}));
    for (auto& s: strs) bases.emplace_back(&s, str(&s, {"", "a", "ab", "abc", "abcdefgh", "ab "}));
    for (auto i: { &bin6, &bin8, &bin12, &bin16, &bin40 }) bases.emplace_back(i, bin(i, {"", "\1", "\1\1", "\1\1\1\1\1", "\1\1\1\1\2", std::string("\1\0\3\0\1", 5), std::string("\1\0\3\0\2", 5), std::string("\0\1\3\0\2", 5)}));
    for (auto& b: bases)
        for (auto& val: b.second)
            for (auto& as: asets)
            {
                if (!mc::thorough() && b.first != &in.integer && b.first != &strs[1] && as.size() > 1) continue;
                MVar m; m.info = b.first; m.val = val; m.attrs = as;
                res.push_back(m);
            }
    return res;
}

bool val_equal(Varinfo i1, const Val& v1, Varinfo i2, const Val& v2)
{
    if (!v1.isset && !v2.isset) return true;
    if (v1.isset != v2.isset) return false;
    if (i1->type != i2->type) return false;
    if (i1->type == Vartype::Binary && i1->bit_len != i2->bit_len) return false;
    return v1.i == v2.i && v1.s == v2.s;
}

bool model_equal(const MVar& a, const MVar& b)
{
    if (a.info->code != b.info->code) return false;
    if (!val_equal(a.info, a.val, b.info, b.val)) return false;
    if (a.attrs.size() != b.attrs.size()) return false;
    for (auto i = a.attrs.begin(), j = b.attrs.begin(); i != a.attrs.end(); ++i, ++j)
        if (i->first != j->first || !val_equal(i->second.info, i->second.val, j->second.info, j->second.val)) return false;
    return true;
}

void pairs()
{
    const auto& p = pool();
    unsigned ia = mc::choose(p.size(), "first");
    const MVar& a = p[ia];
    Var va = build(a);
    for (unsigned ib = 0; ib < p.size(); ++ib)
    {
        const MVar& b = p[ib];
        mc::step();
        mc::state((uint64_t)ia << 32 | ib);
        Var vb = build(b);
        bool expected = model_equal(a, b);
        std::string what = "[" + a.canon() + "] and [" + b.canon() + "]";
        MC_CHECK((va == vb) == expected, "%s compare as %s", what.c_str(), va == vb ? "equal" : "different");
        MC_CHECK((va != vb) == !expected, "%s: != is wrong", what.c_str());
        bool ve = val_equal(a.info, a.val, b.info, b.val);
        MC_CHECK(va.value_equals(vb) == ve, "%s: value_equals is %d", what.c_str(), va.value_equals(vb));
        std::stringstream log;
        unsigned diffs;
        {
            notes::Collect c(log);
            diffs = va.diff(vb);
        }
        MC_CHECK((diffs == 0) == expected, "%s: %u differences", what.c_str(), diffs);
        MC_CHECK(expected == log.str().empty(), "%s: differences are logged as [%s]", what.c_str(), log.str().c_str());
    }
    // Copies are equal
    Var copy(va), assigned(a.info);
    assigned = va;
    MC_CHECK(copy == va && va == copy && assigned == va && va == assigned && va == va, "%s: a copy is different", a.canon().c_str());
    MC_CHECK(copy.diff(va) == 0 && va.diff(copy) == 0 && assigned.diff(va) == 0 && va.diff(va) == 0, "%s: a copy has differences", a.canon().c_str());
    Var moved(std::move(copy));
    MC_CHECK(moved == va && moved.diff(va) == 0, "%s: a moved copy is different", a.canon().c_str());
    check_var(va, a, "comparing changed the variable");
}

/// Values of all sizes that differ in one place, or in their length
void long_values()
{
    bool binary = mc::flag("binary");
    unsigned size = 1 + mc::choose(mc::thorough() ? 1100 : 270, "size");
    if (mc::flag("large")) size *= 17;
    _Varinfo info, ainfo;
    if (binary) info.set_binary(WR_VAR(0, 30, 1), "BINARY", size * 8); else info.set_string(WR_VAR(0, 1, 15), "STRING", size);
    ainfo.set_string(WR_VAR(0, 33, 1), "ATTRIBUTE", 2);
    bool as_attr = mc::flag("attribute");
    unsigned how = mc::choose(6, "difference");
    std::string x(size, 'x'), y(size, 'x');
    switch (how)
    {
        case 0: break;
        case 1: y[0] = 'y'; break;
        case 2: y[size / 2] = 'y'; break;
        case 3: y[size - 1] = 'y'; break;
        case 4: if (binary || size == 1) mc::prune(); y.resize(size - 1); break;
        case 5: y[size - 1 - (size > 8 ? 8 : 0)] = (char)0xf8; break;
    }
    auto make = [&](const std::string& val) {
        Var v(&info);
        v.sets(val);
        if (!as_attr) return v;
        Var outer(&ainfo, "q");
        outer.seta(v);
        return outer;
    };
    Var a = make(x), b = make(y);
    bool same = x == y;
    mc::step();
    mc::state(mc::fmt("%d %d %u %u", binary, as_attr, size, how));
    mc::outcome(same ? "same" : "different");
    std::stringstream log;
    notes::Collect c(log);
    MC_CHECK((a == b) == same && (b == a) == same && (a != b) == !same, "%s of %u characters, difference %u: comparison is wrong", binary ? "binaries" : "strings", size, how);
    MC_CHECK((a.diff(b) == 0) == same && (b.diff(a) == 0) == same, "%s of %u characters, difference %u: wrong number of differences", binary ? "binaries" : "strings", size, how);
    MC_CHECK(a.value_equals(b) == (as_attr || same), "%s of %u characters, difference %u: value_equals is wrong", binary ? "binaries" : "strings", size, how);
}

/// Equal variables however their value was set
void built()
{
    _Varinfo info; info.set_string(WR_VAR(0, 1, 15), "STRING", 6);
    static const std::vector<std::string> before { "", "zzzzzz", "zz", "unset" };
    auto make = [&](unsigned n) {
        Var v(&info);
        const std::string& b = before[n % before.size()];
        if (b != "unset") v.setc(b.c_str());
        if (n / before.size() == 1) v.unset();
        return v;
    };
    unsigned a = mc::choose(8, "history"), b = mc::choose(8, "history");
    static const std::vector<std::string> texts { "", "a", "abcdef" };
    const std::string& t = mc::pick(texts, "text");
    mc::step();
    mc::state(mc::fmt("%u %u ", a, b) + t);
    Var va = make(a), vb = make(b);
    if (a / 4 == 1 || before[a % 4] == "unset") { if (b / 4 == 1 || before[b % 4] == "unset") MC_CHECK(va == vb && va.diff(vb) == 0, "two unset variables are different"); }
    va.sets(t); vb.sets(t);
    MC_CHECK(va == vb && vb == va && va.diff(vb) == 0, "variables set to the same string are different");
    vb.sets(t + "x");
    bool expected = t.size() == 6;
    MC_CHECK((va == vb) == expected && (va.diff(vb) == 0) == expected, "variables set to %s and %s compare wrong", va.enqc(), vb.enqc());
}

/// Comparison works with many attributes
void many_attrs()
{
    unsigned n = 1 + mc::choose(30, "attrs");
    unsigned kind = mc::choose(4, "difference");
    unsigned which = mc::choose(n, "which");
    static std::vector<_Varinfo> is;
    if (is.empty()) { is.resize(40); for (unsigned i = 0; i < 40; ++i) is[i].set_bufr(WR_VAR(0, 33, 10 + i), "ATTR", "NUMERIC", 0, 3, 0, 7); }
    Var a(&infos().integer, 1), b(&infos().integer, 1);
    for (unsigned i = 0; i < n; ++i)
    {
        a.seta(Var(&is[i], (int)i));
        b.seta(Var(&is[i], (int)i));
    }
    mc::step();
    mc::state(mc::fmt("%u %u %u", n, kind, which));
    switch (kind)
    {
        case 0: break;
        case 1: b.unseta(is[which].code); break;
        case 2: b.seta(Var(&is[which], 99)); break;
        case 3: b.seta(Var(&is[which])); break;
    }
    MC_CHECK((a == b) == (kind == 0) && (b == a) == (kind == 0), "comparison with %u attributes is wrong", n);
    MC_CHECK((a.diff(b) == 0) == (kind == 0) && (b.diff(a) == 0) == (kind == 0), "difference with %u attributes is wrong", n);
}

}

void mc::setup()
{
    mc::add("pairs", pairs);
    mc::add("histories", built);
    mc::add("long values", long_values);
    mc::add("many attributes", many_attrs);
}
