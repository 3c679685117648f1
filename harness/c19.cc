// C19: validation accepts a bulletin exactly when it can be encoded, and then it can be decoded back.
#include "crexmodel.h"
#include <wreport/bulletin/dds-validator.h>
#include <cmath>
#include <deque>
using namespace cm;

const char* mc::property = "C19";

namespace {

const std::vector<Codes> bufr_templates {
    {B(1, 2), B(1, 3), B(1, 12)},
    {B(1, 7), B(1, 8), B(1, 5), B(1, 6), B(2, 1), B(2, 2)},
    {B(1, 9), B(1, 13), B(1, 1), B(1, 11)},
    {R(1, 0), B(31, 1), B(1, 3)},
    {R(2, 0), B(31, 0), B(1, 2), B(1, 11), B(1, 4)},
    {R(4, 0), B(31, 2), B(1, 2), R(1, 0), B(31, 1), B(1, 3)},
    {R(2, 2), B(1, 2), B(1, 12)},
    {C(4, 2), B(31, 21), B(1, 3), B(1, 2), C(4, 0), B(1, 2)},
    {C(4, 1), B(31, 21), B(1, 12), C(4, 0), B(1, 2)},
    {C(4, 7), B(31, 21), B(1, 3), C(4, 0)},
    {C(3, 12), B(1, 3), B(1, 7), C(3, 255), B(1, 3), B(1, 2), C(3, 0), B(1, 2)},
    {B(1, 3), C(3, 6), B(1, 3), C(3, 255), B(1, 3), C(3, 0), B(1, 3)},
    {C(3, 6), B(1, 3), C(3, 255), B(1, 3), B(1, 2), C(3, 31), B(1, 3), B(1, 2), C(3, 255), B(1, 3), B(1, 2)},
    {C(5, 3), B(1, 2), C(5, 1)},
    {C(6, 5), B(1, 192), C(6, 12), B(63, 1), B(1, 2)},
    {C(6, 16), B(63, 1)},
    {C(1, 130), B(1, 3), C(1, 0), C(2, 129), B(1, 7), C(2, 0), B(1, 3)},
    {C(8, 3), B(1, 12), C(8, 0), B(1, 12)},
    {C(7, 1), B(1, 9), C(7, 0), B(1, 9)},
    {D(1, 4), D(1, 5)},
    {B(1, 2), B(1, 3), C(22, 0), R(1, 2), B(31, 31), B(1, 31), R(1, 2), B(33, 7)},
    {B(1, 2), B(1, 3), B(1, 12), C(23, 0), R(1, 3), B(31, 31), R(1, 0), B(31, 1), C(23, 255)},
    {B(1, 3), B(1, 12), C(22, 0), R(1, 0), B(31, 1), B(31, 31), B(33, 7), C(37, 255), B(1, 2)},
    {B(1, 3), C(5, 2), B(1, 2), C(22, 0), R(1, 2), B(31, 31), B(1, 32), R(1, 0), B(31, 1), B(33, 50), C(37, 0), C(22, 0)},
};

const std::vector<Codes> crex_templates {
    {B(1, 2), B(1, 3), B(1, 12)},
    {B(1, 4), B(1, 5), B(1, 9)},
    {B(1, 1), B(1, 11), B(1, 13), B(2, 1)},
    {R(1, 0), B(1, 3)},
    {R(2, 0), B(1, 2), B(1, 11), B(1, 4)},
    {R(3, 0), B(1, 2), R(1, 0), B(1, 3)},
    {D(1, 4), D(1, 5)},
    {R(2, 2), B(1, 2), B(2, 2)},
};

std::deque<_Varinfo> infos;
Varinfo own_info(const std::function<void(_Varinfo&)>& f)
{
    infos.emplace_back();
    f(infos.back());
    return &infos.back();
}

/// Variables to put instead of others
std::vector<Var> strangers(const Bulletin& b)
{
    std::vector<Var> res;
    for (Varcode c: {B(1, 2), B(1, 3), B(1, 12), B(31, 1), B(2, 1), B(33, 7)})
        if (b.tables.btable->contains(c)) res.emplace_back(b.tables.btable->query(c));
    if (dynamic_cast<const BufrBulletin*>(&b))
    {
        res.emplace_back(b.tables.get_chardata(C(5, 3), 3), "abc");
        res.emplace_back(b.tables.get_unknown(B(63, 1), 12), std::string("\xab\xc0", 2));
        res.emplace_back(b.tables.get_bitmap(C(22, 0), "+-"), "+-");
        res.emplace_back(b.tables.get_bitmap(C(23, 0), "+++"), "+++");
    }
    return res;
}

/// Other descriptions and values for the same code
unsigned const n_other = 6;
Var other(Varinfo i, bool crex)
{
    bool str = i->type == Vartype::String, bin = i->type == Vartype::Binary;
    if (bin)
    {
        static const std::vector<int> d { -8, -1, 1, 4, 8 };
        unsigned bits = std::max(1, (int)i->bit_len + mc::pick(d, "bits"));
        Varinfo n = own_info([&](_Varinfo& v) { v.set_binary(i->code, "other", bits); });
        return Var(n, std::string(n->len, '\x01'));
    }
    if (str)
    {
        int d = (int)mc::choose(4, "length") - 1;
        if ((int)i->len + d < 1) mc::prune();
        Varinfo n = own_info([&](_Varinfo& v) { v.set_string(i->code, "other", i->len + d); });
        static const std::vector<std::string> s { "x", "abcdefghijklmnop", "", "/", " ", "y ", "12" };
        std::string val = mc::pick(s, "string").substr(0, n->len);
        Var res(n);
        res.sets(val);
        return res;
    }
    // Variables that steer the encoder keep their description
    if (WR_VAR_X(i->code) == 31) mc::prune();
    // Numbers
    if (mc::flag("string"))
    {
        static const std::vector<std::string> s { "", "1", "x", "-1", "99999999", "1.5", "1e9" };
        Varinfo n = own_info([&](_Varinfo& v) { v.set_string(i->code, "other", 8); });
        Var res(n);
        res.sets(mc::pick(s, "string"));
        return res;
    }
    int scale = i->scale + (int)mc::choose(3, "scale") - 1;
    Varinfo n = own_info([&](_Varinfo& v) {
        if (crex) v.set_crex(i->code, "other", "NUMERIC", scale, 9);
        else v.set_bufr(i->code, "other", "NUMERIC", scale, 30, -500000000, 31);
    });
    // All that is around the limits of the field
    double unit = pow(10, -i->scale);
    std::vector<double> vals { 0, i->dmin, i->dmax };
    double base = mc::pick(vals, "around");
    static const std::vector<double> ds { 0, 1, -1, 2, -2, 0.4, -0.4, 1000 };
    double val = base + mc::pick(ds, "difference") * unit;
    if (val < n->dmin || val > n->dmax) mc::prune();
    // Variables cannot hold values out of the range of an int, whatever the size of the field
    if (fabs(rint(val / unit)) > INT_MAX - 20.0) mc::prune();
    return Var(n, val);
}

/// Change something; returns what
std::string perturb(Bulletin& b, Subset& s, bool crex)
{
    Tables& t = b.tables;
    unsigned what = mc::choose(crex ? 9 : 13, "change");
    if (what == (crex ? 8u : 12u))
    {
        // Other descriptors for the same data
        static const Codes codes { B(1, 2), B(1, 250), R(1, 1), R(1, 0), R(2, 2), C(1, 130), C(2, 129), C(3, 8), C(3, 255), C(4, 2), C(5, 0), C(5, 2), C(6, 5), C(7, 1), C(8, 1), C(9, 1), C(22, 0), C(23, 0), C(23, 255), C(37, 0), D(1, 1), D(63, 255), B(31, 21), B(31, 1) };
        auto& d = b.datadesc;
        unsigned p = mc::choose(d.size() + 1, "descriptor");
        unsigned k = mc::choose(codes.size() + 1, "which");
        if (k == codes.size()) { if (p == d.size()) mc::prune(); d.erase(d.begin() + p); return "remove descriptor"; }
        if (mc::flag("insert") || p == d.size()) d.insert(d.begin() + p, codes[k]); else d[p] = codes[k];
        return "descriptor";
    }
    auto place = [&]() -> unsigned {
        if (s.empty()) mc::prune();
        return mc::choose(s.size(), "place");
    };
    switch (what)
    {
        case 0: return "nothing";
        case 1: { unsigned p = place(); s.erase(s.begin() + p); return "remove"; }
        case 2: { unsigned p = place(); s.insert(s.begin() + p, s[p]); return "duplicate"; }
        case 3: { unsigned p = place(); if (p + 1 == s.size()) mc::prune(); std::swap(s[p], s[p + 1]); return "swap"; }
        case 4: { unsigned p = place(); s[p].unset(); return "unset"; }
        case 5: {
            auto v = strangers(b);
            unsigned p = mc::choose(s.size() + 1, "place");
            s.insert(s.begin() + p, mc::pick(v, "variable"));
            return "insert";
        }
        case 6: {
            auto v = strangers(b);
            unsigned p = place();
            s[p] = mc::pick(v, "variable");
            return "replace";
        }
        case 7: {
            unsigned p = place();
            Varinfo i = s[p].info();
            if (WR_VAR_F(i->code) == 2)
            {
                if (WR_VAR_X(i->code) == 5)
                {
                    unsigned len = 1 + mc::choose(5, "length");
                    s[p] = Var(t.get_chardata(i->code, len));
                    if (mc::flag("set")) s[p].sets(std::string("abcde", mc::choose(len + 1, "characters")));
                    return "character data";
                }
                unsigned len = 1 + mc::choose(4, "length");
                std::string bits;
                for (unsigned k = 0; k < len; ++k) bits += mc::flag("bit") ? '+' : '-';
                Varcode code = mc::flag("code") ? (i->code == C(22, 0) ? C(23, 0) : C(22, 0)) : i->code;
                s[p] = Var(t.get_bitmap(code, bits), bits);
                return "bitmap";
            }
            Var v = other(i, crex);
            v.setattrs(s[p]);
            s[p] = v;
            return "other";
        }
        // Replication counts and significances
        case 8: {
            unsigned p = place();
            Varcode c = s[p].code();
            if (!is_count(c) && c != B(31, 21)) mc::prune();
            static const std::vector<int> vals { 0, 1, 2, 3, 6, 7, 8, 21, 25, 63 };
            unsigned k = mc::choose(vals.size() + 1, "value");
            s[p] = Var(own_info([&](_Varinfo& v) { v.set_bufr(c, "count", "NUMERIC", 0, 8, 0, 8); }));
            if (k < vals.size()) s[p].seti(vals[k]);
            return "semantic";
        }
        // Attributes
        case 9: {
            unsigned p = place();
            static const std::vector<Varcode> codes { B(33, 2), B(33, 3), B(33, 40), B(33, 41), B(33, 50), B(33, 7) };
            Varcode c = mc::pick(codes, "attribute");
            Var a(own_info([&](_Varinfo& v) { v.set_bufr(c, "attribute", "NUMERIC", 0, 8, -10, 9); }));
            static const std::vector<int> vals { -1, 0, 1, 2, 3, 4, 7, 14, 15, 126, 127, 128 };
            unsigned k = mc::choose(vals.size() + 1, "value");
            // Associated fields wider than the attribute they become can hold values that it cannot
            if (k < vals.size() && WR_VAR_F(b.datadesc[0]) == 2 && WR_VAR_X(b.datadesc[0]) == 4 && vals[k] > b.tables.btable->query(c)->imax
                && vals[k] <= (1 << WR_VAR_Y(b.datadesc[0])) - 2) mc::prune();
            if (k < vals.size()) a.seti(vals[k]);
            s[p].seta(std::move(a));
            return "attribute";
        }
        case 10: { unsigned p = place(); s[p].clear_attrs(); return "no attributes"; }
        // Substituted values
        case 11: {
            unsigned p = place();
            if (WR_VAR_F(s[p].code()) != 0) mc::prune();
            Var a = other(s[p].info(), crex);
            s[p].seta(std::move(a));
            return "substituted value";
        }
    }
    return "";
}

std::string trimmed(const std::string& s, unsigned len)
{
    std::string r = s.substr(0, len);
    r.resize(len, ' ');
    while (r.size() > 1 && isspace((unsigned char)r.back())) r.pop_back();
    return r;
}

/// Compare what was encoded with what is decoded from it
void compare(const Subset& a, const Subset& b, unsigned n)
{
    if (a.size() != b.size()) mc::fail("subset %u has %zu variables, and %zu when decoded back", n, a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i)
    {
        const Var& x = a[i]; const Var& y = b[i];
        auto differ = [&]{ mc::fail("subset %u variable %zu is %s, and %s when decoded back", n, i, dump(x).c_str(), dump(y).c_str()); };
        if (x.code() != y.code()) differ();
        if (x.isset() != y.isset())
        {
            // A missing significance is the same as 63
            if (x.code() == B(31, 21) && x.enq(63) == 63 && y.enq(63) == 63) continue;
            // Strings that look missing
            if (x.isset() && y.info()->type == Vartype::String && (x.info()->type != Vartype::String || !*x.enqc())) continue;
            differ();
        }
        if (!x.isset()) continue;
        switch (y.info()->type)
        {
            case Vartype::Integer:
            case Vartype::Decimal: {
                if (x.info()->type == Vartype::String) break;
                double unit = pow(10, -y.info()->scale);
                if (fabs(x.enqd() - y.enqd()) > unit * 0.5000001) differ();
                break;
            }
            case Vartype::String:
                if (x.info()->type != Vartype::String) break;
                if (WR_VAR_F(x.code()) == 2 ? trimmed(x.enqc(), y.info()->len) != trimmed(y.enqc(), y.info()->len)
                    : trimmed(x.enqc(), y.info()->len) != y.enqc()) differ();
                break;
            case Vartype::Binary:
                if (x.info()->len != y.info()->len || memcmp(x.enqc(), y.enqc(), y.info()->len)) differ();
                break;
        }
    }
}

void check(Bulletin& b, bool crex, const std::string& what)
{
    mc::step();
    std::string invalid;
    for (unsigned i = 0; i < b.subsets.size(); ++i)
    {
        bulletin::DDSValidator v(b, i);
        std::string r = outcome_of([&]{ v.run(); });
        if (r != "ok") { invalid = mc::fmt("subset %u: ", i) + r; break; }
    }
    std::string raw;
    std::string enc = outcome_of([&]{ raw = b.encode(); });
    if (mc::tracing) mc::trace("descriptors %s\n%s validation: %s\nencoding: %s", str(b.datadesc).c_str(), dump_subsets(b).c_str(), invalid.empty() ? "ok" : invalid.c_str(), enc.c_str());
    mc::state(str(b.datadesc) + dump_subsets(b));
    mc::outcome(what + (enc == "ok" ? " valid" : " invalid"));
    if (invalid.empty() != (enc == "ok"))
        mc::fail("%s: validation says %s but encoding says %s\n%s", what.c_str(), invalid.empty() ? "ok" : invalid.c_str(), enc.c_str(), dump_subsets(b).c_str());
    if (what == "nothing" && enc != "ok") mc::fail("a good bulletin cannot be encoded: %s", enc.c_str());
    if (enc != "ok") return;
    if (what.find("descriptor") != std::string::npos)
    {
        for (auto c: b.datadesc)
        {
            // Operators in CREX, and replication factors that are not for replications, are not specified
            if (crex && (WR_VAR_F(c) == 2 || WR_VAR_X(c) == 31)) return;
        }
    }
    std::unique_ptr<Bulletin> back;
    std::string dec = outcome_of([&]{ if (crex) back = CrexBulletin::decode(raw); else back = BufrBulletin::decode(raw); });
    if (dec != "ok") mc::fail("%s: what was encoded cannot be decoded: %s\n%s", what.c_str(), dec.c_str(), dump_subsets(b).c_str());
    if (back->subsets.size() != b.subsets.size()) mc::fail("%zu subsets become %zu", b.subsets.size(), back->subsets.size());
    for (unsigned i = 0; i < b.subsets.size(); ++i) compare(b.subsets[i], back->subsets[i], i);
    for (unsigned i = 0; i < b.subsets.size(); ++i)
    {
        bulletin::DDSValidator v(*back, i);
        std::string r = outcome_of([&]{ v.run(); });
        if (r != "ok") mc::fail("%s: what was decoded is not valid: %s", what.c_str(), r.c_str());
    }
    std::string raw2;
    enc = outcome_of([&]{ raw2 = back->encode(); });
    if (enc != "ok") mc::fail("%s: what was decoded cannot be encoded: %s", what.c_str(), enc.c_str());
    // New reference values that no later variable uses are not kept by a decoded bulletin
    if (what.find("descriptor") != std::string::npos)
        for (auto c: b.datadesc)
            if (WR_VAR_F(c) == 2 && WR_VAR_X(c) == 3) return;
    if (raw2 != raw) mc::fail("%s: encoding again what was decoded gives a different message: %s instead of %s", what.c_str(), mc::esc(raw2).c_str(), mc::esc(raw).c_str());
}

void bufr(const Codes& dds, unsigned nsubsets, unsigned nchanges)
{
    Quiet quiet;
    infos.clear();
    Made m = make(custom(), dds, nsubsets, [&](ChoiceSource& s, unsigned i) {
        s.rich = 0; s.af_rich = 0; s.counts = i ? std::vector<unsigned>{1} : std::vector<unsigned>{0, 1, 2}; s.sigs = {1, 2, 6, 63};
        s.refs = {0, -3};
        if (nchanges > 1) { s.counts = {1}; s.sigs = {1}; s.refs = {-3}; }
    });
    if (m.invalid || m.lossy) mc::prune();
    auto b = make_bulletin(m.h, dds, m.vals);
    std::string what;
    for (unsigned i = 0; i < nchanges; ++i)
    {
        Subset& s = b->subsets[nsubsets > 1 ? mc::choose(nsubsets, "subset") : 0];
        if (i) what += ", ";
        what += perturb(*b, s, false);
    }
    check(*b, false, what);
}

void crex(const Codes& dds, unsigned nsubsets, unsigned nchanges)
{
    Quiet quiet;
    infos.clear();
    CMade m = make_crex(custom_crex(), dds, nsubsets, [&](CSource& s, unsigned i) {
        s.rich = 0; s.counts = i || nchanges > 1 ? std::vector<unsigned>{1} : std::vector<unsigned>{0, 1, 2};
    });
    if (m.invalid) mc::prune();
    auto b = make_crex_bulletin(m.h, dds, m.vals);
    std::string what;
    for (unsigned i = 0; i < nchanges; ++i)
    {
        Subset& s = b->subsets[nsubsets > 1 ? mc::choose(nsubsets, "subset") : 0];
        if (i) what += ", ";
        what += perturb(*b, s, true);
    }
    check(*b, true, what);
}

/// BUFR operators in CREX: there is no specified meaning for most of them, but validation and encoding must still agree
const std::vector<Codes> crex_operators {
    {B(1, 2), C(22, 0), R(1, 1), B(31, 31), R(1, 1), B(33, 7)},
    {B(1, 2), B(1, 3), C(22, 0), R(1, 2), B(31, 31), B(33, 7)},
    {B(1, 2), C(22, 0), R(1, 0), B(31, 1), B(31, 31), B(33, 7)},
    {B(1, 2), C(23, 0), R(1, 1), B(31, 31), C(23, 255)},
    {B(1, 2), C(22, 0)},
    {B(1, 2), C(22, 0), B(33, 7)},
    {C(4, 6), B(31, 21), B(1, 2), C(4, 0)},
    {C(4, 6), B(1, 2), C(4, 0)},
    {C(4, 6), C(4, 0)},
    {C(5, 3)},
    {B(1, 2), C(5, 3), B(1, 3)},
    {C(3, 8), B(1, 2), C(3, 255), B(1, 2), C(3, 0)},
    {C(3, 8), C(3, 255), B(1, 2)},
    {C(1, 130), B(1, 2), C(1, 0)},
    {C(2, 129), B(1, 2), C(2, 0), B(1, 3)},
    {C(6, 8), B(1, 192), B(1, 2)},
    {C(7, 1), B(1, 2), C(7, 0)},
    {C(8, 3), B(1, 12), C(8, 0)},
    {C(36, 0), B(1, 2)},
    {C(37, 0), B(1, 2)},
    {C(37, 255), B(1, 2)},
    {B(31, 31)},
    {B(31, 21)},
    {B(31, 1), B(1, 2)},
};

void crex_ops(unsigned maxlen)
{
    Quiet quiet;
    infos.clear();
    auto tables = BufrBulletin::create();
    set_header(*tables, Header());
    tables->load_tables();
    auto p = CrexBulletin::create();
    set_header(*p, CHeader());
    p->load_tables();
    p->datadesc = mc::pick(crex_operators, "descriptors");
    Subset& s = p->obtain_subset(0);
    std::vector<Var> pool;
    for (auto c: {B(1, 2), B(1, 3)}) pool.emplace_back(p->tables.btable->query(c), 5);
    for (auto c: {B(31, 1), B(31, 21), B(31, 31), B(33, 7)}) pool.emplace_back(tables->tables.btable->query(c), 1);
    pool.emplace_back(p->tables.btable->query(B(1, 12)), "ab");
    pool.emplace_back(tables->tables.get_bitmap(C(22, 0), "+"), "+");
    pool.emplace_back(tables->tables.get_bitmap(C(22, 0), "+-"), "+-");
    pool.emplace_back(tables->tables.get_bitmap(C(23, 0), "+"), "+");
    pool.emplace_back(tables->tables.get_chardata(C(5, 3), 3), "abc");
    unsigned len = mc::choose(maxlen + 1, "variables");
    for (unsigned i = 0; i < len; ++i)
    {
        s.push_back(pool[mc::choose(pool.size(), "variable")]);
        if (mc::flag("attribute") ) s.back().seta(Var(tables->tables.btable->query(B(33, 7)), 3));
    }
    check(*p, true, "operators or descriptors");
}

/// Values around the limits of every element of the tables
void limits(bool crex)
{
    Quiet quiet;
    infos.clear();
    std::vector<Varcode> codes;
    for (auto& e: (crex ? custom_crex() : custom()).b) if (WR_VAR_X(e.first) != 31) codes.push_back(e.first);
    Varcode c = mc::pick(codes, "element");
    std::unique_ptr<Bulletin> b;
    if (crex)
    {
        auto p = CrexBulletin::create();
        set_header(*p, CHeader());
        b = std::move(p);
    } else {
        auto p = BufrBulletin::create();
        set_header(*p, Header());
        b = std::move(p);
    }
    b->load_tables();
    b->datadesc.push_back(c);
    Subset& s = b->obtain_subset(0);
    s.store_variable(other(b->tables.btable->query(c), crex));
    check(*b, crex, "limits");
}

}

void mc::setup()
{
    install_tables();
    install_crex_tables();
    custom(); custom_crex();
    Options o;
    bool th = thorough();
    add("bufr-limits", []{ limits(false); }, o);
    add("crex-limits", []{ limits(true); }, o);
    add("crex-operators", [th]{ crex_ops(th ? 4 : 3); }, o);
    for (unsigned i = 0; i < bufr_templates.size(); ++i)
    {
        add(mc::fmt("bufr-%u", i), [i]{ bufr(bufr_templates[i], 1, 1); }, o);
        add(mc::fmt("bufr-%u-subsets", i), [i]{ bufr(bufr_templates[i], 2, 1); }, o);
        if (th) add(mc::fmt("bufr-%u-pairs", i), [i]{ bufr(bufr_templates[i], 1, 2); }, o);
    }
    for (unsigned i = 0; i < crex_templates.size(); ++i)
    {
        add(mc::fmt("crex-%u", i), [i]{ crex(crex_templates[i], 1, 1); }, o);
        add(mc::fmt("crex-%u-subsets", i), [i]{ crex(crex_templates[i], 2, 1); }, o);
        add(mc::fmt("crex-%u-pairs", i), [i]{ crex(crex_templates[i], 1, 2); }, o);
    }
}
