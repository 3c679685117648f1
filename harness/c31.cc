// C31: bulletins and subsets hold exactly what was stored in them, and a cleared bulletin is as good as new.
//
// All histories of operations on a bulletin, in lock step with lists of (description, value, attributes).
#include "crexmodel.h"
using namespace bm;

const char* mc::property = "C31";

namespace {

std::string code_text(Varcode c) { return mc::fmt("%c%02d%03d", "BRCD"[WR_VAR_F(c)], WR_VAR_X(c), WR_VAR_Y(c)); }

/// Expected variable, as text
struct MV
{
    Varcode code;
    std::string text;                           // value: digits, quoted string, or "missing"
    std::map<Varcode, std::string> attrs;
    std::string str() const
    {
        std::string r = code_text(code) + "=" + text;
        for (auto& a: attrs) r += "{" + code_text(a.first) + "=" + a.second + "}";
        return r;
    }
};

std::string value_text(const Var& v)
{
    if (!v.isset()) return "missing";
    switch (v.info()->type)
    {
        case Vartype::Integer:
        case Vartype::Decimal: return std::to_string(v.enqi());
        case Vartype::String: return "'" + std::string(v.enqc()) + "'";
        default: return mc::hex(std::string(v.enqc(), v.info()->len));
    }
}
std::string text(const Var& v)
{
    std::string r = code_text(v.code()) + "=" + value_text(v);
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) r += "{" + code_text(a->code()) + "=" + value_text(*a) + "}";
    return r;
}

/// Header fields, as the list of their values
std::string header(const Bulletin& b)
{
    std::string r = mc::fmt("%s@%zu mt%u cat%u.%u.%u centre%u.%u u%u %u-%u-%u %u:%u:%u ", b.fname.c_str(), (size_t)b.offset, b.master_table_number,
        b.data_category, b.data_subcategory, b.data_subcategory_local, b.originating_centre, b.originating_subcentre, b.update_sequence_number,
        b.rep_year, b.rep_month, b.rep_day, b.rep_hour, b.rep_minute, b.rep_second) + str(b.datadesc);
    if (auto x = dynamic_cast<const BufrBulletin*>(&b))
    {
        r += mc::fmt(" ed%u v%u.%u c%d opt%s", x->edition_number, x->master_table_version_number, x->master_table_version_number_local, (int)x->compression, mc::hex(x->optional_section).c_str());
        for (auto s: x->section_end) r += mc::fmt(" %u", s);
    }
    if (auto x = dynamic_cast<const CrexBulletin*>(&b))
        r += mc::fmt(" ed%u v%u.%u.%u d%d", x->edition_number, x->master_table_version_number, x->master_table_version_number_bufr, x->master_table_version_number_local, (int)x->has_check_digit);
    return r;
}

const char* NEW_BUFR = "@0 mt0 cat255.255.255 centre65535.65535 u0 0-0-0 0:0:0  ed4 v19.0 c0 opt 0 0 0 0 0 0";
const char* NEW_CREX = "@0 mt0 cat255.255.255 centre65535.65535 u0 0-0-0 0:0:0  ed2 v19.19.0 d0";

struct World
{
    bool crex;
    std::unique_ptr<Bulletin> b;
    std::vector<std::vector<MV>> m;
    std::string head;
    bool loaded = false;

    World(bool crex) : crex(crex)
    {
        if (crex) b = CrexBulletin::create(); else b = BufrBulletin::create();
        head = crex ? NEW_CREX : NEW_BUFR;
        compare("a new bulletin");
        prepare();
    }

    /// Tables and a header
    void prepare()
    {
        if (auto x = dynamic_cast<BufrBulletin*>(b.get())) { x->master_table_version_number = 200; x->originating_centre = 98; x->originating_subcentre = 0; }
        if (auto x = dynamic_cast<CrexBulletin*>(b.get())) { x->edition_number = 3; x->master_table_version_number = 99; x->master_table_version_number_bufr = 0; x->originating_centre = x->originating_subcentre = 0; }
        b->load_tables();
        loaded = true;
        head = header(*b);
    }

    void compare(const char* what)
    {
        mc::step();
        std::string h = header(*b);
        if (h != head) mc::fail("%s: header is %s instead of %s", what, h.c_str(), head.c_str());
        MC_CHECK(b->tables.loaded() == loaded, "%s: tables loaded: %d", what, (int)b->tables.loaded());
        MC_CHECK(b->subsets.size() == m.size(), "%s: there are %zu subsets instead of %zu", what, b->subsets.size(), m.size());
        std::string st = head;
        for (size_t i = 0; i < m.size(); ++i)
        {
            const Subset& s = b->subset(i);
            MC_CHECK(&s == &b->subsets[i], "%s: subset(%zu) is another subset", what, i);
            MC_CHECK(s.size() == m[i].size(), "%s: subset %zu has %zu variables instead of %zu", what, i, s.size(), m[i].size());
            for (size_t j = 0; j < m[i].size(); ++j)
            {
                std::string got = text(s[j]), exp = m[i][j].str();
                if (got != exp) mc::fail("%s: variable %zu of subset %zu is %s instead of %s", what, j, i, got.c_str(), exp.c_str());
                st += exp;
            }
            st += "|";
        }
        mc::state(st);
        for (unsigned i = m.size(); i < m.size() + 2; ++i)
        {
            bool ok = false;
            try { const Bulletin& c = *b; c.subset(i); } catch (error_notfound&) { ok = true; }
            MC_CHECK(ok, "%s: subset %u is not there, and it is not an error to ask for it", what, i);
        }
    }

    Subset& obtain(unsigned i)
    {
        while (m.size() <= i) m.emplace_back();
        return b->obtain_subset(i);
    }
};

/// A value to store, and what it becomes: code, how, expected text ("" for an error)
struct Store
{
    Varcode code;
    char how;               // i, d, c, u(ndef), U(ndef from its description)
    int i; double d; const char* c;
    std::string bufr, crex; // expected, "" for an error
};

const std::vector<Store>& stores()
{
    static const std::vector<Store> s {
        { B(1, 4), 'i', 42, 0, "", "42", "42" },
        { B(1, 4), 'i', 126, 0, "", "126", "" },
        { B(1, 4), 'i', 4000000, 0, "", "", "" },
        { B(1, 4), 'd', 0, 17, "", "17", "17" },
        { B(1, 4), 'c', 0, 0, "18", "18", "18" },
        { B(1, 4), 'u', 0, 0, "", "missing", "missing" },
        { B(1, 4), 'U', 0, 0, "", "missing", "missing" },
        { B(1, 3), 'd', 0, 0.2, "", "2", "" },
        { B(1, 3), 'i', 1, 0, "", "1", "" },
        { B(1, 12), 'c', 0, 0, "ab", "'ab'", "'ab'" },
        { B(1, 12), 'c', 0, 0, "", "''", "''" },
        { B(1, 12), 'i', 7, 0, "", "", "" },
        { B(1, 12), 'd', 0, 7, "", "", "" },
        { B(1, 12), 'u', 0, 0, "", "missing", "missing" },
        { B(60, 1), 'i', 1, 0, "", "", "" },
        { B(60, 1), 'd', 0, 1, "", "", "" },
        { B(60, 1), 'c', 0, 0, "1", "", "" },
        { B(60, 1), 'u', 0, 0, "", "", "" },
    };
    return s;
}

/// Store something in a subset, in the bulletin and in the model
void store(World& w, unsigned sub)
{
    const auto& all = stores();
    unsigned n = mc::choose(all.size() + 7, "store");
    Subset& s = w.obtain(sub);
    auto& ms = w.m[sub];
    if (n < all.size())
    {
        const Store& st = all[n];
        // What is expected depends on the description in the table
        Varinfo info = w.b->tables.btable->contains(st.code) ? w.b->tables.btable->query(st.code) : nullptr;
        std::string expected = w.crex ? st.crex : st.bufr;
        if (w.crex && info && st.how != 'c' && st.how != 'u' && st.how != 'U' && info->type != Vartype::String)
        {
            // Same as in BUFR, with the limits and scale of CREX
            long long v = st.how == 'i' ? st.i : llround(st.d * pow(10, info->scale));
            expected = v >= info->imin && v <= info->imax ? std::to_string(v) : "";
        }
        if (w.crex && !info) expected = "";
        bool ok = true;
        try {
            switch (st.how)
            {
                case 'i': s.store_variable_i(st.code, st.i); break;
                case 'd': s.store_variable_d(st.code, st.d); break;
                case 'c': s.store_variable_c(st.code, st.c); break;
                case 'u': s.store_variable_undef(st.code); break;
                case 'U': if (!info) mc::prune(); s.store_variable_undef(info); break;
            }
        } catch (error& e) { ok = false; if (!info) MC_CHECK(e.code() == WR_ERR_NOTFOUND, "an unknown code raises %s", e.what()); }
        mc::trace("store %c %s: %s", st.how, code_text(st.code).c_str(), ok ? "ok" : "error");
        MC_CHECK(ok == !expected.empty(), "storing %s with store_variable_%c (%d, %g, %s): %s", code_text(st.code).c_str(), st.how, st.i, st.d, st.c, ok ? "no error" : "error");
        if (ok) ms.push_back(MV{st.code, expected, {}});
        return;
    }
    auto table = w.b->tables.btable;
    switch (n - all.size())
    {
        case 0: { // Copy, with an attribute
            if (!table->contains(B(33, 7))) mc::prune();
            Var v(table->query(B(1, 4)), 33);
            v.seta(Var(table->query(B(33, 7)), 50));
            s.store_variable(v);
            MC_CHECK(text(v) == "B01004=33{B33007=50}", "storing a variable changes it: %s", text(v).c_str());
            v.seti(34); v.clear_attrs();
            ms.push_back(MV{B(1, 4), "33", {{B(33, 7), "50"}}});
            break; }
        case 1: { // Moved
            if (!table->contains(B(33, 7))) mc::prune();
            Var v(table->query(B(1, 12)), "zz");
            v.seta(Var(table->query(B(33, 7)), 51));
            s.store_variable(std::move(v));
            ms.push_back(MV{B(1, 12), "'zz'", {{B(33, 7), "51"}}});
            break; }
        case 2: { // Value of another variable
            Varcode from = w.crex ? B(1, 2) : B(1, 3), to = w.crex ? B(1, 9) : B(1, 7);
            Var v(table->query(from), 4);
            s.store_variable(to, v);
            ms.push_back(MV{to, w.crex ? "4" : "40", {}});
            break; }
        case 3: { // Value of a missing variable
            Varcode from = w.crex ? B(1, 2) : B(1, 3), to = w.crex ? B(1, 9) : B(1, 7);
            Var v(table->query(from));
            s.store_variable(to, v);
            ms.push_back(MV{to, "missing", {}});
            break; }
        case 6: { // Value that cannot be converted
            Var v(table->query(B(1, 2)), 1);
            bool ok = false;
            try { s.store_variable(B(1, 4), v); } catch (error&) { ok = true; }
            MC_CHECK(ok, "storing a value in an unrelated unit is not an error");
            break; }
        case 4: { // With a code that is not there
            Var v(table->query(B(1, 2)), 1);
            bool ok = false;
            try { s.store_variable(B(60, 1), v); } catch (error_notfound&) { ok = true; }
            MC_CHECK(ok, "storing an unknown code is not an error");
            break; }
        case 5: { // One of its own variables
            if (s.empty()) mc::prune();
            s.store_variable(s[0]);
            ms.push_back(ms[0]);
            break; }
    }
}

void operation(World& w)
{
    switch (mc::choose(9, "operation"))
    {
        case 0: store(w, mc::choose(2, "subset")); break;
        case 1: w.obtain(mc::choose(4, "subset")); break;
        case 2: { // Bitmap computed from attributes
            if (w.crex) mc::prune();
            unsigned sub = 0, size = mc::choose(4, "size");
            Varcode c = mc::flag("substituted") ? C(23, 0) : C(22, 0);
            Subset& s = w.obtain(sub);
            auto& ms = w.m[sub];
            std::string bits;
            std::vector<MV*> data;
            for (auto& v: ms) if (WR_VAR_F(v.code) == 0) data.push_back(&v);
            int count = 0;
            for (unsigned i = 0; i < size; ++i)
            {
                // The last ones, or all if there are not enough
                size_t first = data.size() > size ? data.size() - size : 0;
                bool there = first + i < data.size() && data[first + i]->attrs.count(B(33, 7));
                bits += there ? '+' : '-';
                if (there) ++count;
            }
            int res = s.append_dpb(c, size, B(33, 7));
            MC_CHECK(res == count, "append_dpb gives %d instead of %d", res, count);
            ms.push_back(MV{c, "'" + bits + "'", {}});
            break; }
        case 3: { // Bitmap that marks all
            if (w.crex) mc::prune();
            unsigned size = mc::choose(4, "size");
            Subset& s = w.obtain(0);
            s.append_fixed_dpb(C(22, 0), size);
            w.m[0].push_back(MV{C(22, 0), "'" + std::string(size, '+') + "'", {}});
            break; }
        case 4:
            // Fields which choose tables: set only here, where no table is loaded before they are cleared
            if (mc::flag("other tables"))
            {
                w.b->master_table_number = 7; w.b->originating_centre = 8; w.b->originating_subcentre = 9;
                if (auto x = dynamic_cast<BufrBulletin*>(w.b.get())) { x->master_table_version_number = 10; x->master_table_version_number_local = 11; x->edition_number = 2; }
                if (auto x = dynamic_cast<CrexBulletin*>(w.b.get())) { x->edition_number = 1; x->master_table_version_number = 10; x->master_table_version_number_bufr = 12; x->master_table_version_number_local = 11; }
            }
            w.b->clear(); w.m.clear(); w.loaded = false; w.head = w.crex ? NEW_CREX : NEW_BUFR; w.compare("a cleared bulletin"); w.prepare(); break;
        case 5: { // All the header
            Bulletin& b = *w.b;
            b.fname = "name"; b.offset = 12; b.data_category = 1; b.data_subcategory = 2; b.data_subcategory_local = 3;
            b.update_sequence_number = 4; b.rep_year = 2005; b.rep_month = 6; b.rep_day = 7; b.rep_hour = 8; b.rep_minute = 9; b.rep_second = 10;
            b.datadesc = {B(1, 4), B(1, 12)};
            if (auto x = dynamic_cast<BufrBulletin*>(&b))
            {
                x->compression = true; x->optional_section = mc::flag("long optional section") ? std::string(3000, 0x55) : "optional"; x->edition_number = 3;
                for (auto& e: x->section_end) e = 77;
            }
            if (auto x = dynamic_cast<CrexBulletin*>(&b)) x->has_check_digit = true;
            w.head = header(b);
            break; }
        case 6: { // Subsets are values
            if (w.m.empty()) mc::prune();
            Subset copy(w.b->subsets[0]);
            MC_CHECK(dump(copy) == dump(w.b->subsets[0]), "a copy of a subset is not the same");
            bool mv = mc::flag("move");
            unsigned to = mc::choose(2, "to");
            w.obtain(to);
            auto mc = w.m[0];
            if (mv) w.b->subsets[to] = std::move(copy); else { w.b->subsets[to] = copy; MC_CHECK(text(copy.empty() ? Var(w.b->tables.btable->query(B(1, 4))) : copy[0]) == (mc.empty() ? "B01004=missing" : mc[0].str()), "assigning from a subset changes it"); }
            w.m[to] = mc;
            break; }
        case 7: { // Tables loaded again: what is there stays
            w.b->load_tables();
            break; }
        case 8: { // Tables that are not there, or are not good: an error, and what was stored stays
            static const unsigned bufr[] = { 254, 253, 252 }, crex[] = { 254, 53, 52 };
            unsigned which = mc::choose(3, "bad tables");
            if (auto x = dynamic_cast<BufrBulletin*>(w.b.get())) x->master_table_version_number = bufr[which];
            if (auto x = dynamic_cast<CrexBulletin*>(w.b.get())) { x->master_table_version_number = crex[which]; x->master_table_version_number_bufr = which ? 0 : 254; }
            w.head = header(*w.b);
            const Vartable* btable = w.b->tables.btable;
            const DTable* dtable = w.b->tables.dtable;
            bool ok = false;
            try { w.b->load_tables(); } catch (error&) { ok = true; }
            MC_CHECK(ok, "loading tables that are not there is not an error");
            w.compare("failure to load tables");
            MC_CHECK(w.b->tables.btable == btable && w.b->tables.dtable == dtable, "failure to load tables changes the tables of the bulletin");
            if (auto x = dynamic_cast<BufrBulletin*>(w.b.get())) x->master_table_version_number = 200;
            if (auto x = dynamic_cast<CrexBulletin*>(w.b.get())) { x->master_table_version_number = 99; x->master_table_version_number_bufr = 0; }
            w.head = header(*w.b);
            break; }
    }
}

void histories(bool crex, unsigned depth)
{
    Quiet quiet;
    World w(crex);
    for (unsigned i = 0; i < depth; ++i)
    {
        operation(w);
        w.compare("after an operation");
    }
}

/// What is stored is what is encoded, also in a bulletin used before and then cleared
void encoded(bool crex)
{
    Quiet quiet;
    World w(crex);
    if (mc::flag("used before"))
    {
        for (unsigned i = 0; i < 2; ++i) operation(w);
        if (mc::flag("encoded before")) try { w.b->encode(); } catch (error&) {}
        w.b->clear(); w.m.clear(); w.loaded = false; w.head = crex ? NEW_CREX : NEW_BUFR;
        w.compare("a cleared bulletin");
        w.prepare();
    }
    World fresh(crex);
    for (World* x: {&w, &fresh})
    {
        Bulletin& b = *x->b;
        b.datadesc = {B(1, 4), B(1, 12), B(1, 2)};
        b.rep_year = 2020; b.rep_month = 2; b.rep_day = 3;
        for (unsigned s = 0; s < 2; ++s)
        {
            Subset& sub = b.obtain_subset(s);
            sub.store_variable_i(B(1, 4), 42 + s);
            sub.store_variable_c(B(1, 12), s ? "x" : "yz");
            sub.store_variable_undef(B(1, 2));
        }
    }
    std::string a = w.b->encode(), e = fresh.b->encode();
    mc::step(2);
    MC_CHECK(a == e, "a bulletin used before is encoded differently: %s: %s", mc::hex(a).c_str(), mc::hex(e).c_str());
    MC_CHECK(w.b->diff(*fresh.b) == 0, "a bulletin used before differs from a new one");
}

/// Subsets of bulletins with different tables, assigned to each other
void assigned()
{
    World w0(false), w1(true);
    World* w[2] = { &w0, &w1 };
    struct S { std::unique_ptr<Subset> s; int tables; std::vector<std::pair<int, int>> vars; };
    std::vector<S> v(2);
    for (int i = 0; i < 2; ++i) { v[i].s.reset(new Subset(w[i]->b->tables)); v[i].tables = i; }
    unsigned depth = mc::thorough() ? 5 : 4;
    int next = 1;
    std::string hist;
    for (unsigned d = 0; d < depth; ++d)
    {
        unsigned op = mc::choose(6, "operation");
        unsigned i = mc::choose(2, "subset"), j = 1 - i;
        hist += mc::fmt("%u%u ", op, i);
        switch (op)
        {
            case 0: v[i].s->store_variable_i(B(1, 2), next); v[i].vars.emplace_back(v[i].tables, next); next = (next + 1) % 3; break;
            case 1: *v[i].s = *v[j].s; v[i].tables = v[j].tables; v[i].vars = v[j].vars; break;
            case 2: *v[i].s = std::move(*v[j].s); v[i].tables = v[j].tables; v[i].vars = v[j].vars; v[j].s->clear(); v[j].vars.clear(); break;
            case 3: v[i].s.reset(new Subset(*v[j].s)); v[i].tables = v[j].tables; v[i].vars = v[j].vars; break;
            case 4: v[i].s.reset(new Subset(std::move(*v[j].s))); v[i].tables = v[j].tables; v[i].vars = v[j].vars; v[j].s->clear(); v[j].vars.clear(); break;
            case 5: { Subset& me = *v[i].s; *v[i].s = mc::flag("move") ? std::move(me) : me; break; }
        }
        for (auto& x: v)
        {
            MC_CHECK(x.s->tables == &w[x.tables]->b->tables, "%s: the subset uses the tables of another bulletin", hist.c_str());
            MC_CHECK(x.s->size() == x.vars.size(), "%s: the subset has %zu variables instead of %zu", hist.c_str(), x.s->size(), x.vars.size());
            for (size_t k = 0; k < x.vars.size(); ++k)
            {
                const Var& var = (*x.s)[k];
                MC_CHECK(var.info() == w[x.vars[k].first]->b->tables.btable->query(B(1, 2)), "%s: variable %zu is described by another table", hist.c_str(), k);
                MC_CHECK(var.enqi() == x.vars[k].second, "%s: variable %zu is %d instead of %d", hist.c_str(), k, var.enqi(), x.vars[k].second);
            }
        }
        mc::step();
    }
    mc::state(hist);
}

}

void mc::setup()
{
    install_tables();
    cm::install_crex_tables();
    // Tables that cannot be loaded: no D table, D table that is not good
    std::string dir = mc::scratch() + "/tables/";
    for (auto n: {"0000000000000253000.txt", "0000000000000252000.txt"}) std::ofstream(dir + "B" + n) << custom_b();
    for (auto n: {"000353.txt", "000352.txt"}) std::ofstream(dir + "B" + n) << cm::custom_crex_b();
    for (auto n: {"0000000000000252000.txt", "000352.txt"}) std::ofstream(dir + "D" + n) << "not a table\n";
    // Load the tables in advance
    World(false); World(true);
    mc::Options o; o.timeout = 20;
    mc::add("bufr", []{ histories(false, mc::thorough() ? 4 : 3); }, o);
    mc::add("crex", []{ histories(true, mc::thorough() ? 4 : 3); }, o);
    mc::add("encoded-bufr", []{ encoded(false); }, o);
    mc::add("encoded-crex", []{ encoded(true); }, o);
    mc::add("assigned", assigned, o);
}
