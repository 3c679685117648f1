// C20: comparing bulletins notices every difference and nothing else.
#include "crexmodel.h"
#include <wreport/tableinfo.h>
using namespace cm;

const char* mc::property = "C20";

namespace {

template<typename T> void change_number(T& field)
{
    static const std::vector<unsigned> d { 1, 0x80, 0xff, 0x100, 0x8000, 0xffff };
    T old = field;
    field = field + mc::pick(d, "difference");
    if (field == old) mc::prune();
}

void header(BufrBulletin& b, unsigned which)
{
    switch (which)
    {
        case 0: change_number(b.edition_number); break;
        case 1: change_number(b.master_table_version_number); break;
        case 2: change_number(b.master_table_version_number_local); break;
        case 3: {
            static const std::vector<std::string> v { "", "a", "b", "aa", std::string("\0", 1), std::string("a\0b", 3), std::string("a\0c", 3), std::string(300, 'a'), std::string(299, 'a') + "b", std::string(301, 'a') };
            b.optional_section = mc::pick(v, "optional section");
            break;
        }
        // These are not differences
        case 4: b.compression = !b.compression; break;
        case 5: b.section_end[mc::choose(6, "section")] += 5; break;
        case 6: b.fname = "other"; b.offset = 10; break;
    }
}
unsigned const bufr_details = 7;

void header(CrexBulletin& b, unsigned which)
{
    switch (which)
    {
        case 0: change_number(b.edition_number); break;
        case 1: change_number(b.master_table_version_number); break;
        case 2: change_number(b.master_table_version_number_local); break;
        case 3: change_number(b.master_table_version_number_bufr); break;
        case 4: b.has_check_digit = !b.has_check_digit; break;
        case 5: b.fname = "other"; b.offset = 10; break;
    }
}
unsigned const crex_details = 6;

void common(Bulletin& b, unsigned which)
{
    switch (which)
    {
        case 0: change_number(b.master_table_number); break;
        case 1: change_number(b.data_category); break;
        case 2: change_number(b.data_subcategory); break;
        case 3: change_number(b.data_subcategory_local); break;
        case 4: change_number(b.originating_centre); break;
        case 5: change_number(b.originating_subcentre); break;
        case 6: change_number(b.update_sequence_number); break;
        case 7: change_number(b.rep_year); break;
        case 8: change_number(b.rep_month); break;
        case 9: change_number(b.rep_day); break;
        case 10: change_number(b.rep_hour); break;
        case 11: change_number(b.rep_minute); break;
        case 12: change_number(b.rep_second); break;
    }
}
unsigned const common_details = 13;

void descriptors(Bulletin& b)
{
    auto& d = b.datadesc;
    switch (mc::choose(5, "descriptors"))
    {
        case 0: d.erase(d.begin() + mc::choose(d.size(), "place")); break;
        case 1: { unsigned p = mc::choose(d.size() + 1, "place"); d.insert(d.begin() + p, B(1, 2)); break; }
        case 2: d[mc::choose(d.size(), "place")] ^= 1u << mc::choose(16, "bit"); break;
        case 3: { unsigned p = mc::choose(d.size() - 1, "place"); std::swap(d[p], d[p + 1]); break; }
        case 4: d.clear(); break;
    }
}

void change_value(Var& v)
{
    if (!v.isset())
    {
        if (v.info()->type == Vartype::Integer || v.info()->type == Vartype::Decimal) v.seti(v.info()->imin);
        else v.sets("z");
        return;
    }
    switch (v.info()->type)
    {
        case Vartype::Integer:
        case Vartype::Decimal: {
            static const std::vector<int> d { 1, -1, 2, 256, 65536, -256, -65536 };
            int n = v.enqi() + mc::pick(d, "difference");
            if (n < v.info()->imin || n > v.info()->imax) mc::prune();
            v.seti(n);
            break;
        }
        case Vartype::String: {
            std::string s = v.enqc(); if (s.empty()) mc::prune();
            switch (mc::choose(5, "string"))
            {
                case 0: s.pop_back(); break;
                case 1: s[mc::choose(s.size(), "character")] ^= 1; break;
                case 2: s[mc::choose(s.size(), "character")] = '\xe8'; break;
                case 3: if (s.size() >= v.info()->len) mc::prune(); s += 'x'; break;
                case 4: s = "";
            }
            v.sets(s);
            break;
        }
        case Vartype::Binary: {
            std::string s(v.enqc(), v.info()->len);
            unsigned bit = mc::choose(v.info()->bit_len, "bit");
            s[bit / 8] ^= 1 << (bit % 8);
            v.sets(s);
            break;
        }
    }
}

void attribute(Var& v, const Tables& t)
{
    switch (mc::choose(4, "attributes"))
    {
        case 0: {
            Var a(t.btable->query(B(33, 7)));
            if (mc::flag("set")) a.seti(mc::choose(3, "value"));
            v.seta(std::move(a));
            break;
        }
        case 1: v.clear_attrs(); break;
        case 2: {
            Var* a = const_cast<Var*>(v.next_attr());
            if (a && mc::flag("second")) a = const_cast<Var*>(a->next_attr());
            if (!a) mc::prune();
            if (mc::flag("unset")) a->unset(); else change_value(*a);
            break;
        }
        case 3: {
            Varcode code = v.code();
            if (WR_VAR_F(code) || !t.btable->contains(code)) mc::prune();
            Var a(v); a.clear_attrs();
            change_value(a);
            v.seta(std::move(a));
            break;
        }
    }
}

void data(Bulletin& b)
{
    auto& ss = b.subsets;
    unsigned what = mc::choose(10, "data");
    switch (what)
    {
        case 0: ss.erase(ss.begin() + mc::choose(ss.size(), "subset")); return;
        case 1: b.obtain_subset(ss.size()); if (mc::flag("filled")) ss.back() = ss[0]; return;
        case 2: std::swap(ss[0], ss[1]); return;
    }
    Subset& s = ss[mc::choose(ss.size(), "subset")];
    if (s.empty()) mc::prune();
    unsigned p = mc::choose(s.size(), "variable");
    switch (what)
    {
        case 3: s.erase(s.begin() + p); break;
        case 4: { Var v(s[p]); s.insert(s.begin() + p, v); break; }
        case 5: if (p + 1 == s.size()) mc::prune(); std::swap(s[p], s[p + 1]); break;
        case 6: if (!s[p].isset()) mc::prune(); s[p].unset(); break;
        case 7: change_value(s[p]); break;
        case 8: attribute(s[p], b.tables); break;
        case 9: {
            static const std::vector<Varcode> codes { B(1, 2), B(1, 3), B(1, 12), B(1, 11) };
            Varcode c = mc::pick(codes, "code");
            if (s[p].code() == c) mc::prune();
            s[p] = Var(b.tables.btable->query(c));
            break;
        }
    }
}

/// Change one thing. Also with nothing to change, it is one of the choices
void perturb(Bulletin& b)
{
    BufrBulletin* bb = dynamic_cast<BufrBulletin*>(&b);
    CrexBulletin* cb = dynamic_cast<CrexBulletin*>(&b);
    switch (mc::choose(6, "change"))
    {
        case 0: break;
        case 1: common(b, mc::choose(common_details, "field")); break;
        case 2: if (bb) header(*bb, mc::choose(bufr_details, "field")); else header(*cb, mc::choose(crex_details, "field")); break;
        case 3: descriptors(b); break;
        case 4: data(b); break;
        case 5: {
            // Other tables, without changing the header
            if (mc::flag("tables"))
            {
                // Subsets have a pointer to the tables of their bulletin
                if (!b.subsets.empty()) b.subsets.clear();
                b.tables = Tables();
                break;
            }
            for (auto& s: b.subsets) s.clear();
            if (bb) b.tables.load_bufr(BufrTableID(0, 0, 0, 17, 0)); else b.tables.load_crex(CrexTableID(2, 0, 3, 0, 0, 19, 0));
            break;
        }
    }
}

/// All that should be compared
std::string canon(const Bulletin& b)
{
    std::string r;
    if (auto bb = dynamic_cast<const BufrBulletin*>(&b))
        r = mc::fmt("BUFR %u %u %u [%s]", bb->edition_number, bb->master_table_version_number, bb->master_table_version_number_local, mc::hex(bb->optional_section).c_str());
    else
    {
        auto cb = dynamic_cast<const CrexBulletin*>(&b);
        r = mc::fmt("CREX %u %u %u %u %d", cb->edition_number, cb->master_table_version_number, cb->master_table_version_number_local, cb->master_table_version_number_bufr, (int)cb->has_check_digit);
    }
    r += mc::fmt(" %u %u %u %u %u %u %u %u-%u-%u %u:%u:%u ", b.master_table_number, b.data_category, b.data_subcategory, b.data_subcategory_local,
        b.originating_centre, b.originating_subcentre, b.update_sequence_number, b.rep_year, b.rep_month, b.rep_day, b.rep_hour, b.rep_minute, b.rep_second);
    r += b.tables.btable ? b.tables.btable->path() : "none";
    r += b.tables.dtable ? b.tables.dtable->path() : "none";
    r += str(b.datadesc) + "\n";
    for (auto& s: b.subsets)
    {
        r += "subset\n";
        for (auto& v: s)
        {
            // The type of a missing value does not matter
            std::string d = dump(v);
            r += d + "\n";
        }
    }
    return r;
}

void compare(const Bulletin& a, const Bulletin& b)
{
    Quiet quiet;
    std::string ca = canon(a), cb = canon(b);
    bool same = ca == cb;
    unsigned d1 = a.diff(b), d2 = b.diff(a);
    mc::step(2);
    if (ca.size() < 10000) mc::state(ca + cb);
    mc::outcome(same ? "same" : "different");
    if (mc::tracing) mc::trace("first: %s\nsecond: %s\ndifferences: %u and %u\n%s", ca.c_str(), cb.c_str(), d1, d2, quiet.s.str().c_str());
    if (same && (d1 || d2)) mc::fail("identical bulletins have %u and %u differences: %s\n%s", d1, d2, quiet.s.str().c_str(), ca.substr(0, 2000).c_str());
    if (!same && (!d1 || !d2)) mc::fail("different bulletins have %u and %u differences:\n%s\n%s", d1, d2, ca.substr(0, 2000).c_str(), cb.substr(0, 2000).c_str());
    if (!same && quiet.s.str().empty()) mc::fail("differences are not described:\n%s\n%s", ca.substr(0, 2000).c_str(), cb.substr(0, 2000).c_str());
    if (canon(a) != ca || canon(b) != cb) mc::fail("comparing changed one of the bulletins");
    if (a.diff(a) || b.diff(b)) mc::fail("a bulletin differs from itself");
}

const std::vector<Codes> bufr_templates {
    {B(1, 2), B(1, 3), B(1, 12), B(1, 7)},
    {C(4, 2), B(31, 21), B(1, 3), B(1, 13), C(4, 0), C(6, 12), B(63, 1), C(5, 2)},
    {B(1, 2), B(1, 9), C(22, 0), R(1, 2), B(31, 31), R(1, 2), B(33, 7), C(37, 0), C(23, 0), R(1, 2), B(31, 31), R(1, 2), C(23, 255)},
    {R(2, 0), B(31, 1), B(1, 2), B(1, 11), B(1, 8), B(2, 2)},
};

std::unique_ptr<Bulletin> base(unsigned which)
{
    Quiet quiet;
    if (which < bufr_templates.size())
    {
        // Bitmaps that mark all
        Made m;
        m.dds = bufr_templates[which];
        for (unsigned i = 0; i < 2; ++i)
        {
            struct Src : PatternSource
            {
                using PatternSource::PatternSource;
                uint64_t num(Field::Kind kind, unsigned bits, Varcode code) override
                {
                    if (kind != Field::BITMAP) return PatternSource::num(kind, bits, code);
                    Field f; f.kind = kind; f.bits = bits; f.raw = 0; fields.push_back(f);
                    return 0;
                }
            } src(2, 0);
            src.salt = i;
            Model model(custom(), src);
            model.run(m.dds);
            m.vals.push_back(model.vars);
        }
        return make_bulletin(m.h, m.dds, m.vals);
    }
    static const std::vector<Codes> crex_templates { {B(1, 2), B(1, 3), B(1, 12)}, {R(1, 0), B(1, 5), B(1, 13), B(2, 2)} };
    CMade m = make_crex(custom_crex(), crex_templates[which - bufr_templates.size()], 2, [](CSource& s, unsigned) { s.rich = 0; s.counts = {2}; });
    return make_crex_bulletin(m.h, m.dds, m.vals);
}
unsigned const bases = 6;

/// One or two changes in one, or one in each
void changes(unsigned which, unsigned first, unsigned second)
{
    auto a = base(which), b = base(which);
    for (unsigned i = 0; i < first; ++i) perturb(*a);
    for (unsigned i = 0; i < second; ++i)
    {
        if (b->subsets.size() < 2 || b->datadesc.size() < 2) mc::prune();
        perturb(*b);
    }
    compare(*a, *b);
}

/// A change in the header of bulletins of all editions, and with all kinds of headers
void editions()
{
    bool crex = mc::flag("crex");
    unsigned which = crex ? bufr_templates.size() : 0;
    auto a = base(which), b = base(which);
    static const std::vector<unsigned> fills { 0, 1, 0x7f, 0xff };
    unsigned fill = mc::pick(fills, "fill");
    unsigned edition = mc::choose(6, "edition");
    for (auto x: { a.get(), b.get() })
    {
        if (auto c = dynamic_cast<CrexBulletin*>(x)) { c->edition_number = edition; c->master_table_version_number = c->master_table_version_number_local = c->master_table_version_number_bufr = fill; c->has_check_digit = fill & 1; }
        if (auto c = dynamic_cast<BufrBulletin*>(x)) { c->edition_number = edition; c->master_table_version_number = c->master_table_version_number_local = fill; c->compression = fill & 1; c->optional_section = std::string(fill, 'a'); }
        x->master_table_number = x->data_category = x->data_subcategory = x->data_subcategory_local = x->update_sequence_number = fill;
        x->originating_centre = x->originating_subcentre = x->rep_year = fill * 257;
        x->rep_month = x->rep_day = x->rep_hour = x->rep_minute = x->rep_second = fill;
        if (mc::flag("no data")) x->subsets.clear();
    }
    if (a->subsets.size() == b->subsets.size())
    {
        unsigned n = mc::choose(common_details + (crex ? crex_details : bufr_details), "field");
        if (n < common_details) common(*a, n);
        else if (auto c = dynamic_cast<CrexBulletin*>(a.get())) header(*c, n - common_details);
        else header(*dynamic_cast<BufrBulletin*>(a.get()), n - common_details);
    }
    compare(*a, *b);
}

void kinds()
{
    auto a = base(mc::choose(bases, "first")), b = base(mc::choose(bases, "second"));
    if (mc::flag("unset")) for (auto& s: b->subsets) for (auto& v: s) v.unset();
    if (mc::flag("empty")) b = mc::flag("crex") ? std::unique_ptr<Bulletin>(CrexBulletin::create()) : std::unique_ptr<Bulletin>(BufrBulletin::create());
    compare(*a, *b);
}

/// The same data, compressed or not
void compressed()
{
    static const std::vector<Codes> templates { {B(1, 2), B(1, 3), B(1, 12), B(1, 7)}, {R(2, 0), B(31, 1), B(1, 2), B(1, 11), B(1, 8)}, {C(4, 2), B(31, 21), B(1, 3), B(1, 13)} };
    Quiet quiet;
    Made m = make(custom(), mc::pick(templates, "template"), 1 + mc::choose(3, "subsets"), [](ChoiceSource& s, unsigned) { s.rich = 1; s.rich_fields = 3; s.counts = {2}; }, true);
    if (m.invalid) mc::prune();
    Bits bits;
    write_compressed(bits, m.fields, [](unsigned, const char*) { return 0u; });
    auto a = BufrBulletin::decode(m.plain());
    auto b = BufrBulletin::decode(message(m.h, m.dds, m.fields.size(), true, bits));
    compare(*a, *b);
}

std::vector<std::pair<bool, std::string>> files;
std::unique_ptr<Bulletin> load(unsigned n)
{
    std::string raw = slurp(files[n].second);
    try {
        if (files[n].first) return CrexBulletin::decode(raw);
        return BufrBulletin::decode(raw);
    } catch (wreport::error&) { mc::prune(); }
}
void samples()
{
    Quiet quiet;
    unsigned n = mc::choose(files.size(), "file");
    auto a = load(n), b = load(n);
    switch (mc::choose(3, "what"))
    {
        case 0: break;
        case 1: b = load((n + 1) % files.size()); break;
        case 2: {
            // One variable, somewhere
            if (b->subsets.empty()) mc::prune();
            Subset& s = b->subsets[b->subsets.size() - 1 - mc::choose(std::min<size_t>(mc::thorough() ? 3 : 1, b->subsets.size()), "subset")];
            if (s.empty()) mc::prune();
            Var& v = s[s.size() - 1 - mc::choose(std::min<size_t>(mc::thorough() ? 10 : 2, s.size()), "variable")];
            if (v.isset()) v.unset(); else { Var a(v.info()); if (a.info()->type == Vartype::Integer || a.info()->type == Vartype::Decimal) a.seti(a.info()->imin); else a.sets("x"); v = a; }
            break;
        }
    }
    compare(*a, *b);
}

}

void mc::setup()
{
    install_tables();
    install_crex_tables();
    custom(); custom_crex();
    for (auto& f: test_files("bufr")) if (mc::thorough() || std::filesystem::file_size(f) < 30000) files.emplace_back(false, f);
    for (auto& f: test_files("crex")) files.emplace_back(true, f);
    Options o;
    bool th = thorough();
    for (unsigned i = 0; i < bases; ++i)
    {
        add(mc::fmt("one-%u", i), [i]{ changes(i, 0, 1); }, o);
        if (i == 0 || i == bufr_templates.size() || th)
        {
            add(mc::fmt("two-%u", i), [i]{ changes(i, 0, 2); }, o);
            add(mc::fmt("both-%u", i), [i]{ changes(i, 1, 1); }, o);
        }
    }
    add("editions", editions, o);
    add("kinds", kinds, o);
    add("compressed", compressed, o);
    add("samples", samples, o);
}
