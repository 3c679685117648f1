// Reference model of CREX, written from the WMO FM 95 regulations and independent of the code in /repo.
#pragma once
#include "bufrmodel.h"

namespace cm {
using namespace wreport;
using namespace bm;

struct CHeader
{
    unsigned mt = 0, edition = 3, mtv = 99;
    unsigned category = 0, subcategory = 0xff;
    bool check_digit = false;
};

inline TableSet load_crex_tables(const std::string& bpath, const std::string& dpath)
{
    TableSet t;
    for (auto& l: tm_::lines(bpath))
    {
        if (l.size() < 156) continue;
        BEntry e = tm_::parse_crex(l);
        t.b[e.code] = e;
    }
    TableSet d = load_tables(bpath, dpath);
    t.d = d.d;
    return t;
}

/// A value in the data section
struct CField
{
    bool count = false;
    bool str = false;
    unsigned len = 0;
    bool set = false;
    int64_t num = 0;
    std::string s;
};
typedef std::vector<CField> CFields;

/// Where values come from
struct CSource
{
    CFields fields;
    std::vector<unsigned> counts{0, 1, 2};
    /// 0: one value, 1: one and missing, 2: limits, 3: many
    unsigned rich = 1;
    unsigned salt = 0;
    size_t rich_fields = 1000000;
    bool fixed = false;

    virtual ~CSource() {}
    virtual unsigned count()
    {
        CField f; f.count = true; f.set = true; f.len = 4;
        f.num = counts.size() == 1 ? counts[0] : mc::pick(counts, "count");
        fields.push_back(f);
        return f.num;
    }
    virtual CField value(const BEntry& e)
    {
        CField f; f.str = e.str; f.len = e.len;
        unsigned level = fields.size() < rich_fields ? rich : 0;
        if (e.str)
        {
            std::string full;
            for (unsigned i = 0; i < e.len; ++i) full.push_back('A' + (i + 3 * fields.size() + salt) % 26);
            std::vector<std::string> opts{full};
            if (level >= 1) opts.push_back("");
            if (level >= 2 && e.len > 1) opts.push_back("b");
            if (level >= 3)
            {
                opts.push_back("+"); opts.push_back("7"); opts.push_back("-");
                if (e.len > 1) opts.push_back("+" + std::string(e.len - 1, '+'));
                if (e.len > 1) opts.push_back("c" + std::string(e.len - 1, '/'));
                if (e.len > 2) opts.push_back("d" + std::string(e.len - 2, ' ') + "e");
                if (e.len > 2) opts.push_back("f\t" + std::string(e.len - 2, '\n') );
                if (e.len > 3) opts.push_back("7777");
                opts.push_back("\xe8");
            }
            f.s = opts.size() == 1 ? opts[0] : mc::pick(opts, "string");
            f.set = !f.s.empty();
            while (f.s.size() > 1 && isspace((unsigned char)f.s.back())) f.s.pop_back();
        } else {
            int64_t max = 1;
            for (unsigned i = 0; i < e.len; ++i) max *= 10;
            // All nines are not allowed
            max -= 2;
            int64_t min = -max - 1;
            if (e.len >= 10) { max = INT_MAX; min = INT_MIN; }
            int64_t v = (fields.size() * 7 + salt * 3 + 1) % (max + 1);
            if (salt % 2) v = -v;
            std::vector<int64_t> opts{v};
            if (level == 2) { opts = {0, max, min}; }
            if (level >= 3)
            {
                opts.clear();
                if (e.len <= 1) for (int64_t i = min; i <= max; ++i) opts.push_back(i);
                else opts = {0, 1, -1, 9, -9, max / 10, max / 10 + 1, max - 1, max, min + 1, min};
            }
            unsigned n = opts.size() + (level >= 1);
            unsigned k = n == 1 ? 0 : mc::choose(n, "number");
            f.set = k < opts.size();
            if (f.set) f.num = opts[k];
        }
        fields.push_back(f);
        return f;
    }
};

struct CModel
{
    const TableSet& t;
    CSource& src;
    MVals vars;
    CModel(const TableSet& t, CSource& src) : t(t), src(src) {}

    MVal describe(Varcode code)
    {
        auto i = t.b.find(code);
        if (i == t.b.end()) throw Invalid{"unknown element " + varcode_format(code)};
        MVal v;
        v.code = code; v.kind = i->second.str ? 's' : 'n'; v.scale = i->second.scale;
        return v;
    }

    void run(const Codes& ops)
    {
        for (size_t i = 0; i < ops.size(); )
        {
            Varcode c = ops[i++];
            switch (WR_VAR_F(c))
            {
                case 0: {
                    MVal v = describe(c);
                    CField f = src.value(t.b.at(c));
                    v.set = f.set; v.num = f.num; v.s = f.s;
                    vars.push_back(v);
                    break;
                }
                case 1: {
                    unsigned n = WR_VAR_Y(c), x = WR_VAR_X(c);
                    if (!x) throw Unspec{"replication of nothing"};
                    if (!n && i < ops.size() && WR_VAR_F(ops[i]) == 0 && WR_VAR_X(ops[i]) == 31) throw Unspec{"replication factor"};
                    if (i + x > ops.size()) throw Invalid{"not enough descriptors to replicate"};
                    Codes sub(ops.begin() + i, ops.begin() + i + x);
                    i += x;
                    if (!n)
                    {
                        MVal v = describe(B(31, 12));
                        n = src.count();
                        v.set = true; v.num = n;
                        vars.push_back(v);
                    }
                    for (unsigned k = 0; k < n; ++k) run(sub);
                    break;
                }
                case 2: throw Unspec{"operator"};
                case 3: {
                    auto d = t.d.find(c);
                    if (d == t.d.end()) throw Invalid{"unknown sequence"};
                    run(d->second);
                    break;
                }
            }
        }
    }
};

struct CMade
{
    CHeader h;
    Codes dds;
    std::vector<CFields> fields;
    std::vector<MVals> vals;
    bool invalid = false;
    std::string why;
};

inline std::string number(const CField& f)
{
    std::string d = std::to_string(f.num < 0 ? -f.num : f.num);
    return (f.num < 0 ? "-" : "") + std::string(d.size() < f.len ? f.len - d.size() : 0, '0') + d;
}

/// How the parts of the text are separated
struct Layout
{
    std::function<std::string()> gap = []{ return std::string(" "); };
    std::string eol = "\r\r\n";
    std::string supp;
    std::string end = "7777\r\r\n";
};

inline std::string text(const CMade& m, const Layout& l = Layout())
{
    std::string r = "CREX++" + l.eol;
    r += mc::fmt("T%02u%02u%02u", m.h.mt, m.h.edition, m.h.mtv) + l.gap() + mc::fmt("A%03u", m.h.category);
    if (m.h.subcategory != 0xff) r += mc::fmt("%03u", m.h.subcategory);
    for (auto c: m.dds) r += l.gap() + mc::fmt("%c%02d%03d", "BRCD"[WR_VAR_F(c)], WR_VAR_X(c), WR_VAR_Y(c));
    if (m.h.check_digit) r += l.gap() + "E";
    r += "++" + l.eol;
    unsigned digit = 1;
    for (size_t i = 0; i < m.fields.size(); ++i)
    {
        if (i) r += "+" + l.eol;
        for (auto& f: m.fields[i])
        {
            r += l.gap();
            if (m.h.check_digit) { r += std::to_string(digit); digit = (digit + 1) % 10; }
            if (!f.set) r += std::string(f.len, '/');
            else if (f.str) { std::string s = f.s; s.resize(f.len, ' '); r += s; }
            else r += number(f);
        }
    }
    r += "++" + l.eol;
    if (!l.supp.empty()) r += "SUPP" + l.supp + "++" + l.eol;
    return r + l.end;
}

inline CMade make_crex(const TableSet& t, const Codes& dds, unsigned nsubsets, const std::function<void(CSource&, unsigned)>& config)
{
    CMade m;
    m.dds = dds;
    try {
        for (unsigned i = 0; i < nsubsets; ++i)
        {
            CSource src;
            src.salt = i;
            config(src, i);
            CModel model(t, src);
            try { model.run(dds); } catch (Invalid& e) { m.invalid = true; m.why = e.why; }
            m.fields.push_back(src.fields); m.vals.push_back(model.vars);
            if (m.invalid) break;
        }
    } catch (Unspec&) { mc::prune(); }
    return m;
}

inline void set_header(CrexBulletin& b, const CHeader& h)
{
    b.master_table_number = h.mt; b.edition_number = h.edition; b.master_table_version_number = h.mtv;
    b.master_table_version_number_bufr = 0; // CREX does not represent it
    b.data_category = h.category; b.data_subcategory = h.subcategory; b.data_subcategory_local = h.subcategory == 0xff ? 0 : 0xff;
    b.has_check_digit = h.check_digit;
}

inline void check_header(const CrexBulletin& b, const CHeader& h, const Codes& dds, const char* what)
{
#define CM_CK(f, v) if ((unsigned)(f) != (unsigned)(v)) mc::fail("%s: " #f " is %u instead of %u", what, (unsigned)(f), (unsigned)(v))
    CM_CK(b.master_table_number, h.mt); CM_CK(b.edition_number, h.edition); CM_CK(b.master_table_version_number, h.mtv);
    CM_CK(b.data_category, h.category); CM_CK(b.data_subcategory, h.subcategory); CM_CK(b.has_check_digit, h.check_digit);
#undef CM_CK
    if (b.datadesc != dds) mc::fail("%s: descriptors are %s instead of %s", what, str(b.datadesc).c_str(), str(dds).c_str());
}

inline Var make_crex_var(const Tables& tables, const MVal& m)
{
    Var v(tables.btable->query(m.code));
    if (m.set)
    {
        if (m.kind == 'n') v.seti(m.num);
        else v.sets(m.s);
    }
    return v;
}

inline std::unique_ptr<CrexBulletin> make_crex_bulletin(const CHeader& h, const Codes& dds, const std::vector<MVals>& subsets)
{
    auto b = CrexBulletin::create();
    set_header(*b, h);
    b->load_tables();
    b->datadesc = dds;
    for (size_t i = 0; i < subsets.size(); ++i)
    {
        Subset& s = b->obtain_subset(i);
        for (auto& m: subsets[i]) s.store_variable(make_crex_var(b->tables, m));
    }
    return b;
}

inline const std::string& custom_crex_b()
{
    static std::string res;
    if (!res.empty()) return res;
    auto add = [&](unsigned x, unsigned y, const char* unit, int scale, unsigned len) {
        bool s = std::string(unit) == "CHARACTER";
        std::string l = tm_::bufr_line(x, y, mc::fmt("ELEMENT %u %u", x, y), s ? "CCITTIA5" : "NUMERIC", s ? 0 : scale, 0, s ? len * 8 : 16);
        l.resize(119, ' ');
        res += l + mc::fmt("%-24.24s%3d%11u", unit, scale, len) + "\n";
    };
    add(1, 1, "NUMERIC", 0, 1);
    add(1, 2, "NUMERIC", 0, 2);
    add(1, 3, "M", 1, 3);
    add(1, 4, "PA", -2, 4);
    add(1, 5, "DEGREE", 5, 8);
    add(1, 6, "NUMERIC", 0, 12);
    add(1, 9, "NUMERIC", 0, 9);
    add(1, 10, "NUMERIC", 0, 10);
    add(1, 11, "CHARACTER", 0, 1);
    add(1, 12, "CHARACTER", 0, 2);
    add(1, 13, "CHARACTER", 0, 9);
    add(1, 14, "CHARACTER", 0, 64);
    add(1, 15, "CHARACTER", 0, 65);
    add(1, 16, "CHARACTER", 0, 300);
    add(1, 17, "CHARACTER", 0, 2000);
    add(2, 1, "CODE TABLE", 0, 2);
    add(2, 2, "FLAG TABLE", 0, 4);
    add(31, 0, "NUMERIC", 0, 1);
    add(31, 1, "NUMERIC", 0, 3);
    add(31, 2, "NUMERIC", 0, 5);
    add(31, 11, "NUMERIC", 0, 3);
    add(31, 12, "NUMERIC", 0, 5);
    add(33, 7, "%", 0, 3);
    return res;
}

inline std::string custom_crex_d()
{
    std::string res;
    auto add = [&](Varcode code, const Codes& c) {
        for (size_t i = 0; i < c.size(); ++i)
        {
            if (i == 0) res += mc::fmt(" %d%02d%03d %2zu ", WR_VAR_FXY(code), c.size());
            else res += "           ";
            res += mc::fmt("%d%02d%03d\n", WR_VAR_FXY(c[i]));
        }
    };
    add(D(1, 1), {B(1, 2), B(1, 3)});
    add(D(1, 4), {D(1, 1), R(1, 2), B(1, 2)});
    add(D(1, 5), {R(2, 0), B(1, 1), D(1, 1)});
    return res;
}

inline void install_crex_tables()
{
    std::string dir = mc::scratch() + "/tables";
    std::filesystem::create_directories(dir);
    std::ofstream(dir + "/B000399.txt") << custom_crex_b();
    std::ofstream(dir + "/D000399.txt") << custom_crex_d();
    setenv("WREPORT_EXTRA_TABLES", dir.c_str(), 1);
}
inline const TableSet& custom_crex()
{
    static TableSet t = load_crex_tables(mc::scratch() + "/tables/B000399.txt", mc::scratch() + "/tables/D000399.txt");
    return t;
}

inline std::string dump_header(const CrexBulletin& b)
{
    return mc::fmt("ed%u mt%u v%u bufr%u cat%u.%u.%u dds[%s] check %d", b.edition_number, b.master_table_number, b.master_table_version_number,
        b.master_table_version_number_bufr, b.data_category, b.data_subcategory, b.data_subcategory_local, str(b.datadesc).c_str(), (int)b.has_check_digit);
}

}
