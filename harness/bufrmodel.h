// Reference model of BUFR: descriptor interpretation, data section packing (plain and compressed) and
// message framing, written from the WMO FM 94 regulations and independent of the code in /repo.
#pragma once
#include "tablemodel.h"
#include <wreport/bulletin.h>
#include <wreport/tables.h>
#include <wreport/notes.h>
#include <cstdlib>
#include <functional>
#include <set>
#include <sstream>

namespace bm {
using namespace wreport;
using tm_::BEntry;
typedef std::vector<Varcode> Codes;

/// The message is not valid: decoding or encoding it must raise an error
struct Invalid { std::string why; };
/// What should happen is not specified: nothing can be checked
struct Unspec { std::string why; };

inline Varcode B(unsigned x, unsigned y) { return WR_VAR(0, x, y); }
inline Varcode R(unsigned x, unsigned y) { return WR_VAR(1, x, y); }
inline Varcode C(unsigned x, unsigned y) { return WR_VAR(2, x, y); }
inline Varcode D(unsigned x, unsigned y) { return WR_VAR(3, x, y); }

inline std::string str(const Codes& c)
{
    std::string r;
    for (auto i: c) { if (!r.empty()) r += ' '; r += varcode_format(i); }
    return r;
}

/*
 * Tables
 */

struct TableSet
{
    std::map<Varcode, BEntry> b;
    std::map<Varcode, Codes> d;
};

inline TableSet load_tables(const std::string& bpath, const std::string& dpath)
{
    TableSet t;
    for (auto& l: tm_::lines(bpath))
    {
        if (l.size() < 118) continue;
        BEntry e = tm_::parse_bufr(l);
        t.b[e.code] = e;
    }
    Codes* cur = nullptr;
    for (auto& l: tm_::lines(dpath))
    {
        if (l.size() < 17) continue;
        auto code = [](std::string s) {
            s = s.substr(std::min(s.size(), s.find_first_not_of(" ")));
            unsigned f = std::string("BRCD").find(s[0]) != std::string::npos ? std::string("BRCD").find(s[0]) : s[0] - '0';
            return WR_VAR(f, atoi(s.substr(1, 2).c_str()), atoi(s.substr(3, 3).c_str()));
        };
        size_t items = 11;
        if (l.substr(1, 6) != "      ")
        {
            cur = &t.d[code(l.substr(1, 6))]; cur->clear();
            items = l.find_first_not_of(" ", 7);
            while (items < l.size() && isdigit((unsigned char)l[items])) ++items;
        }
        if (cur) cur->push_back(code(l.substr(items)));
    }
    return t;
}

/*
 * Values
 */

struct MVal
{
    Varcode code = 0;
    char kind = 'n';        // n: number, s: string, b: binary
    int scale = 0, ref = 0;
    unsigned bits = 0;
    bool set = false;
    int64_t num = 0;        // unscaled value
    std::string s;
    std::map<Varcode, MVal> attrs;
    std::string canon() const
    {
        std::string r = varcode_format(code) + mc::fmt("/%c%d,%d,%u=", kind, scale, ref, bits);
        if (!set) r += "missing";
        else if (kind == 'n') r += std::to_string(num);
        else r += mc::esc(s);
        for (auto& a: attrs) r += "{" + a.second.canon() + "}";
        return r;
    }
};
typedef std::vector<MVal> MVals;

inline uint64_t ones(unsigned bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }

/// Delayed replication factors have no missing value
inline bool is_count(Varcode code)
{
    return code == B(31, 0) || code == B(31, 1) || code == B(31, 2) || code == B(31, 11) || code == B(31, 12);
}

/*
 * Bits
 */

struct Bits
{
    std::string buf;
    unsigned used = 0; // bits used in the last byte, 0 if all
    size_t size() const { return buf.size() * 8 - (used ? 8 - used : 0); }
    void add(uint64_t v, unsigned n)
    {
        while (n--)
        {
            if (!used) buf.push_back('\0');
            if ((v >> n) & 1) buf.back() |= (char)(0x80 >> used);
            used = (used + 1) % 8;
        }
    }
    void add_ones(unsigned n) { while (n--) add(1, 1); }
    /// bytes of a field that may end with a partial byte, right aligned in the last byte
    void add_bytes(const std::string& s, unsigned bits)
    {
        for (unsigned i = 0; bits; ++i)
        {
            unsigned n = bits < 8 ? bits : 8;
            add((unsigned char)s[i], n);
            bits -= n;
        }
    }
};

/*
 * What is found in a data section
 */

struct Field
{
    enum Kind { NUM, STR, BIN, SEM, SIG, AF, BITMAP, CHARS, REF } kind;
    unsigned bits;
    uint64_t raw = 0;       // NUM, SEM, SIG, AF, BITMAP, REF
    std::string s;          // STR, BIN, CHARS
    Varcode code = 0;
};
typedef std::vector<Field> Fields;

struct Source
{
    virtual ~Source() {}
    virtual uint64_t num(Field::Kind kind, unsigned bits, Varcode code) = 0;
    virtual std::string bytes(Field::Kind kind, unsigned bits, Varcode code) = 0;
};

/// Read from the bits of a data section
struct BitSource : Source
{
    const std::string& buf;
    size_t pos, end;
    BitSource(const std::string& buf, size_t pos_bits, size_t end_bits) : buf(buf), pos(pos_bits), end(end_bits) {}
    uint64_t num(Field::Kind, unsigned bits, Varcode) override
    {
        if (pos + bits > end) throw Invalid{"end of data"};
        uint64_t r = 0;
        for (unsigned i = 0; i < bits; ++i, ++pos) r = (r << 1) | ((buf[pos / 8] >> (7 - pos % 8)) & 1);
        return r;
    }
    std::string bytes(Field::Kind k, unsigned bits, Varcode c) override
    {
        std::string r;
        while (bits) { unsigned n = bits < 8 ? bits : 8; r.push_back((char)num(k, n, c)); bits -= n; }
        return r;
    }
};

/// Choose all the values that fields can have, and record them
struct ChoiceSource : Source
{
    Fields fields;
    /// Semantic values to use instead of choosing them
    const Fields* follow = nullptr;
    /// How many values to try for data: 0: one, 1: one and missing, 2: limits, 3: all for narrow fields
    unsigned rich = 1;
    /// How many values to try for associated fields
    unsigned af_rich = 0;
    /// Counts to use for delayed replications
    std::vector<unsigned> counts{0, 1, 2};
    std::vector<unsigned> sigs{1};
    /// Raw values used at level 1 for data
    unsigned salt = 0;
    /// Bits above which level 3 is limited to boundary values
    unsigned narrow = 3;
    /// Values for C03
    std::vector<int> refs{0, 1, -1};
    /// Patterns of bits for a bitmap (by default, all)
    bool ascii_only = false;
    /// Try all values of all bytes (some, if there are more than two)
    bool all_bytes = false;
    /// Fields after these only have one value
    size_t rich_fields = 1000000;

    uint64_t pattern(unsigned bits)
    {
        uint64_t v = ((uint64_t)(fields.size() + 1 + salt * 5) * 0x9E3779B97F4A7C15ull) >> 17;
        v &= ones(bits);
        if (bits >= 32) v &= 0x3fffffff; // Keep it so that a variable can hold it
        if (v == ones(bits)) v = bits > 1 ? v - 1 : 0;
        return v;
    }

    uint64_t data(unsigned bits, unsigned level)
    {
        uint64_t m = ones(bits);
        if (fields.size() >= rich_fields) level = 0;
        switch (level)
        {
            case 0: return pattern(bits);
            case 1: return mc::flag("missing") ? m : pattern(bits);
            case 2: {
                if (bits == 1) return mc::choose(2, "bit");
                if (bits == 32) { const uint64_t v[] = { 0, 0x7fffffff, m }; return v[mc::choose(3, "value")]; }
                const uint64_t v[] = { 0, m - 1, m };
                return v[mc::choose(3, "value")];
            }
            default: {
                if (bits <= narrow) return mc::choose(1u << bits, "value");
                const uint64_t v[] = { 0, 1, m >> 1, (m >> 1) + 1, m - 1, m };
                return v[mc::choose(6, "value")];
            }
        }
    }

    uint64_t num(Field::Kind kind, unsigned bits, Varcode code) override
    {
        Field f; f.kind = kind; f.bits = bits; f.code = code;
        if (follow && kind != Field::NUM && kind != Field::AF)
            f.raw = follow->at(fields.size()).raw;
        else switch (kind)
        {
            case Field::SEM: {
                std::vector<unsigned> ok;
                for (auto c: counts) if (c <= ones(bits)) ok.push_back(c);
                if (ok.empty()) ok.push_back(ones(bits));
                f.raw = ok.size() == 1 ? ok[0] : mc::pick(ok, "count");
                break;
            }
            case Field::SIG: f.raw = sigs.size() == 1 ? sigs[0] : mc::pick(sigs, "significance"); break;
            case Field::BITMAP: f.raw = mc::choose(2, "bitmap"); break;
            case Field::AF: f.raw = data(bits, af_rich); break;
            case Field::REF: {
                int v = refs.size() == 1 ? refs[0] : mc::pick(refs, "ref");
                uint64_t a = v < 0 ? -(int64_t)v : v;
                if (a > ones(bits - 1)) mc::prune();
                f.raw = a | (v < 0 ? 1ull << (bits - 1) : 0);
                break;
            }
            default: f.raw = data(bits, rich); break;
        }
        fields.push_back(f);
        return f.raw;
    }
    std::string bytes(Field::Kind kind, unsigned bits, Varcode code) override
    {
        Field f; f.kind = kind; f.bits = bits; f.code = code;
        unsigned n = (bits + 7) / 8;
        std::string full;
        if (kind == Field::BIN)
        {
            for (unsigned i = 0; i < n; ++i) full.push_back((char)(0x35 + 0x4f * i + 0x11 * salt + fields.size()));
            if (bits % 8) full.back() &= (1 << (bits % 8)) - 1;
            if (bits == 1) full[0] = 0;
        } else {
            for (unsigned i = 0; i < n; ++i) full.push_back('A' + (i + 3 * fields.size() + salt) % 26);
        }
        if (all_bytes && fields.size() < rich_fields)
        {
            static const std::string some("\0\x01\t\n /0A\x7f\x80\x81\xa0\xfe\xff", 14);
            for (unsigned i = 0; i < n; ++i)
            {
                unsigned b = n - i == 1 && bits % 8 ? bits % 8 : 8;
                f.s.push_back(n <= 2 ? mc::choose(1u << b, "byte") : i < 4 ? (some[mc::choose(some.size(), "byte")] & ((1 << b) - 1)) : 'a');
            }
            fields.push_back(f);
            return f.s;
        }
        std::string miss(n, '\xff');
        if (bits % 8) miss.back() = (1 << (bits % 8)) - 1;
        std::vector<std::string> opts{full};
        if (rich >= 1) opts.push_back(miss);
        if (rich >= 2 && kind == Field::BIN)
        {
            opts.push_back(std::string(n, '\0'));
            std::string z = full; z[0] = 0; opts.push_back(z);
        }
        if (rich >= 2 && kind != Field::BIN)
        {
            if (n > 1) { opts.push_back("b" + std::string(n - 1, ' ')); opts.push_back(" " + std::string(n - 1, 'c')); }
            if (rich >= 3)
            {
                opts.push_back(std::string(n, ' '));
                if (kind == Field::STR && !ascii_only) opts.push_back(std::string(n, '\0'));
                if (n > 1 && !ascii_only) opts.push_back(std::string(n - 1, '\xff') + "e");
                if (n > 1 && kind == Field::STR) opts.push_back("f" + std::string(n - 1, '\0'));
                opts.push_back(std::string(1, '\xe8') + std::string(n - 1, 'g'));
                if (n > 1) opts.push_back(std::string(n - 1, 'h') + "\t");
            }
        }
        f.s = opts.size() == 1 ? opts[0] : mc::pick(opts, "bytes");
        fields.push_back(f);
        return f.s;
    }
};

/*
 * Interpretation of the data descriptors
 */

struct Model
{
    const TableSet& t;
    Source& src;
    MVals vars;
    /// Maximum number of variables
    size_t limit = 1000000;
    bool undef_attrs = false;
    /// The same attribute was given more than once to the same variable, which can keep only one
    bool lossy = false;
    std::set<std::pair<size_t, Varcode>> attached;
    /// Reference values defined and not used yet. A bulletin does not keep those that no variable uses
    std::set<Varcode> unused_refs;
    bool refs_lost = false;
    bool loses_refs() const { return refs_lost || !unused_refs.empty(); }
    void note_attr(size_t pos, Varcode code) { if (!attached.insert(std::make_pair(pos, code)).second) lossy = true; }

    int width = 0, scale = 0, incr = 0;
    unsigned strlen_ = 0;
    std::map<Varcode, int64_t> refs;
    unsigned refbits = 0;
    unsigned afbits = 0;
    uint64_t afsig = 63;
    Varcode pending = 0;
    bool has_cur = false, has_last = false;
    std::vector<size_t> cur, last;
    size_t cur_pos = 0;

    Model(const TableSet& t, Source& src) : t(t), src(src) {}

    const BEntry& entry(Varcode code) const
    {
        auto i = t.b.find(code);
        if (i == t.b.end()) throw Invalid{"unknown element " + varcode_format(code)};
        return i->second;
    }

    /// Description of an element, with the operators that are in effect
    MVal describe(Varcode code)
    {
        const BEntry& e = entry(code);
        MVal v;
        v.code = code; v.kind = e.str ? 's' : 'n';
        v.scale = e.scale; v.ref = e.ref; v.bits = e.bits;
        bool alterable = !e.str && e.unit != "CODE TABLE" && e.unit != "FLAG TABLE";
        int64_t bits = e.bits;
        bool altered = false;
        if (e.str) { if (strlen_) { bits = strlen_ * 8; altered = true; } }
        else if (alterable)
        {
            if (width || scale || incr) altered = true;
            bits += width;
            v.scale += scale;
            if (incr)
            {
                if (incr > 9) throw Invalid{"C07 too big"};
                bits += (10 * incr + 2) / 3;
                v.scale += incr;
                int64_t r = v.ref;
                for (int i = 0; i < incr; ++i) r *= 10;
                if (r < INT_MIN || r > INT_MAX) throw Invalid{"C07 reference too big"};
                v.ref = r;
            }
        }
        auto r = refs.find(code);
        if (r != refs.end())
        {
            if (!alterable) throw Unspec{"reference value of something that is not a number"};
            if (incr) throw Unspec{"both C03 and C07"};
            v.ref = r->second; altered = true;
        }
        if (v.kind == 's')
        {
            if (bits % 8) throw Unspec{"string of partial bytes"};
        } else {
            if (bits <= 0 || bits > 32) throw Invalid{"cannot have that many bits"};
            if (altered && (v.scale < -16 || v.scale > 16)) throw Invalid{"scale out of range"};
        }
        v.bits = bits;
        return v;
    }

    static void set_string(MVal& v, std::string s, bool trim, bool zero_missing)
    {
        bool missing = true;
        for (char c: s) if (c != '\xff' && !(zero_missing && c == 0)) missing = false;
        v.set = false; v.s.clear();
        if (missing) return;
        if (trim) while (s.size() > 1 && (s.back() == 0 || isspace((unsigned char)s.back()))) s.pop_back();
        if (s.find('\0') != std::string::npos) throw Unspec{"NUL inside a string"};
        v.set = true;
        v.s = s;
    }

    /// Read the value of v
    void read(MVal& v, Field::Kind kind = Field::NUM)
    {
        if (v.kind == 's') { set_string(v, src.bytes(Field::STR, v.bits, v.code), true, true); return; }
        uint64_t raw = src.num(kind, v.bits, v.code);
        v.set = is_count(v.code) || raw != ones(v.bits);
        if (!v.set) return;
        v.num = (int64_t)raw + v.ref;
        if (v.num < INT_MIN || v.num > INT_MAX) throw Invalid{"value too big for a variable"};
    }

    void read_binary(MVal& v)
    {
        std::string s = src.bytes(Field::BIN, v.bits, v.code);
        v.set = false;
        for (unsigned j = 0, left = v.bits; j < s.size(); ++j, left -= std::min(left, 8u))
            if ((unsigned char)s[j] != ones(std::min(left, 8u))) v.set = true;
        if (v.set) v.s = s;
    }

    MVal& store(MVal v)
    {
        if (unused_refs.erase(v.code) && (!refs.count(v.code) || refs[v.code] != v.ref)) refs_lost = true;
        if (vars.size() >= limit) throw Unspec{"too much data"};
        vars.push_back(std::move(v));
        return vars.back();
    }

    static Varcode af_code(uint64_t sig)
    {
        switch (sig)
        {
            case 1: case 8: return B(33, 2);
            case 2: return B(33, 3);
            case 6: return B(33, 50);
            case 7: return B(33, 40);
            case 21: return B(33, 41);
            default: return 0;
        }
    }

    void element(Varcode code)
    {
        if (refbits)
        {
            if (!t.b.count(code)) throw Unspec{"reference value of an unknown element"};
            if (refbits > 32) throw Invalid{"reference value too wide"};
            uint64_t raw = src.num(Field::REF, refbits, code);
            uint64_t sign = 1ull << (refbits - 1);
            refs[code] = (raw & sign) ? -(int64_t)(raw & ~sign) : (int64_t)raw;
            if (!unused_refs.insert(code).second) refs_lost = true;
            if (refs[code] > INT_MAX || refs[code] < INT_MIN) throw Unspec{"reference too big"};
            return;
        }
        MVal v = describe(code);
        if (WR_VAR_X(code) == 33 && has_cur)
        {
            if (afbits) throw Unspec{"associated fields and bitmaps"};
            read(v);
            attach(v);
            return;
        }
        if (afbits)
        {
            if (WR_VAR_X(code) == 31) throw Unspec{"associated field of class 31"};
            uint64_t raw = src.num(Field::AF, afbits, code);
            Varcode ac = af_code(afsig);
            if (afsig == 0) throw Unspec{"significance 0"};
            MVal a;
            bool missing = afbits > 1 && raw == ones(afbits);
            if (ac && (!missing || undef_attrs))
            {
                const BEntry& e = entry(ac);
                a.code = ac; a.scale = e.scale; a.ref = e.ref; a.bits = e.bits; a.kind = e.str ? 's' : 'n';
                if (!missing)
                {
                    if (raw < 0u + (int64_t)e.ref || (int64_t)raw - e.ref > (int64_t)ones(e.bits) - 1) throw Unspec{"associated field too big for its attribute"};
                    a.set = true; a.num = raw;
                }
            }
            read(v);
            if (ac) note_attr(vars.size(), ac);
            if (a.code) v.attrs[a.code] = a;
            store(v);
            return;
        }
        read(v);
        store(v);
    }

    void attach(const MVal& v)
    {
        size_t pos = cur[cur_pos++];
        note_attr(pos, v.code);
        if (v.set) vars[pos].attrs[v.code] = v;
        retire();
    }

    void retire()
    {
        if (cur_pos < cur.size()) return;
        last = cur; has_last = true; has_cur = false;
    }

    void define_bitmap(Varcode rep, Varcode factor, const Codes& ops)
    {
        if (WR_VAR_X(rep) != 1 || ops[0] != B(31, 31)) throw Invalid{"not a bitmap"};
        uint64_t n = WR_VAR_Y(rep);
        if (!n)
        {
            if (!is_count(factor)) throw Unspec{"strange replication factor"};
            const BEntry& e = entry(factor);
            n = src.num(Field::SEM, e.bits, factor);
        }
        if (n == 0) throw Unspec{"empty bitmap"};
        std::vector<size_t> data;
        for (size_t i = 0; i < vars.size(); ++i) if (WR_VAR_F(vars[i].code) == 0) data.push_back(i);
        MVal v;
        v.code = pending; v.kind = 's'; v.bits = n * 8; v.set = true;
        std::vector<size_t> marked;
        for (uint64_t i = 0; i < n; ++i)
        {
            bool absent = src.num(Field::BITMAP, 1, B(31, 31));
            v.s.push_back(absent ? '-' : '+');
            if (n <= data.size() && !absent) marked.push_back(data[data.size() - n + i]);
        }
        if (n > data.size()) throw Invalid{"bitmap longer than the data before it"};
        cur = marked; cur_pos = 0; has_cur = true;
        store(v);
        retire();
        pending = 0;
    }

    void op(Varcode code, const Codes& ops, size_t& i)
    {
        unsigned y = WR_VAR_Y(code);
        switch (WR_VAR_X(code))
        {
            case 1: width = y ? (int)y - 128 : 0; break;
            case 2: scale = y ? (int)y - 128 : 0; break;
            case 3:
                if (y == 0) { refs.clear(); refbits = 0; }
                else if (y == 255) refbits = 0;
                else refbits = y;
                break;
            case 4: {
                if (!y) { afbits = 0; break; }
                if (afbits) throw Unspec{"nested associated fields"};
                if (y > 32) throw Unspec{"associated field too wide"};
                if (i >= ops.size() || ops[i] != B(31, 21)) throw Invalid{"associated field without significance"};
                ++i;
                MVal v; const BEntry& e = entry(B(31, 21));
                v.code = e.code; v.scale = e.scale; v.ref = e.ref; v.bits = e.bits;
                uint64_t raw = src.num(Field::SIG, v.bits, v.code);
                v.set = raw != ones(v.bits); v.num = raw;
                store(v);
                afsig = v.set ? raw : 63;
                afbits = y;
                break;
            }
            case 5: {
                if (!y) throw Unspec{"no character data"};
                MVal v; v.code = code; v.kind = 's'; v.bits = y * 8;
                set_string(v, src.bytes(Field::CHARS, v.bits, code), false, false);
                store(v);
                break;
            }
            case 6: {
                if (i >= ops.size()) throw Invalid{"C06 with nothing after"};
                Varcode next = ops[i++];
                if (!y) break;
                if (afbits || refbits) throw Unspec{"local descriptor with associated fields"};
                if (WR_VAR_F(next) != 0) throw Unspec{"C06 on something that is not an element"};
                if (t.b.count(next))
                {
                    if (width || scale || incr || strlen_ || !refs.empty()) throw Unspec{"C06 with other operators"};
                    const BEntry& e = entry(next);
                    if (e.bits == y)
                    {
                        MVal v = describe(next);
                        read(v);
                        store(v);
                        break;
                    }
                }
                MVal v; v.code = next; v.kind = 'b'; v.bits = y;
                read_binary(v);
                store(v);
                break;
            }
            case 7: incr = y; break;
            case 8: strlen_ = y; break;
            case 22: if (y) throw Unspec{"C22"}; pending = code; break;
            case 23:
                if (y == 0) pending = code;
                else if (y == 255)
                {
                    if (!has_cur) throw Invalid{"substituted value without bitmap"};
                    if (afbits) throw Unspec{"associated fields and bitmaps"};
                    MVal v = vars[cur[cur_pos]];
                    if (WR_VAR_X(v.code) == 31) throw Unspec{"substituted value of a replication factor"};
                    v.attrs.clear(); v.set = false; v.s.clear();
                    if (v.kind == 'b') read_binary(v);
                    else read(v);
                    attach(v);
                } else throw Unspec{"C23"};
                break;
            case 36: break;
            case 37:
                if (y == 0)
                {
                    if (has_cur) throw Unspec{"reuse of a bitmap that is being used"};
                    if (!has_last) throw Unspec{"reuse of no bitmap"};
                    cur = last; cur_pos = 0; has_cur = true; has_last = false; pending = 0;
                    retire();
                } else if (y == 255) has_last = false;
                else throw Unspec{"C37"};
                break;
            default: throw Unspec{"operator not supported"};
        }
    }

    void run(const Codes& ops)
    {
        for (size_t i = 0; i < ops.size(); )
        {
            Varcode c = ops[i++];
            switch (WR_VAR_F(c))
            {
                case 0:
                    if (pending) throw Unspec{"data between an operator and its bitmap"};
                    element(c);
                    break;
                case 1: {
                    uint64_t n = WR_VAR_Y(c);
                    Varcode factor = 0;
                    if (!n)
                    {
                        if (i >= ops.size() || WR_VAR_F(ops[i]) != 0 || WR_VAR_X(ops[i]) != 31) throw Unspec{"implicit replication factor"};
                        factor = ops[i++];
                    }
                    unsigned x = WR_VAR_X(c);
                    if (!x) throw Unspec{"replication of nothing"};
                    if (i + x > ops.size()) throw Invalid{"not enough descriptors to replicate"};
                    Codes sub(ops.begin() + i, ops.begin() + i + x);
                    i += x;
                    if (pending) { define_bitmap(c, factor, sub); break; }
                    if (!n)
                    {
                        if (!is_count(factor)) throw Unspec{"strange replication factor"};
                        const BEntry& e = entry(factor);
                        MVal v; v.code = factor; v.scale = e.scale; v.ref = e.ref; v.bits = e.bits;
                        n = src.num(Field::SEM, e.bits, factor);
                        v.set = true; v.num = n;
                        store(v);
                    }
                    for (uint64_t k = 0; k < n; ++k) run(sub);
                    break;
                }
                case 2: op(c, ops, i); break;
                case 3: {
                    auto d = t.d.find(c);
                    if (d == t.d.end()) throw Invalid{"unknown sequence " + varcode_format(c)};
                    run(d->second);
                    break;
                }
            }
        }
    }
};

/*
 * Data section
 */

inline void write_plain(Bits& out, const Fields& fields)
{
    for (auto& f: fields)
        switch (f.kind)
        {
            case Field::STR: case Field::BIN: case Field::CHARS: out.add_bytes(f.s, f.bits); break;
            default: out.add(f.raw, f.bits);
        }
}

inline unsigned bits_for(uint64_t v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n; }

/// How to represent the differences of a compressed element
struct Packing
{
    /// Bits to use besides what is needed
    std::function<unsigned()> extra = []{ return 0u; };
};

inline void write_compressed(Bits& out, const std::vector<Fields>& subsets, const std::function<unsigned(unsigned n, const char*)>& variant)
{
    for (size_t i = 0; i < subsets[0].size(); ++i)
    {
        const Field& f = subsets[0][i];
        switch (f.kind)
        {
            case Field::SEM: case Field::SIG: case Field::BITMAP:
                for (auto& s: subsets) if (s[i].raw != f.raw) throw Unspec{"semantic values differ"};
                out.add(f.raw, f.bits); out.add(0, 6);
                break;
            case Field::NUM: case Field::AF: {
                uint64_t miss = ones(f.bits);
                bool has_missing = f.kind != Field::AF || f.bits > 1;
                bool same = true, all_missing = true;
                uint64_t lo = ~0ull, hi = 0;
                for (auto& s: subsets)
                {
                    uint64_t v = s[i].raw;
                    if (v != f.raw) same = false;
                    if (has_missing && v == miss) continue;
                    all_missing = false;
                    lo = std::min(lo, v); hi = std::max(hi, v);
                }
                if (all_missing) { out.add_ones(f.bits); out.add(0, 6); break; }
                if (same && !variant(2, "force differences")) { out.add(lo, f.bits); out.add(0, 6); break; }
                // The difference with all bits set is for missing values
                unsigned n = std::max(1u, bits_for(hi - lo + 1));
                while (ones(n) <= hi - lo) ++n;
                unsigned extra = variant(3, "extra bits");
                if (n + extra > 32) extra = 32 - n;
                n += extra;
                // The base need not be the minimum
                if (lo > 0 && (hi - (lo - 1)) < ones(n) && variant(2, "lower base")) --lo;
                out.add(lo, f.bits); out.add(n, 6);
                for (auto& s: subsets)
                {
                    uint64_t v = s[i].raw;
                    out.add(has_missing && v == miss ? ones(n) : v - lo, n);
                }
                break;
            }
            case Field::STR: {
                bool same = true;
                for (auto& s: subsets) if (s[i].s != f.s) same = false;
                if (same && !variant(2, "force differences")) { out.add_bytes(f.s, f.bits); out.add(0, 6); break; }
                if (f.bits / 8 > 63) throw Unspec{"string too long to be compressed"};
                switch (variant(3, "string base"))
                {
                    case 0: out.add_bytes(std::string(f.s.size(), '\0'), f.bits); break;
                    case 1: out.add_bytes(std::string(f.s.size(), ' '), f.bits); break;
                    case 2: out.add_bytes(std::string(f.s.size(), '\xff'), f.bits); break;
                }
                // Skip the trailing spaces
                unsigned n = f.bits / 8;
                if (variant(2, "short differences"))
                {
                    unsigned need = 1;
                    for (auto& s: subsets) { unsigned l = s[i].s.size(); while (l > 1 && s[i].s[l - 1] == ' ') --l; need = std::max(need, l); }
                    n = need;
                }
                out.add(n, 6);
                for (auto& s: subsets) out.add_bytes(s[i].s, n * 8);
                break;
            }
            default: throw Unspec{"cannot be compressed"};
        }
    }
}

/*
 * Message
 */

struct Header
{
    unsigned edition = 4, mt = 0, centre = 0, subcentre = 0, update = 0;
    unsigned category = 0, subcategory = 0xff, subcategory_local = 0;
    unsigned mtv = 200, mtvl = 0;
    unsigned year = 2020, month = 1, day = 2, hour = 3, minute = 4, second = 5;
    std::string optional;
    bool has_optional = false;
};

/// The bytes of a message, as this library would write it (always padded to even lengths)
inline std::string message(const Header& h, const Codes& dds, unsigned subsets, bool compressed, const Bits& data)
{
    std::string m("BUFR\0\0\0", 7);
    auto byte = [&](unsigned v) { m.push_back((char)v); };
    auto num = [&](unsigned v, unsigned n) { while (n--) byte(v >> (n * 8)); };
    byte(h.edition);
    bool opt = h.has_optional || !h.optional.empty();
    if (h.edition == 4)
    {
        num(22, 3); byte(h.mt); num(h.centre, 2); num(h.subcentre, 2); byte(h.update); byte(opt ? 0x80 : 0);
        byte(h.category); byte(h.subcategory); byte(h.subcategory_local); byte(h.mtv); byte(h.mtvl);
        num(h.year, 2); byte(h.month); byte(h.day); byte(h.hour); byte(h.minute); byte(h.second);
    } else {
        num(18, 3); byte(h.mt); byte(h.subcentre); byte(h.centre); byte(h.update); byte(opt ? 0x80 : 0);
        byte(h.category); byte(h.subcategory_local); byte(h.mtv); byte(h.mtvl);
        byte(h.year == 2000 ? 100 : h.year % 100); byte(h.month); byte(h.day); byte(h.hour); byte(h.minute); byte(h.year / 100);
    }
    if (opt)
    {
        std::string o = h.optional;
        if (o.size() % 2) o.push_back('\0');
        num(4 + o.size(), 3); byte(0); m += o;
    }
    num(8 + 2 * dds.size(), 3); byte(0); num(subsets, 2); byte(0x80 | (compressed ? 0x40 : 0));
    for (auto c: dds) num(c, 2);
    byte(0);
    unsigned dlen = data.buf.size();
    if ((m.size() + 4 + dlen) % 2) ++dlen;
    num(4 + dlen, 3); byte(0);
    m += data.buf;
    if (dlen > data.buf.size()) byte(0);
    m += "7777";
    for (unsigned i = 0; i < 3; ++i) m[4 + i] = (char)(m.size() >> (16 - 8 * i));
    return m;
}

/*
 * Comparison with what the library gives
 */

inline void check_value(const Var& v, const MVal& m, const char* what, size_t pos)
{
    Varinfo i = v.info();
    if (i->code != m.code) mc::fail("%s: variable %zu is %s instead of %s", what, pos, varcode_format(i->code).c_str(), m.canon().c_str());
    Vartype t = m.kind == 's' ? Vartype::String : m.kind == 'b' ? Vartype::Binary : m.scale ? Vartype::Decimal : Vartype::Integer;
    if (i->type != t) mc::fail("%s: variable %zu has type %s instead of %s: %s", what, pos, vartype_format(i->type), vartype_format(t), m.canon().c_str());
    if (i->bit_len != m.bits) mc::fail("%s: variable %zu has %u bits: %s", what, pos, i->bit_len, m.canon().c_str());
    if (m.kind == 'n' && (i->scale != m.scale || i->bit_ref != m.ref))
        mc::fail("%s: variable %zu has scale %d and reference %d: %s", what, pos, i->scale, i->bit_ref, m.canon().c_str());
    if ((m.kind == 'b' || WR_VAR_F(m.code) == 2) && (i->scale || i->bit_ref))
        mc::fail("%s: variable %zu is not a number but has scale %d and reference %d: %s", what, pos, i->scale, i->bit_ref, m.canon().c_str());
    if (v.isset() != m.set) mc::fail("%s: variable %zu is %s: %s", what, pos, v.isset() ? "set" : "missing", m.canon().c_str());
    if (!m.set) return;
    switch (m.kind)
    {
        case 'n': {
            int n = v.enqi();
            if (n != m.num) mc::fail("%s: variable %zu has unscaled value %d: %s", what, pos, n, m.canon().c_str());
            break;
        }
        case 's':
            if (m.s != v.enqc()) mc::fail("%s: variable %zu is \"%s\": %s", what, pos, mc::esc(v.enqc()).c_str(), m.canon().c_str());
            break;
        case 'b':
            if (memcmp(v.enqc(), m.s.data(), m.s.size())) mc::fail("%s: variable %zu is %s: %s", what, pos, mc::hex(std::string(v.enqc(), m.s.size())).c_str(), m.canon().c_str());
            break;
    }
}

inline void check_var(const Var& v, const MVal& m, const char* what, size_t pos)
{
    check_value(v, m, what, pos);
    auto a = m.attrs.begin();
    for (const Var* i = v.next_attr(); i; i = i->next_attr(), ++a)
    {
        if (a == m.attrs.end()) mc::fail("%s: variable %zu has an unexpected attribute %s=%s: %s", what, pos, varcode_format(i->code()).c_str(), i->format("missing").c_str(), m.canon().c_str());
        check_value(*i, a->second, what, pos);
    }
    if (a != m.attrs.end()) mc::fail("%s: variable %zu lacks attribute %s: %s", what, pos, varcode_format(a->first).c_str(), m.canon().c_str());
}

inline void check_subset(const Subset& s, const MVals& m, const char* what)
{
    for (size_t i = 0; i < s.size() && i < m.size(); ++i) check_var(s[i], m[i], what, i);
    if (s.size() != m.size()) mc::fail("%s: %zu variables instead of %zu", what, s.size(), m.size());
}

inline void check_subsets(const Bulletin& b, const std::vector<MVals>& m, const char* what)
{
    if (b.subsets.size() != m.size()) mc::fail("%s: %zu subsets instead of %zu", what, b.subsets.size(), m.size());
    for (size_t i = 0; i < m.size(); ++i) check_subset(b.subsets[i], m[i], mc::fmt("%s, subset %zu", what, i).c_str());
}

inline void check_header(const BufrBulletin& b, const Header& h, const Codes& dds, bool compressed, const char* what)
{
#define BM_CK(f, v) if ((unsigned)(f) != (unsigned)(v)) mc::fail("%s: " #f " is %u instead of %u", what, (unsigned)(f), (unsigned)(v))
    BM_CK(b.edition_number, h.edition); BM_CK(b.master_table_number, h.mt);
    BM_CK(b.originating_centre, h.centre); BM_CK(b.originating_subcentre, h.subcentre);
    BM_CK(b.update_sequence_number, h.update); BM_CK(b.data_category, h.category);
    BM_CK(b.data_subcategory, h.edition == 4 ? h.subcategory : 0xff); BM_CK(b.data_subcategory_local, h.subcategory_local);
    BM_CK(b.master_table_version_number, h.mtv); BM_CK(b.master_table_version_number_local, h.mtvl);
    BM_CK(b.rep_year, h.year); BM_CK(b.rep_month, h.month); BM_CK(b.rep_day, h.day);
    BM_CK(b.rep_hour, h.hour); BM_CK(b.rep_minute, h.minute); BM_CK(b.rep_second, h.edition == 4 ? h.second : 0);
    BM_CK(b.compression, compressed);
#undef BM_CK
    std::string o = h.optional;
    if (o.size() % 2) o.push_back('\0');
    if (b.optional_section != o) mc::fail("%s: optional section is %s instead of %s", what, mc::hex(b.optional_section).c_str(), mc::hex(o).c_str());
    if (b.datadesc != dds) mc::fail("%s: descriptors are %s instead of %s", what, str(b.datadesc).c_str(), str(dds).c_str());
}

/*
 * Building bulletins
 */

inline Varinfo info_for(const Tables& tables, const MVal& m)
{
    if (m.kind == 'b') return tables.get_unknown(m.code, m.bits);
    if (WR_VAR_F(m.code) == 2)
        return WR_VAR_X(m.code) == 5 ? tables.get_chardata(m.code, m.bits / 8) : tables.get_bitmap(m.code, m.s);
    return tables.btable->query_altered(m.code, m.scale, m.bits, m.ref);
}

inline Var make_var(const Tables& tables, const MVal& m, bool attrs = true)
{
    Var v(info_for(tables, m));
    if (m.set)
    {
        if (m.kind == 'n') v.seti(m.num);
        else v.sets(m.s);
    }
    if (attrs) for (auto& a: m.attrs) v.seta(make_var(tables, a.second));
    return v;
}

inline void set_header(BufrBulletin& b, const Header& h)
{
    b.edition_number = h.edition; b.master_table_number = h.mt;
    b.originating_centre = h.centre; b.originating_subcentre = h.subcentre;
    b.update_sequence_number = h.update; b.data_category = h.category;
    b.data_subcategory = h.subcategory; b.data_subcategory_local = h.subcategory_local;
    b.master_table_version_number = h.mtv; b.master_table_version_number_local = h.mtvl;
    b.rep_year = h.year; b.rep_month = h.month; b.rep_day = h.day;
    b.rep_hour = h.hour; b.rep_minute = h.minute; b.rep_second = h.second;
    b.optional_section = h.optional;
}

inline std::unique_ptr<BufrBulletin> make_bulletin(const Header& h, const Codes& dds, const std::vector<MVals>& subsets)
{
    auto b = BufrBulletin::create();
    set_header(*b, h);
    b->load_tables();
    b->datadesc = dds;
    for (size_t i = 0; i < subsets.size(); ++i)
    {
        Subset& s = b->obtain_subset(i);
        for (auto& m: subsets[i]) s.store_variable(make_var(b->tables, m));
    }
    return b;
}

/*
 * Tables made for the checks, installed as master table version 200
 */

inline const std::string& custom_b()
{
    static std::string res;
    if (!res.empty()) return res;
    auto add = [&](unsigned x, unsigned y, const char* unit, int scale, int ref, unsigned bits) {
        res += tm_::bufr_line(x, y, mc::fmt("ELEMENT %u %u", x, y), unit, scale, ref, bits) + "\n";
    };
    add(1, 1, "NUMERIC", 0, 0, 1);
    add(1, 2, "NUMERIC", 0, 0, 2);
    add(1, 3, "M", 1, -2, 3);
    add(1, 4, "K", 0, 0, 7);
    add(1, 5, "NUMERIC", 0, 0, 32);
    add(1, 6, "PA", -2, 0, 13);
    add(1, 7, "M", 2, -1000, 16);
    add(1, 8, "DEGREE", 5, -9000000, 25);
    add(1, 9, "M", 1, 100, 12);
    add(1, 11, "CCITTIA5", 0, 0, 8);
    add(1, 12, "CCITTIA5", 0, 0, 16);
    add(1, 13, "CCITTIA5", 0, 0, 72);
    add(1, 14, "CCITTIA5", 0, 0, 504);
    add(1, 15, "CCITTIA5", 0, 0, 520);
    add(1, 31, "CODE TABLE", 0, 0, 16);
    add(1, 32, "CODE TABLE", 0, 0, 8);
    add(1, 192, "NUMERIC", 0, 0, 5);
    add(2, 1, "CODE TABLE", 0, 0, 2);
    add(2, 2, "FLAG TABLE", 0, 0, 3);
    add(2, 3, "CODE TABLE", 0, 0, 6);
    add(31, 0, "NUMERIC", 0, 0, 1);
    add(31, 1, "NUMERIC", 0, 0, 8);
    add(31, 2, "NUMERIC", 0, 0, 16);
    add(31, 11, "NUMERIC", 0, 0, 8);
    add(31, 12, "NUMERIC", 0, 0, 16);
    add(31, 21, "CODE TABLE", 0, 0, 6);
    add(31, 31, "FLAG TABLE", 0, 0, 1);
    add(33, 2, "CODE TABLE", 0, 0, 2);
    add(33, 3, "CODE TABLE", 0, 0, 3);
    add(33, 7, "%", 0, 0, 7);
    add(33, 15, "CCITTIA5", 0, 0, 16);
    add(33, 40, "%", 0, 0, 7);
    add(33, 41, "CODE TABLE", 0, 0, 2);
    add(33, 50, "CODE TABLE", 0, 0, 4);
    return res;
}

inline const std::string& custom_d()
{
    static std::string res;
    if (!res.empty()) return res;
    auto add = [&](Varcode code, const Codes& c) {
        for (size_t i = 0; i < c.size(); ++i)
        {
            if (i == 0) res += mc::fmt(" %d%02d%03d %2zu ", WR_VAR_FXY(code), c.size());
            else res += "           ";
            res += mc::fmt("%d%02d%03d\n", WR_VAR_FXY(c[i]));
        }
    };
    add(D(1, 1), {B(1, 2), B(1, 3)});
    // Operators that have effect after the sequence
    add(D(1, 2), {C(1, 130)});
    add(D(1, 3), {B(1, 2), C(1, 0), C(2, 0), C(8, 0)});
    // Nested sequences and replications
    add(D(1, 4), {D(1, 1), R(1, 2), B(1, 2)});
    add(D(1, 5), {R(2, 0), B(31, 0), B(1, 2), D(1, 1)});
    add(D(1, 6), {R(2, 0), B(31, 1), B(1, 11), B(1, 1)});
    add(D(1, 7), {C(4, 2), B(31, 21)});
    add(D(1, 8), {C(4, 0)});
    add(D(1, 9), {D(1, 8)});
    return res;
}

/// Tables installed for the checks: call it from mc::setup()
inline void install_tables()
{
    std::string dir = mc::scratch() + "/tables";
    std::filesystem::create_directories(dir);
    std::ofstream(dir + "/B0000000000000200000.txt") << custom_b();
    std::ofstream(dir + "/D0000000000000200000.txt") << custom_d();
    setenv("WREPORT_EXTRA_TABLES", dir.c_str(), 1);
}
inline const TableSet& custom()
{
    static TableSet t = load_tables(mc::scratch() + "/tables/B0000000000000200000.txt", mc::scratch() + "/tables/D0000000000000200000.txt");
    return t;
}

/// What happens running f: "ok", or the kind of error
template<typename F> std::string outcome_of(F f)
{
    try { f(); return "ok"; }
    catch (wreport::error& e) { return mc::fmt("error %d: %s", (int)e.code(), e.what()); }
}

/// Values for the subsets of a message with the given descriptors, made with choices
struct Made
{
    Header h;
    Codes dds;
    std::vector<Fields> fields;
    std::vector<MVals> vals;
    bool invalid = false, lossy = false;
    std::string why;
    Bits bits() const
    {
        Bits b;
        for (auto& f: fields) write_plain(b, f);
        return b;
    }
    std::string plain() const
    {
        Bits b = bits();
        // What would come next, if the library went on reading
        if (invalid) b.add(0, 64);
        return message(h, dds, fields.size(), false, b);
    }
};

inline Made make(const TableSet& t, const Codes& dds, unsigned nsubsets, const std::function<void(ChoiceSource&, unsigned)>& config, bool same_shape = false)
{
    Made m;
    m.dds = dds;
    try {
        for (unsigned i = 0; i < nsubsets; ++i)
        {
            ChoiceSource src;
            src.salt = i;
            config(src, i);
            if (same_shape && i) src.follow = &m.fields[0];
            Model model(t, src);
            try { model.run(dds); }
            catch (Invalid& e) { m.invalid = true; m.why = e.why; }
            m.fields.push_back(src.fields);
            m.vals.push_back(model.vars);
            if (model.lossy || model.loses_refs()) m.lossy = true;
            if (m.invalid) break;
        }
    } catch (Unspec&) { mc::prune(); }
    return m;
}

inline std::string canon(const std::vector<MVals>& vals)
{
    std::string r;
    for (auto& s: vals) { for (auto& v: s) { r += v.canon(); r += ' '; } r += '\n'; }
    return r;
}

/// Notes about ignored things are not interesting
struct Quiet { std::stringstream s; notes::Collect c; Quiet() : c(s) {} };

/// BUFR tables that come with the library
struct Shipped { std::string b, d; TableSet t; Header h; };
inline std::vector<Shipped> shipped_tables;

inline void load_shipped()
{
    for (auto& p: tm_::shipped('B'))
    {
        if (tm_::is_crex(p)) continue;
        Shipped s; s.b = p;
        std::string n = std::filesystem::path(p).filename();
        s.d = std::filesystem::path(p).parent_path().string() + "/D" + n.substr(1);
        if (!std::filesystem::exists(s.d)) continue;
        n = n.substr(0, n.size() - 4);
        if (n.size() == 16)
        {
            s.h.subcentre = atoi(n.substr(6, 3).c_str()); s.h.centre = atoi(n.substr(9, 3).c_str());
            s.h.mtv = atoi(n.substr(12, 2).c_str()); s.h.mtvl = atoi(n.substr(14, 2).c_str());
        } else {
            s.h.subcentre = atoi(n.substr(6, 4).c_str()); s.h.centre = atoi(n.substr(10, 4).c_str());
            s.h.mtv = atoi(n.substr(14, 3).c_str()); s.h.mtvl = atoi(n.substr(17, 3).c_str());
        }
        s.t = load_tables(s.b, s.d);
        shipped_tables.push_back(s);
    }
}

/// The library may find a better table than the one we ask for (when two files are for the same tables)
inline bool same_tables(const Shipped& s)
{
    auto b = BufrBulletin::create();
    set_header(*b, s.h);
    b->load_tables();
    return b->tables.btable->path() == s.b;
}

/// Values that do not depend on choices
struct PatternSource : ChoiceSource
{
    unsigned count, mode;
    PatternSource(unsigned count, unsigned mode) : count(count), mode(mode) { rich = 0; af_rich = 0; }
    uint64_t num(Field::Kind kind, unsigned bits, Varcode code) override
    {
        Field f; f.kind = kind; f.bits = bits; f.code = code;
        switch (kind)
        {
            case Field::SEM: f.raw = std::min<uint64_t>(count, ones(bits)); break;
            case Field::SIG: f.raw = 1; break;
            case Field::BITMAP: f.raw = fields.size() % 3 == 0; break;
            case Field::REF: f.raw = bits > 4 ? 5 : 0; break;
            case Field::AF: f.raw = bits > 1 ? 1 : 0; break;
            default: f.raw = mode == 1 ? ones(bits) : pattern(bits);
        }
        if (fields.size() > 20000) throw Unspec{"too much data"};
        fields.push_back(f);
        return f.raw;
    }
    std::string bytes(Field::Kind kind, unsigned bits, Varcode code) override
    {
        if (mode != 1 || kind == Field::CHARS) return ChoiceSource::bytes(kind, bits, code);
        Field f; f.kind = kind; f.bits = bits; f.code = code;
        f.s = std::string((bits + 7) / 8, '\xff');
        if (bits % 8) f.s.back() = ones(bits % 8);
        fields.push_back(f);
        return f.s;
    }
};


/// The bytes that encoding gives: missing values have all bits set, strings are padded with spaces
inline Fields canonical(Fields fields)
{
    uint64_t sig = 63;
    for (auto& f: fields)
        if (f.kind == Field::SIG)
            sig = f.raw;
        else if (f.kind == Field::AF)
        {
            // An associated field without meaning is not decoded, and encoded as missing
            if (!Model::af_code(sig)) f.raw = ones(f.bits);
        }
        else if (f.kind == Field::STR)
        {
            MVal v;
            Model::set_string(v, f.s, true, true);
            unsigned n = f.bits / 8;
            if (!v.set) f.s = std::string(n, '\xff');
            else { f.s = v.s; f.s.resize(n, ' '); }
        }
        else if (f.kind == Field::REF && f.raw == 1ull << (f.bits - 1))
            f.raw = 0;
    return fields;
}

/// All that can be read of a variable
inline std::string dump(const Var& v)
{
    Varinfo i = v.info();
    std::string r = varcode_format(i->code) + mc::fmt("/%s/%d/%d/%u=", vartype_format(i->type), i->scale, i->bit_ref, i->bit_len);
    if (!v.isset()) r += "missing";
    else if (i->type == Vartype::Integer || i->type == Vartype::Decimal) r += std::to_string(v.enqi());
    else if (i->type == Vartype::String) r += mc::esc(v.enqc());
    else r += mc::hex(std::string(v.enqc(), i->len));
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) r += "{" + dump(*a) + "}";
    return r;
}
inline std::string dump(const Subset& s)
{
    std::string r;
    for (auto& v: s) { r += dump(v); r += '\n'; }
    return r;
}
inline std::string dump_subsets(const Bulletin& b)
{
    std::string r;
    for (auto& s: b.subsets) { r += "subset:\n"; r += dump(s); }
    return r;
}
inline std::string dump_header(const BufrBulletin& b)
{
    return mc::fmt("ed%u mt%u %u.%u u%u cat%u.%u.%u v%u.%u %u-%u-%u %u:%u:%u opt[%s] dds[%s] compressed %d",
        b.edition_number, b.master_table_number, b.originating_centre, b.originating_subcentre, b.update_sequence_number,
        b.data_category, b.data_subcategory, b.data_subcategory_local, b.master_table_version_number, b.master_table_version_number_local,
        b.rep_year, b.rep_month, b.rep_day, b.rep_hour, b.rep_minute, b.rep_second, mc::hex(b.optional_section).c_str(), str(b.datadesc).c_str(), (int)b.compression);
}

inline std::vector<std::string> test_files(const char* kind)
{
    std::vector<std::string> res;
    for (auto& e: std::filesystem::recursive_directory_iterator(mc::repo() + "/testdata/" + kind))
        if (e.is_regular_file()) res.push_back(e.path());
    std::sort(res.begin(), res.end());
    return res;
}
inline std::string slurp(const std::string& path)
{
    std::ifstream in(path, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}

}
