// C14: variable table lookups are exact and stay valid forever.
#include "tablemodel.h"
#include <wreport/tables.h>
#include <wreport/var.h>
#include <set>
#include <tuple>
using namespace tm_;

const char* mc::property = "C14";

namespace {

std::string describe(const _Varinfo& i)
{
    return mc::fmt("%04x/%s/%s/%s/s%d/l%u/r%d/b%u/%d..%d/%.17g..%.17g", (unsigned)i.code, i.desc, i.unit, vartype_format(i.type), i.scale, i.len, i.bit_ref, i.bit_len, i.imin, i.imax, i.dmin, i.dmax);
}

/// Range of the unscaled values of a BUFR numeric description
void check_range(Varinfo i, const char* where)
{
    int64_t lo, hi;
    if (i->type == Vartype::String || i->type == Vartype::Binary) { lo = hi = 0; }
    else if (i->len >= 10) { lo = INT_MIN; hi = INT_MAX; }
    else { lo = i->bit_ref; hi = (int64_t)i->bit_ref + ((int64_t)1 << i->bit_len) - (WR_VAR_X(i->code) == 31 ? 1 : 2); }
    MC_CHECK(i->imin == lo && i->imax == hi, "%s: range is %d to %d instead of %lld to %lld: %s", where, i->imin, i->imax, (long long)lo, (long long)hi, describe(*i).c_str());
}

/// All codes of a shipped table, against the list in the file
void shipped_codes()
{
    auto files = shipped('B');
    MC_CHECK(!files.empty(), "no tables found");
    const std::string& path = files[mc::choose(files.size(), "file")];
    bool crex = is_crex(path);
    std::set<Varcode> have;
    std::map<Varcode, BEntry> es;
    for (auto& l: lines(path))
    {
        if (crex && l.size() < 156) continue;
        BEntry e = crex ? parse_crex(l) : parse_bufr(l);
        have.insert(e.code);
        es[e.code] = e;
    }
    const Vartable* t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path);
    mc::state(path);
    unsigned count = 0;
    for (unsigned code = 0; code < 65536; ++code)
    {
        mc::step();
        bool has = have.count(code);
        Varcode same = code & 0x3fff;
        MC_CHECK(t->contains(code) == has, "%s: contains(%s) is %d", path.c_str(), varcode_format(code).c_str(), !has);
        // Exceptions are slow: query where it can be interesting
        if (!has && !have.count(code - 1) && !have.count(code + 1) && same != *have.rbegin() && same != *have.begin() && (code & 0xff) != 1) continue;
        Varinfo i = nullptr;
        try { i = t->query(code); } catch (error_notfound&) {}
        MC_CHECK((i != nullptr) == has, "%s: query(%s) says it is %s", path.c_str(), varcode_format(code).c_str(), i ? "found" : "not found");
        if (!has)
        {
            Varinfo a = nullptr;
            try { a = t->query_altered(code, 1, 10, 0); } catch (error_notfound&) {}
            MC_CHECK(!a, "%s: %s can be altered but is not in the table", path.c_str(), varcode_format(code).c_str());
            continue;
        }
        ++count;
        check_entry(i, es[code], !crex, path);
        MC_CHECK(t->query(code) == i, "%s: %s is not always the same object", path.c_str(), varcode_format(code).c_str());
        // Altering to what it already is changes nothing
        if (!crex) MC_CHECK(t->query_altered(code, i->scale, i->bit_len, i->bit_ref) == i, "%s: %s altered to what it is already is another object", path.c_str(), varcode_format(code).c_str());
    }
    MC_CHECK(count == have.size(), "%s: found %u entries instead of %zu", path.c_str(), count, have.size());
    std::vector<Varcode> seen;
    bool res = t->iterate([&](Varinfo i) { seen.push_back(i->code); return true; });
    MC_CHECK(res, "%s: iteration says it was interrupted", path.c_str());
    MC_CHECK(seen == std::vector<Varcode>(have.begin(), have.end()), "%s: iteration visits %zu entries", path.c_str(), seen.size());
    // Stopping iteration
    for (unsigned stop: { 1u, 2u, (unsigned)have.size() })
    {
        unsigned n = 0;
        bool r = t->iterate([&](Varinfo) { return ++n < stop; });
        MC_CHECK(!r && n == stop, "%s: iteration stopped at %u goes on to %u, result %d", path.c_str(), stop, n, (int)r);
    }
    mc::outcome(mc::fmt("%zu entries", have.size()));
}

/// All sparse tables made of a subset of codes: each lookup finds exactly what is there
void subsets()
{
    static const std::vector<std::pair<unsigned, unsigned>> codes = { {0, 1}, {1, 0}, {1, 1}, {1, 255}, {12, 101}, {31, 1}, {62, 255}, {63, 0}, {63, 255} };
    unsigned mask = mc::choose(1u << codes.size(), "entries");
    bool crex = mc::flag("CREX");
    std::string text;
    for (unsigned i = 0; i < codes.size(); ++i)
        if (mask & (1u << i))
        {
            auto l = bufr_line(codes[i].first, codes[i].second, mc::fmt("ENTRY %u", i), "M", 0, 0, 10 + i);
            text += (crex ? crex_line(l, "M", 0, 3 + i) + "  " : l) + "\n";
        }
    std::string path = write_new(text);
    const Vartable* t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path);
    mc::state(mc::fmt("%u/%d", mask, (int)crex));
    for (unsigned i = 0; i < codes.size(); ++i)
    {
        Varcode code = WR_VAR(0, codes[i].first, codes[i].second);
        bool has = mask & (1u << i);
        mc::step();
        MC_CHECK(t->contains(code) == has, "contains(%s) is %d", varcode_format(code).c_str(), !has);
        try {
            Varinfo v = t->query(code);
            MC_CHECK(has, "found %s that is not there", varcode_format(code).c_str());
            MC_CHECK(v->code == code && (crex ? v->len == 3 + i : v->bit_len == 10 + i), "wrong entry for %s", varcode_format(code).c_str());
        } catch (error_notfound&) { MC_CHECK(!has, "cannot find %s", varcode_format(code).c_str()); }
        for (unsigned f = 1; f < 4; ++f)
        {
            Varcode c2 = WR_VAR(f, codes[i].first, codes[i].second);
            MC_CHECK(!t->contains(c2), "contains(%s) is true", varcode_format(c2).c_str());
            try { t->query(c2); mc::fail("found %s that is not there", varcode_format(c2).c_str()); } catch (error_notfound&) {}
        }
        for (int d: { -1, 1 })
        {
            Varcode c2 = code + d;
            bool listed = false;
            for (unsigned j = 0; j < codes.size(); ++j) if ((mask & (1u << j)) && c2 == WR_VAR(0, codes[j].first, codes[j].second)) listed = true;
            MC_CHECK(t->contains(c2) == listed, "contains(%s) is %d", varcode_format(c2).c_str(), !listed);
        }
    }
    unlink(path.c_str());
}

struct Req { unsigned code; int scale; unsigned bits; int ref; };

struct Handed { Varinfo info; std::string text; _Varinfo copy; };

/// Histories of lookups, alterations and table loads
void histories()
{
    static const Varcode INT = WR_VAR(0, 1, 1), DEC = WR_VAR(0, 12, 1), STR = WR_VAR(0, 1, 11), REP = WR_VAR(0, 31, 1), NONE = WR_VAR(0, 12, 2);
    static const std::string contents = bufr_line(1, 1, "INTEGER", "NUMERIC", 0, 0, 7) + "\n"
        + bufr_line(1, 11, "STRING", "CCITTIA5", 0, 0, 72) + "\n"
        + bufr_line(12, 1, "DECIMAL", "K", 1, -10, 12) + "\n"
        + bufr_line(31, 1, "COUNT", "NUMERIC", 0, 0, 8) + "\n";
    static const std::vector<Req> reqs = {
        { INT, 0, 8, 0 }, { INT, 1, 7, 0 }, { INT, 0, 7, -1 }, { INT, 0, 7, 0 },
        { DEC, 2, 12, -10 }, { DEC, 1, 13, -10 }, { DEC, 1, 12, 10 }, { DEC, 0, 12, -10 }, { DEC, 2, 15, -1000 }, { DEC, 1, 12, -10 },
        { DEC, -1, 32, 0 }, { DEC, 16, 1, 0 }, { DEC, -16, 31, -5 },
        { STR, 0, 80, 0 }, { STR, 0, 8, 0 }, { STR, 0, 72, 0 }, { STR, 0, 800, 0 }, { REP, 0, 9, 0 },
        // Invalid requests
        { INT, 17, 7, 0 }, { INT, -17, 7, 0 }, { INT, 0, 33, 0 }, { INT, 0, 0, 0 }, { DEC, 1, 64, 0 }, { NONE, 0, 7, 0 }, { NONE, 0, 0, 0 },
    };
    const unsigned depth = mc::thorough() ? 4 : 3;
    unsigned ntables = 2;
    std::string path[2] = { write_new(contents), write_new(contents) };
    const Vartable* t[2] = { Vartable::load_bufr(path[0]), nullptr };
    std::map<std::tuple<unsigned, unsigned, int, unsigned, int>, Varinfo> model;
    std::vector<Handed> handed;
    std::map<std::pair<unsigned, Varcode>, unsigned> alterations;
    auto hand = [&](Varinfo i) { handed.push_back(Handed{ i, describe(*i), *i }); };
    std::vector<Varcode> all = { INT, STR, DEC, REP };
    auto register_table = [&](unsigned n) {
        for (Varcode c: all)
        {
            Varinfo i = t[n]->query(c);
            hand(i);
            model[std::make_tuple(n, (unsigned)c, i->scale, i->bit_len, i->bit_ref)] = i;
        }
    };
    register_table(0);
    std::string hist;
    for (unsigned d = 0; d < depth; ++d)
    {
        unsigned op = mc::choose(reqs.size() + 3, "operation");
        mc::step();
        if (op < reqs.size())
        {
            const Req& r = reqs[op];
            unsigned n = t[1] ? mc::choose(2, "table") : 0;
            hist += mc::fmt("%u:%u;", n, op);
            bool present = r.code != NONE;
            bool str = r.code == STR;
            bool valid = present && (str || (r.scale >= -16 && r.scale <= 16 && r.bits >= 1 && r.bits <= 32));
            Varinfo i = nullptr; std::string err;
            try { i = t[n]->query_altered(r.code, r.scale, r.bits, r.ref); }
            catch (error_notfound& e) { err = "notfound"; }
            catch (error& e) { err = "error"; }
            mc::trace("query_altered(%s, %d, %u, %d) %s", varcode_format(r.code).c_str(), r.scale, r.bits, r.ref, i ? describe(*i).c_str() : err.c_str());
            MC_CHECK((i != nullptr) == valid, "request %u gives %s", op, i ? describe(*i).c_str() : err.c_str());
            MC_CHECK(present || err == "notfound", "request %u gives error %s", op, err.c_str());
            mc::outcome(i ? "found" : err);
            if (i)
            {
                auto key = std::make_tuple(n, r.code, r.scale, r.bits, r.ref);
                auto old = model.find(key);
                if (old != model.end()) MC_CHECK(old->second == i, "request %u gave another object before", op);
                else
                {
                    for (auto& h: handed) MC_CHECK(h.info != i, "request %u gives the object already given for %s", op, h.text.c_str());
                    model[key] = i;
                    ++alterations[std::make_pair(n, (Varcode)r.code)];
                }
                Varinfo base = t[n]->query(r.code);
                Vartype type = str ? Vartype::String : r.scale ? Vartype::Decimal : Vartype::Integer;
                MC_CHECK(i->code == r.code && i->scale == r.scale && i->bit_len == r.bits && i->bit_ref == r.ref && i->type == type
                    && !strcmp(i->desc, base->desc) && !strcmp(i->unit, base->unit), "request %u gives %s", op, describe(*i).c_str());
                unsigned len = str ? r.bits / 8 : digits(r.bits, r.ref);
                MC_CHECK(i->len == len, "request %u gives a length of %u instead of %u", op, i->len, len);
                check_range(i, "altered entry");
                hand(i);
            }
        } else if (op == reqs.size()) {
            // Load the other table, or load again this one
            hist += "load;";
            for (unsigned n = 0; n < ntables; ++n)
            {
                const Vartable* l = Vartable::load_bufr(path[n]);
                if (!t[n]) { t[n] = l; register_table(n); }
                MC_CHECK(l == t[n], "loading a table again gives another table");
            }
        } else if (op == reqs.size() + 1) {
            hist += "bad;";
            std::string bad = write_new(contents + "garbage\n");
            // It fails however many times it is tried, until it is fixed
            for (unsigned i = 0; i < 2; ++i)
            {
                bool failed = false;
                try { Vartable::load_bufr(bad); } catch (error&) { failed = true; }
                MC_CHECK(failed, "a bad table is loaded the time number %u", i + 1);
            }
            unlink(bad.c_str());
            for (unsigned i = 0; i < 2; ++i)
            {
                bool failed = false;
                try { Vartable::load_bufr(bad); } catch (error&) { failed = true; }
                MC_CHECK(failed, "a table that is not there is loaded the time number %u", i + 1);
            }
            std::ofstream(bad) << contents;
            const Vartable* l = Vartable::load_bufr(bad);
            for (Varcode c: all) MC_CHECK(l && l->contains(c), "a table that could not be loaded before does not have its entries");
            unlink(bad.c_str());
        } else {
            hist += "missing;";
            bool failed = false;
            try { t[0]->query(NONE); } catch (error_notfound&) { failed = true; }
            MC_CHECK(failed && !t[0]->contains(NONE), "found an entry that does not exist");
        }
        // Nothing that was handed out has changed
        for (auto& h: handed) MC_CHECK(describe(*h.info) == h.text, "%s has become %s", h.text.c_str(), describe(*h.info).c_str());
        for (unsigned n = 0; n < ntables; ++n) if (t[n])
        {
            for (Varcode c: all) MC_CHECK(t[n]->contains(c), "%s has disappeared", varcode_format(c).c_str());
            std::map<Varinfo, unsigned> seen;
            Varcode last = 0;
            t[n]->iterate([&](Varinfo i) { MC_CHECK(i->code >= last, "iteration is not in order"); last = i->code; ++seen[i]; return true; });
            for (Varcode c: all) MC_CHECK(seen[t[n]->query(c)] == 1, "iteration visits %s %u times", varcode_format(c).c_str(), seen[t[n]->query(c)]);
            for (auto& s: seen)
            {
                bool known = false;
                for (auto& m: model) if (m.second == s.first && std::get<0>(m.first) == n) known = true;
                MC_CHECK(known && s.second == 1, "iteration visits %s %u times", describe(*s.first).c_str(), s.second);
            }
        }
    }
    // All that has been requested can be requested again
    for (auto& m: model)
        MC_CHECK(t[std::get<0>(m.first)]->query_altered(std::get<1>(m.first), std::get<2>(m.first), std::get<3>(m.first), std::get<4>(m.first)) == m.second, "a request repeated at the end gives another object");
    mc::state(hist);
    unlink(path[0].c_str()); unlink(path[1].c_str());
}

/// Every alteration of every kind of entry, one at a time
void alterations()
{
    static const std::vector<std::pair<const char*, int>> units = { {"NUMERIC", 0}, {"K", 1}, {"CODE TABLE", 0}, {"FLAG TABLE", 0}, {"M", -1} };
    auto u = units[mc::choose(units.size(), "unit")];
    static const std::string tables = [] {
        std::string res;
        for (unsigned i = 0; i < units.size(); ++i) res += bufr_line(12, i + 1, mc::fmt("ENTRY %u", i), units[i].first, units[i].second, 0, 12) + "\n";
        return res;
    }();
    static const Vartable* t = Vartable::load_bufr(write_new(tables));
    unsigned idx = 0; while (std::string(units[idx].first) != u.first) ++idx;
    int scale = (int)mc::choose(37, "scale") - 18;
    Varcode code = WR_VAR(0, 12, idx + 1);
    static const std::vector<int> refs = { 0, 1, -1, 9, -10, 100, -1000, 12345, -99999, 1000000, INT_MAX, INT_MIN + 1, INT_MIN };
    Varinfo base = t->query(code);
    std::string before = describe(*base);
    for (unsigned bits = 0; bits <= 40; ++bits)
        for (int ref: refs)
        {
            mc::step();
            Varinfo i = nullptr;
            try { i = t->query_altered(code, scale, bits, ref); } catch (error&) {}
            bool valid = abs(scale) <= 16 && bits >= 1 && bits <= 32;
            MC_CHECK((i != nullptr) == valid, "scale %d, %u bits, reference %d: %s", scale, bits, ref, i ? "accepted" : "rejected");
            if (!i) continue;
            MC_CHECK(i->scale == scale && i->bit_len == bits && i->bit_ref == ref && i->len == digits(bits, ref) && i->type == (scale ? Vartype::Decimal : Vartype::Integer)
                && i->code == code && !strcmp(i->unit, base->unit) && !strcmp(i->desc, base->desc), "scale %d, %u bits, reference %d gives %s", scale, bits, ref, describe(*i).c_str());
            check_range(i, "altered entry");
            MC_CHECK(t->query_altered(code, scale, bits, ref) == i, "another object for the same request");
        }
    MC_CHECK(describe(*base) == before && t->query(code) == base, "the base entry has changed");
    mc::state(mc::fmt("%s %d", u.first, scale));
}

/// Strings of any length
void string_alterations()
{
    static const Vartable* t = Vartable::load_bufr(write_new(bufr_line(12, 1, "ENTRY", "CCITTIA5", 0, 0, 80) + "\n"));
    Varcode code = WR_VAR(0, 12, 1);
    Varinfo base = t->query(code);
    if (base->type != Vartype::String) mc::fail("harness: not a string");
    std::string before = describe(*base);
    unsigned from = mc::choose(64, "sizes") * 32;
    for (unsigned size = from + 1; size <= from + 32; ++size)
    {
        mc::step();
        Varinfo i = t->query_altered(code, 0, size * 8, 0);
        MC_CHECK(i->type == Vartype::String && i->len == size && i->bit_len == size * 8 && i->scale == 0 && i->code == code && !strcmp(i->unit, base->unit) && !strcmp(i->desc, base->desc),
            "a string of %u characters gives %s", size, describe(*i).c_str());
        MC_CHECK(t->query_altered(code, 0, size * 8, 0) == i, "another object for the same request");
        std::string val(size, 'x');
        Var v(i, val);
        MC_CHECK(v.enqs() == val, "a string of %u characters becomes %zu characters long", size, v.enqs().size());
    }
    MC_CHECK(describe(*base) == before && t->query(code) == base, "the base entry has changed");
    mc::state(mc::fmt("%u", from));
}

/// Descriptions that are made for a single bulletin
void local_entries()
{
    Tables tables;
    std::map<std::string, Varinfo> model;
    std::vector<Handed> handed;
    const unsigned depth = mc::thorough() ? 5 : 4;
    std::string hist;
    std::unique_ptr<Tables> other;
    Tables* cur = &tables;
    struct Op { char kind; Varcode code; const char* bitmap; unsigned len; };
    static const std::vector<Op> ops = {
        { 'b', WR_VAR(2, 22, 0), "++", 0 }, { 'b', WR_VAR(2, 22, 0), "+-", 0 }, { 'b', WR_VAR(2, 22, 0), "+", 0 }, { 'b', WR_VAR(2, 23, 0), "++", 0 }, { 'b', WR_VAR(2, 23, 0), "", 0 },
        { 'c', WR_VAR(2, 5, 1), "", 1 }, { 'c', WR_VAR(2, 5, 20), "", 20 }, { 'c', WR_VAR(2, 5, 255), "", 255 },
        { 'u', WR_VAR(0, 48, 1), "", 1 }, { 'u', WR_VAR(0, 48, 1), "", 8 }, { 'u', WR_VAR(0, 48, 1), "", 9 }, { 'u', WR_VAR(0, 48, 2), "", 8 }, { 'u', WR_VAR(0, 48, 2), "", 255 },
        { 'm', 0, "", 0 }, { 'a', 0, "", 0 },
    };
    for (unsigned d = 0; d < depth; ++d)
    {
        const Op& op = ops[mc::choose(ops.size(), "operation")];
        mc::step();
        std::string key = mc::fmt("%c%04x%s/%u", op.kind, (unsigned)op.code, op.bitmap, op.len);
        hist += key + ";";
        Varinfo i = nullptr;
        switch (op.kind)
        {
            case 'b':
                i = cur->get_bitmap(op.code, op.bitmap);
                MC_CHECK(i->type == Vartype::String && i->len == strlen(op.bitmap) && i->bit_len == 8 * strlen(op.bitmap), "bitmap is %s", describe(*i).c_str());
                break;
            case 'c':
                i = cur->get_chardata(op.code, op.len);
                MC_CHECK(i->type == Vartype::String && i->len == op.len && i->bit_len == 8 * op.len, "character data is %s", describe(*i).c_str());
                break;
            case 'u':
                i = cur->get_unknown(op.code, op.len);
                MC_CHECK(i->type == Vartype::Binary && i->len == (op.len + 7) / 8 && i->bit_len == op.len, "unknown is %s", describe(*i).c_str());
                break;
            case 'm': { std::unique_ptr<Tables> n(new Tables(std::move(*cur))); other = std::move(n); cur = other.get(); break; }
            case 'a': { std::unique_ptr<Tables> n(new Tables); *n = std::move(*cur); other = std::move(n); cur = other.get(); break; }
        }
        if (i)
        {
            MC_CHECK(i->code == op.code, "%s: gives %s", key.c_str(), describe(*i).c_str());
            auto old = model.find(key);
            if (old != model.end()) MC_CHECK(old->second == i, "%s: another object for the same request", key.c_str());
            else
            {
                for (auto& h: handed) MC_CHECK(h.info != i, "%s: gives the same object as %s", key.c_str(), h.text.c_str());
                model[key] = i;
            }
            handed.push_back(Handed{ i, describe(*i), *i });
        }
        for (auto& h: handed) MC_CHECK(describe(*h.info) == h.text, "%s has become %s", h.text.c_str(), describe(*h.info).c_str());
    }
    mc::state(hist);
}

}

void mc::setup()
{
    Options o;
    o.leaks = false; // Tables are cached for the life of the process
    add("codes of shipped tables", shipped_codes, o);
    add("subsets of codes", subsets, o);
    add("histories of alterations", histories, o);
    add("all alterations", alterations, o);
    add("string alterations", string_alterations, o);
    add("entries local to a bulletin", local_entries);
}
