// C16: B and D table files are loaded faithfully.
#include "tablemodel.h"
#include <set>
#include <unistd.h>
using namespace tm_;

const char* mc::property = "C16";

namespace {

/// Load a table, in a way that different kinds of error can be told apart
template<typename F> std::string outcome_of(F f)
{
    try { f(); return "ok"; }
    catch (error_parse& e) { return "parse"; }
    catch (error_system& e) { return "system"; }
    catch (error& e) { return "other"; }
}

void shipped_b()
{
    auto files = shipped('B');
    MC_CHECK(!files.empty(), "no tables found");
    const std::string& path = files[mc::choose(files.size(), "file")];
    bool as_crex = mc::flag("as CREX");
    auto ls = lines(path);
    std::map<Varcode, BEntry> es;
    bool acceptable = true;
    Varcode last = 0; bool first = true;
    for (auto& l: ls)
    {
        if (as_crex)
        {
            if (l.size() < 156) { if (l.substr(2, 2) == "31") continue; acceptable = false; break; }
        } else if (l.size() < 118) { acceptable = false; break; }
        BEntry e = as_crex ? parse_crex(l) : parse_bufr(l);
        if (!first && e.code <= last) { acceptable = false; break; }
        first = false; last = e.code;
        es[e.code] = e;
    }
    const Vartable* t = nullptr;
    std::string res = outcome_of([&]{ t = as_crex ? Vartable::load_crex(path) : Vartable::load_bufr(path); });
    mc::outcome(res);
    mc::state(path + res);
    if (!as_crex || is_crex(path)) MC_CHECK(acceptable, "%s: this check cannot read the file", path.c_str());
    MC_CHECK((res == "ok") == acceptable, "%s: loading gives %s", path.c_str(), res.c_str());
    if (!t) return;
    MC_CHECK(t->path() == path && t->pathname() == path, "%s: the table says it comes from %s", path.c_str(), t->pathname().c_str());
    for (auto& i: es)
    {
        mc::step();
        MC_CHECK(t->contains(i.first), "%s: %s is missing", path.c_str(), varcode_format(i.first).c_str());
        check_entry(t->query(i.first), i.second, !as_crex, path);
    }
    std::vector<Varcode> seen, expected;
    t->iterate([&](Varinfo i) { seen.push_back(i->code); return true; });
    for (auto& i: es) expected.push_back(i.first);
    MC_CHECK(seen == expected, "%s: iteration gives %zu entries instead of %zu", path.c_str(), seen.size(), expected.size());
}

/// Independent reader of D tables
/// Entries can be in any order, the last one counts if they are repeated
bool parse_d(const std::vector<std::string>& ls, std::map<Varcode, std::vector<Varcode>>& out)
{
    Varcode cur = 0; unsigned left = 0; bool any = false;
    auto code = [](const std::string& s) { return WR_VAR(s[0] <= '3' ? s[0] - '0' : s[0] == 'B' ? 0 : s[0] == 'R' ? 1 : s[0] == 'C' ? 2 : 3, atoi(s.substr(1, 2).c_str()), atoi(s.substr(3, 3).c_str())); };
    for (auto& l: ls)
    {
        if (l.size() < 17) return false;
        if (l[1] == '3' || l[1] == 'D')
        {
            if (left) return false;
            Varcode c = code(l.substr(1, 6));
            cur = c;
            out[cur].clear();
            any = true;
            left = atoi(l.substr(7, 4).c_str());
            if (left < 1) return false;
            size_t p = l.find_first_not_of(' ', l.find_first_of(' ', l.find_first_not_of(' ', 7)));
            out[cur].push_back(code(l.substr(p, 6)));
            --left;
        } else {
            if (!any || !left || l.substr(0, 11) != "           ") return false;
            out[cur].push_back(code(l.substr(11, 6)));
            --left;
        }
    }
    return any && !left;
}

std::vector<Varcode> as_vector(const Opcodes& o) { std::vector<Varcode> r; for (unsigned i = 0; i < o.size(); ++i) r.push_back(o[i]); return r; }

void check_d(const DTable* t, const std::map<Varcode, std::vector<Varcode>>& es, const std::string& path, unsigned absent=1)
{
    // Codes that are not in the table: all of them, or one every few
    unsigned n = 0;
    for (unsigned x = 0; x < 64; ++x)
        for (unsigned y = 0; y < 256; ++y)
            for (unsigned f: { 3, 0 })
            {
                if (f == 0 && y > 3) continue;
                Varcode c = WR_VAR(f, x, y);
                auto i = es.find(c);
                if (i == es.end() && ++n % absent) continue;
                mc::step();
                std::vector<Varcode> got;
                bool found = true;
                try { got = as_vector(t->query(c)); } catch (error_notfound&) { found = false; }
                MC_CHECK(found == (i != es.end()), "%s: %s was %sfound", path.c_str(), varcode_format(c).c_str(), found ? "" : "not ");
                if (found) MC_CHECK(got == i->second, "%s: %s has %zu items instead of %zu, or different ones", path.c_str(), varcode_format(c).c_str(), got.size(), i->second.size());
            }
}

void shipped_d()
{
    auto files = shipped('D');
    const std::string& path = files[mc::choose(files.size(), "file")];
    bool as_crex = mc::flag("as CREX");
    std::map<Varcode, std::vector<Varcode>> es;
    MC_CHECK(parse_d(lines(path), es), "%s: this check cannot read the file", path.c_str());
    const DTable* t = nullptr;
    std::string res = outcome_of([&]{ t = as_crex ? DTable::load_crex(path) : DTable::load_bufr(path); });
    mc::state(path + res);
    MC_CHECK(res == "ok", "%s: loading gives %s", path.c_str(), res.c_str());
    MC_CHECK(t->path() == path && t->pathname() == path, "%s: the table says it comes from %s", path.c_str(), t->pathname().c_str());
    check_d(t, es, path, as_crex && !mc::thorough() ? 16 : mc::thorough() ? 1 : 3);
    MC_CHECK((as_crex ? DTable::load_crex(path) : DTable::load_bufr(path)) == t, "%s: loading again gives a different table", path.c_str());
}

/// One line tables with all kinds of contents
void grid_bufr()
{
    static const std::vector<std::string> texts { "A", "A B C", std::string(23, 'u'), std::string(24, 'v'), std::string(63, 'w'), std::string(64, 'x'), std::string(40, 'y') + " z", "", "\xc3\xa8" };
    static const std::vector<std::string> us { "K", "CCITTIA5", "CODE TABLE", "CODE TABLE 001001", "CODETABLEDEFINEDBYORIGIN", "FLAG TABLE", "FLAG TABLE 8001", "FLAGTABLE", "NUMERIC", std::string(23, 'u'), std::string(24, 'v'), "A B C", "CODE", "" };
    const std::string& desc = mc::pick(texts, "desc");
    const std::string& unit = mc::pick(us, "unit");
    static const std::vector<int> scales { 0, 1, -1, 9, -9, 16, -16 };
    static const std::vector<int> refs { 0, 1, -1, -1000, 99999, -1073741824, 1000000000, -400000000 };
    static const std::vector<unsigned> widths { 1, 2, 3, 7, 8, 10, 16, 17, 24, 31, 32, 64, 96, 256 };
    int scale = mc::pick(scales, "scale");
    unsigned trailing = mc::choose(4, "line end");
    std::string contents;
    std::vector<BEntry> es;
    unsigned y = 0;
    for (int ref: refs)
        for (unsigned w: widths)
        {
            if (unit != "CCITTIA5" && w > 32) continue;
            BEntry e;
            e.code = WR_VAR(0, 12, y++);
            e.desc = desc; e.unit = unit_name(unit);
            e.scale = scale; e.ref = ref; e.bits = w; e.str = unit == "CCITTIA5";
            e.len = e.str ? w / 8 : digits(w, ref);
            es.push_back(e);
            std::string l = bufr_line(12, WR_VAR_Y(e.code), desc, unit, scale, ref, w);
            if (trailing == 1) l += " CHARACTER                 0         8";
            if (trailing == 2) l += "\r";
            if (trailing == 3) l += std::string(50, ' ');
            contents += l + "\n";
        }
    std::string path = write_new(contents);
    mc::step();
    mc::state(mc::hash(contents));
    const Vartable* t = nullptr;
    std::string res = outcome_of([&]{ t = Vartable::load_bufr(path); });
    unlink(path.c_str());
    MC_CHECK(res == "ok", "loading a table gives %s: %s", res.c_str(), contents.substr(0, 200).c_str());
    for (auto& e: es) check_entry(t->query(e.code), e, true, "generated table");
}

void grid_crex()
{
    static const std::vector<std::string> texts { "A", "A B C", std::string(63, 'w'), std::string(64, 'x') };
    static const std::vector<std::string> us { "K", "CHARACTER", "CODE TABLE", "CODE TABLE 001001", "FLAG TABLE", "FLAG TABLE 8001", "FLAGTABLE", "NUMERIC", std::string(23, 'u'), std::string(24, 'v'), "A B C" };
    const std::string& desc = mc::pick(texts, "desc");
    const std::string& unit = mc::pick(us, "unit");
    unsigned trailing = mc::choose(4, "line end");
    bool with31 = mc::flag("with class 31");
    std::string contents;
    std::vector<BEntry> es;
    unsigned y = 0;
    for (int scale: { 0, 1, -1, 9, -9, 12 })
        for (unsigned len: { 1, 2, 9, 10, 32, 64, 256 })
        {
            if (unit != "CHARACTER" && len > 10) continue;
            BEntry e;
            e.code = WR_VAR(0, 12, y++);
            e.desc = desc; e.unit = unit_name(unit);
            e.scale = scale; e.len = len; e.str = unit == "CHARACTER";
            es.push_back(e);
            std::string l = crex_line(bufr_line(12, WR_VAR_Y(e.code), desc, "BUFR UNIT", 7, -5, 12), unit, scale, len);
            if (trailing == 1) l += " ";
            if (trailing == 2) l += "\r";
            if (trailing == 3) l += std::string(30, ' ');
            if (l.size() < 157) l.resize(157, ' ');
            contents += l + "\n";
        }
    if (with31) contents += bufr_line(31, 1, "DELAYED REPLICATION", "NUMERIC", 0, 0, 8) + "\n";
    std::string path = write_new(contents);
    mc::step();
    mc::state(mc::hash(contents));
    const Vartable* t = nullptr;
    std::string res = outcome_of([&]{ t = Vartable::load_crex(path); });
    unlink(path.c_str());
    MC_CHECK(res == "ok", "loading a table gives %s: %s", res.c_str(), contents.substr(0, 200).c_str());
    for (auto& e: es) check_entry(t->query(e.code), e, false, "generated table");
    MC_CHECK(!t->contains(WR_VAR(0, 31, 1)), "class 31 entries without a CREX part should not be loaded");
}

/// Malformed B tables: each variation, at each position, must be rejected
void malformed_b()
{
    bool crex = mc::flag("CREX");
    unsigned n = 3;
    unsigned where = mc::choose(n, "line");
    unsigned kind = mc::choose(8, "what");
    std::vector<std::string> ls;
    for (unsigned i = 0; i < n; ++i)
    {
        std::string l = bufr_line(12, i + 1, "DESC", "K", 1, 0, 12);
        if (crex) { l = crex_line(l, "K", 1, 4); l.resize(157, ' '); }
        ls.push_back(l);
    }
    std::string good; for (auto& l: ls) good += l + "\n";
    bool ok = false;
    switch (kind)
    {
        case 0: ok = true; break;
        case 1: ls[where] = ""; break;
        case 2: ls[where] = ls[where].substr(0, mc::choose(crex ? 150 : 118, "length")); break;
        case 3: if (where == 0) mc::prune(); ls[where] = ls[where - 1]; break;
        case 4: if (where == 0) mc::prune(); std::swap(ls[where], ls[where - 1]); break;
        case 5: ls[where].replace(2, 5, std::vector<std::string>{ "     ", "12x01", "-2001", "1 001" }[mc::choose(4, "code")]); break;
        case 6: ls[where] = "# comment"; break;
        case 7: ls[where] = ls[where].substr(0, 6); break;
    }
    std::string contents;
    for (auto& l: ls) contents += l + "\n";
    std::string path = write_new(contents);
    mc::step();
    mc::state(mc::hash(contents));
    const Vartable* t = nullptr;
    std::string res = outcome_of([&]{ t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path); });
    mc::outcome(mc::fmt("%u ", kind) + res);
    if (ok) MC_CHECK(res == "ok", "a correct table gives %s", res.c_str());
    else {
        MC_CHECK(res == "parse", "a malformed table gives %s: kind %u line %u", res.c_str(), kind, where);
        // The same error comes again, and a corrected file can be loaded
        res = outcome_of([&]{ t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path); });
        MC_CHECK(res == "parse", "a malformed table gives %s the second time", res.c_str());
        std::ofstream(path) << good;
        res = outcome_of([&]{ t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path); });
        MC_CHECK(res == "ok", "a table that has been corrected gives %s", res.c_str());
    }
    for (unsigned i = 0; i < n; ++i) MC_CHECK(t && t->contains(WR_VAR(0, 12, i + 1)), "entry %u is missing", i);
    unlink(path.c_str());
    std::string none = mc::scratch() + "/does-not-exist";
    res = outcome_of([&]{ if (crex) Vartable::load_crex(none); else Vartable::load_bufr(none); });
    MC_CHECK(res == "system", "loading a missing file gives %s", res.c_str());
}

/// D tables with all shapes
void grid_d()
{
    unsigned n = 1 + mc::choose(3, "entries");
    bool letters = mc::flag("letters");
    std::string contents;
    std::map<Varcode, std::vector<Varcode>> es;
    unsigned v = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned cnt = 1 + mc::choose(3, "items");
        Varcode code = WR_VAR(3, 10 + i * 20, i == 0 ? 0 : i == 1 ? 255 : 7);
        for (unsigned j = 0; j < cnt; ++j)
        {
            static const Varcode items[] = { WR_VAR(0, 1, 1), WR_VAR(1, 1, 0), WR_VAR(2, 1, 129), WR_VAR(3, 63, 255), WR_VAR(0, 63, 255) };
            Varcode c = items[v++ % 5];
            std::string text = letters ? varcode_format(c) : mc::fmt("%u%02u%03u", WR_VAR_FXY(c));
            std::string dtext = letters ? varcode_format(code) : mc::fmt("%u%02u%03u", WR_VAR_FXY(code));
            if (j == 0) contents += " " + dtext + mc::fmt("%3u ", cnt) + text + "\n";
            else contents += std::string(11, ' ') + text + "\n";
            es[code].push_back(c);
        }
    }
    std::string path = write_new(contents);
    bool crex = mc::flag("CREX");
    mc::step();
    mc::state(mc::hash(contents));
    const DTable* t = nullptr;
    std::string res = outcome_of([&]{ t = crex ? DTable::load_crex(path) : DTable::load_bufr(path); });
    unlink(path.c_str());
    MC_CHECK(res == "ok", "loading a table gives %s: %s", res.c_str(), contents.c_str());
    check_d(t, es, "generated table", 64);
}

/// Sequences of any length
void long_d()
{
    static const std::vector<unsigned> lens { 1, 2, 9, 10, 99, 100, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 998, 999 };
    unsigned n = mc::pick(lens, "items"), m = mc::pick(lens, "items");
    bool crex = mc::flag("CREX");
    std::string contents;
    std::map<Varcode, std::vector<Varcode>> es;
    unsigned v = 0;
    for (unsigned i = 0; i < 2; ++i)
    {
        Varcode code = WR_VAR(3, 10 + i, 255);
        unsigned cnt = i ? m : n;
        for (unsigned j = 0; j < cnt; ++j)
        {
            Varcode c = WR_VAR(0, 1 + v % 61, v % 251);
            ++v;
            if (j == 0) contents += " " + varcode_format(code) + mc::fmt("%3u ", cnt) + varcode_format(c) + "\n";
            else contents += std::string(11, ' ') + varcode_format(c) + "\n";
            es[code].push_back(c);
        }
    }
    std::string path = write_new(contents);
    mc::step();
    mc::state(mc::hash(contents));
    const DTable* t = nullptr;
    std::string res = outcome_of([&]{ t = crex ? DTable::load_crex(path) : DTable::load_bufr(path); });
    unlink(path.c_str());
    MC_CHECK(res == "ok", "loading a table with sequences of %u and %u items gives %s", n, m, res.c_str());
    check_d(t, es, "generated table", 64);
}

void malformed_d()
{
    static const std::vector<std::string> good { " 301001  2 001001", "           001002", " 301002  1 001003", " 302001  3 101000", "           031001", "           012101" };
    unsigned kind = mc::choose(9, "what");
    unsigned where = mc::choose(good.size(), "line");
    std::vector<std::string> ls = good;
    bool ok = false;
    bool header = good[where][1] == '3';
    switch (kind)
    {
        case 0: ok = true; break;
        case 1: ls.erase(ls.begin() + where); ok = where == 2; break;
        case 2: ls.insert(ls.begin() + where, std::string(11, ' ') + "012103"); break;
        case 3: ls[where] = ls[where].substr(0, mc::choose(17, "length")); break;
        case 4: if (!header) mc::prune(); ls[where][9] = "01459x"[mc::choose(6, "count")]; ok = ls[where] == good[where]; break;
        case 5: { unsigned p = 11 + mc::choose(6, "pos"); ls[where][p] = "x -"[mc::choose(3, "char")]; break; }
        case 6: if (!header) mc::prune(); { unsigned p = 2 + mc::choose(5, "pos"); ls[where][p] = "x-"[mc::choose(2, "char")]; break; }
        case 7: { // unsorted or duplicated entries are accepted
            ok = true;
            unsigned k = mc::choose(3, "order");
            std::vector<std::string> a(good.begin(), good.begin() + 2), b(good.begin() + 2, good.begin() + 3), c(good.begin() + 3, good.end());
            ls.clear();
            auto put = [&](const std::vector<std::string>& x) { ls.insert(ls.end(), x.begin(), x.end()); };
            if (k == 0) { put(b); put(a); put(c); }
            if (k == 1) { put(a); put(c); put(b); }
            if (k == 2) { put(a); put(a); put(c); }
            break;
        }
        case 8: ls.clear(); break;
    }
    std::string contents, gtext;
    for (auto& l: ls) contents += l + "\n";
    for (auto& l: good) gtext += l + "\n";
    std::string path = write_new(contents);
    bool crex = mc::flag("CREX");
    mc::step();
    mc::state(mc::hash(contents));
    const DTable* t = nullptr;
    auto load = [&]{ t = crex ? DTable::load_crex(path) : DTable::load_bufr(path); };
    std::string res = outcome_of(load);
    mc::outcome(mc::fmt("%u ", kind) + res);
    MC_CHECK((res == "ok") == ok, "a %s table gives %s:\n%s", ok ? "correct" : "malformed", res.c_str(), contents.c_str());
    if (!ok)
    {
        MC_CHECK(outcome_of(load) == res, "a malformed table is accepted the second time");
        std::ofstream(path) << gtext;
        res = outcome_of(load);
        MC_CHECK(res == "ok", "a table that has been corrected gives %s", res.c_str());
    }
    MC_CHECK(as_vector(t->query(WR_VAR(3, 2, 1))) == (std::vector<Varcode>{ WR_VAR(1, 1, 0), WR_VAR(0, 31, 1), WR_VAR(0, 12, 101) }), "wrong expansion");
    unlink(path.c_str());
}

}

void mc::setup()
{
    // Tables are kept loaded forever
    mc::Options o; o.leaks = false;
    mc::add("shipped B tables", shipped_b, o);
    mc::add("shipped D tables", shipped_d, o);
    mc::add("BUFR B tables", grid_bufr, o);
    mc::add("CREX B tables", grid_crex, o);
    mc::add("malformed B tables", malformed_b, o);
    mc::add("D tables", grid_d, o);
    mc::add("long D tables", long_d, o);
    mc::add("malformed D tables", malformed_d, o);
}
