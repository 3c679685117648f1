// C22: variable codes and their text form are in bijection.
#include "mc.h"
#include <wreport/varinfo.h>
#include <wreport/error.h>
#include <cstring>
#include <memory>
using namespace wreport;

const char* mc::property = "C22";

namespace {

/// Parse using a buffer allocated exactly, so that reading past the end is noticed
bool parse(const std::string& s, Varcode& res)
{
    std::unique_ptr<char[]> buf(new char[s.size() + 1]);
    memcpy(buf.get(), s.c_str(), s.size() + 1);
    try { res = varcode_parse(buf.get()); return true; }
    catch (error& e) { return false; }
}

void codes()
{
    unsigned f = mc::choose(4, "F"), x = mc::choose(64, "X");
    for (unsigned y = 0; y < 256; ++y)
    {
        mc::step();
        Varcode c = WR_VAR(f, x, y);
        mc::state(c);
        MC_CHECK(c == ((f << 14) | (x << 8) | y), "WR_VAR(%u,%u,%u) is %u", f, x, y, (unsigned)c);
        MC_CHECK(WR_VAR_F(c) == f && WR_VAR_X(c) == x && WR_VAR_Y(c) == y, "parts of %u are %u %u %u", (unsigned)c, WR_VAR_F(c), WR_VAR_X(c), WR_VAR_Y(c));
        std::string expected = mc::fmt("%c%02u%03u", "BRCD"[f], x, y);
        std::string s = varcode_format(c);
        MC_CHECK(s == expected, "%u formats as %s instead of %s", (unsigned)c, s.c_str(), expected.c_str());
        Varcode p;
        MC_CHECK(parse(s, p), "%s is not parsed", s.c_str());
        MC_CHECK(p == c, "%s parses as %u instead of %u", s.c_str(), (unsigned)p, (unsigned)c);
        std::string digits = mc::fmt("%u%02u%03u", f, x, y);
        MC_CHECK(parse(digits, p), "%s is not parsed", digits.c_str());
        MC_CHECK(p == c, "%s parses as %u instead of %u", digits.c_str(), (unsigned)p, (unsigned)c);
        MC_CHECK(WR_STRING_TO_VAR(digits.c_str() + 1) == WR_VAR(0, x, y), "WR_STRING_TO_VAR of %s", digits.c_str() + 1);
    }
}

/// All the strings over an alphabet, up to a length of 6
void strings()
{
    static const std::string alphabet("B0R9D1 -/:");
    static const std::string small("B1x ");
    const std::string& a = mc::thorough() ? alphabet : small;
    unsigned len = mc::choose(7, "length");
    std::string s;
    for (unsigned i = 0; i < len; ++i) s += a[mc::choose(a.size(), "char")];
    mc::step();
    mc::state(s);
    bool complete = len == 6;
    for (unsigned i = 1; i < len; ++i) if (s[i] < '0' || s[i] > '9') complete = false;
    bool first = len && strchr("BRCD0123", s[0]);
    Varcode p;
    bool ok = parse(s, p);
    mc::outcome(mc::fmt("%d %d %d", complete, first, ok));
    if (!complete || !first) MC_CHECK(!ok, "%s was accepted as %s", mc::esc(s).c_str(), varcode_format(p).c_str());
    else {
        MC_CHECK(ok, "%s was refused", s.c_str());
        // Numbers past 63 and 255 have no code
        if (atoi(s.substr(1, 2).c_str()) > 63 || atoi(s.substr(3).c_str()) > 255) return;
        MC_CHECK(p == (WR_VAR(strchr("BRCD", s[0]) ? strchr("BRCD", s[0]) - "BRCD" : s[0] - '0', 0, 0) + WR_STRING_TO_VAR(s.c_str() + 1)), "%s parsed as %u", s.c_str(), (unsigned)p);
    }
}

/// Valid codes with any character replaced, removed, or with something after
void mutations()
{
    static const std::vector<std::string> base { "B12101", "012101", "D63255", "300000", "C01129", "R01000" };
    const std::string& b = mc::pick(base, "base");
    unsigned kind = mc::choose(3, "kind");
    std::string s = b;
    if (kind == 0)
    {
        unsigned pos = mc::choose(6, "pos");
        unsigned c = mc::choose(256, "char");
        if (!c) s = s.substr(0, pos); else s[pos] = (char)c;
    } else if (kind == 1) {
        s.erase(mc::choose(6, "pos"), 1);
    } else {
        s = "";
        if (mc::flag("null"))
        {
            bool raised = false;
            try { varcode_parse(nullptr); } catch (error&) { raised = true; }
            MC_CHECK(raised, "parsing a null pointer did not raise an error");
        }
    }
    mc::step();
    mc::state(s);
    bool valid = s.size() == 6 && strchr("BRCD0123", s[0]);
    for (unsigned i = 1; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') valid = false;
    Varcode p;
    bool ok = parse(s, p);
    MC_CHECK(ok == valid, "%s was %s", mc::esc(s).c_str(), ok ? "accepted" : "refused");
}

void types()
{
    static const std::vector<Vartype> t { Vartype::Integer, Vartype::Decimal, Vartype::String, Vartype::Binary };
    Vartype v = mc::pick(t, "type");
    mc::step();
    mc::state((uint64_t)v);
    MC_CHECK(vartype_parse(vartype_format(v)) == v, "type %s does not parse back", vartype_format(v));
    bool raised = false;
    try { vartype_parse((std::string(vartype_format(v)) + "x").c_str()); } catch (error&) { raised = true; }
    MC_CHECK(raised, "bad type accepted");
}

}

void mc::setup()
{
    mc::add("all codes", codes);
    mc::add("all short strings", strings);
    mc::add("mutations of codes", mutations);
    mc::add("types", types);
}
