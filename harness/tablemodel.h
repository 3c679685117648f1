// Independent reader of B and D table files, to compare with what the library loads.
#pragma once
#include "mc.h"
#include <wreport/varinfo.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/error.h>
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <unistd.h>

namespace tm_ {
using namespace wreport;

struct BEntry
{
    Varcode code = 0;
    std::string desc, unit;
    int scale = 0, ref = 0;
    unsigned bits = 0, len = 0;
    bool str = false;
};

inline std::string rtrim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return s; }

inline std::vector<std::string> lines(const std::string& path)
{
    std::vector<std::string> res;
    std::ifstream in(path, std::ios::binary);
    if (!in) mc::fail("cannot read %s", path.c_str());
    std::string l;
    while (std::getline(in, l)) res.push_back(l);
    return res;
}

/// First number found from a column on
inline int number(const std::string& l, size_t col)
{
    static const char* blanks = " \t\r";
    size_t p = l.find_first_not_of(blanks, col);
    if (p == std::string::npos) return 0;
    bool neg = l[p] == '-';
    if (neg) p = l.find_first_not_of(blanks, p + 1);
    if (p == std::string::npos || !isdigit((unsigned char)l[p])) return 0;
    long v = 0;
    for ( ; p < l.size() && isdigit((unsigned char)l[p]); ++p) v = v * 10 + (l[p] - '0');
    return neg ? -v : v;
}

inline std::string unit_name(const std::string& s)
{
    for (const char* p: { "CODE TABLE", "CODETABLE" }) if (s.compare(0, strlen(p), p) == 0) return "CODE TABLE";
    for (const char* p: { "FLAG TABLE", "FLAGTABLE" }) if (s.compare(0, strlen(p), p) == 0) return "FLAG TABLE";
    return s;
}

/// Digits needed to write any unscaled value
inline unsigned digits(unsigned bits, int ref)
{
    unsigned len = bits == 1 ? 1 : (unsigned)ceil(bits * log10(2.0));
    if (ref && bits && bits <= 32)
    {
        int64_t lo = ref, hi = ref + ((int64_t)1 << bits) - 1;
        len = std::max<unsigned>(len, std::to_string(std::max(std::abs(lo), std::abs(hi))).size());
    }
    return len;
}

inline BEntry parse_bufr(const std::string& l)
{
    BEntry e;
    e.code = WR_VAR(0, atoi(l.substr(2, 2).c_str()), atoi(l.substr(4, 3).c_str()));
    e.desc = rtrim(l.substr(8, 64));
    e.unit = unit_name(rtrim(l.substr(73, 24)));
    e.scale = number(l, 98);
    e.ref = number(l, 102);
    e.bits = number(l, 115);
    e.str = e.unit == "CCITTIA5";
    e.len = e.str ? e.bits / 8 : digits(e.bits, e.ref);
    return e;
}

inline BEntry parse_crex(const std::string& l)
{
    BEntry e;
    e.code = WR_VAR(0, atoi(l.substr(2, 2).c_str()), atoi(l.substr(4, 3).c_str()));
    e.desc = rtrim(l.substr(8, 64));
    e.unit = unit_name(rtrim(l.substr(119, 24)));
    e.scale = number(l, 143);
    e.len = number(l, 149);
    e.str = e.unit == "CHARACTER";
    return e;
}

/// Compare what was loaded with what is in the file
inline void check_entry(Varinfo i, const BEntry& e, bool bufr, const std::string& where)
{
    std::string w = where + " " + varcode_format(e.code);
    MC_CHECK(i->code == e.code, "%s: code is %s", w.c_str(), varcode_format(i->code).c_str());
    MC_CHECK(i->desc == e.desc, "%s: description is [%s] instead of [%s]", w.c_str(), i->desc, e.desc.c_str());
    MC_CHECK(i->unit == e.unit, "%s: unit is [%s] instead of [%s]", w.c_str(), i->unit, e.unit.c_str());
    MC_CHECK(i->scale == e.scale, "%s: scale is %d instead of %d", w.c_str(), i->scale, e.scale);
    MC_CHECK(i->len == e.len, "%s: length is %u instead of %u", w.c_str(), i->len, e.len);
    Vartype t = e.str ? Vartype::String : e.scale ? Vartype::Decimal : Vartype::Integer;
    MC_CHECK(i->type == t, "%s: type is %s instead of %s", w.c_str(), vartype_format(i->type), vartype_format(t));
    if (bufr)
    {
        MC_CHECK(i->bit_ref == e.ref, "%s: reference is %d instead of %d", w.c_str(), i->bit_ref, e.ref);
        MC_CHECK(i->bit_len == e.bits, "%s: width is %u instead of %u", w.c_str(), i->bit_len, e.bits);
    }
}

/// Compose a line of a B table
inline std::string bufr_line(unsigned x, unsigned y, const std::string& desc, const std::string& unit, int scale, int ref, unsigned bits)
{
    return mc::fmt(" 0%02u%03u %-64.64s %-24.24s%4d %12d %3u", x, y, desc.c_str(), unit.c_str(), scale, ref, bits);
}
inline std::string crex_line(const std::string& bufr, const std::string& unit, int scale, unsigned len)
{
    std::string l = bufr;
    l.resize(119, ' ');
    return l + mc::fmt("%-24.24s%3d%9u", unit.c_str(), scale, len);
}

inline std::vector<std::string> shipped(char letter)
{
    std::vector<std::string> res;
    for (auto& e: std::filesystem::directory_iterator(mc::repo() + "/tables"))
    {
        std::string n = e.path().filename();
        if (n[0] == letter && n.size() > 4 && n.substr(n.size() - 4) == ".txt") res.push_back(e.path());
    }
    std::sort(res.begin(), res.end());
    return res;
}
inline bool is_crex(const std::string& path) { return std::filesystem::path(path).filename().string().size() == 11; }

/// Write a file with a name that was never used before in this process
inline std::string write_new(const std::string& contents, const char* prefix = "t")
{
    static unsigned long seq = 0;
    std::string path = mc::scratch() + mc::fmt("/%s%d-%lu", prefix, (int)getpid(), ++seq);
    std::ofstream out(path, std::ios::binary);
    out << contents;
    return path;
}

}
