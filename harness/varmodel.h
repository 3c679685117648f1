// Reference model of a variable: a plain value type.
#pragma once
#include "mc.h"
#include <wreport/var.h>
#include <wreport/varinfo.h>
#include <wreport/error.h>
#include <map>
#include <memory>
#include <cmath>
#include <cstring>

namespace vm {
using namespace wreport;

struct Val
{
    bool isset = false;
    int32_t i = 0;          // numeric
    std::string s;          // string: text; binary: len bytes
    bool operator==(const Val& o) const { return isset == o.isset && (!isset || (i == o.i && s == o.s)); }
    bool operator!=(const Val& o) const { return !(*this == o); }
};

struct MAttr { Varinfo info = nullptr; Val val; };

struct MVar
{
    Varinfo info = nullptr;
    Val val;
    std::map<Varcode, MAttr> attrs;

    void unset() { val = Val(); }
    void seti(int32_t i) { val.isset = true; val.i = i; val.s.clear(); }
    /// Assign a text, cut at the first NUL, to a string variable
    void assign_text(const std::string& s)
    {
        std::string t = s.substr(0, s.find('\0'));
        val.isset = true; val.i = 0; val.s = t.substr(0, info->len);
    }
    /// Assign bytes to a binary variable
    void assign_bytes(const std::string& s)
    {
        val.isset = true; val.i = 0;
        val.s = s.substr(0, info->len);
        if (val.s.size() == info->len)
        {
            if (info->bit_len % 8)
                val.s[info->len - 1] &= (char)((1 << (info->bit_len % 8)) - 1);
        }
        else
            val.s.resize(info->len, '\0');
    }
    std::string canon() const;
};

inline bool is_num(Varinfo i) { return i->type == Vartype::Integer || i->type == Vartype::Decimal; }

inline std::string canon(Varinfo info, const Val& v)
{
    std::string r = varcode_format(info->code) + mc::fmt("/%d/%u/%u", (int)info->type, info->len, info->bit_len);
    if (!v.isset) return r + "=unset";
    if (is_num(info)) return r + mc::fmt("=%d", v.i);
    return r + "=" + mc::esc(v.s);
}
inline std::string MVar::canon() const
{
    std::string r = vm::canon(info, val);
    for (auto& a: attrs) r += " {" + vm::canon(a.second.info, a.second.val) + "}";
    return r;
}

/// Read the value of a variable through its public interface
inline Val read_value(const Var& v)
{
    Val r;
    if (!v.isset()) return r;
    r.isset = true;
    switch (v.info()->type)
    {
        case Vartype::Integer:
        case Vartype::Decimal: r.i = v.enqi(); break;
        case Vartype::String: r.s = v.enqc(); break;
        case Vartype::Binary: r.s = std::string(v.enqc(), v.info()->len); break;
    }
    return r;
}

/// Check that var is exactly as the model says
inline void check_var(const Var& v, const MVar& m, const char* what)
{
    if (v.info() != m.info) mc::fail("%s: variable has description %s/%s instead of %s/%s", what,
            varcode_format(v.info()->code).c_str(), v.info()->desc, varcode_format(m.info->code).c_str(), m.info->desc);
    Val val = read_value(v);
    if (val != m.val) mc::fail("%s: value is %s instead of %s", what, canon(m.info, val).c_str(), canon(m.info, m.val).c_str());
    auto it = m.attrs.begin();
    unsigned n = 0;
    for (const Var* a = v.next_attr(); a; a = a->next_attr(), ++it, ++n)
    {
        if (it == m.attrs.end()) mc::fail("%s: unexpected attribute %s", what, varcode_format(a->code()).c_str());
        if (a->code() != it->first) mc::fail("%s: attribute %u is %s instead of %s", what, n, varcode_format(a->code()).c_str(), varcode_format(it->first).c_str());
        if (a->info() != it->second.info) mc::fail("%s: attribute %u has the wrong description", what, n);
        Val av = read_value(*a);
        if (av != it->second.val) mc::fail("%s: attribute %s instead of %s", what, canon(a->info(), av).c_str(), canon(a->info(), it->second.val).c_str());
        if (v.enqa(it->first) != a) mc::fail("%s: attribute %s cannot be found by code", what, varcode_format(it->first).c_str());
    }
    if (it != m.attrs.end()) mc::fail("%s: attribute %s is lost", what, varcode_format(it->first).c_str());
}

/// Build the variable that the model describes
inline Var build(const MVar& m)
{
    Var v(m.info);
    auto put = [](Var& d, const Val& x) {
        if (!x.isset) return;
        if (is_num(d.info())) d.seti(x.i);
        else d.sets(x.s);
    };
    put(v, m.val);
    for (auto& a: m.attrs) { std::unique_ptr<Var> at(new Var(a.second.info)); put(*at, a.second.val); v.seta(std::move(at)); }
    return v;
}

struct Infos
{
    _Varinfo integer, decimal, dneg, str4, str12, bin6, bin16, str4b, num_as_str4, bin40, decref;
    Infos()
    {
        integer.set_bufr(WR_VAR(0, 1, 1), "INTEGER", "NUMERIC", 0, 3, 0, 7);
        decimal.set_bufr(WR_VAR(0, 12, 101), "DECIMAL", "K", 2, 5, 0, 16);
        decref.set_bufr(WR_VAR(0, 5, 1), "DECIMAL WITH REFERENCE", "DEGREE", 5, 7, -9000000, 25);
        dneg.set_bufr(WR_VAR(0, 10, 4), "PRESSURE", "PA", -1, 5, 0, 14);
        str4.set_string(WR_VAR(0, 1, 15), "STRING 4", 4);
        str4b.set_string(WR_VAR(0, 1, 15), "ANOTHER STRING 4", 4);
        str12.set_string(WR_VAR(0, 1, 19), "STRING 12", 12);
        bin6.set_binary(WR_VAR(0, 30, 1), "BINARY 6", 6);
        bin16.set_binary(WR_VAR(0, 30, 2), "BINARY 16", 16);
        bin40.set_binary(WR_VAR(0, 30, 3), "BINARY 40", 40);
        // Same code as integer, but a string
        num_as_str4.set_string(WR_VAR(0, 1, 1), "STRING WITH THE CODE OF AN INTEGER", 4);
    }
};
inline const Infos& infos() { static Infos i; return i; }

/// Values to use for an info
inline Val value(Varinfo i, unsigned n)
{
    Val v;
    v.isset = true;
    switch (i->type)
    {
        case Vartype::Integer: v.i = n == 0 ? 12 : n == 1 ? 0 : 99; break;
        case Vartype::Decimal: v.i = n == 0 ? 1234 : n == 1 ? 0 : i->imax; break;
        case Vartype::String:
            v.s = n == 0 ? std::string("ab") : n == 1 ? std::string() : std::string("ABCDEFGHIJKLMNOP").substr(0, i->len);
            break;
        case Vartype::Binary: {
            MVar m; m.info = i;
            m.assign_bytes(n == 0 ? std::string("\x01\x00\xfe\x02\xff", 5) : n == 1 ? std::string(5, '\0') : std::string("\xff\xff\xff\xff\xff"));
            v = m.val; break;
        }
    }
    return v;
}

}
