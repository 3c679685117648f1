// C10: integer, real, string and formatted views of a value agree.
#include "varmodel.h"
#include <climits>
#include <set>
#include <sstream>
using namespace vm;

const char* mc::property = "C10";

namespace {

template<typename E, typename F>
void raises(F f, const char* what)
{
    try { f(); }
    catch (E& e) { return; }
    catch (error& e) { mc::fail("%s raised %s instead of the expected kind of error", what, e.what()); }
    mc::fail("%s did not raise an error", what);
}

std::string format_file(const Var& v, const char* ifundef="UNDEF")
{
    char* buf = nullptr; size_t size = 0;
    FILE* out = open_memstream(&buf, &size);
    v.format(out, ifundef);
    fclose(out);
    std::string res(buf, size);
    free(buf);
    return res;
}

std::vector<_Varinfo> numeric_infos()
{
    std::vector<_Varinfo> v;
    for (int scale = -16; scale <= 16; ++scale)
    {
        if (!mc::thorough() && scale % 3 && abs(scale) > 9) continue;
        for (unsigned len: { 1, 2, 5, 9, 10 })
        {
            static const unsigned bits[] = { 3, 7, 17, 29, 32 };
            unsigned nbits = bits[len == 1 ? 0 : len == 2 ? 1 : len == 5 ? 2 : len == 9 ? 3 : 4];
            v.emplace_back(); v.back().set_bufr(WR_VAR(0, 12, 1), "BUFR", "K", scale, len, 0, nbits);
            v.emplace_back(); v.back().set_bufr(WR_VAR(0, 12, 2), "BUFR NEGATIVE", "K", scale, len, -(1 << (nbits - 2)), nbits);
            v.emplace_back(); v.back().set_crex(WR_VAR(0, 12, 3), "CREX", "K", scale, len);
        }
    }
    return v;
}

const std::vector<_Varinfo>& ninfos() { static auto v = numeric_infos(); return v; }

/// 10^n
long double p10(int n) { long double r = 1; for (int i = 0; i < n; ++i) r *= 10; return r; }

bool same_double(double a, long double b)
{
    return a == (double)b || fabsl((long double)a - b) <= fabsl(b) * 4e-16L;
}

void numbers()
{
    const auto& is = ninfos();
    Varinfo info = &is[mc::choose(is.size(), "info")];
    std::set<int32_t> vals { info->imin, info->imax, 0, 1, -1, 5, -5, 12345, -12345, 123456789, -123456789, 1234567890, -1234567890, INT_MIN, INT_MAX, INT_MIN + 1 };
    for (long long p = 10; p <= 1000000000; p *= 10)
        for (int d = -1; d <= 1; ++d) { vals.insert(p + d); vals.insert(-p + d); }
    for (int d = 1; d < 4; ++d) { vals.insert((long long)info->imin + d); vals.insert((long long)info->imax - d); }
    int dense = mc::thorough() ? 20000 : 300;
    for (int i = -dense; i <= dense; ++i) vals.insert(i);
    std::vector<int32_t> v;
    for (auto i: vals) if (i >= info->imin && i <= info->imax) v.push_back(i);
    int32_t val = v[mc::choose(v.size(), "value")];
    mc::step();
    mc::state(mc::fmt("%d %u %d %d", info->scale, info->len, info->bit_ref, val));

    Var var(info, val);
    MC_CHECK(var.isset(), "value %d in [%d, %d] was not set", val, info->imin, info->imax);
    // Views
    MC_CHECK(var.enqi() == val, "enqi gives %d instead of %d", var.enqi(), val);
    MC_CHECK(var.enq<int>() == val && var.enq(7) == val, "enq<int> gives %d instead of %d", var.enq<int>(), val);
    std::string text = std::to_string(val);
    MC_CHECK(text == var.enqc(), "enqc gives %s instead of %s", var.enqc(), text.c_str());
    MC_CHECK(text == var.enqs(), "enqs gives %s instead of %s", var.enqs().c_str(), text.c_str());
    MC_CHECK(text == var.enq<std::string>() && text == var.enq<const char*>(), "enq as string does not give %s", text.c_str());
    long double real = info->scale >= 0 ? val / p10(info->scale) : val * p10(-info->scale);
    MC_CHECK(same_double(var.enqd(), real), "enqd gives %.17g instead of %.17Lg", var.enqd(), real);
    MC_CHECK(var.enq<double>() == var.enqd() && var.enq(1.0) == var.enqd(), "enq<double> gives %.17g instead of %.17g", var.enq<double>(), var.enqd());
    MC_CHECK(var.enq<float>() == (float)var.enqd(), "enq<float> gives %.17g instead of %.17g", var.enq<float>(), var.enqd());
    // Formatted text
    std::string fmt = var.format("UNDEF");
    if (info->scale >= 0)
    {
        std::string digits = std::to_string(llabs((long long)val));
        if ((int)digits.size() <= info->scale) digits.insert(0, info->scale + 1 - digits.size(), '0');
        if (info->scale) digits.insert(digits.size() - info->scale, ".");
        std::string expected = (val < 0 ? "-" : "") + digits;
        MC_CHECK(fmt == expected, "format gives %s instead of %s", fmt.c_str(), expected.c_str());
    } else {
        MC_CHECK(same_double(strtod(fmt.c_str(), nullptr), real), "format gives %s instead of %.0Lf", fmt.c_str(), real);
        MC_CHECK(fmt.find('.') == std::string::npos, "format gives %s", fmt.c_str());
    }
    MC_CHECK(format_file(var) == fmt, "formatting to file gives %s instead of %s", format_file(var).c_str(), fmt.c_str());
    std::stringstream ss; var.print(ss);
    MC_CHECK(ss.str().find(fmt + "\n") != std::string::npos, "print gives %s instead of %s", ss.str().c_str(), fmt.c_str());

    // Set it back from each view
    static const char* names[] = { "seti", "setd", "setc", "sets", "setf", "setval", "set int", "set double", "set char*", "set string", "set Var",
        "constructor from int", "constructor from double", "constructor from char*", "constructor from string" };
    for (unsigned how = 0; how < 15; ++how)
    {
        mc::step();
        Var v1(info);
        switch (how)
        {
            case 0: v1.seti(var.enqi()); break;
            case 1: v1.setd(var.enqd()); break;
            case 2: v1.setc(var.enqc()); break;
            case 3: v1.sets(var.enqs()); break;
            case 4: v1.setf(fmt.c_str()); break;
            case 5: v1.setval(var); break;
            case 6: v1.set(var.enq<int>()); break;
            case 7: v1.set(var.enq<double>()); break;
            case 8: v1.set(var.enq<const char*>()); break;
            case 9: v1.set(var.enq<std::string>()); break;
            case 10: v1.set(var); break;
            case 11: v1 = Var(info, var.enqi()); break;
            case 12: v1 = Var(info, var.enqd()); break;
            case 13: v1 = Var(info, var.enqc()); break;
            case 14: v1 = Var(info, var.enqs()); break;
        }
        MC_CHECK(v1.isset(), "%s of %d leaves the variable unset", names[how], val);
        MC_CHECK(v1.enqi() == val, "%s of %d gives %d", names[how], val, v1.enqi());
        MC_CHECK(v1 == var && v1.value_equals(var), "%s of %d gives a different variable", names[how], val);
    }
    // Values between two steps go to the nearest one
    if (info->scale >= -9 && info->scale <= 9)
    {
        double step = info->decode_decimal(1);
        for (int d = -1; d <= 1; d += 2)
        {
            double x = var.enqd() + d * 0.3 * step;
            if (x < info->dmin || x > info->dmax) continue;
            Var v1(info); v1.setd(x);
            MC_CHECK(v1.isset() && v1.enqi() == val, "setd of %.17g gives %s instead of %d", x, v1.format("unset").c_str(), val);
        }
    }
    MC_CHECK(var.enqi() == val, "reading changed the value to %d", var.enqi());
    raises<error_type>([&]{ var.setc_truncate("1"); }, "setc_truncate on a number");
    MC_CHECK(var.isset() && var.enqi() == val, "a refused operation changed the value");
}

void strings()
{
    unsigned maxlen = mc::thorough() ? 9 : 6;
    unsigned len = 1 + mc::choose(maxlen, "len");
    _Varinfo info; info.set_string(WR_VAR(0, 1, 15), "STRING", len);
    unsigned n = mc::choose(len + 4, "size");
    unsigned pat = mc::choose(5, "pattern");
    std::string s;
    for (unsigned i = 0; i < n; ++i)
        switch (pat)
        {
            case 0: s += 'a' + i; break;
            case 1: s += ' '; break;
            case 2: s += "1-23456789"[i % 10]; break;
            case 3: s += "\xff\x01\x80"[i % 3]; break;
            case 4: s += i == n / 2 ? '\0' : 'x'; break;
        }
    unsigned how = mc::choose(9, "setter");
    std::string expected = s.substr(0, s.find('\0')).substr(0, len);
    mc::step();
    mc::state(mc::fmt("%u ", len) + mc::esc(s));
    bool was = mc::flag("already set");
    Var v(&info);
    if (was) v.setc(std::string(len, 'Z').c_str());
    std::unique_ptr<char[]> buf(new char[s.size() + 1]);
    memcpy(buf.get(), s.c_str(), s.size() + 1);
    switch (how)
    {
        case 0: v.setc(buf.get()); break;
        case 1: v.sets(s); break;
        case 2: v.setf(buf.get()); break;
        case 3: v.setc_truncate(buf.get()); break;
        case 4: v.set(buf.get()); break;
        case 5: v.set(s); break;
        case 6: v = Var(&info, buf.get()); break;
        case 7: v = Var(&info, s); break;
        case 8: {
            _Varinfo i2; i2.set_string(WR_VAR(0, 1, 15), "STRING", len + 5);
            Var v2(&i2, buf.get());
            v.setval(v2);
            break;
        }
    }
    if (how == 2 && buf[0] == 0)
    {
        MC_CHECK(!v.isset(), "setf of an empty string leaves a value");
        return;
    }
    MC_CHECK(v.isset(), "the variable is not set");
    MC_CHECK(v.enqc() == expected, "enqc gives %s instead of %s", mc::esc(v.enqc()).c_str(), mc::esc(expected).c_str());
    MC_CHECK(v.enqs() == expected, "enqs gives %s instead of %s", mc::esc(v.enqs()).c_str(), mc::esc(expected).c_str());
    MC_CHECK(v.enq<std::string>() == expected && v.enq<const char*>() == expected && v.enq(std::string("x")) == expected, "enq does not give %s", mc::esc(expected).c_str());
    MC_CHECK(v.format("UNDEF") == expected, "format gives %s instead of %s", mc::esc(v.format("UNDEF")).c_str(), mc::esc(expected).c_str());
    MC_CHECK(format_file(v) == expected, "format gives %s instead of %s", mc::esc(format_file(v)).c_str(), mc::esc(expected).c_str());
    for (unsigned how2 = 0; how2 < 4; ++how2)
    {
        Var v1(&info);
        switch (how2)
        {
            case 0: v1.setc(v.enqc()); break;
            case 1: v1.sets(v.enqs()); break;
            case 2: v1.setf(v.format().c_str()); if (expected.empty()) continue; break;
            case 3: v1.setval(v); break;
        }
        MC_CHECK(v1 == v && v1.enqs() == expected, "setting back %s gives %s", mc::esc(expected).c_str(), mc::esc(v1.format("unset")).c_str());
    }
    raises<error_type>([&]{ v.enqi(); }, "enqi on a string");
    raises<error_type>([&]{ v.enqd(); }, "enqd on a string");
    raises<error_type>([&]{ v.enq<int>(); }, "enq<int> on a string");
    raises<error_type>([&]{ v.enq(3.0); }, "enq<double> on a string");
    raises<error_type>([&]{ v.seti(1); }, "seti on a string");
    raises<error_type>([&]{ v.setd(1); }, "setd on a string");
    raises<error_type>([&]{ v.set(1); }, "set(int) on a string");
    raises<error_type>([&]{ v.set(1.0); }, "set(double) on a string");
    raises<error_type>([&]{ Var x(&info, 1); }, "building a string from an int");
    raises<error_type>([&]{ Var x(&info, 1.0); }, "building a string from a double");
    MC_CHECK(v.isset() && v.enqs() == expected, "a refused operation changed the value");
}

void binaries()
{
    unsigned bits = 1 + mc::choose(mc::thorough() ? 33 : 20, "bits");
    _Varinfo info; info.set_binary(WR_VAR(0, 30, 1), "BINARY", bits);
    unsigned n = mc::choose(info.len + 3, "size");
    unsigned pat = mc::choose(4, "pattern");
    std::string s;
    for (unsigned i = 0; i < n; ++i)
        switch (pat)
        {
            case 0: s += (char)(0xc1 + i); break;
            case 1: s += '\0'; break;
            case 2: s += '\xff'; break;
            case 3: s += i % 2 ? '\xa5' : '\0'; break;
        }
    MVar m; m.info = &info;
    m.assign_bytes(s);
    std::string expected = m.val.s;
    mc::step();
    mc::state(mc::fmt("%u ", bits) + mc::esc(s));
    unsigned how = mc::choose(5, "setter");
    Var v(&info);
    std::unique_ptr<char[]> buf(new char[s.size() + 1]);
    memcpy(buf.get(), s.c_str(), s.size() + 1);
    if ((how == 3 || how == 4) && n < info.len) mc::prune();
    switch (how)
    {
        case 0: v.sets(s); break;
        case 1: v.set(s); break;
        case 2: v = Var(&info, s); break;
        case 3: v.setc(buf.get()); break;
        case 4: v.setc_truncate(buf.get()); break;
    }
    MC_CHECK(v.isset(), "the variable is not set");
    MC_CHECK(v.enqs() == expected, "enqs gives %s instead of %s", mc::esc(v.enqs()).c_str(), mc::esc(expected).c_str());
    MC_CHECK(memcmp(v.enqc(), expected.data(), info.len) == 0, "enqc does not give %s", mc::esc(expected).c_str());
    std::string hex;
    for (unsigned char c: expected) hex += mc::fmt("%02X", c);
    MC_CHECK(v.format() == hex, "format gives %s instead of %s", v.format().c_str(), hex.c_str());
    MC_CHECK(format_file(v) == hex, "format gives %s instead of %s", format_file(v).c_str(), hex.c_str());
    Var v1(&info, v.enqs()), v2(&info, v.enqc()), v3(&info); v3.setval(v);
    MC_CHECK(v1 == v && v1.enqs() == expected, "setting back enqs gives %s", v1.format().c_str());
    MC_CHECK(v2 == v && v2.enqs() == expected, "setting back enqc gives %s", v2.format().c_str());
    MC_CHECK(v3 == v && v3.enqs() == expected, "setting back with setval gives %s", v3.format().c_str());
    raises<error_type>([&]{ v.enqi(); }, "enqi on a binary");
    raises<error_type>([&]{ v.enqd(); }, "enqd on a binary");
    raises<error_type>([&]{ v.seti(1); }, "seti on a binary");
    raises<error_type>([&]{ v.setd(1); }, "setd on a binary");
    raises<error_type>([&]{ Var x(&info, 1); }, "building a binary from an int");
    raises<error_type>([&]{ Var x(&info, 1.5); }, "building a binary from a double");
    raises<error_unimplemented>([&]{ v.setf("00"); }, "setf on a binary");
    MC_CHECK(v.enqs() == expected, "a refused operation changed the value");
}

void unset()
{
    const Infos& in = infos();
    std::vector<Varinfo> all { &in.integer, &in.decimal, &in.decref, &in.dneg, &in.str4, &in.str12, &in.bin6, &in.bin40 };
    Varinfo info = mc::pick(all, "info");
    unsigned how = mc::choose(6, "how");
    mc::step();
    Var v(info);
    if (how > 0 && is_num(info)) v.seti(12);
    if (how > 0 && !is_num(info)) v.sets("abcdefghijklmnop");
    switch (how)
    {
        case 1: v.unset(); break;
        case 2: v.setf(""); break;
        case 3: v.setf(nullptr); break;
        case 4: v.setval(Var(info)); break;
        case 5: v.set(Var(info)); break;
    }
    mc::state(mc::fmt("%s %u", info->desc, how));
    MC_CHECK(!v.isset(), "the variable is set");
    raises<error_notfound>([&]{ v.enqi(); }, "enqi of an unset variable");
    raises<error_notfound>([&]{ v.enqd(); }, "enqd of an unset variable");
    raises<error_notfound>([&]{ v.enqc(); }, "enqc of an unset variable");
    raises<error_notfound>([&]{ v.enqs(); }, "enqs of an unset variable");
    raises<error_notfound>([&]{ v.enq<int>(); }, "enq<int> of an unset variable");
    raises<error_notfound>([&]{ v.enq<double>(); }, "enq<double> of an unset variable");
    raises<error_notfound>([&]{ v.enq<float>(); }, "enq<float> of an unset variable");
    raises<error_notfound>([&]{ v.enq<const char*>(); }, "enq<const char*> of an unset variable");
    raises<error_notfound>([&]{ v.enq<std::string>(); }, "enq<string> of an unset variable");
    MC_CHECK(v.enq(42) == 42 && v.enq(4.5) == 4.5 && v.enq(std::string("d")) == "d", "enq does not give the default value");
    MC_CHECK(v.format() == "" && v.format("U") == "U" && format_file(v, "U") == "U", "format does not give the default");
    std::stringstream ss; v.print(ss);
    MC_CHECK(ss.str().find("(undef)") != std::string::npos, "print gives %s", ss.str().c_str());
    // It can be set again
    if (is_num(info)) { v.seti(12); MC_CHECK(v.isset() && v.enqi() == 12, "cannot be set again"); }
    else { v.sets("ab"); MC_CHECK(v.isset() && v.enqs().substr(0, 1) == (info->bit_len == 6 ? std::string("!") : std::string("a")), "cannot be set again: %s", mc::esc(v.enqs()).c_str()); }
}

/// Text that is not a number
void not_numbers()
{
    const Infos& in = infos();
    std::vector<Varinfo> all { &in.integer, &in.decimal, &in.decref, &in.dneg };
    Varinfo info = mc::pick(all, "info");
    static const std::vector<std::string> texts { "None", "a", "1a", "1.5", " 1", "1 ", "--1", "1-", "+", "NaN", "0x10", "1e2", "-a" };
    const std::string& t = mc::pick(texts, "text");
    unsigned how = mc::choose(6, "how");
    mc::step();
    mc::state(t + info->desc);
    Var v(info, 12);
    bool raised = false;
    try {
        switch (how)
        {
            case 0: v.setc(t.c_str()); break;
            case 1: v.sets(t); break;
            case 2: v.set(t); break;
            case 3: v.set(t.c_str()); break;
            case 4: v = Var(info, t.c_str()); break;
            case 5: v = Var(info, t); break;
        }
    } catch (error& e) { raised = true; }
    mc::outcome(mc::fmt("%d %d", raised, v.isset()));
    if (!raised) MC_CHECK(!v.isset(), "setting %s gives %s", t.c_str(), v.enqc());
}

}

void mc::setup()
{
    mc::add("numbers", numbers);
    mc::add("strings", strings);
    mc::add("binaries", binaries);
    mc::add("unset", unset);
    mc::add("not numbers", not_numbers);
}
