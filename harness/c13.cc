// C13: value ranges and binary encoding of variable descriptions agree.
#include "mc.h"
#include <wreport/varinfo.h>
#include <wreport/vartable.h>
#include <wreport/error.h>
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
#include <filesystem>
using namespace wreport;

const char* mc::property = "C13";

namespace {

int64_t p10(unsigned n) { int64_t r = 1; while (n--) r *= 10; return r; }

/// Exact decoded value, in long double
long double scaled(int64_t v, int scale)
{
    long double r = v;
    for (int i = 0; i < scale; ++i) r /= 10;
    for (int i = 0; i < -scale; ++i) r *= 10;
    return r;
}

bool close_to(double a, long double b) { return fabsl(a - b) <= fabsl(b) * 1e-14L; }

struct Range { int64_t lo, hi; };

/// What the binary field can hold
Range field(const _Varinfo& i)
{
    return Range{ i.bit_ref, i.bit_ref + ((int64_t)1 << i.bit_len) - (WR_VAR_X(i.code) == 31 ? 1 : 2) };
}

void refused(const _Varinfo& i, double v, const char* what)
{
    uint32_t res;
    try { res = i.encode_binary(v); } catch (error& e) { return; }
    mc::fail("%s scale %d ref %d bits %u: %s %.17g was encoded as %u", varcode_format(i.code).c_str(), i.scale, i.bit_ref, i.bit_len, what, v, res);
}

void check_value(const _Varinfo& i, int64_t v, bool binary)
{
    mc::step();
    double d = i.decode_decimal((int)v);
    MC_CHECK(close_to(d, scaled(v, i.scale)), "scale %d: %lld decodes to %.17g", i.scale, (long long)v, d);
    int e = i.encode_decimal(d);
    MC_CHECK(e == v, "scale %d: %lld decodes to %.17g and encodes back to %d", i.scale, (long long)v, d, e);
    MC_CHECK(fabs(i.round_decimal(d) - d) <= fabs(d) * 1e-14, "scale %d: %.17g rounds to %.17g", i.scale, d, i.round_decimal(d));
    if (!binary) return;
    uint32_t b;
    try { b = i.encode_binary(d); } catch (std::exception& ex) { mc::fail("%s scale %d ref %d bits %u: %lld (%.17g) does not encode: %s", varcode_format(i.code).c_str(), i.scale, i.bit_ref, i.bit_len, (long long)v, d, ex.what()); }
    MC_CHECK((int64_t)b == v - i.bit_ref, "scale %d ref %d bits %u: %lld encodes to %u", i.scale, i.bit_ref, i.bit_len, (long long)v, b);
    double r = i.decode_binary(b);
    MC_CHECK(close_to(r, scaled(v, i.scale)) && i.encode_decimal(r) == v, "scale %d ref %d bits %u: %u decodes to %.17g instead of %.17g", i.scale, i.bit_ref, i.bit_len, b, r, d);
}

/// If tight, the description comes from a BUFR table and digits do not limit the field
void check_info(const _Varinfo& i, bool tight)
{
    mc::state(mc::fmt("%d %d %u %d %u", WR_VAR_X(i.code), i.scale, i.len, i.bit_ref, i.bit_len));
    int64_t lo = INT_MIN, hi = INT_MAX;
    if (i.len < 10)
    {
        if (!tight) { lo = -(p10(i.len) - 1); hi = p10(i.len) - 2; }
        if (i.bit_len)
        {
            Range f = field(i);
            lo = std::max(lo, f.lo); hi = std::min(hi, f.hi);
        }
    }
    if (lo > hi) mc::prune();
    MC_CHECK(i.imin == lo && i.imax == hi, "%s scale %d len %u ref %d bits %u: range is [%d,%d] instead of [%lld,%lld]", varcode_format(i.code).c_str(),
            i.scale, i.len, i.bit_ref, i.bit_len, i.imin, i.imax, (long long)lo, (long long)hi);
    MC_CHECK(close_to(i.dmin, scaled(lo, i.scale)) && close_to(i.dmax, scaled(hi, i.scale)), "%s: scaled range is [%.17g,%.17g]", varcode_format(i.code).c_str(), i.dmin, i.dmax);
    bool bin = i.bit_len != 0;
    Range f = bin ? field(i) : Range{lo, hi};
    auto value = [&](int64_t v) { if (v >= lo && v <= hi) check_value(i, v, bin && v >= f.lo && v <= f.hi); };
    if (hi - lo <= 70)
        for (int64_t v = lo; v <= hi; ++v) value(v);
    else {
        for (int64_t d = 0; d < 3; ++d) { value(lo + d); value(hi - d); value(d); value(-d); value((lo + hi) / 2 + d); }
        if (bin) for (int64_t d = 0; d < 3; ++d) { value(f.lo + d); value(f.hi - d); }
        for (unsigned b = 3; b < 32; ++b) { value((int64_t)1 << b); value(((int64_t)1 << b) - 1); value(-((int64_t)1 << b)); value(i.bit_ref + ((int64_t)1 << b)); }
        for (unsigned p = 1; p < 10; ++p) { value(p10(p)); value(p10(p) - 1); value(-p10(p)); value(p10(p) / 3); }
    }
    if (bin)
    {
        int64_t size = (int64_t)1 << i.bit_len;
        // Values that the field cannot hold
        for (int64_t v: { f.lo - 1, f.lo - 2, f.hi + 1, f.hi + 2, f.hi + 3, f.lo - size, f.lo + size, f.hi + size, f.lo + 2 * size, (int64_t)1 << 40, -((int64_t)1 << 40) })
        {
            mc::step();
            if (v >= f.lo && v <= f.hi) continue;
            refused(i, (double)scaled(v, i.scale), "value out of the field");
        }
        refused(i, INFINITY, "infinity");
        refused(i, -INFINITY, "infinity");
        refused(i, NAN, "NaN");
        // All that the field can hold decodes
        for (uint32_t b: { (uint32_t)0, (uint32_t)1, (uint32_t)(size - 1), (uint32_t)(size / 2) })
            MC_CHECK(close_to(i.decode_binary(b), scaled((int64_t)b + i.bit_ref, i.scale)), "decode_binary(%u) is %.17g", b, i.decode_binary(b));
    } else {
        refused(i, 1, "value of a description without binary encoding");
    }
}

void grid()
{
    static const std::vector<int> scales_q { 0, 1, -1, 2, 5, -4, 9, -9, 13, 16, -16, 23, -23, 60, -60, 120, -120 };
    static const std::vector<int> scales_t { 0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, 7, -7, 8, -8, 9, -9, 10, -10, 11, -11, 12, -12, 13, -13, 14, -14, 15, -15, 16, -16, 23, -23, 31, -31, 60, -60, 90, -90, 120, -120, 255, -255 };
    int scale = mc::pick(mc::thorough() ? scales_t : scales_q, "scale");
    unsigned bits = mc::choose(33, "bits");
    unsigned len = mc::choose(12, "len");
    if (!len) mc::prune();
    static const std::vector<int> refs { 0, -1, 1, -10, 20, -400, 1000, -9000000, 62000000, -1073741824, INT_MIN, INT_MAX, -18000, 14000 };
    int ref = mc::pick(refs, "ref");
    if (!bits && ref) mc::prune();
    unsigned x = mc::pick(std::vector<unsigned>{ 12, 31 }, "class");
    _Varinfo i;
    if (bits)
        i.set_bufr(WR_VAR(0, x, 1), "TEST", "NUMERIC", scale, len, ref, bits);
    else
        i.set_crex(WR_VAR(0, x, 1), "TEST", "NUMERIC", scale, len);
    MC_CHECK(i.type == (scale ? Vartype::Decimal : Vartype::Integer), "wrong type");
    MC_CHECK(i.scale == scale && i.bit_ref == ref && i.bit_len == bits && i.len == len, "wrong contents");
    mc::trace("scale %d bits %u len %u ref %d class %u: [%d, %d]", scale, bits, len, ref, x, i.imin, i.imax);
    check_info(i, false);
}

std::vector<std::string> table_names(bool crex)
{
    std::vector<std::string> res;
    for (auto& e: std::filesystem::directory_iterator(mc::repo() + "/tables"))
    {
        std::string n = e.path().filename();
        if (n[0] != 'B' || e.path().extension() != ".txt") continue;
        if ((n.size() < 12) == crex) res.push_back(e.path());
    }
    std::sort(res.begin(), res.end());
    return res;
}

/// All the descriptions in all shipped tables
void shipped(bool crex)
{
    static std::vector<std::string> names[2] = { table_names(false), table_names(true) };
    const std::string& name = names[crex][mc::choose(names[crex].size(), "table")];
    mc::trace("%s", name.c_str());
    const Vartable* t = crex ? Vartable::load_crex(name.c_str()) : Vartable::load_bufr(name.c_str());
    unsigned count = 0;
    t->iterate([&](Varinfo i) {
        if (i->type == Vartype::String || i->type == Vartype::Binary) return true;
        // Some local tables have placeholders
        if (!crex && (i->bit_len == 0 || i->bit_len > 32)) return true;
        if (crex && i->len == 0) return true;
        ++count;
        check_info(*i, !crex);
        return true;
    });
    MC_CHECK(count > 0, "no entries in %s", name.c_str());
}

/// Altered descriptions
void altered()
{
    static const Vartable* t = Vartable::load_bufr((mc::repo() + "/tables/B0000000000000024000.txt").c_str());
    static const std::vector<Varcode> codes { WR_VAR(0, 1, 1), WR_VAR(0, 5, 1), WR_VAR(0, 7, 1), WR_VAR(0, 10, 4), WR_VAR(0, 12, 101), WR_VAR(0, 31, 1), WR_VAR(0, 7, 40) };
    Varcode code = mc::pick(codes, "code");
    static const std::vector<int> scales { 0, 1, -1, 3, -3, 7, 16, -16 };
    int scale = mc::pick(scales, "scale");
    unsigned bits = 1 + mc::choose(32, "bits");
    static const std::vector<int> refs { 0, -1, 1, -400, 1000, -100000, 62000000, -1073741824, INT_MIN, INT_MAX };
    int ref = mc::pick(refs, "ref");
    Varinfo i = t->query_altered(code, scale, bits, ref);
    MC_CHECK(i->scale == scale && i->bit_ref == ref && i->bit_len == bits && i->code == code, "wrong alteration");
    check_info(*i, true);
}

void types()
{
    static const unsigned large[] { 511, 512, 513, 1023, 1024, 1025, 2040, 2041, 4095, 4096, 4097, 8191, 8192, 16384, 32768, 65535, 65536, 70000 };
    unsigned n = mc::choose(521 + sizeof(large) / sizeof(large[0]), "size");
    if (n > 520) n = large[n - 521];
    bool bin = mc::flag("binary");
    _Varinfo i;
    if (bin) i.set_binary(WR_VAR(0, 30, 1), "TEST", n); else i.set_string(WR_VAR(0, 30, 1), "TEST", n);
    mc::state(mc::fmt("%d %u", bin, n));
    mc::step();
    if (bin) MC_CHECK(i.type == Vartype::Binary && i.bit_len == n && i.len == (n + 7) / 8, "binary of %u bits has length %u and %u bits", n, i.len, i.bit_len);
    else MC_CHECK(i.type == Vartype::String && i.bit_len == n * 8 && i.len == n, "string of %u has length %u and %u bits", n, i.len, i.bit_len);
    MC_CHECK(i.imin == 0 && i.imax == 0 && i.dmin == 0 && i.dmax == 0, "range of a string or binary");
}

}

void mc::setup()
{
    mc::Options o; o.leaks = false;
    mc::add("grid of descriptions", grid, o);
    mc::add("shipped BUFR tables", []{ shipped(false); }, o);
    mc::add("shipped CREX tables", []{ shipped(true); }, o);
    mc::add("altered descriptions", altered, o);
    mc::add("strings and binaries", types, o);
}
