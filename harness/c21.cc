// C21: code table conversions are total, stable and mutually inverse.
#include "mc.h"
#include <wreport/conv.h>
#include <wreport/codetables.h>
#include <wreport/error.h>
#include <climits>
#include <cmath>
using namespace wreport;

const char* mc::property = "C21";

namespace {

struct Table
{
    const char* name;
    int (*fwd)(int);
    int (*back)(int);
    int lo, hi;          // legal codes in the WMO table
    int base;            // BUFR code of lo
    int missing;         // BUFR code of -1 ('/'), or -1 if it is not legal
};
const std::vector<Table> tables {
    { "0500", convert_WMO0500_to_BUFR20012, convert_BUFR20012_to_WMO0500, 0, 9, 0, 59 },
    { "0509", convert_WMO0509_to_BUFR20012, convert_BUFR20012_to_WMO0509, 0, 9, 10, 60 },
    { "0515", convert_WMO0515_to_BUFR20012, convert_BUFR20012_to_WMO0515, 0, 9, 20, 61 },
    { "0513", convert_WMO0513_to_BUFR20012, convert_BUFR20012_to_WMO0513, 0, 9, 30, 62 },
    { "4677", convert_WMO4677_to_BUFR20003, convert_BUFR20003_to_WMO4677, 0, 99, 0, -1 },
    { "4561", convert_WMO4561_to_BUFR20004, convert_BUFR20004_to_WMO4561, 0, 9, 0, -1 },
};

bool call(int (*f)(int), int v, int& res) { try { res = f(v); return true; } catch (error_domain&) { return false; } }

void code_tables()
{
    const Table& t = mc::pick(tables, "table");
    bool back = mc::flag("direction");
    static const std::vector<int> far { INT_MIN, INT_MIN + 1, -1000000, 1000000, INT_MAX - 1, INT_MAX };
    const int span = 5000;
    for (int n = -span; n <= span + (int)far.size(); ++n)
    {
        int v = n <= span ? n : far[n - span - 1];
        mc::step();
        mc::state(mc::fmt("%s %d %d", t.name, back, v));
        int res;
        if (!back)
        {
            bool legal = v >= t.lo && v <= t.hi;
            long long expected = (long long)v - t.lo + t.base;
            if (v == -1 && t.missing != -1) { legal = true; expected = t.missing; }
            bool ok = call(t.fwd, v, res);
            MC_CHECK(ok == legal, "WMO %s code %d is %s", t.name, v, ok ? "accepted" : "rejected");
            if (!ok) continue;
            MC_CHECK(res == expected, "WMO %s code %d becomes %d instead of %lld", t.name, v, res, expected);
            int b;
            MC_CHECK(call(t.back, res, b) && b == v, "WMO %s code %d does not convert back", t.name, v);
        } else {
            bool legal = v >= t.base && v <= t.base + t.hi - t.lo;
            long long expected = (long long)v - t.base + t.lo;
            if (t.missing != -1 && v == t.missing) { legal = true; expected = -1; }
            bool ok = call(t.back, v, res);
            MC_CHECK(ok == legal, "BUFR code %d to %s is %s", v, t.name, ok ? "accepted" : "rejected");
            if (!ok) continue;
            MC_CHECK(res == expected, "BUFR code %d to %s becomes %d instead of %lld", v, t.name, res, expected);
            int b;
            MC_CHECK(call(t.fwd, res, b) && b == v, "BUFR code %d to %s does not convert back", v, t.name);
        }
    }
}

// Bits with the same meaning: bit numbers in the WMO tables, counted from 1 at the left
const int bits[][3] = { { 1, 1, 0 }, { 2, 2, 0 }, { 3, 3, 0 }, { 4, 4, 0 }, { 5, 5, 6 }, { 6, 7, 0 } };
unsigned b1(int n) { return 1u << (7 - n); }
unsigned b42(int n) { return 1u << (18 - n); }

void vss()
{
    if (mc::flag("direction"))
    {
        // All the 7 bit codes
        for (unsigned v = 0; v < 128; ++v)
        {
            mc::step(); mc::state(mc::fmt("08001 %u", v));
            unsigned e = 0;
            for (auto& b: bits) if (v & b1(b[0])) { e |= b42(b[1]); if (b[2]) e |= b42(b[2]); }
            if (v & 1) e = 0x3ffff;
            unsigned r = convert_BUFR08001_to_BUFR08042(v);
            MC_CHECK(r == e, "08001 %02x becomes %05x instead of %05x", v, r, e);
            unsigned back = convert_BUFR08042_to_BUFR08001(r);
            MC_CHECK(back == ((v & 1) ? 0x7f : v), "08001 %02x converts back to %02x", v, back);
        }
    } else {
        unsigned hi = mc::choose(64, "high bits") << 12;
        for (unsigned l = 0; l < 4096; ++l)
        {
            unsigned v = hi | l;
            mc::step(); mc::state(v);
            unsigned e = 0;
            for (auto& b: bits) if (v & (b42(b[1]) | (b[2] ? b42(b[2]) : 0))) e |= b1(b[0]);
            if (v & 1) e = 0x7f;
            unsigned r = convert_BUFR08042_to_BUFR08001(v);
            MC_CHECK(r == e, "08042 %05x becomes %02x instead of %02x", v, r, e);
        }
    }
}

void aof()
{
    for (unsigned v = 0; v < 512; ++v)
    {
        mc::step(); mc::state(v);
        unsigned e = 0;
        if (v & 1) e |= b42(4);
        if (v & 2) e |= b42(3);
        if (v & 8) e |= b42(2);
        if (v & 32) e |= b42(2);
        if (v & 64) e |= b42(1);
        if (v & 128) e |= b42(7);
        if (v & 256) e |= b42(5);
        unsigned r = convert_AOFVSS_to_BUFR08042(v);
        MC_CHECK(r == e, "AOF %03x becomes %05x instead of %05x", v, r, e);
    }
}

void octants()
{
    for (int o = -20; o <= 20; ++o)
    {
        mc::step();
        double d = 0; bool ok = true;
        try { d = convert_octants_to_degrees(o); } catch (error_domain&) { ok = false; }
        MC_CHECK(ok == (o >= 0 && o <= 8), "octant %d was %s", o, ok ? "accepted" : "rejected");
        if (!ok) continue;
        MC_CHECK(d == o * 45, "octant %d is %f degrees", o, d);
        MC_CHECK(convert_degrees_to_octants(d) == o, "octant %d converts back to %d", o, convert_degrees_to_octants(d));
    }
    // All degrees, by 1/16
    for (int n = -400 * 16; n <= 800 * 16; ++n)
    {
        mc::step(); mc::state((uint64_t)n);
        double d = n / 16.0;
        int o = -1; bool ok = true;
        try { o = convert_degrees_to_octants(d); } catch (error_domain&) { ok = false; }
        MC_CHECK(ok == (d >= 0 && d <= 360), "%f degrees was %s", d, ok ? "accepted" : "rejected");
        if (!ok) continue;
        int e;
        if (d == 0) e = 0;
        else { e = (int)ceil((d - 22.5) / 45); if (e <= 0) e = 8; }
        MC_CHECK(o == e, "%f degrees is octant %d instead of %d", d, o, e);
    }
    for (double d: { (double)NAN, (double)INFINITY, (double)-INFINITY, 1e300, -1e300, -1e-9, 360.0001 })
    {
        bool ok = true;
        try { convert_degrees_to_octants(d); } catch (error_domain&) { ok = false; }
        MC_CHECK(!ok, "%f degrees was accepted", d);
    }
    for (int o: { INT_MIN, INT_MAX })
    {
        bool ok = true;
        try { convert_octants_to_degrees(o); } catch (error_domain&) { ok = false; }
        MC_CHECK(!ok, "octant %d was accepted", o);
    }
}

void icao()
{
    // Pressure from the hydrostatic equation, integrated numerically over the standard atmosphere
    long double p = 1013.25L;
    double last = 1e9;
    for (int h = 0; h <= 20000; h += 10)
    {
        mc::step(); mc::state((uint64_t)h);
        double r = convert_icao_to_press(h);
        MC_CHECK(fabsl(r - p) <= p * 0.005L, "%d meters are %f hPa instead of %Lf", h, r, p);
        MC_CHECK(r < last, "pressure does not decrease at %d meters", h);
        MC_CHECK(last > 1e8 || last - r < 2, "pressure is not continuous at %d meters", h);
        last = r;
        // Next step, by midpoint
        long double mid = h + 5, t = mid < 11000 ? 288.15L - 0.0065L * mid : 216.65L;
        p *= expl(-9.80665L * 10 / (287.053L * t));
    }
    bool raised = false;
    double h = 0;
    try { h = convert_press_to_icao(500); } catch (error_unimplemented&) { raised = true; }
    if (!raised) MC_CHECK(fabs(convert_icao_to_press(h) - 500) < 5, "500 hPa converts to %f meters", h);
}

}

void mc::setup()
{
    mc::add("WMO code tables", code_tables);
    mc::add("vertical sounding significance", vss);
    mc::add("AOF vertical sounding significance", aof);
    mc::add("octants", octants);
    mc::add("standard atmosphere", icao);
}
