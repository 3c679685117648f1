// C09: a set variable is always inside its domain, in every error mode.
#include "varmodel.h"
#include <wreport/options.h>
#include <wreport/vartable.h>
#include <climits>
#include <cinttypes>
using namespace vm;

const char* mc::property = "C09";

namespace {

struct DInfos
{
    std::vector<_Varinfo> v;
    void bufr(Varcode c, const char* unit, int scale, unsigned len, int ref, int bits)
    {
        v.emplace_back();
        v.back().set_bufr(c, "TEST", unit, scale, len, ref, bits);
    }
    DInfos()
    {
        bufr(WR_VAR(0, 1, 1), "NUMERIC", 0, 3, 0, 7);
        bufr(WR_VAR(0, 1, 2), "NUMERIC", 0, 1, 0, 7);          // limited by the number of digits
        bufr(WR_VAR(0, 2, 106), "M/S", 1, 2, 0, 6);
        bufr(WR_VAR(0, 5, 1), "DEGREE", 5, 7, -9000000, 25);
        bufr(WR_VAR(0, 6, 2), "DEGREE", 2, 5, -18000, 16);
        bufr(WR_VAR(0, 7, 1), "M", 0, 5, -400, 15);
        bufr(WR_VAR(0, 10, 4), "PA", -1, 5, 0, 14);
        bufr(WR_VAR(0, 10, 5), "PA", -3, 2, -5, 7);
        bufr(WR_VAR(0, 12, 101), "K", 2, 5, 0, 16);
        bufr(WR_VAR(0, 20, 1), "NUMERIC", 0, 3, 20, 5);        // positive reference
        bufr(WR_VAR(0, 31, 1), "NUMERIC", 0, 3, 0, 8);         // delayed replication factor
        bufr(WR_VAR(0, 25, 1), "NUMERIC", 0, 9, 0, 29);
        bufr(WR_VAR(0, 25, 2), "NUMERIC", 9, 9, -1000, 20);
        bufr(WR_VAR(0, 25, 3), "NUMERIC", 0, 10, 0, 32);
        bufr(WR_VAR(0, 25, 4), "NUMERIC", 3, 10, 0, 31);
        bufr(WR_VAR(0, 25, 5), "NUMERIC", 0, 10, INT_MIN, 32);
        v.emplace_back(); v.back().set_crex(WR_VAR(0, 12, 3), "CREX", "C", 1, 3);
        v.emplace_back(); v.back().set_crex(WR_VAR(0, 12, 4), "CREX", "NUMERIC", 0, 9);
        v.emplace_back(); v.back().set_crex(WR_VAR(0, 12, 5), "CREX", "NUMERIC", 0, 10);
        v.emplace_back(); v.back().set_crex(WR_VAR(0, 12, 6), "CREX", "NUMERIC", -2, 4);
    }
};
const DInfos& dinfos() { static DInfos i; return i; }

struct Hook : public options::DomainErrorHook
{
    unsigned mode; // 0: do nothing, 1: set to a valid value, 2: raise an exception
    unsigned ints = 0, doubles = 0;
    int32_t ival = 0;
    double dval = 0;
    struct Raised {};
    Hook(unsigned mode) : mode(mode) {}
    void act(Var& var)
    {
        if (mode == 1) var.seti(var.info()->imin);
        if (mode == 2) throw Raised();
    }
    void handle_domain_error_int(Var& var, int32_t val) override { ++ints; ival = val; act(var); }
    void handle_domain_error_double(Var& var, double val) override { ++doubles; dval = val; act(var); }
};

/// Offending value, as an unscaled number
struct Input
{
    long double raw;     // unscaled value
    bool nan = false;
};

void body(bool reals)
{
    const DInfos& di = dinfos();
    Varinfo info = &di.v[mc::choose(di.v.size(), "info")];
    const long double lo = info->imin, hi = info->imax;
    bool intvar = info->type == Vartype::Integer;

    // How the variable is set, and with what
    unsigned setter;
    Input in;
    std::string text;
    double dval = 0;
    int ival = 0;
    if (!reals)
    {
        setter = mc::choose(7, "setter"); // seti, setc, sets, ctor int, ctor char*, ctor string, set(int)
        std::vector<int64_t> vals { info->imin, info->imax, (int64_t)info->imin + 1, (int64_t)info->imax - 1,
            (int64_t)info->imin - 1, (int64_t)info->imax + 1, 0, -1, 1, ((int64_t)info->imin + info->imax) / 2, INT_MIN, INT_MAX };
        bool textual = setter == 1 || setter == 2 || setter == 4 || setter == 5;
        if (textual)
            for (int64_t v: { (int64_t)INT_MAX + 1, (int64_t)INT_MIN - 1, (int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 1, (int64_t)UINT32_MAX + 6,
                    -(int64_t)UINT32_MAX, -(int64_t)UINT32_MAX - 6, (int64_t)999999999999999999LL, (int64_t)-999999999999999999LL,
                    (int64_t)UINT32_MAX + 1 + info->imin, (int64_t)UINT32_MAX + 1 + info->imax, (int64_t)UINT32_MAX * 20 + 25 + info->imax })
                vals.push_back(v);
        unsigned n = mc::choose(vals.size() + (textual ? 2 : 0), "value");
        if (n < vals.size())
        {
            int64_t v = vals[n];
            if (!textual && (v < INT_MIN || v > INT_MAX)) mc::prune();
            in.raw = v;
            ival = v;
            text = std::to_string(v);
            if (textual && mc::flag("leading zeros")) text = v < 0 ? "-000" + text.substr(1) : "000" + text;
        } else {
            text = (n == vals.size() ? "" : "-") + std::string(40, '7');
            in.raw = n == vals.size() ? 1e40L : -1e40L;
        }
    } else {
        setter = 7 + mc::choose(4, "setter"); // setd, setf, ctor double, set(double)
        double step = info->decode_decimal(1);
        std::vector<double> vals { info->dmin, info->dmax, info->dmin + step, info->dmax - step,
            info->dmin + 0.3 * step, info->dmax - 0.3 * step,
            info->dmin - step, info->dmax + step, info->dmin - 0.7 * step, info->dmax + 0.7 * step,
            0.0, -0.0, step, -step, info->decode_decimal(((int64_t)info->imin + info->imax) / 2),
            1e300, -1e300, 4294967296.0 * step, -4294967296.0 * step, 4294967296.0 * step + info->dmin, 4294967296.0 * step + info->dmax,
            -4294967296.0 * step + info->dmax, 9.3e18, -9.3e18, 1.85e19, 1.8446744073709551616e19 + info->dmax,
            (double)INFINITY, (double)-INFINITY, (double)NAN };
        dval = vals[mc::choose(vals.size(), "value")];
        in.nan = std::isnan(dval);
        in.raw = (long double)dval / (long double)step;
        text = mc::fmt("%.17g", dval);
    }
    unsigned prior = mc::choose(3, "prior");
    bool is_ctor = setter == 3 || setter == 4 || setter == 5 || setter == 9;
    if (is_ctor && prior) mc::prune();
    unsigned mode = mc::choose(10, "mode");
    // 0 default; 1 silent; 2 clamp; 3-5 hooks; 6 silent and clamp; 7 silent and hook; 8 clamp and hook; 9: all
    bool silent = mode == 1 || mode == 6 || mode == 7 || mode == 9;
    bool clamp = mode == 2 || mode == 6 || mode == 8 || mode == 9;
    bool hooked = (mode >= 3 && mode <= 5) || mode == 7 || mode == 8 || mode == 9;
    Hook hook(mode >= 3 && mode <= 5 ? mode - 3 : 0);

    std::unique_ptr<Var> var(new Var(info));
    int32_t before = info->imax;
    if (prior) var->seti(info->imax);
    if (prior == 2) var->seta(Var(&infos().str4, "abcd"));

    mc::step();
    bool raised = false, hook_raised = false;
    std::string err;
    mc::trace("%s [%d,%d] setter %u value %s mode %u", varcode_format(info->code).c_str(), info->imin, info->imax, setter, text.c_str(), mode);
    {
        auto o1 = options::local_override(options::var_silent_domain_errors, silent);
        auto o2 = options::local_override(options::var_clamp_domain_errors, clamp);
        auto o3 = options::local_override(options::var_hook_domain_errors, (options::DomainErrorHook*)(hooked ? &hook : nullptr));
        try {
            switch (setter)
            {
                case 0: var->seti(ival); break;
                case 1: var->setc(text.c_str()); break;
                case 2: var->sets(text); break;
                case 3: var.reset(new Var(info, ival)); break;
                case 4: var.reset(new Var(info, text.c_str())); break;
                case 5: var.reset(new Var(info, text)); break;
                case 6: var->set(ival); break;
                case 7: var->setd(dval); break;
                case 8: var->setf(text.c_str()); break;
                case 9: var.reset(new Var(info, dval)); break;
                case 10: var->set(dval); break;
            }
        } catch (error_domain& e) {
            raised = true; err = e.what();
        } catch (Hook::Raised&) {
            hook_raised = true;
        }
    }

    // What should have happened
    bool inside, outside;
    if (in.nan) { inside = false; outside = true; }
    else {
        // Between the limit and half a step from it, it can go either way
        inside = in.raw >= lo - 1e-6L && in.raw <= hi + 1e-6L;
        outside = in.raw < lo - 0.6L || in.raw > hi + 0.6L;
    }
    mc::state(mc::fmt("%s %s %u %d %u", varcode_format(info->code).c_str(), text.c_str(), mode, is_ctor, prior));
    mc::outcome(mc::fmt("%d %d %u %u %d", raised, hook_raised, hook.ints, hook.doubles, var->isset()));
    if (!inside && !outside) return;

    bool isset = var->isset();
    if (isset)
    {
        int v = var->enqi();
        MC_CHECK(v >= info->imin && v <= info->imax, "variable holds %d, outside of its range [%d,%d]", v, info->imin, info->imax);
    }
    if (inside)
    {
        MC_CHECK(!raised, "in range value %s raised %s", text.c_str(), err.c_str());
        MC_CHECK(!hook.ints && !hook.doubles, "in range value %s called the domain error hook", text.c_str());
        MC_CHECK(isset, "in range value %s left the variable unset", text.c_str());
        long double d = fabsl((long double)var->enqi() - in.raw);
        MC_CHECK(d <= 0.5001L, "in range value %s was stored as %d", text.c_str(), var->enqi());
        return;
    }
    if (silent || (!clamp && !hooked) || (clamp && in.nan && !hooked))
    {
        // Unset, with an error or not
        if (silent) MC_CHECK(!raised, "value %s raised %s while domain errors are silent", text.c_str(), err.c_str());
        else MC_CHECK(raised, "value %s did not raise a domain error", text.c_str());
        MC_CHECK(!hook.ints && !hook.doubles, "hook called while domain errors are silent");
        if (!(is_ctor && raised)) MC_CHECK(!isset, "value %s left the variable set to %d", text.c_str(), var->enqi());
        return;
    }
    if (clamp && !in.nan)
    {
        MC_CHECK(!raised, "value %s raised %s while clamping", text.c_str(), err.c_str());
        MC_CHECK(!hook.ints && !hook.doubles, "hook called while clamping");
        MC_CHECK(isset, "value %s left the variable unset while clamping", text.c_str());
        int expected = in.raw < lo ? info->imin : info->imax;
        MC_CHECK(var->enqi() == expected, "value %s was clamped to %d instead of %d", text.c_str(), var->enqi(), expected);
        return;
    }
    // Hooked
    MC_CHECK(!raised, "value %s raised %s while there is a hook", text.c_str(), err.c_str());
    MC_CHECK(hook.ints + hook.doubles == 1, "hook called %u times for integers and %u for doubles, for value %s", hook.ints, hook.doubles, text.c_str());
    if (hook.ints)
    {
        MC_CHECK(!in.nan && fabsl(hook.ival - in.raw) <= 0.5001L, "hook called with %d instead of %s", hook.ival, text.c_str());
    } else if (in.nan) {
        MC_CHECK(std::isnan(hook.dval), "hook called with %g instead of NaN", hook.dval);
    } else if (setter >= 7) {
        if (std::isinf(dval)) MC_CHECK(hook.dval == dval, "hook called with %g instead of %g", hook.dval, dval);
        else MC_CHECK(fabsl((long double)hook.dval - dval) <= fabsl(dval) * 1e-9L, "hook called with %.17g instead of %.17g", hook.dval, dval);
    } else {
        // Too large for an integer: a double out of the range, in the right direction
        MC_CHECK(in.raw > 0 ? hook.dval > info->dmax : hook.dval < info->dmin, "hook called with %g for %s", hook.dval, text.c_str());
    }
    MC_CHECK(hook_raised == (hook.mode == 2), "exception of the hook not propagated");
    if (is_ctor && hook_raised) return;
    if (hook.mode == 1)
        MC_CHECK(isset && var->enqi() == info->imin, "the value set by the hook was lost");
    else {
        MC_CHECK(isset == (prior != 0), "with a hook the variable became %s", isset ? "set" : "unset");
        if (isset) MC_CHECK(var->enqi() == before, "with a hook the variable changed from %d to %d", before, var->enqi());
    }
    MC_CHECK((var->next_attr() != nullptr) == (prior == 2), "attributes changed");
}

/// Every integer around the limits of small fields, by all setters
void sweep()
{
    static std::vector<_Varinfo> v;
    if (v.empty())
        for (int scale: { 0, 1, -1 })
            for (unsigned bits = 1; bits <= (mc::thorough() ? 12u : 8u); ++bits)
                for (int ref: { 0, -3, 5 })
                {
                    v.emplace_back();
                    v.back().set_bufr(WR_VAR(0, 20, 1), "TEST", "NUMERIC", scale, 4, ref, bits);
                }
    const _Varinfo& info = v[mc::choose(v.size(), "info")];
    unsigned setter = mc::choose(5, "setter");
    int lo = info.bit_ref - 5, hi = info.bit_ref + (1 << info.bit_len) + 5;
    for (int val = lo; val <= hi; ++val)
    {
        mc::step();
        mc::state(mc::fmt("%d %u %d %d", info.scale, info.bit_len, info.bit_ref, val));
        Var var(&info);
        bool raised = false;
        try {
            switch (setter)
            {
                case 0: var.seti(val); break;
                case 1: var.setd(info.decode_decimal(val)); break;
                case 2: var.setc(std::to_string(val).c_str()); break;
                case 3: var.sets(std::to_string(val)); break;
                case 4: var.setf(mc::fmt("%.6f", info.decode_decimal(val)).c_str()); break;
            }
        } catch (error_domain&) { raised = true; }
        bool in = val >= info.imin && val <= info.imax;
        MC_CHECK(raised == !in, "setter %u: value %d of range [%d,%d] %s", setter, val, info.imin, info.imax, raised ? "raised" : "was accepted");
        MC_CHECK(var.isset() == in, "setter %u: value %d of range [%d,%d]: isset is %d", setter, val, info.imin, info.imax, var.isset());
        if (in) MC_CHECK(var.enqi() == val, "setter %u: value %d was set to %d", setter, val, var.enqi());
    }
}

/// Sources in other units: the converted value is subject to the same checks
void converted()
{
    _Varinfo kelvin, celsius, tenths;
    kelvin.set_bufr(WR_VAR(0, 12, 1), "TEMPERATURE", "K", 1, 4, 0, 12);
    celsius.set_crex(WR_VAR(0, 12, 1), "TEMPERATURE", "C", 1, 3);
    tenths.set_bufr(WR_VAR(0, 12, 2), "TEMPERATURE", "K", 2, 5, 0, 16);
    std::vector<Varinfo> is { &kelvin, &celsius, &tenths };
    Varinfo s = mc::pick(is, "source"), d = mc::pick(is, "destination");
    unsigned mode = mc::choose(3, "mode");
    bool ctor = mc::flag("constructor");
    for (int val = s->imin; val <= s->imax; ++val)
    {
        mc::step();
        Var src(s, val);
        double k = src.enqd();
        if (s == &celsius) k += 273.15;
        if (d == &celsius) k -= 273.15;
        auto o1 = options::local_override(options::var_silent_domain_errors, mode == 1);
        auto o2 = options::local_override(options::var_clamp_domain_errors, mode == 2);
        Var dst(d);
        bool raised = false;
        try { if (ctor) dst = Var(d, src); else dst.setval(src); } catch (error_domain&) { raised = true; }
        double step = d->decode_decimal(1);
        bool in = k >= d->dmin + step * 1e-4 && k <= d->dmax - step * 1e-4;
        bool out = k <= d->dmin - step * 0.6 || k >= d->dmax + step * 0.6;
        if (dst.isset()) MC_CHECK(dst.enqi() >= d->imin && dst.enqi() <= d->imax, "converted value outside of the range");
        if (in)
            MC_CHECK(!raised && dst.isset() && fabs(dst.enqd() - k) <= step * 0.51, "value %g converted to %g gave %s", src.enqd(), k, dst.format("unset").c_str());
        else if (out)
        {
            if (mode == 0) MC_CHECK(raised && !dst.isset(), "value %g converted to %g was accepted", src.enqd(), k);
            else if (mode == 1) MC_CHECK(!raised && !dst.isset(), "value %g converted to %g was not silently unset", src.enqd(), k);
            else MC_CHECK(!raised && dst.isset() && dst.enqi() == (k < d->dmin ? d->imin : d->imax), "value %g converted to %g was not clamped", src.enqd(), k);
        }
    }
    mc::state(mc::fmt("%s %s %u %d", s->unit, d->unit, mode, ctor));
}

}

void mc::setup()
{
    mc::add("integers and strings", []{ body(false); });
    mc::add("reals", []{ body(true); });
    mc::add("all values of small fields", sweep);
    mc::add("values in other units", converted);
}
