// C08: copying, moving and assigning variables preserves values and isolation.
#include "varmodel.h"
#include <wreport/conv.h>
using namespace vm;

const char* mc::property = "C08";

namespace {

std::vector<Varinfo> all_infos()
{
    auto& i = infos();
    return { &i.integer, &i.decimal, &i.str4, &i.str12, &i.bin6, &i.bin16, &i.bin40 };
}

/// What setval does on the model. Returns false if it must raise an error and leave things as they are
bool model_setval(MVar& d, const MVar& s)
{
    if (!s.val.isset) { d.unset(); return true; }
    switch (d.info->type)
    {
        case Vartype::String:
        case Vartype::Binary: {
            std::string text = is_num(s.info) ? std::to_string(s.val.i) : s.val.s;
            if (d.info->type == Vartype::String) d.assign_text(text); else d.assign_bytes(text);
            return true;
        }
        default:
            if (!is_num(s.info)) return false;
            if (strcmp(d.info->unit, s.info->unit) != 0) return false;
            // Same unit and, in these scenarios, same description
            d.seti(s.val.i);
            return true;
    }
}

struct World
{
    std::vector<std::unique_ptr<Var>> v;
    std::vector<MVar> m;

    void check(const char* what)
    {
        for (unsigned i = 0; i < v.size(); ++i)
            check_var(*v[i], m[i], mc::fmt("%s, v%u", what, i).c_str());
        std::string st;
        for (auto& x: m) st += x.canon() + "|";
        mc::state(st);
    }

    static MVar choose_initial(const std::vector<Varinfo>& in, bool full)
    {
        MVar r;
        r.info = mc::pick(in, "info");
        unsigned k = full ? mc::choose(3, "contents") : 2;   // unset, set, set with attributes
        if (k) r.val = value(r.info, k == 1 ? 0 : 2);
        if (k == 2)
        {
            r.attrs[infos().str12.code] = MAttr{&infos().str12, value(&infos().str12, 2)};
            r.attrs[infos().decimal.code] = MAttr{&infos().decimal, value(&infos().decimal, 0)};
        }
        return r;
    }

    void init(const MVar& x) { m.push_back(x); v.emplace_back(new Var(build(x))); }

    void add_attr(unsigned i, const MVar& a) { m[i].attrs[a.info->code] = MAttr{a.info, a.val}; }

    void op(bool heavy)
    {
        unsigned n = v.size();
        mc::step();
        unsigned i = mc::choose(n, "dst");
        Var& d = *v[i];
        MVar& md = m[i];
        unsigned k = mc::choose(heavy ? 21 : 19, "op");
        // Operations with a source
        if (k < 12)
        {
            unsigned j = mc::choose(n, "src");
            Var& s = *v[j];
            MVar& ms = m[j];
            auto moved_from = [](MVar& x) { x.unset(); x.attrs.clear(); };
            switch (k)
            {
                case 0: mc::trace("v%u = v%u", i, j); d = s; if (i != j) md = ms; break;
                case 1: mc::trace("v%u = move(v%u)", i, j);
                    d = std::move(s);
                    if (i != j) { md = ms; moved_from(ms); }
                    break;
                case 2: { mc::trace("v%u = new Var(v%u)", i, j); std::unique_ptr<Var> t(new Var(s)); v[i] = std::move(t); MVar c = ms; md = c; break; }
                case 3: {
                    mc::trace("v%u = new Var(move(v%u))", i, j);
                    std::unique_ptr<Var> t(new Var(std::move(s)));
                    MVar c = ms;
                    moved_from(ms);
                    check_var(*v[j], m[j], "after the move constructor, source");
                    v[i] = std::move(t);
                    m[i] = c;
                    break;
                }
                case 4: {
                    mc::trace("v%u.setval(v%u)", i, j);
                    MVar c = md;
                    bool ok = model_setval(c, ms);
                    bool raised = false;
                    try { d.setval(s); } catch (wreport::error&) { raised = true; }
                    if (raised == ok) mc::fail("setval from %s to %s %s", ms.canon().c_str(), md.canon().c_str(), raised ? "raised an error" : "did not raise an error");
                    md = c;
                    break;
                }
                case 5: mc::trace("v%u.setattrs(v%u)", i, j); d.setattrs(s); { auto a = ms.attrs; md.attrs = a; } break;
                case 6: {
                    mc::trace("v%u.set(v%u)", i, j);
                    MVar c = md;
                    bool ok = model_setval(c, ms);
                    if (ok) c.attrs = ms.attrs;
                    bool raised = false;
                    try { d.set(s); } catch (wreport::error&) { raised = true; }
                    if (raised == ok) mc::fail("set from %s to %s %s", ms.canon().c_str(), md.canon().c_str(), raised ? "raised an error" : "did not raise an error");
                    md = c;
                    break;
                }
                case 7: {
                    mc::trace("v%u.seta(v%u)", i, j);
                    MVar c = ms;
                    d.seta((const Var&)s);
                    add_attr(i, c);
                    break;
                }
                case 8: {
                    if (i == j) { mc::prune(); }
                    mc::trace("v%u.seta(move(v%u))", i, j);
                    MVar c = ms;
                    d.seta(std::move(s));
                    add_attr(i, c);
                    // The source becomes unset; its own attributes may be gone
                    ms.unset();
                    if (!s.next_attr()) ms.attrs.clear();
                    break;
                }
                case 9: {
                    mc::trace("v%u.seta(unique_ptr(v%u))", i, j);
                    MVar c = ms;
                    d.seta(std::unique_ptr<Var>(new Var(s)));
                    add_attr(i, c);
                    break;
                }
                case 10: {
                    mc::trace("swap(v%u, v%u)", i, j);
                    std::swap(d, s);
                    if (i != j) { MVar t = md; md = ms; ms = t; }
                    break;
                }
                case 11: {
                    // Attributes can be used as sources, even of the variable they belong to
                    if (ms.attrs.empty()) mc::prune();
                    Varcode c = ms.attrs.begin()->first;
                    const Var* a = s.enqa(c);
                    if (!a) mc::fail("attribute not found");
                    mc::trace("v%u = attribute of v%u", i, j);
                    MVar r; r.info = ms.attrs.begin()->second.info; r.val = ms.attrs.begin()->second.val;
                    d = Var(r.info, *a);
                    // Attributes of the result are not specified
                    d.clear_attrs();
                    md = r;
                    break;
                }
            }
            return;
        }
        switch (k)
        {
            case 12: mc::trace("v%u.unset()", i); d.unset(); md.unset(); break;
            case 13: mc::trace("v%u.clear_attrs()", i); d.clear_attrs(); md.attrs.clear(); break;
            case 14: case 15: case 16: {
                Val x = value(md.info, k - 14);
                mc::trace("v%u set to %s", i, canon(md.info, x).c_str());
                if (is_num(md.info)) { if (k == 14) d.seti(x.i); else if (k == 15) d.setd(md.info->decode_decimal(x.i)); else d.sets(std::to_string(x.i)); }
                else if (md.info->type == Vartype::String) { if (k == 14) d.setc(x.s.c_str()); else if (k == 15) d.sets(x.s); else d.setf(x.s.c_str()); }
                else { if (k == 14) d.setc(x.s.data()); else d.sets(x.s); }
                md.val = x;
                break;
            }
            case 17: {
                mc::trace("v%u loses an attribute", i);
                Varcode c = infos().str12.code;
                d.unseta(c);
                md.attrs.erase(c);
                break;
            }
            case 18: {
                mc::trace("v%u is assigned to from a temporary", i);
                MVar t; t.info = infos().str4.code == md.info->code ? &infos().integer : &infos().str4;
                t.val = value(t.info, 0);
                d = build(t);
                md = t;
                break;
            }
            case 19: {
                mc::trace("v%u.set(integer) raising an error", i);
                if (!is_num(md.info)) mc::prune();
                try { d.seti(md.info->imax + 1); mc::fail("out of range value accepted"); } catch (wreport::error_domain&) {}
                md.unset();
                break;
            }
            case 20: {
                mc::trace("v%u appended to a vector that gets resized", i);
                std::vector<Var> vec;
                for (unsigned x = 0; x < 3; ++x) vec.push_back(d);
                vec.erase(vec.begin());
                vec.insert(vec.begin(), std::move(d));
                d = vec[2];
                break;
            }
        }
    }
};

void pairs(unsigned depth, const std::vector<Varinfo>& in, bool full)
{
    World w;
    w.init(World::choose_initial(in, full));
    w.init(World::choose_initial(in, full));
    w.check("at start");
    for (unsigned i = 0; i < depth; ++i)
    {
        w.op(true);
        w.check("after the last operation");
    }
}

void triples(unsigned depth, const std::vector<Varinfo>& in, bool full)
{
    World w;
    for (unsigned i = 0; i < 3; ++i) w.init(World::choose_initial(in, full));
    for (unsigned i = 0; i < depth; ++i)
    {
        w.op(false);
        w.check("after the last operation");
    }
}

/// Copies of values of all lengths, over variables of all lengths
void lengths()
{
    static const std::vector<unsigned> lens { 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191 };
    bool bin = mc::flag("binary");
    unsigned l0 = mc::pick(lens, "length"), l1 = mc::pick(lens, "other length");
    _Varinfo i0, i1;
    auto init = [&](_Varinfo& i, unsigned code, unsigned len) {
        if (bin) i.set_binary(WR_VAR(0, 1, code), "BINARY", len * 8 - len % 3); else i.set_string(WR_VAR(0, 1, code), "STRING", len);
    };
    init(i0, 1, l0); init(i1, 2, l1);
    auto set = [&](Var& v, MVar& m, unsigned salt) {
        std::string t;
        for (unsigned k = 0; k < m.info->len; ++k) t += (char)('!' + (k * 7 + k / 90 + salt) % 90);
        v.sets(t);
        if (bin) m.assign_bytes(t); else m.assign_text(t);
    };
    MVar m0, m1; m0.info = &i0; m1.info = &i1;
    Var v0(&i0), v1(&i1);
    set(v0, m0, 3);
    if (mc::flag("other set")) set(v1, m1, 11);
    if (mc::flag("attribute")) { v0.seta(v1); m0.attrs[i1.code] = MAttr{&i1, m1.val}; }
    check_var(v0, m0, "source");
    {
        Var c(v0); check_var(c, m0, "copy");
        Var m(std::move(c)); check_var(m, m0, "moved");
        Var n(&i0); n = m; check_var(n, m0, "assigned");
        n.unset(); n = std::move(m); check_var(n, m0, "move assigned");
        Var w(&i0); w.setval(v0); MVar mw = m0; mw.attrs.clear(); check_var(w, mw, "setval");
    }
    check_var(v0, m0, "source after copies");
    // Over a variable of another length, that is then changed
    v1 = v0; check_var(v1, m0, "over another length");
    MVar m2 = m0;
    set(v1, m2, 5);
    check_var(v1, m2, "changed after copying"); check_var(v0, m0, "source after changing the copy");
    mc::state(m0.canon());
    mc::step(9);
}

}

void mc::setup()
{
    bool t = mc::thorough();
    auto& i = infos();
    static std::vector<Varinfo> all = all_infos();
    static std::vector<Varinfo> some { &i.integer, &i.str4, &i.str12, &i.bin16 };
    static std::vector<Varinfo> two { &i.decimal, &i.str12 };
    mc::add("two variables of all types, histories of 2 operations", []{ pairs(2, all, true); });
    mc::add("two variables, histories of 3 operations", [t]{ pairs(3, t ? some : two, t); });
    mc::add("three variables, histories of 2 operations", [t]{ triples(2, t ? all : some, t); });
    mc::add("lengths", lengths);
    if (t)
    {
        mc::add("two variables, histories of 4 operations", []{ pairs(4, two, false); });
        mc::add("three variables, histories of 3 operations", []{ triples(3, two, false); });
    }
}
