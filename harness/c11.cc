// C11: attributes of a variable behave as a map ordered by code.
#include "varmodel.h"
using namespace vm;

const char* mc::property = "C11";

namespace {

struct Codes
{
    // Codes in ascending order; the last is the largest code there is, the first is 0
    std::vector<_Varinfo> i;
    _Varinfo alt, unused, own;
    Codes() : i(6)
    {
        i[0].set_bufr(WR_VAR(0, 1, 1), "LOWEST", "NUMERIC", 0, 3, 0, 7);
        i[1].set_string(WR_VAR(0, 33, 7), "STRING", 5);
        i[2].set_bufr(WR_VAR(0, 33, 20), "DECIMAL", "K", 1, 4, 0, 14);
        i[3].set_binary(WR_VAR(0, 50, 255), "BINARY", 12);
        i[4].set_bufr(WR_VAR(0, 63, 255), "LAST B", "NUMERIC", 0, 3, 0, 7);
        i[5].set_string(WR_VAR(3, 63, 255), "HIGHEST", 2);
        // Another description with the code of 1
        alt.set_bufr(WR_VAR(0, 33, 7), "STRING CODE AS INTEGER", "NUMERIC", 0, 3, 0, 7);
        unused.set_string(WR_VAR(0, 33, 8), "NEVER AN ATTRIBUTE", 5);
        own.set_string(WR_VAR(0, 12, 101), "ATTRIBUTE OF AN ATTRIBUTE", 5);
    }
};
const Codes& codes() { static Codes c; return c; }

Val val(Varinfo i, unsigned n)
{
    if (n == 2) return Val();
    return value(i, n == 0 ? 0 : 2);
}

struct World
{
    Var v, w;
    MVar mv, mw;
    std::vector<Varinfo> infos;

    World(Varinfo base) : v(base), w(base)
    {
        mv.info = mw.info = base;
        mv.val = mw.val = value(base, 0);
        v = build(mv);
        w = v;
    }

    void check(const char* what)
    {
        check_var(v, mv, what);
        check_var(w, mw, "other variable");
        for (unsigned i = 0; i < codes().i.size(); ++i)
        {
            Varcode c = codes().i[i].code;
            MC_CHECK((v.enqa(c) != nullptr) == (mv.attrs.count(c) != 0), "%s: attribute %s is %sfound", what, varcode_format(c).c_str(), v.enqa(c) ? "" : "not ");
        }
        for (Varcode c: { codes().unused.code, codes().own.code, WR_VAR(0, 0, 0), mv.info->code, WR_VAR(0, 63, 254) })
            if (!mv.attrs.count(c)) MC_CHECK(!v.enqa(c), "%s: attribute %s is found", what, varcode_format(c).c_str());
        mc::state(mv.canon() + "|" + mw.canon());
    }

    void op()
    {
        mc::step();
        unsigned k = mc::choose(3, "op");
        if (k == 0)
        {
            Varinfo i = mc::pick(infos, "attribute");
            unsigned n = mc::choose(3, "value");
            MVar a; a.info = i; a.val = val(i, n);
            Var av = build(a);
            unsigned how = mc::choose(5, "how");
            mc::trace("set %s how=%u", a.canon().c_str(), how);
            switch (how)
            {
                case 0: v.seta(av); break;
                case 1: v.seta(std::move(av)); break;
                case 2: v.seta(std::unique_ptr<Var>(new Var(av))); break;
                case 3: case 4: {
                    // The attribute has attributes of its own
                    av.seta(Var(&codes().own, "own"));
                    av.seta(Var(&codes().i[0], 1));
                    if (how == 3) v.seta(av); else v.seta(std::unique_ptr<Var>(new Var(av)));
                    break;
                }
            }
            mv.attrs[i->code] = MAttr{i, a.val};
        } else if (k == 1) {
            unsigned n = mc::choose(infos.size() + 1, "attribute");
            Varcode c = n < infos.size() ? infos[n]->code : codes().unused.code;
            mc::trace("unset %s", varcode_format(c).c_str());
            v.unseta(c);
            mv.attrs.erase(c);
        } else {
            unsigned o = mc::choose(9, "other");
            mc::trace("other operation %u", o);
            switch (o)
            {
                case 0: v.clear_attrs(); mv.attrs.clear(); break;
                case 1: w.setattrs(v); mw.attrs = mv.attrs; break;
                case 2: v.setattrs(w); mv.attrs = mw.attrs; break;
                case 3: w = v; mw = mv; break;
                case 4: std::swap(v, w); std::swap(mv, mw); break;
                case 5: v.unset(); mv.unset(); break;
                case 6: mv.val = value(mv.info, 2); if (is_num(mv.info)) v.seti(mv.val.i); else v.sets(mv.val.s); break;
                case 7: v.set(w); mv = mw; break;
                case 8: {
                    // Move an attribute across
                    if (mw.attrs.empty()) mc::prune();
                    auto a = *mw.attrs.rbegin();
                    const Var* x = w.enqa(a.first);
                    MC_CHECK(x, "attribute %s not found", varcode_format(a.first).c_str());
                    v.seta(*x);
                    mv.attrs[a.first] = a.second;
                    break;
                }
            }
        }
    }
};

void run(unsigned depth, std::vector<Varinfo> is, bool choose_base)
{
    const Infos& in = infos();
    std::vector<Varinfo> bases { &in.integer, &in.str12, &in.bin16, &in.decimal };
    World w(choose_base ? mc::pick(bases, "base") : &in.str12);
    w.infos = is;
    for (unsigned i = 0; i < depth; ++i)
    {
        w.op();
        w.check("after the last operation");
    }
}

/// All orders of insertion of all the codes, then all orders of removal
void permutations()
{
    World w(&infos().integer);
    unsigned n = mc::thorough() ? 6 : 5;
    std::vector<unsigned> left;
    for (unsigned i = 0; i < n; ++i) left.push_back(i);
    while (!left.empty())
    {
        unsigned p = mc::choose(left.size(), "insert");
        Varinfo i = &codes().i[left[p]];
        left.erase(left.begin() + p);
        MVar a; a.info = i; a.val = value(i, 0);
        w.v.seta(build(a));
        w.mv.attrs[i->code] = MAttr{i, a.val};
        mc::step();
        w.check("inserting");
    }
    for (unsigned i = 0; i < n; ++i) left.push_back(i);
    while (!left.empty())
    {
        unsigned p = mc::choose(left.size(), "remove");
        Varcode c = codes().i[left[p]].code;
        left.erase(left.begin() + p);
        w.v.unseta(c);
        w.mv.attrs.erase(c);
        mc::step();
        w.check("removing");
    }
}

}

void mc::setup()
{
    static auto& c = codes();
    mc::add("histories over 6 codes", []{ run(mc::thorough() ? 4 : 3, { &c.i[0], &c.i[1], &c.i[2], &c.i[3], &c.i[4], &c.i[5], &c.alt }, false); });
    mc::add("all types of variables", []{ run(mc::thorough() ? 3 : 2, { &c.i[0], &c.i[1], &c.i[2], &c.i[3], &c.i[4], &c.i[5], &c.alt }, true); });
    mc::add("histories over 2 codes", []{ run(mc::thorough() ? 5 : 4, { &c.i[1], &c.i[2] }, false); });
    mc::add("all orders of insertion and removal", permutations);
}
