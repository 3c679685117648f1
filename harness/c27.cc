// C27: descriptor sequences can be sliced and walked without surprises.
#include "mc.h"
#include <wreport/opcodes.h>
#include <wreport/error.h>
#include <climits>
#include <deque>
#include <memory>
#include <cstring>
using namespace wreport;

const char* mc::property = "C27";

namespace {

typedef std::vector<Varcode> M;

std::string canon(const M& m) { std::string r; for (auto c: m) r += varcode_format(c) + " "; return r; }

void check(const Opcodes& o, const M& m, const char* what, bool print)
{
    MC_CHECK(o.size() == m.size(), "%s: size is %u instead of %zu", what, o.size(), m.size());
    MC_CHECK(o.empty() == m.empty(), "%s: empty is %d with %zu descriptors", what, o.empty(), m.size());
    MC_CHECK(o.head() == (m.empty() ? 0 : m[0]), "%s: head is %s", what, varcode_format(o.head()).c_str());
    for (unsigned i = 0; i < m.size(); ++i)
        MC_CHECK(o[i] == m[i], "%s: item %u is %s instead of %s", what, i, varcode_format(o[i]).c_str(), varcode_format(m[i]).c_str());
    for (unsigned i: { (unsigned)m.size(), (unsigned)m.size() + 1, (unsigned)m.size() + 2, (unsigned)m.size() + 1000, (unsigned)INT_MAX, UINT_MAX })
        MC_CHECK(o[i] == 0, "%s: item %u of %zu is %s", what, i, m.size(), varcode_format(o[i]).c_str());
    M walked(o.begin, o.end);
    MC_CHECK(walked == m, "%s: contains %s instead of %s", what, canon(walked).c_str(), canon(m).c_str());
    // Walk with next
    M w2;
    Opcodes c(o);
    for (unsigned n = 0; !c.empty(); c = c.next())
    {
        MC_CHECK(++n <= m.size(), "%s: walking does not end", what);
        w2.push_back(c.head());
    }
    MC_CHECK(w2 == m, "%s: walking gives %s", what, canon(w2).c_str());
    MC_CHECK(c.next().empty() && c.next().head() == 0, "%s: there is something after the end", what);
    if (!print) return;
    char* buf = nullptr; size_t size = 0;
    FILE* out = open_memstream(&buf, &size);
    o.print(out);
    fclose(out);
    std::string printed(buf, size);
    free(buf);
    std::string expected = m.empty() ? "(empty)" : "";
    for (auto x: m) expected += mc::fmt("%d%02d%03d ", WR_VAR_FXY(x));
    MC_CHECK(printed == expected, "%s: printed as %s instead of %s", what, printed.c_str(), expected.c_str());
}

void histories(unsigned depth, unsigned maxsize)
{
    unsigned n = mc::choose(maxsize + 1, "size");
    bool zeros = mc::flag("zeros");
    static const Varcode all[] = { WR_VAR(0, 1, 1), WR_VAR(1, 2, 3), WR_VAR(3, 63, 255), WR_VAR(2, 1, 129), WR_VAR(0, 63, 255) };
    M vals(all, all + n);
    if (zeros && n) vals[n / 2] = 0;
    // Allocate exactly, to notice reads outside
    std::unique_ptr<Varcode[]> mem(new Varcode[n]);
    if (n) memcpy(mem.get(), vals.data(), n * sizeof(Varcode));

    static const char* names[] = { "sequence 0", "sequence 1", "sequence 2", "sequence 3", "sequence 4" };
    std::deque<Opcodes> os;
    std::deque<M> ms;
    if (mc::flag("from vector")) os.emplace_back(vals); else os.emplace_back(mem.get(), mem.get() + n);
    ms.push_back(vals);
    // Some counts depend on the size
    auto count = [](unsigned size) -> unsigned {
        unsigned k = mc::choose(size + 4, "count");
        if (k < size + 2) return k;
        return k == size + 2 ? INT_MAX : UINT_MAX;
    };
    for (unsigned d = 0; d < depth; ++d)
    {
        unsigned i = mc::choose(os.size(), "sequence");
        M& m = ms[i];
        mc::step();
        switch (mc::choose(7, "op"))
        {
            case 0: {
                mc::trace("%u.pop_left()", i);
                Varcode c = 0;
                bool raised = false;
                try { c = os[i].pop_left(); } catch (error_consistency&) { raised = true; }
                MC_CHECK(raised == m.empty(), "pop_left %s with %zu items", raised ? "raised an error" : "did not raise an error", m.size());
                if (!raised)
                {
                    MC_CHECK(c == m[0], "pop_left gave %s instead of %s", varcode_format(c).c_str(), varcode_format(m[0]).c_str());
                    m.erase(m.begin());
                }
                break;
            }
            case 1: {
                unsigned k = count(m.size());
                mc::trace("%u.pop_left(%u)", i, k);
                bool raised = false;
                Opcodes r(nullptr, nullptr);
                try { r = os[i].pop_left(k); } catch (error_consistency&) { raised = true; }
                MC_CHECK(raised == (k > m.size()), "pop_left(%u) %s with %zu items", k, raised ? "raised an error" : "did not raise an error", m.size());
                if (!raised)
                {
                    M left(m.begin(), m.begin() + k);
                    m.erase(m.begin(), m.begin() + k);
                    os.push_back(r); ms.push_back(left);
                }
                break;
            }
            case 2: {
                mc::trace("%u.next()", i);
                Opcodes r = os[i].next();
                M e = m; if (!e.empty()) e.erase(e.begin());
                os.push_back(r); ms.push_back(e);
                break;
            }
            case 3: {
                unsigned k = count(m.size());
                mc::trace("%u.sub(%u)", i, k);
                Opcodes r = os[i].sub(k);
                M e = k < m.size() ? M(m.begin() + k, m.end()) : M();
                os.push_back(r); ms.push_back(e);
                break;
            }
            case 4: {
                unsigned k = count(m.size()), l = count(m.size());
                mc::trace("%u.sub(%u, %u)", i, k, l);
                Opcodes r = os[i].sub(k, l);
                M e;
                if (k < m.size()) e = M(m.begin() + k, l >= m.size() - k ? m.end() : m.begin() + k + l);
                os.push_back(r); ms.push_back(e);
                break;
            }
            case 5: mc::trace("copy %u", i); { Opcodes r(os[i]); M e = m; os.push_back(r); ms.push_back(e); } break;
            case 6: { unsigned j = mc::choose(os.size(), "other"); mc::trace("%u = %u", i, j); os[i] = os[j]; M e = ms[j]; m = e; break; }
        }
        std::string st;
        for (unsigned j = 0; j < os.size(); ++j)
        {
            check(os[j], ms[j], names[j], depth == 2);
            st += canon(ms[j]) + "|";
        }
        mc::state(st);
    }
    for (unsigned j = 0; j < n; ++j) MC_CHECK(mem[j] == vals[j], "the original sequence has changed");
}

/// Long sequences
void longer()
{
    static const std::vector<unsigned> sizes { 6, 15, 16, 17, 63, 64, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 70000 };
    unsigned n = mc::pick(sizes, "size");
    std::vector<unsigned> counts { 0, 1, 2, 7, 63, 64, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 32767, 32768, 65534, 65535, 65536, 65537, n / 2, n - 2, n - 1, n, n + 1, n * 2, INT_MAX, UINT_MAX, UINT_MAX - n };
    std::unique_ptr<Varcode[]> mem(new Varcode[n]);
    for (unsigned i = 0; i < n; ++i) mem[i] = (Varcode)(i * 40503u + (i >> 12));
    const Opcodes all(mem.get(), mem.get() + n);
    auto same = [&](const Opcodes& o, uint64_t from, uint64_t len, const char* what, unsigned k, unsigned l) {
        mc::step();
        if (len == 0) { MC_CHECK(o.empty() && o.size() == 0 && o.head() == 0 && o[0] == 0, "%s of %u with %u and %u has %u items", what, n, k, l, o.size()); return; }
        MC_CHECK(o.size() == len && !o.empty(), "%s of %u with %u and %u has %u items instead of %u", what, n, k, l, o.size(), (unsigned)len);
        MC_CHECK(o.begin == mem.get() + from && o.end == mem.get() + from + len, "%s of %u with %u and %u gives other items", what, n, k, l);
        for (uint64_t i: { (uint64_t)0, len / 2, len - 1 }) MC_CHECK(o[i] == mem[from + i], "%s of %u with %u and %u: item %u is wrong", what, n, k, l, (unsigned)i);
        MC_CHECK(o[len] == 0 && o.head() == mem[from], "%s of %u with %u and %u: wrong end", what, n, k, l);
    };
    unsigned k = mc::pick(counts, "first");
    uint64_t from = k < n ? k : n;
    same(all.sub(k), from, n - from, "sub", k, 0);
    for (unsigned l: counts) same(all.sub(k, l), from, l < n - from ? l : n - from, "sub", k, l);
    Opcodes rest(all), left(nullptr, nullptr);
    bool raised = false;
    try { left = rest.pop_left(k); } catch (error_consistency&) { raised = true; }
    MC_CHECK(raised == (k > n), "pop_left(%u) of %u %s", k, n, raised ? "raised an error" : "did not raise an error");
    same(rest, raised ? 0 : k, raised ? n : n - k, "what pop_left leaves", k, 0);
    if (!raised) same(left, 0, k, "pop_left", k, 0);
    if (!raised) same(rest.next(), std::min<uint64_t>(k + 1, n), k + 1 < n ? n - k - 1 : 0, "next after pop_left", k, 0);
    mc::state(mc::fmt("%u %u", n, k));
}

}

void mc::setup()
{
    mc::add("long", longer);
    mc::add("histories of 2 operations on up to 5 descriptors", []{ histories(2, 5); });
    mc::add("histories of 3 operations", []{ histories(3, mc::thorough() ? 3 : 2); });
}
