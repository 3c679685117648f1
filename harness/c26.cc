// C26: header only, verbose and plain decoding agree, and printing is harmless.
#include "crexmodel.h"
using namespace cm;

const char* mc::property = "C26";

namespace {

FILE* devnull()
{
    static FILE* f = fopen("/dev/null", "w");
    return f;
}

std::string kind(const std::string& outcome) { return outcome.substr(0, outcome.find(':')); }

/// Like dump, without undefined attributes
std::string dump_defined(const Var& v, bool& undef)
{
    Var c(v);
    c.clear_attrs();
    std::string r = dump(c);
    for (const Var* a = v.next_attr(); a; a = a->next_attr())
        if (a->isset()) r += "{" + dump_defined(*a, undef) + "}";
        else undef = true;
    return r;
}
std::string dump_defined(const Bulletin& b, bool& undef)
{
    std::string r;
    for (auto& s: b.subsets) { r += "subset:\n"; for (auto& v: s) r += dump_defined(v, undef) + "\n"; }
    return r;
}

std::string printed(const std::function<void(FILE*)>& f, std::string& outcome)
{
    char* buf = nullptr; size_t size = 0;
    FILE* out = open_memstream(&buf, &size);
    outcome = outcome_of([&]{ f(out); });
    fclose(out);
    std::string r(buf, size);
    free(buf);
    return r;
}

/// True if some of the descriptors were not visited decoding
bool skipped(const Bulletin& b)
{
    for (auto& s: b.subsets)
        for (auto& v: s) if (WR_VAR_F(v.code()) == 0 && WR_VAR_X(v.code()) == 31 && v.enq(0) == 0) return true;
    return false;
}

/// Print in all ways
void print(const Bulletin& b, bool header_only)
{
    std::string before = dump_subsets(b) + str(b.datadesc), res;
    std::string text = printed([&](FILE* out) { b.print(out); }, res);
    if (res != "ok") mc::fail("print failed: %s", res.c_str());
    if (text.empty()) mc::fail("print shows nothing");
    // All that there is gets printed
    for (size_t i = 0, pos = 0; i < b.subsets.size(); ++i)
        for (size_t j = 0; j < b.subsets[i].size(); ++j)
        {
            pos = text.find(mc::fmt("[%zu][%zu]", i, j), pos);
            if (pos == std::string::npos) mc::fail("print does not show variable %zu of subset %zu", j, i);
        }
    text = printed([&](FILE* out) { b.print_structured(out); }, res);
    if (res != "ok") mc::fail("print_structured failed: %s", res.c_str());
    text = printed([&](FILE* out) { b.print_datadesc(out, 2); }, res);
    // The descriptors that were not used may be wrong
    if (res != "ok" && !header_only && !skipped(b)) mc::fail("print_datadesc failed: %s", res.c_str());
    text = printed([&](FILE* out) { b.print_details(out); }, res);
    if (res != "ok") mc::fail("print_details failed: %s", res.c_str());
    mc::step(4);
    if (dump_subsets(b) + str(b.datadesc) != before) mc::fail("printing changed the bulletin");
}

template<typename B> std::string dump_all(const B& b) { return dump_header(b) + "\n" + dump_subsets(b); }

void check_bufr(const std::string& in, bool small = true)
{
    if (mc::tracing) mc::trace("input: %s", mc::hex(in).c_str());
    Quiet quiet;
    std::unique_ptr<BufrBulletin> h, b, v, u, hu;
    auto opts = BufrCodecOptions::create();
    std::string rb = outcome_of([&] { b = BufrBulletin::decode(in); });
    std::string rh = outcome_of([&] { h = BufrBulletin::decode_header(in); });
    std::string rv = outcome_of([&] { v = BufrBulletin::decode_verbose(in, devnull()); });
    std::string ro;
    {
        std::unique_ptr<BufrBulletin> o;
        ro = outcome_of([&] { o = BufrBulletin::decode(in, *opts); });
        if (kind(ro) != kind(rb)) mc::fail("decoding says %s, with default options %s", rb.c_str(), ro.c_str());
        if (o && dump_all(*o) != dump_all(*b)) mc::fail("decoding with default options gives something else");
    }
    opts->decode_adds_undef_attrs = true;
    std::string ru = outcome_of([&] { u = BufrBulletin::decode(in, *opts); });
    std::string rhu = outcome_of([&] { hu = BufrBulletin::decode_header(in, *opts); });
    mc::step(6);
    mc::outcome(kind(rh) + "," + kind(rb));
    if (mc::tracing) mc::trace("plain: %s\nheader: %s\nverbose: %s\nundefined attributes: %s", rb.c_str(), rh.c_str(), rv.c_str(), ru.c_str());
    if (kind(rv) != kind(rb)) mc::fail("decoding says %s, verbose decoding %s", rb.c_str(), rv.c_str());
    if (kind(ru) != kind(rb)) mc::fail("decoding says %s, and with undefined attributes %s", rb.c_str(), ru.c_str());
    if (kind(rhu) != kind(rh)) mc::fail("decoding the header says %s, and with undefined attributes %s", rh.c_str(), rhu.c_str());
    if (!h && kind(rb) != kind(rh)) mc::fail("decoding says %s, and of the header alone %s", rb.c_str(), rh.c_str());
    if (h)
    {
        if (!h->subsets.empty()) mc::fail("decoding the header gives data");
        if (dump_all(*hu) != dump_all(*h)) mc::fail("header is different when asking for undefined attributes");
        if (small) print(*h, true);
    }
    if (!b) return;
    std::string db = dump_subsets(*b);
    mc::state(mc::hash(dump_header(*b) + db));
    if (dump_header(*h) != dump_header(*b)) mc::fail("header decoded alone differs: %s: %s", dump_header(*h).c_str(), dump_header(*b).c_str());
    if (h->tables.btable != b->tables.btable || h->tables.dtable != b->tables.dtable) mc::fail("header decoded alone uses other tables");
    if (dump_header(*v) != dump_header(*b) || dump_subsets(*v) != db) mc::fail("verbose decoding gives something else: %s\n%s\ninstead of %s\n%s", dump_header(*v).c_str(), dump_subsets(*v).c_str(), dump_header(*b).c_str(), db.c_str());
    bool had = false, has = false;
    std::string defined = dump_defined(*b, had);
    if (had) mc::fail("undefined attributes without asking for them: %s", db.c_str());
    if (dump_header(*u) != dump_header(*b) || dump_defined(*u, has) != defined) mc::fail("asking for undefined attributes changes the rest: %s\ninstead of %s", dump_subsets(*u).c_str(), db.c_str());
    mc::outcome(has ? "undefined attributes" : "no undefined attributes");
    if (small)
    {
        print(*b, false);
        if (has) print(*u, false);
    }
}

void check_crex(const std::string& in)
{
    if (mc::tracing) mc::trace("input: %s", mc::esc(in).c_str());
    Quiet quiet;
    std::unique_ptr<CrexBulletin> h, b, v;
    std::string rb = outcome_of([&] { b = CrexBulletin::decode(in); });
    std::string rh = outcome_of([&] { h = CrexBulletin::decode_header(in); });
    std::string rv = outcome_of([&] { v = CrexBulletin::decode_verbose(in, devnull()); });
    mc::step(3);
    mc::outcome(kind(rh) + "," + kind(rb));
    if (kind(rv) != kind(rb)) mc::fail("decoding says %s, verbose decoding %s", rb.c_str(), rv.c_str());
    if (!h && kind(rb) != kind(rh)) mc::fail("decoding says %s, and of the header alone %s", rb.c_str(), rh.c_str());
    if (h) print(*h, true);
    if (!b) return;
    std::string db = dump_subsets(*b);
    mc::state(mc::hash(dump_header(*b) + db));
    if (!h->subsets.empty()) mc::fail("decoding the header gives data");
    if (dump_header(*h) != dump_header(*b)) mc::fail("header decoded alone differs: %s: %s", dump_header(*h).c_str(), dump_header(*b).c_str());
    if (h->tables.btable != b->tables.btable || h->tables.dtable != b->tables.dtable) mc::fail("header decoded alone uses other tables");
    if (dump_header(*v) != dump_header(*b) || dump_subsets(*v) != db) mc::fail("verbose decoding gives something else: %s\n%s\ninstead of %s\n%s", dump_header(*v).c_str(), dump_subsets(*v).c_str(), dump_header(*b).c_str(), db.c_str());
    print(*b, false);
}

/// Messages that make use of everything
const std::vector<Codes> items {
    {B(1, 3)}, {B(1, 12)}, {R(1, 0), B(31, 1), B(1, 2)}, {R(2, 2), B(1, 3), B(1, 11)}, {R(3, 0), B(31, 0), R(1, 0), B(31, 1), B(1, 2)},
    {D(1, 4)}, {D(1, 5)}, {C(1, 130)}, {C(1, 0)}, {C(2, 129)}, {C(3, 6), B(1, 3), C(3, 255)}, {C(3, 0)},
    {C(4, 2), B(31, 21)}, {C(4, 0)}, {C(4, 7), B(31, 21), B(1, 2), C(4, 0)}, {C(5, 2)}, {C(6, 5), B(1, 192)}, {C(6, 12), B(63, 1)}, {C(7, 1)}, {C(8, 3)},
    {C(22, 0), R(1, 1), B(31, 31), B(33, 7)}, {C(22, 0), R(1, 0), B(31, 1), B(31, 31), B(1, 31), R(1, 1), B(33, 7)}, {C(23, 0), R(1, 1), B(31, 31), C(23, 255)},
    {C(36, 0)}, {C(37, 0)}, {C(37, 255)}, {B(33, 7)}, {C(22, 0), C(37, 0), B(33, 50)}, {R(1, 0), B(31, 1), C(23, 255)},
};
void programs(unsigned n, unsigned nsub, bool compressed)
{
    Codes dds;
    for (unsigned i = 0; i < n; ++i) { const Codes& c = mc::pick(items, "item"); dds.insert(dds.end(), c.begin(), c.end()); }
    if (mc::flag("first data")) dds.insert(dds.begin(), B(1, 2));
    if (mc::flag("more data")) dds.push_back(B(1, 13));
    // Also what is not valid
    Made m = make(custom(), dds, nsub, [&](ChoiceSource& s, unsigned) {
        s.rich = 0; s.af_rich = 1; s.counts = {0, 2}; s.sigs = {1}; s.refs = {-1};
    }, compressed);
    if (!compressed) { check_bufr(m.plain()); return; }
    if (m.invalid) mc::prune();
    Bits bits;
    try { write_compressed(bits, m.fields, [](unsigned, const char*) { return 0u; }); } catch (Unspec&) { mc::prune(); }
    check_bufr(message(m.h, m.dds, m.fields.size(), true, bits));
}

/// Anything in the data section
const Codes codes {
    B(1, 3), B(1, 12), B(1, 250), B(31, 1), B(31, 21), B(31, 31), B(33, 7),
    R(1, 0), R(1, 2), R(2, 0), R(63, 255), C(1, 130), C(3, 6), C(3, 255), C(4, 0), C(4, 2), C(4, 33), C(5, 0), C(5, 2), C(6, 5), C(6, 255),
    C(7, 9), C(8, 1), C(9, 32), C(22, 0), C(23, 0), C(23, 255), C(24, 0), C(36, 0), C(37, 0), C(37, 255), D(1, 4), D(1, 7), D(63, 255),
};
void raw_programs(unsigned n)
{
    Codes dds { B(1, 2) };
    for (unsigned i = 0; i < n; ++i) dds.push_back(mc::pick(codes, "descriptor"));
    Bits bits;
    static const std::vector<std::string> data { std::string(24, '\0'), std::string(24, '\xff'), std::string("\x12\x34\0\0\1\0\2\0\0\0\0\0\0\0", 14), "abcdefghijkl" };
    const std::string& d = mc::pick(data, "data");
    bits.add_bytes(d, d.size() * 8);
    check_bufr(message(Header(), dds, 1 + mc::choose(2, "subsets"), mc::flag("compressed"), bits));
}

struct Base { Codes dds; unsigned nsub; unsigned count; bool compressed; unsigned edition; std::string optional; };
const std::vector<Base> bases {
    { {B(1, 3), B(1, 12)}, 2, 1, true, 4, "" },
    { {B(1, 2), R(2, 0), B(31, 1), B(1, 11), B(1, 3), B(1, 8)}, 2, 2, false, 3, "ab" },
    { {B(1, 2), B(1, 3), C(22, 0), C(36, 0), R(1, 0), B(31, 1), B(31, 31), B(1, 31), R(1, 0), B(31, 1), B(33, 7), C(22, 0), C(37, 0), B(33, 2)}, 2, 2, true, 4, "" },
    { {C(4, 2), B(31, 21), B(1, 2), C(4, 0), C(5, 2), C(6, 5), B(1, 250), C(1, 130), B(1, 4)}, 2, 1, false, 2, "" },
    { {B(1, 2), C(23, 0), R(1, 1), B(31, 31), C(23, 255), D(1, 5), C(3, 6), B(1, 3), C(3, 255), B(1, 3)}, 1, 1, false, 4, "" },
};
std::string base(unsigned i)
{
    static std::map<unsigned, std::string> cache;
    std::string& r = cache[i];
    if (!r.empty()) return r;
    const Base& b = bases[i];
    Made m; m.dds = b.dds; m.h.edition = b.edition; m.h.optional = b.optional;
    for (unsigned s = 0; s < b.nsub; ++s)
    {
        PatternSource src(b.count, 0); src.salt = s;
        Model model(custom(), src);
        model.run(b.dds);
        m.fields.push_back(src.fields);
    }
    if (!b.compressed) return r = m.plain();
    Bits bits;
    write_compressed(bits, m.fields, [](unsigned, const char*) { return 0u; });
    return r = message(m.h, m.dds, m.fields.size(), true, bits);
}
void truncated()
{
    std::string t = base(mc::choose(bases.size(), "message"));
    t.resize(mc::choose(t.size() + 1, "length"));
    if (mc::flag("length fixed") && t.size() >= 8) { t[4] = 0; t[5] = t.size() >> 8; t[6] = t.size(); }
    check_bufr(t);
}
void changed()
{
    std::string t = base(mc::choose(bases.size(), "message"));
    size_t pos = mc::choose(t.size(), "position");
    static const std::vector<unsigned> bytes { 0, 1, 2, 3, 4, 8, 0x10, 0x20, 0x3f, 0x40, 0x55, 0x7f, 0x80, 0xaa, 0xc0, 0xfe, 0xff };
    t[pos] = mc::thorough() ? mc::choose(256, "byte") : mc::pick(bytes, "byte");
    check_bufr(t);
}
/// Headers that are at the limits
void headers()
{
    Made m;
    m.dds = {B(1, 2), B(1, 12)};
    PatternSource src(1, 0);
    Model model(custom(), src);
    model.run(m.dds);
    m.fields.push_back(src.fields);
    Header& h = m.h;
    h.edition = 2 + mc::choose(3, "edition");
    static const std::vector<unsigned> v { 0, 1, 99, 100, 127, 128, 200, 254, 255 };
    unsigned x = mc::pick(v, "value"), y = mc::pick(v, "value");
    switch (mc::choose(6, "fields"))
    {
        case 0: h.centre = x; h.subcentre = y; break;
        case 1: h.category = x; h.subcategory = y; break;
        case 2: h.subcategory_local = x; h.update = y; break;
        case 3: h.mtvl = x; h.minute = y; break;
        case 4: h.year = 1900 + x; h.month = y; break;
        case 5: h.day = x; h.optional = std::string(y, 'x'); break;
    }
    check_bufr(m.plain());
}

std::vector<std::string> files, cfiles;
void samples()
{
    std::string raw = slurp(mc::pick(files, "file"));
    if (raw.size() > 1000000) mc::prune();
    check_bufr(raw, raw.size() < 5000 || mc::thorough());
}
void samples_cut()
{
    std::string raw = slurp(mc::pick(files, "file"));
    if (raw.size() > 3000 && !mc::thorough()) mc::prune();
    unsigned n = mc::thorough() ? 32 : 8;
    raw.resize(raw.size() * mc::choose(n, "cut") / n);
    check_bufr(raw);
}

void crex_templates(unsigned n)
{
    static const std::vector<Codes> parts { {B(1, 2)}, {B(1, 12)}, {R(1, 0), B(1, 3)}, {R(2, 2), B(1, 1), B(1, 13)}, {R(3, 0), B(1, 2), R(1, 0), B(1, 11)}, {D(1, 4)}, {D(1, 5)}, {B(2, 2)}, {B(1, 250)}, {D(63, 255)}, {R(1, 0), B(31, 1), B(1, 2)}, {C(1, 130)}, {C(4, 2), B(31, 21)}, {C(22, 0), R(1, 1), B(31, 31)} };
    Codes dds;
    for (unsigned i = 0; i < n; ++i) { const Codes& c = mc::pick(parts, "part"); dds.insert(dds.end(), c.begin(), c.end()); }
    // Operators and unknown elements have no values, and whatever is made of that is fine
    Codes known;
    for (auto c: dds) if (WR_VAR_F(c) != 2 && c != B(31, 21) && c != B(31, 31) && c != B(31, 1)) known.push_back(c);
    CMade m;
    try { m = make_crex(custom_crex(), known, 1 + mc::choose(2, "subsets"), [&](CSource& s, unsigned) { s.rich = 1; s.rich_fields = 2; s.counts = {0, 2}; }); }
    catch (mc::Pruned&) { throw; }
    m.dds = dds;
    m.h.check_digit = mc::flag("check digit");
    check_crex(text(m));
}
std::string crex_base(unsigned i)
{
    static const std::vector<Codes> templates { {B(1, 1), B(1, 12)}, {B(1, 3), R(2, 0), B(1, 11), B(1, 2), B(1, 13)}, {D(1, 4), R(1, 2), B(1, 10), D(1, 5)} };
    CMade m; m.dds = templates[i]; m.h.check_digit = i == 1;
    for (unsigned s = 0; s < 2; ++s)
    {
        CSource src; src.salt = s; src.rich = 0; src.counts = {1};
        CModel model(custom_crex(), src);
        model.run(m.dds);
        m.fields.push_back(src.fields);
    }
    return text(m);
}
void crex_changed()
{
    std::string t = crex_base(mc::choose(3, "message"));
    size_t pos = mc::choose(t.size(), "position");
    static const std::string alphabet = std::string(" \n+/-0179ABCDERST\t.") + '\0' + '\xff';
    switch (mc::choose(4, "change"))
    {
        case 0: t[pos] = alphabet[mc::choose(alphabet.size(), "character")]; break;
        case 1: t.insert(pos, 1, alphabet[mc::choose(alphabet.size(), "character")]); break;
        case 2: t.erase(pos, 1 + mc::choose(8, "length")); break;
        case 3: t.resize(pos); break;
    }
    check_crex(t);
}
void crex_samples()
{
    std::string raw = slurp(mc::pick(cfiles, "file"));
    unsigned n = 8;
    raw.resize(raw.size() * (n - mc::choose(n, "cut")) / n);
    check_crex(raw);
}

}

void mc::setup()
{
    install_tables();
    install_crex_tables();
    custom(); custom_crex();
    files = test_files("bufr");
    cfiles = test_files("crex");
    Options o; o.timeout = 60;
    bool th = thorough();
    for (unsigned n = 1; n <= (th ? 3 : 2); ++n)
    {
        add(mc::fmt("programs-%u", n), [n]{ programs(n, 1, false); }, o);
        add(mc::fmt("programs-%u-subsets", n), [n]{ programs(n, 2, false); }, o);
        add(mc::fmt("programs-%u-compressed", n), [n]{ programs(n, 2, true); }, o);
    }
    for (unsigned n = 0; n <= (th ? 3 : 2); ++n) add(mc::fmt("raw-programs-%u", n), [n]{ raw_programs(n); }, o);
    add("truncated", truncated, o);
    add("changed", changed, o);
    add("headers", headers, o);
    add("samples", samples, o);
    add("samples-cut", samples_cut, o);
    for (unsigned n = 1; n <= (th ? 3 : 2); ++n) add(mc::fmt("crex-templates-%u", n), [n]{ crex_templates(n); }, o);
    add("crex-changed", crex_changed, o);
    add("crex-samples", crex_samples, o);
}
