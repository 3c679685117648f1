// C29: the header of BUFR messages of every edition is decoded as it is written.
//
// Messages are written byte by byte from the layout of the sections of each edition, with section lengths, reserved bytes and
// padding that this library never writes but that other ones do.
#include "bufrmodel.h"
using namespace bm;

const char* mc::property = "C29";

namespace {

/// All that can vary in the framing of a message
struct Frame
{
    unsigned edition = 4;
    // Standard bytes of section 1 after its length
    std::vector<unsigned> s1;
    std::string local;      // after the standard bytes of section 1
    bool optional = false;
    unsigned s2_reserved = 0;
    std::string s2;
    unsigned s3_reserved = 0, subsets = 1, flags = 0x80;
    Codes dds { B(1, 3), B(1, 12) };
    std::string s3_pad;
    unsigned s4_reserved = 0;
    std::string s4, s4_pad;
    unsigned ends[6];

    Frame(unsigned edition) : edition(edition)
    {
        // mt, centre, subcentre, update, flags, category, subcategory, subcategory local, mtv, mtvl, year, month, day, hour, minute, second
        if (edition == 4) s1 = { 0, 0, 9, 0, 7, 3, 0, 1, 2, 4, 200, 0, 2020 >> 8, 2020 & 0xff, 1, 2, 3, 4, 5 };
        // mt, subcentre, centre, update, flags, category, subcategory, mtv, mtvl, year, month, day, hour, minute
        else s1 = { 0, 7, 9, 3, 0, 1, 4, 200, 0, 20, 1, 2, 3, 4 };
    }
    unsigned flags_pos() const { return edition == 4 ? 6 : 4; }
    unsigned mt_pos() const { return 0; }
    unsigned mtv_pos() const { return edition == 4 ? 10 : 7; }

    std::string bytes()
    {
        std::string m("BUFR\0\0\0", 7);
        auto byte = [&](unsigned v) { m.push_back((char)v); };
        auto num = [&](unsigned v, unsigned n) { while (n--) byte(v >> (n * 8)); };
        byte(edition);
        ends[0] = m.size();
        num(3 + s1.size() + local.size(), 3);
        for (unsigned i = 0; i < s1.size(); ++i) byte(i == flags_pos() ? (s1[i] & 0x7f) | (optional ? 0x80 : 0) : s1[i]);
        m += local;
        ends[1] = m.size();
        if (optional) { num(4 + s2.size(), 3); byte(s2_reserved); m += s2; }
        ends[2] = m.size();
        num(7 + 2 * dds.size() + s3_pad.size(), 3); byte(s3_reserved); num(subsets, 2); byte(flags);
        for (auto c: dds) num(c, 2);
        m += s3_pad;
        ends[3] = m.size();
        num(4 + s4.size() + s4_pad.size(), 3); byte(s4_reserved); m += s4 + s4_pad;
        ends[4] = m.size();
        m += "7777";
        ends[5] = m.size();
        for (unsigned i = 0; i < 3; ++i) m[4 + i] = (char)(m.size() >> (16 - 8 * i));
        return m;
    }
    Header header() const
    {
        Header h;
        h.edition = edition;
        const auto& s = s1;
        h.mt = s[0];
        if (edition == 4)
        {
            h.centre = s[1] << 8 | s[2]; h.subcentre = s[3] << 8 | s[4]; h.update = s[5];
            h.category = s[7]; h.subcategory = s[8]; h.subcategory_local = s[9]; h.mtv = s[10]; h.mtvl = s[11];
            h.year = s[12] << 8 | s[13]; h.month = s[14]; h.day = s[15]; h.hour = s[16]; h.minute = s[17]; h.second = s[18];
        } else {
            h.subcentre = s[1]; h.centre = s[2]; h.update = s[3];
            h.category = s[5]; h.subcategory_local = s[6]; h.mtv = s[7]; h.mtvl = s[8];
            h.year = s[9] <= 50 ? 2000 + s[9] : 1900 + s[9]; h.month = s[10]; h.day = s[11]; h.hour = s[12]; h.minute = s[13];
        }
        return h;
    }
};

bool plain_tables(const Frame& f) { Frame base(f.edition); return f.s1[f.mt_pos()] == 0 && f.s1[f.mtv_pos()] == 200; }

void check(Frame& f, const std::function<void(const BufrBulletin&)>& data)
{
    std::string raw = f.bytes();
    Header h = f.header();
    mc::trace("message: %s", mc::hex(raw).c_str());
    mc::state(raw);
    for (int full = 0; full < 2; ++full)
    {
        std::unique_ptr<BufrBulletin> b;
        mc::step();
        const char* what = full ? "decoding" : "decoding the header";
        std::string o = outcome_of([&]{ b = full ? BufrBulletin::decode(raw, "a-file", 1234) : BufrBulletin::decode_header(raw, "a-file", 1234); });
        mc::outcome(o.substr(0, 8));
        if (!b)
        {
            // There may be no tables, or the data may not make sense with other tables
            if (plain_tables(f)) mc::fail("%s fails: %s", what, o.c_str());
            if (!full && f.s1[f.mt_pos()] == 0 && f.s1[f.mtv_pos()] <= 200) mc::fail("%s fails: %s", what, o.c_str());
            continue;
        }
        Header hh = h; hh.optional.clear();
        std::string optional = f.optional ? f.s2 : "";
        if (b->optional_section != optional) mc::fail("%s: the optional section is %s instead of %s", what, mc::hex(b->optional_section).c_str(), mc::hex(optional).c_str());
        std::string got = b->optional_section;
        b->optional_section.clear();
        check_header(*b, hh, f.dds, (f.flags & 0x40) != 0, what);
        if (b->fname != "a-file" || b->offset != 1234) mc::fail("%s: the message comes from %s:%zu", what, b->fname.c_str(), (size_t)b->offset);
        if (full)
        {
            for (unsigned i = 0; i < 6; ++i) if (b->section_end[i] != f.ends[i]) mc::fail("section %u ends at %u instead of %u", i, b->section_end[i], f.ends[i]);
            if (b->subsets.size() != f.subsets) mc::fail("there are %zu subsets instead of %u", b->subsets.size(), f.subsets);
            if (plain_tables(f)) data(*b);
        }
        else if (b->subsets.size() != 0) mc::fail("there are subsets decoding only the header");
    }
}

const std::vector<unsigned> some { 0, 1, 0x37, 0x7f, 0x80, 0xff };

/// Data for the given number of subsets: B01003 (3 bits, scale 1, reference -2) and B01012 (2 characters)
void fill(Frame& f)
{
    Bits b;
    if (f.flags & 0x40)
    {
        b.add(1, 3); b.add(0, 6);
        b.add('A' << 8 | 'Z', 16); b.add(0, 6);
    }
    else
        for (unsigned i = 0; i < f.subsets; ++i) { b.add(i % 7, 3); b.add('A', 8); b.add('0' + i % 10, 8); }
    f.s4 = b.buf;
}
void check_filled(Frame& f)
{
    fill(f);
    check(f, [&](const BufrBulletin& b) {
        for (unsigned i = 0; i < f.subsets; ++i)
        {
            const Subset& s = b.subsets[i];
            bool c = f.flags & 0x40;
            std::string str = c ? "AZ" : std::string("A") + (char)('0' + i % 10);
            int num = (c ? 1 : (int)(i % 7)) - 2;
            MC_CHECK(s.size() == 2, "subset %u has %zu variables", i, s.size());
            MC_CHECK(s[0].code() == B(1, 3) && s[0].enqi() == num, "subset %u has value %d instead of %d", i, s[0].enqi(), num);
            MC_CHECK(s[1].code() == B(1, 12) && s[1].enqs() == str, "subset %u has value %s instead of %s", i, s[1].enqs().c_str(), str.c_str());
        }
    });
}

bool usable(Frame& f)
{
    if (f.edition != 4)
    {
        // What years of century above 100 mean is not specified
        if (f.s1[9] > 100) return false;
    }
    return true;
}

/// Each byte of the header, with all values
void bytes1()
{
    Frame f(2 + mc::choose(3, "edition"));
    unsigned pos = mc::choose(f.s1.size(), "position");
    f.s1[pos] = mc::choose(256, "value");
    f.optional = mc::flag("optional section");
    if (f.optional) f.s2 = "opt!";
    if (mc::flag("local data")) f.local = std::string("\x80\xff\x01", 3);
    if (!usable(f)) mc::prune();
    check_filled(f);
}
/// All pairs of bytes of the header
void bytes2()
{
    Frame f(2 + mc::choose(3, "edition"));
    unsigned a = mc::choose(f.s1.size(), "position");
    unsigned b = mc::choose(f.s1.size(), "position");
    if (b <= a) mc::prune();
    auto value = [&]{ return mc::thorough() ? mc::choose(64, "value") * 4 + 3 : mc::pick(some, "value"); };
    f.s1[a] = value(); f.s1[b] = value();
    if (!usable(f)) mc::prune();
    check_filled(f);
}
/// Lengths and reserved bytes of all the sections
void lengths()
{
    Frame f(2 + mc::choose(3, "edition"));
    const unsigned max = mc::thorough() ? 5 : 4;
    static const std::string junk("\xff\x37\x00\x80\x42\x55\x46\x52\x00\x00\x01", 11);
    f.local = junk.substr(0, mc::choose(max, "local data"));
    unsigned opt = mc::choose(max + 2, "optional section");
    if (opt) { f.optional = true; f.s2 = junk.substr(1, opt - 1); f.s2_reserved = mc::pick(std::vector<unsigned>{0, 1, 0xff}, "reserved byte of section 2"); }
    if (mc::flag("padding of section 3")) f.s3_pad = mc::flag("zero") ? std::string("\0", 1) : "\xff";
    f.s4_pad = junk.substr(2, mc::choose(max, "padding of section 4"));
    f.s3_reserved = mc::flag("reserved byte of section 3") ? 0xff : 0;
    f.s4_reserved = mc::flag("reserved byte of section 4") ? 0xff : 0;
    f.subsets = 1 + mc::choose(2, "subsets");
    check_filled(f);
}
/// All the flags of section 3, and many subsets
void flags()
{
    Frame f(2 + mc::choose(3, "edition"));
    f.flags = mc::choose(256, "flags");
    f.subsets = mc::pick(std::vector<unsigned>{1, 2, 3, 255, 256, 257, 1000}, "subsets");
    f.optional = mc::flag("optional section");
    f.s1[f.flags_pos()] = mc::flag("other flags of section 1") ? 0x7f : 0;
    check_filled(f);
}
/// Long sections
void sizes()
{
    Frame f(2 + mc::choose(3, "edition"));
    static const std::vector<unsigned> n { 0, 1, 127, 128, 250, 255, 256, 257, 1000, 65530, 65535, 65536, 70000 };
    unsigned size = mc::pick(n, "size");
    std::string junk; for (unsigned i = 0; i < size; ++i) junk += (char)(i * 7 + 1);
    switch (mc::choose(3, "section"))
    {
        case 0: f.local = junk; break;
        case 1: f.optional = true; f.s2 = junk; f.s2_reserved = mc::pick(some, "reserved"); break;
        case 2: f.s4_pad = junk; break;
    }
    check_filled(f);
}
/// All the ways to write descriptors, and how many there are
void descriptors()
{
    Frame f(2 + mc::choose(3, "edition"));
    unsigned n = 1 + mc::choose(mc::thorough() ? 300 : 130, "number of descriptors");
    f.dds.clear();
    for (unsigned i = 0; i < n; ++i) f.dds.push_back(i % 2 ? B(1, 1) : B(1, 2));
    if (mc::flag("padding")) f.s3_pad = std::string(1, '\0');
    Bits b;
    for (unsigned i = 0; i < n; ++i) if (i % 2) b.add(i / 2 % 2 == 0 ? 0 : 0, 1); else b.add(i / 2 % 3, 2);
    f.s4 = b.buf;
    check(f, [&](const BufrBulletin& b) {
        MC_CHECK(b.subsets[0].size() == n, "there are %zu variables instead of %u", b.subsets[0].size(), n);
        for (unsigned i = 0; i < n; i += 2) MC_CHECK(b.subsets[0][i].enqi() == (int)(i / 2 % 3), "variable %u has value %d", i, b.subsets[0][i].enqi());
    });
}
/// All descriptors are found in the header as they are
void any_descriptor()
{
    Frame f(2 + mc::choose(3, "edition"));
    unsigned hi = mc::choose(256, "first byte");
    f.dds.clear();
    for (unsigned i = 0; i < 256; ++i) f.dds.push_back(hi << 8 | i);
    if (mc::flag("padding")) f.s3_pad = std::string(1, '\0');
    std::string raw = f.bytes();
    auto b = BufrBulletin::decode_header(raw);
    mc::step();
    if (b->datadesc != f.dds) mc::fail("descriptors are %s", str(b->datadesc).c_str());
}

}

void mc::setup()
{
    install_tables();
    setenv("WREPORT_TABLES", (mc::repo() + "/tables").c_str(), 1);
    Options o;
    add("bytes-1", bytes1, o);
    add("bytes-2", bytes2, o);
    add("lengths", lengths, o);
    add("flags", flags, o);
    add("sizes", sizes, o);
    add("descriptors", descriptors, o);
    add("any-descriptor", any_descriptor, o);
}
