# Planted bugs: executed by seeds.py

seed("c08-binary-copy", "C08", "copying a binary variable with a zero byte inside its value",
 "a copy of the variable has a different value",
 [("wreport/var.cc", "            memcpy(m_value.c, var.m_value.c, m_info->len + 1);\n",
   "            strncpy(m_value.c, var.m_value.c, m_info->len + 1);\n")],
 '''int main() {
    _Varinfo info; info.set_binary(WR_VAR(0, 1, 1), "TEST", 32);
    Var a(&info); a.sets(std::string("\\x01\\0\\x02\\x03", 4));
    Var b(a);
    EXPECT(b == a); EXPECT(b.enqs() == a.enqs());
}''')

seed("c09-silent-stale", "C09", "silent domain errors, and a variable that already has a value when it is set to a not-a-number",
 "the old value stays instead of the variable being unset",
 [("wreport/var.cc", """    if (std::isnan(val))
    {
        if (options::var_silent_domain_errors)
        {
            unset();
            return;""", """    if (std::isnan(val))
    {
        if (options::var_silent_domain_errors)
        {
            return;""")],
 '''int main() {
    auto o = options::local_override(options::var_silent_domain_errors, true);
    Var v(Vartable::get_bufr("B0000000000000014000")->query(WR_VAR(0, 12, 101)), 280.0);
    v.setd(NAN);
    EXPECT(!v.isset());
}''')

seed("c10-digits", "C10", "an integer value of exactly 100000000 read as a string",
 "the text of the value is wrong",
 [("wreport/var.cc", "            if (x >= 100000000) {\n", "            if (x > 100000000) {\n")],
 '''int main() {
    _Varinfo info; info.set_bufr(WR_VAR(0, 1, 1), "TEST", "NUMERIC", 0, 10, 0, 31);
    Var v(&info, 100000000);
    EXPECT(v.enqs() == "100000000");
    Var w(&info, 100000001); EXPECT(w.enqs() == "100000001");
}''')

seed("c27-sub-len", "C27", "cutting a sequence at a length that stops one short of its end",
 "one descriptor too many is returned",
 [("wreport/opcodes.h", "        else if (begin + skip + len >= end)\n", "        else if (begin + skip + len + 1 >= end)\n")],
 '''int main() {
    std::vector<Varcode> v{1, 2, 3, 4, 5, 6};
    Opcodes o(v);
    EXPECT(o.sub(2, 3).size() == 3); EXPECT(o.sub(2, 4).size() == 4);
}''')

seed("c14-alteration-ref", "C14", "two alterations of the same entry that have the same scale and differ in the reference by exactly the opposite sign",
 "the second request gets the entry altered with the reference of the first",
 [("wreport/vartable.cc", "        if (varinfo.scale == new_scale && varinfo.bit_len == new_bit_len && varinfo.bit_ref == new_bit_ref)\n",
   "        if (varinfo.scale == new_scale && varinfo.bit_len == new_bit_len && std::abs(varinfo.bit_ref) == std::abs(new_bit_ref))\n")],
 '''int main() {
    auto t = Vartable::get_bufr("B0000000000000014000");
    auto a = t->query_altered(WR_VAR(0, 12, 101), 1, 16, 500);
    auto b = t->query_altered(WR_VAR(0, 12, 101), 1, 16, -500);
    EXPECT(a->bit_ref == 500); EXPECT(b->bit_ref == -500);
}''')

# --- BUFR encoding and decoding

BUFR = r'''
static std::unique_ptr<BufrBulletin> mk(int ed, std::vector<Varcode> dd) {
    auto b = BufrBulletin::create();
    b->clear();
    b->edition_number = ed; b->master_table_version_number = 14; b->originating_centre = 0; b->originating_subcentre = 0;
    b->data_category = 0; b->data_subcategory = 255; b->data_subcategory_local = 0;
    b->rep_year = 2020; b->rep_month = 1; b->rep_day = 2; b->rep_hour = 3; b->rep_minute = 4; b->rep_second = 5;
    b->datadesc = dd; b->load_tables();
    return b;
}
'''
RAW = r'''
// Build a BUFR message with the given descriptors and data bits (as a string of 0 and 1)
static std::string raw(std::vector<Varcode> dd, const std::string& bits, int subsets=1, bool compressed=false) {
    auto n = [](unsigned v, int bytes) { std::string r; for (int i = bytes - 1; i >= 0; --i) r += (char)(v >> (8 * i)); return r; };
    std::string data;
    for (size_t i = 0; i < bits.size(); i += 8) { int c = 0; for (size_t j = 0; j < 8; ++j) c = c * 2 + (i + j < bits.size() && bits[i + j] == '1'); data += (char)c; }
    std::string s1 = n(22, 3) + n(0, 1) + n(0, 2) + n(0, 2) + n(0, 1) + n(0, 1) + n(0, 1) + n(255, 1) + n(0, 1) + n(14, 1) + n(0, 1) + n(2020, 2) + n(1, 1) + n(2, 1) + n(3, 1) + n(4, 1) + n(5, 1);
    std::string s3 = n(7 + 2 * dd.size(), 3) + n(0, 1) + n(subsets, 2) + n(compressed ? 0xc0 : 0x80, 1);
    for (auto d: dd) s3 += n(d, 2);
    std::string s4 = n(4 + data.size(), 3) + n(0, 1) + data;
    return "BUFR" + n(8 + s1.size() + s3.size() + s4.size() + 4, 3) + n(4, 1) + s1 + s3 + s4 + "7777";
}
static std::string bits(unsigned v, int n) { std::string r; for (int i = n - 1; i >= 0; --i) r += (v >> i) & 1 ? '1' : '0'; return r; }
'''

seed("c01-year", "C01", "a message of edition 2 or 3 whose year is 2050",
 "the year is decoded as 1950",
 [("wreport/bufr/decoder.cc", "    if (out.rep_year > 50)\n", "    if (out.rep_year >= 50)\n")],
 BUFR + '''int main() {
    auto b = mk(3, {WR_VAR(0, 1, 1)});
    b->rep_year = 2050; b->rep_second = 0;
    b->obtain_subset(0).store_variable_i(WR_VAR(0, 1, 1), 5);
    auto d = BufrBulletin::decode(b->encode());
    EXPECT(d->rep_year == 2050);
}''')

seed("c01-binary-tail", "C01", "an unknown local descriptor whose size is not a multiple of 8 bits",
 "the last bits of the value are not those that were there",
 [("wreport/buffers/bufr.cc", "            add_bits(val[i], len_bits - bi);\n", "            add_bits(val[i] >> (8 - (len_bits - bi)), len_bits - bi);\n")],
 BUFR + RAW + '''int main() {
    auto msg = raw({WR_VAR(2, 6, 12), WR_VAR(0, 63, 255)}, bits(0xa56, 12));
    auto a = BufrBulletin::decode(msg);
    auto b = BufrBulletin::decode(a->encode());
    EXPECT(a->subsets[0][0] == b->subsets[0][0]);
}''')

seed("c02-refval-redefine", "C02", "a template that defines the reference value of the same element twice",
 "the first new reference value is used instead of the last one",
 [("wreport/bufr/decoder.cc", "    c03_refval_overrides[code] = refval;\n", "    c03_refval_overrides.insert(std::make_pair(code, refval));\n")],
 RAW + '''int main() {
    auto msg = raw({WR_VAR(2, 3, 16), WR_VAR(0, 12, 101), WR_VAR(0, 12, 101), WR_VAR(2, 3, 255), WR_VAR(0, 12, 101)}, bits(100, 16) + bits(200, 16) + bits(0, 16));
    auto a = BufrBulletin::decode(msg);
    EXPECT(a->subsets[0].back().enqi() == 200);
}''')

seed("c02-c07-string", "C02", "a width change that stays active together with an override of the length of strings",
 "the element is decoded with the wrong number of bits",
 [("wreport/bulletin/interpreter.cc", "            c_width_change = change;\n", "            c_width_change = change;\n            if (!change) c_string_len_override = 0;\n")],
 RAW + '''int main() {
    std::string s; for (char c: std::string("ABCDEFGHIJ")) s += bits(c, 8);
    auto msg = raw({WR_VAR(2, 8, 4), WR_VAR(2, 1, 130), WR_VAR(0, 1, 1), WR_VAR(2, 1, 0), WR_VAR(0, 1, 15)}, bits(5, 9) + s + std::string(300, '0'));
    auto a = BufrBulletin::decode(msg);
    EXPECT(a->subsets[0][1].enqs() == "ABCD");
}''')

seed("c03-onebit-diff", "C03", "compressed values that differ by one bit, one of them missing",
 "the missing value is decoded as a value",
 [("wreport/bufr/input.cc", "    if (base == all_ones(info->bit_len) || diff == all_ones(diffbits))\n", "    if (base == all_ones(info->bit_len) || (diffbits > 1 && diff == all_ones(diffbits)))\n")],
 RAW + '''int main() {
    auto msg = raw({WR_VAR(0, 1, 1)}, bits(5, 7) + bits(1, 6) + "01", 2, true);
    auto a = BufrBulletin::decode(msg);
    EXPECT(a->subsets[0][0].enqi() == 5); EXPECT(!a->subsets[1][0].isset());
}''')

seed("c03-string-deltas", "C03", "compressed strings whose differences are shorter than the field, where a subset has a shorter string than the one before it",
 "the end of the string of another subset shows up in the value",
 [("wreport/bufr/input.cc", "        str[len] = 0;\n", "        if (bit_len % 8) str[len] = 0;\n")],
 RAW + '''int main() {
    std::string s; for (char c: std::string("XXXXXXXXX")) s += bits(c, 8);
    std::string d; for (char c: std::string("ABCDEF")) d += bits(c, 8);
    auto msg = raw({WR_VAR(0, 1, 11)}, s + bits(3, 6) + d, 2, true);
    auto a = BufrBulletin::decode(msg);
    EXPECT(a->subsets[0][0].enqs() == "ABC"); EXPECT(a->subsets[1][0].enqs() == "DEF");
}''')

seed("c04-section-end", "C04", "a message cut inside its last section",
 "memory past the end of the message is read",
 [("wreport/bufr/input.cc", "        if (sec[section] + pos + datalen > data_len)\n            parse_error(section, pos, \"end of BUFR message while looking for %s\", expected);\n    }\n}",
   "        if (sec[section] + pos > data_len)\n            parse_error(section, pos, \"end of BUFR message while looking for %s\", expected);\n    }\n}")],
 RAW + '''int main() {
    auto msg = raw({WR_VAR(0, 1, 1)}, bits(5, 7));
    // What follows the message in memory
    std::string buf = msg.substr(0, msg.size() - 4);
    buf.reserve(buf.size() + 64); memcpy(&buf[0] + buf.size(), "7777", 4);
    EXPECT(throws([&] { BufrBulletin::decode(buf); }));
}''')

seed("c04-nested-dpb", "C04", "a bitmap that refers to exactly one variable more than there are, when the first one is not data",
 "memory before the beginning of the subset is read",
 [("wreport/bulletin/bitmaps.cc", "            if (s_cur == 0) throw error_consistency(\"bitmap refers to variables before the start of the subset\");\n            --s_cur;\n",
   "            --s_cur;\n")],
 RAW + '''#include <sys/wait.h>
#include <unistd.h>
int main() {
    std::string s; for (char c: std::string("AB")) s += bits(c, 8);
    auto msg = raw({WR_VAR(2, 5, 2), WR_VAR(0, 1, 1), WR_VAR(2, 22, 0), WR_VAR(1, 1, 2), WR_VAR(0, 31, 31), WR_VAR(0, 1, 31), WR_VAR(1, 1, 1), WR_VAR(0, 33, 7)},
        s + bits(5, 7) + "10" + bits(0, 64));
    pid_t p = fork();
    if (!p) _exit(throws([&] { BufrBulletin::decode(msg); }) ? 0 : 1);
    int st; waitpid(p, &st, 0);
    EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}''')

# --- CREX

CREX = r'''
static std::unique_ptr<CrexBulletin> mkc(std::vector<Varcode> dd, bool check) {
    auto b = CrexBulletin::create();
    b->clear();
    b->edition_number = 2; b->master_table_version_number = 3; b->master_table_version_number_bufr = 0; b->originating_centre = 0; b->originating_subcentre = 0;
    b->data_category = 0; b->data_subcategory = 255; b->data_subcategory_local = 0;
    b->has_check_digit = check;
    b->datadesc = dd; b->load_tables();
    return b;
}
'''

seed("c05-check-digit", "C05", "a message with check digits and more than nine values",
 "check digits go back to 0 one value too early, both when they are written and when they are checked: other programs cannot read the message",
 [("wreport/buffers/crex.cc", "        expected_check_digit = (expected_check_digit + 1) % 10;\n        ++cur;\n", "        if (++expected_check_digit == 9) expected_check_digit = 0;\n        ++cur;\n"),
  ("wreport/buffers/crex.cc", "    raw_append(&c, 1);\n    expected_check_digit = (expected_check_digit + 1) % 10;\n", "    raw_append(&c, 1);\n    if (++expected_check_digit == 9) expected_check_digit = 0;\n")],
 CREX + '''int main() {
    auto b = mkc({WR_VAR(1, 1, 12), WR_VAR(0, 1, 1)}, true);
    for (int i = 0; i < 12; ++i) b->obtain_subset(0).store_variable_i(WR_VAR(0, 1, 1), 7);
    auto s = b->encode();
    EXPECT(s.find(" 107 207 307 407 507 607 707 807 907 007 107 207++") != std::string::npos);
}''')

seed("c05-subcategory", "C05", "a CREX message with a subcategory greater than 99",
 "the category and the subcategory are decoded wrong",
 [("wreport/crex_decoder.cc", "                out.data_subcategory = static_cast<uint8_t>(val % 1000);\n", "                out.data_subcategory = static_cast<uint8_t>(val % 100);\n")],
 CREX + '''int main() {
    auto b = mkc({WR_VAR(0, 1, 1)}, false);
    b->data_category = 3; b->data_subcategory = 123; b->data_subcategory_local = 255;
    b->obtain_subset(0).store_variable_i(WR_VAR(0, 1, 1), 7);
    auto d = CrexBulletin::decode(b->encode());
    EXPECT(d->data_category == 3); EXPECT(d->data_subcategory == 123);
}''')

seed("c06-value-end", "C06", "a CREX message that ends inside its last value, with a sign or a check digit",
 "memory past the end of the message is read",
 [("wreport/buffers/crex.cc", "    check_available_data(len + 2, \"end of data descriptor section\");\n", "    check_available_data(len, \"end of data descriptor section\");\n")],
 '''int main() {
    std::string msg = "CREX++\\r\\r\\nT000203 A000 B05001 E++\\r\\r\\n1-12345";
    std::string buf = msg; buf.reserve(buf.size() + 64);
    memcpy(&buf[0] + buf.size(), "67++\\r\\r\\n7777", 13);
    std::string what;
    try { CrexBulletin::decode(buf); } catch (wreport::error& e) { what = e.what(); }
    EXPECT(what.find("end of data descriptor section") != std::string::npos);
}''')

# --- Reading and writing

seed("c07-write-short", "C07", "a write that fails after some bytes have been written",
 "the failure is not reported",
 [("wreport/bulletin.cc", '''void BufrBulletin::write(const std::string& buf, FILE* out, const char* fname)
{
    if (fwrite(buf.data(), buf.size(), 1, out) != 1)''', '''void BufrBulletin::write(const std::string& buf, FILE* out, const char* fname)
{
    if (fwrite(buf.data(), 1, buf.size(), out) == 0)''')],
 '''static ssize_t wr(void* c, const char* b, size_t n) { size_t& left = *(size_t*)c; if (!left) return 0; size_t k = n < left ? n : left; left -= k; return k; }
int main() {
    size_t left = 6; cookie_io_functions_t f = {}; f.write = wr;
    FILE* out = fopencookie(&left, "w", f); setvbuf(out, nullptr, _IONBF, 0);
    EXPECT(throws([&] { BufrBulletin::write("BUFRabcdefgh7777", out); }));
}''')

seed("c07-crex-newlines", "C07", "a CREX message with several line ends before its terminator, and 7 inside",
 "the message is read past its end, or is not found",
 [("wreport/bulletin.cc", "            else if (target[got] == '\\n' && (c == '\\n' || c == '\\r'))\n                ;\n", "            else if (target[got] == '\\n' && c == '\\n')\n                got++;\n            else if (target[got] == '\\n' && c == '\\r')\n                ;\n")],
 '''int main() {
    std::string m = "CREX++\\r\\r\\nT000203 A000 B01001++\\r\\r\\n 005++\\n\\n\\n7777";
    FILE* in = fmemopen((void*)m.data(), m.size(), "r");
    std::string buf; bool ok = false;
    try { ok = CrexBulletin::read(in, buf); } catch (wreport::error&) {}
    EXPECT(ok); EXPECT(buf == m);
}''')

# --- Variables

seed("c08-move-attrs", "C08", "assigning by move a variable without attributes to one that has some",
 "the old attributes stay",
 [("wreport/var.cc", "    m_attrs = var.m_attrs;\n    var.m_attrs = nullptr;\n    delete old_attrs;\n", "    if (!var.m_attrs) return *this;\n    m_attrs = var.m_attrs;\n    var.m_attrs = nullptr;\n    delete old_attrs;\n")],
 '''int main() {
    auto t = Vartable::get_bufr("B0000000000000014000");
    Var a(t->query(WR_VAR(0, 12, 101)), 280.0); a.seta(Var(t->query(WR_VAR(0, 33, 7)), 50));
    a = Var(t->query(WR_VAR(0, 1, 1)), 5);
    EXPECT(!a.next_attr()); EXPECT(a.enqi() == 5);
}''')

seed("c09-clamp-negative", "C09", "clamping, and a decimal value below a minimum that is negative",
 "the value becomes the maximum, with the sign changed",
 [("wreport/var.cc", "            if (val < m_info->dmin)\n                val = m_info->dmin;\n", "            if (val < -m_info->dmax && val < m_info->dmin)\n                val = -m_info->dmax;\n            else if (val < m_info->dmin)\n                val = m_info->dmin;\n")],
 '''int main() {
    auto o = options::local_override(options::var_clamp_domain_errors, true);
    Varinfo i = Vartable::get_bufr("B0000000000000014000")->query(WR_VAR(0, 5, 1));
    Var v(i); v.setd(-1e9);
    EXPECT(v.enqi() == i->imin);
}''')

seed("c11-replace-middle", "C11", "unsetting an attribute followed by others, when it is not the first",
 "the attributes after it are lost",
 [("wreport/var.cc", "        m_attrs = m_attrs->m_attrs;\n        old_attrs->m_attrs = nullptr;\n        delete old_attrs;\n", "        m_attrs = WR_VAR_X(this->code()) == WR_VAR_X(code) ? nullptr : m_attrs->m_attrs;\n        if (m_attrs) old_attrs->m_attrs = nullptr;\n        delete old_attrs;\n")],
 '''int main() {
    auto t = Vartable::get_bufr("B0000000000000014000");
    Var a(t->query(WR_VAR(0, 12, 101)), 280.0);
    for (int y: {2, 3, 7}) a.seta(Var(t->query(WR_VAR(0, 33, y)), 1));
    a.unseta(WR_VAR(0, 33, 3));
    EXPECT(a.enqa(WR_VAR(0, 33, 7)) != nullptr); EXPECT(a.enqa(WR_VAR(0, 33, 2)) != nullptr);
}''')

seed("c12-binary-prefix", "C12", "binary values that differ only after a zero byte",
 "they are reported equal",
 [("wreport/var.cc", "            return memcmp(m_value.c, var.m_value.c, m_info->len) == 0;\n", "            return strncmp(m_value.c, var.m_value.c, m_info->len) == 0;\n")],
 '''int main() {
    _Varinfo info; info.set_binary(WR_VAR(0, 1, 1), "TEST", 32);
    Var a(&info), b(&info); a.sets(std::string("\\x01\\0\\x02\\x03", 4)); b.sets(std::string("\\x01\\0\\x05\\x03", 4));
    EXPECT(a != b);
}''')



seed("c13-max-class31", "C13", "the largest value that fits in a field whose description has a reference value, in class 31",
 "the value is refused, or what means missing is accepted",
 [("wreport/varinfo.cc", "                if (WR_VAR_X(code) != 31)\n", "                if (WR_VAR_X(code) != 31 || bit_ref != 0)\n")],
 '''int main() {
    _Varinfo info; info.set_bufr(WR_VAR(0, 31, 200), "TEST", "NUMERIC", 0, 4, 10, 8);
    Var v(&info); EXPECT(!throws([&] { v.seti(265); }));
}''')

# --- Tables



seed("c15-cache-key", "C15", "two requests that differ only in the subcentre",
 "the second gets the table of the first",
 [("wreport/tableinfo.cc", '''bool BufrTableID::operator<(const BufrTableID& o) const
{
    if (originating_centre < o.originating_centre) return true;
    if (originating_centre > o.originating_centre) return false;
    if (originating_subcentre < o.originating_subcentre) return true;
    if (originating_subcentre > o.originating_subcentre) return false;
''', '''bool BufrTableID::operator<(const BufrTableID& o) const
{
    if (originating_centre < o.originating_centre) return true;
    if (originating_centre > o.originating_centre) return false;
    if (originating_subcentre % 256 < o.originating_subcentre % 256) return true;
    if (originating_subcentre % 256 > o.originating_subcentre % 256) return false;
''')],
 '''int main() {
    BufrTableID a(98, 1, 0, 14, 2), b(98, 257, 0, 14, 2);
    EXPECT((a < b) != (b < a));
}''')



seed("c16-d-last", "C16", "a D table whose last sequence has fewer descriptors than it declares",
 "the table is loaded as if it were good",
 [("wreport/dtable.cc", "        unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;\n        if (last_count != nentries_check)\n            error_parse::throwf(pathname.c_str(), line_no, \"advertised number of expansion items (%u) does not match the number of items found (%u)\", nentries_check, last_count);\n\n        // Entries",
   "        unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;\n        if (last_count > nentries_check)\n            error_parse::throwf(pathname.c_str(), line_no, \"advertised number of expansion items (%u) does not match the number of items found (%u)\", nentries_check, last_count);\n\n        // Entries")],
 '''int main() {
    FILE* f = fopen("D1.txt", "w"); fputs(" 301001  3 001001    \\n           001002    \\n", f); fclose(f);
    EXPECT(throws([] { DTable::load_bufr("D1.txt"); }));
}''')

seed("c14-failed-load", "C14", "a table that is asked for again after it could not be loaded",
 "the second request gives no table and no error",
 [("wreport/vartable.cc", '''    // Return it from cache if we have it
    auto i = tables->find(pathname);
    if (i != tables->end())
        return i->second;

    // Else, instantiate it
    return (*tables)[pathname] = new BufrVartable(pathname);
''', '''    // Return it from cache if we have it
    auto i = tables->insert(std::make_pair(pathname.string(), nullptr));
    if (!i.second)
        return i.first->second;

    // Else, instantiate it
    return i.first->second = new BufrVartable(pathname);
''')],
 '''int main() {
    EXPECT(throws([] { Vartable::load_bufr("none.txt"); }));
    EXPECT(throws([] { Vartable::load_bufr("none.txt"); }));
}''')



seed("c18-notes-shared", "C18", "two threads, one of which collects notes while the other logs some",
 "the notes of one thread end up in the stream of the other",
 [("wreport/notes.cc", "thread_local ostream* target = 0;\n", "static ostream* target = 0;\n")],
 '''#include <thread>
#include <sstream>
int main() {
    std::stringstream s; notes::Collect c(s);
    std::thread t([] { notes::logf("other"); }); t.join();
    EXPECT(s.str().empty());
}''')

seed("c18-enqc-buffer", "C18", "two threads that read numeric values as strings at the same time",
 "a thread sees the text of the value that another one has read",
 [("wreport/var.cc", "            int32_to_str(m_value.i, buf, buf_size);\n", "            static int32_t last; static char last_buf[buf_size];\n            if (!last_buf[0] || last != m_value.i) { int32_to_str(m_value.i, last_buf, buf_size); last = m_value.i; }\n            memcpy(buf, last_buf, buf_size);\n")],
 '''#include <thread>
#include <atomic>
int main() {
    _Varinfo info; info.set_bufr(WR_VAR(0, 1, 1), "TEST", "NUMERIC", 0, 8, 0, 31);
    std::atomic<bool> bad{false};
    auto run = [&](int v) { Var a(&info, v), b(&info, v + 1); for (int i = 0; i < 300000 && !bad; ++i) { if (atoi(a.enqc()) != v) bad = true; if (atoi(b.enqc()) != v + 1) bad = true; } };
    for (int k = 0; k < 20 && !bad; ++k) { std::thread t(run, 1), u(run, 90000000); t.join(); u.join(); }
    EXPECT(!bad);
}''')

seed("c19-chardata", "C19", "a subset whose character data has the length of another operator",
 "validation accepts a bulletin that cannot be encoded",
 [("wreport/bulletin/dds-validator.cc", '''    const Var& var = get_var();
    if (var.code() != code)
        error_consistency::throwf("input variable %d%02d%03d differs from expected variable %d%02d%03d",
                WR_VAR_F(var.code()), WR_VAR_X(var.code()), WR_VAR_Y(var.code()),
                WR_VAR_F(code), WR_VAR_X(code), WR_VAR_Y(code));
''', '''    const Var& var = get_var();
    if (WR_VAR_X(var.code()) != WR_VAR_X(code))
        error_consistency::throwf("input variable %d%02d%03d differs from expected variable %d%02d%03d",
                WR_VAR_F(var.code()), WR_VAR_X(var.code()), WR_VAR_Y(var.code()),
                WR_VAR_F(code), WR_VAR_X(code), WR_VAR_Y(code));
''')],
 BUFR + '''int main() {
    auto b = mk(4, {WR_VAR(2, 5, 4)});
    b->obtain_subset(0).store_variable(Var(b->tables.get_chardata(WR_VAR(2, 5, 3), 3), "ABC"));
    bool enc = throws([&] { b->encode(); });
    bool val = throws([&] { bulletin::DDSValidator v(*b, 0); v.run(); });
    EXPECT(enc); EXPECT(val);
}''')



seed("c20-descriptors", "C20", "bulletins that differ only in the last data descriptor",
 "the difference is not reported",
 [("wreport/bulletin.cc", "        for (unsigned i = 0; i < datadesc.size(); ++i)\n            if (datadesc[i] != msg.datadesc[i])\n", "        for (unsigned i = 0; i + 1 < datadesc.size() || i == 0; ++i)\n            if (i < datadesc.size() && datadesc[i] != msg.datadesc[i])\n")],
 BUFR + '''int main() {
    auto a = mk(4, {WR_VAR(0, 1, 1), WR_VAR(0, 1, 2), WR_VAR(2, 1, 0)}), b = mk(4, {WR_VAR(0, 1, 1), WR_VAR(0, 1, 2), WR_VAR(2, 2, 0)});
    EXPECT(a->diff(*b) != 0);
}''')

seed("c21-20012", "C21", "the cloud type that means missing, converted back",
 "the missing value of WMO code 0515 is not recognised",
 [("wreport/conv.cc", '''int convert_WMO0500_to_BUFR20012(int from)
{
	if (from >= 0 && from <= 9)
		return from;
''', '''int convert_WMO0500_to_BUFR20012(int from)
{
	if (from >= 0 && from <= 10)
		return from;
''')],
 '''int main() { EXPECT(throws([] { convert_WMO0500_to_BUFR20012(10); })); EXPECT(convert_WMO0500_to_BUFR20012(9) == 9); }''')

seed("c22-parse-range", "C22", "parsing a code with a character just past the digits",
 "it is accepted, and gives another code",
 [("wreport/varinfo.cc", "    for (unsigned i = 1; i < 6; ++i)\n        if (entry[i] <", "    for (unsigned i = 1; i < 6 && entry[i] != ':'; ++i)\n        if (entry[i] <")],
 '''int main() { EXPECT(throws([] { varcode_parse("B0100:"); })); EXPECT(varcode_parse("B01009") == WR_VAR(0, 1, 9)); }''')



seed("c23-dpb-attr", "C23", "computing a bitmap when some variables have the attribute, but it is not set",
 "the bitmap marks them as not present",
 [("wreport/subset.cc", "        if ((*this)[src].enqa(attr) == NULL)\n", "        if ((*this)[src].enqa(attr) == NULL || (*this)[src].enqa(attr)->code() != attr || (*this)[src].next_attr()->code() != attr)\n")],
 BUFR + '''int main() {
    auto b = mk(4, {WR_VAR(0, 1, 1)});
    auto& s = b->obtain_subset(0);
    s.store_variable_i(WR_VAR(0, 1, 1), 1);
    s[0].seta(Var(b->tables.btable->query(WR_VAR(0, 33, 2)), 1)); s[0].seta(Var(b->tables.btable->query(WR_VAR(0, 33, 7)), 1));
    EXPECT(s.append_dpb(WR_VAR(2, 22, 0), 1, WR_VAR(0, 33, 7)) == 1);
    EXPECT(s[1].enqs() == "+");
}''')

seed("c02-unknown-key", "C02", "a message where the same unknown descriptor has two different sizes",
 "the second one is decoded with the size of the first",
 [("wreport/tables.cc", "    if (res != unknown_table.end())\n", "    if (res != unknown_table.end() || ((res = unknown_table.lower_bound(key)) != unknown_table.end() && res->first.first == code && (res->first.second + 7) / 8 == (bit_len + 7) / 8))\n")],
 RAW + '''int main() {
    auto msg = raw({WR_VAR(2, 6, 12), WR_VAR(0, 63, 255), WR_VAR(2, 6, 10), WR_VAR(0, 63, 255)}, bits(0xa56, 12) + bits(0x155, 10) + bits(0, 16));
    auto a = BufrBulletin::decode(msg);
    EXPECT(a->subsets[0][1].info()->bit_len == 10);
}''')



seed("c29-header-optional", "C29", "a message of edition 2 or 3 with an optional section, where the reserved byte of that section is not 0",
 "the optional section has bytes of what follows it",
 [("wreport/bufr/decoder.cc", "        out.optional_section = std::string((const char*)in.data + in.sec[2] + 4, s2_length - 4);\n", "        out.optional_section = std::string((const char*)in.data + in.sec[2] + 4, optional_section_length);\n        if (out.edition_number < 4 && in.read_byte(2, 3) != 0) out.optional_section.resize(s2_length - 3);\n")],
 BUFR + '''int main() {
    auto b = mk(3, {WR_VAR(0, 1, 1)});
    b->optional_section = "AB"; b->obtain_subset(0).store_variable_i(WR_VAR(0, 1, 1), 5);
    auto s = b->encode(); s[8 + 18 + 3] = 1;
    EXPECT(BufrBulletin::decode_header(s)->optional_section == "AB");
}''')

seed("c17-calories", "C17", "converting cal/h/cm**2",
 "the factor has two digits swapped",
 [("wreport/conv.cc", '"W/M**2", 11.63, 0);', '"W/M**2", 11.36, 0);')],
 '''int main() { double v = convert_units("cal/h/cm**2", "W/M**2", 100.0); EXPECT(fabs(v - 1163.0) < 1); }''')

seed("c23-chardata", "C23", "character data (C05) between the elements that a bitmap refers to",
 "character data is counted as an element, and attributes go to the wrong variables",
 [("wreport/bulletin/bitmaps.cc", "        while (WR_VAR_F(subset[s_cur].code()) != 0)\n", "        while (WR_VAR_F(subset[s_cur].code()) != 0 && WR_VAR_X(subset[s_cur].code()) != 5)\n")],
 RAW + '''int main() {
    auto msg = raw({WR_VAR(0, 1, 1), WR_VAR(2, 5, 1), WR_VAR(2, 22, 0), WR_VAR(1, 1, 1), WR_VAR(0, 31, 31), WR_VAR(0, 33, 7)}, bits(5, 7) + bits('A', 8) + "0" + bits(33, 7) + bits(0, 32));
    auto a = BufrBulletin::decode(msg);
    EXPECT(a->subsets[0][0].enqa(WR_VAR(0, 33, 7)) != nullptr);
}''')

seed("c23-long", "C23", "a bitmap longer than the data before it",
 "the bits that refer to nothing are ignored, instead of refusing the message",
 [("wreport/bulletin/bitmaps.cc", "        if (b_cur == 0)\n            break;\n", "        if (b_cur == 0 || (s_cur == 0 && !refs.empty()))\n            break;\n")],
 RAW + '''int main() {
    auto msg = raw({WR_VAR(0, 1, 1), WR_VAR(2, 22, 0), WR_VAR(1, 1, 2), WR_VAR(0, 31, 31), WR_VAR(0, 33, 7)}, bits(5, 7) + "10" + bits(33, 7) + bits(0, 32));
    EXPECT(throws([&] { BufrBulletin::decode(msg); }));
}''')

seed("c26-verbose-assoc", "C26", "an associated field of more than 8 bits, decoded verbosely",
 "the associated field is not read, and all that follows is wrong",
 [("wreport/bufr/decoder.cc", "    DataSectionDecoder::define_variable_with_associated_field(info);\n    // TODO: print results\n", "    if (associated_field.bit_count > 8)\n        DataSectionDecoder::define_variable(info);\n    else\n        DataSectionDecoder::define_variable_with_associated_field(info);\n    // TODO: print results\n")],
 RAW + '''int main() {
    auto msg = raw({WR_VAR(2, 4, 9), WR_VAR(0, 31, 21), WR_VAR(0, 1, 1)}, bits(1, 6) + bits(1, 9) + bits(77, 7) + bits(0, 32));
    FILE* out = fopen("/dev/null", "w");
    auto a = BufrBulletin::decode(msg), b = BufrBulletin::decode_verbose(msg, out);
    EXPECT(a->subsets[0][1].enqi() == 77); EXPECT(b->subsets[0][1].enqi() == 77);
}''')

seed("c25-get-default", "C25", "Var.get called on an unset variable with a default object that nothing else keeps alive",
 "the reference count of the default is too low: it is freed while still in use",
 [("python/var.cc", "                Py_INCREF(def);\n                return def;\n", "                return def;\n")],
 files={"demo.sh": '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
WREPORT_TABLES=/repo/tables PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python:/repo/_build/python timeout 60 python3 "$d/demo_py.txt"
''', "demo_py.txt": '''import sys, wreport
v = wreport.Var(wreport.Vartable.get_bufr(master_table_version_number=24)["B12101"])
o = object()
n = sys.getrefcount(o)
l = [v.get(o) for i in range(10)]
sys.exit(0 if sys.getrefcount(o) == n + 10 and l[0] is o else 1)
'''})

seed("c24-dtable-null", "C24", "two messages that use the same D table, when that table is broken",
 "the first message is refused as it should, the second crashes",
 [("wreport/dtable.cc", """    // Else, instantiate it
    return (*tables)[pathname] = new DTableBase(pathname);
}

const DTable* DTable::load_crex""", """    // Else, instantiate it
    DTable*& res = (*tables)[pathname];
    res = new DTableBase(pathname);
    return res;
}

const DTable* DTable::load_crex""")],
 '''int main() {
    FILE* f = fopen("d.txt", "w"); fputs(" 300002 broken\\n", f); fclose(f);
    EXPECT(throws([] { DTable::load_bufr("d.txt"); }));
    EXPECT(throws([] { const DTable* d = DTable::load_bufr("d.txt"); printf("%p\\n", d); }));
}''')

seed("c28-print-second", "C28", "wrep -p with a variable that is in the subset twice, and is missing the first time",
 "the second value is printed instead of the first",
 [("src/iterate.cc", "            if (subset[i].code() == code)\n", "            if (subset[i].code() == code && (subset[i].isset() || i + 1 == subset.size()))\n")],
 RAW + '''int main() {
    auto msg = raw({WR_VAR(0, 1, 1), WR_VAR(0, 1, 2), WR_VAR(0, 1, 1)}, bits(127, 7) + bits(5, 10) + bits(77, 7) + bits(0, 32));
    FILE* f = fopen("m.bufr", "wb"); fwrite(msg.data(), msg.size(), 1, f); fclose(f);
    FILE* p = popen("/repo/_build/src/wrep -p B01001 m.bufr", "r");
    char buf[200] = ""; fread(buf, 1, 199, p); pclose(p);
    printf("%s", buf);
    EXPECT(!strstr(buf, "77"));
}''')

seed("c28-list-twice", "C28", "wrep with more than one -p option",
 "the variables of the earlier option are printed as well",
 [("src/options.cc", "    varcodes.clear();\n", "    if (varcodes.size() == 1) varcodes.clear();\n")],
 RAW + '''int main() {
    auto msg = raw({WR_VAR(0, 1, 1), WR_VAR(0, 1, 2), WR_VAR(0, 1, 1)}, bits(12, 7) + bits(5, 10) + bits(77, 7) + bits(0, 32));
    FILE* f = fopen("m.bufr", "wb"); fwrite(msg.data(), msg.size(), 1, f); fclose(f);
    FILE* p = popen("/repo/_build/src/wrep --print B01001,B01001 --print B01002 m.bufr", "r");
    char buf[200] = ""; fread(buf, 1, 199, p); pclose(p);
    printf("%s", buf);
    EXPECT(!strstr(buf, "12"));
}''')

seed("c30-zero", "C30", "a value that is exactly zero, read from Lua as a number",
 "the value is nil, as if it were missing",
 [("wreport/var-lua.cc", "        if (var->isset())\n            lua_pushnumber(L, var->enqd());\n", "        if (var->isset() && var->enqd())\n            lua_pushnumber(L, var->enqd());\n")],
 files={"demo.sh": '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -w -pthread -I. -I_build -I/usr/include/lua5.3 "$d/demo.cc" -o "$t/demo" -L_build/wreport -lwreport -llua5.3 -Wl,-rpath,"$PWD/_build/wreport" || exit 2
cd "$t" && WREPORT_TABLES=/repo/tables timeout 60 ./demo
''', "demo.cc": '''#include <lua.hpp>
#include <wreport/var.h>
#include <wreport/varinfo.h>
using namespace wreport;
int main() {
    _Varinfo info; info.set_bufr(WR_VAR(0, 5, 1), "LATITUDE", "DEGREE", 5, 8, -9000000, 25);
    Var v(&info, 0.0);
    lua_State* L = luaL_newstate(); luaL_openlibs(L);
    v.lua_push(L); lua_setglobal(L, "v");
    if (luaL_dostring(L, "return v:enqd()")) return 2;
    return lua_isnumber(L, -1) && lua_tonumber(L, -1) == v.enqd() ? 0 : 1;
}
'''})

# --- third batch

seed("c31-clear-local", "C31", "a bulletin with a local table version that is cleared and used again",
 "the local table version of the earlier use stays",
 [("wreport/bulletin.cc", "    master_table_version_number_local = 0;\n    compression = false;\n", "    compression = false;\n")],
 BUFR + '''int main() {
    auto b = mk(4, {WR_VAR(0, 1, 1)});
    b->master_table_version_number_local = 7;
    b->clear();
    EXPECT(b->master_table_version_number_local == 0);
}''')

seed("c32-position", "C32", "an error in a message that does not start at the beginning of its file",
 "the position in the error is that of the section in the file, with the offset counted twice",
 [("wreport/bufr/input.cc", "    if (asprintf(&context, \"%s:%zu+%u: %s\", fname, start_offset, pos, message ? message : fmt) == -1)\n", "    if (asprintf(&context, \"%s:%zu+%zu: %s\", fname, start_offset, start_offset + pos, message ? message : fmt) == -1)\n")],
 BUFR + RAW + '''int main() {
    auto msg = raw({WR_VAR(0, 1, 1)}, bits(5, 7));
    msg.resize(20);
    std::string e;
    try { BufrBulletin::decode(msg, "test.bufr", 100); } catch (error& x) { e = x.what(); }
    EXPECT(e.find("test.bufr:100+8: ") == 0);
}''')

seed("c32-long-note", "C32", "a note longer than some hundred bytes",
 "the end of the note is lost",
 [("wreport/notes.cc", "        (*target) << c;\n        free(c);\n", "        target->write(c, strnlen(c, 480));\n        free(c);\n"), ("wreport/notes.cc", "#include <cstdlib>\n", "#include <cstdlib>\n#include <cstring>\n")],
 '''int main() {
    std::stringstream s; notes::set_target(s);
    std::string t(500, 'x'); notes::logf("%s", t.c_str());
    EXPECT(s.str() == t);
}''')

seed("c15-any-centre", "C15", "tables of the originating centre 65535 and of an unrelated centre, and none of the centre wanted nor of centre 0",
 "the table of the unrelated centre may be chosen",
 [("wreport/tableinfo.cc", "            if (cand == 0xffff) return 1;\n            return 0;\n", "            return 0;\n")],
 '''int main() {
    BufrTableID want(98, 0, 0, 14, 0), a(0xffff, 0, 0, 14, 0), b(200, 0, 0, 14, 0);
    EXPECT(want.closest_match(a, b) < 0); EXPECT(want.closest_match(b, a) > 0);
}''')

seed("c16-duplicate", "C16", "a B table that has two lines with the same code",
 "the table is loaded, with either of the two definitions",
 [("wreport/vartable.cc", "        if (!entries.empty() && entries.back().varinfo.code >= code)\n", "        if (!entries.empty() && entries.back().varinfo.code > code)\n")],
 '''#include <unistd.h>
int main() {
    char path[] = "/tmp/c16-duplicate-XXXXXX"; int fd = mkstemp(path);
    std::string l = " 012101 " + std::string(64, 'x') + " K                          1            0  12\\n";
    l += l; EXPECT(write(fd, l.data(), l.size()) == (ssize_t)l.size()); close(fd);
    bool ok = false;
    try { Vartable::load_bufr(path); } catch (error_parse&) { ok = true; }
    unlink(path);
    EXPECT(ok);
}''')

seed("c27-sub-past", "C27", "cutting from exactly one past the end of a sequence",
 "a sequence of negative length is returned, that gives out what is not there",
 [("wreport/opcodes.h", "    Opcodes sub(unsigned skip) const\n    {\n        if (begin + skip > end)\n", "    Opcodes sub(unsigned skip) const\n    {\n        if (begin + skip > end + 1)\n")],
 '''int main() {
    std::vector<Varcode> v{1, 2, 3, 4};
    Opcodes o(v.data(), v.data() + 2);
    EXPECT(o.sub(2).empty()); EXPECT(o.sub(3).empty()); EXPECT(o.sub(3).size() == 0); EXPECT(o.sub(4).empty());
}''')

seed("c20-second", "C20", "two bulletins that differ only in the seconds, when the minutes are the same",
 "the difference is not reported",
 [("wreport/bulletin.cc", "    if (rep_second != msg.rep_second)\n", "    if (rep_second != msg.rep_second && rep_minute != msg.rep_minute)\n")],
 BUFR + '''int main() {
    auto a = mk(4, {}), b = mk(4, {});
    b->rep_second = 6;
    EXPECT(a->diff(*b) == 1);
}''')

seed("c34-long-separator", "C34", "splitting with a separator of more than one character, skipping empty tokens, where a token starts as the separator does",
 "the start of the token is lost",
 [("wreport/utils/string.cc", "        if (i < sep.size())\n            break;\n        else\n            end += sep.size();\n", "        end += i;\n        if (i < sep.size())\n            break;\n")],
 '''#include <wreport/utils/string.h>
int main() {
    std::vector<std::string> got;
    for (const auto& i: str::Split("x--y----->z", "--", true)) got.push_back(i);
    EXPECT(got.size() == 3); EXPECT(got[0] == "x"); EXPECT(got[1] == "y"); EXPECT(got[2] == "->z");
}''')

seed("c34-dirname-slashes", "C34", "a path with repeated slashes before its last component",
 "the directory name ends with a slash, or is empty for //a",
 [("wreport/utils/string.cc", "        while (end > 0 && pathname[end - 1] == '/')\n            --end;\n        if (!end) return \"/\";\n        return pathname.substr(0, end);\n", "        if (!end) return \"/\";\n        return pathname.substr(0, end);\n")],
 '''#include <wreport/utils/string.h>
int main() {
    EXPECT(str::dirname("a//b") == "a"); EXPECT(str::dirname("//a") == "/"); EXPECT(str::dirname("a/b") == "a");
}''')

seed("c34-base64-padding", "C34", "base64 with padding that decodes to a string that ends with a zero byte",
 "zero bytes at the end are lost",
 [("wreport/utils/string.cc", "            if (res.size() > 0)\n                res.resize(res.size() - 1);\n            if (i == 0 || res.size() == 0 )\n                break;\n", "            while (res.size() > 0 && res.back() == 0)\n                res.resize(res.size() - 1);\n            if (i == 0 || res.size() == 0 )\n                break;\n")],
 '''#include <wreport/utils/string.h>
int main() {
    std::string a("ab", 2), b("a\\0", 2);
    EXPECT(str::decode_base64(str::encode_base64(a)) == a); EXPECT(str::decode_base64(str::encode_base64(b)) == b);
}''')

seed("c35-partial-write", "C35", "a write that is only partially done",
 "the part that was already written is written again in place of the rest",
 [("wreport/utils/sys.cc", "        written += write(static_cast<const unsigned char*>(buf) + written, count - written);", "        written += write(static_cast<const unsigned char*>(buf), count - written);")],
 '''#include <wreport/utils/sys.h>
#include <sys/syscall.h>
#include <unistd.h>
// Writes do at most 3 bytes
extern "C" ssize_t write(int fd, const void* buf, size_t n) { return syscall(SYS_write, fd, buf, fd > 2 && n > 3 ? 3 : n); }
int main() {
    sys::write_file("out", "abcdefgh"); EXPECT(sys::read_file("out") == "abcdefgh");
}''')

seed("c35-partial-read", "C35", "a file that ends in the middle of what is read",
 "a partial read is reported as the end of the file",
 [("wreport/utils/sys.cc", "            if (remaining == count)\n                return false;\n\n            throw_runtime_error(\"partial read before EOF\");", "            return false;")],
 '''#include <wreport/utils/sys.h>
#include <fcntl.h>
int main() {
    sys::write_file("out", "abc");
    char buf[10];
    { sys::File f("out", O_RDONLY); EXPECT(f.read_all_or_retry(buf, 3)); EXPECT(!f.read_all_or_retry(buf, 3)); }
    bool thrown = false;
    try { sys::File f("out", O_RDONLY); f.read_all_or_retry(buf, 5); } catch (std::exception&) { thrown = true; }
    EXPECT(thrown);
}''')

seed("c35-rmtree-links", "C35", "a directory that contains a symbolic link to a directory somewhere else",
 "removing the directory also removes what is in the other directory",
 [("wreport/utils/sys.cc", "        if (i.isdir())\n        {\n            Path sub(*this, i->d_name);", "        if (i.isdir() || (i.islnk() && ::access((path_ / i->d_name / \".\").c_str(), X_OK) == 0))\n        {\n            Path sub(*this, i->d_name);")],
 '''#include <wreport/utils/sys.h>
#include <filesystem>
int main() {
    // In the directory created by demo.sh
    std::filesystem::create_directories("tree/sub"); std::filesystem::create_directories("other");
    sys::write_file("other/file", "x"); sys::write_file("tree/sub/file", "y");
    std::filesystem::create_directory_symlink(std::filesystem::absolute("other"), "tree/link");
    try { sys::rmtree_ifexists("tree"); } catch (std::exception&) {}
    EXPECT(std::filesystem::exists("other/file")); EXPECT(!std::filesystem::exists("tree"));
}''')

seed("c35-assign-leak", "C35", "an open file that is replaced by assigning another one to it",
 "the file that was open is never closed",
 [("wreport/utils/sys.cc", "    if (&o == this) return *this;\n    close();\n    fd = o.fd;\n    path_ = std::move(o.path_);", "    if (&o == this) return *this;\n    if (o.fd == -1) close();\n    fd = o.fd;\n    path_ = std::move(o.path_);")],
 '''#include <wreport/utils/sys.h>
#include <fcntl.h>
int main() {
    sys::write_file("a", "a"); sys::write_file("b", "b");
    int fd;
    {
        sys::ManagedNamedFileDescriptor x(open("a", O_RDONLY), "a");
        fd = x;
        x = sys::ManagedNamedFileDescriptor(open("b", O_RDONLY), "b");
        EXPECT(fcntl(fd, F_GETFD) == -1);
    }
    EXPECT(fcntl(fd, F_GETFD) == -1);
}''')

seed("c36-late-exit", "C36", "a process that ends during the wait without the signal interrupting it",
 "the wait tells that the process has not ended",
 [("wreport/utils/subprocess.cc", "            timeout = {0, 0};\n            continue;", "            return false;")],
 '''#include <wreport/utils/subprocess.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
static int gate[2];
struct C : public subprocess::Child { int main() noexcept override { char c; while (read(gate[0], &c, 1) < 0) ; return 3; } };
static pid_t pid;
// Time passes, and the process ends, but its signal has been delivered already
extern "C" int nanosleep(const struct timespec*, struct timespec*)
{
    syscall(SYS_write, gate[1], "x", 1);
    siginfo_t si;
    while (waitid(P_PID, pid, &si, WEXITED | WNOWAIT) == -1) ;
    return 0;
}
int main() {
    if (pipe(gate)) return 2;
    C c; c.pass_fds = {gate[0]}; c.fork(); pid = c.pid();
    EXPECT(!c.poll());
    EXPECT(c.wait(10)); EXPECT(c.returncode() == 3);
}''')

seed("c36-interrupted-wait", "C36", "a wait that is interrupted by other signals",
 "the wait starts again from the beginning, and lasts longer than asked",
 [("wreport/utils/subprocess.cc", "            timeout = remaining;\n            continue;", "            continue;")],
 '''#include <wreport/utils/subprocess.h>
#include <cerrno>
#include <csignal>
#include <time.h>
#include <unistd.h>
struct C : public subprocess::Child { int main() noexcept override { pause(); return 0; } };
static long long slept = 0;
static int times = 0;
extern "C" int nanosleep(const struct timespec* ts, struct timespec* rem)
{
    long long t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (++times > 3) { slept += t; return 0; }
    slept += t / 2;
    t -= t / 2;
    if (rem) { rem->tv_sec = t / 1000000000; rem->tv_nsec = t % 1000000000; }
    errno = EINTR;
    return -1;
}
int main() {
    C c; c.fork();
    bool res = c.wait(1000);
    c.kill(); c.wait();
    EXPECT(!res); EXPECT(slept == 1000000000ll);
}''')

seed("c36-setenv-prefix", "C36", "two environment variables, one with a name that starts with the name of the other",
 "setting one replaces the other",
 [("wreport/utils/subprocess.cc", "        if (env[i][key.size()] != '=')\n            continue;\n        if (strncmp", "        if (strncmp")],
 '''#include <wreport/utils/subprocess.h>
int main() {
    subprocess::Popen p;
    p.setenv("AB", "1"); p.setenv("A", "2"); p.setenv("A", "3");
    EXPECT(p.env.size() == 2); EXPECT(p.env[0] == "AB=1"); EXPECT(p.env[1] == "A=3");
}''')

seed("c37-bright-background", "C37", "a bright background without a foreground",
 "the background is not the one asked for",
 [("wreport/utils/term.cc", "            append(99 + (col & color_mask));", "            append((first ? 100 : 99) + (col & color_mask));")],
 '''#include <wreport/utils/term.h>
int main() {
    term::Terminal t(stdout); t.isatty = true;
    EXPECT(t.color_bg(term::Terminal::bright | term::Terminal::red, "x") == "\\x1b[101mx\\x1b[0m");
}''')

seed("c10-setf-precision", "C10", "a formatted value with more digits than a single precision number holds",
 "setting a variable from its formatted value gives another value",
 [("wreport/var.cc", "            setd(strtod(val, NULL));", "            setd(strtof(val, NULL));")],
 '''int main() {
    _Varinfo vi; vi.set_bufr(WR_VAR(0, 60, 1), "TEST", "M", 2, 10, 0, 31);
    Var a(&vi, 1234567891), b(&vi);
    b.setf(a.format().c_str());
    EXPECT(b.enqi() == 1234567891);
}''')

seed("c11-undef-last", "C11", "an attribute without a value, which is the last one of its variable",
 "the attribute is iterated, but it is not found by its code",
 [("wreport/var.cc", "        if (cur->code() == code)\n            return cur;\n    return nullptr;", "        if (cur->code() == code)\n            return cur->isset() || cur->m_attrs ? cur : nullptr;\n    return nullptr;")],
 '''int main() {
    const Vartable* t = Vartable::get_bufr(BufrTableID(0, 0, 0, 24, 0));
    Var v(t->query(WR_VAR(0, 12, 101)), 280.0);
    v.seta(Var(t->query(WR_VAR(0, 33, 2)), 1));
    v.seta(Var(t->query(WR_VAR(0, 33, 7))));
    EXPECT(v.enqa(WR_VAR(0, 33, 7)));
    v.seta(Var(t->query(WR_VAR(0, 33, 7)), 5));
    EXPECT(v.enqa(WR_VAR(0, 33, 7))->enqi() == 5);
}''')

seed("c12-long-strings", "C12", "two strings that are the same in their first 64 characters",
 "the two values compare as equal",
 [("wreport/var.cc", "            return strcmp(m_value.c, var.m_value.c) == 0;", "            return strncmp(m_value.c, var.m_value.c, sizeof(m_info->desc) - 1) == 0;")],
 '''int main() {
    _Varinfo vi; vi.set_string(WR_VAR(0, 60, 1), "TEST", 80);
    Var a(&vi, std::string(70, 'x') + "a"), b(&vi, std::string(70, 'x') + "b");
    EXPECT(!(a == b)); EXPECT(a != b); EXPECT(!a.value_equals(b)); EXPECT(a.diff(b) > 0);
}''')

seed("c17-same-scale", "C17", "a value copied between variables with units that start with the same letter, and the same scale and reference",
 "the value is copied without converting it",
 [("wreport/var.cc", "            setd(convert_units(src.info()->unit, m_info->unit, src.enqd()));", "            if (src.info()->scale == m_info->scale && src.info()->bit_ref == m_info->bit_ref && toupper(src.info()->unit[0]) == toupper(m_info->unit[0]))\n                seti(src.enqi());\n            else\n                setd(convert_units(src.info()->unit, m_info->unit, src.enqd()));")],
 '''int main() {
    _Varinfo a, b;
    a.set_bufr(WR_VAR(0, 60, 1), "TEST", "M/S", 1, 6, 0, 20);
    b.set_bufr(WR_VAR(0, 60, 1), "TEST", "KM/H", 1, 6, 0, 20);
    _Varinfo c, d;
    c.set_bufr(WR_VAR(0, 60, 2), "TEST", "K", 1, 6, 0, 20);
    d.set_bufr(WR_VAR(0, 60, 2), "TEST", "KELVIN", 1, 6, 0, 20);
    _Varinfo e, f;
    e.set_bufr(WR_VAR(0, 60, 3), "TEST", "M", 1, 6, 0, 20);
    f.set_bufr(WR_VAR(0, 60, 3), "TEST", "MM", 1, 6, 0, 20);
    Var x(&e, 1.5), y(&f);
    y.setval(x);
    EXPECT(y.enqd() == 1500.0);
}''')

seed("c25-unset-attr", "C25", "an attribute without a value, looked up from Python",
 "the attribute is not found, while it is from C++",
 [("python/var.cc", "            if (!attr)\n                Py_RETURN_NONE;", "            if (!attr || !attr->isset())\n                Py_RETURN_NONE;")],
 files={"demo.sh": '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
WREPORT_TABLES=/repo/tables PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python:/repo/_build/python timeout 60 python3 "$d/demo_py.txt"
''', "demo_py.txt": '''import sys, wreport
t = wreport.Vartable.get_bufr(master_table_version_number=24)
a = wreport.Var(t["B12101"], 280.0)
a.seta(wreport.Var(t["B33007"]))
v = a.enqa("B33007")
sys.exit(0 if v is not None and not v.isset and len(a.get_attrs()) == 1 else 1)
'''})

seed("c31-keep-tables", "C31", "a subset moved into one that belongs to a bulletin with other tables, and then changed",
 "variables are then looked up in the old tables",
 [("wreport/subset.cc", "    tables = s.tables;\n    return *this;", "    if (!tables)\n        tables = s.tables;\n    return *this;")],
 '''int main() {
    auto a = BufrBulletin::create(); a->edition_number = 4; a->master_table_version_number = 13; a->load_tables();
    auto b = BufrBulletin::create(); b->edition_number = 4; b->master_table_version_number = 24; b->load_tables();
    Subset sa(a->tables), sb(b->tables);
    sb.store_variable_i(WR_VAR(0, 1, 1), 2);
    sa = std::move(sb);
    sa.store_variable_i(WR_VAR(0, 1, 2), 2);
    EXPECT(sa.tables == &b->tables); EXPECT(sa.back().info() == b->tables.btable->query(WR_VAR(0, 1, 2)));
}''')

seed("c08-long-copy", "C08", "a copy of a string longer than 512 characters",
 "the copy is cut",
 [("wreport/var.cc", "            memcpy(m_value.c, var.m_value.c, m_info->len + 1);", "            memset(m_value.c, 0, m_info->len + 1);\n            memcpy(m_value.c, var.m_value.c, m_info->len < 512 ? m_info->len + 1 : 512);")],
 '''int main() {
    _Varinfo vi; vi.set_string(WR_VAR(0, 60, 1), "TEST", 600);
    Var a(&vi, std::string(600, 'x')), b(a);
    EXPECT(b.enqs().size() == 600); EXPECT(a == b);
}''')

seed("c07-crex-long", "C07", "a CREX message longer than 64 kilobytes",
 "the message is cut",
 [("wreport/bulletin.cc", "        while (got < 8 && (c = getc(fd)) != EOF)", "        while (got < 8 && buf.size() < 65536 && (c = getc(fd)) != EOF)")],
 '''#include <cstdio>
int main() {
    std::string msg = "CREX++\\r\\r\\nT000103 A001 B01001++\\r\\r\\n";
    for (int i = 0; i < 20000; ++i) msg += "001+\\r\\r\\n";
    msg += "001++\\r\\r\\n7777";
    FILE* f = fopen("f", "w+"); fwrite(msg.data(), 1, msg.size(), f); rewind(f);
    std::string buf; long off;
    EXPECT(CrexBulletin::read(f, buf, "f", &off)); EXPECT(off == 0); EXPECT(buf == msg);
}''')

seed("c14-f-bits", "C14", "looking up a code that differs from an entry of the table only in its first part",
 "the entry of another kind of descriptor is returned",
 [("wreport/vartable.cc", "        if (begin == -1 || entries[begin].varinfo.code != code)\n            return nullptr;", "        if (begin == -1 || (entries[begin].varinfo.code & 0x3fff) != (code & 0x3fff))\n            return nullptr;")],
 '''int main() {
    const Vartable* t = Vartable::get_bufr(BufrTableID(0, 0, 0, 24, 0));
    int last = 0;
    for (int x = 0; x < 64; ++x) for (int y = 0; y < 256; ++y) if (t->contains(WR_VAR(0, x, y))) last = WR_VAR(0, x, y);
    for (int f = 1; f < 4; ++f) EXPECT(!t->contains(last | (f << 14)));
}''')

seed("c27-sub-skip", "C27", "a part longer than 1000 descriptors that does not start at the first one",
 "the part is shorter than asked",
 [("wreport/opcodes.h", "        else if (begin + skip + len >= end)\n            return Opcodes(begin + skip, end);", "        else if (begin + skip + len >= end)\n            return Opcodes(begin + skip, end);\n        else if (len > 1000)\n            return Opcodes(begin + skip, begin + len);")],
 '''int main() {
    std::vector<Varcode> v;
    for (int i = 0; i < 1500; ++i) v.push_back(WR_VAR(0, i / 200, i % 200));
    Opcodes o(v);
    EXPECT(o.sub(10, 1100).size() == 1100);
    EXPECT(o.sub(400, 2000).size() == 1100);
}''')
