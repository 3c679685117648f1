// C34: helpers for strings, paths and encodings are exact for every string.
#include "mc.h"
#include <wreport/utils/string.h>
#include <algorithm>
#include <cstring>
#include <list>
#include <vector>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace wreport;

const char* mc::property = "C34";

namespace {

std::string choose_string(const std::string& alphabet, unsigned maxlen)
{
    unsigned len = mc::choose(maxlen + 1, "length");
    std::string s;
    for (unsigned i = 0; i < len; ++i) s += alphabet[mc::choose(alphabet.size(), "char")];
    return s;
}

#define EQ(what, got, expected) do { std::string g_ = (got), e_ = (expected); mc::step(); if (g_ != e_) mc::fail("%s is \"%s\" instead of \"%s\"", std::string(what).c_str(), mc::esc(g_).c_str(), mc::esc(e_).c_str()); } while (0)
#define CALL(name, s) (std::string(name "(\"") + mc::esc(s) + "\")")

bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }

/// Stripping, and changes of case
void strip()
{
    static const std::string alphabet(" \t\na\0\xa0", 6);
    std::string s = choose_string(alphabet, mc::thorough() ? 9 : 7);
    mc::state(s);
    size_t b = 0, e = s.size();
    while (b < e && space(s[b])) ++b;
    while (e > b && space(s[e - 1])) --e;
    EQ(CALL("strip", s), str::strip(s), std::string(s, b, e - b));
    EQ(CALL("lstrip", s), str::lstrip(s), std::string(s, b));
    size_t e1 = s.size();
    while (e1 > 0 && space(s[e1 - 1])) --e1;
    EQ(CALL("rstrip", s), str::rstrip(s), std::string(s, 0, e1));
}

void letters()
{
    // All bytes, with another one before or after
    unsigned c = mc::choose(256, "char");
    unsigned pos = mc::choose(3, "position");
    std::string s(1, (char)c);
    if (pos == 1) s = "m" + s; else if (pos == 2) s += "M";
    std::string up, low;
    for (char k: s) { up += k >= 'a' && k <= 'z' ? (char)(k - 32) : k; low += k >= 'A' && k <= 'Z' ? (char)(k + 32) : k; }
    EQ(CALL("upper", s), str::upper(s), up);
    EQ(CALL("lower", s), str::lower(s), low);
    bool sp = space((char)c);
    EQ(CALL("strip", s), str::strip(s), !sp ? s : pos == 0 ? "" : pos == 1 ? "m" : "M");
    mc::state(c * 4 + pos);
}

/// Prefixes and suffixes
void affixes()
{
    std::string s = choose_string(std::string("ab\0", 3), 5), p = choose_string(std::string("ab\0", 3), 4);
    mc::step(2);
    bool st = p.size() <= s.size() && memcmp(s.data(), p.data(), p.size()) == 0;
    bool en = p.size() <= s.size() && memcmp(s.data() + s.size() - p.size(), p.data(), p.size()) == 0;
    if (str::startswith(s, p) != st) mc::fail("startswith(\"%s\", \"%s\") is %d", mc::esc(s).c_str(), mc::esc(p).c_str(), !st);
    if (str::endswith(s, p) != en) mc::fail("endswith(\"%s\", \"%s\") is %d", mc::esc(s).c_str(), mc::esc(p).c_str(), !en);
    mc::state(s + "|" + p);
}

typedef std::vector<std::string> Strings;

/// What splitting gives
Strings model_split(const std::string& s, const std::string& sep, bool skip_empty)
{
    Strings res;
    if (s.empty()) return res;
    size_t pos = 0;
    while (true)
    {
        size_t found = std::string::npos;
        for (size_t i = pos; i + sep.size() <= s.size() && found == std::string::npos; ++i)
            if (memcmp(s.data() + i, sep.data(), sep.size()) == 0) found = i;
        std::string tok = found == std::string::npos ? s.substr(pos) : s.substr(pos, found - pos);
        if (!tok.empty() || !skip_empty) res.push_back(tok);
        if (found == std::string::npos) return res;
        pos = found + sep.size();
    }
}

std::string show(const Strings& s)
{
    std::string r = "[";
    for (auto& i: s) { if (r.size() > 1) r += ", "; r += "\"" + mc::esc(i) + "\""; }
    return r + "]";
}

void check_split(const std::string& s, const std::string& sep, bool skip)
{
    Strings expected = model_split(s, sep, skip);
    std::string what = mc::fmt("Split(\"%s\", \"%s\", %d)", mc::esc(s).c_str(), mc::esc(sep).c_str(), (int)skip);
    str::Split split(s, sep, skip);
    Strings got;
    for (const auto& i: split)
    {
        got.push_back(i);
        if (got.size() > s.size() + 2) mc::fail("%s goes on: %s", what.c_str(), show(got).c_str());
        mc::step();
    }
    if (got != expected) mc::fail("%s gives %s instead of %s", what.c_str(), show(got).c_str(), show(expected).c_str());
    // The same, and what remains, with explicit iterators
    unsigned n = 0;
    str::Split::const_iterator i = split.begin();
    for ( ; i != split.end(); ++i, ++n)
    {
        if (i == split.end() || !(i == i) || i != i) mc::fail("%s: iterators do not compare well at token %u", what.c_str(), n);
        if (n >= expected.size() || *i != expected[n] || i->size() != expected[n].size()) mc::fail("%s: wrong token %u", what.c_str(), n);
        str::Split::const_iterator copy = i;
        ++copy;
        if ((copy == split.end()) != (n + 1 == expected.size())) mc::fail("%s: the end is not after token %zu", what.c_str(), expected.size());
        if (copy == i || !(copy != i)) mc::fail("%s: the iterator after token %u compares as the one before", what.c_str(), n);
        // What remains, when split, gives the tokens that follow. Nothing remains where splitting it would give no token
        Strings after(expected.begin() + n + 1, expected.end());
        Strings rest = model_split(i.remainder(), sep, skip);
        if (!skip && after.size() == 1 && after[0].empty()) after.clear();
        if (rest != after) mc::fail("%s: after token %u remains \"%s\"", what.c_str(), n, mc::esc(i.remainder()).c_str());
        if (skip && n + 1 == expected.size() && !i.remainder().empty()) mc::fail("%s: after the last token remains \"%s\"", what.c_str(), mc::esc(i.remainder()).c_str());
    }
    if (i != split.end() || !(i == split.end())) mc::fail("%s: iterators do not compare well at the end", what.c_str());
    if (!i.remainder().empty()) mc::fail("%s: something remains at the end", what.c_str());
    ++i;
    if (i != split.end()) mc::fail("%s: going past the end does not stay there", what.c_str());
    // Joining gives back the original
    if (!skip && str::join(sep, got) != s) mc::fail("%s: joining gives \"%s\"", what.c_str(), mc::esc(str::join(sep, got)).c_str());
    mc::state(s + "|" + sep + (skip ? "1" : "0"));
}

void split()
{
    static const Strings seps { "/", "ab", "aa", "//", std::string("\0", 1), "aba" };
    std::string sep = mc::pick(seps, "separator");
    std::string s = choose_string(sep[0] == 0 ? std::string("a\0", 2) : sep.size() == 1 || sep == "//" ? "a/" : "ab", mc::thorough() ? 14 : 11);
    check_split(s, sep, mc::flag("skip empty"));
}

/// With no separator there is a token for each character
void split_empty()
{
    std::string s = choose_string("ab/", 6);
    bool skip = mc::flag("skip empty");
    Strings expected, got;
    for (char c: s) expected.push_back(std::string(1, c));
    for (const auto& i: str::Split(s, "", skip))
    {
        got.push_back(i);
        if (got.size() > s.size() + 2) mc::fail("splitting \"%s\" without a separator does not end", s.c_str());
    }
    // It is not specified if there is an empty one at the end
    if (!skip && got.size() > s.size() && got.back().empty()) got.pop_back();
    if (got != expected) mc::fail("splitting \"%s\" without a separator gives %s", s.c_str(), show(got).c_str());
    mc::step();
    mc::state(s);
}

void join()
{
    static const Strings seps { "", ",", ", ", std::string("\0", 1) };
    std::string sep = mc::pick(seps, "separator");
    unsigned n = mc::choose(4, "items");
    Strings items;
    std::vector<int> nums;
    for (unsigned i = 0; i < n; ++i) { items.push_back(choose_string("a,", 2)); nums.push_back((int)i * 100 - 100); }
    std::string expected, expnum;
    for (unsigned i = 0; i < n; ++i) { if (i) { expected += sep; expnum += sep; } expected += items[i]; expnum += std::to_string(nums[i]); }
    EQ("join", str::join(sep, items), expected);
    EQ("join of iterators", str::join(sep, items.begin(), items.end()), expected);
    EQ("join of a list", str::join(sep, std::list<std::string>(items.begin(), items.end())), expected);
    EQ("join of numbers", str::join(sep, nums), expnum);
    mc::state(expected + "|" + sep);
}

/// The components of a path
Strings components(const std::string& s)
{
    Strings res;
    std::string cur;
    for (char c: s + "/") if (c == '/') { if (!cur.empty()) res.push_back(cur); cur.clear(); } else cur += c;
    return res;
}

std::string collapse(const std::string& s)
{
    std::string r;
    for (char c: s) if (c != '/' || r.empty() || r.back() != '/') r += c;
    return r;
}

void paths()
{
    std::string s = choose_string("a./", mc::thorough() ? 12 : 10);
    mc::state(s);
    Strings c = components(s);
    bool abs = !s.empty() && s[0] == '/';
    // Normalised
    Strings n;
    for (auto& i: c)
    {
        if (i == ".") continue;
        if (i != "..") n.push_back(i);
        else if (!n.empty() && n.back() != "..") n.pop_back();
        else if (!abs) n.push_back(i);
    }
    std::string norm = abs ? "/" : "";
    for (size_t i = 0; i < n.size(); ++i) norm += (i ? "/" : "") + n[i];
    if (norm.empty()) norm = ".";
    EQ(CALL("normpath", s), str::normpath(s), norm);
    EQ(CALL("normpath twice on", s), str::normpath(norm), norm);
    // Last component
    size_t slash = s.rfind('/');
    EQ(CALL("basename", s), str::basename(s), slash == std::string::npos ? s : s.substr(slash + 1));
    // All the others
    std::string dir = str::dirname(s);
    Strings d = c;
    if (!d.empty()) d.pop_back();
    if (d.empty()) EQ(CALL("dirname", s), dir, abs ? "/" : ".");
    else
    {
        if (components(dir) != d || (dir[0] == '/') != abs || dir.back() == '/') mc::fail("%s is \"%s\"", CALL("dirname", s).c_str(), dir.c_str());
        if (s.compare(0, dir.size(), dir) != 0) mc::fail("%s is \"%s\"", CALL("dirname", s).c_str(), dir.c_str());
        mc::step();
    }
}

void append()
{
    std::string a = choose_string("a/", 4), b = choose_string("b/", 3);
    std::string got = a;
    str::appendpath(got, b);
    std::string what = mc::fmt("appendpath(\"%s\", \"%s\")", a.c_str(), b.c_str());
    if (a.empty()) EQ(what, got, b);
    else if (b.empty()) EQ(what, got, a);
    else
    {
        EQ(what + " without repeated slashes", collapse(got), collapse(a + "/" + b));
        if (a == collapse(a) && b == collapse(b)) EQ(what, got, collapse(a + "/" + b));
    }
    std::string other = a;
    str::appendpath(other, b.c_str());
    EQ(what + " of a C string", other, got);
    EQ("joinpath", str::joinpath(a, b), got);
    std::string three = got;
    str::appendpath(three, "c");
    EQ("joinpath of three", str::joinpath(a, b, "c"), three);
    std::string many = a;
    str::appendpath(many, b, std::string("c"));
    EQ("appendpath of two", many, three);
    mc::state(a + "|" + b);
}

std::string unhex(const std::string& s) { return std::string(1, (char)strtoul(s.c_str(), nullptr, 16)); }

/// C strings: all short strings
void check_cstring(const std::string& s)
{
    std::string enc = str::encode_cstring(s);
    mc::step(2);
    for (size_t i = 0; i < enc.size(); ++i)
    {
        unsigned char c = enc[i];
        if (c < 32 || c == 127) mc::fail("encode_cstring(\"%s\") has a control character", mc::esc(s).c_str());
        if (c == '"') mc::fail("encode_cstring(\"%s\") has a double quote not escaped: %s", mc::esc(s).c_str(), enc.c_str());
        if (c == '\\')
        {
            ++i;
            if (i >= enc.size() || !strchr("nt\"\\x", enc[i])) mc::fail("encode_cstring(\"%s\") is %s", mc::esc(s).c_str(), enc.c_str());
            if (enc[i] == 'x') { if (i + 2 >= enc.size() || !isxdigit(enc[i + 1]) || !isxdigit(enc[i + 2])) mc::fail("encode_cstring(\"%s\") is %s", mc::esc(s).c_str(), enc.c_str()); i += 2; }
        }
    }
    // Alone, and followed by something else
    for (const char* tail: { "", "\"", "\"x", "\"\"" })
    {
        size_t len = 12345;
        std::string dec = str::decode_cstring(enc + tail, len);
        if (dec != s) mc::fail("decode_cstring(\"%s\") is \"%s\" instead of \"%s\"", mc::esc(enc + tail).c_str(), mc::esc(dec).c_str(), mc::esc(s).c_str());
        size_t explen = enc.size() + (*tail ? 1 : 0);
        if (len != explen) mc::fail("decode_cstring(\"%s\") parses %zu characters instead of %zu", mc::esc(enc + tail).c_str(), len, explen);
    }
}

void cstring()
{
    static const std::string alphabet("a1f\\\"\n\t\0\x01\x7f\xe9x\r", 13);
    std::string s = choose_string(alphabet, mc::thorough() ? 6 : 5);
    mc::state(s);
    check_cstring(s);
}

/// All pairs of bytes, in all encodings
void bytes()
{
    std::string s(1, (char)mc::choose(256, "first"));
    for (int c = -1; c < 256; ++c)
    {
        std::string t = s;
        if (c >= 0) t += (char)c;
        check_cstring(t);
        EQ(CALL("decode_url after encoding", t), str::decode_url(str::encode_url(t)), t);
        EQ(CALL("decode_base64 after encoding", t), str::decode_base64(str::encode_base64(t)), t);
        mc::state(t);
    }
}

/// Anything can be decoded
void decode_cstring()
{
    std::string s = choose_string("\\x0aFn\"g", mc::thorough() ? 7 : 6);
    mc::state(s);
    std::string expected;
    size_t i = 0;
    while (i < s.size() && s[i] != '"')
    {
        if (s[i] != '\\' || i + 1 == s.size()) { expected += s[i++]; continue; }
        char e = s[i + 1];
        i += 2;
        if (e == 'n') expected += '\n';
        else if (e == 't') expected += '\t';
        else if (e != 'x') expected += e;
        else
        {
            std::string h;
            while (h.size() < 2 && i < s.size() && isxdigit((unsigned char)s[i])) h += s[i++];
            // With no digits it is not specified what it gives
            if (h.empty()) { size_t len; str::decode_cstring(s, len); mc::prune(); }
            expected += unhex(h);
        }
    }
    if (i < s.size()) ++i;
    size_t len = 12345;
    EQ(CALL("decode_cstring", s), str::decode_cstring(s, len), expected);
    if (len != i) mc::fail("%s parses %zu characters instead of %zu", CALL("decode_cstring", s).c_str(), len, i);
}

bool url_plain(unsigned char c) { return isalnum(c) || (c && strchr("-_.~!*'()", c)); }

void url()
{
    static const std::string alphabet("aZ09-%/ +\0\xff&~.", 14);
    std::string s = choose_string(alphabet, mc::thorough() ? 6 : 5);
    mc::state(s);
    std::string enc = str::encode_url(s);
    // What can be in an URL as it is may be encoded or not, everything else is
    std::string dec;
    for (size_t i = 0; i < enc.size(); ++i)
    {
        if (url_plain(enc[i])) { dec += enc[i]; continue; }
        if (enc[i] != '%' || i + 2 >= enc.size() || !isxdigit((unsigned char)enc[i + 1]) || !isxdigit((unsigned char)enc[i + 2])) mc::fail("%s is \"%s\"", CALL("encode_url", s).c_str(), mc::esc(enc).c_str());
        dec += unhex(enc.substr(i + 1, 2)); i += 2;
    }
    EQ(CALL("the meaning of encode_url", s), dec, s);
    EQ(CALL("decode_url", enc), str::decode_url(enc), s);
    for (char c: s) if (isalnum((unsigned char)c) && enc.find(c) == std::string::npos) mc::fail("%s is \"%s\"", CALL("encode_url", s).c_str(), mc::esc(enc).c_str());
}

void decode_url()
{
    std::string s = choose_string("%4aFg+", mc::thorough() ? 7 : 6);
    mc::state(s);
    std::string expected;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] != '%') { expected += s[i]; continue; }
        // A partial one at the end is ignored
        if (i + 2 >= s.size()) break;
        // What is not hexadecimal is not specified
        if (!isxdigit((unsigned char)s[i + 1]) || !isxdigit((unsigned char)s[i + 2])) { str::decode_url(s); mc::prune(); }
        expected += unhex(s.substr(i + 1, 2)); i += 2;
    }
    EQ(CALL("decode_url", s), str::decode_url(s), expected);
}

std::string model_base64(const std::string& s)
{
    static const char* digits = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    unsigned acc = 0, bits = 0;
    for (unsigned char c: s)
    {
        acc = (acc << 8 | c) & 0xffff; bits += 8;
        while (bits >= 6) { bits -= 6; r += digits[(acc >> bits) & 63]; }
    }
    if (bits) r += digits[(acc << (6 - bits)) & 63];
    while (r.size() % 4) r += '=';
    return r;
}

void check_base64(const std::string& s)
{
    std::string expected = model_base64(s);
    EQ(CALL("encode_base64", s), str::encode_base64(s), expected);
    std::vector<char> exact(s.begin(), s.end());
    EQ(CALL("encode_base64 of data", s), str::encode_base64(exact.data(), exact.size()), expected);
    EQ(CALL("decode_base64", expected), str::decode_base64(expected), s);
}

void base64()
{
    static const std::string alphabet("\0\x01=A\x7f\x80\xfb\xff", 8);
    std::string s = choose_string(alphabet, mc::thorough() ? 8 : 7);
    mc::state(s);
    check_base64(s);
}

/// All lengths, and all 6 bit groups in all positions
void base64_long()
{
    unsigned len = mc::choose(200, "length"), salt = mc::choose(64, "salt");
    std::string s;
    for (unsigned i = 0; i < len; ++i) s += (char)(i * 37 + salt * 5 + (i * i) / 7);
    mc::state(s);
    check_base64(s);
}

/// Decoding anything is harmless, and gives no more than what there can be
void decode_base64()
{
    static const std::string alphabet("A+/z=9{|*,\x80\xff\0Zb", 15);
    std::string s = choose_string(alphabet, mc::thorough() ? 6 : 5);
    mc::state(s);
    mc::step();
    std::string res = str::decode_base64(s);
    if (res.size() > (s.size() + 3) / 4 * 3) mc::fail("%s gives %zu bytes", CALL("decode_base64", s).c_str(), res.size());
}

}

void mc::setup()
{
    Options o; o.leaks = false;
    add("strip", strip, o);
    add("letters", letters, o);
    add("affixes", affixes, o);
    add("split", split, o);
    add("split-characters", split_empty, o);
    add("join", join, o);
    add("paths", paths, o);
    add("append", append, o);
    add("cstring", cstring, o);
    add("bytes", bytes, o);
    add("decode-cstring", decode_cstring, o);
    add("url", url, o);
    add("decode-url", decode_url, o);
    add("base64", base64, o);
    add("base64-long", base64_long, o);
    add("decode-base64", decode_base64, o);
}
