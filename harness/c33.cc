// C33: tables imported from the files published by WMO are the same tables.
//
// src/wrep-importtable is run, in an embedded interpreter, on generated XML and zip files; the files that it writes are
// loaded with the library, and compared to what has been generated.
// cflags: -I/usr/include/python3.12
// ldflags: -lpython3.12
// depends: src/wrep-importtable
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "mc.h"
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/opcodes.h>
#include <wreport/error.h>
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <vector>
#include <unistd.h>
using namespace wreport;
using mc::fmt;
namespace fs = std::filesystem;

const char* mc::property = "C33";

namespace {

PyObject* globals = nullptr;

void py_init()
{
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    setenv("PYTHONHASHSEED", "0", 1);
    unsetenv("PYTHONPATH"); unsetenv("PYTHONHOME"); unsetenv("PYTHONSTARTUP");
    Py_InitializeEx(0);
    globals = PyModule_GetDict(PyImport_AddModule("__main__"));
    std::string code = R"(
import sys, os, io, logging, zipfile
with open(r'''@@''', 'rb') as fd:
    script = compile(fd.read(), 'wrep-importtable', 'exec')

def run(workdir, args):
    old = sys.argv, sys.stderr, sys.stdout, os.getcwd()
    logging.root.handlers.clear()
    out = io.StringIO()
    try:
        sys.argv = ['wrep-importtable'] + args
        sys.stderr = out
        sys.stdout = out
        os.chdir(workdir)
        try:
            exec(script, {'__name__': '__main__', '__builtins__': __builtins__, '__file__': 'wrep-importtable'})
            status = 0
        except SystemExit as e:
            status = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
        except BaseException as e:
            out.write(repr(e))
            status = 1
    finally:
        sys.argv, sys.stderr, sys.stdout = old[:3]
        os.chdir(old[3])
        logging.root.handlers.clear()
    return status, out.getvalue()

def make_zip(path, compress, members):
    with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED if compress else zipfile.ZIP_STORED) as zf:
        for name, data in members:
            zf.writestr(zipfile.ZipInfo(name, (2014, 8, 1, 0, 0, 0)), data, zipfile.ZIP_DEFLATED if compress else zipfile.ZIP_STORED)
)";
    std::string script = mc::repo() + "/src/wrep-importtable";
    code.replace(code.find("@@"), 2, script);
    if (PyRun_SimpleString(code.c_str()) != 0) { fprintf(stderr, "cannot load %s\n", script.c_str()); _exit(2); }
    // Import the modules that the script uses before workers are started
    PyRun_SimpleString("import re, argparse, xml.dom.minidom, xml.dom, xml.dom.expatbuilder, zipfile, zlib\n");
}

struct Result { long status; std::string output; };

PyObject* call(const char* name, PyObject* args)
{
    PyObject* f = PyDict_GetItemString(globals, name);
    PyObject* r = PyObject_CallObject(f, args);
    Py_DECREF(args);
    if (!r) { PyErr_Print(); mc::fail("%s failed", name); }
    return r;
}

Result run(const std::string& workdir, const std::vector<std::string>& args)
{
    PyObject* l = PyList_New(0);
    for (const auto& a: args)
    {
        PyObject* s = PyUnicode_FromString(a.c_str());
        PyList_Append(l, s);
        Py_DECREF(s);
    }
    PyObject* r = call("run", Py_BuildValue("(sN)", workdir.c_str(), l));
    Result res;
    res.status = PyLong_AsLong(PyTuple_GetItem(r, 0));
    const char* o = PyUnicode_AsUTF8(PyTuple_GetItem(r, 1));
    if (!o) PyErr_Clear();
    res.output = o ? o : "";
    Py_DECREF(r);
    mc::step();
    return res;
}

void make_zip(const std::string& path, bool compress, const std::vector<std::pair<std::string, std::string>>& members)
{
    PyObject* l = PyList_New(0);
    for (const auto& m: members)
    {
        PyObject* s = Py_BuildValue("(sy#)", m.first.c_str(), m.second.data(), (Py_ssize_t)m.second.size());
        PyList_Append(l, s);
        Py_DECREF(s);
    }
    Py_DECREF(call("make_zip", Py_BuildValue("(siN)", path.c_str(), (int)compress, l)));
}

/// Scratch directory of an execution: tables are cached by name, so names are not used twice
struct Dir
{
    std::string path;
    Dir()
    {
        static unsigned long seq = 0;
        path = mc::scratch() + fmt("/%d-%lu", (int)getpid(), seq++);
        fs::create_directories(path + "/out");
    }
    ~Dir() { std::error_code ec; fs::remove_all(path, ec); }
    std::string out() const { return path + "/out"; }
    std::set<std::string> files() const
    {
        std::set<std::string> res;
        for (const auto& e: fs::directory_iterator(out())) res.insert(e.path().filename());
        return res;
    }
};

void write(const std::string& path, const std::string& data)
{
    std::ofstream o(path, std::ios::binary);
    o.write(data.data(), data.size());
    o.close();
    if (!o) mc::fail("cannot write %s", path.c_str());
}

std::string escape(const std::string& s)
{
    std::string res;
    for (char c: s)
        switch (c)
        {
            case '&': res += "&amp;"; break;
            case '<': res += "&lt;"; break;
            case '>': res += "&gt;"; break;
            case '"': res += "&quot;"; break;
            default: res += c;
        }
    return res;
}

struct B
{
    std::string code, name = "NAME", unit = "M", crex_unit = "M";
    int scale = 0, ref = 0, bits = 8, crex_scale = 0, crex_len = 3;
    bool crex = true;
    bool old_name = false;

    std::string xml(const char* element) const
    {
        std::string r = fmt("<%s>\n<No>1</No><ClassNo>%s</ClassNo><ClassName_en>Class &amp; name</ClassName_en><FXY>%s</FXY>", element, code.substr(1, 2).c_str(), code.c_str());
        const char* n = old_name ? "ElementName_E" : "ElementName_en";
        r += fmt("<%s>%s</%s>", n, escape(name).c_str(), n);
        r += fmt("\n <BUFR_Unit>%s</BUFR_Unit><BUFR_Scale>%d</BUFR_Scale><BUFR_ReferenceValue>%d</BUFR_ReferenceValue><BUFR_DataWidth_Bits>%d</BUFR_DataWidth_Bits>",
                 escape(unit).c_str(), scale, ref, bits);
        if (crex)
            r += fmt("<CREX_Unit>%s</CREX_Unit><CREX_Scale>%d</CREX_Scale><CREX_DataWidth_Char>%d</CREX_DataWidth_Char>", escape(crex_unit).c_str(), crex_scale, crex_len);
        r += fmt("<Status>Operational</Status></%s>\n", element);
        return r;
    }
};

std::string btable(const std::vector<B>& entries, const char* element = "BUFRCREX_31_0_0_TableB_en", unsigned noise = 0)
{
    std::string r = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<dataroot>\n";
    for (const auto& e: entries)
    {
        if (noise & 1) r += "<!-- a comment -->\n";
        if (noise & 2) r += "<Other><FXY>005001</FXY><ElementName_en>NO</ElementName_en></Other>\n";
        r += e.xml(element);
    }
    return r + "</dataroot>\n";
}

typedef std::vector<std::pair<std::string, std::string>> Rows;

std::string dtable(const Rows& rows, const char* element = "BUFR_31_0_0_TableD_en")
{
    std::string r = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<dataroot>\n";
    for (const auto& e: rows)
    {
        r += fmt("<%s><No>1</No><Category>00</Category>", element);
        if (!e.first.empty()) r += fmt("<FXY1>%s</FXY1><Title_en>Title</Title_en>", e.first.c_str());
        if (!e.second.empty()) r += fmt("<FXY2>%s</FXY2><ElementName_en>Name</ElementName_en>", e.second.c_str());
        r += fmt("</%s>\n", element);
    }
    return r + "</dataroot>\n";
}

std::string upper(std::string s)
{
    for (auto& c: s) c = toupper((unsigned char)c);
    return s;
}

std::string rtrim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return s; }

std::string want_unit(std::string u, bool crex)
{
    u = upper(u);
    if (!crex && u == "CCITT IA5") u = "CCITTIA5";
    u = rtrim(u.substr(0, 24));
    for (const char* p: { "CODE TABLE", "CODETABLE" }) if (u.compare(0, strlen(p), p) == 0) return "CODE TABLE";
    for (const char* p: { "FLAG TABLE", "FLAGTABLE" }) if (u.compare(0, strlen(p), p) == 0) return "FLAG TABLE";
    return u;
}

void state_of(const std::string& path)
{
    std::ifstream in(path, std::ios::binary);
    mc::state(std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()));
}

void check_b(const std::string& path, const std::vector<B>& entries, bool crex)
{
    const Vartable* t = nullptr;
    try {
        t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path);
    } catch (std::exception& e) {
        mc::fail("the table that has been imported cannot be loaded: %s", e.what());
    }
    std::set<Varcode> codes;
    for (const auto& e: entries)
    {
        if (crex && !e.crex) continue;
        Varcode code = varcode_parse(e.code.c_str());
        codes.insert(code);
        if (!t->contains(code)) mc::fail("%s is missing from the %s table", e.code.c_str(), crex ? "CREX" : "BUFR");
        Varinfo i = t->query(code);
        std::string name = rtrim(e.name.substr(0, 64));
        if (name != i->desc) mc::fail("%s is called '%s' instead of '%s'", e.code.c_str(), i->desc, name.c_str());
        std::string unit = want_unit(crex ? e.crex_unit : e.unit, crex);
        if (unit != i->unit) mc::fail("%s: unit '%s' instead of '%s'", e.code.c_str(), i->unit, unit.c_str());
        if (crex)
        {
            if (i->scale != e.crex_scale) mc::fail("%s: CREX scale %d instead of %d", e.code.c_str(), i->scale, e.crex_scale);
            if ((int)i->len != e.crex_len) mc::fail("%s: CREX length %u instead of %d", e.code.c_str(), i->len, e.crex_len);
        }
        else
        {
            if (i->scale != e.scale) mc::fail("%s: scale %d instead of %d", e.code.c_str(), i->scale, e.scale);
            if (i->bit_ref != e.ref) mc::fail("%s: reference value %d instead of %d", e.code.c_str(), i->bit_ref, e.ref);
            if ((int)i->bit_len != e.bits) mc::fail("%s: %u bits instead of %d", e.code.c_str(), i->bit_len, e.bits);
        }
    }
    for (unsigned c = 0; c < 0x4000; ++c)
        if (t->contains(c) && !codes.count(c)) mc::fail("the table has %01d%02d%03d, that is not in the file imported", WR_VAR_FXY(c));
    state_of(path);
}

void check_d(const std::string& path, const Rows& rows)
{
    std::map<Varcode, std::vector<Varcode>> want;
    for (const auto& r: rows)
        if (!r.first.empty() && !r.second.empty())
            want[varcode_parse(r.first.c_str())].push_back(varcode_parse(r.second.c_str()));
    if (want.empty()) return;
    const DTable* t = nullptr;
    try {
        t = DTable::load_bufr(path);
    } catch (std::exception& e) {
        mc::fail("the table that has been imported cannot be loaded: %s", e.what());
    }
    for (const auto& w: want)
    {
        Opcodes o(nullptr, nullptr);
        try {
            o = t->query(w.first);
        } catch (error_notfound&) {
            mc::fail("%01d%02d%03d is missing from the D table", WR_VAR_FXY(w.first));
        }
        if (o.size() != w.second.size()) mc::fail("%01d%02d%03d has %zu elements instead of %zu", WR_VAR_FXY(w.first), o.size(), w.second.size());
        for (unsigned i = 0; i < o.size(); ++i)
            if (o[i] != w.second[i]) mc::fail("element %u of %01d%02d%03d is %01d%02d%03d instead of %01d%02d%03d", i, WR_VAR_FXY(w.first), WR_VAR_FXY(o[i]), WR_VAR_FXY(w.second[i]));
    }
    state_of(path);
    // No other sequence
    for (unsigned c = 0; c < 0x4000; ++c)
    {
        if (want.count(0xc000 | c)) continue;
        if ((c % 256 > 2 && c % 256 < 255) || ((c >> 8) > 2 && (c >> 8) < 63)) continue;
        bool found = true;
        try { t->query(0xc000 | c); } catch (error_notfound&) { found = false; }
        if (found) mc::fail("the table has 3%02d%03d, that is not in the file imported", (c >> 8) & 63, c & 255);
    }
}

void check_files(const Dir& d, std::set<std::string> want)
{
    auto f = d.files();
    for (const auto& n: want) if (!f.count(n)) mc::fail("%s has not been written", n.c_str());
    for (const auto& n: f) if (!want.count(n)) mc::fail("%s has been written: it should not", n.c_str());
}

/// Import B table entries as a XML file, and check the result
void import_b(const std::vector<B>& entries, const char* element = "BUFRCREX_31_0_0_TableB_en", unsigned noise = 0)
{
    Dir d;
    write(d.path + "/in.xml", btable(entries, element, noise));
    Result r = run(d.out(), {"--btable", d.path + "/in.xml"});
    if (r.status != 0) mc::fail("import failed: %s", r.output.c_str());
    check_files(d, {"B0000000000000255255.txt", "B00255255.txt"});
    check_b(d.out() + "/B0000000000000255255.txt", entries, false);
    check_b(d.out() + "/B00255255.txt", entries, false);
    // Only the entries of class 31 may be without a CREX definition
    bool crex = true;
    for (const auto& e: entries) if (!e.crex && e.code.substr(0, 3) != "031") crex = false;
    if (crex) check_b(d.out() + "/B00255255.txt", entries, true);
    mc::outcome("imported");
}

std::vector<std::string> names()
{
    std::vector<std::string> res = { "A", "Wind speed at 10m", "  leading blanks", "trailing  ", "a & b <c> \"d\" %s %d 'e'", "12345", "-", "Station or site name # (see note 3)", "100%", "{0}" };
    for (unsigned l: {23, 24, 25, 62, 63, 64, 65, 66, 100, 250})
    {
        std::string s;
        for (unsigned i = 0; i < l; ++i) s += 'a' + i % 26;
        res.push_back(s);
    }
    std::string s(63, 'x');
    res.push_back(s + " y");
    return res;
}

std::vector<std::string> units()
{
    std::vector<std::string> res = { "M", "m", "m/s", "Numeric", "NUMERIC", "CCITT IA5", "CCITTIA5", "ccitt ia5", "Code table", "CODE TABLE", "CODE TABLE 1001", "Code table 1 001", "Flag table", "FLAG TABLE 2002", "K", "degree true",
        "kg m-2 s-1", "%", "Pa", "CHARACTER", "Character", "C", "log(1/m2)" };
    for (unsigned l: {22, 23, 24, 25, 26, 40})
    {
        std::string s;
        for (unsigned i = 0; i < l; ++i) s += 'a' + i % 26;
        res.push_back(s);
    }
    return res;
}

void entry()
{
    B e;
    e.code = "012101";
    static const std::vector<std::string> codes = { "000001", "012101", "001255", "063001", "063255", "031001" };
    switch (mc::choose(4, "field"))
    {
        case 0: e.code = mc::pick(codes, "code"); e.name = mc::pick(names(), "name"); e.old_name = mc::flag("old name"); e.crex = mc::flag("crex"); break;
        case 1: e.unit = mc::pick(units(), "unit"); e.crex_unit = mc::pick(units(), "crex unit"); e.bits = mc::flag("256 bits") ? 256 : 32; if (want_unit(e.unit, false) != "CCITTIA5") e.bits = 32; break;
        case 2:
        {
            static const std::vector<int> scales = { -16, -10, -9, -1, 0, 1, 2, 9, 10, 15, 16 };
            static const std::vector<int> refs = { -2147483647, -1073741824, -99999, -40, -1, 0, 1, 9, 10, 1000, 123456789, 2147483647 };
            static const std::vector<int> bits = { 1, 2, 7, 8, 9, 10, 31, 32 };
            e.scale = mc::pick(scales, "scale");
            e.ref = mc::pick(refs, "ref");
            e.bits = mc::pick(bits, "bits");
            break;
        }
        case 3:
        {
            static const std::vector<int> scales = { -9, -5, -1, 0, 1, 2, 5, 9, 10, 15 };
            static const std::vector<int> lens = { 1, 2, 3, 4, 9, 10 };
            e.crex_scale = mc::pick(scales, "crex scale");
            e.crex_len = mc::pick(lens, "crex len");
            break;
        }
    }
    import_b({e});
}

B kind(const std::string& code, unsigned k)
{
    B e;
    e.code = code;
    e.name = "NAME OF " + code;
    switch (k)
    {
        case 0: e.unit = "m/s"; e.scale = 1; e.ref = -10; e.bits = 12; e.crex_unit = "km/h"; e.crex_scale = 2; e.crex_len = 5; break;
        case 1: e.unit = "CCITT IA5"; e.bits = 64; e.crex_unit = "Character"; e.crex_len = 8; break;
        case 2: e.unit = "Code table"; e.bits = 7; e.crex = false; e.old_name = true; break;
        case 3: e.unit = "Numeric"; e.scale = -2; e.ref = 5; e.bits = 20; e.crex_unit = "Numeric"; e.crex_scale = -2; e.crex_len = 4; e.name += std::string(60, 'n'); break;
    }
    return e;
}

void table()
{
    static const std::vector<std::string> codes = { "031001", "001002", "031255", "063003" };
    std::vector<std::string> left = codes;
    unsigned n = 1 + mc::choose(mc::thorough() ? 4 : 3, "entries");
    std::vector<B> entries;
    for (unsigned i = 0; i < n; ++i)
    {
        std::string c = mc::pick(left, "code");
        left.erase(std::find(left.begin(), left.end(), c));
        entries.push_back(kind(c, mc::choose(4, "kind")));
    }
    static const std::vector<const char*> elements = { "BUFRCREX_31_0_0_TableB_en", "Exp_BUFRCREXTableB_E" };
    const char* element = n < 3 ? mc::pick(elements, "element") : elements[0];
    import_b(entries, element, n < 3 ? mc::choose(4, "noise") : 0);
}

void dtables()
{
    static const std::vector<std::string> dcodes = { "300002", "363255", "301001" };
    static const std::vector<std::string> items = { "001001", "301001", "103000", "201130" };
    unsigned n = 1 + mc::choose(mc::thorough() ? 5 : 4, "rows");
    Rows rows;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = mc::choose(14, "row");
        if (k < 12) rows.push_back({ dcodes[k % 3], items[k / 3] });
        else if (k == 12) rows.push_back({ "300002", "" });
        else rows.push_back({ "", "001001" });
    }
    if (n > 3)
    {
        // Rows that have been seen to be independent of what they contain: look at the order only
        for (unsigned i = 0; i < n; ++i) if (rows[i].first.empty() || rows[i].second.empty()) mc::prune();
        for (unsigned i = 0; i < n; ++i) if (rows[i].second == "201130" || (n > 4 && rows[i].second == "103000")) mc::prune();
    }
    Dir d;
    write(d.path + "/in.xml", dtable(rows));
    Result r = run(d.out(), {"--dtable", d.path + "/in.xml"});
    if (r.status != 0) mc::fail("import failed: %s", r.output.c_str());
    check_files(d, {"D0000000000000255255.txt"});
    check_d(d.out() + "/D0000000000000255255.txt", rows);
    mc::outcome("imported");
}

void long_sequences()
{
    unsigned n = 1 + mc::choose(mc::thorough() ? 400 : 130, "length");
    unsigned where = mc::choose(3, "where");
    Rows rows;
    if (where != 0) rows.push_back({"300010", "001001"});
    for (unsigned i = 0; i < n; ++i) rows.push_back({ "301002", fmt("0%02u%03u", i % 64, (i * 7) % 256) });
    if (where == 2) rows.push_back({"300010", "001002"});
    if (where != 1) rows.push_back({"363001", "001003"});
    Dir d;
    write(d.path + "/in.xml", dtable(rows));
    Result r = run(d.out(), {"--dtable", d.path + "/in.xml"});
    if (r.status != 0) mc::fail("import failed: %s", r.output.c_str());
    check_d(d.out() + "/D0000000000000255255.txt", rows);
}

struct Zip
{
    unsigned v = 31, sv = 0, lv = 0;
    std::vector<B> b = { kind("001002", 1), kind("031001", 2), kind("063003", 0) };
    Rows bufr = { { "301001", "001001" }, { "301001", "001002" }, { "300002", "001001" } };
    Rows crex = { { "301001", "001002" }, { "300002", "001002" }, { "300002", "001001" } };
    std::string lang = "en";
    std::string name(const char* which, const char* t) const { return fmt("BUFRCREX_%u_%u_%u/%s_%u_%u_%u_Table%s_%s.xml", v, sv, lv, which, v, sv, lv, t, lang.c_str()); }

    void check(const Dir& d)
    {
        std::string vv = fmt("%03u%03u", v, sv), cv = fmt("%02u%02u", v, sv);
        check_files(d, { "B0000000000000" + vv + ".txt", "B00" + cv + ".txt", "D0000000000000" + vv + ".txt", "D00" + cv + ".txt" });
        check_b(d.out() + "/B0000000000000" + vv + ".txt", b, false);
        check_b(d.out() + "/B00" + cv + ".txt", b, true);
        check_d(d.out() + "/D0000000000000" + vv + ".txt", bufr);
        check_d(d.out() + "/D00" + cv + ".txt", crex);
    }
};

void zips()
{
    Zip z;
    static const std::vector<std::vector<unsigned>> versions = { {31, 0, 0}, {18, 0, 0}, {9, 0, 0}, {1, 2, 3}, {100, 1, 0}, {0, 0, 0} };
    unsigned what = mc::choose(3, "what");
    if (what == 0) { auto v = mc::pick(versions, "version"); z.v = v[0]; z.sv = v[1]; z.lv = v[2]; z.lang = mc::flag("E") ? "E" : "en"; }
    std::vector<std::pair<std::string, std::string>> members = {
        { z.name("BUFRCREX", "B"), btable(z.b) }, { z.name("BUFR", "D"), dtable(z.bufr) }, { z.name("CREX", "D"), dtable(z.crex, "CREX_31_0_0_TableD_en") } };
    std::vector<unsigned> order = {0, 1, 2};
    unsigned missing = 0;
    if (what == 1)
    {
        // All orders, all subsets
        unsigned perm = mc::choose(6, "order");
        for (unsigned i = 0; i < perm; ++i) std::next_permutation(order.begin(), order.end());
        missing = mc::choose(8, "missing");
    }
    std::vector<std::pair<std::string, std::string>> sel;
    // Files that are not tables to import
    static const std::vector<std::string> others = { "BUFRCREX_31_0_0/", "BUFRCREX_31_0_0/README.txt", "BUFRCREX_31_0_0/BUFRCREX_31_0_0_CodeFlag_en.xml", "BUFRCREX_31_0_0/BUFR_31_0_0_TableA_en.xml", "BUFRCREX_31_0_0/CREX_31_0_0_TableA_en.xml",
        "BUFRCREX_31_0_0/BUFR_31_0_0_TableC_en.xml", "BUFRCREX_31_0_0/BUFRCREX_31_0_0_TableB_fr.xml", "BUFRCREX_31_0_0/BUFRCREX_31_0_0_TableB_en.txt", "BUFRCREX_31_0_0_TableB_en.xml", "BUFRCREX_31_0_0/BUFR_31_0_0_TableD_fr.xml", "BUFRCREX_31_0_0/CREX_31_0_0_TableD_en.xml.bak" };
    unsigned pos = 0;
    std::string other;
    if (what == 2) { other = mc::pick(others, "other"); pos = mc::choose(4, "position"); }
    for (unsigned i = 0; i <= 3; ++i)
    {
        if (!other.empty() && pos == i) sel.push_back({ other, other.back() == '/' ? "" : mc::flag("is a table") ? btable({kind("002001", 0)}) : "xx" });
        if (i < 3 && !(missing & (1 << order[i]))) sel.push_back(members[order[i]]);
    }
    bool compress = mc::flag("compress");
    Dir d;
    make_zip(d.path + "/in.zip", compress, sel);
    Result r = run(d.out(), {"--zipfile", d.path + "/in.zip"});
    if (missing)
    {
        if (r.status == 0) mc::fail("a zip file without some of the tables is imported with no error");
        mc::outcome("error");
        return;
    }
    if (r.status != 0) mc::fail("import failed: %s", r.output.c_str());
    z.check(d);
    mc::outcome("imported");
}

/// All truncations, and all faults of one byte, of a zip file
void zip_faults()
{
    Zip z;
    z.b = { kind("001002", 1) }; z.bufr = { { "300002", "001001" } }; z.crex = { { "300002", "001002" } };
    bool compress = true;
    Dir d;
    std::string path = d.path + "/in.zip";
    make_zip(path, compress, { { z.name("BUFRCREX", "B"), btable(z.b) }, { z.name("BUFR", "D"), dtable(z.bufr) }, { z.name("CREX", "D"), dtable(z.crex) } });
    std::string data;
    {
        std::ifstream in(path, std::ios::binary);
        data.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
    }
    unsigned at = mc::choose(data.size(), "position");
    unsigned how = mc::choose(mc::thorough() ? 9 : 3, "fault");
    if (how == 0) data.resize(at);
    else if (how == 1) data[at] ^= 0xff;
    else data[at] ^= 1 << (how - 2);
    write(path, data);
    Result r = run(d.out(), {"--zipfile", path});
    if (r.status != 0) { mc::outcome("error"); return; }
    if (how == 0) mc::fail("a truncated zip file is imported with no error");
    z.check(d);
    mc::outcome("imported");
}

/// What cannot be imported gives an error
void faults()
{
    Dir d;
    std::string in = d.path + "/in.xml";
    unsigned what = mc::choose(5, "what");
    std::vector<std::string> args = { "--btable", in };
    std::vector<B> b = { kind("001002", 1), kind("063003", 0) };
    switch (what)
    {
        case 0:
        {
            // Truncated XML
            bool isd = mc::flag("D table");
            std::string x = isd ? dtable({ { "300002", "001001" } }) : btable(b);
            x = rtrim(x);
            x.resize(mc::choose(x.size(), "length"));
            write(in, x);
            if (isd) args[0] = "--dtable";
            break;
        }
        case 1:
        {
            // Fields that are needed
            static const std::vector<std::string> fields = { "FXY", "ElementName_en", "BUFR_Unit", "BUFR_Scale", "BUFR_ReferenceValue", "BUFR_DataWidth_Bits" };
            std::string f = mc::pick(fields, "field");
            std::string x = btable(b);
            size_t p = x.find("<" + f + ">");
            if (mc::flag("second")) p = x.find("<" + f + ">", p + 1);
            size_t e = x.find("</" + f + ">", p);
            x.erase(p, e + f.size() + 3 - p);
            write(in, x);
            break;
        }
        case 2:
        {
            // Numbers that are not numbers
            static const std::vector<std::string> fields = { "BUFR_Scale", "BUFR_ReferenceValue", "BUFR_DataWidth_Bits", "CREX_Scale", "CREX_DataWidth_Char" };
            static const std::vector<std::string> values = { "", "x", "1x", "1.5", "-", "1 2" };
            std::string f = mc::pick(fields, "field");
            std::string x = btable(b);
            size_t p = x.find("<" + f + ">");
            if (mc::flag("second")) p = x.find("<" + f + ">", p + 1);
            p += f.size() + 2;
            size_t e = x.find("<", p);
            x.replace(p, e - p, mc::pick(values, "value"));
            write(in, x);
            break;
        }
        case 3:
        {
            // Missing input
            static const std::vector<std::string> opts = { "--btable", "--dtable", "--zipfile" };
            args[0] = mc::pick(opts, "option");
            if (mc::flag("directory")) fs::create_directory(in);
            break;
        }
        case 4:
            // Not a zip file
            write(in, btable(b));
            args[0] = "--zipfile";
            break;
    }
    Result r = run(d.out(), args);
    if (r.status == 0) mc::fail("input that cannot be imported gives no error");
    if (r.output.empty()) mc::fail("the error is not reported");
    mc::outcome("error");
}

/// Files are replaced, others are left alone
void replaces()
{
    static const std::vector<std::string> old = { "", "x", std::string(100000, 'y') };
    Dir d;
    unsigned what = mc::choose(3, "what");
    std::vector<std::string> targets = what == 0 ? std::vector<std::string>{"B0000000000000255255.txt", "B00255255.txt"} : what == 1 ? std::vector<std::string>{"D0000000000000255255.txt"} :
        std::vector<std::string>{ "B0000000000000031000.txt", "B003100.txt", "D0000000000000031000.txt", "D003100.txt" };
    static const std::vector<std::string> others = { "B0000000000000031001.txt", "D00255255.txt", "unrelated" };
    for (const auto& t: targets) write(d.out() + "/" + t, mc::pick(old, "old contents"));
    for (const auto& t: others) write(d.out() + "/" + t, "keep");
    Zip z;
    std::vector<std::string> args = { what == 0 ? "--btable" : what == 1 ? "--dtable" : "--zipfile", d.path + "/in" };
    if (mc::flag("verbose")) args.push_back("--verbose");
    if (what == 2) make_zip(args[1], true, { { z.name("BUFRCREX", "B"), btable(z.b) }, { z.name("BUFR", "D"), dtable(z.bufr) }, { z.name("CREX", "D"), dtable(z.crex) } });
    else write(args[1], what == 0 ? btable(z.b) : dtable(z.bufr));
    Result r = run(d.out(), args);
    if (r.status != 0) mc::fail("import failed: %s", r.output.c_str());
    for (const auto& t: others)
    {
        std::ifstream in(d.out() + "/" + t);
        std::string s;
        in >> s;
        if (s != "keep") mc::fail("%s has been changed", t.c_str());
        fs::remove(d.out() + "/" + t);
    }
    if (what == 2) z.check(d);
    else if (what == 0) { check_b(d.out() + "/" + targets[0], z.b, false); check_b(d.out() + "/" + targets[1], z.b, true); }
    else check_d(d.out() + "/" + targets[0], z.bufr);
}

}

void mc::setup()
{
    py_init();
    Options o; o.leaks = false;
    mc::add("entry", entry, o);
    mc::add("table", table, o);
    mc::add("dtables", dtables, o);
    mc::add("long-sequences", long_sequences, o);
    mc::add("zips", zips, o);
    mc::add("zip-faults", zip_faults, o);
    mc::add("faults", faults, o);
    mc::add("replaces", replaces, o);
}
