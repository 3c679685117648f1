// C25: the Python bindings agree with the C++ library.
//
// Python is embedded in the harness, with the bindings compiled in with the same instrumentation as the library.
// sources: python/*.cc python/utils/*.cc
// cflags: -I/usr/include/python3.12 -iquote {REPO}/python
// ldflags: -lpython3.12
#include <wreport/python.h>
#include "mc.h"
#include <wreport/var.h>
#include <wreport/vartable.h>
#include <wreport/tableinfo.h>
#include <wreport/conv.h>
#include <wreport/error.h>
#include <functional>
#include <memory>
#include <vector>
#include <map>
#include <cmath>
#include <climits>
#include <cstring>
using namespace wreport;
using mc::fmt;

const char* mc::property = "C25";

extern "C" PyObject* PyInit__wreport(void);

namespace {

// Owned reference
struct Ref
{
    PyObject* o;
    Ref(PyObject* o = nullptr) : o(o) {}
    Ref(Ref&& r) : o(r.o) { r.o = nullptr; }
    Ref(const Ref& r) : o(r.o) { Py_XINCREF(o); }
    Ref& operator=(Ref r) { std::swap(o, r.o); return *this; }
    ~Ref() { Py_XDECREF(o); }
    operator PyObject*() const { return o; }
};

/// Names are interned, as otherwise the cache of attribute lookups keeps alive a new string for each lookup
PyObject* getattr(PyObject* o, const char* name)
{
    Ref n(PyUnicode_InternFromString(name));
    return PyObject_GetAttr(o, n);
}

wrpy_c_api* api = nullptr;
PyObject *py_Var = nullptr, *py_Varinfo = nullptr, *py_Vartable = nullptr, *py_convert = nullptr, *py_globals = nullptr;

void py_init()
{
    setenv("PYTHONMALLOC", "malloc", 1);
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    setenv("PYTHONHASHSEED", "0", 1);
    unsetenv("PYTHONPATH"); unsetenv("PYTHONHOME"); unsetenv("PYTHONSTARTUP");
    PyImport_AppendInittab("_wreport", PyInit__wreport);
    Py_InitializeEx(0);
    std::string code = "import sys; sys.path.insert(0, '" + mc::repo() + "/python')\nimport wreport\nimport pathlib, copy, pickle\n";
    if (PyRun_SimpleString(code.c_str()) != 0) { fprintf(stderr, "cannot import wreport\n"); _exit(2); }
    api = (wrpy_c_api*)PyCapsule_Import("_wreport._C_API", 0);
    PyObject* m = PyImport_ImportModule("wreport");
    if (!api || !m) { PyErr_Print(); _exit(2); }
    py_Var = getattr(m, "Var");
    py_Varinfo = getattr(m, "Varinfo");
    py_Vartable = getattr(m, "Vartable");
    py_convert = getattr(m, "convert_units");
    py_globals = PyModule_GetDict(PyImport_AddModule("__main__"));
}

Ref eval(const std::string& expr)
{
    Ref r(PyRun_String(expr.c_str(), Py_eval_input, py_globals, py_globals));
    if (!r) { PyErr_Print(); fprintf(stderr, "cannot evaluate %s\n", expr.c_str()); _exit(2); }
    return r;
}

/// Name of the exception that is set, which is cleared
std::string take_error()
{
    if (!PyErr_Occurred()) return "";
    Ref e(PyErr_GetRaisedException());
    return std::string("raised ") + Py_TYPE(e.o)->tp_name;
}

std::string desc(PyObject* o)
{
    if (!o) return take_error();
    if (PyFloat_Check(o)) return fmt("float %.17g", PyFloat_AsDouble(o));
    if (PyUnicode_Check(o))
    {
        Py_ssize_t n; const char* s = PyUnicode_AsUTF8AndSize(o, &n);
        if (!s) { PyErr_Clear(); return "str ?"; }
        return "str " + mc::esc(std::string(s, n));
    }
    if (PyBytes_Check(o)) return "bytes " + mc::hex(std::string(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o)));
    if (PyBool_Check(o)) return o == Py_True ? "True" : "False";
    if (PyLong_Check(o)) { int ov; return fmt("int %lld", PyLong_AsLongLongAndOverflow(o, &ov)); }
    if (o == Py_None) return "None";
    if (PyObject_TypeCheck(o, (PyTypeObject*)py_Varinfo)) return "Varinfo";
    if (PyObject_TypeCheck(o, (PyTypeObject*)py_Var)) return "Var";
    if (PyObject_TypeCheck(o, (PyTypeObject*)py_Vartable)) return "Vartable";
    return std::string("object ") + Py_TYPE(o)->tp_name;
}

/// What the documentation says that errors become
std::string kind(const error& e)
{
    switch (e.code())
    {
        case WR_ERR_NOTFOUND: return "raised KeyError";
        case WR_ERR_TYPE: return "raised TypeError";
        case WR_ERR_DOMAIN: return "raised OverflowError";
        case WR_ERR_PARSE: case WR_ERR_TOOLONG: case WR_ERR_REGEX: return "raised ValueError";
        case WR_ERR_CONSISTENCY: case WR_ERR_WRITE: return "raised RuntimeError";
        case WR_ERR_SYSTEM: case WR_ERR_ODBC: return "raised OSError";
        case WR_ERR_UNIMPLEMENTED: return "raised NotImplementedError";
        case WR_ERR_ALLOC: return "raised MemoryError";
        default: return "raised SystemError";
    }
}

bool same_kind(const std::string& got, const std::string& exp)
{
    if (exp == "raised OverflowError or TypeError") return got == "raised OverflowError" || got == "raised TypeError";
    return got == exp;
}

std::string str_desc(const std::string& s)
{
    Ref u(PyUnicode_FromStringAndSize(s.data(), s.size()));
    if (!u) return take_error();
    return desc(u);
}

/// Call a function, checking the references to its arguments
PyObject* checked_call(PyObject* func, PyObject* args, PyObject* kw)
{
    std::map<PyObject*, Py_ssize_t> before;
    auto each = [&](std::function<void(PyObject*)> f) {
        for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(args); ++i) f(PyTuple_GET_ITEM(args, i));
        PyObject *k, *v; Py_ssize_t pos = 0;
        if (kw) while (PyDict_Next(kw, &pos, &k, &v)) f(v);
    };
    each([&](PyObject* o) { before[o] = Py_REFCNT(o); });
    PyObject* self = PyCFunction_Check(func) ? PyCFunction_GET_SELF(func) : nullptr;
    if (self) before[self] = Py_REFCNT(self);
    PyObject* r = PyObject_Call(func, args, kw);
    // Exceptions may keep their arguments
    if (!r) return r;
    bool simple = r == Py_None || PyBool_Check(r) || PyLong_CheckExact(r) || PyFloat_CheckExact(r) || PyUnicode_CheckExact(r) || PyBytes_CheckExact(r);
    for (const auto& b: before)
    {
        Py_ssize_t delta = Py_REFCNT(b.first) - b.second;
        // Objects that live forever are not counted
        if (_Py_IsImmortal(b.first)) continue;
        Py_ssize_t want = r == b.first ? 1 : 0;
        MC_CHECK(delta >= want && (!simple || delta == want), "a call changes by %zd instead of %zd the references to its argument %s", delta, want, Py_TYPE(b.first)->tp_name);
    }
    return r;
}

Ref call(PyObject* o, const char* meth, PyObject* args = nullptr, PyObject* kw = nullptr)
{
    Ref m(getattr(o, meth));
    if (!m) return Ref();
    Ref empty(PyTuple_New(0));
    return Ref(checked_call(m, args ? args : empty.o, kw));
}

std::string expect(std::function<std::string()> f)
{
    try { return f(); } catch (error& e) { return kind(e); } catch (std::exception& e) { return "raised RuntimeError"; }
}

void compare(const std::string& got, const std::string& exp, const char* what, const std::string& ctx)
{
    MC_CHECK(same_kind(got, exp), "%s of %s gives %s instead of %s", what, ctx.c_str(), got.c_str(), exp.c_str());
}

// Descriptions of variables

struct Infos
{
    std::vector<std::unique_ptr<_Varinfo>> v;
    Infos()
    {
        bufr(WR_VAR(0, 1, 1), "NUMERIC", 0, 3, 0, 7);
        bufr(WR_VAR(0, 12, 101), "K", 2, 5, 0, 16);
        bufr(WR_VAR(0, 5, 1), "DEGREE", 5, 7, -9000000, 25);
        bufr(WR_VAR(0, 10, 4), "PA", -1, 5, 0, 14);
        bufr(WR_VAR(0, 1, 19), "CCITTIA5", 0, 5, 0, 40);
        bufr(WR_VAR(0, 25, 3), "NUMERIC", 0, 10, INT_MIN, 32);
        bufr(WR_VAR(0, 20, 3), "CODE TABLE", 0, 3, 0, 9);
        v.emplace_back(new _Varinfo); v.back()->set_crex(WR_VAR(0, 12, 3), "CREX", "C", 1, 3);
        v.emplace_back(new _Varinfo); v.back()->set_binary(WR_VAR(0, 1, 250), "BINARY", 24);
        v.emplace_back(new _Varinfo); v.back()->set_binary(WR_VAR(0, 1, 251), "BINARY", 13);
        v.emplace_back(new _Varinfo); v.back()->set_string(WR_VAR(0, 1, 252), "STRING", 1);
        v.emplace_back(new _Varinfo); v.back()->set_binary(WR_VAR(0, 1, 253), "LONG BINARY", 4001);
        v.emplace_back(new _Varinfo); v.back()->set_string(WR_VAR(0, 1, 254), "LONG STRING", 700);
    }
    void bufr(Varcode c, const char* unit, int scale, unsigned len, int ref, int bits)
    {
        v.emplace_back(new _Varinfo);
        v.back()->set_bufr(c, "TEST \"description\"", unit, scale, len, ref, bits);
    }
    Varinfo operator[](unsigned i) const { return v[i].get(); }
};
const Infos& infos() { static Infos i; return i; }

// Values

struct Val { std::string expr; Ref o; };
std::vector<Val>& values()
{
    static std::vector<Val> v;
    if (v.empty())
        for (auto e: {"0", "1", "-1", "7", "126", "127", "65534", "65535", "65536", "-9000000", "24554430", "24554431", "2**31-1", "2**31", "-2**31", "-2**31-1", "2**32", "2**32+5", "2**63-1", "2**63", "-2**63", "-2**64", "10**30",
                      "True", "False",
                      "0.0", "1.5", "-0.25", "273.15", "655.34", "655.36", "1e10", "-1e300", "1e300", "float('inf')", "float('-inf')",
                      "''", "'5'", "'-12'", "'12.5'", "'abc'", "'toolongforthis'", "'a\\0b'", "'\\u00e8'", "'\\U0001F600'", "'\\udc80'", "' '", "'99999999999'",
                      "b''", "b'5'", "b'-12'", "b'abc'", "b'ab'", "b'a\\0b'", "b'\\xff\\xfe\\xfd'", "b'toolongforthis'", "b'\\0\\0\\0'", "b'\\xe8'", "'x' * 700", "'\\u00e8' * 300", "b'\\xfe' * 501",
                      "None", "[]", "()", "{}", "object()", "bytearray(b'5')", "3+4j", "type", "len"})
            v.push_back(Val{e, eval(e)});
    return v;
}

/// Set a value in the way Python does. Returns the error that is expected
std::string set_value(Var& var, PyObject* o)
{
    return expect([&]() -> std::string {
        if (PyLong_Check(o))
        {
            int ov;
            long long l = PyLong_AsLongLongAndOverflow(o, &ov);
            if (ov || l < INT_MIN || l > INT_MAX)
            {
                // Values that are too big for all variables
                if (var.info()->type == Vartype::String || var.info()->type == Vartype::Binary) return "raised OverflowError or TypeError";
                return "raised OverflowError";
            }
            var.seti((int)l);
        }
        else if (PyFloat_Check(o)) var.setd(PyFloat_AsDouble(o));
        else if (PyBytes_Check(o)) var.sets(std::string(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o)));
        else if (PyUnicode_Check(o))
        {
            Py_ssize_t n; const char* s = PyUnicode_AsUTF8AndSize(o, &n);
            if (!s) return take_error();
            var.sets(std::string(s, n));
        }
        else return "raised TypeError";
        return "";
    });
}

std::string value_desc(const Var& v)
{
    return expect([&]() -> std::string {
        switch (v.info()->type)
        {
            case Vartype::String: return str_desc(v.enqs());
            case Vartype::Binary: return "bytes " + mc::hex(v.enqs());
            case Vartype::Integer: return fmt("int %d", v.enqi());
            case Vartype::Decimal: return fmt("float %.17g", v.enqd());
        }
        return "?";
    });
}

std::string show(const Var& v)
{
    std::string r = varcode_format(v.code());
    r += v.isset() ? "=" + mc::esc(v.format("")) : " unset";
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) r += " " + varcode_format(a->code()) + "=" + (a->isset() ? mc::esc(a->format("")) : "unset");
    return r;
}

void compare_info(PyObject* pi, Varinfo i, const std::string& ctx)
{
    struct { const char* name; std::string exp; } fields[] = {
        {"code", "str " + mc::esc(varcode_format(i->code))}, {"unit", str_desc(i->unit)}, {"desc", str_desc(i->desc)},
        {"type", str_desc(vartype_format(i->type))}, {"len", fmt("int %u", (unsigned)i->len)}, {"scale", fmt("int %d", (int)i->scale)},
        {"bit_ref", fmt("int %d", (int)i->bit_ref)}, {"bit_len", fmt("int %u", (unsigned)i->bit_len)},
    };
    for (auto& f: fields)
    {
        Ref r(getattr(pi, f.name));
        compare(desc(r), f.exp, f.name, ctx);
    }
    Ref s(PyObject_Str(pi)), r(PyObject_Repr(pi));
    compare(desc(s), "str " + mc::esc(varcode_format(i->code)), "str()", ctx);
    compare(desc(r), "str " + mc::esc("Varinfo('" + varcode_format(i->code) + "')"), "repr()", ctx);
}

/// Compare all that can be read from a Var
void compare_var(PyObject* pv, const Var& v, bool deep = true)
{
    std::string ctx = show(v);
    MC_CHECK(PyObject_TypeCheck(pv, (PyTypeObject*)py_Var), "not a Var but a %s", Py_TYPE(pv)->tp_name);
    Ref r(getattr(pv, "code"));
    compare(desc(r), "str " + mc::esc(varcode_format(v.code())), "code", ctx);
    r = Ref(getattr(pv, "isset"));
    compare(desc(r), v.isset() ? "True" : "False", "isset", ctx);
    compare(desc(call(pv, "enqi")), expect([&] { return fmt("int %d", v.enqi()); }), "enqi", ctx);
    compare(desc(call(pv, "enqd")), expect([&] { return fmt("float %.17g", v.enqd()); }), "enqd", ctx);
    compare(desc(call(pv, "enqc")), expect([&] { return str_desc(v.enqc()); }), "enqc", ctx);
    compare(desc(call(pv, "enq")), value_desc(v), "enq", ctx);
    compare(desc(call(pv, "get")), v.isset() ? value_desc(v) : "None", "get", ctx);
    Ref def(eval("('DEFAULT',)"));
    compare(desc(call(pv, "get", def)), v.isset() ? value_desc(v) : "str \"DEFAULT\"", "get(default)", ctx);
    {
        // What is given back is the same object
        Ref list(PyList_New(0)), args(PyTuple_Pack(1, list.o));
        Ref got(call(pv, "get", args));
        compare(desc(got), v.isset() ? value_desc(v) : "object list", "get(list)", ctx);
        MC_CHECK(v.isset() || got.o == list.o, "get of %s gives a different object than the default", ctx.c_str());
    }
    compare(desc(call(pv, "format")), str_desc(v.format("")), "format", ctx);
    compare(desc(call(pv, "format", def)), str_desc(v.format("DEFAULT")), "format(default)", ctx);
    Ref s(PyObject_Str(pv));
    compare(desc(s), str_desc(v.format("None")), "str()", ctx);
    bool quoted = v.isset() && (v.info()->type == Vartype::String || v.info()->type == Vartype::Binary);
    Ref rep(PyObject_Repr(pv));
    compare(desc(rep), str_desc("Var('" + varcode_format(v.code()) + "', " + (quoted ? "'" : "") + v.format("None") + (quoted ? "'" : "") + ")"), "repr()", ctx);
    if (!deep) return;
    Ref info(getattr(pv, "info"));
    compare_info(info, v.info(), ctx);
    Ref attrs(call(pv, "get_attrs"));
    MC_CHECK(attrs && PyList_Check(attrs), "get_attrs of %s gives %s", ctx.c_str(), desc(attrs).c_str());
    Py_ssize_t i = 0;
    for (const Var* a = v.next_attr(); a; a = a->next_attr(), ++i)
    {
        MC_CHECK(i < PyList_GET_SIZE(attrs.o), "get_attrs of %s: only %d attributes", ctx.c_str(), (int)PyList_GET_SIZE(attrs.o));
        Var plain(a->info());
        plain.setval(*a);
        compare_var(PyList_GET_ITEM(attrs.o, i), plain, false);
        Ref args(Py_BuildValue("(s)", varcode_format(a->code()).c_str()));
        Ref one(call(pv, "enqa", args));
        MC_CHECK(one && one != Py_None, "enqa of %s %s gives %s", ctx.c_str(), varcode_format(a->code()).c_str(), desc(one).c_str());
        compare_var(one, plain, false);
    }
    MC_CHECK(i == PyList_GET_SIZE(attrs.o), "get_attrs of %s: %d attributes", ctx.c_str(), (int)PyList_GET_SIZE(attrs.o));
    MC_CHECK(!PyErr_Occurred(), "an error is left set");
}

/// Check that the number of references to some objects does not change
struct RefCounts
{
    std::vector<std::pair<PyObject*, Py_ssize_t>> v;
    void add(PyObject* o) { if (o) v.push_back(std::make_pair(o, Py_REFCNT(o))); }
    RefCounts() { add(py_Var); add(py_Varinfo); add(py_Vartable); }
    void check(const char* what)
    {
        for (auto& i: v)
            MC_CHECK(Py_REFCNT(i.first) == i.second, "%s: references to an object of type %s go from %d to %d", what, Py_TYPE(i.first)->tp_name, (int)i.second, (int)Py_REFCNT(i.first));
    }
};

// Scenarios

/// All values in all kinds of variables
void create()
{
    Varinfo info = infos()[mc::choose(infos().v.size(), "description")];
    unsigned nv = values().size();
    unsigned vi = mc::choose(nv + 1, "value");
    unsigned how = mc::choose(3, "how");
    Ref pi(api->varinfo_create(info));
    Ref val = vi < nv ? values()[vi].o : Ref();
    mc::trace("Var(%s, %s)", varcode_format(info->code).c_str(), vi < nv ? values()[vi].expr.c_str() : "");
    RefCounts counts;
    counts.add(val); counts.add(pi);
    {
        Var v(info);
        std::string exp = vi < nv ? set_value(v, val) : "";
        Ref pv;
        if (how == 0)
        {
            Ref args(vi < nv ? PyTuple_Pack(2, pi.o, val.o) : PyTuple_Pack(1, pi.o));
            pv = Ref(checked_call(py_Var, args, nullptr));
        } else if (how == 1) {
            Ref args(PyTuple_New(0)), kw(PyDict_New());
            PyDict_SetItemString(kw, "varinfo", pi);
            if (vi < nv) PyDict_SetItemString(kw, "value", val);
            pv = Ref(checked_call(py_Var, args, kw));
        } else {
            // Through the API for other extensions
            if (vi >= nv) return;
            pv = Ref((PyObject*)api->var_create(info));
            if (api->var_value_from_python(val, *api->var(pv)) != 0)
            {
                compare(take_error(), exp, "setting the value", show(v));
                pv = Ref();
                if (exp.empty()) mc::fail("an error is reported but none is set");
                counts.check("after an error");
                return;
            }
        }
        if (!exp.empty() || !pv)
            compare(pv ? desc(pv) : take_error(), exp, "creation", varcode_format(info->code) + (vi < nv ? " from " + values()[vi].expr : ""));
        else
        {
            compare_var(pv, v);
            // Copies
            Ref args(PyTuple_Pack(1, pv.o));
            Ref copy(checked_call(py_Var, args, nullptr));
            compare_var(copy, v);
            Ref eq(PyObject_RichCompare(pv, copy, Py_EQ)), ne(PyObject_RichCompare(pv, copy, Py_NE));
            compare(desc(eq), "True", "comparison with a copy", show(v));
            compare(desc(ne), "False", "comparison with a copy", show(v));
            Ref tp(api->var_value_to_python(v));
            compare(desc(tp), value_desc(v), "var_value_to_python", show(v));
            Ref moved(api->var_create_copy(v));
            compare_var(moved, v);
        }
        mc::outcome(varcode_format(info->code) + (pv ? show(v) : exp));
    }
    mc::step();
    counts.check("after creation");
}

/// Histories of operations on two variables
void histories(unsigned n)
{
    static const unsigned which[] = {0, 1, 4, 8};
    std::vector<Ref> pis;
    RefCounts counts;
    for (auto w: which) { pis.emplace_back(api->varinfo_create(infos()[w])); }
    for (auto& p: pis) counts.add(p);
    static const char* vals[] = {"5", "1.5", "'ab'", "b'\\xff\\0a'", "2**40", "None"};
    {
        // Mirror: what is in each slot
        Ref slot[2];
        std::unique_ptr<Var> mirror[2];
        for (unsigned i = 0; i < 2; ++i)
        {
            mirror[i].reset(new Var(infos()[i]));
            slot[i] = Ref(PyObject_CallFunctionObjArgs(py_Var, pis[i].o, nullptr));
        }
        std::string hist;
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned op = mc::choose(11, "operation"), s = mc::choose(2, "variable");
            unsigned o = 1 - s;
            std::string exp, got;
            switch (op)
            {
                case 0: case 1:
                {
                    // Create another variable, or call the constructor again on the same object
                    static const unsigned combs[][2] = {{0, 0}, {1, 1}, {2, 2}, {3, 3}, {0, 4}, {2, 5}, {3, 0}};
                    unsigned c = mc::choose(7, "value");
                    unsigned w = combs[c][0], vi = combs[c][1];
                    Ref val = eval(vals[vi]);
                    mc::trace("%s %u: %s %s", op ? "__init__" : "new", s, varcode_format(infos()[which[w]]->code).c_str(), vals[vi]);
                    Ref args(PyTuple_Pack(2, pis[w].o, val.o));
                    std::unique_ptr<Var> m(new Var(infos()[which[w]]));
                    exp = set_value(*m, val);
                    if (op == 0)
                    {
                        Ref r(checked_call(py_Var, args, nullptr));
                        got = take_error();
                        if (r) { slot[s] = std::move(r); mirror[s] = std::move(m); }
                    } else {
                        Ref r(call(slot[s], "__init__", args));
                        got = take_error();
                        if (r && exp.empty()) mirror[s] = std::move(m);
                        else
                        {
                            // What is left in the variable is not specified
                            slot[s] = Ref(PyObject_CallFunctionObjArgs(py_Var, pis[0].o, nullptr));
                            mirror[s].reset(new Var(infos()[0]));
                        }
                    }
                    break;
                }
                case 2:
                {
                    mc::trace("%u = Var(%u)", s, o);
                    slot[s] = Ref(PyObject_CallFunctionObjArgs(py_Var, slot[o].o, nullptr));
                    mirror[s].reset(new Var(*mirror[o]));
                    break;
                }
                case 3:
                {
                    mc::trace("%u is %u", s, o);
                    // The same object twice
                    Ref args(PyTuple_Pack(1, slot[o].o));
                    Ref r(call(slot[o], "__init__", args));
                    got = take_error();
                    break;
                }
                case 4:
                {
                    mc::trace("%u.seta(%u)", s, o);
                    Ref args(PyTuple_Pack(1, slot[o].o));
                    exp = expect([&] { mirror[s]->seta(*mirror[o]); return ""; });
                    Ref r(call(slot[s], "seta", args));
                    got = take_error();
                    break;
                }
                case 5:
                {
                    mc::trace("%u.seta(%u)", s, s);
                    Ref args(PyTuple_Pack(1, slot[s].o));
                    Var copy(*mirror[s]);
                    exp = expect([&] { mirror[s]->seta(copy); return ""; });
                    Ref r(call(slot[s], "seta", args));
                    got = take_error();
                    break;
                }
                case 6:
                {
                    std::string code = mc::pick(std::vector<std::string>{"B01001", "B12101", "B01019", "X99999", ""}, "code");
                    mc::trace("%u.unseta(%s)", s, code.c_str());
                    Ref args(Py_BuildValue("(s)", code.c_str()));
                    exp = expect([&] { mirror[s]->unseta(varcode_parse(code.c_str())); return ""; });
                    Ref r(call(slot[s], "unseta", args));
                    got = take_error();
                    break;
                }
                case 7:
                {
                    // An attribute survives the variable it comes from
                    mc::trace("%u = %u.enqa", s, o);
                    const Var* a = mirror[o]->next_attr();
                    Ref args(Py_BuildValue("(s)", a ? varcode_format(a->code()).c_str() : "B33007"));
                    Ref r(call(slot[o], "enqa", args));
                    got = take_error();
                    MC_CHECK(!r || (r.o == Py_None) == (a == nullptr), "enqa gives %s", desc(r).c_str());
                    if (a && r) { slot[s] = std::move(r); mirror[s].reset(new Var(*a)); }
                    break;
                }
                case 8:
                {
                    mc::trace("%u = %u.get_attrs()[0]", s, o);
                    const Var* a = mirror[o]->next_attr();
                    Ref r(call(slot[o], "get_attrs"));
                    got = take_error();
                    if (a && r && PyList_GET_SIZE(r.o))
                    {
                        PyObject* f = PyList_GET_ITEM(r.o, 0);
                        Py_INCREF(f);
                        slot[s] = Ref(f);
                        mirror[s].reset(new Var(a->info()));
                        mirror[s]->setval(*a);
                    }
                    break;
                }
                case 9:
                {
                    mc::trace("%u == %u", s, o);
                    for (unsigned x = 0; x < 2; ++x)
                    {
                        Ref eq(PyObject_RichCompare(slot[s], slot[x], Py_EQ)), ne(PyObject_RichCompare(slot[s], slot[x], Py_NE));
                        bool e = *mirror[s] == *mirror[x];
                        compare(desc(eq), e ? "True" : "False", "==", show(*mirror[s]) + " with " + show(*mirror[x]));
                        compare(desc(ne), e ? "False" : "True", "!=", show(*mirror[s]) + " with " + show(*mirror[x]));
                    }
                    break;
                }
                case 10:
                {
                    mc::trace("%u deleted", s);
                    slot[s] = Ref(PyObject_CallFunctionObjArgs(py_Var, pis[1].o, nullptr));
                    mirror[s].reset(new Var(infos()[1]));
                    break;
                }
            }
            compare(got, exp, "operation", show(*mirror[s]));
            mc::step();
            hist += fmt("%u.%u ", op, s);
        }
        for (unsigned i = 0; i < 2; ++i) compare_var(slot[i], *mirror[i]);
        mc::state(show(*mirror[0]) + "|" + show(*mirror[1]));
    }
    counts.check("at the end");
}

/// Keep alive the names in an expression, as otherwise they are interned again each time at a different address, and fill
/// the cache of attribute lookups
void keep_names(const std::string& expr)
{
    if (!Py_CompileString(expr.c_str(), "names", Py_eval_input)) { PyErr_Print(); fprintf(stderr, "%s\n", expr.c_str()); _exit(2); }
}
template<typename T> void keep_all(const T& exprs) { for (auto e: exprs) keep_names(e); }

/// Objects that were created without their constructor, and objects that cannot be created
void objects()
{
    static const char* makers[] = {"wreport.Var.__new__(wreport.Var)", "wreport.Varinfo.__new__(wreport.Varinfo)", "wreport.Vartable.__new__(wreport.Vartable)",
        "wreport.Var()", "wreport.Varinfo()", "wreport.Vartable()", "wreport.Var(1)", "wreport.Var(None)", "wreport.Var(wreport.Var)", "wreport.Var(1, 2, 3)", "wreport.Var(value=3)", "wreport.Var(foo=3)",
        "wreport.Varinfo(1)", "wreport.Vartable('a', b=1)", "object.__new__(wreport.Var)", "object.__new__(wreport.Varinfo)", "object.__new__(wreport.Vartable)",
        "type('X', (wreport.Var,), {})", "type('X', (wreport.Varinfo,), {})", "type('X', (wreport.Vartable,), {})",
        "copy.copy(table)", "copy.copy(table['B12101'])", "copy.copy(wreport.Var(table['B12101'], 273.15))", "copy.deepcopy(wreport.Var(table['B12101'], 273.15))", "pickle.dumps(wreport.Var(table['B12101'], 273.15))",
        "wreport.Var.__new__(wreport.Var, table['B12101'], 5)", "wreport.Var(table['B12101'], 273.15)", "table", "table['B12101']"};
    static const char* uses[] = {"str(x)", "repr(x)", "x.code", "x.isset", "x.info", "x.enqi()", "x.enqd()", "x.enqc()", "x.enq()", "x.get()", "x.get(3)", "x.format()", "x.enqa('B33007')", "x.seta(x)", "x.unseta('B33007')", "x.get_attrs()",
        "x.desc", "x.unit", "x.len", "x.scale", "x.bit_ref", "x.bit_len", "x.type", "x.pathname", "len(x)", "'B12101' in x", "x['B12101']", "x == x", "x != 3", "x < x", "hash(x)", "x.__init__()", "x.__init__(table['B12101'], 1)", "wreport.Var(x)", "wreport.Var(x, 5)",
        "bool(x)", "dir(x)", "x.foo", "x.__class__", "x + x", "x * 2", "iter(x)", "[i for i, y in zip(range(100000), x)]", "x[0]", "x[0:1]", "x[None]", "x[b'B12101']", "x['B12101':]", "None in x", "0 in x", "copy.copy(x)", "x.__reduce_ex__(4)", "x.__sizeof__()", "x.__doc__", "x.__delattr__('code')", "setattr(x, 'code', 1)", "reversed(x)"};
    static bool kept = false;
    if (!kept) { keep_all(makers); keep_all(uses); keep_names("[x, v, v2, v0, table]"); kept = true; }
    Ref table(call(py_Vartable, "get_bufr", Ref(PyTuple_New(0)), eval("dict(master_table_version_number=24)")));
    PyDict_SetItemString(py_globals, "table", table);
    unsigned m = mc::choose(sizeof(makers) / sizeof(makers[0]), "object");
    mc::trace("x = %s", makers[m]);
    Ref x(PyRun_String(makers[m], Py_eval_input, py_globals, py_globals));
    if (!x)
    {
        std::string e = take_error();
        MC_CHECK(!e.empty() && e != "raised SystemError", "%s: %s", makers[m], e.c_str());
        mc::outcome(e);
    } else {
        PyDict_SetItemString(py_globals, "x", x);
        unsigned nu = sizeof(uses) / sizeof(uses[0]);
        unsigned u = mc::choose(nu, "use"), w = mc::choose(nu, "second use");
        for (auto i: {u, w})
        {
            mc::trace("%s", uses[i]);
            Ref r(PyRun_String(uses[i], Py_eval_input, py_globals, py_globals));
            std::string e = take_error();
            MC_CHECK(r || (!e.empty() && e != "raised SystemError"), "%s: %s", uses[i], e.c_str());
            MC_CHECK(!r || e.empty(), "%s: gives a result and sets an error", uses[i]);
            if (r && PyList_Check(r.o) && uses[i][0] == '[') MC_CHECK(PyList_GET_SIZE(r.o) < 70000, "iteration on %s does not end", makers[m]);
            mc::step();
        }
        PyDict_DelItemString(py_globals, "x");
    }
    PyDict_DelItemString(py_globals, "table");
}

/// Methods with all kinds of arguments
void arguments()
{
    static const char* exprs[] = {"0", "-1", "2**70", "1.5", "''", "'B12101'", "'B33007'", "'bad'", "'012101'", "'\\udc80'", "'B12101\\0'", "b'B12101'", "None", "[]", "object()", "wreport.Var", "pathlib.Path('/nonexisting')", "v", "v2", "v0", "v.info", "table"};
    static const char* meths[] = {"v.enqi", "v.enqd", "v.enqc", "v.enq", "v.enqa", "v.seta", "v.unseta", "v.get_attrs", "v.get", "v.format", "v0.get", "v0.enq", "v0.format", "v0.enqa", "v.__eq__", "v.__ne__", "v.__lt__", "wreport.Var", "v.__init__", "table.__contains__", "table.__getitem__", "table.__len__",
        "wreport.Vartable.get_bufr", "wreport.Vartable.get_crex", "wreport.Vartable.load_bufr", "wreport.Vartable.load_crex", "table.get_bufr", "table.load_bufr", "wreport.convert_units", "wreport.Varinfo", "wreport.Vartable", "wreport.Var.enqi", "wreport.Var.seta", "wreport.Varinfo.code.__get__"};
    static const char* kws[] = {"", "code", "var", "default", "varinfo", "value", "pathname", "basename", "master_table_version_number", "from_unit"};
    static bool kept = false;
    if (!kept) { keep_all(exprs); keep_all(meths); keep_names("[x, v, v2, v0, table]"); for (auto k: kws) if (*k) keep_names(std::string("f(") + k + "=1)"); kept = true; }
    const unsigned ne = sizeof(exprs) / sizeof(exprs[0]), nm = sizeof(meths) / sizeof(meths[0]), nk = sizeof(kws) / sizeof(kws[0]);
    unsigned m = mc::choose(nm, "method"), nargs = mc::choose(4, "arguments");
    std::string call_args, sep;
    for (unsigned i = 0; i < nargs; ++i)
    {
        if (i == 2 && !mc::thorough()) { call_args += sep + "5"; continue; }
        unsigned e = mc::choose(ne, "argument");
        unsigned k = i + 1 == nargs && nargs < 3 ? mc::choose(nk, "keyword") : 0;
        call_args += sep + (k ? std::string(kws[k]) + "=" : "") + exprs[e];
        sep = ", ";
    }
    std::string expr = std::string(meths[m]) + "(" + call_args + ")";
    mc::trace("%s", expr.c_str());
    {
        Ref table(call(py_Vartable, "get_bufr", Ref(PyTuple_New(0)), eval("dict(master_table_version_number=24)")));
        PyDict_SetItemString(py_globals, "table", table);
        Ref v(eval("wreport.Var(table['B12101'], 273.15)")), v2(eval("wreport.Var(table['B01019'], 'abc')")), v0(eval("wreport.Var(table['B12101'])"));
        PyDict_SetItemString(py_globals, "v", v);
        PyDict_SetItemString(py_globals, "v2", v2);
        PyDict_SetItemString(py_globals, "v0", v0);
        RefCounts counts;
        counts.add(v); counts.add(v2); counts.add(v0); counts.add(table);
        {
            Ref r(PyRun_String(expr.c_str(), Py_eval_input, py_globals, py_globals));
            std::string e = take_error();
            MC_CHECK(r || (!e.empty() && e != "raised SystemError"), "%s: %s", expr.c_str(), e.c_str());
            mc::outcome(std::string(meths[m]) + (r ? desc(r) : e));
            mc::step();
        }
        counts.check(expr.c_str());
        for (auto n: {"v", "v2", "v0", "table"}) PyDict_DelItemString(py_globals, n);
    }
}

/// All codes of some tables
void lookup()
{
    static const std::vector<std::string> names{"B0000000000000024000", "B0000000000000014000", "B0000000000098013001"};
    std::string name = mc::pick(names, "table");
    bool crex = name == names[0] ? mc::flag("crex") : false;
    unsigned x = mc::choose(64, "X"), f = mc::choose(4, "F");
    const Vartable* vt = crex ? Vartable::get_crex(name) : Vartable::get_bufr(name);
    Ref args(Py_BuildValue("(s)", name.c_str()));
    Ref pt(call(py_Vartable, crex ? "get_crex" : "get_bufr", args));
    MC_CHECK(pt, "cannot load %s: %s", name.c_str(), take_error().c_str());
    Ref ps(PyObject_Str(pt));
    compare(desc(ps), str_desc(vt->path().native()), "str()", "a table");
    for (unsigned y = 0; y < 256; ++y)
    {
        std::string code = varcode_format(WR_VAR(f, x, y));
        Varinfo exp = nullptr;
        std::string err = expect([&] { exp = vt->query(WR_VAR(f, x, y)); return ""; });
        Ref key(PyUnicode_FromString(code.c_str()));
        Ref r(PyObject_GetItem(pt, key));
        std::string e = take_error();
        compare(e, err, "lookup", code);
        int c = PySequence_Contains(pt, key);
        MC_CHECK(c == (vt->contains(WR_VAR(f, x, y)) ? 1 : 0), "'%s' in table is %d", code.c_str(), c);
        if (r) compare_info(r, exp, code);
        mc::step();
    }
}

/// Requests of tables with all combinations of arguments
void tables()
{
    bool crex = mc::flag("crex");
    static const char* names[] = {"edition_number", "originating_centre", "originating_subcentre", "master_table_number", "master_table_version_number", "master_table_version_number_bufr", "master_table_version_number_local"};
    static const std::vector<std::vector<int>> vals{{1, 2}, {0, 98, 254}, {0, 1, 98}, {0, 1}, {0, 3, 14, 24, 33, 34, 99}, {0, 13, 24, 33, 99}, {0, 1, 2}};
    int v[7] = {2, 0, 0, 0, -1, -1, 0};
    Ref kw(PyDict_New());
    std::string what;
    for (unsigned i = 0; i < 7; ++i)
    {
        if (!crex && (i == 0 || i == 5)) continue;
        unsigned c = mc::choose(vals[i].size() + 1, names[i]);
        if (!c) continue;
        v[i] = vals[i][c - 1];
        what += fmt("%s=%d ", names[i], v[i]);
        Ref n(PyLong_FromLong(v[i]));
        PyDict_SetItemString(kw, names[i], n);
    }
    mc::trace("%s %s", crex ? "get_crex" : "get_bufr", what.c_str());
    const Vartable* exp = nullptr;
    std::string err;
    if (v[4] == -1 && v[5] == -1) err = "raised ValueError";
    else err = expect([&] {
        if (crex) exp = Vartable::get_crex(CrexTableID(v[0], v[1], v[2], v[3], v[4] == -1 ? 0xff : v[4], v[5] == -1 ? 0xff : v[5], v[6]));
        else exp = Vartable::get_bufr(BufrTableID(v[1], v[2], v[3], v[4], v[6]));
        return "";
    });
    Ref args(PyTuple_New(0));
    Ref t(call(py_Vartable, crex ? "get_crex" : "get_bufr", args, kw));
    compare(t ? "" : take_error(), err, crex ? "get_crex" : "get_bufr", what);
    if (t)
    {
        Ref s(PyObject_Str(t));
        compare(desc(s), str_desc(exp->path().native()), "table", what);
 Ref p(getattr(t, "pathname")), pss(PyObject_Str(p));
        compare(desc(pss), str_desc(exp->path().native()), "pathname", what);
        Ref r(PyObject_Repr(t));
        compare(desc(r), str_desc("Vartable('" + exp->path().native() + "')"), "repr()", what);
    }
    mc::step();
    mc::outcome(t ? exp->path().native() : err);
}

void load()
{
    std::string name = mc::pick(std::vector<std::string>{"B0000000000000024000.txt", "B000203.txt", "B000000000980000.txt", "D0000000000000024000.txt", "missing.txt", ""}, "file");
    bool crex = mc::flag("crex"), kwarg = mc::flag("keyword");
    std::string path = mc::repo() + "/tables/" + name;
    mc::trace("load_%s %s", crex ? "crex" : "bufr", path.c_str());
    const Vartable* exp = nullptr;
    std::string err = expect([&] { exp = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path); return ""; });
    Ref args(kwarg ? PyTuple_New(0) : Py_BuildValue("(s)", path.c_str())), kw(kwarg ? Py_BuildValue("{s:s}", "pathname", path.c_str()) : nullptr);
    Ref t(call(py_Vartable, crex ? "load_crex" : "load_bufr", args, kw));
    compare(t ? "" : take_error(), err, "loading", path);
    if (t)
    {
        Ref s(PyObject_Str(t));
        compare(desc(s), str_desc(exp->path().native()), "table", path);
        Ref key(PyUnicode_FromString("B12101")), r(PyObject_GetItem(t, key));
        std::string e = take_error();
        Varinfo i = nullptr;
        compare(e, expect([&] { i = exp->query(WR_VAR(0, 12, 101)); return ""; }), "lookup", path);
        if (r) compare_info(r, i, path);
    }
    mc::step();
}

void units()
{
    static const std::vector<std::string> u{"K", "C", "PA", "HPA", "M", "MM", "KM", "M/S", "KNOTS", "DEGREE", "DEGREE TRUE", "NUMERIC", "CODE TABLE", "FLAG TABLE", "CCITTIA5", "KG/M**2", "S", "HOUR", "?", "", "\xc3\xa8"};
    std::string a = mc::pick(u, "from"), b = mc::pick(u, "to");
    double d = mc::pick(std::vector<double>{0, 1, -2.5, 273.15, 1e300, -1e-300, INFINITY}, "value");
    mc::trace("convert_units(%s, %s, %g)", a.c_str(), b.c_str(), d);
    std::string exp = expect([&] { return fmt("float %.17g", convert_units(a.c_str(), b.c_str(), d)); });
    bool kwargs = mc::flag("keywords");
    Ref args(kwargs ? PyTuple_New(0) : Py_BuildValue("(ssd)", a.c_str(), b.c_str(), d));
    Ref kw(kwargs ? Py_BuildValue("{s:s,s:s,s:d}", "from_unit", a.c_str(), "to_unit", b.c_str(), "value", d) : nullptr);
    Ref r(checked_call(py_convert, args, kw));
    compare(desc(r), exp, "convert_units", a + " " + b);
    mc::step();
    mc::outcome(exp);
}

/// The functions for other extensions
void capi()
{
    Varinfo info = infos()[mc::choose(infos().v.size(), "description")];
    unsigned how = mc::choose(6, "function");
    Ref pv;
    std::unique_ptr<Var> exp(new Var(info));
    std::string err, got;
    static const std::vector<std::string> strs{"", "5", "abc", "toolongforthis", std::string("a\0b", 3), "\xff\xfe\xfd"};
    RefCounts counts;
    got = expect([&] {
        switch (how)
        {
            case 0: pv = Ref((PyObject*)api->var_create(info)); break;
            case 1: { int v = mc::pick(std::vector<int>{0, 1, 100, -1, 100000, INT_MAX, INT_MIN}, "value"); err = expect([&] { exp->seti(v); return ""; }); if (!err.empty()) return err; pv = Ref(api->var_create_i(info, v)); break; }
            case 2: { double v = mc::pick(std::vector<double>{0, 1.5, -0.1, 1e10}, "value"); err = expect([&] { exp->setd(v); return ""; }); if (!err.empty()) return err; pv = Ref(api->var_create_d(info, v)); break; }
            case 3: { std::string s = mc::pick(strs, "value"); s.resize(1000); err = expect([&] { exp->setc(s.c_str()); return ""; }); if (!err.empty()) return err; pv = Ref(api->var_create_c(info, s.c_str())); break; }
            case 4: { std::string s = mc::pick(strs, "value"); err = expect([&] { exp->sets(s); return ""; }); if (!err.empty()) return err; pv = Ref(api->var_create_s(info, s)); break; }
            case 5: { err = expect([&] { Var src(infos()[0], 5); exp->setval(src); return ""; }); if (!err.empty()) return err; Var src(infos()[0], 5); pv = Ref(api->var_create_v(info, src)); break; }
        }
        return std::string();
    });
    if (!err.empty()) return;
    compare(got, "", "creation", show(*exp));
    compare_var(pv, *exp);
    MC_CHECK(api->var(pv) && *api->var(pv) == *exp, "the variable is not the one that was created");
    Ref none(Py_None); Py_INCREF(Py_None);
    MC_CHECK(!api->var(none), "None is taken for a variable");
    compare(take_error(), "raised TypeError", "var()", "None");
    Ref copy(api->var_create_copy(*exp));
    compare_var(copy, *exp);
    Var tmp(*exp);
    Ref moved(api->var_create_move(std::move(tmp)));
    compare_var(moved, *exp);
    moved = copy = pv = Ref();
    counts.check("at the end");
    mc::step();
}

}

void mc::setup()
{
    py_init();
    values();
    // Fill the lists of free objects of the interpreter
    for (unsigned i = 0; i < 3; ++i)
        for (auto e: {"[dict(a=i) for i in range(500)]", "[{} for i in range(500)]", "[[i] for i in range(500)]", "[(i,) for i in range(3000)]", "[(i, i) for i in range(3000)]", "[(i, i, i) for i in range(3000)]",
                      "[i/3 for i in range(500)]", "[slice(i) for i in range(500)]", "[(lambda *a, **k: k)(a=i) for i in range(500)]", "[dict(master_table_version_number=i) for i in range(500)]"})
            eval(e);
    for (unsigned i = 0; i < 200; ++i) eval("dict(master_table_version_number=24)");
    // Python keeps some of the strings used to look up attributes that are not interned, up to some thousands of them
    Options o; o.leak_repeats = 400;
    mc::add("create", create, o);
    mc::add("capi", capi, o);
    mc::add("units", units, o);
    mc::add("load", load, o);
    mc::add("tables", tables, o);
    mc::add("lookup", lookup, o);
    mc::add("objects", objects, o);
    mc::add("histories", [] { histories(thorough() ? 4 : 3); }, o);
    mc::add("arguments", arguments, o);
}
