// C30: variables seen from Lua are the same as in C++.
//
// A Lua interpreter runs in the harness: all its calls on variables, right and wrong, are made on variables of all types with all
// values of a pool, and compared with the same calls in C++.
#include "varmodel.h"
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <lualib.h>
}
using namespace vm;

const char* mc::property = "C30";

namespace {

struct Lua
{
    lua_State* L;
    Lua() { L = luaL_newstate(); luaL_openlibs(L); }
    ~Lua() { lua_close(L); }
    operator lua_State*() { return L; }
};

struct Kind { Varinfo info; std::vector<Val> vals; };

std::vector<Kind>& kinds()
{
    static std::vector<Kind> res;
    if (!res.empty()) return res;
    static _Varinfo i[14];
    i[0].set_bufr(WR_VAR(0, 1, 1), "INTEGER", "NUMERIC", 0, 3, 0, 7);
    i[1].set_bufr(WR_VAR(0, 1, 2), "SIGNED INTEGER", "NUMERIC", 0, 5, -1000, 16);
    i[2].set_bufr(WR_VAR(0, 1, 3), "LARGE INTEGER", "NUMERIC", 0, 10, 0, 32);
    i[3].set_bufr(WR_VAR(0, 12, 101), "DECIMAL", "K", 2, 5, 0, 16);
    i[4].set_bufr(WR_VAR(0, 5, 1), "SIGNED DECIMAL", "DEGREE", 5, 7, -9000000, 25);
    i[5].set_bufr(WR_VAR(0, 10, 4), "NEGATIVE SCALE", "PA", -1, 5, 0, 14);
    i[6].set_crex(WR_VAR(0, 12, 101), "CREX DECIMAL", "C", 1, 4);
    i[7].set_string(WR_VAR(0, 1, 15), "STRING", 20);
    i[8].set_string(WR_VAR(0, 1, 16), "SHORT STRING", 1);
    i[9].set_binary(WR_VAR(0, 63, 255), "BINARY", 40);
    i[10].set_binary(WR_VAR(3, 63, 255), "BINARY WITH A PARTIAL BYTE", 12);
    i[11].set_binary(WR_VAR(2, 6, 1), "ONE BYTE", 8);
    i[12].set_bufr(WR_VAR(0, 20, 3), "CODE", "CODE TABLE", 0, 3, 0, 9);
    i[13].set_string(WR_VAR(1, 0, 0), "STRING WITH AN ODD CODE", 8);
    for (auto& info: i)
    {
        Kind k; k.info = &info;
        k.vals.emplace_back();
        if (is_num(&info))
            for (int v: { info.imin, -1, 0, 1, 7, 10, 100, 12345, info.imax - 1, info.imax })
            {
                Val x; x.isset = true; x.i = v;
                if (v >= info.imin && v <= info.imax) k.vals.push_back(x);
            }
        else
            for (auto& s: { std::string(), std::string("a"), std::string("12"), std::string("1.5"), std::string("hello world, this is long"), std::string("\xc3\xa8\xff"), std::string("\0\0\0\0\0", 5), std::string("a\0b\0c", 5), std::string("\n\t\"'\\") })
            {
                MVar m; m.info = &info;
                if (info.type == Vartype::Binary) m.assign_bytes(s); else m.assign_text(s);
                k.vals.push_back(m.val);
            }
        res.push_back(k);
    }
    return res;
}

void assign(Var& v, const Val& val)
{
    if (!val.isset) v.unset();
    else if (is_num(v.info())) v.seti(val.i);
    else v.sets(val.s);
}
Var make(const Kind& k, const Val& val)
{
    Var v(k.info);
    assign(v, val);
    return v;
}

enum Method { CODE, ENQI, ENQD, ENQC, TOSTRING, NMETHODS };
const char* names[] = { "code", "enqi", "enqd", "enqc", "__tostring" };

/// What a method should give: kind of the result and its text
std::string expected(const Var& v, unsigned m)
{
    try {
        switch (m)
        {
            case CODE: return "string:" + varcode_format(v.code());
            case ENQI: return v.isset() ? "integer:" + std::to_string(v.enqi()) : "nil";
            case ENQD: return v.isset() ? mc::fmt("number:%.17g", v.enqd()) : "nil";
            case ENQC: return v.isset() ? "string:" + v.enqs() : "nil";
            case TOSTRING: return "string:" + v.format("(undef)");
        }
    } catch (wreport::error& e) { return std::string("error:") + e.what(); }
    return "";
}
/// The value on top of the stack
std::string top(lua_State* L, bool integer)
{
    std::string r;
    switch (lua_type(L, -1))
    {
        case LUA_TNIL: r = "nil"; break;
        case LUA_TNUMBER: r = integer ? (lua_isinteger(L, -1) ? "integer:" + std::to_string(lua_tointeger(L, -1)) : mc::fmt("not an integer: %.17g", lua_tonumber(L, -1))) : mc::fmt("number:%.17g", lua_tonumber(L, -1)); break;
        case LUA_TSTRING: { size_t len; const char* s = lua_tolstring(L, -1, &len); r = "string:" + std::string(s, len); break; }
        default: r = std::string("type ") + luaL_typename(L, -1);
    }
    return r;
}
/// Call a method of the variable at the given position
std::string call(lua_State* L, int idx, unsigned m, unsigned extra = 0)
{
    int base = lua_gettop(L);
    lua_pushvalue(L, idx);
    lua_getfield(L, -1, names[m]);
    if (lua_isnil(L, -1)) { lua_settop(L, base); return "no such method"; }
    lua_insert(L, -2);
    for (unsigned i = 0; i < extra; ++i) lua_pushinteger(L, 42);
    std::string r;
    if (lua_pcall(L, 1 + extra, 1, 0)) { size_t len; const char* s = lua_tolstring(L, -1, &len); r = "error:" + std::string(s ? s : "", s ? len : 0); }
    else r = top(L, m == ENQI);
    lua_settop(L, base);
    return r;
}
void push(lua_State* L, Var& v, bool c) { if (c) const_cast<const Var&>(v).lua_push(L); else v.lua_push(L); }

void check(lua_State* L, int idx, const Var& v, unsigned m, unsigned extra = 0)
{
    mc::step();
    std::string e = expected(v, m), r = call(L, idx, m, extra);
    mc::trace("%s: %s", names[m], mc::esc(r).c_str());
    mc::state(mc::fmt("%u %s", m, v.info()->desc) + r);
    if (e.substr(0, 6) == "error:" && r.substr(0, 6) == "error:")
    {
        // The error is the one of the library
        if (r.find(e.substr(6)) == std::string::npos) mc::fail("%s fails with %s instead of %s", names[m], mc::esc(r).c_str(), mc::esc(e).c_str());
        return;
    }
    if (e != r) mc::fail("%s of a %s gives %s instead of %s", names[m], v.info()->desc, mc::esc(r).c_str(), mc::esc(e).c_str());
}

/// All methods for all values of all types
void values()
{
    const Kind& k = mc::pick(kinds(), "kind");
    const Val& val = mc::pick(k.vals, "value");
    unsigned m = mc::choose(NMETHODS, "method");
    bool c = mc::flag("const");
    unsigned extra = mc::choose(3, "more arguments");
    Var v = make(k, val);
    if (mc::flag("attribute")) { static _Varinfo a; a.set_bufr(WR_VAR(0, 33, 7), "CONFIDENCE", "%", 0, 3, 0, 7); v.seta(Var(&a, 33)); }
    Var copy(v);
    Lua L;
    push(L, v, c);
    check(L, 1, v, m, extra);
    MC_CHECK(v == copy, "the variable has changed");
    // It can be found again
    const Var* back = Var::lua_const_check(L, 1);
    MC_CHECK(back == &v, "another variable is found on the stack");
    if (!c) MC_CHECK(Var::lua_check(L, 1) == &v, "another variable is found on the stack");
}

/// All histories of calls on two variables that change, and may be pushed many times
void histories()
{
    const unsigned depth = mc::thorough() ? 5 : 3;
    unsigned ki[2] = { (unsigned)mc::choose(kinds().size(), "kind"), 0 };
    ki[1] = (ki[0] + 3) % kinds().size();
    std::vector<Var> vars;
    for (unsigned i = 0; i < 2; ++i) vars.push_back(make(kinds()[ki[i]], kinds()[ki[i]].vals[0]));
    Lua L;
    for (unsigned i = 0; i < 2; ++i) push(L, vars[i], i == 1);
    for (unsigned d = 0; d < depth; ++d)
    {
        unsigned n = mc::choose(2, "variable");
        unsigned o = mc::choose(NMETHODS + 3, "operation");
        if (o < NMETHODS) check(L, n + 1, vars[n], o);
        else if (o == NMETHODS) { assign(vars[n], kinds()[ki[n]].vals[1 + d % (kinds()[ki[n]].vals.size() - 1)]); }
        else if (o == NMETHODS + 1) { push(L, vars[n], false); check(L, lua_gettop(L), vars[n], ENQC); check(L, n + 1, vars[n], TOSTRING); lua_settop(L, 2); }
        else lua_gc(L, LUA_GCCOLLECT, 0);
        for (unsigned i = 0; i < 2; ++i) MC_CHECK(Var::lua_const_check(L, i + 1) == &vars[i], "variable %u is another one", i);
    }
    for (unsigned i = 0; i < 2; ++i) for (unsigned m = 0; m < NMETHODS; ++m) check(L, i + 1, vars[i], m);
}

/// Methods called on something else raise errors
void wrong()
{
    unsigned m = mc::choose(NMETHODS, "method");
    unsigned what = mc::choose(9, "what");
    Lua L;
    Var v = make(kinds()[0], kinds()[0].vals[1]);
    v.lua_push(L);
    lua_getfield(L, 1, names[m]);
    MC_CHECK(lua_isfunction(L, -1), "there is no method %s", names[m]);
    unsigned nargs = 1;
    switch (what)
    {
        case 0: nargs = 0; break;
        case 1: lua_pushnil(L); break;
        case 2: lua_pushinteger(L, 1); break;
        case 3: lua_pushstring(L, "text"); break;
        case 4: lua_newtable(L); break;
        case 5: *(void**)lua_newuserdata(L, sizeof(void*)) = nullptr; break;
        case 6: *(void**)lua_newuserdata(L, sizeof(void*)) = nullptr; luaL_newmetatable(L, "other.type"); lua_setmetatable(L, -2); break;
        case 7: lua_pushlightuserdata(L, &v); break;
        case 8: lua_pushboolean(L, 1); break;
    }
    mc::step();
    int rc = lua_pcall(L, nargs, 1, 0);
    MC_CHECK(rc == LUA_ERRRUN, "%s of something that is not a variable gives %s", names[m], top(L, false).c_str());
    mc::outcome(names[m]);
}

/// The same from programs
void programs()
{
    static const std::vector<std::string> progs = {
        "return tostring(v)", "return v:code()", "return v.code(v)", "return v:enqi()", "return v:enqd()", "return v:enqc()", "return (pcall(v.enqi, v))", "return v == w", "return v.nosuchmethod == nil",
        "local ok, r = pcall(v.enqd, v) if ok then return r else return 'failed' end",
    };
    unsigned p = mc::choose(progs.size(), "program");
    const Kind& k = mc::pick(kinds(), "kind");
    const Val& val = mc::pick(k.vals, "value");
    Var v = make(k, val), w(v);
    Lua L;
    v.lua_push(L); lua_setglobal(L, "v");
    w.lua_push(L); lua_setglobal(L, "w");
    mc::step();
    std::string e, r;
    switch (p)
    {
        case 0: e = expected(v, TOSTRING); break;
        case 1: case 2: e = expected(v, CODE); break;
        case 3: e = expected(v, ENQI); break;
        case 4: e = expected(v, ENQD); break;
        case 5: e = expected(v, ENQC); break;
        case 6: e = expected(v, ENQI).substr(0, 6) == "error:" ? "boolean:0" : "boolean:1"; break;
        case 7: e = ""; break;
        case 8: e = "boolean:1"; break;
        case 9: e = expected(v, ENQD); if (e.substr(0, 6) == "error:") e = "string:failed"; break;
    }
    if (luaL_loadstring(L, progs[p].c_str())) mc::fail("cannot load a program");
    if (lua_pcall(L, 0, 1, 0)) r = std::string("error:") + lua_tostring(L, -1);
    else if (lua_isboolean(L, -1)) r = mc::fmt("boolean:%d", lua_toboolean(L, -1));
    else r = top(L, p == 3);
    mc::state(mc::fmt("%u %s", p, k.info->desc) + r);
    if (e.substr(0, 6) == "error:" && r.substr(0, 6) == "error:") return;
    if (!e.empty() && e != r) mc::fail("%s on a %s gives %s instead of %s", progs[p].c_str(), k.info->desc, mc::esc(r).c_str(), mc::esc(e).c_str());
}

}

void mc::setup()
{
    Options o;
    add("values", values, o);
    add("wrong", wrong, o);
    add("programs", programs, o);
    add("histories", histories, o);
}
