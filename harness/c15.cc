// C15: the tables chosen for a message are the best available ones.
//
// Directories with sets of tables are created in the scratch directory, and the functions that list directories are
// replaced so that the order of the listing is a choice too. What gets chosen is compared with a ranking of the
// identifiers that can be read from the names of the files.
#include "mc.h"
#include <filesystem>
#include <wreport/internals/tabledir.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/bulletin.h>
#include <wreport/error.h>
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <tuple>
#include <unistd.h>

using namespace wreport;

const char* mc::property = "C15";

// ---- Directory listings in a given order

namespace {
struct Listing { std::vector<dirent> entries; size_t pos = 0; };
std::map<DIR*, Listing> listings;
/// Permutation of the (sorted) names of the tables in a directory: cyclic for those after the end of the permutation
std::vector<unsigned> listing_order;

struct dirent* next_entry(DIR* d)
{
    static auto real = (struct dirent* (*)(DIR*))dlsym(RTLD_NEXT, "readdir");
    auto i = listings.find(d);
    if (i == listings.end())
    {
        Listing l;
        while (struct dirent* e = real(d))
        {
            dirent c; memset(&c, 0, sizeof(c));
            c.d_ino = e->d_ino; c.d_off = e->d_off; c.d_reclen = sizeof(c); c.d_type = e->d_type;
            snprintf(c.d_name, sizeof(c.d_name), "%s", e->d_name);
            l.entries.push_back(c);
        }
        std::sort(l.entries.begin(), l.entries.end(), [](const dirent& a, const dirent& b) { return strcmp(a.d_name, b.d_name) < 0; });
        if (!listing_order.empty())
        {
            std::vector<dirent> files, perm;
            for (auto& e: l.entries) (e.d_name[0] == '.' ? perm : files).push_back(e);
            std::vector<bool> used(files.size());
            for (auto p: listing_order) if (p < files.size()) { perm.push_back(files[p]); used[p] = true; }
            for (size_t k = 0; k < files.size(); ++k) if (!used[k]) perm.push_back(files[k]);
            l.entries = perm;
        }
        i = listings.emplace(d, l).first;
    }
    if (i->second.pos >= i->second.entries.size()) return nullptr;
    return &i->second.entries[i->second.pos++];
}
}
extern "C" struct dirent* readdir(DIR* d) { return next_entry(d); }
extern "C" struct dirent64* readdir64(DIR* d) { return (struct dirent64*)next_entry(d); }
extern "C" int closedir(DIR* d)
{
    static auto real = (int (*)(DIR*))dlsym(RTLD_NEXT, "closedir");
    listings.erase(d);
    return real(d);
}
extern "C" void rewinddir(DIR* d)
{
    static auto real = (void (*)(DIR*))dlsym(RTLD_NEXT, "rewinddir");
    listings.erase(d);
    real(d);
}

namespace {

// ---- Model

struct T
{
    bool crex; unsigned ed, ce, sc, mt, mtv, bufr, loc;
    std::string name;   // without extension
    unsigned dir = 0;
};
T btable(unsigned ce, unsigned sc, unsigned mtv, unsigned loc, bool longname)
{
    T t{false, 0, ce, sc, 0, mtv, 0, loc, ""};
    // The columns of the subcentre in the long names are only used when it is 0: how it is aligned is not documented
    t.name = longname ? mc::fmt("B00000%04u%04u%03u%03u", sc, ce, mtv, loc) : mc::fmt("B00000%03u%03u%02u%02u", sc, ce, mtv, loc);
    return t;
}
T ctable(unsigned mt, unsigned ed, unsigned mtv)
{
    return T{true, ed, 0, 0, mt, mtv, 0, 0, mc::fmt("B%02u%02u%02u", mt, ed, mtv)};
}

struct Req { bool crex; unsigned ed, ce, sc, mt, mtv, bufr, loc; };
std::string desc(const Req& r)
{
    return r.crex ? mc::fmt("CREX edition %u centre %u:%u master table %u version %u bufr %u local %u", r.ed, r.ce, r.sc, r.mt, r.mtv, r.bufr, r.loc)
        : mc::fmt("BUFR centre %u:%u master table %u version %u local %u", r.ce, r.sc, r.mt, r.mtv, r.loc);
}

bool acceptable(const Req& r, const T& t)
{
    if (t.mt != r.mt) return false;
    if (!r.crex) return !t.crex && t.mtv >= r.mtv;
    if (t.crex) return t.ed == r.ed && t.mtv >= r.mtv && t.bufr >= r.bufr;
    return t.mtv >= r.bufr;
}

typedef std::vector<unsigned> Rank;
/// Rank what is common to all kinds of tables: the smaller the better
void rank_local(const Req& r, const T& t, Rank& k)
{
    k.push_back(t.ce == r.ce ? 0 : t.ce == 0 ? 1 : t.ce == 0xffff ? 2 : 3);
    if (t.ce == r.ce)
    {
        k.push_back(t.loc >= r.loc ? t.loc : 1000 + (r.loc - t.loc));
        k.push_back(t.sc == r.sc ? 0 : 1);
    }
}
/// Version first, then how much the table is tailored for who made the message
Rank rank(const Req& r, const T& t)
{
    Rank k{t.mtv};
    if (t.crex) k.push_back(t.bufr);
    rank_local(r, t, k);
    return k;
}
/// CREX and BUFR tables can only be compared by their BUFR version
Rank rank_mixed(const Req& r, const T& t)
{
    Rank k{t.crex ? t.bufr : t.mtv};
    rank_local(r, t, k);
    return k;
}

/// All the best tables for a request, none better than the others. Of the same table in more than one directory, only the first counts
std::vector<const T*> best(const Req& r, const std::vector<T>& tables)
{
    std::vector<const T*> res;
    for (bool crex: { false, true })
    {
        std::vector<const T*> cur;
        for (auto& t: tables)
        {
            if (t.crex != crex || !acceptable(r, t)) continue;
            if (cur.empty() || rank(r, t) < rank(r, *cur[0])) { cur.clear(); cur.push_back(&t); }
            else if (rank(r, t) == rank(r, *cur[0])) cur.push_back(&t);
        }
        if (res.empty()) res = cur;
        else if (!cur.empty())
        {
            Rank a = rank_mixed(r, *res[0]), b = rank_mixed(r, *cur[0]);
            if (b < a) res = cur;
            else if (a == b) res.insert(res.end(), cur.begin(), cur.end());
        }
    }
    // Among equally good ones, the first directory wins
    if (res.empty()) return res;
    unsigned dir = res[0]->dir;
    for (auto t: res) dir = std::min(dir, t->dir);
    std::vector<const T*> first;
    bool crex = false, bufr = false;
    for (auto t: res) { if (t->crex) crex = true; else bufr = true; }
    // (not said of a BUFR table and a CREX table)
    if (crex && bufr) return res;
    for (auto t: res) if (t->dir == dir) first.push_back(t);
    return first;
}

// ---- Directories

/// Return a directory with these tables
std::string make_dir(const std::vector<T>& tables)
{
    static std::map<std::string, std::string> cache;
    std::string key;
    for (auto& t: tables) key += t.name + " ";
    auto i = cache.find(key);
    if (i != cache.end()) return i->second;
    std::string dir = mc::scratch() + mc::fmt("/t%d-%zu", (int)getpid(), cache.size());
    mkdir(dir.c_str(), 0777);
    for (auto& t: tables)
        for (char c: { 'B', 'D' })
        {
            std::string n = dir + "/" + t.name + ".txt";
            n[dir.size() + 1] = c;
            FILE* f = fopen(n.c_str(), "w");
            if (!f) { perror(n.c_str()); abort(); }
            fclose(f);
        }
    return cache[key] = dir;
}

const tabledir::Table* find(tabledir::Tabledirs& td, const Req& r)
{
    if (r.crex) return td.find_crex(CrexTableID(r.ed, r.ce, r.sc, r.mt, r.mtv, r.bufr, r.loc));
    return td.find_bufr(BufrTableID(r.ce, r.sc, r.mt, r.mtv, r.loc));
}

/// Check the outcome of a search; returns the name of the table that was found
std::string check(const Req& r, const tabledir::Table* found, const std::vector<T>& tables, const std::vector<std::string>& dirs)
{
    mc::step();
    auto expected = best(r, tables);
    if (!found)
    {
        MC_CHECK(expected.empty(), "request %s: no table found, but %s is acceptable", desc(r).c_str(), expected[0]->name.c_str());
        return "none";
    }
    std::string bpath = found->btable_pathname, dpath = found->dtable_pathname;
    for (auto t: expected)
        if (bpath == dirs[t->dir] + "/" + t->name + ".txt" && dpath == dirs[t->dir] + "/D" + t->name.substr(1) + ".txt" && found->btable_id == t->name)
            return bpath;
    mc::fail("request %s: found %s, but %s is %s", desc(r).c_str(), bpath.c_str(), expected.empty() ? "no table" : expected[0]->name.c_str(),
             expected.empty() ? "acceptable" : "better");
}

void trace_tables(const std::vector<T>& tables)
{
    if (!mc::tracing) return;
    for (auto& t: tables) mc::trace("installed in directory %u: %s", t.dir, t.name.c_str());
}

/// Make all the requests, with the tables listed in all orders
void check_all(const std::vector<T>& tables, const std::vector<Req>& reqs)
{
    trace_tables(tables);
    std::string dir = make_dir(tables);
    std::vector<std::string> dirs{dir};
    std::vector<std::string> first;
    // The directory has a B and a D table each: listing orders are those of the B tables, with D tables last or first
    std::vector<unsigned> order;
    for (unsigned i = 0; i < tables.size(); ++i) order.push_back(i);
    std::string key;
    for (auto& t: tables) key += t.name + " ";
    do {
        listing_order = order;
        tabledir::Tabledirs td;
        td.add_directory(dir);
        for (size_t i = 0; i < reqs.size(); ++i)
        {
            std::string r = check(reqs[i], find(td, reqs[i]), tables, dirs);
            if (first.size() < reqs.size()) first.push_back(r);
            else MC_CHECK(first[i] == r, "request %s: %s is found or %s depending on the order of the directory listing", desc(reqs[i]).c_str(), first[i].c_str(), r.c_str());
        }
        // Again on the same object, in another order
        for (size_t i = reqs.size(); i--; )
        {
            std::string r = check(reqs[i], find(td, reqs[i]), tables, dirs);
            MC_CHECK(first[i] == r, "request %s: found %s and later %s", desc(reqs[i]).c_str(), first[i].c_str(), r.c_str());
        }
    } while (std::next_permutation(order.begin(), order.end()));
    listing_order.clear();
    mc::state(key);
}

/// Choose a set of at most n tables of the pool
std::vector<T> choose_set(const std::vector<T>& pool, unsigned n)
{
    std::vector<T> res;
    unsigned from = 0;
    for (unsigned i = 0; i < n && from < pool.size(); ++i)
    {
        unsigned c = mc::choose(pool.size() - from + 1, "table");
        if (c == 0) break;
        res.push_back(pool[from + c - 1]);
        from += c;
    }
    return res;
}

std::vector<Req> bufr_reqs()
{
    std::vector<Req> res;
    for (unsigned ce: { 0, 98, 200, 7, 65535 }) for (unsigned sc: { 0, 1, 2 }) for (unsigned mtv: { 12, 13, 14, 15 }) for (unsigned loc: { 0, 1, 2, 3 })
        res.push_back(Req{false, 0, ce, sc, 0, mtv, 0, loc});
    for (unsigned mt: { 1, 10, 255 }) for (unsigned mtv: { 0, 13, 255 }) res.push_back(Req{false, 0, 98, 0, mt, mtv, 0, 1});
    return res;
}
std::vector<Req> crex_reqs()
{
    std::vector<Req> res;
    for (unsigned ed: { 1, 2, 3 }) for (unsigned ce: { 0, 98 }) for (unsigned sc: { 0, 1 }) for (unsigned mt: { 0, 1 }) for (unsigned mtv: { 2, 3, 4, 13 })
        for (unsigned bufr: { 0, 1, 13, 14 }) for (unsigned loc: { 0, 1, 2 })
            res.push_back(Req{true, ed, ce, sc, mt, mtv, bufr, loc});
    return res;
}

/// The shipped tables, read from the names of the files
std::vector<T> shipped(const std::string& dir, unsigned pos)
{
    std::vector<T> res;
    DIR* d = opendir(dir.c_str());
    while (dirent* e = readdir(d))
    {
        std::string n = e->d_name;
        if (n.size() < 5 || n[0] != 'B' || n.substr(n.size() - 4) != ".txt") continue;
        n = n.substr(0, n.size() - 4);
        auto num = [&](unsigned from, unsigned len) { return (unsigned)strtoul(n.substr(from, len).c_str(), nullptr, 10); };
        T t;
        if (n.size() == 7) t = T{true, num(3, 2), 0, 0, num(1, 2), num(5, 2), 0, 0, n, pos};
        else if (n.size() == 16) t = T{false, 0, num(9, 3), num(6, 3), 0, num(12, 2), 0, num(14, 2), n, pos};
        else if (n.size() == 20) t = T{false, 0, num(10, 4), num(6, 4), 0, num(14, 3), 0, num(17, 3), n, pos};
        else continue;
        res.push_back(t);
    }
    closedir(d);
    return res;
}

std::string extra_dir;
std::vector<std::string> default_dirs;
std::vector<T> default_tables;

std::string outcome_of(const std::function<void()>& f)
{
    try { f(); } catch (wreport::error_notfound& e) { return "notfound"; } catch (wreport::error& e) { return std::string("error ") + e.what(); }
    return "";
}

/// Old BUFR tables do not have the columns that are used for CREX
bool without_crex_columns(const std::string& pathname)
{
    static std::map<std::string, bool> cache;
    auto i = cache.find(pathname);
    if (i != cache.end()) return i->second;
    bool res = false;
    if (FILE* in = fopen(pathname.c_str(), "r"))
    {
        char line[512];
        while (fgets(line, sizeof(line), in))
            if (strlen(line) < 157 && strncmp(line + 1, "031", 3) != 0) res = true;
        fclose(in);
    }
    return cache[pathname] = res;
}

/// Check the tables that were loaded by a bulletin
void check_loaded(const Req& r, const std::string& outcome, const Vartable* b, const DTable* d, const char* how)
{
    mc::step();
    auto expected = best(r, default_tables);
    if (expected.empty())
    {
        MC_CHECK(outcome == "notfound", "%s with %s: there are no acceptable tables, and the outcome is '%s'", how, desc(r).c_str(), outcome.c_str());
        return;
    }
    if (r.crex && !outcome.empty())
        for (auto t: expected)
        {
            std::string path = default_dirs[t->dir] + "/" + t->name + ".txt";
            if (!t->crex && without_crex_columns(path) && outcome.find(path) != std::string::npos) return;
        }
    MC_CHECK(outcome.empty(), "%s with %s: %s", how, desc(r).c_str(), outcome.c_str());
    for (auto t: expected)
    {
        std::string base = default_dirs[t->dir] + "/";
        if (b->path() == base + t->name + ".txt" && (!d || d->pathname() == base + "D" + t->name.substr(1) + ".txt")) return;
    }
    mc::fail("%s with %s: loaded %s %s instead of %s", how, desc(r).c_str(), b->path().c_str(), d ? d->pathname().c_str() : "", expected[0]->name.c_str());
}

void copy(const std::string& from, const std::string& to)
{
    FILE* i = fopen(from.c_str(), "r"); FILE* o = fopen(to.c_str(), "w");
    if (!i || !o) { perror(from.c_str()); abort(); }
    char buf[65536]; size_t n;
    while ((n = fread(buf, 1, sizeof(buf), i)) > 0) fwrite(buf, 1, n, o);
    fclose(i); fclose(o);
}

}

void mc::setup()
{
    // Extra tables, searched before the shipped ones. The directory has to be known before anything loads tables
    extra_dir = mc::scratch() + "/extra";
    if (mkdir(extra_dir.c_str(), 0777) == 0)
        for (auto n: { "0000000000200024007", "0000000000000033000", "0000000000254019001", "0000000000000026000", "000000010981301", "000204", "0000000000000099000" })
            for (const char* bd: { "B", "D" })
                copy(mc::repo() + "/tables/" + bd + "0000000000000024000.txt", extra_dir + "/" + bd + n + ".txt");
    setenv("WREPORT_EXTRA_TABLES", extra_dir.c_str(), 1);
    default_dirs = { extra_dir, mc::repo() + "/tables" };
    default_tables = shipped(extra_dir, 0);
    for (auto& t: shipped(default_dirs[1], 1)) default_tables.push_back(t);

    // All sets of BUFR tables
    mc::add("bufr", []{
        std::vector<T> pool;
        for (unsigned ce: { 0, 98, 200 }) for (unsigned mtv: { 13, 14 }) for (unsigned loc: { 0, 1, 2 }) for (unsigned sc: { 0, 1 })
            pool.push_back(btable(ce, sc, mtv, loc, false));
        static const auto reqs = bufr_reqs();
        check_all(choose_set(pool, mc::thorough() ? 4 : 3), reqs);
    });

    // Local versions and subcentres in depth
    mc::add("bufr-local", []{
        std::vector<T> pool;
        for (unsigned loc: { 0, 1, 2, 3, 4, 5 }) for (unsigned sc: { 0, 1 }) pool.push_back(btable(98, sc, 13, loc, false));
        std::vector<Req> reqs;
        for (unsigned sc: { 0, 1, 2 }) for (unsigned loc = 0; loc <= 7; ++loc) reqs.push_back(Req{false, 0, 98, sc, 0, 13, 0, loc});
        check_all(choose_set(pool, mc::thorough() ? 5 : 4), reqs);
    });

    // Versions in depth
    mc::add("bufr-version", []{
        std::vector<T> pool;
        for (unsigned mtv: { 0, 1, 2, 9, 10, 11, 98, 99 }) for (unsigned ce: { 0, 98 }) pool.push_back(btable(ce, 0, mtv, 0, false));
        for (unsigned mtv: { 100, 127, 128, 254, 255 }) pool.push_back(btable(0, 0, mtv, 0, true));
        std::vector<Req> reqs;
        for (unsigned ce: { 0, 98, 7 }) for (unsigned mtv: { 0, 1, 2, 3, 9, 10, 11, 12, 97, 98, 99, 100, 101, 126, 127, 128, 129, 253, 254, 255 }) reqs.push_back(Req{false, 0, ce, 0, 0, mtv, 0, 0});
        check_all(choose_set(pool, mc::thorough() ? 4 : 3), reqs);
    });

    // CREX requests: CREX tables are chosen together with BUFR ones
    mc::add("crex", []{
        std::vector<T> pool;
        for (unsigned ed: { 1, 2 }) for (unsigned mtv: { 2, 3, 4 }) for (unsigned mt: { 0, 1 }) pool.push_back(ctable(mt, ed, mtv));
        for (unsigned ce: { 0, 98 }) for (unsigned mtv: { 0, 13, 14 }) for (unsigned loc: { 0, 1 }) pool.push_back(btable(ce, 0, mtv, loc, false));
        static const auto reqs = crex_reqs();
        check_all(choose_set(pool, mc::thorough() ? 4 : 3), reqs);
    });

    // The comparison of two tables, also of those that no file name can describe
    mc::add("closest", []{
        std::vector<T> pool;
        unsigned kinds = mc::choose(3, "kinds");
        static const unsigned centres[] = { 0, 98, 200, 0xffff };
        for (bool crex: { false, true })
        {
            if ((kinds == 0 && crex) || (kinds == 1 && !crex)) continue;
            for (unsigned ce: centres) for (unsigned sc: { 0, 1, 0xffff }) for (unsigned mtv: { 13, 14 }) for (unsigned bufr: { 13, 14 }) for (unsigned loc: { 0, 1, 2, 255 })
            {
                if (!crex && bufr != 13) continue;
                if (kinds == 2 && (sc == 0xffff || (crex && mtv != 13))) continue;
                pool.push_back(T{crex, crex ? 2u : 0u, ce, sc, 0, mtv, crex ? bufr : 0, loc, ""});
            }
        }
        bool rcrex = kinds == 0 ? mc::flag("CREX request") : true;
        unsigned rce = mc::pick(std::vector<unsigned>{0, 98, 7, 0xffff}, "centre"), rsc = mc::pick(std::vector<unsigned>{0, 1, 5, 0xffff}, "subcentre"), rloc = mc::choose(5, "local version");
        unsigned rbufr = rcrex ? mc::pick(std::vector<unsigned>{0, 13, 14}, "BUFR version") : 0;
        Req r{rcrex, 2, rce, rsc, 0, mc::pick(std::vector<unsigned>{12, 13, 14, 15}, "version"), rbufr, rloc};
        auto bid = [](const T& t) { return BufrTableID(t.ce, t.sc, t.mt, t.mtv, t.loc); };
        auto cid = [](const T& t) { return CrexTableID(t.ed, t.ce, t.sc, t.mt, t.mtv, t.bufr, t.loc); };
        BufrTableID rb(r.ce, r.sc, r.mt, r.mtv, r.loc);
        CrexTableID rc(r.ed, r.ce, r.sc, r.mt, r.mtv, r.bufr, r.loc);
        std::vector<const T*> ok;
        for (auto& t: pool)
        {
            bool a = r.crex ? (t.crex ? rc.is_acceptable_replacement(cid(t)) : rc.is_acceptable_replacement(bid(t))) : (t.crex ? rb.is_acceptable_replacement(cid(t)) : rb.is_acceptable_replacement(bid(t)));
            MC_CHECK(a == acceptable(r, t), "%s: a table of centre %u:%u version %u:%u local %u is %sacceptable", desc(r).c_str(), t.ce, t.sc, t.mtv, t.bufr, t.loc, a ? "" : "not ");
            // Another edition, or another master table
            T o = t; o.mt = 1;
            a = r.crex ? (t.crex ? rc.is_acceptable_replacement(cid(o)) : rc.is_acceptable_replacement(bid(o))) : (t.crex ? rb.is_acceptable_replacement(cid(o)) : rb.is_acceptable_replacement(bid(o)));
            MC_CHECK(!a, "a table with another master table number is acceptable");
            if (t.crex && r.crex) { o = t; o.ed = 3; MC_CHECK(!rc.is_acceptable_replacement(cid(o)), "a table of another CREX edition is acceptable"); }
            if (acceptable(r, t)) ok.push_back(&t);
        }
        for (auto a: ok) for (auto b: ok)
        {
            if (a->crex && !b->crex) continue;
            mc::step();
            bool mixed = a->crex != b->crex;
            int got;
            if (r.crex) got = mixed ? rc.closest_match(bid(*a), cid(*b)) : a->crex ? rc.closest_match(cid(*a), cid(*b)) : rc.closest_match(bid(*a), bid(*b));
            else got = rb.closest_match(bid(*a), bid(*b));
            Rank ra = mixed ? rank_mixed(r, *a) : rank(r, *a), rbk = mixed ? rank_mixed(r, *b) : rank(r, *b);
            int exp = ra < rbk ? -1 : rbk < ra ? 1 : 0;
            MC_CHECK((got > 0) - (got < 0) == exp, "%s: between %s centre %u:%u version %u:%u local %u and %s centre %u:%u version %u:%u local %u, closest_match gives %d", desc(r).c_str(),
                a->crex ? "CREX" : "BUFR", a->ce, a->sc, a->mtv, a->bufr, a->loc, b->crex ? "CREX" : "BUFR", b->ce, b->sc, b->mtv, b->bufr, b->loc, got);
        }
    });

    // Identifiers of tables are keys of sorted containers
    mc::add("order", []{
        std::vector<T> pool;
        for (unsigned ed: { 1, 2 }) for (unsigned ce: { 0, 0xffff }) for (unsigned sc: { 0, 1 }) for (unsigned mt: { 0, 10 }) for (unsigned mtv: { 13, 14 }) for (unsigned bufr: { 0, 19 }) for (unsigned loc: { 0, 255 })
            pool.push_back(T{true, ed, ce, sc, mt, mtv, bufr, loc, ""});
        const T& a = mc::pick(pool, "first");
        auto bid = [](const T& t) { return BufrTableID(t.ce, t.sc, t.mt, t.mtv, t.loc); };
        auto cid = [](const T& t) { return CrexTableID(t.ed, t.ce, t.sc, t.mt, t.mtv, t.bufr, t.loc); };
        for (auto& b: pool)
        {
            mc::step();
            bool same_b = a.ce == b.ce && a.sc == b.sc && a.mt == b.mt && a.mtv == b.mtv && a.loc == b.loc, same_c = same_b && a.ed == b.ed && a.bufr == b.bufr;
            MC_CHECK((bid(a) < bid(b)) + (bid(b) < bid(a)) == !same_b, "different BUFR tables are taken for the same one, or the same for different ones");
            MC_CHECK((cid(a) < cid(b)) + (cid(b) < cid(a)) == !same_c, "different CREX tables are taken for the same one, or the same for different ones");
            for (auto& c: pool)
            {
                MC_CHECK(!(bid(a) < bid(b) && bid(b) < bid(c)) || bid(a) < bid(c), "BUFR tables are not ordered");
                MC_CHECK(!(cid(a) < cid(b) && cid(b) < cid(c)) || cid(a) < cid(c), "CREX tables are not ordered");
            }
        }
    });

    // What the names of the files mean: each one is the best for who asks exactly for it, and not acceptable for the next version
    mc::add("names", []{
        std::vector<unsigned> centres{0, 1, 9, 10, 98, 99, 100, 254, 255, 256, 999}, versions{0, 1, 9, 10, 31, 99, 100, 200, 255}, subs{0, 1, 10, 99, 255};
        T t;
        switch (mc::choose(3, "format"))
        {
            case 0: t = ctable(mc::choose(100, "master table"), mc::pick(std::vector<unsigned>{0, 1, 2, 10, 99}, "edition"), mc::pick(std::vector<unsigned>{0, 1, 3, 10, 99}, "version")); break;
            case 1: t = btable(mc::pick(centres, "centre"), mc::pick(subs, "subcentre"), mc::pick(versions, "version"), mc::pick(versions, "local version"), false); break;
            default: t = btable(mc::pick(centres, "centre"), 0, mc::pick(versions, "version"), mc::pick(versions, "local version"), true); break;
        }
        if (t.name.size() != 7 && t.name.size() != 16 && t.name.size() != 20) mc::prune();
        // There is a decoy that only wins if something is not read right
        T decoy = t.crex ? ctable(t.mt, t.ed, t.mtv < 99 ? t.mtv + 1 : 98) : btable(t.ce, t.sc == 5 ? 6 : 5, t.mtv < 99 ? t.mtv + 1 : 98, t.loc < 99 ? t.loc + 1 : 98, false);
        std::vector<Req> reqs;
        for (int d: { 0, 1 })
        {
            reqs.push_back(Req{t.crex, t.ed, t.ce, t.sc, t.mt, std::min(t.mtv + d, 255u), t.bufr, t.loc});
            reqs.push_back(Req{t.crex, t.ed + d, t.ce, t.sc, t.mt, t.mtv, t.bufr, t.loc});
            reqs.push_back(Req{t.crex, t.ed, t.ce, t.sc, t.mt + d, t.mtv, t.bufr, t.loc});
            reqs.push_back(Req{t.crex, t.ed, t.ce + d, t.sc, t.mt, t.mtv, t.bufr, t.loc});
            reqs.push_back(Req{t.crex, t.ed, t.ce, t.sc, t.mt, t.mtv, t.bufr, std::min(t.loc + d, 255u)});
        }
        check_all({t}, reqs);
        check_all({t, decoy}, reqs);
    });

    // Files that are not tables
    mc::add("other-files", []{
        T t = btable(98, 0, 13, 1, mc::flag("long name"));
        static const char* others[] = { "B.txt", "B00.txt", "Bxxxxxxxxxxxxxxx.txt", "Bxxxxxxxxxxxxxxxxxxx.txt", "Bxxxxxx.txt", "B000000000981302.tx", "B000000000981302", "B000000000981302.txt~", "b000000000981301.txt",
            "D000000000981300.txt", "test.txt", "README", ".txt", "B00000000098130.txt", "B0000000009813010.txt", "A000000000981301.txt" };
        auto tables = std::vector<T>{t};
        std::string dir = mc::scratch() + mc::fmt("/o%d", (int)getpid());
        mkdir(dir.c_str(), 0777);
        std::vector<std::string> files{dir + "/" + t.name + ".txt"};
        unsigned a = mc::choose(sizeof(others) / sizeof(*others), "file"), b = mc::choose(sizeof(others) / sizeof(*others), "file");
        files.push_back(dir + "/" + others[a]); files.push_back(dir + "/" + others[b]);
        for (auto& f: files) fclose(fopen(f.c_str(), "w"));
        std::vector<std::string> res;
        std::vector<unsigned> order{0, 1, 2};
        do {
            listing_order = order;
            tabledir::Tabledirs td;
            td.add_directory(dir);
            for (unsigned mtv: { 12, 13, 14 }) for (unsigned loc: { 0, 1, 2 }) for (unsigned ce: { 0, 98 })
            {
                Req r{false, 0, ce, 0, 0, mtv, 0, loc};
                check(r, find(td, r), tables, {dir});
            }
            // Files with any other name can be found by name
            const tabledir::Table* f = td.find("test");
            bool has = a == 10 || b == 10;
            MC_CHECK((f != nullptr) == has, "test.txt is %s", f ? "found but it is not there" : "not found");
            f = td.find(t.name);
            MC_CHECK(f && f->btable_pathname == files[0], "%s is not found by name", t.name.c_str());
        } while (std::next_permutation(order.begin(), order.end()));
        listing_order.clear();
        for (auto& f: files) unlink(f.c_str());
        rmdir(dir.c_str());
    });

    // Several directories, some of them missing or added later, and all histories of requests
    mc::add("histories", []{
        static const std::vector<std::vector<T>> contents{
            {btable(0, 0, 13, 0, false), btable(98, 0, 14, 1, false)},
            {btable(0, 0, 13, 0, false), btable(98, 0, 13, 1, false), ctable(0, 2, 3)},
            {btable(98, 0, 13, 1, true), btable(98, 1, 13, 1, false), btable(0, 0, 15, 0, true)},
            {},
        };
        static const std::vector<Req> reqs{
            {false, 0, 98, 0, 0, 13, 0, 1}, {false, 0, 98, 1, 0, 13, 0, 1}, {false, 0, 98, 0, 0, 14, 0, 0}, {false, 0, 0, 0, 0, 13, 0, 0}, {false, 0, 98, 0, 0, 15, 0, 1}, {false, 0, 98, 0, 0, 16, 0, 1},
            {true, 2, 0, 0, 0, 3, 0, 0}, {true, 2, 98, 0, 0, 3, 13, 1}, {true, 2, 98, 1, 0, 4, 14, 1}, {false, 0, 98, 0, 1, 13, 0, 1}, {false, 0, 1, 98, 0, 13, 0, 1},
        };
        tabledir::Tabledirs td;
        std::vector<std::string> dirs;
        std::vector<T> tables;
        unsigned depth = mc::thorough() ? 5 : 4;
        std::string hist;
        for (unsigned i = 0; i < depth; ++i)
        {
            unsigned c = mc::choose(reqs.size() + 7, "operation");
            hist += mc::fmt("%u ", c);
            if (c < reqs.size()) check(reqs[c], find(td, reqs[c]), tables, dirs);
            else if (c < reqs.size() + 5)
            {
                unsigned k = c - reqs.size();
                std::string d = k < 4 ? make_dir(contents[k]) : mc::scratch() + "/missing";
                mc::trace("add directory %u: %s", k, d.c_str());
                // A directory is the same with slashes at the end, and is not added twice
                td.add_directory(d + (i % 2 ? "//" : ""));
                if (std::find(dirs.begin(), dirs.end(), d) == dirs.end())
                {
                    if (k < 4) for (auto t: contents[k]) { t.dir = dirs.size(); tables.push_back(t); }
                    dirs.push_back(d);
                }
            }
            else if (c == reqs.size() + 5)
            {
                FILE* out = fopen("/dev/null", "w");
                for (auto& r: reqs)
                    if (r.crex) td.explain_find_crex(CrexTableID(r.ed, r.ce, r.sc, r.mt, r.mtv, r.bufr, r.loc), out);
                    else td.explain_find_bufr(BufrTableID(r.ce, r.sc, r.mt, r.mtv, r.loc), out);
                td.print(out);
                fclose(out);
            }
            else
            {
                // By name: the first directory wins
                auto t = td.find("B000000000001300");
                const T* e = nullptr;
                for (auto& x: tables) if (x.name == "B000000000001300" && (!e || x.dir < e->dir)) e = &x;
                MC_CHECK((t != nullptr) == (e != nullptr), "table found by name %d instead of %d", t != nullptr, e != nullptr);
                if (t) MC_CHECK(t->btable_pathname == dirs[e->dir] + "/B000000000001300.txt", "wrong table found by name: %s", t->btable_pathname.c_str());
            }
        }
        for (auto& r: reqs) check(r, find(td, r), tables, dirs);
        mc::state(hist);
    });

    // Directories whose names start like others, added in all orders
    mc::add("directory-names", []{
        static const std::vector<std::string> names{ "t", "t2", "t/sub", "t ", "T", ".t", "t.txt" };
        static const std::vector<T> one{btable(0, 0, 13, 0, false), btable(0, 0, 14, 0, false), btable(0, 0, 15, 0, false), btable(0, 0, 16, 0, false), btable(0, 0, 17, 0, false), btable(0, 0, 18, 0, false), btable(0, 0, 19, 0, false)};
        std::string base = mc::scratch() + mc::fmt("/names-%d", (int)getpid());
        mkdir(base.c_str(), 0777);
        std::vector<std::string> all;
        for (unsigned i = 0; i < names.size(); ++i)
        {
            std::string d = base + "/" + names[i];
            if (mkdir(d.c_str(), 0777) == 0)
            {
                std::string src = make_dir({one[i]});
                for (auto& e: std::filesystem::directory_iterator(src)) std::filesystem::copy_file(e.path(), std::filesystem::path(d) / e.path().filename());
            }
            all.push_back(d);
        }
        tabledir::Tabledirs td;
        std::vector<std::string> dirs;
        std::vector<T> tables;
        std::string hist;
        unsigned n = 2 + mc::choose(2, "directories");
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned k = mc::choose(names.size(), "directory");
            hist += mc::fmt("%u ", k);
            td.add_directory(all[k] + std::string(mc::choose(3, "slashes"), '/'));
            if (std::find(dirs.begin(), dirs.end(), all[k]) != dirs.end()) continue;
            T t = one[k]; t.dir = dirs.size(); tables.push_back(t);
            dirs.push_back(all[k]);
        }
        for (unsigned v = 12; v < 21; ++v) { Req r{false, 0, 0, 0, 0, v, 0, 0}; check(r, find(td, r), tables, dirs); }
        mc::state(hist);
    });

    // A directory with any modification time
    mc::add("times", []{
        std::vector<T> tables{btable(0, 0, 13, 0, false)};
        std::string dir = make_dir(tables);
        static const time_t times[] = { 1000000000, 0, 1, -1, 4102444800 };
        struct timespec ts[2];
        ts[0].tv_sec = ts[1].tv_sec = times[mc::choose(5, "modification time")];
        ts[0].tv_nsec = ts[1].tv_nsec = 0;
        utimensat(AT_FDCWD, dir.c_str(), ts, 0);
        mc::trace("modification time: %ld", (long)ts[0].tv_sec);
        tabledir::Tabledirs td;
        td.add_directory(dir);
        Req r{false, 0, 0, 0, 0, 13, 0, 0};
        check(r, find(td, r), tables, {dir});
    });

    // The tables that bulletins load: the identifiers in their header, the default directories
    Options once; once.leaks = false;
    mc::add("load-bufr", []{
        BufrBulletin* b = nullptr;
        auto pb = BufrBulletin::create();
        b = pb.get();
        Req r{false, 0, 0, 0, 0, 0, 0, 0};
        r.mtv = mc::choose(41, "version"); if (r.mtv == 35) r.mtv = 98; if (r.mtv == 36) r.mtv = 99; if (r.mtv == 37) r.mtv = 100; if (r.mtv == 38) r.mtv = 127; if (r.mtv == 39) r.mtv = 128; if (r.mtv == 40) r.mtv = 255;
        r.ce = mc::pick(std::vector<unsigned>{0, 1, 13, 19, 24, 85, 98, 200, 254, 255, 256, 354, 65535}, "centre");
        r.sc = mc::pick(std::vector<unsigned>{0, 1, 98, 255, 256}, "subcentre");
        r.loc = mc::pick(std::vector<unsigned>{0, 1, 2, 3, 7, 102, 255}, "local version");
        r.mt = mc::pick(std::vector<unsigned>{0, 1, 10}, "master table");
        b->edition_number = 4;
        b->originating_centre = r.ce; b->originating_subcentre = r.sc; b->master_table_number = r.mt;
        b->master_table_version_number = r.mtv; b->master_table_version_number_local = r.loc;
        std::string o = outcome_of([&]{ b->load_tables(); });
        check_loaded(r, o, b->tables.btable, b->tables.dtable, "BufrBulletin::load_tables");
        const Vartable* vt = nullptr;
        std::string o1 = outcome_of([&]{ vt = Vartable::get_bufr(BufrTableID(r.ce, r.sc, r.mt, r.mtv, r.loc)); });
        check_loaded(r, o1, vt, nullptr, "Vartable::get_bufr");
        if (!o.empty()) return;
        // Through encoding and decoding, for what each edition can represent
        b->rep_year = 2020; b->rep_month = 1; b->rep_day = 1;
        b->datadesc.push_back(WR_VAR(0, 1, 1));
        auto& s = b->obtain_subset(0);
        s.store_variable_i(WR_VAR(0, 1, 1), 1);
        for (int ed: { 2, 3, 4 })
        {
            b->edition_number = ed;
            Req e = r;
            if (ed == 3 && (r.ce > 255 || r.sc > 255)) continue;
            if (ed == 2) { e.sc = 0; }
            std::string raw;
            if (!outcome_of([&]{ raw = b->encode(); }).empty()) continue;
            std::unique_ptr<BufrBulletin> d;
            std::string o2 = outcome_of([&]{ d = BufrBulletin::decode(raw); });
            if (ed == 2) { if (!d) continue; e.ce = d->originating_centre; e.sc = d->originating_subcentre; }
            check_loaded(e, o2, d ? d->tables.btable : nullptr, d ? d->tables.dtable : nullptr, mc::fmt("decoding edition %d", ed).c_str());
        }
    }, once);
    mc::add("load-crex", []{
        auto b = CrexBulletin::create();
        Req r{true, 0, 0, 0, 0, 0, 0, 0};
        r.ed = mc::choose(4, "edition"); r.mt = mc::choose(2, "master table");
        r.mtv = mc::pick(std::vector<unsigned>{0, 1, 2, 3, 4, 5, 13, 18, 19, 34, 99, 255}, "version");
        r.bufr = mc::pick(std::vector<unsigned>{0, 1, 2, 13, 18, 19, 24, 33, 34, 99, 100, 255}, "bufr version");
        r.ce = mc::pick(std::vector<unsigned>{0, 98, 254}, "centre"); r.sc = mc::pick(std::vector<unsigned>{0, 1, 98}, "subcentre"); r.loc = mc::pick(std::vector<unsigned>{0, 1, 2}, "local");
        b->edition_number = r.ed; b->originating_centre = r.ce; b->originating_subcentre = r.sc; b->master_table_number = r.mt;
        b->master_table_version_number = r.mtv; b->master_table_version_number_bufr = r.bufr; b->master_table_version_number_local = r.loc;
        std::string o = outcome_of([&]{ b->load_tables(); });
        check_loaded(r, o, b->tables.btable, b->tables.dtable, "CrexBulletin::load_tables");
        const Vartable* vt = nullptr;
        std::string o1 = outcome_of([&]{ vt = Vartable::get_crex(CrexTableID(r.ed, r.ce, r.sc, r.mt, r.mtv, r.bufr, r.loc)); });
        check_loaded(r, o1, vt, nullptr, "Vartable::get_crex");
    }, once);
    mc::add("load-crex-text", []{
        Req r{true, 0, 0, 0, 0, 0, 0, 0};
        r.mt = mc::choose(3, "master table"); r.ed = mc::choose(4, "edition"); r.mtv = mc::choose(100, "version");
        std::string text = mc::fmt("CREX++\r\r\nT%02u%02u%02u A001 B01001++\r\r\n 10++\r\r\n7777\r\r\n", r.mt, r.ed, r.mtv);
        std::unique_ptr<CrexBulletin> d;
        std::string o = outcome_of([&]{ d = CrexBulletin::decode(text); });
        check_loaded(r, o, d ? d->tables.btable : nullptr, d ? d->tables.dtable : nullptr, "decoding CREX");
    }, once);
    mc::add("load-by-name", []{
        std::string n = mc::pick(std::vector<std::string>{"B0000000000000033000", "B0000000000000024000", "B0000000000200024007", "B0000000000254019001", "B000203", "B0000000000000098000", "", "B"}, "name");
        bool crex = mc::flag("crex");
        const Vartable* vt = nullptr;
        std::string o = outcome_of([&]{ vt = crex ? Vartable::get_crex(n) : Vartable::get_bufr(n); });
        const T* e = nullptr;
        for (auto& t: default_tables) if (t.name == n && (!e || t.dir < e->dir)) e = &t;
        if (!e) { MC_CHECK(o == "notfound", "table %s: %s", n.c_str(), o.c_str()); return; }
        if (e->crex && !crex) return;   // A CREX table does not have the columns of a BUFR one
        MC_CHECK(o.empty() && vt->path() == default_dirs[e->dir] + "/" + n + ".txt", "table %s: %s loaded %s", n.c_str(), o.c_str(), vt ? vt->path().c_str() : "none");
    }, once);
}
