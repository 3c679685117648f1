// C37: coloured output shows the text in the colours asked for on terminals, and only the text elsewhere.
//
// What is written is interpreted by a small model of a terminal (ECMA-48 and aixterm colours).
#include "mc.h"
#include <wreport/utils/term.h>
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <fcntl.h>
#include <memory>
#include <termios.h>
#include <unistd.h>
#include <vector>
using namespace wreport;
using term::Terminal;

const char* mc::property = "C37";

namespace {

struct Attr
{
    int fg = -1, bg = -1;
    bool bold = false, bright_fg = false, bright_bg = false;
    bool plain() const { return fg == -1 && bg == -1 && !bold; }
    std::string str() const { return mc::fmt("foreground %d%s background %d%s%s", fg, bright_fg ? " bright" : "", bg, bright_bg ? " bright" : "", bold ? " bold" : ""); }
};

/// Show what has been written on a terminal
std::vector<std::pair<char, Attr>> show(const std::string& out, Attr& cur)
{
    std::vector<std::pair<char, Attr>> res;
    for (size_t i = 0; i < out.size(); )
    {
        if (out[i] != '\x1b' || i + 1 >= out.size() || out[i + 1] != '[') { res.emplace_back(out[i++], cur); continue; }
        size_t j = i + 2;
        std::vector<int> codes{0};
        while (j < out.size() && (isdigit(out[j]) || out[j] == ';'))
        {
            if (out[j] == ';') codes.push_back(0); else codes.back() = codes.back() * 10 + (out[j] - '0');
            ++j;
        }
        if (j >= out.size() || out[j] != 'm') mc::fail("\"%s\" is not a sequence for terminals", mc::esc(out.substr(i)).c_str());
        for (int c: codes)
        {
            if (c == 0) cur = Attr();
            else if (c == 1) cur.bold = true;
            else if (c >= 30 && c <= 37) { cur.fg = c - 30; cur.bright_fg = false; }
            else if (c >= 90 && c <= 97) { cur.fg = c - 90; cur.bright_fg = true; }
            else if (c >= 40 && c <= 47) { cur.bg = c - 40; cur.bright_bg = false; }
            else if (c >= 100 && c <= 107) { cur.bg = c - 100; cur.bright_bg = true; }
            else if (c == 39) { cur.fg = -1; cur.bright_fg = false; }
            else if (c == 49) { cur.bg = -1; cur.bright_bg = false; }
            else mc::fail("\"%s\" sets something else", mc::esc(out).c_str());
        }
        i = j + 1;
    }
    return res;
}

/// A file that is or is not a terminal
struct Output
{
    FILE* out = nullptr;
    int master = -1, other = -1;
    char* buf = nullptr; size_t size = 0;
    unsigned kind;
    Output(unsigned kind) : kind(kind)
    {
        switch (kind)
        {
            case 0: {
                master = posix_openpt(O_RDWR | O_NOCTTY);
                if (master == -1 || grantpt(master) == -1 || unlockpt(master) == -1) mc::fail("harness: no pseudo terminals");
                int fd = open(ptsname(master), O_RDWR | O_NOCTTY);
                if (fd == -1) mc::fail("harness: no pseudo terminal");
                struct termios t; tcgetattr(fd, &t); cfmakeraw(&t); tcsetattr(fd, TCSANOW, &t);
                out = fdopen(fd, "w");
                break;
            }
            case 1: { int fds[2]; if (pipe(fds)) mc::fail("harness: pipe"); other = fds[0]; out = fdopen(fds[1], "w"); break; }
            case 2: out = tmpfile(); break;
            case 3: out = open_memstream(&buf, &size); break;
            case 4: out = fopen("/dev/null", "w"); break;
        }
        if (!out) mc::fail("harness: no file");
    }
    std::string read_all()
    {
        fflush(out);
        std::string res;
        char b[4096];
        int fd = kind == 0 ? master : kind == 1 ? other : -1;
        if (fd != -1)
        {
            fcntl(fd, F_SETFL, O_NONBLOCK);
            ssize_t n;
            while ((n = ::read(fd, b, sizeof(b))) > 0) res.append(b, n);
        }
        else if (kind == 2) { rewind(out); size_t n; while ((n = fread(b, 1, sizeof(b), out)) > 0) res.append(b, n); }
        else if (kind == 3) res.assign(buf, size);
        return res;
    }
    ~Output()
    {
        if (out) fclose(out);
        if (master != -1) close(master);
        if (other != -1) close(other);
        free(buf);
    }
};

unsigned choose_colour(const char* what)
{
    unsigned c = mc::choose(9, what);
    if (mc::flag("bright")) c |= Terminal::bright;
    return c;
}

void check(const std::vector<std::pair<char, Attr>>& got, const std::string& text, unsigned fg, unsigned bg, const std::string& what)
{
    std::string chars;
    for (auto& g: got) chars += g.first;
    MC_CHECK(chars == text, "%s: shows \"%s\" instead of \"%s\"", what.c_str(), mc::esc(chars).c_str(), mc::esc(text).c_str());
    int wf = int(fg & 0xf) - 1, wb = int(bg & 0xf) - 1;
    for (auto& g: got)
    {
        MC_CHECK(g.second.fg == wf, "%s: %s", what.c_str(), g.second.str().c_str());
        MC_CHECK(g.second.bg == wb, "%s: %s", what.c_str(), g.second.str().c_str());
        MC_CHECK((g.second.bold || g.second.bright_fg) == bool(fg & Terminal::bright), "%s: %s", what.c_str(), g.second.str().c_str());
        MC_CHECK(g.second.bright_bg == (wb != -1 && (bg & Terminal::bright)), "%s: %s", what.c_str(), g.second.str().c_str());
    }
}

void colours()
{
    unsigned kind = mc::choose(5, "output");
    unsigned how = mc::choose(6, "function");
    static const std::vector<std::string> texts { "", "x", "two words\n", std::string("\x01\x7f\xff", 3) };
    std::string text = mc::pick(texts, "text");
    unsigned fg = how % 3 != 2 ? choose_colour("foreground") : 0;
    unsigned bg = how % 3 != 1 ? choose_colour("background") : 0;
    std::string what = mc::fmt("output %u function %u foreground %u background %u", kind, how, fg, bg);
    Output o(kind);
    Terminal t(o.out);
    MC_CHECK(t.isatty == (kind == 0), "output %u is %sa terminal", kind, t.isatty ? "" : "not ");
    MC_CHECK((FILE*)t == o.out && t.out == o.out, "wrong file");
    fputs("<", o.out);
    switch (how)
    {
        case 0: { auto r = t.set_color(fg, bg); fputs(text.c_str(), t); break; }
        case 1: { auto r = t.set_color_fg(fg); fputs(text.c_str(), t); break; }
        case 2: { auto r = t.set_color_bg(bg); fputs(text.c_str(), t); break; }
        case 3: fputs(t.color(fg, bg, text).c_str(), t); break;
        case 4: fputs(t.color_fg(fg, text).c_str(), t); break;
        case 5: fputs(t.color_bg(bg, text).c_str(), t); break;
    }
    fputs(">", o.out);
    std::string out = o.read_all();
    mc::step();
    mc::state(what + text);
    if (kind == 4) return;
    if (kind) { MC_CHECK(out == "<" + text + ">", "%s: \"%s\" is written on something that is not a terminal", what.c_str(), mc::esc(out).c_str()); return; }
    Attr cur;
    auto got = show(out, cur);
    MC_CHECK(got.size() >= 2 && got.front().first == '<' && got.back().first == '>', "%s: shows something else", what.c_str());
    MC_CHECK(got.front().second.plain() && got.back().second.plain() && cur.plain(), "%s: the colours of what follows change", what.c_str());
    check({got.begin() + 1, got.end() - 1}, text, fg, bg, what);
}

}

void mc::setup()
{
    mc::add("colours", colours);
}
