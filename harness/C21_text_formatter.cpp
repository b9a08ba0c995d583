// C21: text formatter against a reference that works on a character canvas.
#include "mc.hpp"
#include <cmath>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/text_formatter.hpp>

using namespace archon;
using sz = std::size_t;

namespace {

struct Fmt {
    bool has_width = false;
    sz width = 0, first_1 = 0, first_2 = 0, rest = 0, offset = 0, pad_l = 0, pad_r = 0;
    bool wrap = true, justify = false, clip = false, fill = false, norm = false;
    double align = 0;
    sz min_sep = 0;
    bool adv = false;
    sz max_disp = 0;
    std::string text() const
    {
        return mc::str("width=", has_width ? int(width) : -1, " indent=", first_1, ",", first_2, ",", rest, " offset=", offset, " pad=", pad_l, ",", pad_r,
                       wrap ? "" : " nowrap", justify ? " justify" : "", clip ? " clip" : "", fill ? " fill" : "", norm ? " norm" : "", " align=", align,
                       " minsep=", min_sep, adv ? " adv" : "", " maxdisp=", max_disp);
    }
    template<class T> void apply(T& t) const
    {
        if (has_width) t.set_width(width);
        else t.unset_width();
        t.set_indent(first_1, first_2, rest);
        t.set_offset(offset);
        t.set_padding_left(pad_l);
        t.set_padding_right(pad_r);
        t.set_word_wrap(wrap);
        t.set_justify(justify);
        t.set_clipping(clip);
        t.set_always_fill(fill);
        t.set_norm_whitespace(norm);
        t.set_align(align);
        t.set_min_separation(min_sep);
        t.set_adv_continuation(adv);
        t.set_max_displacement(max_disp);
    }
};

struct Unit { sz space; std::string word; };

// Divide an input line into words with preceding space; returns amount of trailing space
sz divide(const std::string& line, bool norm, std::vector<Unit>& units)
{
    units.clear();
    sz space = 0, i = 0;
    while (i < line.size()) {
        if (line[i] == ' ') { ++space; ++i; continue; }
        std::string w;
        while (i < line.size() && line[i] != ' ') w += line[i++];
        units.push_back({ norm ? (units.empty() ? 0u : 1u) : space, w });
        space = 0;
    }
    return norm ? 0 : space;
}

struct Row { std::string text; sz size = 0; };

class Model {
public:
    Fmt f;
    std::vector<Row> rows { Row {} };
    sz row = 0;
    bool open = false, para = false;
    sz disp = 0;
    std::string pending;
    struct Hold { sz first, reached; };
    std::vector<Hold> holds;
    bool knuth = false;
    bool approx = false; // Positions of justified words were subject to rounding
    struct Mark { sz row; double col; std::string word; };
    std::vector<Mark> marks; // Ideal positions of these words
    bool overflow = false; // Text went beyond the right hand side of the text area
    sz breaks = 0;
    // If the optimizing word wrapper is used, it is asked (it is checked elsewhere); the rows are still checked here
    std::vector<sz> wrap(const std::vector<Unit>& u, sz trail, sz first, sz rest)
    {
        std::vector<sz> b;
        if (knuth) {
            core::word_wrap::KnuthWrapper w;
            std::vector<core::word_wrap::Word> words;
            for (auto& x : u) words.push_back({ x.space, x.word.size() });
            core::word_wrap::Geometry g[] = { { first, 1 }, { rest, 1 } };
            w.wrap(words, trail, g, b);
            return b;
        }
        sz pos = 0, size = first;
        for (sz i = 0; i < u.size(); ++i) {
            sz extra = i + 1 == u.size() ? trail : 0;
            bool line_start = i == 0 || (!b.empty() && b.back() == i);
            if (line_start) { pos = (i == 0 ? u[i].space : 0) + u[i].word.size() + extra; continue; }
            if (pos + u[i].space + u[i].word.size() + extra <= size) { pos += u[i].space + u[i].word.size() + extra; continue; }
            b.push_back(i);
            size = rest;
            pos = u[i].word.size() + extra;
        }
        return b;
    }
    sz outer_right() const { return f.offset + f.width; }
    sz inner_right() const { return !f.has_width ? ~sz(0) : f.pad_r <= outer_right() ? outer_right() - f.pad_r : 0; }
    sz inner_rest() const { return f.offset + f.pad_l + f.rest; }
    void open_line()
    {
        Row& r = rows[row];
        if (f.offset >= r.size) r.size = f.offset;
        else disp = r.size - f.offset;
        open = true;
    }
    sz cursor() { return rows[row].size - disp; }
    void materialize() { rows[row].text.resize(rows[row].size, ' '); }
    void close_line()
    {
        if (f.has_width && cursor() < outer_right()) {
            sz n = outer_right() - cursor();
            if (f.fill) {
                materialize();
                rows[row].text.append(n, ' ');
            }
            rows[row].size += n;
        }
        disp = 0;
        open = false;
    }
    void newline()
    {
        if (++row == rows.size()) rows.push_back({});
    }
    // Place fragment
    void place(const std::string& s, sz left, sz size, std::vector<Unit>::const_iterator u, std::vector<Unit>::const_iterator ue, sz trail, bool justify)
    {
        std::string t = s;
        sz inner = size;
        std::vector<Mark> my_marks;
        if (t.size() > inner) overflow = true;
        sz pos = left;
        if (t.size() < inner) {
            if (justify) {
                // Rubber band
                sz stretch = inner - t.size();
                std::vector<sz> starts;
                sz p = 0;
                for (auto i = u; i != ue; ++i) { p += i->space; starts.push_back(p); p += i->word.size(); }
                sz n = starts.size();
                double c0 = starts[0] + double(u->word.size()) / 2, c1 = starts[n - 1] + double((ue - 1)->word.size()) / 2;
                std::string r(inner, ' ');
                for (sz k = 0; k < n; ++k) {
                    double c = starts[k] + double((u + long(k))->word.size()) / 2;
                    double nl = c0 + (c - c0) * ((c1 - c0) + double(stretch)) / (c1 - c0) - double((u + long(k))->word.size()) / 2;
                    double fl = std::floor(nl + 0.5);
                    if (k > 0 && k + 1 < n) {
                        approx = true;
                        my_marks.push_back({ row, nl, (u + long(k))->word });
                    }
                    r.replace(sz(fl), (u + long(k))->word.size(), (u + long(k))->word);
                }
                t = r;
                (void)trail;
            }
            if (f.has_width && f.align > 0) pos += sz((f.align > 1 ? 1 : f.align) * double(inner - t.size()) + 0.5);
        }
        // Now draw
        if (f.has_width && f.clip && left >= outer_right()) return;
        Row& r = rows[row];
        if (pos > cursor()) {
            sz n = pos - cursor();
            r.text.append(n, ' ');
            r.size += n;
        }
        if (!f.clip) {
            for (auto& mk : my_marks) marks.push_back({ mk.row, mk.col + double(r.text.size()), mk.word });
        }
        for (char c : t) {
            if (f.has_width && f.clip && cursor() >= outer_right()) break;
            r.text += c;
            r.size += 1;
        }
    }
    void format_line(const std::string& line)
    {
        std::vector<Unit> u;
        sz trail = divide(line, f.norm, u);
        if (u.empty() && trail == 0) return;
        sz left;
        if (!open) {
            left = f.offset + f.pad_l + (para ? f.first_2 : f.first_1);
            para = true;
            open_line();
            materialize();
        }
        else {
            left = cursor();
            bool ok = left <= inner_right() && f.min_sep <= inner_right() - left;
            if (ok) {
                left += f.min_sep;
                if (f.adv) {
                    if (left <= inner_rest()) left = inner_rest();
                    else if (left - inner_rest() > f.max_disp) ok = false;
                }
                sz size = u.empty() ? trail : u[0].space + u[0].word.size();
                if (ok && left <= inner_right() && size > inner_right() - left) ok = false;
            }
            if (!ok) {
                close_line();
                newline();
                open_line();
                materialize();
                left = inner_rest();
            }
        }
        sz ir = inner_right();
        sz size_first = left <= ir ? ir - left : 0, size_rest = inner_rest() <= ir ? ir - inner_rest() : 0;
        std::vector<sz> b;
        if (f.wrap && f.has_width) b = wrap(u, trail, size_first, size_rest);
        breaks += b.size();
        sz begin = 0;
        for (sz k = 0; k <= b.size(); ++k) {
            bool last = k == b.size();
            sz end = last ? u.size() : b[k];
            if (k > 0 && begin < u.size()) u[begin].space = 0;
            std::string s;
            for (sz i = begin; i < end; ++i) s += std::string(u[i].space, ' ') + u[i].word;
            if (last) s += std::string(trail, ' ');
            place(s, k == 0 ? left : inner_rest(), k == 0 ? size_first : size_rest, u.begin() + long(begin), u.begin() + long(end), last ? trail : 0,
                  !last && f.justify && f.has_width && end - begin >= 2);
            begin = end;
            if (!last) {
                close_line();
                newline();
                open_line();
                materialize();
            }
        }
    }
    void write(const std::string& s)
    {
        for (char c : s) {
            if (c != '\n') { pending += c; continue; }
            format_line(pending);
            pending.clear();
            if (!open) {
                open_line();
                para = false;
            }
            close_line();
            newline();
        }
    }
    void close_section()
    {
        format_line(pending);
        pending.clear();
    }
    bool jump(sz r)
    {
        sz min = row;
        if (!holds.empty()) {
            min = holds.back().first;
            if (row > holds.back().reached) holds.back().reached = row;
        }
        if (r < min) return false;
        para = false;
        if (open) close_line();
        while (rows.size() <= r) rows.push_back({});
        row = r;
        return true;
    }
    std::string output() const
    {
        std::string s;
        for (sz i = 0; i < rows.size(); ++i) {
            s += rows[i].text;
            if (i + 1 < rows.size()) s += '\n';
        }
        return s;
    }
};

std::string rtrim_lines(const std::string& s)
{
    std::string r, line;
    for (char c : s + "\n") {
        if (c == '\n') {
            while (!line.empty() && line.back() == ' ') line.pop_back();
            r += line + "\n";
            line.clear();
        }
        else line += c;
    }
    return r;
}

std::string squeeze(const std::string& s)
{
    std::string r;
    for (char c : s) if (c != ' ' || r.empty() || r.back() != ' ') r += c;
    return rtrim_lines(r);
}

void compare(mc::Ctx& x, const Model& m, const std::string& got, const std::string& want, const std::string& what)
{
    if (m.approx) {
        // Words between the outermost ones may be rounded either way
        MC_CHECK(x, squeeze(got) == squeeze(want), what, ": got ", mc::esc(got), ", expected about ", mc::esc(want));
        std::istringstream a(got), b(want);
        std::string la, lb;
        sz row = 0;
        while (std::getline(b, lb)) {
            std::getline(a, la);
            for (auto& mk : m.marks)
                if (mk.row == row) {
                    auto at = [&](double col) { return la.compare(sz(col), mk.word.size(), mk.word) == 0; };
                    MC_CHECK(x, at(std::floor(mk.col + 1e-6)) || at(std::ceil(mk.col - 1e-6)), what, ": got ", mc::esc(got), ", word ", mk.word, " should be near column ", mk.col);
                }
            ++row;
            MC_CHECK(x, la.size() == lb.size(), what, ": got ", mc::esc(got), ", expected about ", mc::esc(want));
        }
        return;
    }
    MC_CHECK(x, got == want, what, ": got ", mc::esc(got), ", expected ", mc::esc(want));
}

std::vector<Fmt> single_formats(bool thorough)
{
    std::vector<Fmt> r;
    std::vector<int> widths = { -1, 0, 1, 2, 3, 4, 6 };
    struct Ind { sz a, b, c; };
    for (int w : widths)
        for (Ind ind : { Ind { 0, 0, 0 }, Ind { 1, 0, 2 }, Ind { 0, 2, 1 } })
            for (auto pad : { std::pair<sz, sz> { 0, 0 }, { 1, 1 }, { 0, 2 } })
                for (int flags = 0; flags < 64; ++flags) {
                    for (double al : { 0.0, 0.5, 1.0 }) {
                        Fmt f;
                        f.has_width = w >= 0;
                        f.width = sz(w < 0 ? 0 : w);
                        f.first_1 = ind.a;
                        f.first_2 = ind.b;
                        f.rest = ind.c;
                        f.pad_l = pad.first;
                        f.pad_r = pad.second;
                        f.wrap = flags & 1;
                        f.justify = flags & 2;
                        f.clip = flags & 4;
                        f.fill = flags & 8;
                        f.norm = flags & 16;
                        f.offset = flags & 32 ? 2 : 0;
                        f.align = al;
                        if (!f.has_width && (f.clip || f.fill || f.justify || al > 0) && ((flags & 14) != 14 || al == 0.5)) continue; // No effect, one will do
                        if (!thorough && (f.offset ? 1 : 0) + (pad.second ? 1 : 0) + (ind.a + ind.b ? 1 : 0) > 2) continue;
                        if (!thorough && f.fill && (f.clip || f.justify) && pad.second == 1) continue;
                        r.push_back(f);
                    }
                }
    return r;
}

std::string run(const Fmt& f, const std::string& text, bool knuth)
{
    std::ostringstream out;
    core::TextFormatter::Config c;
    c.high_quality_word_wrapper = knuth;
    core::TextFormatter t(out, c);
    f.apply(t);
    t.write(std::string_view(text));
    t.finalize();
    return out.str();
}

Model run_model(const Fmt& f, const std::string& text, bool knuth)
{
    Model m;
    m.f = f;
    m.knuth = knuth;
    m.write(text);
    m.close_section();
    if (m.open) m.close_line();
    return m;
}

void one(mc::Ctx& x, const Fmt& f, const std::string& text, bool knuth)
{
    x.eval();
    x.step();
    std::string got = run(f, text, knuth);
    Model m = run_model(f, text, knuth);
    compare(x, m, got, m.output(), mc::str(f.text(), knuth ? " knuth" : "", " text ", mc::esc(text)));
    x.outcome(mc::mix(mc::hash_str(m.output()), f.width));
}

// All short texts over {word character, space, newline}
void short_texts(mc::Ctx& x)
{
    static const auto formats = single_formats(x.thorough);
    std::size_t fi = sz(x.choose(int(formats.size())));
    x.shard_point();
    int max = x.thorough ? 7 : 5;
    const Fmt& f = formats[fi];
    for (int n = 0; n <= max; ++n) {
        int num = 1;
        for (int i = 0; i < n; ++i) num *= 3;
        for (int c = 0; c < num; ++c) {
            std::string s;
            for (int i = 0, k = c; i < n; ++i, k /= 3) s += k % 3 == 0 ? char('a' + i) : k % 3 == 1 ? ' ' : '\n';
            one(x, f, s, false);
        }
    }
}
mc::Scenario s_short("short", 1024, short_texts);

// Longer lines
void words(mc::Ctx& x)
{
    Fmt f;
    f.has_width = true;
    f.width = sz(x.range(4, x.thorough ? 14 : 11));
    f.justify = x.choose(2);
    f.align = x.pick({ 0.0, 0.25, 0.5, 1.0 });
    int ind = x.choose(3);
    if (ind == 1) f.first_1 = 2;
    if (ind == 2) f.rest = 1, f.pad_l = 1, f.offset = 2;
    f.norm = x.choose(2);
    f.clip = x.choose(2);
    bool knuth = x.choose(2);
    x.shard_point();
    static const sz wsz[] = { 1, 2, 4 };
    int max = x.thorough ? 5 : 4;
    for (int n = 2; n <= max; ++n) {
        int num = 1;
        for (int i = 0; i < n; ++i) num *= 6;
        for (int c = 0; c < num; ++c) {
            std::string s;
            int k = c;
            for (int i = 0; i < n; ++i, k /= 6) {
                s += std::string(sz(i == 0 ? k % 2 : 1 + k % 2), ' ');
                s += std::string(wsz[k / 2 % 3], char('a' + i));
            }
            one(x, f, s, knuth);
            one(x, f, s + " \nxx", knuth);
        }
    }
}
mc::Scenario s_words("words", 512, words);

const std::vector<std::string>& long_words()
{
    // Wider repertoire of line contents with 6 or 7 words (for the sake of justification)
    static const std::vector<std::string> r = {
        "a bb ccc d eeeee f gg", "aaaaa b c d e f g", "a b c d e f ggggg", "aa  bb   cc    dd ee", "a bbbbbbbb c dddddddd e", "aaa bbb ccc ddd eee fff",
    };
    return r;
}

void long_lines(mc::Ctx& x)
{
    Fmt f;
    f.has_width = true;
    f.width = sz(x.range(1, 40));
    f.justify = x.choose(2);
    f.align = x.pick({ 0.0, 0.5, 1.0 });
    f.first_1 = sz(x.choose(3));
    bool knuth = x.choose(2);
    for (auto& s : long_words()) one(x, f, s, knuth);
}
mc::Scenario s_long("long-lines", 16, long_lines);

// The result is the same when the text is written in pieces, with or without processing in between, with a wide formatter, and
// when compiled. Information about compiled sections.
void pieces(mc::Ctx& x)
{
    static const char* const texts[] = {
        "aa bbb c\n", " a  bb \n\ncc", "\n\n a", "abc def\nghi jk lm\n", "a b c d e f", "aaaa bbb", "   ", "", "x\n y\n  z \n",
    };
    std::string s = x.pick(texts);
    Fmt f;
    f.has_width = x.choose(4) != 0;
    f.width = f.has_width ? sz(x.pick({ 2, 4, 5, 8 })) : 0;
    int v = x.choose(5);
    if (v == 1) f.first_1 = 1, f.rest = 2, f.pad_l = 1, f.pad_r = 1;
    if (v == 2) f.justify = true, f.norm = true;
    if (v == 3) f.align = 0.5, f.fill = true, f.offset = 1;
    if (v == 4) f.clip = true, f.wrap = false, f.first_2 = 1;
    bool knuth = x.choose(2);
    x.shard_point();
    std::string want = run(f, s, knuth);
    int n = int(s.size());
    core::TextFormatter::Config c;
    c.high_quality_word_wrapper = knuth;
    for (int i = 0; i <= n; ++i)
        for (int j = i; j <= n; ++j)
            for (int mode = 0; mode < 3; ++mode) {
                x.eval();
                x.step();
                std::ostringstream out;
                core::TextFormatter t(out, c);
                f.apply(t);
                auto sync = [&] {
                    if (mode == 1) t.process_input();
                    if (mode == 2) t.flush();
                };
                t.write(std::string_view(s).substr(0, sz(i)));
                sync();
                if (mode == 1) t.out() << std::string_view(s).substr(sz(i), sz(j - i));
                else for (char ch : s.substr(sz(i), sz(j - i))) t.out().put(ch);
                sync();
                t.write(std::string_view(s).substr(sz(j)));
                sync();
                t.finalize();
                MC_CHECK(x, out.str() == want, "text ", mc::esc(s), " divided at ", i, " and ", j, " mode ", mode, ": got ", mc::esc(out.str()), ", expected ", mc::esc(want));
            }
    {
        std::wostringstream out;
        core::WideTextFormatter::Config wc;
        wc.high_quality_word_wrapper = knuth;
        core::WideTextFormatter t(out, wc);
        f.apply(t);
        t.write(std::wstring(s.begin(), s.end()).c_str());
        t.finalize();
        std::wstring w = out.str();
        MC_CHECK(x, w == std::wstring(want.begin(), want.end()), "wide output differs for ", mc::esc(s));
    }
    // Compiled (as the second of three sections)
    std::ostringstream out;
    core::TextFormatter t(out, c);
    f.apply(t);
    t.begin_compile();
    MC_CHECK(x, t.is_compiling() && t.get_num_sections() == 0, "begin_compile()");
    t.write("zz z\n");
    t.close_section();
    t.write(std::string_view(s));
    MC_CHECK(x, t.has_open_section() == !s.empty(), "has_open_section()");
    t.close_section();
    t.write("\nqq qqqqqqqqqq");
    t.close_section();
    MC_CHECK(x, t.get_num_sections() == 3, "get_num_sections() is ", t.get_num_sections());
    auto info = t.get_section_info(1);
    std::vector<std::string> lines = { "" };
    std::vector<sz> offsets = { 0 };
    for (sz i = 0; i < s.size(); ++i) {
        if (s[i] == '\n') {
            lines.push_back("");
            offsets.push_back(i + 1);
        }
        else lines.back() += s[i];
    }
    bool unterminated = !lines.back().empty();
    if (!unterminated) lines.pop_back();
    sz num_words = 0;
    MC_CHECK(x, info.size == s.size() && info.num_lines == lines.size() && info.last_line_is_unterminated == unterminated, "section info of ", mc::esc(s), ": ", info.size, ",", info.num_lines, ",", info.last_line_is_unterminated);
    for (sz i = 0; i < lines.size(); ++i) {
        auto li = t.get_line_info(1, i);
        std::vector<Unit> u;
        divide(lines[i], false, u);
        num_words += u.size();
        MC_CHECK(x, li.offset == offsets[i] && li.size == lines[i].size() && li.num_words == u.size(), "line info ", i, " of ", mc::esc(s), ": ", li.offset, ",", li.size, ",", li.num_words);
        sz p = 0;
        for (sz k = 0; k < u.size(); ++k) {
            auto wi = t.get_word_info(1, i, k);
            p += u[k].space;
            MC_CHECK(x, wi.offset == p && wi.size == u[k].word.size(), "word info ", i, ",", k, " of ", mc::esc(s), ": ", wi.offset, ",", wi.size);
            p += u[k].word.size();
        }
    }
    MC_CHECK(x, info.num_words == num_words, "number of words");
    t.format_section(1);
    t.end_compile();
    MC_CHECK(x, !t.is_compiling() && t.get_num_sections() == 0, "end_compile()");
    t.finalize();
    MC_CHECK(x, out.str() == want, "compiled text ", mc::esc(s), ": got ", mc::esc(out.str()), ", expected ", mc::esc(want));
}
mc::Scenario s_pieces("pieces", 512, pieces);

// Measuring of sections: the least width for which nothing overflows, and the least width for which nothing is broken
void measure(mc::Ctx& x)
{
    Fmt f;
    f.has_width = true;
    int ind = x.choose(6);
    static const sz inds[][3] = { { 0, 0, 0 }, { 2, 0, 0 }, { 0, 0, 2 }, { 0, 3, 1 }, { 1, 2, 5 }, { 4, 0, 3 } };
    f.first_1 = inds[ind][0];
    f.first_2 = inds[ind][1];
    f.rest = inds[ind][2];
    f.pad_l = sz(x.choose(2));
    f.pad_r = sz(x.choose(3));
    f.offset = sz(x.choose(2)) * 2;
    f.norm = x.choose(2);
    f.wrap = x.choose(2);
    bool clip = x.choose(2);
    x.shard_point();
    int max = x.thorough ? 7 : 6;
    for (int n = 1; n <= max; ++n) {
        int num = 1;
        for (int i = 0; i < n; ++i) num *= 3;
        for (int c = 0; c < num; ++c) {
            std::string s;
            for (int i = 0, k = c; i < n; ++i, k /= 3) s += k % 3 == 0 ? char('a' + i) : k % 3 == 1 ? ' ' : '\n';
            std::ostringstream out;
            core::TextFormatter t(out);
            f.clip = clip;
            f.width = 3;
            f.apply(t);
            t.begin_compile();
            t.write(std::string_view(s));
            t.close_section();
            core::TextFormatter::Cursor cursor;
            auto r = t.measure(0, cursor);
            t.end_compile();
            x.eval();
            x.step();
            sz least_no_oflow = ~sz(0), least_no_break = ~sz(0);
            f.clip = false;
            bool any_after = false;
            for (int w = 30; w >= 0; --w) {
                f.width = sz(w);
                Model m = run_model(f, s, false);
                bool any = false;
                for (auto& row : m.rows) if (row.size > 0) any = true;
                (void)any;
                if (!m.overflow) {
                    if (!any_after) least_no_oflow = sz(w);
                }
                else {
                    any_after = true;
                    MC_CHECK(x, sz(w) < r.min_width_no_oflow, f.text(), " text ", mc::esc(s), " overflows, but the measured width is ", r.min_width_no_oflow);
                }
                // Width at which everything would fit unbroken
                Fmt g = f;
                g.wrap = false;
                if (!run_model(g, s, false).overflow) least_no_break = sz(w);
            }
            std::vector<Unit> u;
            bool blank = true;
            std::istringstream in(s);
            std::string line;
            while (std::getline(in, line)) if (divide(line, f.norm, u) > 0 || !u.empty()) blank = false;
            if (blank) continue; // No text, the result is not meaningful
            // The text area never has negative size, so at least padding and indentation count
            MC_CHECK(x, r.min_width_no_oflow == least_no_oflow, f.text(), " text ", mc::esc(s), " minimum width ", r.min_width_no_oflow, ", expected ", least_no_oflow);
            MC_CHECK(x, r.min_width_no_break == least_no_break, f.text(), " text ", mc::esc(s), " width without breaks ", r.min_width_no_break, ", expected ", least_no_break);
        }
    }
}
mc::Scenario s_measure("measure", 512, measure);

// Sequences of text, section ends, format changes, holds and jumps
void ops(mc::Ctx& x)
{
    int variant = x.choose(3);
    int depth = x.thorough ? 6 : 5;
    std::ostringstream out;
    core::TextFormatter t(out);
    Model m;
    Fmt base;
    auto set = [&] {
        base.apply(t);
        m.f = base;
    };
    if (variant == 1) {
        base.has_width = true;
        base.width = 5;
        base.rest = 1;
        base.min_sep = 1;
        base.adv = true;
        base.max_disp = 1;
    }
    if (variant == 2) {
        base.has_width = true;
        base.width = 4;
        base.fill = true;
        base.first_1 = 1;
        base.min_sep = 2;
    }
    set();
    int len = x.range(1, depth);
    if (variant == 0) x.shard_point();
    bool columns = false;
    for (int i = 0; i < len; ++i) {
        int op = x.choose(13);
        if (i == 1) x.shard_point();
        x.step();
        static const char* const texts[] = { "a", "bb c\n", "\n", "d\nee ff" };
        bool has_open = !m.pending.empty();
        bool want_error = false, error = false;
        try {
            switch (op) {
                case 0: case 1: case 2: case 3:
                    MC_TRACE(x, "write ", mc::esc(std::string(texts[op])), "; ");
                    t.write(texts[op]);
                    m.write(texts[op]);
                    break;
                case 4:
                    MC_TRACE(x, "close_section; ");
                    t.close_section();
                    m.close_section();
                    break;
                case 5: case 6: {
                    MC_TRACE(x, op == 5 ? "offset 4; " : "offset 0; ");
                    want_error = has_open;
                    sz off = op == 5 ? 4 : 0;
                    if (!want_error && base.offset == off) x.prune();
                    t.set_offset(off);
                    base.offset = off;
                    m.f = base;
                    break;
                }
                case 7:
                    MC_TRACE(x, "jump_back; ");
                    want_error = has_open || m.holds.empty();
                    if (!want_error) m.jump(m.holds.back().first);
                    t.jump_back();
                    break;
                case 8:
                    MC_TRACE(x, "skip_line; ");
                    want_error = has_open;
                    if (!want_error) m.jump(m.row + 1);
                    t.skip_line();
                    break;
                case 9: {
                    sz r = m.rows.size(); // One beyond the last one
                    MC_TRACE(x, "jump ", r + 1, "; ");
                    want_error = has_open;
                    if (!want_error) m.jump(r);
                    t.jump(r + 1);
                    break;
                }
                case 10:
                    MC_TRACE(x, "begin_hold; ");
                    want_error = has_open;
                    if (!want_error) m.holds.push_back({ m.row, m.row });
                    t.begin_hold();
                    break;
                case 11:
                    MC_TRACE(x, "end_hold; ");
                    want_error = has_open || m.holds.empty();
                    if (!want_error) {
                        auto h = m.holds.back();
                        sz reached = h.reached > m.row ? h.reached : m.row;
                        if (reached == m.row && m.open) x.prune(); // Documentation and behavior differ with respect to closing of the line
                        if (reached > m.row) {
                            if (m.open) m.close_line();
                            m.row = reached;
                        }
                        m.holds.pop_back();
                    }
                    t.end_hold();
                    break;
                case 12:
                    MC_TRACE(x, "jump to previous; ");
                    if (m.row == 0) x.prune();
                    want_error = has_open || !(!m.holds.empty() && m.row - 1 >= m.holds.back().first);
                    if (!want_error) m.jump(m.row - 1);
                    t.jump(m.row + (want_error ? 0 : 1)); // Lines are numbered from 1
                    break;
            }
        }
        catch (std::logic_error&) {
            error = true;
        }
        MC_CHECK(x, error == want_error, "error ", error);
        if (m.rows.size() > 1 && m.row + 1 < m.rows.size() && m.holds.empty()) x.prune(); // Paragraph state after end of hold is unspecified
        (void)columns;
        MC_CHECK(x, t.has_open_section() == !m.pending.empty(), "has_open_section");
        if (m.pending.empty()) {
            MC_CHECK(x, t.get_line_number() == m.row + 1, "line number ", t.get_line_number(), ", expected ", m.row + 1);
            MC_CHECK(x, t.get_last_line_number() == m.rows.size() || m.holds.empty(), "last line number ", t.get_last_line_number());
            MC_CHECK(x, t.get_cursor_pos() == (m.open ? m.cursor() : 0), "cursor position ", t.get_cursor_pos());
        }
    }
    while (!m.holds.empty()) {
        if (!m.pending.empty()) {
            t.close_section();
            m.close_section();
        }
        auto h = m.holds.back();
        sz reached = h.reached > m.row ? h.reached : m.row;
        if (reached > m.row) {
            if (m.open) m.close_line();
            m.row = reached;
        }
        m.holds.pop_back();
        t.end_hold();
    }
    t.finalize();
    m.close_section();
    if (m.open) m.close_line();
    MC_CHECK(x, out.str() == m.output(), "got ", mc::esc(out.str()), ", expected ", mc::esc(m.output()));
    x.eval();
    x.outcome(mc::hash_str(m.output()));
}
mc::Scenario s_ops("operations", 512, ops);

// Interpreter of escape sequences
struct Term {
    using TA = core::terminal::TextAttributes;
    int weight = 0;
    bool underline = false, blink = false, reverse = false;
    int color = 9, back = 9;
    bool operator==(const Term&) const = default;
    static Term of(const TA& a)
    {
        Term t;
        t.weight = a.get_weight() == core::terminal::Weight::bold ? 1 : a.get_weight() == core::terminal::Weight::faint ? 2 : 0;
        t.underline = a.get_underline();
        t.blink = a.get_blink();
        t.reverse = a.get_reverse();
        if (a.has_color()) t.color = int(a.get_color());
        if (a.has_background_color()) t.back = int(a.get_background_color());
        return t;
    }
    bool feed(int code)
    {
        if (code == 0) *this = {};
        else if (code == 1 || code == 2) weight = code;
        else if (code == 22) weight = 0;
        else if (code == 4 || code == 24) underline = code == 4;
        else if (code == 5 || code == 25) blink = code == 5;
        else if (code == 7 || code == 27) reverse = code == 7;
        else if (code >= 30 && code <= 39 && code != 38) color = code - 30;
        else if (code >= 40 && code <= 49 && code != 48) back = code - 40;
        else return false;
        return true;
    }
    // Interpret text, call f for every ordinary character
    template<class F> bool interpret(const std::string& s, F&& f)
    {
        for (sz i = 0; i < s.size(); ++i) {
            if (s[i] != '\033') { f(s[i], *this); continue; }
            if (++i == s.size() || s[i] != '[') return false;
            int code = 0;
            for (;;) {
                if (++i == s.size()) return false;
                if (s[i] >= '0' && s[i] <= '9') { code = 10 * code + (s[i] - '0'); continue; }
                if (s[i] != ';' && s[i] != 'm') return false;
                // Switching between bold and faint without switching to normal weight first leaves both on on some terminals
                if (!feed(code)) return false;
                code = 0;
                if (s[i] == 'm') break;
            }
        }
        return true;
    }
};

using TA = core::terminal::TextAttributes;

TA make_attr(int k)
{
    TA a;
    a.set_weight(k % 3 == 1 ? core::terminal::Weight::bold : k % 3 == 2 ? core::terminal::Weight::faint : core::terminal::Weight::normal);
    k /= 3;
    a.set_underline(k & 1);
    a.set_blink(k & 2);
    a.set_reverse(k & 4);
    k /= 8;
    if (k % 9 < 8) a.set_color(core::terminal::Color(k % 9));
    k /= 9;
    if (k % 9 < 8) a.set_background_color(core::terminal::Color(k % 9));
    return a;
}

// Every change of text attributes
void attributes(mc::Ctx& x)
{
    int from = x.choose(1944);
    x.shard_point();
    TA a = make_attr(from);
    for (int to = 0; to < 1944; ++to) {
        TA b = make_attr(to);
        constexpr sz n = TA::min_change_buffer_size();
        char buf[n];
        x.eval();
        x.step();
        sz size = TA::change(a, b, buf);
        MC_CHECK(x, size <= n, "size ", size);
        std::string s(buf, size);
        Term t = Term::of(a);
        bool ok = t.interpret(s, [&](char, Term&) { x.fail("plain text emitted"); });
        MC_CHECK(x, ok, "malformed sequence ", mc::esc(s));
        MC_CHECK(x, t == Term::of(b), "change from ", from, " to ", to, " emits ", mc::esc(s));
        MC_CHECK(x, (from == to) == s.empty() || s.empty() == (Term::of(a) == Term::of(b)), "unneeded sequence ", mc::esc(s));
    }
}
mc::Scenario s_attributes("attributes", 64, attributes);

// Styled text: the visible text is the same, every character has the style in force when it was written, and a fill color applies to
// the whole box.
void styled(mc::Ctx& x)
{
    Fmt f;
    f.has_width = x.choose(5) != 0;
    f.width = f.has_width ? sz(x.pick({ 2, 3, 5, 9 })) : 0;
    int v = x.choose(6);
    if (v == 1) f.justify = true;
    if (v == 2) f.align = 1, f.first_1 = 1;
    if (v == 3) f.norm = true, f.justify = true, f.pad_r = 1, f.offset = 1;
    if (v == 4) f.clip = true, f.wrap = false;
    if (v == 5) f.clip = true, f.rest = 1, f.pad_l = 1;
    bool color = x.choose(2);
    bool knuth = x.choose(2);
    bool compile = x.choose(2);
    static const char* const texts[] = { "ab cd ef", "a b c d e\n", " abcdef  gh\ni", "ab\n\ncd  ", "abc d efghij k" };
    std::string s = x.pick(texts);
    x.shard_point();
    int n = int(s.size());
    Fmt g = f;
    g.fill = color && f.has_width;
    std::string want = run(g, s, knuth);
    for (int i = 0; i <= n; ++i)
        for (int j = i; j <= n; ++j) {
            x.eval();
            x.step();
            std::ostringstream out;
            core::TextFormatter::Config c;
            c.high_quality_word_wrapper = knuth;
            c.enable_ansi_escape_sequences = true;
            core::TextFormatter t(out, c);
            f.apply(t);
            if (color) t.set_fill_color(core::terminal::Color::blue);
            if (compile) t.begin_compile();
            t.write(std::string_view(s).substr(0, sz(i)));
            t.push_style();
            t.set_weight(core::terminal::Weight::bold);
            t.set_color(core::terminal::Color::red);
            t.write(std::string_view(s).substr(sz(i), sz(j - i)));
            t.pop_style();
            t.set_underline(true);
            t.write(std::string_view(s).substr(sz(j)));
            if (compile) {
                t.close_section();
                t.format_section(0);
                t.end_compile();
            }
            t.finalize();
            Term term;
            std::string plain;
            std::vector<Term> marks;
            bool ok = term.interpret(out.str(), [&](char ch, Term& tm) { plain += ch; marks.push_back(tm); });
            auto what = [&] { return mc::str(f.text(), color ? " color" : "", " text ", mc::esc(s), " styles change at ", i, ",", j, ": ", mc::esc(out.str())); };
            MC_CHECK(x, ok, what());
            MC_CHECK(x, plain == want, "visible text differs, expected ", mc::esc(want), ", ", what());
            MC_CHECK(x, term == Term {}, "style left behind, ", what());
            sz col = 0;
            for (sz k = 0; k < plain.size(); ++k) {
                char ch = plain[k];
                if (ch == '\n') {
                    MC_CHECK(x, marks[k] == Term {}, "newline is styled, ", what());
                    col = 0;
                    continue;
                }
                bool in_box = f.has_width && col >= f.offset && col < f.offset + f.width;
                ++col;
                Term e;
                if (color && in_box) e.back = 4;
                if (ch != ' ') {
                    int p = int(s.find(ch));
                    if (p >= i && p < j) e.weight = 1, e.color = 1;
                    else if (p >= j) e.underline = true;
                    MC_CHECK(x, marks[k] == e, "wrong style of ", ch, ", ", what());
                }
                else MC_CHECK(x, marks[k].back == e.back, "wrong background at column ", col, ", ", what());
            }
        }
}
mc::Scenario s_styled("styled", 256, styled);

} // namespace
