// C36: color values in text and numeric form, and in different color spaces
#include "ints.hpp"
#include <cmath>
#include <map>
#include <thread>
#include <limits>
#include <memory>
#include <vector>
#include <sstream>
#include <optional>
#include <algorithm>
#include <string_view>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/type.hpp>
#include <archon/core/integer.hpp>
#include <archon/core/math.hpp>
#include <archon/core/float.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/format.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/math/vector.hpp>
#include <archon/math/matrix.hpp>
#include <archon/math/rotation.hpp>
#include <archon/util/unit_frac.hpp>
#include <archon/util/color.hpp>
#include <archon/util/colors.hpp>
#include <archon/util/css_color.hpp>
#include <archon/util/as_css_color.hpp>
#include <archon/util/color_space.hpp>
#include <archon/image/comp_types.hpp>
#include <archon/image/comp_repr.hpp>
#include <archon/image/gamma.hpp>
#include <archon/image/color_space.hpp>

using namespace archon;
namespace uf = util::unit_frac;
using util::CssColor;

// Names and values as listed in CSS Color Module Level 3
struct Named { const char* name; unsigned rgb; };
const Named g_names[] = {
    {"aliceblue", 0xf0f8ff}, {"antiquewhite", 0xfaebd7}, {"aqua", 0x00ffff}, {"aquamarine", 0x7fffd4}, {"azure", 0xf0ffff},
    {"beige", 0xf5f5dc}, {"bisque", 0xffe4c4}, {"black", 0x000000}, {"blanchedalmond", 0xffebcd}, {"blue", 0x0000ff}, {"blueviolet", 0x8a2be2},
    {"brown", 0xa52a2a}, {"burlywood", 0xdeb887}, {"cadetblue", 0x5f9ea0}, {"chartreuse", 0x7fff00}, {"chocolate", 0xd2691e},
    {"coral", 0xff7f50}, {"cornflowerblue", 0x6495ed}, {"cornsilk", 0xfff8dc}, {"crimson", 0xdc143c}, {"cyan", 0x00ffff},
    {"darkblue", 0x00008b}, {"darkcyan", 0x008b8b}, {"darkgoldenrod", 0xb8860b}, {"darkgray", 0xa9a9a9}, {"darkgreen", 0x006400},
    {"darkgrey", 0xa9a9a9}, {"darkkhaki", 0xbdb76b}, {"darkmagenta", 0x8b008b}, {"darkolivegreen", 0x556b2f}, {"darkorange", 0xff8c00},
    {"darkorchid", 0x9932cc}, {"darkred", 0x8b0000}, {"darksalmon", 0xe9967a}, {"darkseagreen", 0x8fbc8f}, {"darkslateblue", 0x483d8b},
    {"darkslategray", 0x2f4f4f}, {"darkslategrey", 0x2f4f4f}, {"darkturquoise", 0x00ced1}, {"darkviolet", 0x9400d3}, {"deeppink", 0xff1493},
    {"deepskyblue", 0x00bfff}, {"dimgray", 0x696969}, {"dimgrey", 0x696969}, {"dodgerblue", 0x1e90ff}, {"firebrick", 0xb22222},
    {"floralwhite", 0xfffaf0}, {"forestgreen", 0x228b22}, {"fuchsia", 0xff00ff}, {"gainsboro", 0xdcdcdc}, {"ghostwhite", 0xf8f8ff},
    {"gold", 0xffd700}, {"goldenrod", 0xdaa520}, {"gray", 0x808080}, {"green", 0x008000}, {"greenyellow", 0xadff2f}, {"grey", 0x808080},
    {"honeydew", 0xf0fff0}, {"hotpink", 0xff69b4}, {"indianred", 0xcd5c5c}, {"indigo", 0x4b0082}, {"ivory", 0xfffff0}, {"khaki", 0xf0e68c},
    {"lavender", 0xe6e6fa}, {"lavenderblush", 0xfff0f5}, {"lawngreen", 0x7cfc00}, {"lemonchiffon", 0xfffacd}, {"lightblue", 0xadd8e6},
    {"lightcoral", 0xf08080}, {"lightcyan", 0xe0ffff}, {"lightgoldenrodyellow", 0xfafad2}, {"lightgray", 0xd3d3d3}, {"lightgreen", 0x90ee90},
    {"lightgrey", 0xd3d3d3}, {"lightpink", 0xffb6c1}, {"lightsalmon", 0xffa07a}, {"lightseagreen", 0x20b2aa}, {"lightskyblue", 0x87cefa},
    {"lightslategray", 0x778899}, {"lightslategrey", 0x778899}, {"lightsteelblue", 0xb0c4de}, {"lightyellow", 0xffffe0}, {"lime", 0x00ff00},
    {"limegreen", 0x32cd32}, {"linen", 0xfaf0e6}, {"magenta", 0xff00ff}, {"maroon", 0x800000}, {"mediumaquamarine", 0x66cdaa},
    {"mediumblue", 0x0000cd}, {"mediumorchid", 0xba55d3}, {"mediumpurple", 0x9370db}, {"mediumseagreen", 0x3cb371},
    {"mediumslateblue", 0x7b68ee}, {"mediumspringgreen", 0x00fa9a}, {"mediumturquoise", 0x48d1cc}, {"mediumvioletred", 0xc71585},
    {"midnightblue", 0x191970}, {"mintcream", 0xf5fffa}, {"mistyrose", 0xffe4e1}, {"moccasin", 0xffe4b5}, {"navajowhite", 0xffdead},
    {"navy", 0x000080}, {"oldlace", 0xfdf5e6}, {"olive", 0x808000}, {"olivedrab", 0x6b8e23}, {"orange", 0xffa500}, {"orangered", 0xff4500},
    {"orchid", 0xda70d6}, {"palegoldenrod", 0xeee8aa}, {"palegreen", 0x98fb98}, {"paleturquoise", 0xafeeee}, {"palevioletred", 0xdb7093},
    {"papayawhip", 0xffefd5}, {"peachpuff", 0xffdab9}, {"peru", 0xcd853f}, {"pink", 0xffc0cb}, {"plum", 0xdda0dd}, {"powderblue", 0xb0e0e6},
    {"purple", 0x800080}, {"red", 0xff0000}, {"rosybrown", 0xbc8f8f}, {"royalblue", 0x4169e1}, {"saddlebrown", 0x8b4513}, {"salmon", 0xfa8072},
    {"sandybrown", 0xf4a460}, {"seagreen", 0x2e8b57}, {"seashell", 0xfff5ee}, {"sienna", 0xa0522d}, {"silver", 0xc0c0c0},
    {"skyblue", 0x87ceeb}, {"slateblue", 0x6a5acd}, {"slategray", 0x708090}, {"slategrey", 0x708090}, {"snow", 0xfffafa},
    {"springgreen", 0x00ff7f}, {"steelblue", 0x4682b4}, {"tan", 0xd2b48c}, {"teal", 0x008080}, {"thistle", 0xd8bfd8}, {"tomato", 0xff6347},
    {"turquoise", 0x40e0d0}, {"violet", 0xee82ee}, {"wheat", 0xf5deb3}, {"white", 0xffffff}, {"whitesmoke", 0xf5f5f5}, {"yellow", 0xffff00},
    {"yellowgreen", 0x9acd32},
};

using Hex = CssColor::Hex;
bool same(Hex a, Hex b) { return a.r == b.r && a.g == b.g && a.b == b.b && a.a == b.a; }
std::string show(Hex h) { return mc::str(int(h.r), ",", int(h.g), ",", int(h.b), ",", int(h.a)); }
std::string show(const CssColor& c)
{
    Hex h; CssColor::Name n; CssColor::Rgb r; CssColor::RgbP p; CssColor::Hsl s;
    if (c.get_if(h)) return "hex " + show(h);
    if (c.get_if(n)) return mc::str("name ", n.index);
    if (c.get_if(r)) return mc::str("rgb ", r.r, ",", r.g, ",", r.b, ",", r.a);
    if (c.get_if(p)) return mc::str("rgb% ", p.r, ",", p.g, ",", p.b, ",", p.a);
    if (c.get_if(s)) return mc::str("hsl ", s.h, ",", s.s, ",", s.l, ",", s.a);
    return "?";
}
bool same(const CssColor& a, const CssColor& b)
{
    if (a.form() != b.form()) return false;
    switch (a.form()) {
        case CssColor::Form::hex: { Hex h, i; return a.get_if(h) && b.get_if(i) && same(h, i); }
        case CssColor::Form::name: { CssColor::Name h, i; return a.get_if(h) && b.get_if(i) && h.index == i.index; }
        case CssColor::Form::rgb: { CssColor::Rgb h, i; return a.get_if(h) && b.get_if(i) && h.r == i.r && h.g == i.g && h.b == i.b && h.a == i.a; }
        case CssColor::Form::rgb_p: { CssColor::RgbP h, i; return a.get_if(h) && b.get_if(i) && h.r == i.r && h.g == i.g && h.b == i.b && h.a == i.a; }
        case CssColor::Form::hsl: { CssColor::Hsl h, i; return a.get_if(h) && b.get_if(i) && h.h == i.h && h.s == i.s && h.l == i.l && h.a == i.a; }
    }
    return false;
}

std::string format(const CssColor& c, bool no_short = false)
{
    core::Buffer<char> buf; CssColor::FormatConfig cfg; cfg.disable_short_hex_form = no_short;
    auto s = c.format(buf, cfg);
    return std::string(s);
}

// ---- Reference CSS parser

// Result of the reference: a verdict, and a color given by its components in the range 0 to 1
struct Ref {
    enum { reject, may, must } verdict = reject;
    CssColor color;
    long double v[4] = {};
    bool defined = true; // whether the resulting RGB components are specified
};

long double hue(long double m1, long double m2, long double h)
{
    if (h < 0) h += 1;
    if (h > 1) h -= 1;
    if (h * 6 < 1) return m1 + (m2 - m1) * h * 6;
    if (h * 2 < 1) return m2;
    if (h * 3 < 2) return m1 + (m2 - m1) * (2.0L / 3 - h) * 6;
    return m1;
}
void hsl_to_rgb(long double h, long double s, long double l, long double* out)
{
    long double m2 = l <= 0.5L ? l * (s + 1) : l + s - l * s, m1 = l * 2 - m2;
    h -= std::floor(h);
    out[0] = hue(m1, m2, h + 1.0L / 3); out[1] = hue(m1, m2, h); out[2] = hue(m1, m2, h - 1.0L / 3);
}

int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bool digit(char c) { return c >= '0' && c <= '9'; }
char low(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }

Ref ref_parse(std::string_view s)
{
    Ref r;
    auto hex = [&](Hex h) { r.color = h; r.v[0] = h.r / 255.0L; r.v[1] = h.g / 255.0L; r.v[2] = h.b / 255.0L; r.v[3] = h.a / 255.0L; r.verdict = Ref::must; };
    if (!s.empty() && s[0] == '#') {
        std::vector<int> d;
        for (char c : s.substr(1)) { int v = hexval(c); if (v < 0) return r; d.push_back(v); }
        using C = CssColor::int_comp_type;
        switch (d.size()) {
            case 3: hex({C(d[0] * 17), C(d[1] * 17), C(d[2] * 17), 255}); break;
            case 4: hex({C(d[0] * 17), C(d[1] * 17), C(d[2] * 17), C(d[3] * 17)}); break;
            case 6: hex({C(d[0] * 16 + d[1]), C(d[2] * 16 + d[3]), C(d[4] * 16 + d[5]), 255}); break;
            case 8: hex({C(d[0] * 16 + d[1]), C(d[2] * 16 + d[3]), C(d[4] * 16 + d[5]), C(d[6] * 16 + d[7])}); break;
            default: break;
        }
        return r;
    }
    r.verdict = Ref::must;
    std::string t;
    for (char c : s) { if (low(c) != c) r.verdict = Ref::may; t += low(c); }
    auto reject = [&] { r.verdict = Ref::reject; return r; };
    std::size_t i = 0;
    auto space = [&] { while (i < t.size() && t[i] == ' ') { ++i; r.verdict = Ref::may; } };
    space();
    // Color as a whole may be surrounded by spaces in a style sheet
    std::size_t e = t.size();
    while (e > i && t[e - 1] == ' ') { --e; r.verdict = Ref::may; }
    t.resize(e);
    if (t.find('(') == std::string::npos) {
        std::string n = t.substr(i);
        if (n == "transparent") { r.v[0] = r.v[1] = r.v[2] = r.v[3] = 0; return r; }
        for (auto& k : g_names) if (n == k.name) {
            r.v[0] = (k.rgb >> 16) / 255.0L; r.v[1] = (k.rgb >> 8 & 255) / 255.0L; r.v[2] = (k.rgb & 255) / 255.0L; r.v[3] = 1; return r;
        }
        return reject();
    }
    std::size_t p = t.find('(');
    std::string f = t.substr(i, p - i);
    bool hsl = f == "hsl" || f == "hsla", alpha = f == "rgba" || f == "hsla";
    if (!hsl && !alpha && f != "rgb") return reject();
    i = p + 1;
    long double val[4] = {0, 0, 0, 1}; bool per[4] = {}; float flt[4] = {0, 0, 0, 1};
    for (int k = 0; k < 3 + alpha; ++k) {
        if (k) { if (i >= t.size() || t[i] != ',') return reject(); ++i; while (i < t.size() && t[i] == ' ') ++i; }
        else space();
        std::size_t b = i;
        if (i < t.size() && (t[i] == '+' || t[i] == '-')) { ++i; r.verdict = Ref::may; }
        std::size_t n = 0, m = 0;
        while (i < t.size() && digit(t[i])) ++i, ++n;
        if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && digit(t[i])) ++i, ++m; if (!m) return reject(); }
        if (!n && !m) return reject();
        if (!n) r.verdict = Ref::may;
        if (i < t.size() && t[i] == 'e') { // allowed by later levels of CSS
            std::size_t j = i + 1; if (j < t.size() && (t[j] == '+' || t[j] == '-')) ++j;
            std::size_t j0 = j; while (j < t.size() && digit(t[j])) ++j;
            if (j == j0) return reject();
            i = j; r.verdict = Ref::may;
        }
        val[k] = std::strtold(t.substr(b, i - b).c_str(), nullptr); flt[k] = std::strtof(t.substr(b, i - b).c_str(), nullptr);
        if (i < t.size() && t[i] == '%') { per[k] = true; ++i; }
        space();
    }
    if (i + 1 != t.size() || t[i] != ')') return reject();
    auto clamp = [](long double v) { return v < 0 ? 0 : v > 1 ? 1 : v; };
    if (per[3]) return reject();
    if (!hsl) {
        if (per[0] != per[1] || per[0] != per[2]) return reject();
        for (int k = 0; k < 3; ++k) r.v[k] = clamp(val[k] / (per[0] ? 100 : 255));
        if (per[0]) r.color = CssColor::rgb_p(flt[0], flt[1], flt[2], flt[3]); else r.color = CssColor::rgb(flt[0], flt[1], flt[2], flt[3]);
    }
    else {
        if (per[0] || !per[1] || !per[2]) return reject();
        r.defined = val[1] >= 0 && val[1] <= 100 && val[2] >= 0 && val[2] <= 100;
        hsl_to_rgb(val[0] / 360, val[1] / 100, val[2] / 100, r.v);
        r.color = CssColor::hsl(flt[0], flt[1], flt[2], flt[3]);
    }
    r.v[3] = clamp(val[3]);
    return r;
}

// Integer component must be within one step of the ideal one, and must be exact when the ideal one is an integer
bool close(int c, long double v, long double slop = 1e-4L)
{
    long double w = v * 255;
    if (std::fabs(w - std::round(w)) < 1e-9L && slop < 1e-3L) return c == int(std::round(w));
    return std::fabs(c - w) < 1 + slop;
}

void check_text(mc::Ctx& x, const std::string& s)
{
    x.eval();
    MC_TRACE(x, "parse [", s, "]");
    Ref r = ref_parse(s);
    const CssColor before = CssColor::rgb(1, 2, 3, 0.5F);
    CssColor c = before;
    bool ok = c.parse(s);
    x.outcome(mc::hash_str(ok ? "accepted" : "rejected"));
    if (!ok) {
        MC_CHECK(x, r.verdict != Ref::must, "valid color rejected: [", mc::esc(s), "]");
        MC_CHECK(x, same(c, before), "failing parse changed the color: [", mc::esc(s), "] to ", show(c));
        return;
    }
    MC_CHECK(x, r.verdict != Ref::reject, "invalid color accepted: [", mc::esc(s), "] as ", show(c));
    if (r.verdict == Ref::reject) return;
    CssColor::Name nm;
    if (!c.get_if(nm)) MC_CHECK(x, same(c, r.color), "[", mc::esc(s), "] parsed as ", show(c), " but means ", show(r.color));
    if (!r.defined) return;
    Hex h = c.get_as_hex();
    bool hsl = c.form() == CssColor::Form::hsl;
    int got[4] = {h.r, h.g, h.b, h.a};
    for (int k = 0; k < 4; ++k)
        MC_CHECK(x, close(got[k], r.v[k], hsl && k < 3 ? 2e-3L : 1e-4L), "[", mc::esc(s), "] as hexadecimal color is ", show(h), " but component ", k, " must be about ", double(r.v[k] * 255));
}

static mc::Scenario s_named("named-colors", 1, [](mc::Ctx& x) {
    std::size_t n = CssColor::get_num_named_colors();
    MC_CHECK(x, n == std::size(g_names) + 1, "number of named colors is ", n);
    std::vector<std::string> names{"transparent"};
    for (auto& k : g_names) names.push_back(k.name);
    std::size_t i = x.choose(unsigned(names.size()));
    const std::string& s = names[i];
    x.state(mc::hash_str(s.c_str()));
    Hex ideal = i == 0 ? Hex{0, 0, 0, 0} : Hex{CssColor::int_comp_type(g_names[i - 1].rgb >> 16), CssColor::int_comp_type(g_names[i - 1].rgb >> 8), CssColor::int_comp_type(g_names[i - 1].rgb), 255};
    CssColor::Name nm;
    MC_CHECK(x, CssColor::find_named_color_by_name(s, nm), "not found: ", s);
    MC_CHECK(x, nm.index < n, "index out of range for ", s);
    MC_CHECK(x, same(CssColor::get_named_color(nm), ideal), s, " is ", show(CssColor::get_named_color(nm)));
    CssColor c = CssColor::name(nm.index);
    MC_CHECK(x, c.form() == CssColor::Form::name && same(c.get_as_hex(), ideal), s, " by index");
    MC_CHECK(x, format(c) == s, s, " formatted as ", format(c));
    check_text(x, s);
    CssColor::Name nm_2;
    MC_CHECK(x, CssColor::find_named_color_by_value(ideal, nm_2) && same(CssColor::get_named_color(nm_2), ideal), "not found by value: ", s);
    {
        std::ostringstream out; util::Color col(ideal.r, ideal.g, ideal.b, ideal.a); out << util::as_css_color(col);
        std::string t = out.str(); bool known = false;
        for (auto& m : names) if (m == t) known = true;
        CssColor d;
        MC_CHECK(x, known && d.parse(t) && same(d.get_as_hex(), ideal), "named color ", s, " written as ", t);
        std::wostringstream wout; wout << util::as_css_color(col);
        MC_CHECK(x, wout.str() == std::wstring(t.begin(), t.end()), "wide text of ", s);
    }
    // Near misses
    auto is_name = [&](const std::string& t) { for (auto& m : names) if (m == t) return true; return false; };
    auto probe = [&](const std::string& t) { CssColor::Name q; x.eval(); MC_CHECK(x, CssColor::find_named_color_by_name(t, q) == is_name(t), "lookup of ", t); check_text(x, t); };
    for (std::size_t k = 0; k <= s.size(); ++k) { probe(s.substr(0, k)); if (k) probe(s.substr(k)); }
    for (std::size_t k = 0; k < s.size(); ++k) for (char ch : {'a', 'z', 'A', ' ', '_', '\0', '\xff'}) { std::string t = s; t[k] = ch; probe(t); }
    for (char ch : {'a', 'z', ' ', '\0', '1'}) probe(s + ch);
    for (int k = 0; k < 4; ++k) for (int d : {-1, 1}) {
        Hex h = ideal; auto& q = k == 0 ? h.r : k == 1 ? h.g : k == 2 ? h.b : h.a; q = CssColor::int_comp_type(q + d);
        bool exists = same(h, Hex{0, 0, 0, 0});
        for (auto& m : g_names) if (same(h, Hex{CssColor::int_comp_type(m.rgb >> 16), CssColor::int_comp_type(m.rgb >> 8), CssColor::int_comp_type(m.rgb), 255})) exists = true;
        CssColor::Name r; x.eval();
        bool found = CssColor::find_named_color_by_value(h, r);
        MC_CHECK(x, found == exists && (!found || same(CssColor::get_named_color(r), h)), "lookup by value ", show(h));
    }
    for (std::size_t k : {n, n + 1, std::size_t(-1)}) {
        bool thrown = false;
        try { CssColor::name(k); } catch (std::out_of_range&) { thrown = true; }
        MC_CHECK(x, thrown, "color of index ", k, " accepted");
    }
    MC_CHECK(x, same(CssColor(), CssColor::hex(0, 0, 0, 0)), "default color");
});

static mc::Scenario s_hex("hexadecimal-colors", 8, [](mc::Ctx& x) {
    const std::string digits = "0123456789abcdefABCDEF", bad = "gG@`/: +-x%\xff", few = "0f9A";
    int mode = x.choose(3);
    int a = x.choose(22);
    x.shard_point();
    x.state(mc::mix(mode, a));
    auto put = [](std::string s) { return "#" + s; };
    if (mode == 0) { // all texts of three and four digits
        for (char b : digits) for (char c : digits) {
            check_text(x, put({digits[a], b, c}));
            for (char d : digits) check_text(x, put({digits[a], b, c, d}));
        }
    }
    else if (mode == 1) { // every digit in every position of every length
        for (int n = 0; n <= 10; ++n) for (int p = 0; p <= n; ++p) for (char o : few) {
            std::string s(n, o); if (p < n) s[p] = digits[a];
            check_text(x, put(s)); check_text(x, s);
            for (char b : bad) for (int q = 0; q < n; ++q) { std::string t = s; t[q] = b; check_text(x, put(t)); }
        }
        if (a == 0) for (char b : bad) for (char c : bad) { check_text(x, {b, c}); check_text(x, {b}); check_text(x, put({b, c, b})); }
        if (a == 0) { check_text(x, ""); check_text(x, std::string("#fff\0", 5)); check_text(x, std::string("#ff\0", 4)); check_text(x, "##fff"); check_text(x, "#0xf"); check_text(x, "#+ff"); }
    }
    else { // format and parse
        std::vector<int> v{0, 1, 0x0f, 0x10, 0x11, 0x12, 0x21, 0x22, 0x7f, 0x80, 0x88, 0x99, 0xaa, 0xab, 0xee, 0xef, 0xf0, 0xfe, 0xff};
        if (a >= int(v.size())) return;
        for (int g : v) for (int b : v) for (int al : v) for (bool f : {false, true}) {
            Hex h{CssColor::int_comp_type(v[a]), CssColor::int_comp_type(g), CssColor::int_comp_type(b), CssColor::int_comp_type(al)};
            CssColor c = h; x.eval();
            std::string s = format(c, f);
            Ref r = ref_parse(s); Hex i;
            MC_CHECK(x, r.verdict == Ref::must && r.color.get_if(i) && same(h, i), show(h), " formatted as ", s);
            bool collapsible = v[a] % 17 == 0 && g % 17 == 0 && b % 17 == 0 && al % 17 == 0;
            std::size_t n = (collapsible && !f ? 3 : 6) + (al == 255 ? 0 : collapsible && !f ? 1 : 2);
            MC_CHECK(x, s.size() == n + 1, show(h), " formatted as ", s);
            CssColor d; MC_CHECK(x, d.parse(s) && same(c, d), "reparsing ", s, " gives ", show(d));
            util::Color col(h.r, h.g, h.b, h.a), col_2;
            std::ostringstream out; out << util::as_css_color(col);
            core::ValueParser parser(std::locale::classic());
            MC_CHECK(x, parser.parse(out.str(), util::as_css_color(col_2)), "as CSS color: ", out.str(), " not recognized");
            MC_CHECK(x, col_2.red() == h.r && col_2.green() == h.g && col_2.blue() == h.b && col_2.alpha() == h.a, "as CSS color: ", out.str());
            MC_CHECK(x, util::Color::from_rgba(col.to_rgba()).data()[0] == h.r && util::Color::from_rgba(col.to_rgba())[3] == h.a && util::Color::from_trgb(col.to_trgb()).green() == h.g &&
                     util::Color::from_trgb(col.to_trgb()).alpha() == h.a, "packed forms of ", show(h));
            MC_CHECK(x, col.to_rgba() == (I(h.r) << 24 | I(h.g) << 16 | I(h.b) << 8 | h.a) && col.to_trgb() == (I(255 - h.a) << 24 | I(h.r) << 16 | I(h.g) << 8 | h.b), "packed form of ", show(h));
            MC_CHECK(x, col.is_opaque() == (h.a == 255) && col.is_gray() == (h.r == h.g && h.g == h.b), "opaque or gray: ", show(h));
            auto vec = [&]<class T>(T) {
                math::Vector<4, T> w; col.to_vec(w); util::Color z = util::Color::from_vec(w);
                MC_CHECK(x, z.to_rgba() == col.to_rgba(), "vector form of ", show(h));
                for (int k = 0; k < 4; ++k) MC_CHECK(x, std::fabs(w[k] * 255 - col[k]) < 1e-4, "vector form of ", show(h));
            };
            vec(float()); vec(double());
        }
    }
});

// Functional forms: all sequences of tokens between the parentheses
static mc::Scenario s_func("functional-colors-tokens", 16, [](mc::Ctx& x) {
    const std::vector<std::string> labels{"rgb", "rgba", "hsl", "hsla"};
    std::string label = x.pick(labels);
    const std::vector<std::string> args{"", "0", "255", "50", "0%", "100%", "33.4%", "-10", "300", "1.5", ".5", " 7", "7 ", "+8", "1e1", "x", "5%%", "5 %", "%", "1 2"};
    const std::vector<std::string> seps{",", ", ", ",  ", " ,", "", ",,", " "};
    int n = x.range(0, x.thorough ? 5 : 4);
    // at most two (three) separators other than the first two
    std::string s = label + "(";
    for (int i = 0; i < n; ++i) {
        if (i) { unsigned k = x.choose(2) ? x.deviate(5) + 1 : 0; s += seps[k]; }
        unsigned k;
        if (i < 2) k = x.choose(unsigned(args.size()));
        else { unsigned few[] = {1, 2, 3, 5, 6, 9, 10}; unsigned j = x.choose(8); if (j < 7) k = few[j]; else { static const unsigned rest[] = {0, 4, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 19}; k = rest[x.choose(13)]; } }
        if (i == 1) x.shard_point();
        s += args[k];
    }
    if (n < 2) x.shard_point();
    x.state(mc::hash_str(s.c_str()));
    check_text(x, s + ")");
    if (n >= 3) {
        static const char* const tails[] = {"", "))", ")x", " )", ",)", ") ", "x)"};
        for (auto t : tails) check_text(x, s + t);
    }
});

static mc::Scenario s_label("functional-colors-labels", 1, [](mc::Ctx& x) {
    static const char* const labels[] = {"rgb", "rgba", "hsl", "hsla", "RGB", "Rgba", "HSL", "hslA", "", "r", "rg", "rgbx", "rgbaa", "hsv", "hsv a", "rgb ", " rgb", "lab", "#rgb", "rgb\0", "black"};
    std::string l = x.pick(labels);
    static const char* const args[] = {"(0,0,0)", "(0,0,0,0)", "(0,0%,0%)", "(0,0%,0%,0)", "(1,2,3,1)", "(1%,2%,3%)", "()", "(", ")", "((1,2,3)", "(1,2,3))", "(1,2,3)(1,2,3)", "1,2,3", "[1,2,3]", "(1,2,3", "1,2,3)"};
    std::string a = x.pick(args);
    x.state(mc::hash_str((l + a).c_str()));
    check_text(x, l + a);
});

static mc::Scenario s_funcval("functional-colors-values", 8, [](mc::Ctx& x) {
    int form = x.choose(3);
    std::vector<float> v{0, 0.5F, 1, 10, 33.25F, 50, 99.5F, 100, 127.5F, 254, 255, 300, -1, 0.001F, 359.75F, 120, 240, 1234.5F, 1e6F, 1e7F, 1e-6F};
    float p = x.pick(v), q = x.pick(v);
    x.shard_point();
    x.state(mc::mix(form, mc::mix(uint64_t(p * 1e6), uint64_t(q * 1e6))));
    std::vector<float> as{0, 0.25F, 0.5F, 0.996F, 1, 1.5F, -0.5F, 0.125F};
    for (float r : v) for (float a : as) {
        CssColor c = form == 0 ? CssColor::rgb(p, q, r, a) : form == 1 ? CssColor::rgb_p(p, q, r, a) : CssColor::hsl(p, q, r, a);
        x.eval();
        std::string s = format(c);
        CssColor d; float e = a >= 1 ? 1 : a;
        CssColor want = form == 0 ? CssColor::rgb(p, q, r, e) : form == 1 ? CssColor::rgb_p(p, q, r, e) : CssColor::hsl(p, q, r, e);
        MC_CHECK(x, d.parse(s) && same(d, want), show(c), " formatted as ", s, " reparsed as ", show(d));
        MC_CHECK(x, same(d.get_as_hex(), c.get_as_hex()), "meaning of ", show(c), " changed by formatting and parsing");
        MC_CHECK(x, ref_parse(s).verdict != Ref::reject, show(c), " formatted as ", s);
        check_text(x, s);
    }
});

// ---- Fractions of unity

template<class Int, class F> void check_frac(mc::Ctx& x, F v, Int max)
{
    // Result must be the one of exact arithmetic, or result adjacent to it when the exact value is within rounding distance of the boundary
    long double eps = std::numeric_limits<F>::epsilon();
    Int r = uf::flt_to_int<Int>(v, max), s = uf::flt_to_int_a<Int>(v, max);
    x.eval();
    auto what = [&] { return mc::str(Name<Int>::v, " max ", istr(max), " value ", double(v)); };
    MC_CHECK(x, r >= 0 && r <= max && s >= 0 && s <= max, "result out of range: ", what(), ": ", istr(r), " and ", istr(s));
    if (!(v >= 0)) { MC_CHECK(x, r == 0 && s == 0, "negative or not a number: ", what()); return; }
    if (v >= 1) { MC_CHECK(x, r == max && s == max, "one or more: ", what(), ": ", istr(r), " and ", istr(s)); return; }
    long double w = (long double)(v) * ((long double)(max) + 1), z = (long double)(v) * (long double)(max);
    long double tol_1 = 2 * eps * w, tol_2 = 3 * eps * (z + 1);
    bool pow2 = ((I(max) + 1) & I(max)) == 0;
    if (pow2) tol_1 = 0; // scaling is exact
    MC_CHECK(x, (long double)(r) <= w + tol_1 && ((long double)(r) + 1 > w - tol_1 || r == max), "default model: ", what(), ": got ", istr(r), " for ", double(w));
    MC_CHECK(x, std::fabs((long double)(s) - z) <= 0.5L + tol_2, "alternative model: ", what(), ": got ", istr(s), " for ", double(z));
}

template<class Int, class F> void check_frac_max(mc::Ctx& x, Int max, const std::vector<Int>& ints)
{
    F inf = std::numeric_limits<F>::infinity();
    std::vector<F> vs{F(-1), F(-0.0), -std::numeric_limits<F>::denorm_min(), F(0), std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::min(), F(1), std::nextafter(F(1), F(0)), std::nextafter(F(1), F(2)),
        F(2), inf, -inf, std::numeric_limits<F>::quiet_NaN(), std::numeric_limits<F>::max()};
    bool stable_a = I(max) <= (I(1) << (std::numeric_limits<F>::digits - 2)), stable = core::int_width<Int>() * 2 < std::numeric_limits<F>::digits || I(max) < (I(1) << (std::numeric_limits<F>::digits / 2 - 1));
    F prev = -1;
    for (Int i : ints) {
        if (i > max || i < 0) continue;
        F v = uf::int_to_flt<F>(i, max);
        MC_CHECK(x, v >= 0 && v <= 1 && v >= prev, "integer to float of ", istr(i), " of ", istr(max), " is ", double(v));
        prev = v;
        MC_CHECK(x, std::fabs((long double)(v) * max - i) <= 4 * (long double)(i) * std::numeric_limits<F>::epsilon(), "integer to float of ", istr(i), " of ", istr(max), " is ", double(v));
        if (i == 0 || i == max) MC_CHECK(x, v == F(i != 0), "limits: ", istr(i), " of ", istr(max));
        if (stable_a) MC_CHECK(x, uf::flt_to_int_a<Int>(v, max) == i, "alternative model does not restore ", istr(i), " of ", istr(max), " (", Name<Int>::v, ")");
        if (stable) MC_CHECK(x, uf::flt_to_int<Int>(v, max) == i, "default model does not restore ", istr(i), " of ", istr(max), " (", Name<Int>::v, ")");
        for (F b : {v, F((long double)(i) / ((long double)(max) + 1)), F(((long double)(i) + 0.5L) / (long double)(max))}) { vs.push_back(b); vs.push_back(std::nextafter(b, F(-1))); vs.push_back(std::nextafter(b, F(2))); }
    }
    for (F v : vs) check_frac<Int, F>(x, v, max);
    // Monotone
    vs.erase(std::remove_if(vs.begin(), vs.end(), [](F f) { return f != f; }), vs.end());
    std::sort(vs.begin(), vs.end());
    for (std::size_t k = 1; k < vs.size(); ++k)
        MC_CHECK(x, uf::flt_to_int<Int>(vs[k - 1], max) <= uf::flt_to_int<Int>(vs[k], max) && uf::flt_to_int_a<Int>(vs[k - 1], max) <= uf::flt_to_int_a<Int>(vs[k], max),
                 "not monotone at ", double(vs[k]), " for ", Name<Int>::v, " max ", istr(max));
}

template<class Int> void check_frac_type(mc::Ctx& x)
{
    std::vector<Int> maxs; I m = std::numeric_limits<Int>::max();
    if (sizeof(Int) == 1) for (I i = 1; i <= m; ++i) maxs.push_back(Int(i));
    else for (I i : {I(1), I(2), I(3), I(9), I(10), I(255), I(256), I(257), I(1000), I(4095), I(32767), I(65535), I(65536), m / 2, m / 2 + 1, m / 3, m - 2, m - 1, m}) if (i <= m) maxs.push_back(Int(i));
    Int max = x.pick(maxs);
    int f = x.choose(3);
    x.shard_point();
    x.state(mc::mix(mc::hash_str(Name<Int>::v), mc::mix(uint64_t(max), f)));
    std::vector<Int> ints;
    if (I(max) <= (x.thorough ? 70000 : 5000)) for (I i = 0; i <= I(max); ++i) ints.push_back(Int(i));
    else { for (I i = 0; i < 40; ++i) { ints.push_back(Int(i)); } for (int k = 1; k < 64; ++k) for (int d : {-1, 0, 1}) { I i = I(max) * k / 64 + d; ints.push_back(Int(i)); } for (I i = 40; i >= 0; --i) ints.push_back(Int(I(max) - i)); }
    std::sort(ints.begin(), ints.end());
    if (f == 0) check_frac_max<Int, float>(x, max, ints);
    else if (f == 1) check_frac_max<Int, double>(x, max, ints);
    else check_frac_max<Int, long double>(x, max, ints);
}

static mc::Scenario s_frac("fractions-of-unity", 32, [](mc::Ctx& x) {
    switch (x.choose(8)) {
        case 0: return check_frac_type<std::uint8_t>(x);
        case 1: return check_frac_type<std::int8_t>(x);
        case 2: return check_frac_type<std::uint16_t>(x);
        case 3: return check_frac_type<std::int16_t>(x);
        case 4: return check_frac_type<std::uint32_t>(x);
        case 5: return check_frac_type<std::int32_t>(x);
        case 6: return check_frac_type<std::uint64_t>(x);
        default: return check_frac_type<std::int64_t>(x);
    }
});

template<class T> void check_width(mc::Ctx& x)
{
    int w = std::numeric_limits<T>::digits;
    int n = x.range(1, w), m = x.range(1, w);
    x.shard_point();
    x.state(mc::mix(w, mc::mix(n, m)));
    std::vector<I> vs;
    I p = (I(1) << n) - 1, q = (I(1) << m) - 1;
    if (n <= (x.thorough ? 16 : 12)) for (I i = 0; i <= p; ++i) vs.push_back(i);
    else for (int k = 0; k <= 256; ++k) for (int d = -3; d <= 3; ++d) { I i = p / 256 * k + d; if (i >= 0 && i <= p) vs.push_back(i); if (p - i >= 0 && i >= 0 && i <= p) vs.push_back(p - i); }
    if (n > 12) for (int b = 0; b < n; ++b) { vs.push_back(I(1) << b); vs.push_back(p ^ (I(1) << b)); }
    for (I v : vs) {
        x.eval();
        T r = uf::change_bit_width<T>(T(v), n, m);
        // trunc(v / p * (q + 1)), except at the upper limit
        unsigned __int128 num = (unsigned __int128)(v) << m; // at most 127 bits
        I want = v == p ? q : I(num / (unsigned __int128)(p));
        if (want > q) want = q;
        MC_CHECK(x, I(r) == want, Name<T>::v, ": ", istr(v), " from ", n, " to ", m, " bits gave ", istr(r), " instead of ", istr(want));
    }
}
static mc::Scenario s_width("change-of-bit-width", 32, [](mc::Ctx& x) {
    switch (x.choose(8)) {
        case 0: return check_width<std::uint8_t>(x);
        case 1: return check_width<std::int8_t>(x);
        case 2: return check_width<std::uint16_t>(x);
        case 3: return check_width<std::int16_t>(x);
        case 4: return check_width<std::uint32_t>(x);
        case 5: return check_width<std::int32_t>(x);
        case 6: return check_width<std::int64_t>(x);
        default: return check_width<std::uint64_t>(x);
    }
});

template<int N, int M, class Int, class J> void check_scale(mc::Ctx& x, const std::vector<I>& m1, const std::vector<I>& m2)
{
    I max_1 = x.pick(m1);
    x.shard_point();
    x.state(mc::mix(mc::mix(N, M), uint64_t(max_1)));
    for (I max_2 : m2) {
        I prev = 0;
        I stride = max_1 > 4000 ? max_1 / 2000 + 1 : 1;
        for (I v = 0;; v += stride) {
            if (v > max_1) v = max_1;
            x.eval();
            J r = uf::int_to_int_a<N, M>(Int(v), Int(max_1), J(max_2));
            I d = I(r) * max_1 - v * max_2; // distance from ideal in units of 1 / max_1
            if (d < 0) d = -d;
            MC_CHECK(x, 2 * d <= max_1, istr(v), " of ", istr(max_1), " as fraction of ", istr(max_2), " gave ", istr(r));
            MC_CHECK(x, I(r) >= prev && I(r) <= max_2, "not monotone: ", istr(v), " of ", istr(max_1), " as fraction of ", istr(max_2), " gave ", istr(r));
            if (max_2 >= max_1) MC_CHECK(x, I(uf::int_to_int_a<M, N>(J(r), J(max_2), Int(max_1))) == v, "round trip: ", istr(v), " of ", istr(max_1), " via ", istr(max_2));
            prev = r;
            if (v == max_1) break;
        }
    }
}
static mc::Scenario s_scale("change-of-maximum", 32, [](mc::Ctx& x) {
    static const std::vector<I> b8 = [] { std::vector<I> v; for (I i = 1; i <= 255; ++i) v.push_back(i); return v; }();
    static const std::vector<I> s8 = [] { std::vector<I> v; for (I i = 1; i <= 127; ++i) v.push_back(i); return v; }();
    static const std::vector<I> b16{1, 2, 3, 100, 255, 256, 257, 4095, 32767, 32768, 65534, 65535};
    static const std::vector<I> b32{1, 2, 3, 255, 65535, 65536, 2147483647, 2147483648LL, 4294967294LL, 4294967295LL};
    static const std::vector<I> s32{1, 2, 3, 255, 65535, 65536, 2147483646, 2147483647};
    switch (x.choose(6)) {
        case 0: return check_scale<8, 8, std::uint8_t, std::uint8_t>(x, b8, b8);
        case 1: return check_scale<8, 7, std::uint8_t, std::int8_t>(x, b8, s8);
        case 2: return check_scale<8, 16, std::uint8_t, std::uint16_t>(x, b8, b16);
        case 3: return check_scale<16, 16, int, std::uint16_t>(x, b16, b16);
        case 4: return check_scale<32, 32, std::uint32_t, std::uint32_t>(x, b32, b32);
        default: return check_scale<32, 31, std::uint32_t, std::int32_t>(x, b32, s32);
    }
});

// ---- Pixel components

long double ref_expand(long double v) { return v > 0.04045L ? std::pow((v + 0.055L) / 1.055L, 2.4L) : v / 12.92L; }
long double ref_compress(long double v) { return v > 0.0031308L ? 1.055L * std::pow(v, 1 / 2.4L) - 0.055L : 12.92L * v; }

// exact integer of default model, tolerating values within rounding distance of a boundary
bool quantized(I r, long double v, int bits, long double tol)
{
    I max = (I(1) << bits) - 1;
    long double w = v * (max + 1);
    if (w < 0) w = 0;
    if (w > max + 1) w = max + 1;
    return (long double)(r) <= w + tol && ((long double)(r) + 1 > w - tol || r == max) && r >= 0 && r <= max;
}

template<int N> void check_gamma(mc::Ctx& x)
{
    x.state(N);
    using T = std::conditional_t<(N <= 8), image::int8_type, image::int16_type>;
    I max = (I(1) << N) - 1;
    float prev = -1;
    for (I i = 0; i <= max; ++i) {
        x.eval();
        T p = image::pack_int<T, N>(int(i));
        MC_CHECK(x, I(image::unpack_int<N>(p)) == i, "packing of ", istr(i));
        float f = image::compressed_int_to_float<N>(p);
        I i8 = N >= 8 ? i : I(uf::change_bit_width<int>(int(i), N, 8));
        long double ideal = ref_expand(N >= 8 ? (long double)(i) / max : i8 / 255.0L);
        MC_CHECK(x, std::fabs(f - ideal) <= 2e-7L * ideal, N, " bit compressed integer ", istr(i), " decompressed to ", f, " instead of ", double(ideal));
        MC_CHECK(x, f > prev, "decompression not increasing at ", istr(i), " of ", N, " bits");
        prev = f;
        T q = image::float_to_compressed_int<T, N>(f);
        I j = I(image::unpack_int<N>(q));
        MC_CHECK(x, N <= 11 ? j == i : j - i <= 1 && i - j <= 1, N, " bit compressed integer ", istr(i), " changed to ", istr(j), " by conversion to float and back");
        float g = image::int_to_float<N, float>(p);
        MC_CHECK(x, std::fabs((long double)(g) - (long double)(i) / max) < 1e-7L, N, " bit integer ", istr(i), " converted to ", g);
        I k = I(image::unpack_int<N>(image::float_to_int<T, N>(g)));
        MC_CHECK(x, N <= 11 ? k == i : k - i <= 1 && i - k <= 1, N, " bit integer ", istr(i), " changed to ", istr(k), " by conversion to float and back");
    }
    I prev_i = 0;
    int n = x.thorough ? 20000 : 4000;
    for (int k = -20; k <= n + 20; ++k) {
        float v = float(k) / n; x.eval();
        I j = I(image::unpack_int<N>(image::float_to_compressed_int<T, N>(v)));
        MC_CHECK(x, quantized(j, ref_compress(v), N, 1e-9L * max + 1e-9L), "compression of ", v, " to ", N, " bits gave ", istr(j));
        MC_CHECK(x, j >= prev_i, "compression not monotone at ", v); prev_i = j;
        I m = I(image::unpack_int<N>(image::float_to_int<T, N>(v)));
        MC_CHECK(x, quantized(m, v, N, 0), "conversion of ", v, " to ", N, " bits gave ", istr(m));
        if (v >= 0 && v <= 1) MC_CHECK(x, std::fabs(image::gamma_compress(double(v)) - ref_compress(v)) < 1e-12 && std::fabs(image::gamma_expand(double(v)) - ref_expand(v)) < 1e-12 &&
                                       std::fabs(image::gamma_expand(image::gamma_compress(double(v))) - v) < 1e-6 && std::fabs(image::gamma_compress(image::gamma_expand(double(v))) - v) < 1e-6,
                                       "gamma compression of ", v);
    }
}
static mc::Scenario s_gamma("gamma-compression", 1, [](mc::Ctx& x) {
    switch (x.choose(11)) {
        case 0: return check_gamma<1>(x);
        case 1: return check_gamma<2>(x);
        case 2: return check_gamma<3>(x);
        case 3: return check_gamma<4>(x);
        case 4: return check_gamma<5>(x);
        case 5: return check_gamma<6>(x);
        case 6: return check_gamma<7>(x);
        case 7: return check_gamma<8>(x);
        case 8: return check_gamma<10>(x);
        case 9: return check_gamma<12>(x);
        default: return check_gamma<16>(x);
    }
});

using image::CompRepr;
template<CompRepr R> std::vector<image::comp_type<R>> comps(bool all)
{
    std::vector<image::comp_type<R>> v;
    if constexpr (R == CompRepr::int8) { for (int i = 0; i < 256; i += all ? 1 : i % 16 == 0 || i % 16 == 14 ? 1 : i < 240 ? 13 : 1) v.push_back(image::comp_repr_pack<R>(i)); }
    else if constexpr (R == CompRepr::int16) { if (all) for (int i = 0; i < 65536; ++i) v.push_back(image::comp_repr_pack<R>(i)); else for (int i : {0, 1, 127, 128, 255, 256, 257, 511, 512, 1000, 32767, 32768, 40000, 65279, 65280, 65534, 65535}) v.push_back(image::comp_repr_pack<R>(i)); }
    else { if (all) for (int i = -4; i <= 1028; ++i) v.push_back(float(i) / 1024); else for (float f : {0.F, 1e-4F, 0.003F, 0.01F, 0.1F, 0.25F, 0.4999F, 0.5F, 0.75F, 0.999F, 1.F, 1.5F, -0.25F}) v.push_back(f); }
    return v;
}
template<CompRepr R> long double lin(image::comp_type<R> c, bool color)
{
    if constexpr (R == CompRepr::float_) return c;
    else { long double v = (long double)(image::comp_repr_unpack<R>(c)) / image::comp_repr_unpacked_max<R>(); return color ? ref_expand(v) : v; }
}
template<CompRepr R, CompRepr S> void check_convert(mc::Ctx& x)
{
    bool has_alpha = (x.choose(2) == 1);
    constexpr bool f1 = R == CompRepr::float_, f2 = S == CompRepr::float_;
    constexpr int bits_2 = S == CompRepr::int8 ? 8 : 16, bits_1 = R == CompRepr::int8 ? 8 : 16;
    x.state(mc::mix(mc::mix(int(R), int(S)), has_alpha));
    auto all = comps<R>(true), alphas = comps<R>(R == CompRepr::int8);
    using C = image::comp_type<R>; using D = image::comp_type<S>;
    for (int n = 1; n <= 5; ++n) {
        if (n >= 4 && !x.thorough && R == CompRepr::int16) continue;
        for (std::size_t k = 0; k < all.size(); ++k) for (C al : has_alpha ? alphas : std::vector<C>{C()}) {
            if (has_alpha && n == 1 && k) break;
            if (has_alpha && n > 2 && k % 7 && all.size() > 2000) break;
            std::vector<C> in(n); for (int i = 0; i < n; ++i) in[i] = all[(k + i * 37) % all.size()];
            if (has_alpha) in[n - 1] = al;
            std::vector<D> out(n + 1, D(77));
            x.eval();
            image::comp_repr_convert<R, S>(in.data(), out.data(), n, has_alpha);
            MC_CHECK(x, out[n] == D(77), "conversion wrote beyond the last component");
            for (int i = 0; i < n; ++i) {
                bool is_alpha = has_alpha && i == n - 1;
                auto what = [&] { return mc::str("component ", i, " of ", n, has_alpha ? " with alpha" : " without alpha", " value ", double(lin<R>(in[i], !is_alpha)), " alpha ", double(has_alpha ? lin<R>(al, false) : 1)); };
                if constexpr (R == S) MC_CHECK(x, out[i] == in[i], "copied: ", what());
                else if constexpr (f1) {
                    long double v = in[i];
                    if (has_alpha && !is_alpha) { if (al == 0) v = 0; else v = float(1.0 / al * in[i]); }
                    I got = image::comp_repr_unpack<S>(out[i]);
                    bool good = is_alpha ? quantized(got, v, bits_2, 0) : quantized(got, ref_compress(v), bits_2, 1e-6L * (1 << bits_2) * std::max(1.0L, std::fabs(v)));
                    MC_CHECK(x, good, what(), ": got ", istr(got));
                }
                else if constexpr (f2) {
                    long double v = lin<R>(in[i], !is_alpha); if (has_alpha && !is_alpha) v *= lin<R>(al, false);
                    MC_CHECK(x, std::fabs(out[i] - v) < 2e-7L, what(), ": got ", out[i]);
                }
                else {
                    I got = image::comp_repr_unpack<S>(out[i]);
                    I v = image::comp_repr_unpack<R>(in[i]), p = (I(1) << bits_1) - 1, q = (I(1) << bits_2) - 1;
                    I want = v == p ? q : (v << bits_2) / p;
                    MC_CHECK(x, got == want, what(), ": got ", istr(got));
                    C back; image::comp_repr_convert<S, R>(&out[i], &back, 1, false);
                    if (bits_2 >= bits_1) MC_CHECK(x, back == in[i], what(), ": not restored");
                }
            }
        }
    }
    // single components
    for (C c : all) {
        if constexpr (!f1) {
            MC_CHECK(x, std::fabs(image::color_comp_to_float<R>(c) - lin<R>(c, true)) < 2e-7L && std::fabs(image::alpha_comp_to_float<R>(c) - lin<R>(c, false)) < 2e-7L, "component as float: ", double(lin<R>(c, false)));
            auto d = image::color_comp_from_float<R>(image::color_comp_to_float<R>(c)), e = image::alpha_comp_from_float<R>(image::alpha_comp_to_float<R>(c));
            I a = image::comp_repr_unpack<R>(c), b = image::comp_repr_unpack<R>(d), g = image::comp_repr_unpack<R>(e);
            MC_CHECK(x, bits_1 <= 8 ? a == b && a == g : a - b <= 1 && b - a <= 1 && a - g <= 1 && g - a <= 1, "component not restored: ", istr(a), " became ", istr(b), " and ", istr(g));
        }
        else MC_CHECK(x, image::color_comp_to_float<R>(c) == c && image::alpha_comp_from_float<R>(c) == c, "float component changed");
    }
    for (C c : comps<R>(false)) for (C d : comps<R>(false)) MC_CHECK(x, image::comp_repr_less<R>(c, d) == (lin<R>(c, false) < lin<R>(d, false)), "order of components");
    MC_CHECK(x, lin<R>(image::comp_repr_max<R>(), true) == 1, "maximum");
}
static mc::Scenario s_repr("component-representations", 1, [](mc::Ctx& x) {
    switch (x.choose(9)) {
        case 0: return check_convert<CompRepr::int8, CompRepr::int8>(x);
        case 1: return check_convert<CompRepr::int8, CompRepr::int16>(x);
        case 2: return check_convert<CompRepr::int8, CompRepr::float_>(x);
        case 3: return check_convert<CompRepr::int16, CompRepr::int8>(x);
        case 4: return check_convert<CompRepr::int16, CompRepr::int16>(x);
        case 5: return check_convert<CompRepr::int16, CompRepr::float_>(x);
        case 6: return check_convert<CompRepr::float_, CompRepr::int8>(x);
        case 7: return check_convert<CompRepr::float_, CompRepr::int16>(x);
        default: return check_convert<CompRepr::float_, CompRepr::float_>(x);
    }
});

// ---- Color spaces

template<class T> void check_spaces(mc::Ctx& x)
{
    using V = math::Vector<3, T>;
    int n = x.thorough ? 60 : 24;
    int a = x.choose(n + 1);
    x.shard_point();
    x.state(mc::mix(sizeof(T), a));
    T tol = sizeof(T) == 4 ? T(2e-6) : T(1e-9);
    auto near = [&](const V& u, const V& v, T t) { for (int i = 0; i < 3; ++i) if (!(std::fabs(u[i] - v[i]) <= t)) return false; return true; };
    auto show3 = [](const V& v) { return mc::str(double(v[0]), ",", double(v[1]), ",", double(v[2])); };
    for (int b = 0; b <= n; ++b) for (int c = 0; c <= n; ++c) {
        V p{T(a) / n, T(b) / n, T(c) / n};
        x.eval();
        auto in_range = [&](const V& v) { for (int i = 0; i < 3; ++i) if (!(v[i] >= 0 && v[i] <= 1)) return false; return true; };
        V hsl = util::cvt_sRGB_to_HSL(p), hsv = util::cvt_sRGB_to_HSV(p), xyz = util::cvt_sRGB_to_XYZ(p);
        for (int i = 0; i < 3; ++i) MC_CHECK(x, hsl[i] >= -tol && hsl[i] <= 1 + tol && hsv[i] >= 0 && hsv[i] <= 1, "HSL or HSV of ", show3(p), " out of range: ", show3(hsl), " ", show3(hsv));
        MC_CHECK(x, near(util::cvt_HSL_to_sRGB(hsl), p, tol), "HSL of ", show3(p), " is ", show3(hsl), " and that is ", show3(util::cvt_HSL_to_sRGB(hsl)));
        MC_CHECK(x, near(util::cvt_HSV_to_sRGB(hsv), p, tol), "HSV of ", show3(p), " is ", show3(hsv), " and that is ", show3(util::cvt_HSV_to_sRGB(hsv)));
        MC_CHECK(x, near(util::cvt_XYZ_to_sRGB(xyz), p, 10 * tol), "XYZ of ", show3(p), " is ", show3(xyz), " and that is ", show3(util::cvt_XYZ_to_sRGB(xyz)));
        // against definitions
        long double out[3]; hsl_to_rgb(p[0], p[1], p[2], out);
        V q = util::cvt_HSL_to_sRGB(p);
        MC_CHECK(x, near(q, V{T(out[0]), T(out[1]), T(out[2])}, 2 * tol), "RGB of HSL ", show3(p), " is ", show3(q));
        if (p[1] > 0 && p[2] > 0 && p[2] < 1) { V r = util::cvt_sRGB_to_HSL(q); T d = std::fabs(r[0] - p[0]); MC_CHECK(x, std::min(d, 1 - d) < 500 * tol && std::fabs(r[1] - p[1]) < 100 * tol && std::fabs(r[2] - p[2]) < tol, "HSL ", show3(p), " became ", show3(r)); }
        { // HSV by its definition
            long double h6 = (p[0] - std::floor(p[0])) * 6.0L; int k = int(h6) % 6; long double f = h6 - std::floor(h6), v = p[2], s = p[1];
            long double m = v * (1 - s), u = v * (1 - s * f), w = v * (1 - s * (1 - f));
            long double t[6][3] = {{v, w, m}, {u, v, m}, {m, v, w}, {m, u, v}, {w, m, v}, {v, m, u}};
            V r = util::cvt_HSV_to_sRGB(p);
            MC_CHECK(x, near(r, V{T(t[k][0]), T(t[k][1]), T(t[k][2])}, 3 * tol), "RGB of HSV ", show3(p), " is ", show3(r));
            if (s > 0 && v > 0) { V e = util::cvt_sRGB_to_HSV(r); T d = std::fabs(e[0] - p[0]); MC_CHECK(x, std::min(d, 1 - d) < 500 * tol && std::fabs(e[1] - p[1]) < 100 * tol && std::fabs(e[2] - p[2]) < tol, "HSV ", show3(p), " became ", show3(e)); }
        }
        static const long double M[3][3] = {{0.4124L, 0.3576L, 0.1805L}, {0.2126L, 0.7152L, 0.0722L}, {0.0193L, 0.1192L, 0.9505L}};
        for (int i = 0; i < 3; ++i) {
            long double w = 0; for (int k = 0; k < 3; ++k) w += M[i][k] * ref_expand(p[k]);
            MC_CHECK(x, std::fabs(xyz[i] - w) < 1e-3L, "XYZ of ", show3(p), " is ", show3(xyz));
        }
        T lum = util::cvt_RGB_to_Lum(p);
        MC_CHECK(x, std::fabs(lum - (0.2126L * p[0] + 0.7152L * p[1] + 0.0722L * p[2])) < tol, "luminance of ", show3(p));
        V gray = util::cvt_Lum_to_RGB(lum);
        MC_CHECK(x, gray[0] == lum && gray[1] == lum && gray[2] == lum && std::fabs(util::cvt_RGB_to_Lum(gray) - lum) < tol, "luminance ", double(lum), " to RGB and back");
        (void)in_range;
    }
}
static mc::Scenario s_spaces("color-spaces", 16, [](mc::Ctx& x) { if (x.choose(2)) check_spaces<double>(x); else check_spaces<float>(x); });

struct OtherSpace : image::ColorSpace {
    OtherSpace() : image::ColorSpace(2) {}
    void from_rgb(const comp_type* rgb, comp_type* native, comp_type alpha) const override { native[0] = rgb[0]; native[1] = rgb[2]; last = alpha; }
    void to_rgb(const comp_type* native, comp_type* rgb, comp_type alpha) const override { rgb[0] = native[0]; rgb[1] = native[1]; rgb[2] = native[0] * native[1]; last = alpha; }
    mutable float last = -1;
};
struct Conv : image::ColorSpaceConverter { mutable int n = 0; mutable float last = -1; void convert(float* p, float alpha) const override { ++n; last = alpha; p[0] += 10; } };

static mc::Scenario s_native("image-color-spaces", 1, [](mc::Ctx& x) {
    OtherSpace other[2];
    const image::ColorSpace* sp[] = {&image::ColorSpace::get_degen(), &image::ColorSpace::get_lum(), &image::ColorSpace::get_rgb(), &other[0], &other[1]};
    const int chans[] = {0, 1, 3, 2, 2};
    using Tag = image::ColorSpace::Tag;
    const Tag tags[] = {Tag::degen, Tag::lum, Tag::rgb};
    for (int i = 0; i < 5; ++i) {
        MC_CHECK(x, sp[i]->get_num_channels() == chans[i], "number of channels of color space ", i);
        for (int j = 0; j < 3; ++j) MC_CHECK(x, sp[i]->is(tags[j]) == (i == j), "color space ", i, " tag ", j);
        MC_CHECK(x, sp[i]->is_degen() == (i == 0) && sp[i]->is_lum() == (i == 1) && sp[i]->is_rgb() == (i == 2), "tag of color space ", i);
        Tag t = Tag::rgb; MC_CHECK(x, sp[i]->try_get_tag(t) == (i < 3) && (i >= 3 || t == tags[i]), "tag of color space ", i);
        if (i < 3) MC_CHECK(x, &image::get_color_space(tags[i]) == sp[i], "color space of tag ", i);
    }
    // registry with up to three registered converters
    Conv conv[3]; image::ColorSpaceConverterRegistry reg;
    std::map<std::pair<int, int>, int> model;
    static const std::pair<int, int> pairs[] = {{0, 1}, {1, 0}, {0, 3}, {3, 1}, {1, 3}, {3, 4}, {4, 3}};
    int n = x.choose(4);
    for (int i = 0; i < n; ++i) { auto p = x.pick(pairs); reg.add(*sp[p.first], *sp[p.second], conv[i]); model.emplace(p, i); }
    std::uint64_t h = n; for (auto& e : model) h = mc::mix(h, mc::mix(e.first.first * 8 + e.first.second, e.second));
    x.state(h);
    const float vals[] = {0, 0.25F, 1};
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) {
        auto c = reg.find(*sp[i], *sp[j]);
        auto m = model.find({i, j});
        MC_CHECK(x, c == (m == model.end() ? nullptr : &conv[m->second]), "converter from ", i, " to ", j);
        for (float u : vals) for (float v : vals) for (float w : vals) for (float al : {0.F, 0.5F}) {
            float px[4] = {u, v, w, 99}; x.eval();
            float rgb[3] = {u, v, w};
            if (i == 0) rgb[0] = rgb[1] = rgb[2] = al; else if (i == 1) rgb[1] = rgb[2] = u; else if (i > 2) { rgb[2] = u * v; }
            int before = c ? static_cast<const Conv*>(c)->n : 0;
            for (auto& o : other) o.last = -1;
            image::color_space_convert(px, al, *sp[i], *sp[j], c);
            if (c) { MC_CHECK(x, static_cast<const Conv*>(c)->n == before + 1 && static_cast<const Conv*>(c)->last == al && px[0] == u + 10, "custom converter not used"); continue; }
            if (i == j) { MC_CHECK(x, px[0] == u && px[1] == v && px[2] == w, "conversion to same color space"); continue; }
            if (i > 2) MC_CHECK(x, other[i - 3].last == al, "alpha not passed");
            if (j > 2) MC_CHECK(x, other[j - 3].last == al, "alpha not passed");
            bool good = px[3] == 99;
            if (j == 1) good = good && std::fabs(px[0] - (0.2126F * rgb[0] + 0.7152F * rgb[1] + 0.0722F * rgb[2])) < 1e-6F && px[1] == v && px[2] == w;
            if (j == 2) good = good && px[0] == rgb[0] && px[1] == rgb[1] && px[2] == rgb[2];
            if (j > 2) good = good && px[0] == rgb[0] && px[1] == rgb[2] && px[2] == w;
            MC_CHECK(x, good, "conversion from color space ", i, " to ", j, " of ", u, ",", v, ",", w, " gave ", px[0], ",", px[1], ",", px[2]);
        }
    }
});
