// C42, C51: independent reading of specification and image of fallback font, and checks of font faces
#pragma once
#include "fakefs.hpp"
#include "C40_png.hpp"
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <archon/image/buffered_image.hpp>
#include <archon/image/buffered_image.hpp>
#include <archon/util/colors.hpp>
#include <archon/font/face.hpp>
#include <archon/font/loader.hpp>
#include <archon/font/loader_fallback.hpp>

namespace fnt {

inline std::string slurp(const std::string& p) { std::ifstream in(p, std::ios::binary); std::ostringstream o; o << in.rdbuf(); return o.str(); }
inline std::string dir() { const char* p = std::getenv("MC_REPO"); return std::string(p ? p : "/repo") + "/src/archon/font"; }

struct Log final : log::RootLogger {
    std::vector<std::string> lines;
    Log() : log::RootLogger(std::locale::classic()) {}
    void root_log(std::string_view s) override { lines.emplace_back(s); }
    int errors() const { int n = 0; for (auto& l : lines) n += l.find("ERROR") != l.npos; return n; }
};

// ---- reference ----
struct G { int x, y, w, h, hbx, hby, vbx, vby, ha, va; };
struct Ref {
    std::string family;
    int bold = 0, italic = 0, mono = 0;
    double rw = 0, rh = 0;
    int hoff = 0, hspace = 0, voff = 0, vspace = 0;
    std::vector<G> glyphs;
    std::map<long, std::size_t> map;
    png::File image;
    int mask(std::size_t g, int i, int j) const { return image.at(glyphs[g].x + i, glyphs[g].y + j, 0); }
};
inline Ref parse(const std::string& spec, const std::string& png)
{
    Ref r;
    std::istringstream in(spec);
    std::string line;
    int stage = 0;
    while (std::getline(in, line)) {
        line = line.substr(0, line.find('#'));
        std::istringstream l(line);
        std::string word;
        if (!(l >> word)) continue;
        l.clear(); l.seekg(0);
        if (stage == 0) r.family = line;
        else if (stage == 1) {}
        else if (stage == 2) { int w, h; l >> w >> h >> r.bold >> r.italic >> r.mono >> r.rw >> r.rh >> r.hoff >> r.hspace >> r.voff >> r.vspace; }
        else {
            G g;
            l >> g.x >> g.y >> g.w >> g.h >> g.hbx >> g.hby >> g.vbx >> g.vby >> g.ha >> g.va;
            long c;
            while (l >> c) r.map[c] = r.glyphs.size();
            r.glyphs.push_back(g);
        }
        ++stage;
    }
    png::decode(png, r.image);
    return r;
}
inline const Ref& real() { static const Ref r = parse(slurp(dir() + "/fallback-font.txt"), slurp(dir() + "/fallback-font.png")); return r; }

inline font::Loader& loader()
{
    static std::unique_ptr<font::Loader> l = [] {
        font::Loader::Config c;
        c.logger = &log::Logger::get_null();
        return font::loader_fallback_impl().new_loader(std::filesystem::path(dir()), std::locale::classic(), c);
    }();
    return *l;
}

// What the state of a face is supposed to be
struct State {
    std::size_t glyph = 0;
    double tx = 0, ty = 0;
    image::Pos target = { 0, 0 };
    int left() const { return int(std::round(tx)); }
    int bottom() const { return int(std::round(ty)); }
};
inline void check_face(mc::Ctx& x, font::Face& f, const Ref& r)
{
    MC_CHECK(x, f.get_family_name() == r.family, "wrong family: ", mc::esc(std::string(f.get_family_name())));
    MC_CHECK(x, f.is_bold() == bool(r.bold) && f.is_italic() == bool(r.italic) && f.is_monospace() == bool(r.mono) && !f.is_scalable(), "wrong style");
    MC_CHECK(x, f.get_num_fixed_sizes() == 1 && f.get_fixed_size(0).width == r.rw && f.get_fixed_size(0).height == r.rh, "wrong fixed size");
    MC_CHECK(x, f.get_size().width == r.rw && f.get_size().height == r.rh, "wrong size");
    for (bool g : { false, true })
        MC_CHECK(x, f.get_baseline_offset(false, g) == r.hoff && f.get_baseline_spacing(false, g) == r.hspace && f.get_baseline_offset(true, g) == r.voff && f.get_baseline_spacing(true, g) == r.vspace, "wrong baseline");
}
inline void check_glyph(mc::Ctx& x, font::Face& f, const Ref& r, const State& s)
{
    auto& g = r.glyphs[s.glyph];
    MC_CHECK(x, f.get_glyph_advance(false) == g.ha && f.get_glyph_advance(true) == g.va, "wrong advance of glyph ", s.glyph);
    auto h = f.get_glyph_bearing(false), v = f.get_glyph_bearing(true);
    MC_CHECK(x, h[0] == g.hbx && h[1] == g.hby && v[0] == g.vbx && v[1] == g.vby, "wrong bearing of glyph ", s.glyph);
    int a = -1, b = -1, c = -1, d = -1;
    f.get_glyph_pa_box(a, b, c, d);
    MC_CHECK(x, a == s.left() && b == s.left() + g.w && c == s.bottom() && d == s.bottom() + g.h, "wrong box of glyph ", s.glyph, ": ", a, " ", b, " ", c, " ", d);
    MC_CHECK(x, f.get_glyph_pa_size() == image::Size(g.w, g.h), "wrong size of glyph ", s.glyph);
    image::Box t = f.get_target_glyph_box();
    MC_CHECK(x, t.pos.x == s.target.x + s.left() && t.pos.y == s.target.y - (s.bottom() + g.h) && t.size == image::Size(g.w, g.h), "wrong target box of glyph ", s.glyph);
}
// Render into memory with guards
inline void check_render(mc::Ctx& x, font::Face& f, const Ref& r, const State& s, image::Size size, int layout)
{
    auto& g = r.glyphs[s.glyph];
    int w = size.width, h = size.height;
    std::vector<std::uint8_t> got, want;
    std::ptrdiff_t hs, vs, off;
    switch (layout) {
        case 0: hs = 1; vs = w + 1; off = 2; break;
        case 1: hs = -2; vs = -(2 * w + 3); off = 0; break;
        default: hs = h + 2; vs = 1; off = 1; break;
    }
    std::size_t n = std::size_t(std::abs(hs) * w + std::abs(vs) * h + 8);
    if (layout == 1) off = std::ptrdiff_t(n) - 3;
    got.resize(n);
    for (std::size_t i = 0; i < n; ++i) got[i] = std::uint8_t(i * 7 + 1);
    want = got;
    int px = s.target.x + s.left(), py = s.target.y - s.bottom() - g.h;
    for (int j = 0; j < g.h; ++j) for (int i = 0; i < g.w; ++i) {
        int xx = px + i, yy = py + j;
        if (xx >= 0 && xx < w && yy >= 0 && yy < h) want[std::size_t(off + xx * hs + yy * vs)] = std::uint8_t(r.mask(s.glyph, i, j));
    }
    f.render_glyph_mask_a({ reinterpret_cast<image::int8_type*>(got.data()) + off, hs, vs }, size);
    MC_CHECK(x, got == want, "wrong pixels for glyph ", s.glyph, " at ", px, ",", py, " in tray of size ", w, "x", h, " with layout ", layout);
}

} // namespace fnt
