// C42: metrics and rendering of the fallback font against an independent reading of its
// specification and its image
#include "C42_font.hpp"

namespace {

using namespace fnt;

mc::Scenario s1("metrics", 8, [](mc::Ctx& x) {
    auto& r = real();
    auto f = loader().load_default_face();
    check_face(x, *f, r);
    check_glyph(x, *f, r, {});
    int part = x.choose(8);
    x.shard_point();
    // All characters
    for (long c = part * 0x22000; c < (part + 1) * 0x22000; ++c) {
        auto i = r.map.find(c);
        std::size_t want = i == r.map.end() ? 0 : i->second;
        MC_CHECK(x, f->find_glyph(wchar_t(c)) == want, "wrong glyph for character ", c);
    }
    for (long c : { -1l, -2l, 0x7FFFFFFFl, -0x7FFFFFFFl - 1, 0x10FFFFl, 0x110000l }) MC_CHECK(x, f->find_glyph(wchar_t(c)) == 0, "glyph for odd character");
    x.eval(0x22000);
    for (std::size_t g = std::size_t(part); g < r.glyphs.size(); g += 8) {
        State s;
        s.glyph = g;
        f->load_glyph(g, g % 2);
        check_glyph(x, *f, r, s);
        for (std::size_t k = 0; k < r.glyphs.size(); ++k) MC_CHECK(x, f->get_kerning(g, k) == 0, "kerning");
        f->translate_glyph({ 3, -2 });
        s.tx = 3; s.ty = -2;
        check_glyph(x, *f, r, s);
        x.eval(r.glyphs.size());
    }
});

// All glyphs at all offsets from a tray
mc::Scenario s2("render-offsets", 32, [](mc::Ctx& x) {
    auto& r = real();
    std::size_t g = std::size_t(x.range(0, int(r.glyphs.size()) - 1));
    if (!x.thorough && g % 4 != 0 && g != 1 && g != 2) return;
    x.shard_point();
    auto f = loader().load_default_face();
    State s;
    s.glyph = g;
    auto& gl = r.glyphs[g];
    f->load_glyph(g);
    image::Size sizes[] = { { 3, 2 }, { 1, 1 }, { 12, 14 }, { 0, 4 }, { 5, 0 } };
    for (auto size : sizes) for (int layout = 0; layout < 3; ++layout)
        for (int tx = -gl.w - 1; tx <= size.width + 1; ++tx) for (int ty = -1; ty <= size.height + gl.h + 1; ++ty) {
            s.target = { tx, ty };
            f->set_target_pos(s.target);
            check_render(x, *f, r, s, size, layout);
            x.eval(1);
        }
});

// Far away positions: nothing is rendered, or the position is reported as being out of range
mc::Scenario s3("far-positions", 1, [](mc::Ctx& x) {
    auto& r = real();
    int lim[] = { INT_MIN, INT_MIN + 1, INT_MIN + 12, -100000, 100000, INT_MAX - 12, INT_MAX - 1, INT_MAX, 5 };
    int tx = lim[x.choose(9)], ty = lim[x.choose(9)];
    if (tx == 5 && ty == 5) return;
    double dx = x.pick({ 0, -3, 40 }), dy = x.pick({ 0, -7, 1000 });
    std::size_t g = std::size_t(x.pick({ 0, 1, 30, 60 }));
    bool writer = x.choose(2);
    auto f = loader().load_default_face();
    f->load_glyph(g);
    f->translate_glyph({ dx, dy });
    f->set_target_pos({ tx, ty });
    std::vector<image::int8_type> mem(8 * 8, 77);
    image::BufferedImage_Lum_8 im(image::Size(8, 8));
    bool threw = false;
    try {
        if (!writer) f->render_glyph_mask_a({ mem.data(), 1, 8 }, { 8, 8 });
        else { image::Writer w(im); w.set_foreground_color(util::colors::white); f->render_glyph_mask(w); }
    }
    catch (std::overflow_error&) { threw = true; }
    for (auto v : mem) MC_CHECK(x, v == 77, "pixels written for far away glyph");
    for (auto v : im.get_buffer()) MC_CHECK(x, int(v) == 0, "pixels written for far away glyph");
    double px = double(tx) + dx, py = double(ty) - dy - r.glyphs[g].h;
    bool fits = px >= INT_MIN && px + 16 <= INT_MAX && py >= INT_MIN && py + 16 <= INT_MAX && std::abs(double(tx)) < INT_MAX - 2000 && std::abs(double(ty)) < INT_MAX - 2000;
    MC_CHECK(x, !(fits && threw), "spurious overflow error");
    x.outcome(threw);
});

// Histories of operations on two faces of same loader
mc::Scenario s4("histories", 64, [](mc::Ctx& x) {
    auto& r = real();
    struct { std::unique_ptr<font::Face> f; State s; } face[2];
    for (auto& a : face) a.f = loader().load_default_face();
    int depth = x.thorough ? 5 : 4;
    int len = 0;
    image::Size size(20, 18);
    image::BufferedImage_RGBA_8 im(size), ref(size);
    image::Writer w(im), w2(ref);
    auto bg = x.choose(2) ? util::Color(0, 0, 0, 0) : util::Color(10, 200, 60, 255);
    bool blend = x.choose(2);
    for (auto* v : { &w, &w2 }) { v->set_background_color(util::colors::yellow); v->fill(); v->set_foreground_color(util::colors::red); v->set_background_color(bg); v->set_blending_enabled(blend); }
    int cur = 0;
    for (; len < depth; ++len) {
        int op = x.choose(14);
        if (len == 1) x.shard_point();
        auto& a = face[cur];
        auto load = [&](std::size_t g) { a.f->load_glyph(g); a.s.glyph = g; a.s.tx = a.s.ty = 0; };
        auto move = [&](double dx, double dy) { a.f->translate_glyph({ dx, dy }); a.s.tx += dx; a.s.ty += dy; };
        auto aim = [&](int tx, int ty) { a.s.target = { tx, ty }; a.f->set_target_pos(a.s.target); };
        switch (op) {
            case 0: load(a.f->find_glyph(L'W')); break;
            case 1: load(a.f->find_glyph(L'.')); break;
            case 2: load(a.f->find_glyph(wchar_t(0x7FFF))); MC_CHECK(x, a.s.glyph == 0, "not the replacement glyph"); break;
            case 3: move(0.4, 0.3); break;
            case 4: move(-2.6, 1.5); break;
            case 5: move(3, -4); break;
            case 6: aim(2, 15); break;
            case 7: aim(17, 3); break;
            case 8: aim(-3, 20); break;
            case 9: cur = 1 - cur; break;
            case 10: check_render(x, *a.f, r, a.s, size, 1); break;
            case 11: {
                auto& g = r.glyphs[a.s.glyph];
                std::vector<image::int8_type> mask;
                for (int j = 0; j < g.h; ++j) for (int i = 0; i < g.w; ++i) mask.push_back(image::int8_type(r.mask(a.s.glyph, i, j)));
                a.f->render_glyph_mask(w);
                w2.put_block_mask({ a.s.target.x + a.s.left(), a.s.target.y - a.s.bottom() - g.h }, { { mask.data(), 1, g.w }, { g.w, g.h } });
                break;
            }
            case 12: {
                int threw = 0;
                try { a.f->load_glyph(r.glyphs.size()); } catch (std::out_of_range&) { ++threw; }
                try { a.f->set_fixed_size(1); } catch (std::out_of_range&) { ++threw; }
                try { a.f->set_fixed_size(-1); } catch (std::out_of_range&) { ++threw; }
                try { a.f->get_fixed_size(1); } catch (std::out_of_range&) { ++threw; }
                try { a.f->set_scaled_size(20); } catch (std::exception&) { ++threw; }
                MC_CHECK(x, threw == 5, "missing exception");
                break;
            }
            default:
                a.f->set_approx_size({ 30, 2 });
                a.f->set_fixed_size(0);
                a.f->get_target_glyph_box();
        }
        x.step();
        MC_TRACE(x, "op ", op, " face ", cur);
    }
    for (auto& a : face) { check_glyph(x, *a.f, r, a.s); check_render(x, *a.f, r, a.s, size, 0); check_face(x, *a.f, r); }
    auto b1 = im.get_buffer(), b2 = ref.get_buffer();
    MC_CHECK(x, std::equal(b1.begin(), b1.end(), b2.begin(), b2.end()), "image is not as predicted");
    std::uint64_t h = 0;
    for (auto v : b1) h = mc::mix(h, std::uint64_t(v));
    x.state(mc::mix(h, mc::mix(face[0].s.glyph * 1000 + face[1].s.glyph, std::uint64_t(face[0].s.left() * 77 + face[0].s.bottom() * 7 + face[0].s.target.x))));
});

// Lines of text: placement of glyphs by way of bearing and advance
mc::Scenario s5("text", 32, [](mc::Ctx& x) {
    auto& r = real();
    bool vertical = x.choose(2);
    static const wchar_t chars[] = { L'A', L'g', L' ', L'"', L'_', wchar_t(0x3B1), wchar_t(0x2603) };
    int len = x.range(0, x.thorough ? 4 : 3);
    std::vector<wchar_t> text;
    for (int i = 0; i < len; ++i) { text.push_back(chars[x.choose(7)]); if (i == 0) x.shard_point(); }
    if (len == 0) x.shard_point();
    auto f = loader().load_default_face();
    int w = vertical ? 16 : 8 * len + 4, h = vertical ? 16 * len + 4 : 16;
    std::vector<std::uint8_t> got(std::size_t(w * h)), want = got;
    double px = vertical ? f->get_baseline_offset(true) : 2, py = vertical ? 2 : h - f->get_baseline_offset(false);
    double qx = vertical ? r.voff : 2, qy = vertical ? 2 : h - r.hoff;
    for (wchar_t c : text) {
        f->load_glyph(f->find_glyph(c));
        auto b = f->get_glyph_bearing(vertical);
        f->translate_glyph(-b);
        f->set_target_pos({ int(px), int(py) });
        f->render_glyph_mask_a({ reinterpret_cast<image::int8_type*>(got.data()), 1, w }, { w, h });
        (vertical ? py : px) += f->get_glyph_advance(vertical);
        auto i = r.map.find(c);
        auto g = i == r.map.end() ? 0 : i->second;
        auto& gl = r.glyphs[g];
        int lx = int(qx) - (vertical ? gl.vbx : gl.hbx), ly = int(qy) + (vertical ? gl.vby : gl.hby) - gl.h;
        for (int jj = 0; jj < gl.h; ++jj) for (int ii = 0; ii < gl.w; ++ii) if (lx + ii >= 0 && lx + ii < w && ly + jj >= 0 && ly + jj < h) want[std::size_t((ly + jj) * w + lx + ii)] = std::uint8_t(r.mask(g, ii, jj));
        (vertical ? qy : qx) += vertical ? gl.va : gl.ha;
    }
    MC_CHECK(x, got == want, "text is not rendered as predicted");
    x.outcome(mc::hash_bytes(got.data(), got.size()));
});

// Base class: a face that writes only some of the pixels of a glyph
struct Sparse final : font::Face {
    int w = 0, h = 0, left = 0, bottom = 0, seed = 0;
    bool leak = false;
    auto get_family_name() -> std::string_view override { return {}; }
    bool is_bold() noexcept override { return false; }
    bool is_italic() noexcept override { return false; }
    bool is_monospace() noexcept override { return false; }
    bool is_scalable() noexcept override { return true; }
    int get_num_fixed_sizes() override { return 0; }
    auto get_fixed_size(int) -> font::Size override { return {}; }
    void set_fixed_size(int) override {}
    void set_scaled_size(font::Size) override {}
    void set_approx_size(font::Size) override {}
    auto get_size() noexcept -> font::Size override { return {}; }
    auto get_baseline_spacing(bool, bool) noexcept -> float_type override { return 0; }
    auto get_baseline_offset(bool, bool) noexcept -> float_type override { return 0; }
    auto find_glyph(char_type) -> std::size_t override { return 0; }
    auto get_kerning(std::size_t, std::size_t, bool, bool) -> float_type override { return 0; }
    void load_glyph(std::size_t, bool) override {}
    auto get_glyph_advance(bool) noexcept -> float_type override { return 0; }
    auto get_glyph_bearing(bool) noexcept -> vector_type override { return {}; }
    void translate_glyph(vector_type) override {}
    int at(int i, int j) const { return (i + j * 3 + seed) % 3 == 0 ? (i * 50 + j * 90 + seed * 17 + 1) % 256 : 0; }
    void do_get_glyph_pa_box(int& l, int& r, int& b, int& t) override { l = left; r = left + w; b = bottom; t = bottom + h; }
    void do_render_glyph_mask(image::Pos pos, const iter_type& it, image::Size size) override
    {
        for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) {
            int xx = pos.x + left + i, yy = pos.y - bottom - h + j;
            if (xx < 0 || xx >= size.width || yy < 0 || yy >= size.height) leak = true;
            else if (at(i, j)) *it(xx, yy) = image::int8_type(at(i, j));
        }
    }
    void do_render_glyph_rgba(image::Pos pos, const iter_type& it, image::Size size) override
    {
        for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) for (int c = 0; c < 4; ++c) {
            int xx = pos.x + left + i, yy = pos.y - bottom - h + j;
            if (xx < 0 || xx >= size.width || yy < 0 || yy >= size.height) leak = true;
            else it(xx, yy)[c] = image::int8_type(at(i, j) + c);
        }
    }
};
mc::Scenario s6("base-class", 16, [](mc::Ctx& x) {
    Sparse f;
    image::Size size(6, 5);
    image::BufferedImage_RGBA_8 im(size), ref(size);
    image::Writer w(im), w2(ref);
    for (auto* v : { &w, &w2 }) { v->set_foreground_color(util::colors::red); v->set_background_color(util::colors::yellow); }
    int n = x.range(1, x.thorough ? 3 : 2);
    for (int k = 0; k < n; ++k) {
        int shape = x.choose(5);
        static const int shapes[][4] = { { 3, 4, 0, 0 }, { 5, 2, -2, 1 }, { 0, 3, 1, 1 }, { 1, 1, 2, -3 }, { 4, 5, -1, -1 } };
        f.w = shapes[shape][0]; f.h = shapes[shape][1]; f.left = shapes[shape][2]; f.bottom = shapes[shape][3];
        f.seed = k + shape;
        image::Pos target = { x.pick({ -2, 1, 4 }), x.pick({ 0, 3, 7 }) };
        bool rgba = x.choose(2);
        if (k == 0) x.shard_point();
        f.set_target_pos(target);
        image::Pos pos = { target.x + f.left, target.y - f.bottom - f.h };
        std::vector<image::int8_type> m;
        for (int j = 0; j < f.h; ++j) for (int i = 0; i < f.w; ++i) for (int c = 0; c < (rgba ? 4 : 1); ++c) m.push_back(image::int8_type(f.at(i, j) + (rgba ? c : 0)));
        if (rgba) { f.render_glyph_rgba(w); w2.put_block_rgba(pos, { { m.data(), 4, 4 * f.w }, { f.w, f.h } }); }
        else { f.render_glyph_mask(w); w2.put_block_mask(pos, { { m.data(), 1, f.w }, { f.w, f.h } }); }
        MC_CHECK(x, !f.leak, "face was given a tray that is too small");
        auto b1 = im.get_buffer(), b2 = ref.get_buffer();
        MC_CHECK(x, std::equal(b1.begin(), b1.end(), b2.begin(), b2.end()), "image is not as predicted");
    }
});

} // namespace
