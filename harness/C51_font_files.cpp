// C51: reading and regeneration of the files of the fallback font
#include "C42_font.hpp"

namespace {

using namespace fnt;

// ---- Specification files ----
struct Env {
    fakefs::FS fs;
    Env() { fakefs::fs = &fs; }
    ~Env() { fakefs::fs = nullptr; }
};
png::File picture(int w, int h)
{
    png::File f;
    f.w = w; f.h = h; f.type = PNG_COLOR_TYPE_GRAY;
    for (int i = 0; i < w * h; ++i) f.samples.push_back((i * 53 + 9) % 256);
    return f;
}
std::unique_ptr<font::Face> try_face(mc::Ctx&, font::Loader& l)
{
    try { return l.load_default_face(); } catch (std::runtime_error&) { return nullptr; }
}

mc::Scenario s6("spec-files", 16, [](mc::Ctx& x) {
    Env env;
    std::vector<std::string> lines = { "Some Font", "65-67 70", "6 5 1 0 1 7.5 9 2 11 3 12", "0 0 2 3 1 -1 2 -2 4 5", "2 1 4 4 0 0 -3 1 6 7 65 66", "5 4 1 1 0 0 0 0 0 0 67", "6 5 0 0 1 1 1 1 1 1 70" };
    // One deviation at a time
    int which = x.range(0, 33);
    x.shard_point();
    int ok = 1, bad_line = 0;
    auto set = [&](int line, const char* text, int good) { lines[std::size_t(line)] = text; ok = good; bad_line = line + 1; };
    switch (which) {
        case 0: break;
        case 1: for (auto& l : lines) l = "  " + l + " # remark"; break;
        case 2: for (auto& l : lines) l = "# remark\n\n" + l + "#"; break;
        case 3: set(1, "65-67 67", 0); break;
        case 4: set(1, "70 65-67", 0); break;
        case 5: set(1, "67-65", 0); break;
        case 6: set(1, "65- 66", 0); break;
        case 7: set(1, "65 x", 0); break;
        case 8: set(1, "65-66 67-67 68", 1); break;
        case 9: set(1, "-65", 0); break;
        case 10: set(2, "6 5 1 0 1 7.5 9 2 11 3", 0); break;
        case 11: set(2, "6 5 1 0 1 7.5 9 2 11 3 12 1", 0); break;
        case 12: set(2, "6 5 2 0 1 7.5 9 2 11 3 12", 0); break;
        case 13: set(2, "6 5 1 0 1 7.5. 9 2 11 3 12", 0); break;
        case 14: set(2, "6 5 1 0 1 7.5 9 2 11.5 3 12", 0); break;
        case 15: set(2, "7 5 1 0 1 7.5 9 2 11 3 12", 0); bad_line = 0; break; // does not agree with image
        case 16: set(2, "6 4 1 0 1 7.5 9 2 11 3 12", 0); bad_line = 0; lines.resize(4); break;
        case 17: set(3, "0 0 2 3 1 -1 2 -2 4", 0); break;
        case 18: set(3, "0 0 2 3 1 -1 2 -2 4 5 64", 0); break; // replacement glyph has no code point
        case 19: set(4, "2 1 4 4 0 0 -3 1 6 7", 0); break;
        case 20: set(4, "3 1 4 4 0 0 -3 1 6 7 65", 0); break;
        case 21: set(4, "2 2 4 4 0 0 -3 1 6 7 65", 0); break;
        case 22: set(4, "-1 1 4 4 0 0 -3 1 6 7 65", 0); break;
        case 23: set(4, "2 1 4 -4 0 0 -3 1 6 7 65", 0); break;
        case 24: set(4, "2 1 4 4 0 0 -3 1 -1 7 65", 0); break;
        case 25: set(4, "2 1 4 4 0 0 -3 1 1 -7 65", 0); break;
        case 26: set(4, "2 1 4 4 0 0 -3 1 6 7 65 65", 0); break;
        case 27: set(4, "2 1 4 4 0 0 -3 1 6 7 65 67", 0); bad_line = 6; break;
        case 28: set(4, "2147483647 1 4 4 0 0 -3 1 6 7 65", 0); break;
        case 29: set(4, "2 1 4 4 0 0 -3 1 2147483648 7 65", 0); break;
        case 30: set(4, "2 1 4 4 0 0 -3 1 6 7 65 66 4294967295", 0); break;
        case 31: lines.resize(std::size_t(x.range(0, 3))); ok = 0; bad_line = -1; break;
        case 32: lines.resize(std::size_t(x.range(4, 6))); break;
        default: set(4, "", 1); lines.erase(lines.begin() + 4); break;
    }
    std::string spec;
    for (auto& l : lines) spec += l + "\n";
    if (x.choose(2) && !spec.empty()) spec.pop_back();
    std::string png = png::encode(picture(6, 5));
    int image = x.choose(4); // good, missing, damaged, no spec file
    if (image != 1) env.fs.add("fallback-font.png", image == 2 ? png.substr(0, png.size() / 2) : png);
    if (image != 3) env.fs.add("fallback-font.txt", spec);
    Log log;
    font::Loader::Config c;
    c.logger = &log;
    auto l = font::loader_fallback_impl().new_loader(std::filesystem::path("/mcfake"), std::locale::classic(), c);
    std::unique_ptr<font::Face> f;
    if (image == 3) {
        try { f = l->load_default_face(); MC_CHECK(x, false, "loaded without specification"); } catch (std::exception&) {}
    }
    else f = try_face(x, *l);
    MC_CHECK(x, bool(f) == (ok && image == 0), "case ", which, " image ", image, ": ", f ? "accepted" : "rejected", log.lines.empty() ? "" : log.lines.back());
    MC_CHECK(x, (log.errors() > 0) == (!f && image != 3), "case ", which, ": wrong number of errors logged: ", log.errors());
    if (bad_line > 0 && !ok && image != 3) {
        std::string where = "/fallback-font.txt:" + std::to_string(bad_line) + ":";
        MC_CHECK(x, log.errors() == 1 || bad_line <= 3, "case ", which, ": further errors");
        MC_CHECK(x, log.lines.at(0).find(where) != std::string::npos, "case ", which, ": wrong line number: ", log.lines.at(0));
    }
    if (!f) { // works when files are corrected
        spec = "F\n1\n6 5 0 0 0 1 1 0 0 0 0\n0 0 6 5 0 0 0 0 1 1";
        env.fs.add("fallback-font.png", png);
        env.fs.add("fallback-font.txt", spec);
        f = try_face(x, *l);
        MC_CHECK(x, f, "corrected font is not loaded");
    }
    Ref r = parse(spec, png);
    for (auto* p : { &r.family }) { while (!p->empty() && p->back() == ' ') p->pop_back(); while (!p->empty() && p->front() == ' ') p->erase(0, 1); }
    env.fs.files.clear(); // no longer needed
    auto f2 = l->load_default_face();
    for (auto* a : { f.get(), f2.get() }) {
        check_face(x, *a, r);
        for (long ch = 0; ch < 80; ++ch) MC_CHECK(x, a->find_glyph(wchar_t(ch)) == (r.map.count(ch) ? r.map[ch] : 0), "wrong glyph for character ", ch);
        for (std::size_t g = 0; g < r.glyphs.size(); ++g) {
            State s;
            s.glyph = g;
            s.target = { 1, 5 };
            a->load_glyph(g);
            a->set_target_pos(s.target);
            check_glyph(x, *a, r, s);
            check_render(x, *a, r, s, { 5, 6 }, 0);
        }
    }
    MC_CHECK(x, env.fs.open_count() == 0, "file not closed");
});

// ---- Regeneration from other font ----
struct Stub final : font::Face {
    struct Gl { int w, h, hbx, hby, vbx, vby, ha, va; };
    std::vector<Gl> glyphs;
    std::map<long, std::size_t> map;
    std::string family;
    int style = 0;
    font::Size size = { 12, 13 };
    std::size_t cur = 0;
    int approx = 0;
    auto get_family_name() -> std::string_view override { return family; }
    bool is_bold() noexcept override { return style & 1; }
    bool is_italic() noexcept override { return style & 2; }
    bool is_monospace() noexcept override { return style & 4; }
    bool is_scalable() noexcept override { return true; }
    int get_num_fixed_sizes() override { return 0; }
    auto get_fixed_size(int) -> font::Size override { throw std::out_of_range(""); }
    void set_fixed_size(int) override { throw std::out_of_range(""); }
    void set_scaled_size(font::Size s) override { size = s; }
    void set_approx_size(font::Size s) override { size = s; ++approx; }
    auto get_size() noexcept -> font::Size override { return size; }
    auto get_baseline_spacing(bool v, bool) noexcept -> float_type override { return v ? -1400 : 15; }
    auto get_baseline_offset(bool v, bool) noexcept -> float_type override { return v ? 5 : -4; }
    auto find_glyph(char_type c) -> std::size_t override { auto i = map.find(c); return i == map.end() ? 0 : i->second; }
    auto get_kerning(std::size_t, std::size_t, bool, bool) -> float_type override { return 3; }
    void load_glyph(std::size_t i, bool) override { cur = i; }
    auto get_glyph_advance(bool v) noexcept -> float_type override { return v ? glyphs[cur].va : glyphs[cur].ha; }
    auto get_glyph_bearing(bool v) noexcept -> vector_type override { auto& g = glyphs[cur]; return v ? vector_type(g.vbx, g.vby) : vector_type(g.hbx, g.hby); }
    void translate_glyph(vector_type) override { std::abort(); }
    int mask(std::size_t g, int i, int j) const { return int((g * 71 + std::size_t(i) * 13 + std::size_t(j) * 29 + 100) % 256); }
protected:
    void do_get_glyph_pa_box(int& l, int& r, int& b, int& t) override { l = b = 0; r = glyphs[cur].w; t = glyphs[cur].h; }
    void do_render_glyph_mask(image::Pos pos, const iter_type& it, image::Size size) override
    {
        auto& g = glyphs[cur];
        for (int j = 0; j < g.h; ++j) for (int i = 0; i < g.w; ++i) {
            int xx = pos.x + i, yy = pos.y - g.h + j;
            if (xx >= 0 && xx < size.width && yy >= 0 && yy < size.height) *it(xx, yy) = image::int8_type(mask(cur, i, j));
            else std::abort();
        }
    }
    void do_render_glyph_rgba(image::Pos, const iter_type&, image::Size) override { std::abort(); }
};
struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
};

mc::Scenario s7("regenerate", 32, [](mc::Ctx& x) {
    Env env;
    Stub s;
    int fam = x.choose(4);
    s.family = fam == 0 ? "Stub Sans" : fam == 1 ? "A" : fam == 2 ? "" : "Stub #1";
    s.style = x.choose(8);
    bool odd_locale = x.choose(2);
    std::locale loc = odd_locale ? std::locale(std::locale::classic(), new Punct) : std::locale::classic();
    int shape = x.choose(5), coverage = x.choose(4), ranges = x.choose(5), keep = x.choose(2), old = x.choose(3), sz = x.choose(3);
    x.shard_point();
    const font::Size sizes[] = { { 12, 13 }, { 7.5, 8.25 }, { 1200, 1000.5 } };
    s.size = sizes[sz];
    for (int i = 0; i < 9; ++i) switch (shape) {
        case 0: s.glyphs.push_back({ 3, 4, i, -i, -2 * i, i, 4, 5 }); break;
        case 1: s.glyphs.push_back({ 1 + i % 4, 7 - i % 3, -1, 0, 2, 3, i, 0 }); break;
        case 2: s.glyphs.push_back({ i % 2 ? 0 : 2, i % 3 ? 3 : 5, 0, 0, 0, 0, 0, i }); break;
        case 3: s.glyphs.push_back({ 1, 1 + i % 2 * 20, 1000, -1000, 1, 1, 12345, 1 }); break;
        default: s.glyphs.push_back({ i == 0 ? 2 : 0, i == 0 ? 1 : 0, 1, 2, 3, 4, 5, 6 });
    }
    for (long c = 0; c < 300; ++c) switch (coverage) {
        case 0: if (c >= 60 && c < 68) s.map[c] = std::size_t(c - 59); break;
        case 1: if (c % 7 == 3) s.map[c] = std::size_t(1 + c % 3); break; // several characters per glyph
        case 2: break; // nothing
        default: s.map[c] = std::size_t(8 - c % 9);
    }
    auto cp = [](int c) { font::CodePoint p; p.try_from_int(std::wint_t(c)); return p; };
    std::vector<font::CodePointRange> rs;
    std::vector<std::pair<int, int>> plain;
    switch (ranges) {
        case 0: plain = { { 0, 299 } }; break;
        case 1: plain = { { 60, 60 }, { 62, 64 }, { 66, 70 } }; break;
        case 2: plain = { { 63, 63 } }; break;
        case 3: plain = { { 10, 64 }, { 290, 310 } }; break;
        default: break; // that of existing font
    }
    for (auto p : plain) rs.push_back({ cp(p.first), cp(p.second) });
    if (old == 1) env.fs.add("fallback-font.txt", "Old\n61-63 65\n4 4 0 0 0 22.5 21 1 1 1 1\n0 0 1 1 0 0 0 0 0 0\n");
    if (old == 2) env.fs.add("fallback-font.txt", "Old\n61-63 65\n4 4 0 0 0 22.5\n0 0 1 1 0 0 0 0 0 0\n");
    bool read_old = plain.empty() || keep;
    if (old == 0 && read_old) return; // missing file
    if (plain.empty()) plain = old == 1 ? std::vector<std::pair<int, int>> { { 61, 63 }, { 65, 65 } } : std::vector<std::pair<int, int>> { { 0, 127 } };
    if (x.tracing) MC_TRACE(x, "shape ", shape, " coverage ", coverage, " ranges ", ranges, " keep ", keep, " old ", old, " size ", sz, " locale ", odd_locale);
    font::Loader::Config c;
    Log log;
    c.logger = &log;
    font::regen_fallback_font(s, keep, rs, std::filesystem::path("/mcfake"), loc, c);
    MC_CHECK(x, log.errors() == 0, "errors");
    MC_CHECK(x, s.approx == (keep && old == 1), "size of old font is ", s.approx ? "" : "not ", "used");
    if (keep && old == 1) MC_CHECK(x, s.size.width == 22.5 && s.size.height == 21, "wrong size");
    auto& files = env.fs.files;
    MC_CHECK(x, files.count("/mcfake/fallback-font-new.txt") && files.count("/mcfake/fallback-font-new.png") && files.size() == (old ? 3 : 2), "wrong set of files");
    MC_CHECK(x, !old || files["/mcfake/fallback-font.txt"]->data.substr(0, 3) == "Old", "old font modified");
    std::string spec = files["/mcfake/fallback-font-new.txt"]->data;
    env.fs.add("fallback-font.txt", spec);
    env.fs.add("fallback-font.png", files["/mcfake/fallback-font-new.png"]->data);
    auto l = font::loader_fallback_impl().new_loader(std::filesystem::path("/mcfake"), loc, c);
    auto f = try_face(x, *l);
    if (fam >= 2) { // not representable
        if (!f || f->get_family_name() != s.family) x.fail_keyed(fam == 2 ? "empty-family-name" : "hash-in-family-name", mc::str("fallback font regenerated from font with family name ", mc::esc(s.family), f ? " has family name " + mc::esc(std::string(f->get_family_name())) : " cannot be loaded"));
        return;
    }
    MC_CHECK(x, f, "new font cannot be loaded: ", log.lines.back());
    MC_CHECK(x, f->get_family_name() == s.family && f->is_bold() == s.is_bold() && f->is_italic() == s.is_italic() && f->is_monospace() == s.is_monospace(), "wrong style");
    MC_CHECK(x, f->get_size().width == s.size.width && f->get_size().height == s.size.height, "wrong size");
    for (bool v : { false, true }) MC_CHECK(x, f->get_baseline_offset(v) == s.get_baseline_offset(v, true) && f->get_baseline_spacing(v) == s.get_baseline_spacing(v, true), "wrong baseline");
    std::map<std::size_t, std::size_t> seen;
    for (int ch = 0; ch < 320; ++ch) {
        bool in = false;
        for (auto p : plain) in = in || (ch >= p.first && ch <= p.second);
        std::size_t want = in ? s.find_glyph(wchar_t(ch)) : 0;
        std::size_t g = f->find_glyph(wchar_t(ch));
        auto it = seen.find(want);
        if (it != seen.end()) { MC_CHECK(x, it->second == g, "character ", ch, " has different glyph"); continue; }
        seen[want] = g;
        MC_CHECK(x, (want == 0) == (g == 0), "character ", ch, (want ? " is missing" : " should be missing"));
        auto& gl = s.glyphs[want];
        f->load_glyph(g);
        auto hb = f->get_glyph_bearing(false), vb = f->get_glyph_bearing(true);
        MC_CHECK(x, f->get_glyph_pa_size() == image::Size(gl.w, gl.h) && hb[0] == gl.hbx && hb[1] == gl.hby && vb[0] == gl.vbx && vb[1] == gl.vby && f->get_glyph_advance(false) == gl.ha && f->get_glyph_advance(true) == gl.va, "wrong metrics for character ", ch);
        std::vector<image::int8_type> m(std::size_t(gl.w * gl.h));
        f->set_target_pos({ 0, gl.h });
        f->render_glyph_mask_a({ m.data(), 1, gl.w }, { gl.w, gl.h });
        for (int j = 0; j < gl.h; ++j) for (int i = 0; i < gl.w; ++i) MC_CHECK(x, int(std::uint8_t(m[std::size_t(j * gl.w + i)])) == s.mask(want, i, j), "wrong pixels for character ", ch, " at ", i, ",", j, ": ", int(std::uint8_t(m[std::size_t(j * gl.w + i)])), " vs ", s.mask(want, i, j));
    }
    MC_CHECK(x, env.fs.open_count() == 0, "file not closed");
});

} // namespace
