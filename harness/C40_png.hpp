// C40: helpers for PNG files; encoding and decoding of raw samples by way of plain libpng
#pragma once
#include <cmath>
#include <csetjmp>
#include <cstring>
#include <functional>
#include <map>
#include <optional>
#include <thread>
#include "img.hpp"
#include <png.h>
#include <zlib.h>
#include <archon/core/source.hpp>
#include <archon/core/sink.hpp>
#include <archon/log.hpp>
#include <archon/image/error.hpp>
#include <archon/image/file_format.hpp>
#include <archon/image/file_format_png.hpp>
#include <archon/image/progress_tracker.hpp>

namespace png {

using img::Kind; using img::Raw; using img::Repr; using img::Tag;

struct File {               // what is in a PNG file
    int w = 0, h = 0;
    int depth = 8, type = PNG_COLOR_TYPE_RGB;
    bool adam7 = false;
    std::vector<int> samples;           // w * h * channels
    std::vector<std::array<int, 3>> palette;
    std::vector<int> palette_alpha;
    std::optional<std::array<int, 3>> key;
    bool extras = false;                // add ancillary chunks
    int buffer = 0;                     // size of IDAT chunks
    int channels() const { return type == PNG_COLOR_TYPE_GRAY || type == PNG_COLOR_TYPE_PALETTE ? 1 : type == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : type == PNG_COLOR_TYPE_RGB ? 3 : 4; }
    int max() const { return (1 << depth) - 1; }
    int at(int x, int y, int c) const { return samples[std::size_t((y * w + x) * channels() + c)]; }
};

inline void stop(png_structp p, png_const_charp) { std::longjmp(png_jmpbuf(p), 1); }
inline void ignore(png_structp, png_const_charp) {}

// Strict decoding of all samples; returns false if libpng is dissatisfied
inline bool decode(const std::string& data, File& f)
{
    struct In { const std::string* s; std::size_t pos; } in { &data, 0 };
    png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, stop, stop);
    png_infop i = png_create_info_struct(p);
    if (setjmp(png_jmpbuf(p))) { png_destroy_read_struct(&p, &i, nullptr); return false; }
    png_set_read_fn(p, &in, [](png_structp q, png_bytep d, std::size_t n) {
        In& in = *static_cast<In*>(png_get_io_ptr(q));
        if (in.s->size() - in.pos < n) png_error(q, "short");
        std::memcpy(d, in.s->data() + in.pos, n); in.pos += n;
    });
    png_read_png(p, i, PNG_TRANSFORM_PACKING, nullptr);
    f = {};
    f.w = int(png_get_image_width(p, i)); f.h = int(png_get_image_height(p, i));
    f.type = png_get_color_type(p, i);
    f.adam7 = data[28] == 1;
    f.depth = std::uint8_t(data[24]);
    png_bytepp rows = png_get_rows(p, i);
    for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w * f.channels(); ++x) f.samples.push_back(f.depth == 16 ? rows[y][2 * x] * 256 + rows[y][2 * x + 1] : rows[y][x]);
    png_destroy_read_struct(&p, &i, nullptr);
    return in.pos == data.size();
}

inline std::string encode(const File& f)
{
    std::string out;
    std::vector<std::string> rows;
    for (int y = 0; y < f.h; ++y) {
        std::string r;
        for (int x = 0; x < f.w * f.channels(); ++x) {
            int v = f.samples[std::size_t(y * f.w * f.channels() + x)];
            if (f.depth == 16) r.push_back(char(v >> 8));
            r.push_back(char(v));
        }
        rows.push_back(r);
    }
    std::vector<png_bytep> ptrs;
    for (auto& r : rows) ptrs.push_back(reinterpret_cast<png_bytep>(r.data()));
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, stop, stop);
    png_infop i = png_create_info_struct(p);
    if (setjmp(png_jmpbuf(p))) { std::fprintf(stderr, "cannot encode\n"); std::abort(); }
    png_set_write_fn(p, &out, [](png_structp q, png_bytep d, std::size_t n) { static_cast<std::string*>(png_get_io_ptr(q))->append(reinterpret_cast<char*>(d), n); }, [](png_structp) {});
    png_set_IHDR(p, i, png_uint_32(f.w), png_uint_32(f.h), f.depth, f.type, f.adam7 ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    if (f.buffer) png_set_compression_buffer_size(p, std::size_t(f.buffer));
    std::vector<png_color> pal;
    for (auto& c : f.palette) pal.push_back({ png_byte(c[0]), png_byte(c[1]), png_byte(c[2]) });
    if (!pal.empty()) png_set_PLTE(p, i, pal.data(), int(pal.size()));
    std::vector<png_byte> alpha(f.palette_alpha.begin(), f.palette_alpha.end());
    if (!alpha.empty()) png_set_tRNS(p, i, alpha.data(), int(alpha.size()), nullptr);
    if (f.key) {
        png_color_16 c = {};
        c.red = png_uint_16((*f.key)[0]); c.green = png_uint_16((*f.key)[1]); c.blue = png_uint_16((*f.key)[2]); c.gray = c.red;
        png_set_tRNS(p, i, nullptr, 0, &c);
    }
    if (f.extras) {
        png_set_gAMA_fixed(p, i, 45455);
        png_set_pHYs(p, i, 3000, 4000, PNG_RESOLUTION_METER);
        png_color_16 bg = {}; png_set_bKGD(p, i, &bg);
        char key[] = "Title", text[] = "A picture";
        png_text t = {}; t.compression = PNG_TEXT_COMPRESSION_NONE; t.key = key; t.text = text; t.text_length = 9;
        png_set_text(p, i, &t, 1);
    }
    png_set_rows(p, i, ptrs.data());
    png_write_png(p, i, PNG_TRANSFORM_PACKING, nullptr);
    png_destroy_write_struct(&p, &i);
    return out;
}

inline Kind kind_of(const image::Image::TransferInfo& t)
{
    auto& s = *t.color_space;
    return { "image", s.is_lum() ? Tag::lum : s.is_rgb() ? Tag::rgb : Tag::degen, t.has_alpha, t.comp_repr };
}

// Native components of all pixels (of palette entries for indexed images)
inline std::vector<Raw> pixels(const image::Image& im)
{
    Kind k = kind_of(im.get_transfer_info());
    image::Size s = im.get_size();
    const image::Image* pal = im.get_palette();
    img::Mem m(pal ? Repr::int8 : k.repr, pal ? 1 : k.n(), s, 0);
    im.read({ 0, 0 }, { { m.ptr(0, 0, 0), m.hs, m.vs }, s });
    std::vector<Raw> entries, r;
    if (pal) entries = pixels(*pal);
    for (int y = 0; y < s.height; ++y) for (int x = 0; x < s.width; ++x) {
        Raw p = m.get(x, y);
        r.push_back(pal ? entries.at(std::size_t(p[0])) : p);
    }
    return r;
}

struct Tracker final : image::ProgressTracker {
    mc::Ctx& x;
    image::Size size;
    int calls = 0, last = 0, total = 0;
    int throw_at = 0;
    struct Stop {};
    Tracker(mc::Ctx& x_, image::Size s) : x(x_), size(s) {}
    void progress(const image::Image& im, int done, int tot) override
    {
        ++calls;
        MC_CHECK(x, im.get_size() == size, "progress tracker is given image of wrong size");
        MC_CHECK(x, tot > 0 && done <= tot && done >= 1, "progress ", done, " of ", tot);
        MC_CHECK(x, (total == 0 || (tot == total && done > last)), "progress went from ", last, " to ", done);
        last = done; total = tot;
        if (calls == throw_at) throw Stop();
    }
    void check_complete() const { MC_CHECK(x, calls > 0 && last == total, "last reported progress is ", last, " of ", total); }
};

struct Sink final : core::Sink {
    std::string data;
    int calls = 0, fail_at = 0;
    bool throws = false;
    struct Stop {};
    bool do_try_write(core::Span<const char> d, std::size_t& n, std::error_code& ec) override
    {
        if (++calls == fail_at) {
            if (throws) throw Stop();
            n = d.size() / 2; data.append(d.data(), n);
            ec = std::make_error_code(std::errc::no_space_on_device);
            return false;
        }
        data.append(d.data(), d.size()); n = d.size();
        return true;
    }
};

struct Source final : core::Source {
    std::string data;
    std::size_t pos = 0, chunk = 0;
    int calls = 0, fail_at = 0;
    bool throws = false;
    struct Stop {};
    explicit Source(std::string d) : data(std::move(d)) {}
    bool do_try_read_some(core::Span<char> d, std::size_t& n, std::error_code& ec) override
    {
        if (++calls == fail_at) {
            if (throws) throw Stop();
            ec = std::make_error_code(std::errc::io_error);
            return false;
        }
        n = std::min(d.size(), data.size() - pos);
        if (chunk) n = std::min(n, chunk);
        std::memcpy(d.data(), data.data() + pos, n); pos += n;
        return true;
    }
};

inline bool load(mc::Ctx& x, Source& s, std::unique_ptr<image::WritableImage>& im, std::error_code& ec, Tracker* t = nullptr, log::Logger& logger = log::Logger::get_null())
{
    image::FileFormat::LoadConfig c;
    c.tracker = t;
    auto f = image::get_file_format_png();
    MC_CHECK(x, f, "PNG not available");
    return f->try_load(s, im, std::locale::classic(), logger, c, ec);
}

inline bool save(mc::Ctx& x, const image::Image& im, Sink& s, bool adam7, std::error_code& ec, Tracker* t = nullptr, log::Logger& logger = log::Logger::get_null())
{
    image::FileFormat::SaveConfig c;
    c.tracker = t;
    image::PNGSaveConfig pc;
    pc.use_adam7_interlacing = adam7;
    image::FileFormat::SpecialSaveConfigRegistry reg;
    if (adam7) { reg.register_<const image::PNGSaveConfig>(pc); c.special = &reg; }
    auto f = image::get_file_format_png();
    MC_CHECK(x, f, "PNG not available");
    return f->try_save(im, s, std::locale::classic(), logger, c, ec);
}

// The image as it has to be after loading
inline void check_loaded(mc::Ctx& x, const File& f, const image::Image& im)
{
    bool rgb = f.type == PNG_COLOR_TYPE_PALETTE || f.type == PNG_COLOR_TYPE_RGB || f.type == PNG_COLOR_TYPE_RGB_ALPHA;
    bool keyed = f.key.has_value();
    bool alpha = f.type == PNG_COLOR_TYPE_GRAY_ALPHA || f.type == PNG_COLOR_TYPE_RGB_ALPHA || keyed || !f.palette_alpha.empty();
    int depth = f.type == PNG_COLOR_TYPE_PALETTE || (keyed && f.depth < 8) ? 8 : f.depth;
    auto info = im.get_transfer_info();
    MC_CHECK(x, (im.get_size() == image::Size(f.w, f.h)), "wrong image size");
    MC_CHECK(x, !im.get_palette(), "unexpected palette");
    MC_CHECK(x, (rgb ? info.color_space->is_rgb() : info.color_space->is_lum()), "wrong color space");
    MC_CHECK(x, info.has_alpha == alpha, "wrong presence of alpha");
    MC_CHECK(x, info.bit_depth == depth, "bit depth ", info.bit_depth, " instead of ", depth);
    MC_CHECK(x, info.comp_repr == (depth == 16 ? Repr::int16 : Repr::int8), "wrong component representation");
    auto px = pixels(im);
    double m = depth == 16 ? 65535 : 255;
    for (int y = 0; y < f.h; ++y) for (int xx = 0; xx < f.w; ++xx) {
        Raw e = {};
        int nc = rgb ? 3 : 1;
        if (f.type == PNG_COLOR_TYPE_PALETTE) {
            std::size_t j = std::size_t(f.at(xx, y, 0));
            for (std::size_t c = 0; c < 3; ++c) e[c] = f.palette[j][c];
            if (alpha) e[3] = j < f.palette_alpha.size() ? f.palette_alpha[j] : 255;
        }
        else {
            for (int c = 0; c < f.channels(); ++c) e[std::size_t(c)] = f.at(xx, y, c) * m / f.max();
            if (keyed) {
                bool match = true;
                for (int c = 0; c < nc; ++c) match = match && f.at(xx, y, c) == (*f.key)[std::size_t(c)];
                e[std::size_t(nc)] = match ? 0 : m;
            }
        }
        auto& g = px[std::size_t(y * f.w + xx)];
        if (g != e) MC_CHECK(x, false, "pixel ", xx, ",", y, " is ", g[0], ",", g[1], ",", g[2], ",", g[3], " instead of ", e[0], ",", e[1], ",", e[2], ",", e[3]);
    }
    x.eval(f.w * f.h);
}

// The file as it has to be after saving
inline void check_saved(mc::Ctx& x, const image::Image& im, const File& f, bool adam7)
{
    auto info = im.get_transfer_info();
    Kind k = kind_of(info);
    bool gray = k.cs == Tag::lum;
    int type = gray ? k.alpha ? PNG_COLOR_TYPE_GRAY_ALPHA : PNG_COLOR_TYPE_GRAY : k.alpha ? PNG_COLOR_TYPE_RGB_ALPHA : PNG_COLOR_TYPE_RGB;
    int d = info.bit_depth;
    int depth = d > 8 ? 16 : gray && !k.alpha && d <= 4 ? d <= 2 ? d : 4 : 8;
    MC_CHECK(x, (im.get_size() == image::Size(f.w, f.h)), "size is ", f.w, "x", f.h);
    MC_CHECK(x, f.type == type, "color type is ", f.type, " instead of ", type);
    MC_CHECK(x, f.depth == depth, "bit depth is ", f.depth, " instead of ", depth);
    MC_CHECK(x, f.adam7 == adam7, "interlacing is ", f.adam7);
    auto px = pixels(im);
    Kind fk { "file", gray ? Tag::lum : Tag::rgb, k.alpha, depth == 16 ? Repr::int16 : Repr::int8 };
    bool direct = k.repr != Repr::float_ && k.cs == fk.cs;
    for (int y = 0; y < f.h; ++y) for (int xx = 0; xx < f.w; ++xx) {
        auto& s = px[std::size_t(y * f.w + xx)];
        if (direct) {
            for (int c = 0; c < k.n(); ++c) {
                double want = s[std::size_t(c)] / img::max_comp(k.repr) * f.max();
                double got = f.at(xx, y, c);
                bool exact = want == std::floor(want) && (d == depth || want == 0 || want == f.max());
                // Colors of fully transparent pixels do not survive conversion
                if (c < k.nc() && k.alpha && s[std::size_t(k.nc())] == 0 && d != depth) continue;
                if (!(exact ? got == want : std::abs(got - want) <= 1)) MC_CHECK(x, false, "sample ", c, " of pixel ", xx, ",", y, " is ", got, " instead of ", want);
            }
        }
        else {
            Raw g = {};
            for (int c = 0; c < f.channels(); ++c) g[std::size_t(c)] = double(f.at(xx, y, c)) * (depth < 8 ? 255.0 / f.max() : 1);
            auto l = img::cvt(img::to_lin(k, s), k.cs, fk.cs);
            if (!img::matches(fk, g, l, depth < 8 ? 255.0 / f.max() : 1)) MC_CHECK(x, false, "pixel ", xx, ",", y, " is saved as ", img::show(fk, g), " instead of ", img::show(l));
        }
    }
    x.eval(f.w * f.h);
}

} // namespace png
