// Reference image model for C38 and C39: monitored images and reference pixel conversion in double precision.
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <climits>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/integer.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/span.hpp>
#include <archon/image.hpp>
#include <archon/image/comp_types.hpp>
#include <archon/image/tray.hpp>
#include <archon/image/block.hpp>
#include <archon/image/reader.hpp>
#include <archon/image/writer.hpp>
#include <archon/image/writable_image.hpp>
#include <archon/image/tray_image.hpp>
#include <archon/image/indexed_tray_image.hpp>
#include <archon/image/palette_image.hpp>
#include <archon/image/computed_image.hpp>
using namespace archon;

namespace img {

using Repr = image::CompRepr;
using Tag = image::ColorSpace::Tag;

struct Kind {
    const char* name;
    Tag cs;
    bool alpha;
    Repr repr;
    int nc() const { return cs == Tag::degen ? 0 : cs == Tag::lum ? 1 : 3; }
    int n() const { return nc() + int(alpha); }
    const image::ColorSpace& space() const { return image::get_color_space(cs); }
    image::Image::TransferInfo info() const { return { repr, &space(), alpha, repr == Repr::int8 ? 8 : repr == Repr::int16 ? 16 : 32 }; }
    bool operator==(const Kind& o) const { return cs == o.cs && alpha == o.alpha && repr == o.repr; }
};
inline const std::vector<Kind>& kinds()
{
    static const std::vector<Kind> k = {
        { "RGBA8", Tag::rgb, true, Repr::int8 }, { "RGB8", Tag::rgb, false, Repr::int8 }, { "Lum8", Tag::lum, false, Repr::int8 }, { "LumA8", Tag::lum, true, Repr::int8 },
        { "RGBA16", Tag::rgb, true, Repr::int16 }, { "RGB16", Tag::rgb, false, Repr::int16 }, { "Lum16", Tag::lum, false, Repr::int16 }, { "LumA16", Tag::lum, true, Repr::int16 },
        { "RGBAF", Tag::rgb, true, Repr::float_ }, { "RGBF", Tag::rgb, false, Repr::float_ }, { "LumF", Tag::lum, false, Repr::float_ }, { "LumAF", Tag::lum, true, Repr::float_ },
        { "Alpha8", Tag::degen, true, Repr::int8 }, { "Alpha16", Tag::degen, true, Repr::int16 }, { "AlphaF", Tag::degen, true, Repr::float_ },
    };
    return k;
}

inline std::size_t word_size(Repr r) { return r == Repr::int8 ? 1 : r == Repr::int16 ? 2 : sizeof(image::float_type); }

// A native component value, as an exactly representable double (integers: unsigned value; floats: the value)
inline double get_comp(Repr r, const void* p)
{
    switch (r) {
        case Repr::int8: { image::int8_type v; std::memcpy(&v, p, sizeof v); return double((unsigned long)(v) & 0xFF); }
        case Repr::int16: { image::int16_type v; std::memcpy(&v, p, sizeof v); return double((unsigned long)(v) & 0xFFFF); }
        default: { image::float_type v; std::memcpy(&v, p, sizeof v); return double(v); }
    }
}
inline void put_comp(Repr r, void* p, double d)
{
    switch (r) {
        case Repr::int8: { auto v = core::cast_from_twos_compl_a<image::int8_type>((unsigned char)(d)); std::memcpy(p, &v, sizeof v); return; }
        case Repr::int16: { auto v = core::cast_from_twos_compl_a<image::int16_type>((unsigned short)(d)); std::memcpy(p, &v, sizeof v); return; }
        default: { image::float_type v = image::float_type(d); std::memcpy(p, &v, sizeof v); return; }
    }
}
inline double max_comp(Repr r) { return r == Repr::int8 ? 255 : r == Repr::int16 ? 65535 : 1; }

using Raw = std::array<double, 4>;       // native components
struct Lin {                             // linear, premultiplied
    std::array<double, 3> c = {};
    double a = 1;
};
inline double expand(double v) { return v > 0.04045 ? std::pow((v + 0.055) / 1.055, 2.4) : v / 12.92; }
inline double compress(double v) { return v > 0.0031308 ? 1.055 * std::pow(v, 1 / 2.4) - 0.055 : 12.92 * v; }
inline Lin to_lin(const Kind& k, const Raw& r)
{
    Lin l;
    if (k.repr == Repr::float_) {
        for (int i = 0; i < k.nc(); ++i) l.c[std::size_t(i)] = r[std::size_t(i)];
        l.a = k.alpha ? r[std::size_t(k.nc())] : 1;
        return l;
    }
    double m = max_comp(k.repr);
    l.a = k.alpha ? r[std::size_t(k.nc())] / m : 1;
    for (int i = 0; i < k.nc(); ++i) l.c[std::size_t(i)] = l.a * expand(r[std::size_t(i)] / m);
    return l;
}
inline Lin cvt(Lin l, Tag from, Tag to)
{
    if (from == to) return l;
    double r, g, b;
    if (from == Tag::rgb) { r = l.c[0]; g = l.c[1]; b = l.c[2]; }
    else if (from == Tag::lum) r = g = b = l.c[0];
    else r = g = b = l.a; // the only color of the degenerate color space is white
    if (to == Tag::rgb) l.c = { r, g, b };
    else if (to == Tag::lum) l.c = { 0.2126 * r + 0.7152 * g + 0.0722 * b, 0, 0 };
    else l.c = { 0, 0, 0 };
    return l;
}
// Does native pixel 'got' of kind k represent 'l' (in the color space of k)?
inline bool matches(const Kind& k, const Raw& got, const Lin& l, double slack = 1)
{
    for (int i = 0; i < k.n(); ++i) {
        double g = got[std::size_t(i)];
        bool is_alpha = (i == k.nc());
        if (k.repr == Repr::float_) {
            double e = is_alpha ? l.a : l.c[std::size_t(i)];
            if (!(std::abs(g - e) <= 4e-6 * slack)) return false;
            continue;
        }
        double m = max_comp(k.repr);
        double tol = (k.repr == Repr::int8 ? 1.01 : 4.01) * slack;
        double e;
        if (is_alpha) e = l.a;
        else if (!k.alpha) e = compress(l.c[std::size_t(i)]);
        else if (l.a == 0) continue; // color immaterial
        else {
            e = compress(l.c[std::size_t(i)] / l.a);
            tol *= std::max(1.0, 1e-4 / l.a);
        }
        e = std::min(std::max(e, 0.0), 1.0) * m;
        if (!(std::abs(g - e) <= tol)) return false;
    }
    return true;
}
inline std::string show(const Kind& k, const Raw& r)
{
    std::string s = std::string(k.name) + "(";
    for (int i = 0; i < k.n(); ++i) { char b[40]; std::snprintf(b, sizeof b, "%s%.9g", i ? "," : "", r[std::size_t(i)]); s += b; }
    return s + ")";
}
inline std::string show(const Lin& l)
{
    char b[160]; std::snprintf(b, sizeof b, "lin(%.9g,%.9g,%.9g;%.9g)", l.c[0], l.c[1], l.c[2], l.a); return b;
}

// Monitored image: verifies that every access lies within the image
class Img final : public image::WritableImage {
public:
    Kind kind;                       // transfer kind (of the palette when indexed)
    image::Size size;
    const Img* palette = nullptr;
    std::vector<double> data;        // native components, or indexes
    mutable long reads = 0, writes = 0, fills = 0;

    Img(Kind k, image::Size s, const Img* pal = nullptr) : kind(pal ? pal->kind : k), size(s), palette(pal)
    {
        data.assign(std::size_t(s.width) * std::size_t(s.height) * std::size_t(stored_n()), 0);
    }
    int stored_n() const { return palette ? 1 : kind.n(); }
    Repr stored_repr() const { return palette ? Repr::int8 : kind.repr; }
    double& at(int x, int y, int i) { return data[(std::size_t(y) * std::size_t(size.width) + std::size_t(x)) * std::size_t(stored_n()) + std::size_t(i)]; }
    double at(int x, int y, int i) const { return const_cast<Img*>(this)->at(x, y, i); }
    Raw raw(int x, int y) const { Raw r = {}; for (int i = 0; i < stored_n(); ++i) r[std::size_t(i)] = at(x, y, i); return r; }
    void set(int x, int y, const Raw& r) { for (int i = 0; i < stored_n(); ++i) at(x, y, i) = r[std::size_t(i)]; }
    std::size_t palette_size() const { return std::min<std::size_t>(256, std::size_t(palette->size.width) * std::size_t(palette->size.height)); }
    Raw entry(std::size_t i) const { int w = palette->size.width; return palette->raw(int(i) % w, int(i) / w); }
    // Native color of pixel; none if index is outside palette
    std::optional<Raw> color(int x, int y) const
    {
        if (!palette) return raw(x, y);
        std::size_t i = std::size_t(at(x, y, 0));
        if (i >= palette_size()) return {};
        return entry(i);
    }

    auto get_size() const noexcept -> image::Size override { return size; }
    bool try_get_buffer(image::BufferFormat&, const void*&) const override { return false; }
    auto get_transfer_info() const -> TransferInfo override { return kind.info(); }
    auto get_palette() const noexcept -> const image::Image* override { return palette; }
    void check(image::Pos p, image::Size s, const char* what) const
    {
        if (p.x < 0 || p.y < 0 || s.width < 0 || s.height < 0 || s.width > size.width - p.x || s.height > size.height - p.y)
            mc::current()->fail(std::string("image ") + what + " outside the image: pos " + mc::str(p.x, ",", p.y) + " size " + mc::str(s.width, ",", s.height));
    }
    void read(image::Pos p, const image::Tray<void>& t) const override
    {
        ++reads;
        check(p, t.size, "read");
        xfer(t.iter.base, t.iter.horz_stride, t.iter.vert_stride, p, t.size, true);
    }
    bool try_get_writable_buffer(image::BufferFormat&, void*&) override { return false; }
    void write(image::Pos p, const image::Tray<const void>& t) override
    {
        ++writes;
        check(p, t.size, "write");
        xfer(const_cast<void*>(t.iter.base), t.iter.horz_stride, t.iter.vert_stride, p, t.size, false);
    }
    void fill(const image::Box& a, const void* color) override
    {
        ++fills;
        check(a.pos, a.size, "fill");
        for (int y = 0; y < a.size.height; ++y)
            for (int x = 0; x < a.size.width; ++x) xfer(const_cast<void*>(color), 0, 0, a.pos + image::Size(x, y), image::Size(1), false);
    }
private:
    void xfer(void* base, std::ptrdiff_t hs, std::ptrdiff_t vs, image::Pos p, image::Size s, bool rd) const
    {
        Repr r = stored_repr();
        std::ptrdiff_t w = std::ptrdiff_t(word_size(r));
        for (int y = 0; y < s.height; ++y)
            for (int x = 0; x < s.width; ++x)
                for (int i = 0; i < stored_n(); ++i) {
                    char* q = static_cast<char*>(base) + (x * hs + y * vs + i) * w;
                    double& d = const_cast<Img*>(this)->at(p.x + x, p.y + y, i);
                    if (rd) put_comp(r, q, d); else d = get_comp(r, q);
                }
    }
};

// Deterministic, varied native pixels; every pixel distinct in small images, extreme values included
inline Raw sample(const Kind& k, unsigned seed)
{
    Raw r = {};
    auto frac = [&](unsigned j) { static const double t[] = { 0, 1, 0.5, 0.25, 0.9, 0.02, 0.7, 0.1 }; return t[(seed * 3 + j * 5 + (seed >> 3)) % 8]; };
    auto afrac = [&] { static const double t[] = { 1, 0.5, 0, 0.8, 0.05, 1, 0.3 }; return t[seed % 7]; };
    double m = max_comp(k.repr);
    double a = k.alpha ? afrac() : 1;
    if (k.repr == Repr::float_) {
        for (int i = 0; i < k.nc(); ++i) r[std::size_t(i)] = double(image::float_type(a * std::min(1.0, frac(unsigned(i)) + 0.001 * double(seed % 97))));
        if (k.alpha) r[std::size_t(k.nc())] = double(image::float_type(a));
        return r;
    }
    for (int i = 0; i < k.nc(); ++i) {
        double v = std::floor(frac(unsigned(i)) * m);
        if (k.repr == Repr::int16) v = v > 40000 ? v - double(seed % 200) * 7 : v + double(seed % 200) * 7;
        else v = v > 128 ? v - double(seed % 50) : v + double(seed % 50);
        if (seed % 13 == 1) v = m;
        r[std::size_t(i)] = v;
    }
    if (k.alpha) r[std::size_t(k.nc())] = std::floor(a * m);
    return r;
}
inline void fill_samples(Img& im, unsigned seed)
{
    for (int y = 0; y < im.size.height; ++y)
        for (int x = 0; x < im.size.width; ++x) {
            unsigned s = seed + unsigned(y * im.size.width + x) * 5;
            if (im.palette) im.set(x, y, { double((s * 7 + 1) % (im.palette_size() + 2)), 0, 0, 0 });
            else im.set(x, y, sample(im.kind, s));
        }
}

// Guarded memory for a tray of pixels of given kind
class Mem {
public:
    Repr repr;
    int n;
    image::Size size;
    std::ptrdiff_t hs, vs;
    std::vector<char> bytes;
    std::size_t off;
    static constexpr char guard = 0x5A;
    // layout: 0 contiguous, 1 padded pixels and rows, 2 column-major with padding
    Mem(Repr r, int n_, image::Size s, int layout) : repr(r), n(n_), size(s)
    {
        if (layout == 0) { hs = std::max(n, 1); vs = std::max<std::ptrdiff_t>(1, hs * s.width); }
        else if (layout == 1) { hs = n + 1; vs = hs * s.width + 3; }
        else { vs = n + 2; hs = vs * s.height + 1; }
        std::ptrdiff_t words = 8 + (s.width + 1) * hs + (s.height + 1) * vs;
        off = 4 * word_size(r);
        bytes.assign(std::size_t(words) * word_size(r), guard);
    }
    char* ptr(int x, int y, int i) { return bytes.data() + off + (x * hs + y * vs + i) * std::ptrdiff_t(word_size(repr)); }
    Raw get(int x, int y) { Raw r = {}; for (int i = 0; i < n; ++i) r[std::size_t(i)] = get_comp(repr, ptr(x, y, i)); return r; }
    void put(int x, int y, const Raw& r) { for (int i = 0; i < n; ++i) put_comp(repr, ptr(x, y, i), r[std::size_t(i)]); }
    template<Repr R> auto tray() -> image::tray_type<R> { using T = image::comp_type<R>; return { { reinterpret_cast<T*>(bytes.data() + off), hs, vs }, size }; }
    template<Repr R> auto ctray() -> image::const_tray_type<R> { return tray<R>(); }
    // Bytes not belonging to any pixel must be untouched
    bool guards_intact()
    {
        std::vector<char> own(bytes.size(), 0);
        for (int y = 0; y < size.height; ++y)
            for (int x = 0; x < size.width; ++x)
                for (int i = 0; i < n; ++i) std::memset(own.data() + (ptr(x, y, i) - bytes.data()), 1, word_size(repr));
        for (std::size_t i = 0; i < bytes.size(); ++i) if (!own[i] && bytes[i] != guard) return false;
        return true;
    }
};
template<class F> void dispatch(Repr r, F&& f)
{
    switch (r) {
        case Repr::int8: f(std::integral_constant<Repr, Repr::int8>()); return;
        case Repr::int16: f(std::integral_constant<Repr, Repr::int16>()); return;
        default: f(std::integral_constant<Repr, Repr::float_>()); return;
    }
}
// Color slot
struct Slot {
    Lin lin;                         // in color space of image
    std::optional<Raw> native;       // exact native form including alpha (nc+1 comps) if set losslessly
};

} // namespace img
