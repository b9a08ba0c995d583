// C37: pixel formats against bit-level reference layouts.
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/integer.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/span.hpp>
#include <archon/image.hpp>
#include <archon/image/comp_types.hpp>
#include <archon/image/tray.hpp>
#include <archon/image/bit_field.hpp>
#include <archon/image/channel_packing.hpp>
#include <archon/image/integer_pixel_format.hpp>
#include <archon/image/packed_pixel_format.hpp>
#include <archon/image/subword_pixel_format.hpp>
#include <archon/image/indexed_pixel_format.hpp>
#include <archon/image/buffered_image.hpp>
using namespace archon;

namespace c37 {

// Reference description of a pixel format
struct Ref {
    enum Kind { integer, packed, subword, indexed } kind;
    int num_channels;
    bool alpha;
    bool alpha_first = false, reverse = false;
    int bits_per_word;
    int words = 1;              // words per channel, pixel, or compound
    bool big_words = true;
    int depth[4] = {};          // by canonical channel
    int shift[4] = {};          // packed, by canonical channel
    int slots = 1, slot_bits = 0; // subword and indexed
    bool big_bits = true;
    bool aligned = true;

    int stored(int c) const
    {
        std::vector<int> v;
        for (int i = 0; i < num_channels; ++i) v.push_back(i);
        if (alpha && alpha_first) { v.pop_back(); v.insert(v.begin(), num_channels - 1); }
        if (reverse) std::reverse(v.begin(), v.end());
        return int(std::find(v.begin(), v.end(), c) - v.begin());
    }
    long size(int w, int h) const
    {
        long long n = (long long)(w) * h;
        switch (kind) {
            case integer: return long(n * num_channels * words);
            case packed: return long(n * words);
            default: return long((aligned ? (w + slots - 1) / slots * (long long)(h) : (n + slots - 1) / slots) * words);
        }
    }
    struct Bit { long word; int bit; };
    // Bits of a channel from least to most significant
    Bit bit(int w, int x, int y, int c, int b) const
    {
        long p = long(y) * w + x;
        auto compound = [&](long base, int cb) {
            int s = cb / bits_per_word;
            return Bit { base + (big_words ? words - 1 - s : s), cb % bits_per_word };
        };
        switch (kind) {
            case integer: return compound((p * num_channels + stored(c)) * words, b);
            case packed: return compound(p * words, shift[c] + b);
            default: break;
        }
        long unit = aligned ? long(y) * ((w + slots - 1) / slots) + x / slots : p / slots;
        int slot = int(aligned ? x % slots : p % slots);
        int off = (big_bits ? slots - 1 - slot : slot) * slot_bits;
        if (kind == subword) off += (num_channels - 1 - stored(c)) * depth[c];
        return compound(unit * words, off + b);
    }
};

template<class C, class W, int B, class S, int D, core::Endianness E, bool F, bool G>
Ref ref(const image::IntegerPixelFormat<C, W, B, S, D, E, F, G>*)
{
    Ref r { Ref::integer, C::num_channels, C::has_alpha_channel, F, G, B, D, E == core::Endianness::big };
    for (int i = 0; i < C::num_channels; ++i) r.depth[i] = B * D;
    return r;
}
template<class C, class S, class P, class W, int B, int D, core::Endianness E, bool F, bool G>
Ref ref(const image::PackedPixelFormat<C, S, P, W, B, D, E, F, G>*)
{
    Ref r { Ref::packed, C::num_channels, C::has_alpha_channel, F, G, B, D, E == core::Endianness::big };
    for (int i = 0; i < C::num_channels; ++i) {
        int j = r.stored(i);
        r.depth[i] = P::fields[j].width;
        r.shift[i] = P::fields[j].gap;
        for (int k = j + 1; k < C::num_channels; ++k) r.shift[i] += P::fields[k].width + P::fields[k].gap;
    }
    return r;
}
template<class C, class W, int B, int D, core::Endianness E, bool F, bool G, bool H>
Ref ref(const image::SubwordPixelFormat<C, W, B, D, E, F, G, H>*)
{
    Ref r { Ref::subword, C::num_channels, C::has_alpha_channel, F, G, B * D * C::num_channels };
    for (int i = 0; i < C::num_channels; ++i) r.depth[i] = B;
    r.slots = D;
    r.slot_bits = B * C::num_channels;
    r.big_bits = E == core::Endianness::big;
    r.aligned = H;
    return r;
}
template<class S, int M, int N, core::Endianness A, class W, int B, int D, core::Endianness E, bool H>
Ref ref(const image::IndexedPixelFormat<S, M, N, A, W, B, D, E, H>*)
{
    Ref r { Ref::indexed, 1, false, false, false, B, D, E == core::Endianness::big };
    r.depth[0] = M;
    r.slots = N;
    r.slot_bits = M;
    r.big_bits = A == core::Endianness::big;
    r.aligned = H;
    return r;
}

inline const image::Image& palette()
{
    static image::BufferedImage_RGB_8 p(image::Size(256, 1));
    return p;
}
template<class F> F make_format()
{
    if constexpr (F::is_indexed_color)
        return F(palette());
    else
        return F();
}

using u64 = std::uint64_t;
inline u64 mask(int n) { return n == 64 ? ~u64(0) : (u64(1) << n) - 1; }
// Conversion of unit fraction v / (2^m - 1) to n bits
inline u64 rescale(u64 v, int m, int n)
{
    unsigned __int128 r = (((unsigned __int128)(v)) << n) / mask(m);
    return u64(std::min(r, (unsigned __int128)(mask(n))));
}

template<class T> constexpr int width_of = std::is_same_v<T, image::int8_type> ? 8 : std::is_same_v<T, image::int16_type> ? 16 : 0;

// To stored components
template<class T> void to_stored(const Ref& r, const T* pixel, u64* out)
{
    if constexpr (std::is_floating_point_v<T>) {
        int n = r.num_channels - int(r.alpha);
        T alpha = r.alpha ? pixel[n] : T(1);
        T inv = r.alpha ? (alpha != 0 ? 1 / alpha : 0) : T(1);
        for (int i = 0; i < r.num_channels; ++i) {
            T v = pixel[i];
            bool color = i < n;
            if (color && r.alpha) v = inv * v;
            double d = double(v);
            if (color) d = d > 0.0031308 ? 1.055 * std::pow(d, 1 / 2.4) - 0.055 : 12.92 * d;
            d = std::isnan(d) ? 0 : std::clamp(d, 0.0, 1.0);
            long double e = (long double)(d) * ((long double)(mask(r.depth[i])) + 1);
            out[i] = e >= (long double)(mask(r.depth[i])) ? mask(r.depth[i]) : u64(e);
        }
    }
    else {
        for (int i = 0; i < r.num_channels; ++i) {
            u64 v = u64(typename std::make_unsigned<T>::type(pixel[i]));
            out[i] = r.kind == Ref::indexed ? v : rescale(v, width_of<T>, r.depth[i]);
        }
    }
}
// Difference allowed in stored component
template<class T> u64 slack(const Ref& r, int c)
{
    if constexpr (std::is_floating_point_v<T>)
        return r.depth[c] > 24 ? (u64(1) << (r.depth[c] - 22)) : (r.depth[c] > 20 ? 8 : 1);
    else
        return 0;
}
template<class T> void from_stored(const Ref& r, const u64* in, T* pixel)
{
    if constexpr (std::is_floating_point_v<T>) {
        int n = r.num_channels - int(r.alpha);
        double alpha = r.alpha ? double(in[n]) / double(mask(r.depth[n])) : 1;
        for (int i = 0; i < n; ++i) {
            double d = double(in[i]) / double(mask(r.depth[i]));
            // 8-bit or narrower values go via a table of 8-bit values
            if (r.depth[i] <= 8 && r.depth[i] > 1) d = double(rescale(in[i], r.depth[i], 8)) / 255;
            if (r.depth[i] > 1) d = d > 0.04045 ? std::pow((d + 0.055) / 1.055, 2.4) : d / 12.92;
            pixel[i] = T(d * alpha);
        }
        if (r.alpha) pixel[n] = T(alpha);
    }
    else {
        for (int i = 0; i < r.num_channels; ++i)
            pixel[i] = T(typename std::make_unsigned<T>::type(r.kind == Ref::indexed ? in[i] : rescale(in[i], r.depth[i], width_of<T>)));
    }
}
template<class T> bool same(T a, T b)
{
    if constexpr (std::is_floating_point_v<T>)
        return std::abs(a - b) <= 2e-6;
    else
        return a == b;
}

template<class F> struct Model {
    using W = typename F::word_type;
    using U = std::make_unsigned_t<W>;
    using T = typename F::transf_comp_type;
    const Ref& r;
    int w, h;
    std::vector<u64> comps;
    Model(const Ref& r, int w, int h) : r(r), w(w), h(h), comps(std::size_t(w) * h * r.num_channels) {}
    u64* at(int x, int y) { return &comps[(std::size_t(y) * w + x) * r.num_channels]; }
    std::vector<W> buffer()
    {
        std::vector<U> b(std::size_t(r.size(w, h)));
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
                for (int c = 0; c < r.num_channels; ++c) {
                    u64 v = at(x, y)[c];
                    for (int i = 0; i < r.depth[c]; ++i)
                        if (v >> i & 1) { auto t = r.bit(w, x, y, c, i); b[std::size_t(t.word)] |= U(U(1) << t.bit); }
                }
        return std::vector<W>(b.begin(), b.end());
    }
    u64 get(const W* b, int x, int y, int c)
    {
        u64 v = 0;
        for (int i = 0; i < r.depth[c]; ++i) { auto t = r.bit(w, x, y, c, i); v |= u64(U(b[t.word]) >> t.bit & 1) << i; }
        return v;
    }
};

inline u64 rnd(u64 a, u64 b, u64 c) { return mc::mix(mc::mix(a * 0x9E3779B97F4A7C15 + b, c), 77); }

template<class T> void sample(const Ref& r, int kind, u64 seed, T* pixel)
{
    for (int i = 0; i < r.num_channels; ++i) {
        u64 v = kind == 0 ? 0 : kind == 1 ? ~u64(0) : rnd(seed, u64(i), 3);
        if constexpr (std::is_floating_point_v<T>)
            pixel[i] = T(double(v >> 11) / double(~u64(0) >> 11));
        else
            pixel[i] = r.kind == Ref::indexed ? T(v & mask(r.depth[0])) : T(v);
    }
    if constexpr (std::is_floating_point_v<T>)
        if (r.alpha) {
            T& a = pixel[r.num_channels - 1];
            if (kind == 2) a = T(0.25) + a * T(0.75);
            for (int i = 0; i < r.num_channels - 1; ++i) pixel[i] *= a;
        }
}

// Transfer of all blocks of an image of given size
template<class F> void blocks(mc::Ctx& x, const Ref& r, int w, int h)
{
    using W = typename F::word_type;
    using T = typename F::transf_comp_type;
    F format = make_format<F>();
    std::size_t size = std::size_t(r.size(w, h));
    MC_CHECK(x, F::get_buffer_size(image::Size(w, h)) == size, "buffer size for ", w, "x", h, " is ", F::get_buffer_size(image::Size(w, h)), ", expected ", size);
    int n = r.num_channels;
    std::vector<T> tray;
    for (int init = 0; init < 3; ++init) {
        Model<F> m0(r, w, h);
        for (std::size_t i = 0; i < m0.comps.size(); ++i) {
            int d = r.depth[i % std::size_t(n)];
            m0.comps[i] = init == 0 ? 0 : init == 1 ? mask(d) : rnd(i, 5, 9) & mask(d);
        }
        std::vector<W> b0 = m0.buffer();
        for (int bx = 0; bx <= w; ++bx) for (int by = 0; by <= h; ++by) for (int bw = 0; bx + bw <= w; ++bw) for (int bh = 0; by + bh <= h; ++bh) {
            for (int variant = 0; variant < 2; ++variant) {
                // Transfer arrays with different strides, surrounded by guards
                std::ptrdiff_t hs = variant == 0 ? n : -(n + 1), vs = variant == 0 ? hs * bw : (bw + 1) * (n + 1) + 1;
                std::ptrdiff_t lo = 0, hi = 0;
                if (bw && bh) for (int cx : { 0, bw - 1 }) for (int cy : { 0, bh - 1 }) { auto o = cx * hs + cy * vs; lo = std::min(lo, o); hi = std::max(hi, o + n); }
                T guard = T(43);
                auto reset = [&] { tray.assign(std::size_t(hi - lo), guard); };
                reset();
                auto at = [&](int cx, int cy) { return tray.data() - lo + cx * hs + cy * vs; };
                // Read
                {
                    std::vector<W> b = b0;
                    const image::BufferedImage<F> img(image::Size(w, h), core::Span<W>(b.data(), b.size()), make_format<F>());
                    img.read(image::Pos(bx, by), image::Tray<void> { { tray.data() - lo, hs, vs }, image::Size(bw, bh) });
                    MC_CHECK(x, b == b0, "reading modifies image");
                    std::vector<T> e(tray.size(), guard);
                    for (int cy = 0; cy < bh; ++cy) for (int cx = 0; cx < bw; ++cx)
                        from_stored<T>(r, m0.at(bx + cx, by + cy), e.data() - lo + cx * hs + cy * vs);
                    for (std::size_t i = 0; i < e.size(); ++i)
                        MC_CHECK(x, same(e[i], tray[i]), w, "x", h, " image, reading block ", bw, "x", bh, " at ", bx, ",", by, ": component ", i, " of transfer array is ", double(tray[i]), ", expected ", double(e[i]));
                    x.eval();
                }
                for (int op = 0; op < 2; ++op) for (int values = 0; values < 3; ++values) {
                    if (variant == 1 && (op == 1 || values < 2)) continue;
                    Model<F> m = m0;
                    T color[4];
                    sample(r, values, 1234, color);
                    reset();
                    for (int cy = 0; cy < bh; ++cy) for (int cx = 0; cx < bw; ++cx) {
                        T* p = at(cx, cy);
                        if (op == 0) sample(r, values, u64(cy * 100 + cx), p);
                        to_stored(r, op == 0 ? p : color, m.at(bx + cx, by + cy));
                    }
                    std::vector<W> b = b0;
                    {
                        image::BufferedImage<F> img(image::Size(w, h), core::Span<W>(b.data(), b.size()), make_format<F>());
                        if (op == 0) img.write(image::Pos(bx, by), image::Tray<const void> { { tray.data() - lo, hs, vs }, image::Size(bw, bh) });
                        else img.fill(image::Box(image::Pos(bx, by), image::Size(bw, bh)), color);
                    }
                    if constexpr (std::is_floating_point_v<T>) {
                        // Adopt stored values within allowed error
                        for (int cy = 0; cy < bh; ++cy) for (int cx = 0; cx < bw; ++cx) for (int c = 0; c < n; ++c) {
                            u64 v = m.get(b.data(), bx + cx, by + cy, c), & e = m.at(bx + cx, by + cy)[c];
                            if ((v > e ? v - e : e - v) <= slack<T>(r, c)) e = v;
                        }
                    }
                    std::vector<W> e = m.buffer();
                    if (b != e) {
                        std::size_t i = std::size_t(std::mismatch(b.begin(), b.end(), e.begin()).first - b.begin());
                        using LL = long long;
                        x.fail(mc::str(w, "x", h, " image, ", op ? "filling" : "writing", " block ", bw, "x", bh, " at ", bx, ",", by, " (initial contents ", init, ", values ", values, "): word ", i, " is ", LL(b[i]), ", expected ", LL(e[i])));
                    }
                    x.eval();
                }
            }
        }
    }
    x.outcome(mc::hash_str(mc::str(w, h, int(r.kind), r.num_channels, r.bits_per_word, r.words, r.slots)));
}

// All values of each component
template<class F> void values(mc::Ctx& x, const Ref& r, bool thorough)
{
    using W = typename F::word_type;
    using T = typename F::transf_comp_type;
    F format = make_format<F>();
    std::vector<T> vals;
    if constexpr (std::is_floating_point_v<T>) {
        for (int i = 0; i <= 1024; ++i) vals.push_back(T(i) / 1024);
        for (T v : { T(-1), T(2), T(-0.0), T(1e-6), T(1e-4), T(0.0031308), T(0.00313081), T(0.04045), T(0.9999999), T(1e30), T(-1e30) }) vals.push_back(v);
    }
    else {
        long max = r.kind == Ref::indexed ? long(mask(r.depth[0])) : long(mask(width_of<T>));
        for (long i = 0; i <= max; ++i) if (max < 300 || thorough || i < 600 || i > max - 600 || i % 13 == 0 || (i & (i - 1)) == 0) vals.push_back(T(i));
    }
    int n = r.num_channels;
    Model<F> m(r, 1, 1);
    std::vector<W> b(std::size_t(r.size(1, 1)));
    for (int c = 0; c < n; ++c) for (T v : vals) for (int rest = 0; rest < 2; ++rest) {
        T p[4];
        for (int i = 0; i < n; ++i) p[i] = i == c ? v : std::is_floating_point_v<T> ? T(rest) : rest ? T(-1) : T(0);
        if (r.kind == Ref::indexed && rest) break;
        for (int op = 0; op < 2; ++op) {
            std::fill(b.begin(), b.end(), W(0));
            if (op == 0) F::write(b.data(), image::Size(1, 1), image::Pos(0, 0), image::Tray<const T> { { p, n, n }, image::Size(1, 1) });
            else F::fill(b.data(), image::Size(1, 1), image::Box(image::Size(1, 1)), p);
            u64 e[4];
            to_stored(r, p, e);
            for (int i = 0; i < n; ++i) {
                u64 s = m.get(b.data(), 0, 0, i);
                MC_CHECK(x, (s > e[i] ? s - e[i] : e[i] - s) <= slack<T>(r, i), "storing ", double(v), " in channel ", c, " (others ", rest, "): channel ", i, " becomes ", s, ", expected ", e[i]);
                m.at(0, 0)[i] = s;
            }
            MC_CHECK(x, m.buffer() == b, "unused bits set when storing ", double(v), " in channel ", c);
            T q[4], eq[4];
            F::read(b.data(), image::Size(1, 1), image::Pos(0, 0), image::Tray<T> { { q, n, n }, image::Size(1, 1) });
            from_stored<T>(r, m.at(0, 0), eq);
            for (int i = 0; i < n; ++i)
                MC_CHECK(x, same(q[i], eq[i]), "stored ", double(v), " in channel ", c, ": channel ", i, " is read as ", double(q[i]), ", expected ", double(eq[i]));
            x.eval();
        }
    }
    auto info = format.get_transfer_info();
    if (r.kind != Ref::indexed) {
        MC_CHECK(x, info.has_alpha == r.alpha && info.bit_depth == *std::max_element(r.depth, r.depth + 4), "transfer info");
        MC_CHECK(x, info.color_space && info.color_space->get_num_channels() == n - int(r.alpha), "color space");
        MC_CHECK(x, ((info.comp_repr == image::CompRepr::float_) == std::is_floating_point_v<T> && (info.comp_repr == image::CompRepr::int8) == std::is_same_v<T, image::int8_type>), "representation");
    }
    x.outcome(mc::hash_str(mc::str(n, r.bits_per_word, r.depth[0])));
}

struct Entry {
    std::string name;
    int slots;
    void (*blocks)(mc::Ctx&, const Ref&, int, int);
    void (*values)(mc::Ctx&, const Ref&, bool);
    Ref ref;
};
template<class F> Entry entry(const char* name)
{
    return { name, 0, &blocks<F>, &values<F>, ref(static_cast<const F*>(nullptr)) };
}
inline void run_blocks(mc::Ctx& x, const std::vector<Entry>& list)
{
    const Entry& e = list[std::size_t(x.choose(int(list.size())))];
    int many = e.ref.slots > 1 ? std::min(e.ref.slots * 2 + 1, x.thorough ? 19 : 11) : x.thorough ? 5 : 3;
    int w = x.range(0, many);
    int h = x.range(0, x.thorough ? 4 : e.ref.slots > 1 ? 2 : 3);
    x.shard_point();
    MC_TRACE(x, e.name);
    e.blocks(x, e.ref, w, h);
}
inline void run_values(mc::Ctx& x, const std::vector<Entry>& list)
{
    const Entry& e = list[std::size_t(x.choose(int(list.size())))];
    x.shard_point();
    MC_TRACE(x, e.name);
    e.values(x, e.ref, x.thorough);
}

#define FMT(...) c37::entry<__VA_ARGS__>(#__VA_ARGS__)
constexpr core::Endianness big = core::Endianness::big, lit = core::Endianness::little;

} // namespace c37
