// C38: reading blocks of images: clipping, falloff, conversion, color slots, palettes.
#include "img.hpp"
using namespace img;
namespace {
using Mode = image::Reader::FalloffMode;
using SlotId = image::Reader::ColorSlot;

// Index of image pixel for coordinate, or -1 when it is in the background
int map_coord(Mode m, long long p, int n)
{
    if (n == 0) return -1;
    if (p >= 0 && p < n) return int(p);
    switch (m) {
        case Mode::background: return -1;
        case Mode::edge: return p < 0 ? 0 : n - 1;
        default: { long long r = p % n; return int(r < 0 ? r + n : r); }
    }
}
const char* mname(Mode m) { return m == Mode::background ? "background" : m == Mode::edge ? "edge" : "repeat"; }
bool lossless(const Kind& k, const Kind& t) { return t.repr == k.repr && t.cs == k.cs && !(k.alpha && !t.alpha); }

bool ok_native(const Kind& k, const Kind& t, const Raw& got, const Raw& native) // native pixel of kind k, in image
{
    if (lossless(k, t)) {
        for (int i = 0; i < k.n(); ++i) if (got[std::size_t(i)] != native[std::size_t(i)]) return false;
        return t.alpha == k.alpha || got[std::size_t(t.nc())] == max_comp(t.repr);
    }
    return matches(t, got, cvt(to_lin(k, native), k.cs, t.cs));
}
bool ok_slot(const Kind& k, const Kind& t, const Raw& got, const Slot& s)
{
    if (t.repr == k.repr && t.cs == k.cs && s.native && (t.alpha || (*s.native)[std::size_t(k.nc())] == max_comp(k.repr))) {
        for (int i = 0; i < t.n(); ++i) if (got[std::size_t(i)] != (*s.native)[std::size_t(i)]) return false;
        return true;
    }
    return matches(t, got, cvt(s.lin, k.cs, t.cs));
}
Slot make_slot(const Kind& k, const Kind& from, const Raw& r, double opacity)
{
    Slot s;
    s.lin = cvt(to_lin(from, r), from.cs, k.cs);
    for (double& c : s.lin.c) c *= opacity;
    s.lin.a *= opacity;
    if (from.repr == k.repr && from.cs == k.cs && opacity == 1) {
        s.native = r;
        if (!from.alpha) (*s.native)[std::size_t(k.nc())] = max_comp(k.repr);
    }
    return s;
}
const Kind& rgba8() { return kinds()[0]; }
Slot default_slot(const Kind& k, SlotId id) { return make_slot(k, rgba8(), id == SlotId::background ? Raw { 0, 0, 0, 0 } : Raw { 255, 255, 255, 255 }, 1); }
void set_slot(image::Reader& r, SlotId id, const Kind& from, const Raw& raw, double opacity)
{
    Mem m(from.repr, from.n(), image::Size(1), 0);
    m.put(0, 0, raw);
    dispatch(from.repr, [&](auto R) { constexpr Repr rr = decltype(R)::value; r.set_color_a<rr>(id, m.ctray<rr>()(0, 0), from.space(), from.alpha, image::float_type(opacity)); });
}

// Read a block and verify every pixel
void read_and_check(mc::Ctx& x, const Img& im, image::Reader& rd, const Kind& t, image::Pos pos, image::Size size, Mode hm, Mode vm, const Slot& bg, int layout)
{
    Mem m(t.repr, t.n(), size, layout);
    dispatch(t.repr, [&](auto R) { constexpr Repr rr = decltype(R)::value; rd.get_block_a<rr>(pos, m.tray<rr>(), t.space(), t.alpha); });
    auto where = [&](int xx, int yy) {
        return mc::str("image ", im.kind.name, im.palette ? " (indexed)" : "", " ", im.size.width, "x", im.size.height, " block pos ", pos.x, ",", pos.y, " size ", size.width, "x", size.height, " falloff ",
                       mname(hm), "/", mname(vm), " as ", t.name, " layout ", layout, " at ", xx, ",", yy);
    };
    if (!m.guards_intact()) x.fail("memory outside the target block modified: " + where(-1, -1));
    for (int yy = 0; yy < size.height; ++yy)
        for (int xx = 0; xx < size.width; ++xx) {
            int px = map_coord(hm, (long long)(pos.x) + xx, im.size.width), py = map_coord(vm, (long long)(pos.y) + yy, im.size.height);
            Raw got = m.get(xx, yy);
            std::optional<Raw> native;
            if (px >= 0 && py >= 0) native = im.color(px, py);
            if (native) {
                if (!ok_native(im.kind, t, got, *native))
                    x.fail("wrong pixel: got " + show(t, got) + ", image pixel " + mc::str(px, ",", py) + " is " + show(im.kind, *native) + "; " + where(xx, yy));
            }
            else if (!ok_slot(im.kind, t, got, bg))
                x.fail("wrong background pixel: got " + show(t, got) + ", background color " + show(bg.lin) + "; " + where(xx, yy));
        }
}
const std::vector<Mode> modes = { Mode::background, Mode::edge, Mode::repeat };

// All positions and sizes of a block around small images, all mode pairs; lossless target
mc::Scenario s_falloff("falloff", 16, [](mc::Ctx& x) {
    int max = x.thorough ? 4 : 3;
    Mode hm = x.pick(modes), vm = x.pick(modes);
    int w = x.range(0, max), bw = x.range(0, x.thorough ? 10 : 7);
    x.shard_point();
    int px = x.range(x.thorough ? -9 : -6, x.thorough ? 9 : 6);
    static const Kind k = kinds()[6]; // Lum16
    for (int h = 0; h <= max; ++h) {
        Img im(k, image::Size(w, h));
        for (int i = 0; i < w * h; ++i) im.data[std::size_t(i)] = 1 + i;
        image::Reader rd(im);
        rd.set_falloff_mode(hm, vm);
        Raw bgc = { 999, 0, 0, 0 };
        set_slot(rd, SlotId::background, k, bgc, 1);
        Slot bg = make_slot(k, k, bgc, 1);
        for (int py = x.thorough ? -9 : -6; py <= (x.thorough ? 9 : 6); ++py)
            for (int bh = 0; bh <= (x.thorough ? 10 : 7); ++bh) {
                read_and_check(x, im, rd, k, image::Pos(px, py), image::Size(bw, bh), hm, vm, bg, (px + py) & 1);
                x.eval();
            }
    }
    x.outcome(mc::mix(std::uint64_t(hm) * 3 + std::uint64_t(vm), std::uint64_t(w * 16 + bw)));
});

// Positions at the extremes of int
mc::Scenario s_extreme("extreme-positions", 4, [](mc::Ctx& x) {
    Mode hm = x.pick(modes), vm = x.pick(modes);
    x.shard_point();
    int w = x.range(0, 3), h = x.range(0, 3);
    int base = x.choose(7);
    static const Kind k = kinds()[6];
    Img im(k, image::Size(w, h));
    for (int i = 0; i < w * h; ++i) im.data[std::size_t(i)] = 1 + i;
    image::Reader rd(im);
    rd.set_falloff_mode(hm, vm);
    Raw bgc = { 999, 0, 0, 0 };
    set_slot(rd, SlotId::background, k, bgc, 1);
    Slot bg = make_slot(k, k, bgc, 1);
    for (int bw = 0; bw <= 4; ++bw) for (int bh = 0; bh <= 4; ++bh) for (int d = 0; d < 3; ++d) {
        auto coord = [&](int kind, int n) { switch (kind) { case 0: return INT_MIN + d; case 1: return INT_MAX - n - d; default: return d - 1; } };
        int cx = base < 3 ? 0 : base < 5 ? 1 : 2, cy = base == 0 || base == 3 ? 0 : base == 1 || base == 5 ? 1 : base == 6 ? 0 : 2;
        read_and_check(x, im, rd, k, image::Pos(coord(cx, bw), coord(cy, bh)), image::Size(bw, bh), hm, vm, bg, 0);
        x.eval();
    }
});

// Blocks larger than the internal block size
mc::Scenario s_large("large-blocks", 8, [](mc::Ctx& x) {
    Mode hm = x.pick(modes), vm = x.pick(modes);
    int bw = x.pick({ 1, 5, 63, 64, 65, 129, 4097 });
    x.shard_point();
    int bh = x.pick({ 1, 3, 63, 64, 65, 130, 4100 });
    if (long(bw) * bh > 600000) x.prune();
    int kind = x.choose(4);
    Kind k = kinds()[std::size_t(std::vector<int> { 6, 0, 3, 9 }[std::size_t(kind)])];
    Kind t = kinds()[std::size_t(std::vector<int> { 6, 8, 0, 9 }[std::size_t(kind)])];
    if (kind != 0 && long(bw) * bh > 20000) x.prune();
    image::Size is = x.pick(std::vector<image::Size> { { 1, 1 }, { 2, 3 }, { 70, 2 }, { 3, 130 }, { 100, 100 } });
    Img im(k, is);
    fill_samples(im, 3);
    image::Reader rd(im);
    rd.set_falloff_mode(hm, vm);
    Slot bg = default_slot(k, SlotId::background);
    int o = x.choose(3);
    image::Pos pos = o == 0 ? image::Pos(0, 0) : o == 1 ? image::Pos(-5, 7) : image::Pos(31, -66);
    read_and_check(x, im, rd, t, pos, image::Size(bw, bh), hm, vm, bg, 0);
});

struct Bg { const char* name; int kind; Raw raw; double opacity; };
const std::vector<Bg> bgs = {
    { "default", -1, {}, 1 },
    { "opaque", 0, { 255, 128, 3, 255 }, 1 }, { "half", 0, { 200, 128, 90, 128 }, 1 }, { "no-alpha-16", 5, { 60000, 100, 3000, 0 }, 1 }, { "modulated", 9, { 0.25, 0.5, 1, 0 }, 0.25 },
    { "lum8", 2, { 77, 0, 0, 0 }, 1 }, { "lumaF", 11, { 0.125, 0.5, 0, 0 }, 1 }, { "alpha8", 12, { 200, 0, 0, 0 }, 1 }, { "zero", 1, { 255, 255, 255, 0 }, 0 },
};

// Every image kind (direct and indexed) x every target kind x background colors
mc::Scenario s_kinds("conversions", 16, [](mc::Ctx& x) {
    int ki = x.choose(int(kinds().size()));
    bool indexed = x.choose(2) == 1;
    x.shard_point();
    int ti = x.choose(int(kinds().size()));
    Kind k = kinds()[std::size_t(ki)], t = kinds()[std::size_t(ti)];
    Img pal(k, image::Size(3, 3));
    fill_samples(pal, 11);
    int bgi = x.choose(int(bgs.size()));
    const Bg& b = bgs[std::size_t(bgi)];
    for (int sz = 0; sz < 3; ++sz) {
        Img im(k, sz == 0 ? image::Size(5, 4) : sz == 1 ? image::Size(1, 2) : image::Size(0, 3), indexed ? &pal : nullptr);
        for (unsigned seed : { 0u, 101u, 222u }) {
            fill_samples(im, seed);
            image::Reader rd(im);
            if (b.kind >= 0) set_slot(rd, SlotId::background, kinds()[std::size_t(b.kind)], b.raw, b.opacity);
            Slot bg = b.kind >= 0 ? make_slot(k, kinds()[std::size_t(b.kind)], b.raw, b.opacity) : default_slot(k, SlotId::background);
            for (Mode hm : modes) for (Mode vm : modes) {
                if (hm != vm && seed) continue;
                rd.set_falloff_mode(hm, vm);
                read_and_check(x, im, rd, t, image::Pos(0, 0), im.size, hm, vm, bg, int(seed % 3));
                read_and_check(x, im, rd, t, image::Pos(-2, -1), image::Size(9, 7), hm, vm, bg, 1);
                x.eval(2);
            }
        }
    }
    x.outcome(mc::mix(std::uint64_t(ki * 2 + indexed), std::uint64_t(ti * 16 + bgi)));
});

// All 8-bit component values, and all alpha values
mc::Scenario s_values("all-component-values", 8, [](mc::Ctx& x) {
    int ki = x.pick({ 0, 1, 2, 3, 4, 6, 7, 12 });
    bool indexed = x.choose(2) == 1;
    x.shard_point();
    int ti = x.choose(int(kinds().size()));
    Kind k = kinds()[std::size_t(ki)], t = kinds()[std::size_t(ti)];
    Img pal(k, image::Size(16, 16));
    int f = x.choose(4); // fixed component scheme
    for (int i = 0; i < 256; ++i) {
        double v = k.repr == Repr::int8 ? i : std::min(65535.0, i * 257.0 + (i % 3));
        double m = max_comp(k.repr);
        Raw r = { v, m - v, std::floor(m / 3), 0 };
        r[std::size_t(k.nc())] = k.alpha ? (f == 0 ? m : f == 1 ? v : f == 2 ? std::floor(m / 2) : m - v) : 0;
        pal.set(i % 16, i / 16, r);
    }
    if (!k.alpha && f > 0) x.prune();
    Img idx(k, image::Size(16, 16), &pal);
    for (int i = 0; i < 256; ++i) idx.set(i % 16, i / 16, { double(i), 0, 0, 0 });
    const Img& im = indexed ? idx : pal;
    image::Reader rd(im);
    read_and_check(x, im, rd, t, image::Pos(0, 0), im.size, Mode::background, Mode::background, default_slot(k, SlotId::background), 0);
    x.eval(256);
});

// Palettes of all shapes; all index values; palette_lookup()
mc::Scenario s_palette("palettes", 8, [](mc::Ctx& x) {
    int ki = x.choose(int(kinds().size()));
    x.shard_point();
    Kind k = kinds()[std::size_t(ki)];
    image::Size ps = x.pick(std::vector<image::Size> { { 0, 0 }, { 0, 3 }, { 3, 0 }, { 1, 1 }, { 3, 1 }, { 1, 5 }, { 2, 2 }, { 16, 16 }, { 17, 17 }, { 100, 3 }, { 300, 1 }, { 1, 300 }, { 255, 1 }, { 257, 1 }, { 300, 2 } });
    Img pal(k, ps);
    fill_samples(pal, 5);
    Img im(k, image::Size(32, 9), &pal);
    for (int i = 0; i < 288; ++i) im.data[std::size_t(i)] = i % 256;
    image::Reader rd(im);
    MC_CHECK(x, rd.get_palette_size() == im.palette_size(), "palette size ", rd.get_palette_size());
    MC_CHECK(x, rd.has_indexed_color() && rd.get_palette() == &pal, "palette");
    int b = x.choose(3);
    const Bg& bgd = bgs[std::size_t(b == 0 ? 0 : b == 1 ? 2 : 4)];
    if (bgd.kind >= 0) set_slot(rd, SlotId::background, kinds()[std::size_t(bgd.kind)], bgd.raw, bgd.opacity);
    Slot bg = bgd.kind >= 0 ? make_slot(k, kinds()[std::size_t(bgd.kind)], bgd.raw, bgd.opacity) : default_slot(k, SlotId::background);
    int ti = x.choose(int(kinds().size()));
    Kind t = kinds()[std::size_t(ti)];
    int order = x.choose(2);
    auto lookups = [&] {
        for (std::size_t i = 0; i < 310; ++i) {
            Mem m(t.repr, t.n(), image::Size(1), 0);
            dispatch(t.repr, [&](auto R) { constexpr Repr rr = decltype(R)::value; rd.palette_lookup_a<rr>(i, m.tray<rr>()(0, 0), t.space(), t.alpha); });
            Raw got = m.get(0, 0);
            MC_CHECK(x, m.guards_intact(), "palette_lookup_a wrote outside the color");
            bool ok;
            if (i < im.palette_size()) {
                // exact also when removing the alpha component of an opaque color
                Raw e = im.entry(i);
                ok = ok_native(k, t, got, e);
                if (ok && k.alpha && !t.alpha && k.repr == t.repr && k.cs == t.cs && e[std::size_t(k.nc())] == max_comp(k.repr))
                    for (int c = 0; c < t.n(); ++c) ok = ok && got[std::size_t(c)] == e[std::size_t(c)];
            }
            else ok = ok_slot(k, t, got, bg);
            if (!ok) x.fail(mc::str("palette_lookup ", i, " of palette ", ps.width, "x", ps.height, " of ", k.name, " as ", t.name, ": ", show(t, got)));
            x.eval();
        }
    };
    if (order == 0) lookups();
    read_and_check(x, im, rd, t, image::Pos(-1, -1), image::Size(34, 11), Mode::background, Mode::background, bg, 0);
    if (order == 1) lookups();
});

// Sequences of operations on color slots interleaved with reads: cached forms of colors stay current
mc::Scenario s_slots("color-slot-sequences", 16, [](mc::Ctx& x) {
    int ki = x.choose(int(kinds().size()));
    bool indexed = x.choose(2) == 1;
    Kind k = kinds()[std::size_t(ki)];
    Img pal(k, image::Size(3, 2));
    fill_samples(pal, 21);
    Img im(k, image::Size(2, 2), indexed ? &pal : nullptr);
    fill_samples(im, 4);
    if (indexed) im.set(1, 1, { 200, 0, 0, 0 }); // outside palette
    image::Reader rd(im);
    Slot slot[2] = { default_slot(k, SlotId::background), default_slot(k, SlotId::foreground) };
    Mode hm = Mode::background, vm = Mode::background;
    // Representative target kinds
    std::vector<Kind> ts = { k };
    Kind native_alpha = k, native_no = k;
    native_alpha.alpha = true; native_no.alpha = k.cs == Tag::degen;
    ts.push_back(native_alpha); ts.push_back(native_no); ts.push_back(kinds()[8]); ts.push_back(kinds()[1]);
    struct Col { Kind k; Raw r; double op; };
    Kind na = native_alpha, nn = native_no;
    double m = max_comp(k.repr);
    auto with_alpha = [&](Raw r, double a) { r[std::size_t(k.nc())] = a; return r; };
    std::vector<Col> cols = {
        { na, with_alpha({ std::floor(m / 5 * 1), 0, m / 5 * (k.repr == Repr::float_ ? 0.5 : 1), 0 }, k.repr == Repr::float_ ? 0.5 : std::floor(m * 0.6)), 1 },
        { na, with_alpha({ m, std::floor(m / 3), 0, 0 }, m), 1 },
        { nn, { m, 0, m, nn.alpha ? m : 0 }, 1 },
        { na, with_alpha({ m, 0, m, 0 }, m), 0.5 },
        { kinds()[0], { 10, 200, 30, 100 }, 1 },
    };
    if (k.repr == Repr::float_) cols[0].r = with_alpha({ 0.25, 0.125, 0.5, 0 }, 0.5);
    int depth = x.thorough ? 4 : 3;
    for (int step = 0; step < depth; ++step) {
        // 0..4 set background color, 5 set foreground color, 6..10 get background color as, 11 get foreground, 12..16 read as, 17 mode change
        int op = x.choose(18);
        if (step == 0) x.shard_point();
        if (step == depth - 1 && (op <= 5 || op == 17)) x.prune();
        if (op <= 4) {
            const Col& c = cols[std::size_t(op)];
            MC_TRACE(x, "set background ", show(c.k, c.r), " opacity ", c.op);
            set_slot(rd, SlotId::background, c.k, c.r, c.op);
            slot[0] = make_slot(k, c.k, c.r, c.op);
        }
        else if (op == 5) {
            const Col& c = cols[std::size_t(step % 2)];
            set_slot(rd, SlotId::foreground, c.k, c.r, c.op);
            slot[1] = make_slot(k, c.k, c.r, c.op);
        }
        else if (op <= 11) {
            int s = op == 11 ? 1 : 0;
            Kind t = ts[std::size_t(op == 11 ? step % 5 : op - 6)];
            Mem mem(t.repr, t.n(), image::Size(1), 0);
            dispatch(t.repr, [&](auto R) { constexpr Repr rr = decltype(R)::value; rd.get_color_a<rr>(s ? SlotId::foreground : SlotId::background, mem.tray<rr>()(0, 0), t.space(), t.alpha); });
            MC_TRACE(x, "get color ", s, " as ", t.name, t.alpha, ": ", show(t, mem.get(0, 0)));
            if (!mem.guards_intact()) x.fail("get_color_a wrote outside the color");
            if (!ok_slot(k, t, mem.get(0, 0), slot[s])) x.fail(mc::str("get_color_a(", s, ") on ", k.name, " as ", t.name, " alpha=", t.alpha, " is ", show(t, mem.get(0, 0)), ", expected ", show(slot[s].lin)));
        }
        else if (op <= 16) {
            Kind t = ts[std::size_t(op - 12)];
            MC_TRACE(x, "read as ", t.name, t.alpha);
            read_and_check(x, im, rd, t, image::Pos(-1, -1), image::Size(4, 4), hm, vm, slot[0], 0);
        }
        else { hm = Mode::edge; vm = Mode::background; rd.set_falloff_mode(hm, vm); }
        x.step(); x.eval();
    }
});

// Convenience functions agree with get_block_a()
template<class R> void check_pixel_type(mc::Ctx& x, image::Reader& rd, const Img& im, const Slot& bg, const char* name)
{
    Kind t { name, R::color_space_tag, R::has_alpha, R::comp_repr };
    image::PixelBlock<R> block(image::Size(4, 3));
    MC_CHECK(x, &rd.get_block(image::Pos(-1, 0), block) == &rd, "returns reader");
    for (int yy = 0; yy < 3; ++yy) for (int xx = 0; xx < 4; ++xx) {
        image::Pixel<R> p, q = block.get_pixel(image::Pos(xx, yy));
        rd.get_pixel_a(image::Pos(xx - 1, yy), p);
        Raw a = {}, b = {}, c = {};
        for (int i = 0; i < t.n(); ++i) { a[std::size_t(i)] = get_comp(t.repr, &p[std::size_t(i)]); b[std::size_t(i)] = get_comp(t.repr, &q[std::size_t(i)]); c[std::size_t(i)] = get_comp(t.repr, block.tray()(xx, yy) + i); }
        bool in = xx >= 1 && xx - 1 < im.size.width && yy < im.size.height;
        std::optional<Raw> native; if (in) native = im.color(xx - 1, yy);
        bool ok = native ? ok_native(im.kind, t, a, *native) : ok_slot(im.kind, t, a, bg);
        if (!ok || a != b || a != c) x.fail(mc::str(name, " pixel at ", xx - 1, ",", yy, ": get_pixel_a ", show(t, a), " get_block ", show(t, b)));
        x.eval();
    }
    // color slots and palette lookup with pixel types
    image::Pixel<R> p;
    rd.get_color(SlotId::background, p);
    Raw a = {}; for (int i = 0; i < t.n(); ++i) a[std::size_t(i)] = get_comp(t.repr, &p[std::size_t(i)]);
    if (!ok_slot(im.kind, t, a, bg)) x.fail(mc::str("get_color as ", name, ": ", show(t, a)));
    if (im.palette) {
        rd.palette_lookup(1, p);
        for (int i = 0; i < t.n(); ++i) a[std::size_t(i)] = get_comp(t.repr, &p[std::size_t(i)]);
        if (!ok_native(im.kind, t, a, im.entry(1))) x.fail(mc::str("palette_lookup as ", name, ": ", show(t, a)));
    }
}
mc::Scenario s_conv("pixel-types", 8, [](mc::Ctx& x) {
    int ki = x.choose(int(kinds().size()));
    bool indexed = x.choose(2) == 1;
    x.shard_point();
    Kind k = kinds()[std::size_t(ki)];
    Img pal(k, image::Size(3, 2));
    fill_samples(pal, 21);
    Img im(k, image::Size(2, 2), indexed ? &pal : nullptr);
    fill_samples(im, 4);
    image::Reader rd(im);
    MC_CHECK(x, &rd.get_image() == &im && rd.get_image_size() == im.size && &rd.get_color_space() == &k.space() && rd.has_alpha_channel() == k.alpha && rd.get_comp_repr() == k.repr &&
             rd.get_num_channels() == k.n() && rd.get_num_channels_ext() == k.nc() + 1 && rd.has_indexed_color() == indexed, "accessors");
    int bc = x.choose(3);
    Slot bg = default_slot(k, SlotId::background);
    if (bc == 1) {
        util::Color c(10, 100, 200, 128);
        rd.set_background_color(c);
        bg = make_slot(k, rgba8(), { 10, 100, 200, 128 }, 1);
    }
    else if (bc == 2) {
        image::Pixel<image::LumA_16> c({ image::pack_int<image::int16_type, 16>(30000), image::pack_int<image::int16_type, 16>(20000) });
        rd.set_background_color_a(c, image::float_type(0.5));
        bg = make_slot(k, kinds()[7], { 30000, 20000, 0, 0 }, 0.5);
    }
    check_pixel_type<image::Lum_8>(x, rd, im, bg, "Lum_8"); check_pixel_type<image::LumA_8>(x, rd, im, bg, "LumA_8"); check_pixel_type<image::RGB_8>(x, rd, im, bg, "RGB_8"); check_pixel_type<image::RGBA_8>(x, rd, im, bg, "RGBA_8");
    check_pixel_type<image::Lum_16>(x, rd, im, bg, "Lum_16"); check_pixel_type<image::LumA_16>(x, rd, im, bg, "LumA_16"); check_pixel_type<image::RGB_16>(x, rd, im, bg, "RGB_16"); check_pixel_type<image::RGBA_16>(x, rd, im, bg, "RGBA_16");
    check_pixel_type<image::Lum_F>(x, rd, im, bg, "Lum_F"); check_pixel_type<image::LumA_F>(x, rd, im, bg, "LumA_F"); check_pixel_type<image::RGB_F>(x, rd, im, bg, "RGB_F"); check_pixel_type<image::RGBA_F>(x, rd, im, bg, "RGBA_F");
    check_pixel_type<image::Alpha_8>(x, rd, im, bg, "Alpha_8");
    // get_pixel(), get_block_*()
    for (int yy = 0; yy < 2; ++yy) for (int xx = 0; xx < 3; ++xx) {
        util::Color c = rd.get_pixel(image::Pos(xx, yy));
        Raw a = { double(c.red()), double(c.green()), double(c.blue()), double(c.alpha()) };
        std::optional<Raw> native; if (xx < 2) native = im.color(xx, yy);
        if (!(native ? ok_native(k, rgba8(), a, *native) : ok_slot(k, rgba8(), a, bg))) x.fail(mc::str("get_pixel at ", xx, ",", yy, ": ", show(rgba8(), a)));
    }
    for (int i = 0; i < 4; ++i) {
        Kind t = kinds()[std::size_t(i == 0 ? 2 : i == 1 ? 3 : i == 2 ? 1 : 0)];
        Mem m(t.repr, t.n(), image::Size(3, 3), 1);
        auto tray = m.tray<Repr::int8>();
        if (i == 0) rd.get_block_lum(image::Pos(-1, -1), tray); else if (i == 1) rd.get_block_luma(image::Pos(-1, -1), tray); else if (i == 2) rd.get_block_rgb(image::Pos(-1, -1), tray); else rd.get_block_rgba(image::Pos(-1, -1), tray);
        MC_CHECK(x, m.guards_intact(), "guards");
        for (int yy = 0; yy < 3; ++yy) for (int xx = 0; xx < 3; ++xx) {
            std::optional<Raw> native; if (xx >= 1 && yy >= 1) native = im.color(xx - 1, yy - 1);
            if (!(native ? ok_native(k, t, m.get(xx, yy), *native) : ok_slot(k, t, m.get(xx, yy), bg))) x.fail(mc::str("get_block_ as ", t.name, " at ", xx, ",", yy, ": ", show(t, m.get(xx, yy))));
        }
    }
});

// Iter: copy_to, fill, repeat and friends against direct assignment
mc::Scenario s_iter("iter-operations", 8, [](mc::Ctx& x) {
    int w = x.range(1, 5), h = x.range(1, 4);
    x.shard_point();
    int n = x.range(1, 3), layout = x.choose(3), layout2 = x.choose(2);
    using T = image::int16_type;
    auto init = [&](Mem& m) { for (int y = 0; y < h; ++y) for (int xx = 0; xx < w; ++xx) { Raw r = {}; for (int i = 0; i < n; ++i) r[std::size_t(i)] = 100 * y + 10 * xx + i + 1; m.put(xx, y, r); } };
    // every pattern box inside the area, every area box
    for (int x0 = 0; x0 <= w; ++x0) for (int y0 = 0; y0 <= h; ++y0) for (int bw = 0; bw <= w - x0; ++bw) for (int bh = 0; bh <= h - y0; ++bh) {
        image::Box box(image::Pos(x0, y0), image::Size(bw, bh));
        {   // fill
            Mem m(Repr::int16, n, image::Size(w, h), layout), e = m; init(m); init(e);
            T px[3] = { 7001, 7002, 7003 };
            m.tray<Repr::int16>().iter.fill(px, box, n);
            for (int y = 0; y < bh; ++y) for (int xx = 0; xx < bw; ++xx) e.put(x0 + xx, y0 + y, { 7001, 7002, 7003, 0 });
            MC_CHECK(x, m.bytes == e.bytes, "fill ", x0, ",", y0, " ", bw, "x", bh);
            Mem m2(Repr::int16, n, image::Size(w, h), layout); init(m2);
            m2.tray<Repr::int16>().subtray(box).fill(px, n);
            MC_CHECK(x, m2.bytes == e.bytes, "subtray fill ", x0, ",", y0, " ", bw, "x", bh);
        }
        {   // copy
            Mem m(Repr::int16, n, image::Size(w, h), layout), d(Repr::int16, n, image::Size(bw, bh), layout2); init(m);
            Mem e = d;
            m.tray<Repr::int16>().subtray(box).copy_to(d.tray<Repr::int16>().iter, n);
            for (int y = 0; y < bh; ++y) for (int xx = 0; xx < bw; ++xx) e.put(xx, y, m.get(x0 + xx, y0 + y));
            MC_CHECK(x, d.bytes == e.bytes, "copy_to ", x0, ",", y0, " ", bw, "x", bh);
            Mem d2(Repr::int16, n, image::Size(bw, bh), layout2);
            d2.tray<Repr::int16>().copy_from(m.tray<Repr::int16>().iter + (box.pos - image::Pos()), n);
            MC_CHECK(x, d2.bytes == e.bytes, "copy_from ", x0, ",", y0, " ", bw, "x", bh);
        }
        if (bw > 0 && bh > 0) { // repeat
            // area: every enclosing box
            for (int ax = 0; ax <= x0; ++ax) for (int ay = 0; ay <= y0; ++ay) for (int ar = x0 + bw; ar <= w; ++ar) for (int ab = y0 + bh; ab <= h; ++ab) {
                Mem m(Repr::int16, n, image::Size(w, h), layout), e = m; init(m); init(e);
                image::Box area(image::Pos(ax, ay), image::Size(ar - ax, ab - ay));
                m.tray<Repr::int16>().iter.repeat(box, area, n);
                Mem o = e;
                for (int y = ay; y < ab; ++y) for (int xx = ax; xx < ar; ++xx) {
                    int sx = (xx - x0) % bw, sy = (y - y0) % bh;
                    if (sx < 0) sx += bw;
                    if (sy < 0) sy += bh;
                    e.put(xx, y, o.get(x0 + sx, y0 + sy));
                }
                MC_CHECK(x, m.bytes == e.bytes, "repeat pattern ", x0, ",", y0, " ", bw, "x", bh, " area ", ax, ",", ay, " - ", ar, ",", ab);
                x.eval();
            }
            Mem m(Repr::int16, n, image::Size(w, h), layout), e = m; init(m); init(e);
            m.tray<Repr::int16>().repeat(box, n);
            Mem o = e;
            for (int y = 0; y < h; ++y) for (int xx = 0; xx < w; ++xx) { int sx = ((xx - x0) % bw + bw) % bw, sy = ((y - y0) % bh + bh) % bh; e.put(xx, y, o.get(x0 + sx, y0 + sy)); }
            MC_CHECK(x, m.bytes == e.bytes, "Tray::repeat");
        }
        x.eval(4);
    }
});

// Library image types read the same as the model image
mc::Scenario s_types("image-types", 4, [](mc::Ctx& x) {
    int which = x.choose(5);
    x.shard_point();
    int w = x.range(0, 3), h = x.range(0, 3);
    int ti = x.choose(int(kinds().size()));
    Kind t = kinds()[std::size_t(ti)];
    Mode hm = x.pick(modes), vm = x.pick(modes);
    auto go = [&](const Img& ref, const image::Image& im) {
        auto inf = im.get_transfer_info();
        MC_CHECK(x, im.get_size() == ref.size && inf.comp_repr == ref.kind.repr && inf.color_space == &ref.kind.space() && inf.has_alpha == ref.kind.alpha && (im.get_palette() != nullptr) == (ref.palette != nullptr), "image info");
        image::Reader rd(im);
        rd.set_falloff_mode(hm, vm);
        Slot bg = default_slot(ref.kind, SlotId::background);
        for (int px = -2; px <= 1; ++px) for (int py = -1; py <= 2; ++py) { read_and_check(x, ref, rd, t, image::Pos(px, py), image::Size(4, 3), hm, vm, bg, 2); x.eval(); }
    };
    auto blockfill = [&](auto& block, Img& ref, image::Box box) {
        for (int y = 0; y < block.size().height; ++y) for (int xx = 0; xx < block.size().width; ++xx) {
            Raw r = ref.palette ? Raw { double((y * 7 + xx * 3) % 8), 0, 0, 0 } : sample(ref.kind, unsigned(y * 9 + xx));
            for (int i = 0; i < ref.stored_n(); ++i) put_comp(ref.stored_repr(), block.tray()(xx, y) + i, r[std::size_t(i)]);
            int rx = xx - box.pos.x, ry = y - box.pos.y;
            if (rx >= 0 && ry >= 0 && rx < box.size.width && ry < box.size.height) ref.set(rx, ry, r);
        }
    };
    switch (which) {
        case 0: { image::PixelBlock<image::LumA_8> b(image::Size(w, h)); Img ref(kinds()[3], image::Size(w, h)); blockfill(b, ref, image::Box(image::Size(w, h))); image::TrayImage im(b); go(ref, im); break; }
        case 1: { image::PixelBlock<image::RGB_16> b(image::Size(w + 3, h + 2)); image::Box box(image::Pos(2, 1), image::Size(w, h)); Img ref(kinds()[5], image::Size(w, h)); blockfill(b, ref, box); image::WritableTrayImage im(b, box); go(ref, im); break; }
        case 2: {
            image::IndexBlock_8 b(image::Size(w + 1, h + 2)); image::Box box(image::Pos(1, 1), image::Size(w, h));
            Img pal(kinds()[0], image::Size(3, 2)); fill_samples(pal, 2);
            Img ref(kinds()[0], image::Size(w, h), &pal); blockfill(b, ref, box);
            image::IndexedTrayImage im(b, box, pal); go(ref, im);
            image::WritableIndexedTrayImage im2(b, box, pal); go(ref, im2);
            break;
        }
        case 3: {
            std::vector<image::Pixel<image::RGBA_F>> px(std::size_t(w * 4 + h));
            Img ref(kinds()[8], image::Size(int(px.size()), 1));
            for (std::size_t i = 0; i < px.size(); ++i) { Raw r = sample(ref.kind, unsigned(i)); ref.set(int(i), 0, r); for (std::size_t c = 0; c < 4; ++c) px[i][c] = image::float_type(r[c]); }
            image::PaletteImage<image::RGBA_F> im(core::Span<const image::Pixel<image::RGBA_F>>(px.data(), px.size()));
            image::Size s = im.get_size();
            MC_CHECK(x, std::size_t(s.width) * std::size_t(s.height) == px.size(), "palette image size ", s.width, "x", s.height, " of ", px.size());
            if (s != ref.size) { ref.size = s; }
            go(ref, im);
            break;
        }
        default: {
            Img ref(kinds()[1], image::Size(w, h)); fill_samples(ref, 8);
            image::ComputedImage im(image::Size(w, h), [&](image::Pos p) {
                if (p.x < 0 || p.y < 0 || p.x >= w || p.y >= h) mc::current()->fail("computed image asked for a pixel outside");
                Raw r = ref.raw(p.x, p.y);
                image::Pixel_RGB_8 q; for (std::size_t i = 0; i < 3; ++i) put_comp(Repr::int8, &q[i], r[i]);
                return q;
            });
            go(ref, im);
        }
    }
});
} // namespace
