// C39: writing, filling, copying and blending blocks.
#include "img.hpp"
using namespace img;
namespace {
using Mode = image::Reader::FalloffMode;
using SlotId = image::Reader::ColorSlot;

// Pixel to be written: linear color in color space of target, and exact native form (with alpha) when conversion is lossless
struct Src { Lin lin; std::optional<Raw> exact; bool exact_any_alpha = false; };

Slot make_slot(const Kind& k, const Kind& from, const Raw& r, double opacity)
{
    Slot s;
    s.lin = cvt(to_lin(from, r), from.cs, k.cs);
    for (double& c : s.lin.c) c *= opacity;
    s.lin.a *= opacity;
    if (from.repr == k.repr && from.cs == k.cs && opacity == 1) {
        s.native = r;
        if (!from.alpha) (*s.native)[std::size_t(k.nc())] = max_comp(k.repr);
    }
    return s;
}
const Kind& rgba8() { return kinds()[0]; }
Slot default_slot(const Kind& k, SlotId id) { return make_slot(k, rgba8(), id == SlotId::background ? Raw { 0, 0, 0, 0 } : Raw { 255, 255, 255, 255 }, 1); }
void set_slot(image::Reader& r, SlotId id, const Kind& from, const Raw& raw, double opacity)
{
    Mem m(from.repr, from.n(), image::Size(1), 0);
    m.put(0, 0, raw);
    dispatch(from.repr, [&](auto R) { constexpr Repr rr = decltype(R)::value; r.set_color_a<rr>(id, m.ctray<rr>()(0, 0), from.space(), from.alpha, image::float_type(opacity)); });
}
// Source pixel of kind s for a target of kind k
Src source(const Kind& k, const Kind& s, const Raw& r)
{
    Src o;
    o.lin = cvt(to_lin(s, r), s.cs, k.cs);
    if (s.repr == k.repr && s.cs == k.cs && (!s.alpha || k.alpha)) {
        o.exact = r;
        if (!s.alpha) (*o.exact)[std::size_t(k.nc())] = max_comp(k.repr);
    }
    return o;
}
Src source(const Kind& k, const Slot& s) // color slot of target
{
    Src o; o.lin = s.lin;
    if (s.native && (k.alpha || (*s.native)[std::size_t(k.nc())] == max_comp(k.repr))) o.exact = s.native;
    return o;
}

struct Setup { bool blend = false; double opacity = 1; };

Lin over(const Lin& a, const Lin& b)
{
    Lin c = a;
    double beta = 1 - a.a;
    for (std::size_t i = 0; i < 3; ++i) c.c[i] += beta * b.c[i];
    c.a += beta * b.a;
    return c;
}
Lin scale(Lin a, double f) { for (double& c : a.c) c *= f; a.a *= f; return a; }
double dist2(const Kind& k, const Lin& a, const Lin& b)
{
    double d = 0;
    for (int i = 0; i < k.nc(); ++i) d += (a.c[std::size_t(i)] - b.c[std::size_t(i)]) * (a.c[std::size_t(i)] - b.c[std::size_t(i)]);
    if (k.alpha) d += (a.a - b.a) * (a.a - b.a);
    return d;
}
bool nearest(const Img& im, const Lin& l, std::size_t index)
{
    std::size_t n = im.palette_size();
    if (n == 0) return index == 0;
    if (index >= n) return false;
    double best = 1e300, mine = 0;
    for (std::size_t i = 0; i < n; ++i) {
        double d = std::sqrt(dist2(im.kind, l, to_lin(im.kind, im.entry(i))));
        best = std::min(best, d);
        if (i == index) mine = d;
    }
    return mine <= best + 2e-5;
}
// Current color of pixel
Lin current(const Img& im, int x, int y, const Slot& bg) { auto c = im.color(x, y); return c ? to_lin(im.kind, *c) : bg.lin; }

// Verify that the image changed from 'before' exactly as defined
template<class F> void verify(mc::Ctx& x, const Img& im, const std::vector<double>& before, const image::Box& box, const Setup& su, const Slot& bg, bool source_opaque_path, F&& src, const std::string& what)
{
    Img old = im; old.data = before;
    for (int y = 0; y < im.size.height; ++y) for (int xx = 0; xx < im.size.width; ++xx) {
        long long rx = (long long)(xx) - box.pos.x, ry = (long long)(y) - box.pos.y;
        bool in = rx >= 0 && ry >= 0 && rx < box.size.width && ry < box.size.height;
        Raw now = im.raw(xx, y), was = old.raw(xx, y);
        auto fail = [&](const std::string& m) {
            x.fail(mc::str(m, " at ", xx, ",", y, ": ", im.palette ? mc::str("index ", now[0]) : show(im.kind, now), ", before ", im.palette ? mc::str("index ", was[0]) : show(im.kind, was), "; image ", im.kind.name, im.palette ? " indexed " : " ", im.size.width, "x",
                           im.size.height, " box ", box.pos.x, ",", box.pos.y, " ", box.size.width, "x", box.size.height, " blend=", su.blend, " opacity=", su.opacity, " ", what));
        };
        if (!in) { if (now != was) fail("pixel outside the target area modified"); continue; }
        Src s = src(int(rx), int(ry));
        Lin l = scale(s.lin, su.opacity);
        if (su.blend) l = over(l, current(old, xx, y, bg));
        if (im.palette) { if (!nearest(im, l, std::size_t(now[0]))) fail("written index is not the closest color to " + show(l)); continue; }
        bool exact = s.exact && su.opacity == 1 && !su.blend;
        static_cast<void>(source_opaque_path);
        if (exact) {
            for (int i = 0; i < im.kind.n(); ++i) if (now[std::size_t(i)] != (*s.exact)[std::size_t(i)]) fail("lossless write altered pixel, expected " + show(im.kind, *s.exact));
        }
        else if (!matches(im.kind, now, l)) fail("wrong pixel written, expected " + show(l));
    }
    x.eval();
}

// Write a block of samples of kind t
void do_put_block(mc::Ctx& x, Img& im, image::Writer& w, const Kind& t, image::Pos pos, image::Size size, const Setup& su, const Slot& bg, unsigned seed, int layout)
{
    Mem m(t.repr, t.n(), size, layout);
    for (int y = 0; y < size.height; ++y) for (int xx = 0; xx < size.width; ++xx) m.put(xx, y, sample(t, seed + unsigned(y * size.width + xx)));
    auto bytes = m.bytes;
    auto before = im.data;
    dispatch(t.repr, [&](auto R) { constexpr Repr rr = decltype(R)::value; w.put_block_a<rr>(pos, m.ctray<rr>(), t.space(), t.alpha); });
    if (m.bytes != bytes) x.fail("source block modified");
    verify(x, im, before, image::Box(pos, size), su, bg, false, [&](int xx, int y) { return source(im.kind, t, m.get(xx, y)); }, mc::str("put_block as ", t.name));
}
void do_fill(mc::Ctx& x, Img& im, image::Writer& w, const image::Box& box, SlotId id, const Slot& s, const Setup& su, const Slot& bg)
{
    auto before = im.data;
    w.fill(box, id);
    verify(x, im, before, box, su, bg, false, [&](int, int) { return source(im.kind, s); }, "fill");
}
int map_coord(Mode m, long long p, int n)
{
    if (n == 0) return -1;
    if (p >= 0 && p < n) return int(p);
    switch (m) {
        case Mode::background: return -1;
        case Mode::edge: return p < 0 ? 0 : n - 1;
        default: { long long r = p % n; return int(r < 0 ? r + n : r); }
    }
}
// Copy box of source image
void do_put_image(mc::Ctx& x, Img& im, image::Writer& w, const Img& from, image::Reader& rd, Mode mode, const Slot& rbg, image::Pos pos, const image::Box& box, const Setup& su, const Slot& bg)
{
    auto before = im.data;
    w.put_image_a(pos, rd, box);
    verify(x, im, before, image::Box(pos, box.size), su, bg, false, [&](int xx, int y) {
        int px = map_coord(mode, (long long)(box.pos.x) + xx, from.size.width), py = map_coord(mode, (long long)(box.pos.y) + y, from.size.height);
        std::optional<Raw> n; if (px >= 0 && py >= 0) n = from.color(px, py);
        if (n) return source(im.kind, from.kind, *n);
        Src s; s.lin = cvt(rbg.lin, from.kind.cs, im.kind.cs);
        return s;
    }, mc::str("put_image from ", from.kind.name, from.palette ? " indexed" : "", " ", from.size.width, "x", from.size.height, " origin ", box.pos.x, ",", box.pos.y));
}
void do_mask(mc::Ctx& x, Img& im, image::Writer& w, const std::vector<double>& mask, image::Pos pos, image::Size size, const Slot& fg, const Slot& bg, const Setup& su, int layout)
{
    Mem m(Repr::int8, 1, size, layout);
    for (int y = 0; y < size.height; ++y) for (int xx = 0; xx < size.width; ++xx) m.put(xx, y, { mask[std::size_t(y * size.width + xx) % mask.size()], 0, 0, 0 });
    auto before = im.data;
    w.put_block_mask(pos, m.ctray<Repr::int8>());
    verify(x, im, before, image::Box(pos, size), su, bg, false, [&](int xx, int y) { Src s; s.lin = over(scale(fg.lin, m.get(xx, y)[0] / 255), bg.lin); return s; }, "put_block_mask");
}
void configure(mc::Ctx& x, image::Writer& w, const Setup& su)
{
    if (su.blend) w.enable_blending();
    w.set_opacity(image::float_type(su.opacity));
    MC_CHECK(x, w.get_blending_enabled() == su.blend && w.get_opacity() == image::float_type(su.opacity), "settings");
}

// All positions and sizes around small images
mc::Scenario s_areas("areas", 16, [](mc::Ctx& x) {
    int which = x.choose(5); // fill, put_block, put_image, mask, put_block converted
    int kind = x.choose(4);
    bool blend = x.choose(2) == 1;
    int w = x.range(0, 3), h = x.range(0, 3);
    x.shard_point();
    Kind k = kinds()[std::size_t(std::vector<int> { 0, 6, 9, 1 }[std::size_t(kind)])];
    Img pal(k, image::Size(3, 3)); fill_samples(pal, 1);
    Setup su; su.blend = blend;
    int lo = x.thorough ? -6 : -4, hi = x.thorough ? 6 : 4, ms = x.thorough ? 7 : 5;
    int px = x.range(lo, hi);
    Raw fgr = sample(k, 77); if (k.alpha) fgr[3] = 120;
    Slot fg = make_slot(k, k, fgr, 1), bg = default_slot(k, SlotId::background);
    Img src(k, image::Size(2, 3)); fill_samples(src, 40);
    for (int py = lo; py <= hi; ++py) for (int bw = 0; bw <= ms; ++bw) for (int bh = 0; bh <= ms; ++bh) {
        Img im(k, image::Size(w, h), kind == 3 ? &pal : nullptr);
        fill_samples(im, 30);
        image::Writer wr(im);
        configure(x, wr, su);
        set_slot(wr, SlotId::foreground, k, fgr, 1);
        image::Pos pos(px, py); image::Size size(bw, bh);
        switch (which) {
            case 0: do_fill(x, im, wr, image::Box(pos, size), SlotId::foreground, fg, su, bg); break;
            case 1: do_put_block(x, im, wr, k, pos, size, su, bg, 3, (px + py) & 1); break;
            case 2: {
                image::Reader rd(src);
                Mode m = (bw + bh) % 3 == 0 ? Mode::background : (bw + bh) % 3 == 1 ? Mode::edge : Mode::repeat;
                rd.set_falloff_mode(m);
                do_put_image(x, im, wr, src, rd, m, default_slot(src.kind, SlotId::background), pos, image::Box(image::Pos((bw + py) % 3 - 1, (bh + px) % 3 - 1), size), su, bg);
                break;
            }
            case 3: do_mask(x, im, wr, { 0, 255, 128, 3, 200 }, pos, size, fg, bg, su, 1); break;
            default: do_put_block(x, im, wr, kinds()[std::size_t(k.repr == Repr::int8 ? 7 : 0)], pos, size, su, bg, 3, 2);
        }
    }
    x.outcome(mc::mix(std::uint64_t(which * 8 + kind), std::uint64_t(w * 4 + h)));
});

// Positions at extremes of int, and large blocks
mc::Scenario s_extreme("extremes", 8, [](mc::Ctx& x) {
    int which = x.choose(4), cx = x.choose(4), cy = x.choose(4);
    x.shard_point();
    bool blend = x.choose(2) == 1;
    Kind k = rgba8();
    Setup su; su.blend = blend;
    Raw fgr = { 200, 10, 0, 100 };
    Slot fg = make_slot(k, k, fgr, 1), bg = default_slot(k, SlotId::background);
    Img src(k, image::Size(2, 3)); fill_samples(src, 40);
    for (int d = 0; d < 3; ++d) for (int bw : { 0, 1, 3, 70 }) for (int bh : { 0, 1, 3, 70 }) {
        auto coord = [&](int c, int n) { return c == 0 ? INT_MIN + d : c == 1 ? INT_MAX - n - d : c == 2 ? d - 1 : -n + d; };
        Img im(k, image::Size(3, 2)); fill_samples(im, 30);
        image::Writer wr(im);
        configure(x, wr, su);
        set_slot(wr, SlotId::foreground, k, fgr, 1);
        image::Pos pos(coord(cx, bw), coord(cy, bh)); image::Size size(bw, bh);
        switch (which) {
            case 0: do_fill(x, im, wr, image::Box(pos, size), SlotId::foreground, fg, su, bg); break;
            case 1: do_put_block(x, im, wr, k, pos, size, su, bg, 3, 1); break;
            case 2: { image::Reader rd(src); rd.set_falloff_mode(Mode::repeat); do_put_image(x, im, wr, src, rd, Mode::repeat, bg, pos, image::Box(image::Pos(coord(cy, bw), coord(cx, bh)), size), su, bg); break; }
            default: do_mask(x, im, wr, { 0, 255, 128, 3, 200 }, pos, size, fg, bg, su, 1);
        }
    }
});
mc::Scenario s_large("large-blocks", 16, [](mc::Ctx& x) {
    int which = x.choose(5);
    int W = x.pick({ 1, 63, 64, 65, 130, 4100 });
    int H = x.pick({ 1, 63, 64, 65, 130, 4100 });
    if (long(W) * H > 70000) x.prune();
    x.shard_point();
    int mode = x.choose(3);
    Kind k = kinds()[std::size_t(mode == 2 ? 1 : 0)];
    Img pal(k, image::Size(3, 2)); fill_samples(pal, 5);
    Setup su; su.blend = mode == 1; su.opacity = mode == 1 ? 0.5 : 1;
    Img im(k, image::Size(W, H), mode == 2 ? &pal : nullptr); fill_samples(im, 30);
    image::Writer wr(im); configure(x, wr, su);
    Raw fgr = { 200, 10, 0, 100 };
    set_slot(wr, SlotId::foreground, rgba8(), fgr, 1);
    Slot fg = make_slot(k, rgba8(), fgr, 1), bg = default_slot(k, SlotId::background);
    image::Pos pos(-1, 1); image::Size size(W + 1, std::max(H - 1, 1));
    switch (which) {
        case 0: do_fill(x, im, wr, image::Box(pos, size), SlotId::foreground, fg, su, bg); break;
        case 1: do_put_block(x, im, wr, k, pos, size, su, bg, 3, 0); break;
        case 2: do_put_block(x, im, wr, kinds()[7], pos, size, su, bg, 3, 1); break;
        case 3: { Img src(k, image::Size(W, H)); fill_samples(src, 9); image::Reader rd(src); rd.set_falloff_mode(Mode::edge); do_put_image(x, im, wr, src, rd, Mode::edge, bg, pos, image::Box(image::Pos(0, 0), size), su, bg); break; }
        default: do_mask(x, im, wr, { 0, 255, 128, 3, 200, 7, 91 }, pos, size, fg, bg, su, 1);
    }
});

const std::vector<Setup> setups = { { false, 1 }, { true, 1 }, { false, 0.5 }, { true, 0.5 }, { false, 0 }, { true, 0 }, { true, 0.03125 } };

// All target kinds x all source kinds x settings
mc::Scenario s_conv("conversions", 16, [](mc::Ctx& x) {
    int ki = x.choose(int(kinds().size()));
    bool indexed = x.choose(2) == 1;
    x.shard_point();
    int ti = x.choose(int(kinds().size()));
    const Setup& su = setups[std::size_t(x.choose(int(setups.size())))];
    Kind k = kinds()[std::size_t(ki)], t = kinds()[std::size_t(ti)];
    Img pal(k, image::Size(4, 3)); fill_samples(pal, 11);
    Img spal(t, image::Size(3, 3)); fill_samples(spal, 17);
    Raw bgr = { 90, 180, 20, 200 };
    for (unsigned seed : { 0u, 55u }) for (int lay = 0; lay < 2; ++lay) {
        Img im(k, image::Size(5, 4), indexed ? &pal : nullptr); fill_samples(im, seed + 7);
        image::Writer w(im); configure(x, w, su);
        Slot bg = default_slot(k, SlotId::background);
        if (lay) { set_slot(w, SlotId::background, rgba8(), bgr, 1); bg = make_slot(k, rgba8(), bgr, 1); }
        do_put_block(x, im, w, t, image::Pos(0, 0), image::Size(5, 4), su, bg, seed, lay);
        do_put_block(x, im, w, t, image::Pos(2, -1), image::Size(2, 3), su, bg, seed + 9, lay);
        for (int sidx = 0; sidx < 2; ++sidx) for (int falloff = 0; falloff < 3; ++falloff) {
            Img src(t, image::Size(3, 3), sidx ? &spal : nullptr); fill_samples(src, seed + 3);
            image::Reader rd(src);
            Mode m = falloff == 0 ? Mode::background : falloff == 1 ? Mode::edge : Mode::repeat;
            rd.set_falloff_mode(m);
            Slot rbg = default_slot(t, SlotId::background);
            if (lay) { set_slot(rd, SlotId::background, kinds()[4], { 30000, 60000, 500, 40000 }, 1); rbg = make_slot(t, kinds()[4], { 30000, 60000, 500, 40000 }, 1); }
            do_put_image(x, im, w, src, rd, m, rbg, image::Pos(1, 0), image::Box(image::Pos(0, 0), image::Size(3, 3)), su, bg);
            do_put_image(x, im, w, src, rd, m, rbg, image::Pos(-1, 1), image::Box(image::Pos(-1, -1), image::Size(5, 3)), su, bg);
        }
        // whole image
        Img src(t, image::Size(3, 3)); fill_samples(src, seed + 4);
        auto before = im.data;
        w.put_image(image::Pos(1, 2), src);
        verify(x, im, before, image::Box(image::Pos(1, 2), src.size), su, bg, false, [&](int xx, int y) { return source(k, t, src.raw(xx, y)); }, "put_image");
        before = im.data;
        image::WritableImage& wi = im;
        wi.put_image(image::Pos(-1, 0), src, su.blend);
        Setup s2; s2.blend = su.blend;
        verify(x, im, before, image::Box(image::Pos(-1, 0), src.size), s2, default_slot(k, SlotId::background), false, [&](int xx, int y) { return source(k, t, src.raw(xx, y)); }, "WritableImage::put_image");
    }
    x.outcome(mc::mix(std::uint64_t(ki * 2 + indexed), std::uint64_t(ti)));
});

struct Col { int kind; Raw raw; double opacity; };
const std::vector<Col> cols = {
    { -1, {}, 1 }, { 0, { 255, 128, 3, 255 }, 1 }, { 0, { 200, 128, 90, 128 }, 1 }, { 0, { 5, 6, 7, 0 }, 1 }, { 5, { 60000, 100, 3000, 0 }, 1 }, { 9, { 0.25, 0.5, 1, 0 }, 0.25 }, { 1, { 250, 3, 99, 0 }, 1 },
    { 2, { 77, 0, 0, 0 }, 1 }, { 3, { 77, 60, 0, 0 }, 1 }, { 6, { 7700, 0, 0, 0 }, 1 }, { 8, { 0.125, 0.5, 0.25, 0.5 }, 1 }, { 10, { 0.5, 0, 0, 0 }, 1 }, { 11, { 0.125, 0.5, 0, 0 }, 1 }, { 12, { 200, 0, 0, 0 }, 1 }, { 1, { 255, 255, 255, 0 }, 0 },
};
mc::Scenario s_fill("fill", 16, [](mc::Ctx& x) {
    int ki = x.choose(int(kinds().size()));
    bool indexed = x.choose(2) == 1;
    x.shard_point();
    const Setup& su = setups[std::size_t(x.choose(int(setups.size())))];
    Kind k = kinds()[std::size_t(ki)];
    Img pal(k, image::Size(4, 3)); fill_samples(pal, 11);
    const Col& c = cols[std::size_t(x.choose(int(cols.size())))];
    for (SlotId id : { SlotId::background, SlotId::foreground }) {
        Img im(k, image::Size(4, 3), indexed ? &pal : nullptr); fill_samples(im, 7);
        image::Writer w(im); configure(x, w, su);
        Slot s = default_slot(k, id);
        if (c.kind >= 0) { set_slot(w, id, kinds()[std::size_t(c.kind)], c.raw, c.opacity); s = make_slot(k, kinds()[std::size_t(c.kind)], c.raw, c.opacity); }
        Slot bg = id == SlotId::background ? s : default_slot(k, SlotId::background);
        do_fill(x, im, w, image::Box(image::Pos(1, 0), image::Size(2, 2)), id, s, su, bg);
        do_fill(x, im, w, image::Box(image::Pos(-3, 1), image::Size(5, 9)), id, s, su, bg);
        auto before = im.data;
        w.fill(id);
        verify(x, im, before, image::Box(im.size), su, bg, false, [&](int, int) { return source(k, s); }, "fill all");
    }
});
mc::Scenario s_mask("masks", 16, [](mc::Ctx& x) {
    int ki = x.choose(int(kinds().size()));
    bool indexed = x.choose(2) == 1;
    x.shard_point();
    const Setup& su = setups[std::size_t(x.choose(int(setups.size())))];
    Kind k = kinds()[std::size_t(ki)];
    Img pal(k, image::Size(4, 3)); fill_samples(pal, 11);
    const Col& f = cols[std::size_t(x.pick({ 0, 1, 2, 3, 8, 10 }))];
    const Col& b = cols[std::size_t(x.pick({ 0, 1, 2, 5, 7 }))];
    Img im(k, image::Size(16, 16), indexed ? &pal : nullptr); fill_samples(im, 7);
    image::Writer w(im); configure(x, w, su);
    Slot fg = default_slot(k, SlotId::foreground), bg = default_slot(k, SlotId::background);
    if (f.kind >= 0) { set_slot(w, SlotId::foreground, kinds()[std::size_t(f.kind)], f.raw, f.opacity); fg = make_slot(k, kinds()[std::size_t(f.kind)], f.raw, f.opacity); }
    if (b.kind >= 0) { set_slot(w, SlotId::background, kinds()[std::size_t(b.kind)], b.raw, b.opacity); bg = make_slot(k, kinds()[std::size_t(b.kind)], b.raw, b.opacity); }
    std::vector<double> mask; for (int i = 0; i < 256; ++i) mask.push_back((i * 37) % 256);
    do_mask(x, im, w, mask, image::Pos(0, 0), image::Size(16, 16), fg, bg, su, 0);
    do_mask(x, im, w, mask, image::Pos(-3, 5), image::Size(7, 8), fg, bg, su, 2);
});

// Palette lookup and color distance
mc::Scenario s_palette("reverse-palette-lookup", 16, [](mc::Ctx& x) {
    int ki = x.choose(int(kinds().size()));
    x.shard_point();
    Kind k = kinds()[std::size_t(ki)];
    image::Size ps = x.pick(std::vector<image::Size> { { 0, 0 }, { 0, 2 }, { 1, 1 }, { 2, 1 }, { 5, 3 }, { 16, 16 }, { 20, 20 } });
    int variant = x.choose(3);
    Img pal(k, ps);
    if (variant == 0) fill_samples(pal, 5);
    else if (variant == 1) { for (int y = 0; y < ps.height; ++y) for (int xx = 0; xx < ps.width; ++xx) pal.set(xx, y, sample(k, unsigned((y * ps.width + xx) % 3))); } // many duplicates
    else for (int y = 0; y < ps.height; ++y) for (int xx = 0; xx < ps.width; ++xx) { Raw r = sample(k, unsigned(xx + y)); double m = max_comp(k.repr); int i = y * ps.width + xx; r[0] = k.repr == Repr::float_ ? (i * 37 % 256) / 256.0 : std::floor((i * 37 % 256) / 255.0 * m); if (k.alpha && k.nc()) r[std::size_t(k.nc())] = m; pal.set(xx, y, r); }
    bool direct = x.choose(2) == 1;
    if (direct && (variant || ps.width > 1)) x.prune();
    Img im(k, image::Size(1, 1), direct ? nullptr : &pal);
    image::Writer w(im);
    int ti = x.choose(int(kinds().size()));
    Kind t = kinds()[std::size_t(ti)];
    for (unsigned s = 0; s < 60; ++s) {
        Raw c = sample(t, s * 3 + 1);
        Mem m(t.repr, t.n(), image::Size(1), 0); m.put(0, 0, c);
        std::size_t i = 0;
        dispatch(t.repr, [&](auto R) { constexpr Repr rr = decltype(R)::value; i = w.reverse_palette_lookup_a<rr>(m.ctray<rr>()(0, 0), t.space(), t.alpha); });
        Lin l = cvt(to_lin(t, c), t.cs, k.cs);
        if (direct) { MC_CHECK(x, i == 0, "index ", i, " without palette"); }
        else if (!nearest(im, l, i)) x.fail(mc::str("reverse_palette_lookup of ", show(t, c), " in palette of ", k.name, " ", ps.width, "x", ps.height, " gave ", i, " = ", i < im.palette_size() ? show(k, im.entry(i)) : "outside", " which is not closest to ", show(l)));
        x.eval();
    }
});
mc::Scenario s_dist("color-distance", 8, [](mc::Ctx& x) {
    int ki = x.choose(int(kinds().size()));
    x.shard_point();
    Kind k = kinds()[std::size_t(ki)];
    Img im(k, image::Size(1, 1));
    image::Writer w(im);
    int t1 = x.choose(int(kinds().size())), t2 = x.choose(int(kinds().size()));
    Kind a = kinds()[std::size_t(t1)], b = kinds()[std::size_t(t2)];
    for (unsigned s = 0; s < 20; ++s) {
        Raw ca = sample(a, s * 5), cb = sample(b, s * 7 + 2);
        Mem ma(a.repr, a.n(), image::Size(1), 0), mb(b.repr, b.n(), image::Size(1), 0); ma.put(0, 0, ca); mb.put(0, 0, cb);
        double d = 0;
        dispatch(a.repr, [&](auto R) { dispatch(b.repr, [&](auto S) { constexpr Repr rr = decltype(R)::value, ss = decltype(S)::value;
            d = double(w.color_sqdist_a<rr, ss>(ma.ctray<rr>()(0, 0), a.space(), a.alpha, mb.ctray<ss>()(0, 0), b.space(), b.alpha)); }); });
        Lin la = cvt(to_lin(a, ca), a.cs, k.cs), lb = cvt(to_lin(b, cb), b.cs, k.cs);
        Kind e = k; e.alpha = true;
        double want = dist2(e, la, lb);
        if (!(std::abs(d - want) <= 1e-5)) x.fail(mc::str("color_sqdist(", show(a, ca), ", ", show(b, cb), ") for image ", k.name, " is ", d, ", expected ", want));
        x.eval();
    }
});

// Sequences of operations on one writer
mc::Scenario s_seq("sequences", 16, [](mc::Ctx& x) {
    int cfg = x.choose(6);
    Kind k = kinds()[std::size_t(std::vector<int> { 0, 2, 11, 0, 5, 9 }[std::size_t(cfg)])];
    bool indexed = cfg >= 3;
    Img pal(k, image::Size(3, 2)); fill_samples(pal, 13);
    Img im(k, image::Size(3, 2), indexed ? &pal : nullptr); fill_samples(im, 7);
    Img src(kinds()[0], image::Size(2, 2)); fill_samples(src, 70);
    Img same(k, image::Size(2, 2)); fill_samples(same, 71);
    image::Writer w(im);
    image::Reader r1(src), r2(same);
    Setup su;
    Slot slot[2] = { default_slot(k, SlotId::background), default_slot(k, SlotId::foreground) };
    int depth = x.thorough ? 5 : 4;
    for (int step = 0; step < depth; ++step) {
        int op = x.choose(13);
        if (step == 0) x.shard_point();
        if (step == depth - 1 && op >= 8) x.prune();
        MC_TRACE(x, "op ", op);
        switch (op) {
            case 0: do_fill(x, im, w, image::Box(image::Pos(1, 0), image::Size(4, 1)), SlotId::background, slot[0], su, slot[0]); break;
            case 1: do_fill(x, im, w, image::Box(image::Pos(-1, -1), image::Size(2, 4)), SlotId::foreground, slot[1], su, slot[0]); break;
            case 2: do_put_block(x, im, w, k, image::Pos(1, 1), image::Size(3, 2), su, slot[0], unsigned(step), 0); break;
            case 3: do_put_block(x, im, w, kinds()[4], image::Pos(-1, 0), image::Size(2, 2), su, slot[0], unsigned(step) + 5, 1); break;
            case 4: do_put_image(x, im, w, src, r1, Mode::background, default_slot(src.kind, SlotId::background), image::Pos(0, 1), image::Box(image::Pos(1, 0), image::Size(2, 2)), su, slot[0]); break;
            case 5: do_put_image(x, im, w, same, r2, Mode::background, default_slot(k, SlotId::background), image::Pos(1, 0), image::Box(image::Pos(0, 0), image::Size(2, 2)), su, slot[0]); break;
            case 6: do_mask(x, im, w, { 255, 40, 128, 0 }, image::Pos(0, 0), image::Size(2, 3), slot[1], slot[0], su, 0); break;
            case 7: { // copy from own image, disjoint areas
                auto before = im.data; Img old = im;
                w.put_image_a(image::Pos(2, 0), w, image::Box(image::Pos(0, 0), image::Size(1, 2)));
                verify(x, im, before, image::Box(image::Pos(2, 0), image::Size(1, 2)), su, slot[0], false, [&](int xx, int y) { auto c = old.color(xx, y); return source(k, k, *c); }, "put_image from self");
                break;
            }
            case 8: set_slot(w, SlotId::background, rgba8(), { 30, 60, 90, 128 }, 1); slot[0] = make_slot(k, rgba8(), { 30, 60, 90, 128 }, 1); break;
            case 9: { Raw r = sample(k, 31); set_slot(w, SlotId::foreground, k, r, 1); slot[1] = make_slot(k, k, r, 1); break; }
            case 10: set_slot(w, SlotId::foreground, kinds()[11], { 0.25, 0.5, 0, 0 }, 1); slot[1] = make_slot(k, kinds()[11], { 0.25, 0.5, 0, 0 }, 1); break;
            case 11: su.blend = !su.blend; w.set_blending_enabled(su.blend); break;
            default: su.opacity = su.opacity == 1 ? 0.5 : 1; w.set_opacity(image::float_type(su.opacity));
        }
        if (op == 7 && indexed) for (int y = 0; y < 2; ++y) MC_CHECK(x, im.at(0, y, 0) < 256, "index");
        x.step();
        x.state(mc::mix(mc::hash_bytes(im.data.data(), im.data.size() * sizeof(double)), std::uint64_t(cfg * 4 + su.blend * 2 + (su.opacity == 1))));
    }
});

// Convenience functions
template<class R> void check_type(mc::Ctx& x, Img& im, image::Writer& w, const Setup& su, const char* name)
{
    Kind t { name, R::color_space_tag, R::has_alpha, R::comp_repr };
    Slot bg = default_slot(im.kind, SlotId::background);
    image::PixelBlock<R> block(image::Size(2, 2));
    for (int i = 0; i < 4; ++i) { Raw r = sample(t, unsigned(i) * 3 + 2); for (int c = 0; c < t.n(); ++c) put_comp(t.repr, block.tray()(i % 2, i / 2) + c, r[std::size_t(c)]); }
    auto before = im.data;
    MC_CHECK(x, &w.put_block(image::Pos(1, -1), block) == &w, "returns writer");
    verify(x, im, before, image::Box(image::Pos(1, -1), image::Size(2, 2)), su, bg, false, [&](int xx, int y) { return source(im.kind, t, sample(t, unsigned(y * 2 + xx) * 3 + 2)); }, "put_block(PixelBlock)");
    before = im.data;
    w.template put_block<R>(image::Pos(0, 0), block.tray());
    verify(x, im, before, image::Box(image::Pos(0, 0), image::Size(2, 2)), su, bg, false, [&](int xx, int y) { return source(im.kind, t, sample(t, unsigned(y * 2 + xx) * 3 + 2)); }, "put_block(tray)");
    for (int i = 0; i < 4; ++i) {
        image::Pixel<R> p; Raw r = sample(t, unsigned(i) + 50); for (int c = 0; c < t.n(); ++c) put_comp(t.repr, &p[std::size_t(c)], r[std::size_t(c)]);
        before = im.data;
        image::Pos pos(i - 1, i % 2);
        w.put_pixel(pos, p);
        verify(x, im, before, image::Box(pos, image::Size(1)), su, bg, false, [&](int, int) { return source(im.kind, t, r); }, "put_pixel");
        if (im.palette) { std::size_t idx = w.reverse_palette_lookup(p); Lin l = cvt(to_lin(t, r), t.cs, im.kind.cs); if (!nearest(im, l, idx)) x.fail(mc::str("reverse_palette_lookup of ", show(t, r), " gave ", idx)); }
    }
    for (int i = 0; i < 4; ++i) {
        image::Pixel<R> p; image::Pixel_RGBA_8 q; Raw r = sample(t, unsigned(i) + 50), s = sample(rgba8(), unsigned(i) + 3);
        for (int c = 0; c < t.n(); ++c) put_comp(t.repr, &p[std::size_t(c)], r[std::size_t(c)]);
        for (int c = 0; c < 4; ++c) put_comp(Repr::int8, &q[std::size_t(c)], s[std::size_t(c)]);
        Kind e = im.kind; e.alpha = true;
        double want = dist2(e, cvt(to_lin(t, r), t.cs, e.cs), cvt(to_lin(rgba8(), s), Tag::rgb, e.cs)), d = double(w.color_sqdist(p, q));
        if (!(std::abs(d - want) <= 1e-5)) x.fail(mc::str("color_sqdist is ", d, ", expected ", want));
    }
}
mc::Scenario s_types("pixel-types", 8, [](mc::Ctx& x) {
    int ki = x.choose(int(kinds().size()));
    bool indexed = x.choose(2) == 1;
    x.shard_point();
    const Setup& su = setups[std::size_t(x.choose(4))];
    Kind k = kinds()[std::size_t(ki)];
    Img pal(k, image::Size(4, 3)); fill_samples(pal, 11);
    Img im(k, image::Size(3, 2), indexed ? &pal : nullptr); fill_samples(im, 7);
    image::Writer w(im); configure(x, w, su);
    MC_CHECK(x, &w.get_image() == &im, "image");
    check_type<image::Lum_8>(x, im, w, su, "Lum_8"); check_type<image::LumA_8>(x, im, w, su, "LumA_8"); check_type<image::RGB_8>(x, im, w, su, "RGB_8"); check_type<image::RGBA_8>(x, im, w, su, "RGBA_8");
    check_type<image::Lum_16>(x, im, w, su, "Lum_16"); check_type<image::RGBA_16>(x, im, w, su, "RGBA_16"); check_type<image::LumA_F>(x, im, w, su, "LumA_F"); check_type<image::RGBA_F>(x, im, w, su, "RGBA_F");
    Slot bg = default_slot(k, SlotId::background);
    for (int i = 0; i < 4; ++i) {
        Kind t = kinds()[std::size_t(i == 0 ? 2 : i == 1 ? 3 : i == 2 ? 1 : 0)];
        Mem m(t.repr, t.n(), image::Size(3, 3), 1);
        for (int y = 0; y < 3; ++y) for (int xx = 0; xx < 3; ++xx) m.put(xx, y, sample(t, unsigned(y * 3 + xx)));
        auto tray = m.ctray<Repr::int8>();
        auto before = im.data;
        image::Pos pos(1, -1);
        if (i == 0) w.put_block_lum(pos, tray); else if (i == 1) w.put_block_luma(pos, tray); else if (i == 2) w.put_block_rgb(pos, tray); else w.put_block_rgba(pos, tray);
        verify(x, im, before, image::Box(pos, image::Size(3, 3)), su, bg, false, [&](int xx, int y) { return source(k, t, m.get(xx, y)); }, "put_block_*");
    }
    auto before = im.data;
    w.put_pixel(image::Pos(2, 1), util::Color(10, 200, 30, 77));
    verify(x, im, before, image::Box(image::Pos(2, 1), image::Size(1)), su, bg, false, [&](int, int) { return source(k, rgba8(), { 10, 200, 30, 77 }); }, "put_pixel(Color)");
});

// Library image types
mc::Scenario s_images("image-types", 4, [](mc::Ctx& x) {
    int which = x.choose(3);
    x.shard_point();
    int w = x.range(0, 3), h = x.range(0, 2);
    const Setup& su = setups[std::size_t(x.choose(4))];
    Kind k = kinds()[std::size_t(which == 0 ? 0 : which == 1 ? 10 : 1)];
    Img pal(k, image::Size(2, 3)); fill_samples(pal, 4);
    image::Box sub(image::Pos(1, 1), image::Size(w, h));
    image::PixelBlock<image::RGBA_8> b0(image::Size(w + 2, h + 3)); image::PixelBlock<image::Lum_F> b1(image::Size(w + 2, h + 3)); image::IndexBlock_8 b2(image::Size(w + 2, h + 3));
    Img ref(k, image::Size(w, h), which == 2 ? &pal : nullptr);
    auto at = [&](int xx, int y) -> void* { return which == 0 ? static_cast<void*>(b0.tray()(xx, y)) : which == 1 ? static_cast<void*>(b1.tray()(xx, y)) : static_cast<void*>(b2.tray()(xx, y)); };
    auto get = [&](int xx, int y) { Raw r = {}; for (int c = 0; c < ref.stored_n(); ++c) r[std::size_t(c)] = get_comp(ref.stored_repr(), static_cast<char*>(at(xx, y)) + std::size_t(c) * word_size(ref.stored_repr())); return r; };
    for (int y = 0; y < h + 3; ++y) for (int xx = 0; xx < w + 2; ++xx) {
        Raw r = which == 2 ? Raw { double((xx + 2 * y) % 6), 0, 0, 0 } : sample(k, unsigned(y * 5 + xx));
        for (int c = 0; c < ref.stored_n(); ++c) put_comp(ref.stored_repr(), static_cast<char*>(at(xx, y)) + std::size_t(c) * word_size(ref.stored_repr()), r[std::size_t(c)]);
    }
    auto snapshot = [&] { std::vector<Raw> v; for (int y = 0; y < h + 3; ++y) for (int xx = 0; xx < w + 2; ++xx) v.push_back(get(xx, y)); return v; };
    auto sync = [&] { for (int y = 0; y < h; ++y) for (int xx = 0; xx < w; ++xx) ref.set(xx, y, get(xx + 1, y + 1)); };
    image::WritableTrayImage<Repr::int8> i0(b0, sub); image::WritableTrayImage<Repr::float_> i1(b1, sub); image::WritableIndexedTrayImage<Repr::int8> i2(b2, sub, pal);
    image::WritableImage& im = which == 0 ? static_cast<image::WritableImage&>(i0) : which == 1 ? static_cast<image::WritableImage&>(i1) : i2;
    image::Writer wr(im); configure(x, wr, su);
    Slot bg = default_slot(k, SlotId::background);
    auto check = [&](const image::Box& box, auto&& op, auto&& src, const char* what) {
        sync();
        auto before = ref.data; auto s0 = snapshot();
        op();
        sync();
        verify(x, ref, before, box, su, bg, false, src, what);
        auto s1 = snapshot();
        for (int y = 0; y < h + 3; ++y) for (int xx = 0; xx < w + 2; ++xx)
            if (!(xx >= 1 && y >= 1 && xx < w + 1 && y < h + 1)) MC_CHECK(x, s0[std::size_t(y * (w + 2) + xx)] == s1[std::size_t(y * (w + 2) + xx)], "pixel outside sub-image modified at ", xx, ",", y);
    };
    Slot fg = default_slot(k, SlotId::foreground);
    for (int px = -2; px <= 2; ++px) for (int py = -2; py <= 2; ++py) {
        image::Box box(image::Pos(px, py), image::Size(3, 2));
        check(box, [&] { wr.fill(box, SlotId::foreground); }, [&](int, int) { return source(k, fg); }, "fill");
        Kind t = k;
        for (int r = 0; r < 2; ++r) {
            Mem m(t.repr, t.n(), box.size, r);
            for (int y = 0; y < 2; ++y) for (int xx = 0; xx < 3; ++xx) m.put(xx, y, sample(t, unsigned(y * 3 + xx + px * 7 + 20)));
            check(box, [&] { dispatch(t.repr, [&](auto R) { constexpr Repr rr = decltype(R)::value; wr.put_block_a<rr>(box.pos, m.ctray<rr>(), t.space(), t.alpha); }); }, [&](int xx, int y) { return source(k, t, m.get(xx, y)); }, "put_block");
            t = kinds()[3];
        }
    }
});
} // namespace
