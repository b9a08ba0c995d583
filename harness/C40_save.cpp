// C40: saving of images of all formats
#include "C40_png.hpp"
#include "C37_formats.hpp"
using c37::big; using c37::lit; using c37::Ref;

namespace {

using u8 = unsigned char; using s8 = signed char; using u16 = std::uint16_t; using s16 = std::int16_t; using u32 = std::uint32_t; using s32 = std::int32_t; using v64 = std::uint64_t;
using image::IntegerPixelFormat; using image::PackedPixelFormat; using image::SubwordPixelFormat; using image::IndexedPixelFormat;
using L = image::ChannelSpec_Lum; using LA = image::ChannelSpec_LumA; using C3 = image::ChannelSpec_RGB; using C4 = image::ChannelSpec_RGBA;

struct Entry {
    std::string name;
    std::unique_ptr<image::WritableImage> (*make)(image::Size, unsigned seed);
};
// mode: seed 0: all bits zero, 1: all ones, otherwise mixed
template<class F> void fill(image::BufferedImage<F>& im, unsigned seed)
{
    auto r = c37::ref(static_cast<const F*>(nullptr));
    auto b = im.get_buffer();
    std::uint64_t h = seed * 1234567u;
    auto mask = r.bits_per_word >= 64 ? ~std::uint64_t(0) : (std::uint64_t(1) << r.bits_per_word) - 1;
    for (auto& w : b) {
        h = mc::mix(h, 77);
        std::uint64_t v = seed == 0 ? 0 : seed == 1 ? ~std::uint64_t(0) : h;
        w = core::cast_from_twos_compl_a<typename F::word_type>(v & mask);
    }
}
template<class F> std::unique_ptr<image::WritableImage> make(image::Size s, unsigned seed)
{
    auto im = std::make_unique<image::BufferedImage<F>>(s);
    fill(*im, seed);
    return im;
}
template<class F> Entry e(const char* n) { return { n, &make<F> }; }
#define E(...) e<__VA_ARGS__>(#__VA_ARGS__)

const std::vector<Entry>& formats()
{
    static const std::vector<Entry> l = {
        E(IntegerPixelFormat<L, char, 8>), E(IntegerPixelFormat<LA, char, 8>), E(IntegerPixelFormat<C3, char, 8>), E(IntegerPixelFormat<C4, char, 8>),
        E(IntegerPixelFormat<LA, u8, 8, u8, 1, big, true>), E(IntegerPixelFormat<LA, u8, 8, u8, 1, big, false, true>), E(IntegerPixelFormat<LA, s8, 8, s8, 1, big, true, true>),
        E(IntegerPixelFormat<C3, u8, 8, u8, 1, big, false, true>), E(IntegerPixelFormat<C4, char, 8, char, 1, big, true>), E(IntegerPixelFormat<C4, u8, 8, u8, 1, big, false, true>), E(IntegerPixelFormat<C4, char, 8, char, 1, lit, true, true>),
        E(IntegerPixelFormat<L, char, 8, s16, 2, big>), E(IntegerPixelFormat<L, char, 8, s16, 2, lit>), E(IntegerPixelFormat<LA, u8, 8, u16, 2, lit, true>), E(IntegerPixelFormat<LA, u8, 8, u16, 2, big, false, true>),
        E(IntegerPixelFormat<C3, char, 8, s16, 2, big>), E(IntegerPixelFormat<C3, char, 8, s16, 2, lit, false, true>), E(IntegerPixelFormat<C4, char, 8, s16, 2, lit, true>), E(IntegerPixelFormat<C4, char, 8, s16, 2, lit, false, true>), E(IntegerPixelFormat<C4, char, 8, s16, 2, big, true, true>),
        E(IntegerPixelFormat<L, s16, 16>), E(IntegerPixelFormat<LA, u16, 16>), E(IntegerPixelFormat<C3, u16, 16>), E(IntegerPixelFormat<C4, s16, 16>), E(IntegerPixelFormat<C4, s16, 16, s16, 1, big, true, true>), E(IntegerPixelFormat<C3, u16, 16, u16, 1, lit, false, true>),
        E(IntegerPixelFormat<C3, u16, 8>), E(IntegerPixelFormat<C4, u32, 8, u32, 1, big, true>), E(IntegerPixelFormat<L, u8, 5>), E(IntegerPixelFormat<L, u8, 1>), E(IntegerPixelFormat<L, u8, 4>), E(IntegerPixelFormat<LA, u8, 2>), E(IntegerPixelFormat<C3, u8, 1>), E(IntegerPixelFormat<C4, u16, 12>),
        E(IntegerPixelFormat<L, u8, 8, u32, 3, big>), E(IntegerPixelFormat<C3, u8, 8, u32, 4, lit>), E(IntegerPixelFormat<C4, s32, 32>), E(IntegerPixelFormat<L, v64, 64>), E(IntegerPixelFormat<L, u16, 16, u32, 2, lit>),
        E(PackedPixelFormat<C3, u16, image::ChannelPacking_565>), E(PackedPixelFormat<C3, u8, image::ChannelPacking_332>), E(PackedPixelFormat<C3, u32, image::ChannelPacking_888>), E(PackedPixelFormat<C3, u32, image::ChannelPacking_888, u8, 8, 3, big>), E(PackedPixelFormat<C3, u32, image::ChannelPacking_888, u8, 8, 3, lit, false, true>),
        E(PackedPixelFormat<C4, u32, image::FourChannelPacking<8, 0, 8, 0, 8, 0, 8, 0>>), E(PackedPixelFormat<C4, u32, image::FourChannelPacking<8, 0, 8, 0, 8, 0, 8, 0>, u8, 8, 4, lit, true>), E(PackedPixelFormat<C4, u32, image::FourChannelPacking<8, 0, 8, 0, 8, 0, 8, 0>, s8, 8, 4, big, false, true>), E(PackedPixelFormat<C4, u32, image::FourChannelPacking<10, 0, 10, 0, 10, 0, 2, 0>>),
        E(PackedPixelFormat<C4, v64, image::FourChannelPacking<16, 0, 16, 0, 16, 0, 16, 0>, u16, 16, 4, big, true, true>), E(PackedPixelFormat<L, u16, image::OneChannelPacking<12, 3>>), E(PackedPixelFormat<LA, u8, image::TwoChannelPacking<6, 0, 2, 0>>),
        E(SubwordPixelFormat<L, u8, 1, 8>), E(SubwordPixelFormat<L, u8, 1, 8, lit>), E(SubwordPixelFormat<L, char, 1, 8, big, false, false, false>), E(SubwordPixelFormat<L, char, 1, 8, lit, false, false, false>), E(SubwordPixelFormat<L, u8, 1, 5>), E(SubwordPixelFormat<L, u16, 1, 16>), E(SubwordPixelFormat<L, u16, 1, 8>),
        E(SubwordPixelFormat<L, s8, 2, 4>), E(SubwordPixelFormat<L, u8, 2, 4, lit>), E(SubwordPixelFormat<L, u8, 2, 4, lit, false, true, false>), E(SubwordPixelFormat<L, u8, 2, 3>), E(SubwordPixelFormat<L, u8, 4, 2>), E(SubwordPixelFormat<L, u8, 4, 2, lit>), E(SubwordPixelFormat<L, u8, 4, 2, big, false, false, false>), E(SubwordPixelFormat<L, u8, 4, 1>), E(SubwordPixelFormat<L, u8, 3, 2>), E(SubwordPixelFormat<L, u8, 8, 1>), E(SubwordPixelFormat<L, u16, 8, 2, lit>),
        E(SubwordPixelFormat<LA, u8, 1, 4>), E(SubwordPixelFormat<LA, u8, 4, 1, lit, true>), E(SubwordPixelFormat<C3, u8, 2, 1>), E(SubwordPixelFormat<C4, u8, 2, 1>), E(SubwordPixelFormat<C4, u32, 8, 1, big, true>),
    };
    return l;
}

void roundtrip(mc::Ctx& x, const image::Image& im, bool adam7, bool tracked)
{
    png::Sink sink;
    std::error_code ec;
    png::Tracker t(x, im.get_size());
    MC_CHECK(x, png::save(x, im, sink, adam7, ec, tracked ? &t : nullptr), "image was not saved: ", ec.message());
    if (tracked) t.check_complete();
    png::File f;
    MC_CHECK(x, png::decode(sink.data, f), "file is not a proper PNG file");
    png::check_saved(x, im, f, adam7);
    // And back
    png::Source src(sink.data);
    src.chunk = adam7 ? 7 : 0;
    std::unique_ptr<image::WritableImage> im2;
    png::Tracker t2(x, im.get_size());
    MC_CHECK(x, png::load(x, src, im2, ec, tracked ? &t2 : nullptr), "saved image was not loaded: ", ec.message());
    if (tracked) t2.check_complete();
    MC_CHECK(x, src.pos == sink.data.size(), "file was not read to its end");
    png::check_loaded(x, f, *im2);
    // A loaded image can be saved again without change
    png::Sink sink2;
    MC_CHECK(x, png::save(x, *im2, sink2, adam7, ec), "loaded image was not saved: ", ec.message());
    png::File f2;
    MC_CHECK(x, png::decode(sink2.data, f2) && f2.samples == f.samples && f2.type == f.type && f2.depth == f.depth, "image changes when saved again after loading");
}

mc::Scenario s1("save-formats", 16, [](mc::Ctx& x) {
    const Entry& e = formats()[std::size_t(x.choose(int(formats().size())))];
    int w = x.range(1, x.thorough ? 18 : 10);
    x.shard_point();
    int h = x.range(1, x.thorough ? 18 : 9);
    if (!x.thorough && h > 3 && w != 1 && w != 7 && w != 8) return;
    unsigned seed = unsigned(x.choose(x.thorough ? 4 : 3));
    bool adam7 = x.choose(2);
    bool tracked = x.choose(2);
    MC_TRACE(x, e.name, " ", w, "x", h, " seed ", seed, adam7 ? " interlaced" : "", tracked ? " tracked" : "");
    auto im = e.make({ w, h }, seed);
    roundtrip(x, *im, adam7, tracked);
    x.outcome(mc::hash_str(e.name));
});

mc::Scenario s2("save-all-values", 16, [](mc::Ctx& x) {
    // Every value of every channel, images without accessible memory
    auto& k = img::kinds()[std::size_t(x.choose(int(img::kinds().size())))];
    x.shard_point();
    bool wide = k.repr != img::Repr::int8;
    img::Img im(k, { 256, wide ? x.thorough ? 256 : 24 : 1 });
    int rest = x.choose(3);
    int ch = x.choose(k.n());
    double m = img::max_comp(k.repr);
    int total = im.size.width * im.size.height;
    for (int i = 0; i < total; ++i) {
        img::Raw r = {};
        for (int c = 0; c < k.n(); ++c) r[std::size_t(c)] = rest == 0 ? 0 : rest == 1 ? m : k.repr == img::Repr::float_ ? 0.25 : std::floor(m * 0.3);
        r[std::size_t(ch)] = k.repr == img::Repr::float_ ? double(image::float_type(double(i) / (total - 1))) : std::floor(double(i) * m / (total - 1) + 0.5);
        if (k.repr == img::Repr::float_ && k.alpha) for (int c = 0; c < k.nc(); ++c) r[std::size_t(c)] = std::min(r[std::size_t(c)], r[std::size_t(k.nc())]);
        im.set(i % 256, i / 256, r);
    }
    MC_TRACE(x, k.name, " channel ", ch, " others ", rest);
    roundtrip(x, im, false, x.choose(2));
});

mc::Scenario s3("save-indexed", 16, [](mc::Ctx& x) {
    auto& k = img::kinds()[std::size_t(x.choose(int(img::kinds().size())))];
    x.shard_point();
    img::Img pal(k, { x.range(1, 3), x.range(1, 2) });
    img::fill_samples(pal, 3);
    image::Size s { x.range(1, 6), x.range(1, 4) };
    img::Img im(k, s, &pal);
    int n = pal.size.width * pal.size.height;
    for (int y = 0; y < s.height; ++y) for (int xx = 0; xx < s.width; ++xx) im.set(xx, y, { double((y * 3 + xx) % n), 0, 0, 0 });
    MC_TRACE(x, k.name, " palette of ", n, " image ", s.width, "x", s.height);
    roundtrip(x, im, x.choose(2), false);
});

mc::Scenario s4("save-indexed-buffers", 16, [](mc::Ctx& x) {
    auto& k = img::kinds()[std::size_t(x.choose(4))];
    int bits = x.pick({ 1, 2, 4 });
    img::Img pal(k, { 1 << bits, 1 });
    for (int i = 0; i < pal.size.width; ++i) pal.set(i, 0, img::sample(k, unsigned(i * 5 + 2)));
    image::Size s { x.range(1, 9), x.range(1, 3) };
    x.shard_point();
    unsigned seed = unsigned(x.choose(4));
    auto go = [&](auto tag) {
        using F = typename decltype(tag)::type;
        image::BufferedImage<F> im(s, F(pal));
        fill(im, seed);
        roundtrip(x, im, seed == 2, false);
    };
    bool little = x.choose(2);
    if (bits == 1) { if (little) go(std::type_identity<IndexedPixelFormat<u8, 1, 8, lit>>()); else go(std::type_identity<IndexedPixelFormat<u8, 1, 8>>()); }
    else if (bits == 2) { if (little) go(std::type_identity<IndexedPixelFormat<u8, 2, 4, lit, u8, 8, 1, lit, false>>()); else go(std::type_identity<IndexedPixelFormat<u8, 2, 4>>()); }
    else { if (little) go(std::type_identity<IndexedPixelFormat<u8, 4, 2, lit>>()); else go(std::type_identity<IndexedPixelFormat<u8, 4, 2, big, u8, 8, 1, big, false>>()); }
});

mc::Scenario s5("all-tiny-bitmaps", 16, [](mc::Ctx& x) {
    int w = x.range(1, 10), h = x.range(1, 4);
    if (w * h > (x.thorough ? 14 : 11)) return;
    int adam7 = x.choose(2);
    x.shard_point();
    for (int v = 0; v < 1 << (w * h); ++v) {
        image::BufferedImage<SubwordPixelFormat<L, u8, 1, 8>> im(image::Size(w, h));
        auto b = im.get_buffer();
        for (auto& c : b) c = 0;
        for (int i = 0; i < w * h; ++i) if (v >> i & 1) b[std::size_t(i / w * ((w + 7) / 8) + i % w / 8)] |= u8(0x80 >> (i % w % 8));
        roundtrip(x, im, adam7, false);
    }
});

mc::Scenario s6("empty-images", 1, [](mc::Ctx& x) {
    int w = x.choose(2), h = x.choose(2);
    if (w && h) return;
    img::Img im(img::kinds()[0], { w, h });
    png::Sink sink;
    std::error_code ec;
    MC_CHECK(x, !png::save(x, im, sink, false, ec), "empty image was saved");
    MC_CHECK(x, ec == image::Error::image_size_out_of_range, "wrong error: ", ec.message());
    MC_CHECK(x, sink.data.empty(), "something was written");
});

mc::Scenario s7("faults-while-saving", 8, [](mc::Ctx& x) {
    auto im = formats()[x.choose(2) ? 3 : 29].make({ 5, 60 }, 2);
    bool adam7 = x.choose(2);
    x.shard_point();
    png::Sink ref;
    std::error_code ec;
    png::Tracker t0(x, im->get_size());
    MC_CHECK(x, png::save(x, *im, ref, adam7, ec, &t0), "not saved");
    int kind = x.choose(3);
    png::Sink sink;
    png::Tracker t(x, im->get_size());
    if (kind < 2) { sink.fail_at = x.range(1, ref.calls); sink.throws = kind; }
    else t.throw_at = x.range(1, t0.calls);
    MC_TRACE(x, "fault ", kind, " at ", kind < 2 ? sink.fail_at : t.throw_at);
    bool threw = false, ok = false;
    ec = {};
    try { ok = png::save(x, *im, sink, adam7, ec, &t); }
    catch (png::Sink::Stop&) { threw = true; MC_CHECK(x, kind == 1, "wrong exception"); }
    catch (png::Tracker::Stop&) { threw = true; MC_CHECK(x, kind == 2, "wrong exception"); }
    if (kind == 0) MC_CHECK(x, !threw && !ok && ec == std::errc::no_space_on_device, "error of sink was not reported: ", ok, " ", ec.message());
    else MC_CHECK(x, threw, "exception was swallowed");
    MC_CHECK(x, sink.calls == sink.fail_at || kind == 2, "sink was used after failure");
    MC_CHECK(x, ref.data.substr(0, sink.data.size()) == sink.data, "wrong data was written before failure");
});

} // namespace
