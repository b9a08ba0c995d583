// C40: loading of all kinds of PNG files, damaged files, and I/O failures
#include "fakefs.hpp"
#include "C40_png.hpp"
#include <archon/core/misc_error.hpp>
#include <archon/image/load.hpp>
#include <archon/image/save.hpp>

namespace {

struct Variant { int type, depth; bool trns; };
const std::vector<Variant>& variants()
{
    static const std::vector<Variant> v = [] {
        std::vector<Variant> r;
        for (int d : { 1, 2, 4, 8, 16 }) for (bool t : { false, true }) r.push_back({ PNG_COLOR_TYPE_GRAY, d, t });
        for (int d : { 8, 16 }) { r.push_back({ PNG_COLOR_TYPE_GRAY_ALPHA, d, false }); r.push_back({ PNG_COLOR_TYPE_RGB_ALPHA, d, false }); for (bool t : { false, true }) r.push_back({ PNG_COLOR_TYPE_RGB, d, t }); }
        for (int d : { 1, 2, 4, 8 }) for (bool t : { false, true }) r.push_back({ PNG_COLOR_TYPE_PALETTE, d, t });
        return r;
    }();
    return v;
}
png::File file(const Variant& v, int w, int h, unsigned seed)
{
    png::File f;
    f.w = w; f.h = h; f.depth = v.depth; f.type = v.type;
    int n = f.max() + 1;
    if (v.type == PNG_COLOR_TYPE_PALETTE) {
        if (v.depth == 8) n = 200;
        else if (v.depth == 4) n = 13;
        for (int i = 0; i < n; ++i) f.palette.push_back({ (i * 37 + 5) % 256, (i * 11) % 256, 255 - i });
        if (v.trns) for (int i = 0; i < std::max(1, n - 1); ++i) f.palette_alpha.push_back((i * 91 + 3) % 256);
    }
    for (int i = 0; i < w * h * f.channels(); ++i) {
        std::uint64_t r = mc::mix(seed * 977u, std::uint64_t(i));
        f.samples.push_back(seed == 0 ? 0 : seed == 1 ? n - 1 : r % 7 == 0 ? n - 1 : int(r % unsigned(n)));
    }
    if (v.trns && v.type != PNG_COLOR_TYPE_PALETTE) {
        f.key.emplace();
        for (int c = 0; c < f.channels(); ++c) (*f.key)[std::size_t(c)] = f.samples[f.samples.size() - std::size_t(f.channels() - c)];
    }
    return f;
}

mc::Scenario s1("load-all-kinds", 16, [](mc::Ctx& x) {
    auto& v = variants()[std::size_t(x.choose(int(variants().size())))];
    int w = x.range(1, x.thorough ? 17 : 10);
    x.shard_point();
    int h = x.range(1, x.thorough ? 17 : 9);
    if (!x.thorough && h > 3 && w != 1 && w != 5 && w != 9) return;
    auto f = file(v, w, h, unsigned(x.choose(3)));
    f.adam7 = x.choose(2);
    f.extras = x.choose(2);
    if (f.extras) f.buffer = 9;
    bool tracked = x.choose(2);
    MC_TRACE(x, "type ", v.type, " depth ", v.depth, v.trns ? " tRNS " : " ", w, "x", h, f.adam7 ? " interlaced" : "");
    auto data = png::encode(f);
    png::Source s(data);
    s.chunk = f.extras ? 5 : 0;
    std::unique_ptr<image::WritableImage> im;
    std::error_code ec;
    png::Tracker t(x, { w, h });
    bool detect = tracked && f.extras;
    if (detect) {
        image::LoadConfig c;
        c.tracker = &t;
        image::Input in(s);
        int hint = w % 3;
        if (hint == 1) in.mime_type = "image/png";
        if (hint == 2) in.filename_extension = h % 2 ? ".png" : ".jpg";
        MC_CHECK(x, image::try_load_a(in, im, std::locale::classic(), c, ec), "not loaded: ", ec.message());
    }
    else MC_CHECK(x, png::load(x, s, im, ec, tracked ? &t : nullptr), "not loaded: ", ec.message());
    if (tracked) t.check_complete();
    MC_CHECK(x, s.pos == data.size(), "file was not read to its end");
    png::check_loaded(x, f, *im);
    x.outcome(std::uint64_t(v.type * 64 + v.depth * 2 + v.trns));
});

mc::Scenario s2("load-many-rows", 8, [](mc::Ctx& x) {
    // More rows than there are progress notifications
    auto& v = variants()[std::size_t(x.pick({ 0, 9, 12 }))];
    int w = x.pick({ 1, 900, 2000, 4096, 5000 }), h = x.pick({ 3, 4, 5, 9, 4095, 4096, 4097, 5000 });
    if (w > 1 && h > 9) return;
    x.shard_point();
    auto f = file(v, w, h, 2);
    auto data = png::encode(f);
    png::Source s(data);
    std::unique_ptr<image::WritableImage> im;
    std::error_code ec;
    png::Tracker t(x, { w, h });
    MC_CHECK(x, png::load(x, s, im, ec, &t), "not loaded: ", ec.message());
    t.check_complete();
    png::check_loaded(x, f, *im);
    png::Sink sink;
    png::Tracker t2(x, { w, h });
    MC_CHECK(x, png::save(x, *im, sink, false, ec, &t2), "not saved");
    t2.check_complete();
    MC_CHECK(x, t2.calls == t.calls, "progress is reported differently when saving");
});

bool try_damaged(mc::Ctx& x, const std::string& data, std::unique_ptr<image::WritableImage>& im, std::error_code& ec)
{
    png::Source s(data);
    bool ok = false;
    try { ok = png::load(x, s, im, ec); }
    catch (std::exception& e) { x.fail(std::string("exception: ") + e.what()); }
    MC_CHECK(x, ok == bool(im), "image set in spite of failure, or not set in spite of success");
    MC_CHECK(x, ok || ec, "no error code after failure");
    x.eval();
    return ok;
}

mc::Scenario s3("truncated-files", 16, [](mc::Ctx& x) {
    auto& v = variants()[std::size_t(x.choose(int(variants().size())))];
    auto f = file(v, 6, 5, 2);
    f.adam7 = x.choose(2);
    f.extras = x.choose(2);
    x.shard_point();
    auto data = png::encode(f);
    for (std::size_t n = 0; n < data.size(); ++n) {
        std::unique_ptr<image::WritableImage> im;
        std::error_code ec;
        MC_CHECK(x, !try_damaged(x, data.substr(0, n), im, ec), "file truncated to ", n, " of ", data.size(), " bytes is loaded without error");
        MC_CHECK(x, (n < 8 ? ec == image::Error::wrong_file_format : ec == core::make_error_code(core::MiscError::premature_end_of_input)), "wrong error: ", ec.message());
    }
});

mc::Scenario s4("corrupt-files", 16, [](mc::Ctx& x) {
    auto& v = variants()[std::size_t(x.choose(int(variants().size())))];
    auto f = file(v, 6, 5, 2);
    f.adam7 = x.choose(2);
    f.extras = x.choose(2);
    x.shard_point();
    auto data = png::encode(f);
    for (std::size_t n = 0; n < data.size(); ++n) for (int b = 0; b < (x.thorough ? 255 : 9); ++b) {
        auto d = data;
        d[n] = char(d[n] ^ (x.thorough ? b + 1 : b < 8 ? 1 << b : 0xA5));
        std::unique_ptr<image::WritableImage> im;
        std::error_code ec;
        if (!try_damaged(x, d, im, ec)) continue;
        // Only damage to information that has no bearing on the pixels can go unnoticed. This includes loss of color key.
        bool loss = !f.key && f.palette_alpha.empty();
        if (!loss && !im->get_transfer_info().has_alpha) { auto f2 = f; f2.key.reset(); f2.palette_alpha.clear(); png::check_loaded(x, f2, *im); continue; }
        png::check_loaded(x, f, *im);
        MC_CHECK(x, f.extras || !loss || n + 4 >= data.size(), "damage to byte ", n, " of ", data.size(), " was not noticed");
    }
});

void fix_crcs(std::string& d)
{
    std::size_t p = 8;
    while (p + 12 <= d.size()) {
        std::size_t n = 0;
        for (std::size_t i = 0; i < 4; ++i) n = n * 256 + std::uint8_t(d[p + i]);
        if (n > d.size() || p + 12 + n > d.size()) return;
        auto c = crc32(crc32(0, nullptr, 0), reinterpret_cast<const Bytef*>(d.data() + p + 4), uInt(n + 4));
        for (std::size_t i = 0; i < 4; ++i) d[p + 8 + n + i] = char(c >> (24 - 8 * i));
        p += 12 + n;
    }
}

mc::Scenario s5("forged-files", 16, [](mc::Ctx& x) {
    // Damage with matching checksums: never a crash or a hang, image as large as promised
    auto& v = variants()[std::size_t(x.choose(int(variants().size())))];
    auto f = file(v, 6, 5, 2);
    f.adam7 = x.choose(2);
    f.extras = x.choose(2);
    x.shard_point();
    auto data = png::encode(f);
    for (std::size_t n = 8; n < data.size(); ++n) for (int b = 0; b < (x.thorough ? 255 : 12); ++b) {
        if (n >= 16 && n < 24 && (n < 18 || n >= 20) && n < 22) continue;       // huge images
        auto d = data;
        static const int masks[] = { 1, 2, 4, 8, 16, 32, 64, 128, 255, 3, 0x55, 0x0F };
        d[n] = char(d[n] ^ (x.thorough ? b + 1 : masks[b]));
        fix_crcs(d);
        std::unique_ptr<image::WritableImage> im;
        std::error_code ec;
        auto dim = [&](std::size_t p) { return std::uint8_t(d[p]) * 16777216 + std::uint8_t(d[p + 1]) * 65536 + std::uint8_t(d[p + 2]) * 256 + std::uint8_t(d[p + 3]); };
        if (dim(16) * long(dim(20)) > 5000000) continue;
        if (try_damaged(x, d, im, ec)) {
            MC_CHECK(x, (im->get_size() == image::Size(dim(16), dim(20))), "wrong image size");
            png::pixels(*im);
        }
    }
});

mc::Scenario s6("faults-while-loading", 8, [](mc::Ctx& x) {
    auto& v = variants()[std::size_t(x.pick({ 1, 11, 19 }))];
    auto f = file(v, 5, 60, 2);
    f.adam7 = x.choose(2);
    f.buffer = 20;
    x.shard_point();
    auto data = png::encode(f);
    png::Source ref(data);
    std::unique_ptr<image::WritableImage> im;
    std::error_code ec;
    png::Tracker t0(x, { 5, 60 });
    MC_CHECK(x, png::load(x, ref, im, ec, &t0), "not loaded");
    im.reset();
    int kind = x.choose(3);
    png::Source s(data);
    png::Tracker t(x, { 5, 60 });
    if (kind < 2) { s.fail_at = x.range(1, ref.calls); s.throws = kind; }
    else t.throw_at = x.range(1, t0.calls);
    MC_TRACE(x, "fault ", kind, " at ", kind < 2 ? s.fail_at : t.throw_at);
    bool threw = false, ok = false;
    ec = {};
    try { ok = png::load(x, s, im, ec, &t); }
    catch (png::Source::Stop&) { threw = true; MC_CHECK(x, kind == 1, "wrong exception"); }
    catch (png::Tracker::Stop&) { threw = true; MC_CHECK(x, kind == 2, "wrong exception"); }
    MC_CHECK(x, !im, "image set in spite of failure");
    if (kind == 0) MC_CHECK(x, !threw && !ok && (ec == std::errc::io_error || (s.fail_at == 1 && ec == image::Error::wrong_file_format)), "error of source was not reported: ", ok, " ", ec.message());
    else MC_CHECK(x, threw, "exception was swallowed");
    MC_CHECK(x, s.calls == s.fail_at || kind == 2, "source was used after failure");
});

struct ThrowingLogger final : log::RootLogger {
    int count = 0, throw_at = 0;
    struct Stop {};
    ThrowingLogger() : log::RootLogger(std::locale::classic()) {}
    void root_log(std::string_view) override { if (++count == throw_at) throw Stop(); }
};

mc::Scenario s7("failing-logger", 1, [](mc::Ctx& x) {
    auto f = file(variants()[std::size_t(x.pick({ 1, 11, 19 }))], 5, 5, 2);
    f.adam7 = x.choose(2);
    f.extras = true;
    auto data = png::encode(f);
    int damage = x.choose(3);       // none, damage to critical chunk, damage to ancillary chunk
    if (damage) { auto p = data.find(damage == 1 ? "IDAT" : "pHYs"); data[p + 4] = char(data[p + 4] ^ 1); }
    ThrowingLogger ref;
    std::unique_ptr<image::WritableImage> im;
    std::error_code ec;
    png::Source s0(data);
    bool ok0 = png::load(x, s0, im, ec, nullptr, ref);
    MC_CHECK(x, ok0 == (damage != 1), "unexpected result ", ok0);
    MC_CHECK(x, ref.count > 0, "nothing was logged");
    im.reset();
    ThrowingLogger l;
    l.throw_at = x.range(1, ref.count);
    png::Source s(data);
    bool threw = false;
    try { png::load(x, s, im, ec, nullptr, l); } catch (ThrowingLogger::Stop&) { threw = true; }
    MC_CHECK(x, threw && !im, "exception was swallowed");
    MC_CHECK(x, l.count == l.throw_at, "logger used after failure");
});

// Files

struct Env {
    fakefs::FS fs;
    Env() { fakefs::fs = &fs; }
    ~Env() { fakefs::fs = nullptr; }
};

mc::Scenario s8("files-with-faults", 16, [](mc::Ctx& x) {
    Env env;
    auto f = file(variants()[std::size_t(x.pick({ 3, 11, 19 }))], 4, 3, 2);
    auto data = png::encode(f);
    bool saving = x.choose(2);
    int buf = x.choose(4);      // default, none, tiny, own
    int naming = x.choose(3);   // extension, explicit format, unknown extension
    x.shard_point();
    char own[33];
    std::string path = naming == 0 ? "/mcfake/a.png" : naming == 1 ? "/mcfake/a.dat" : "/mcfake/b";
    std::error_code ec;
    env.fs.faults = env.fs.meta_faults = true;
    if (!saving) {
        env.fs.add(path.substr(8), data);
        image::LoadConfig c;
        if (buf) c.read_buffer_size = buf == 1 ? 0 : 3;
        if (buf == 3) c.read_buffer = own;
        if (naming == 1) c.file_format = "png";
        std::unique_ptr<image::WritableImage> im;
        bool ok = image::try_load(std::filesystem::path(path), im, std::locale::classic(), c, ec);
        MC_TRACE(x, "load buffer ", buf, " naming ", naming, " errors ", env.fs.num_err, " interrupts ", env.fs.eintr);
        MC_CHECK(x, ok || env.fs.num_err, "failed for no reason: ", ec.message());
        MC_CHECK(x, ok || ec, "no error code");
        MC_CHECK(x, ok == bool(im), "image and result disagree");
        MC_CHECK(x, !ok || !env.fs.num_err, "error of system was ignored");
        if (ok) png::check_loaded(x, f, *im);
    }
    else {
        std::unique_ptr<image::WritableImage> im;
        png::Source s(data);
        MC_CHECK(x, png::load(x, s, im, ec), "not loaded");
        png::Sink ref;
        MC_CHECK(x, png::save(x, *im, ref, false, ec), "not saved");
        env.fs.add(path.substr(8), "old contents of file");
        image::SaveConfig c;
        if (buf) c.write_buffer_size = buf == 1 ? 0 : 3;
        if (buf == 3) c.write_buffer = own;
        if (naming == 1) c.file_format = "png";
        ec = {};
        bool ok = image::try_save(*im, std::filesystem::path(path), std::locale::classic(), c, ec);
        MC_TRACE(x, "save buffer ", buf, " naming ", naming, " errors ", env.fs.num_err, " interrupts ", env.fs.eintr);
        auto& now = env.fs.files[path]->data;
        if (naming == 2) {
            MC_CHECK(x, !ok && ec == image::Error::file_format_detection_failed, "format is unknown, but result is ", ok, " ", ec.message());
            MC_CHECK(x, now == "old contents of file", "file was touched although format is unknown");
        }
        else {
            MC_CHECK(x, ok || env.fs.num_err, "failed for no reason: ", ec.message());
            MC_CHECK(x, ok || ec, "no error code");
            MC_CHECK(x, !ok || !env.fs.num_err, "error of system was ignored");
            if (ok) MC_CHECK(x, now == ref.data, "file is incomplete or wrong");
        }
    }
    MC_CHECK(x, env.fs.open_count() == 0, "file was not closed");
    x.outcome(std::uint64_t(env.fs.num_err * 4 + env.fs.eintr));
});

mc::Scenario s9("unknown-formats", 1, [](mc::Ctx& x) {
    png::Source s(x.choose(2) ? std::string("GIF89a and so on") : std::string());
    image::LoadConfig c;
    std::unique_ptr<image::WritableImage> im;
    std::error_code ec;
    image::Input in(s);
    int k = x.choose(3);
    if (k == 1) c.file_format = "gif";
    if (k == 2) c.file_format = "png";
    MC_CHECK(x, !image::try_load_a(in, im, std::locale::classic(), c, ec) && !im, "loaded");
    MC_CHECK(x, ec == (k == 0 ? image::Error::file_format_detection_failed : k == 1 ? image::Error::file_format_unavailable : image::Error::wrong_file_format), "wrong error: ", ec.message());
    img::Img src(img::kinds()[0], { 2, 2 });
    png::Sink sink;
    image::Output out(sink);
    image::SaveConfig sc;
    if (k == 1) sc.file_format = "gif";
    out.mime_type = k == 2 ? "image/png" : "";
    bool ok = image::try_save_a(src, out, std::locale::classic(), sc, ec);
    MC_CHECK(x, ok == (k == 2), "saved or not saved");
    if (k < 2) MC_CHECK(x, ec == (k == 0 ? image::Error::file_format_detection_failed : image::Error::file_format_unavailable) && sink.data.empty(), "wrong error: ", ec.message());
});

} // namespace
