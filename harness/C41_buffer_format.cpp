// C41: casts between buffer formats, compared through the map from component bits to memory bits
#include <sys/wait.h>
#include <unistd.h>
#include <archon/core/endianness.hpp>
#include <archon/image/buffer_format.hpp>
#include "C37_formats.hpp"
using c37::Ref;

namespace {

using BF = image::BufferFormat;
using IT = BF::IntegerType;
using core::Endianness;
using Layout = std::vector<long>;   // memory bit index per (pixel, canonical channel, bit), channels delimited by -1

int bytes_of(IT t)
{
    switch (t) {
        case IT::byte: case IT::char_: return 1;
        case IT::short_: return sizeof(short);
        case IT::int_: return sizeof(int);
        case IT::long_: return sizeof(long);
        case IT::llong: return sizeof(long long);
    }
    return 0;
}

std::vector<int> stored_order(const BF::ChannelConf& cc)
{
    std::vector<int> v;
    int n = cc.color_space->get_num_channels();
    for (int i = 0; i < n; ++i) v.push_back(i);
    if (cc.has_alpha) v.insert(cc.alpha_channel_first ? v.begin() : v.end(), n);
    if (cc.reverse_order) std::reverse(v.begin(), v.end());
    return v;
}

// Memory bit of a given bit of a given word
long mem(long word, int bit, IT t)
{
    return (word * bytes_of(t) + bit / 8) * 8 + bit % 8;    // little-endian machine
}

// Bit `cb` of a compound of `words` words of `bpw` bits starting at word `base`
long compound(long base, int words, int bpw, Endianness order, int cb, IT t)
{
    int i = cb / bpw;
    return mem(base + (order == Endianness::big ? words - 1 - i : i), cb % bpw, t);
}

Layout layout(const BF::IntegerFormat& f, int w, int h)
{
    auto so = stored_order(f.channel_conf);
    int n = int(so.size());
    Layout l;
    for (long p = 0; p < long(w) * h; ++p)
        for (int c = 0; c < n; ++c) {
            int s = int(std::find(so.begin(), so.end(), c) - so.begin());
            for (int b = 0; b < f.words_per_channel * f.bits_per_word; ++b)
                l.push_back(compound((p * n + s) * f.words_per_channel, f.words_per_channel, f.bits_per_word, f.word_order, b, f.word_type));
            l.push_back(-1);
        }
    return l;
}

Layout layout(const BF::PackedFormat& f, int w, int h)
{
    auto so = stored_order(f.channel_conf);
    int n = int(so.size());
    Layout l;
    for (long p = 0; p < long(w) * h; ++p)
        for (int c = 0; c < n; ++c) {
            int s = int(std::find(so.begin(), so.end(), c) - so.begin());
            int shift = 0;
            for (int k = n - 1; k > s; --k) shift += f.bit_fields[k].width + f.bit_fields[k].gap;
            shift += f.bit_fields[s].gap;
            for (int b = 0; b < f.bit_fields[s].width; ++b)
                l.push_back(compound(p * f.words_per_pixel, f.words_per_pixel, f.bits_per_word, f.word_order, shift + b, f.word_type));
            l.push_back(-1);
        }
    return l;
}

Layout layout(const BF::SubwordFormat& f, int w, int h)
{
    auto so = stored_order(f.channel_conf);
    int n = int(so.size());
    Layout l;
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
            for (int c = 0; c < n; ++c) {
                int s = int(std::find(so.begin(), so.end(), c) - so.begin());
                long word; int slot;
                if (f.word_aligned_rows) {
                    int wpr = (w + f.pixels_per_word - 1) / f.pixels_per_word;
                    word = long(y) * wpr + x / f.pixels_per_word; slot = x % f.pixels_per_word;
                }
                else {
                    long p = long(y) * w + x;
                    word = p / f.pixels_per_word; slot = int(p % f.pixels_per_word);
                }
                int off = (f.bit_order == Endianness::big ? f.pixels_per_word - 1 - slot : slot) * n * f.bits_per_channel + (n - 1 - s) * f.bits_per_channel;
                for (int b = 0; b < f.bits_per_channel; ++b) l.push_back(mem(word, off + b, f.word_type));
                l.push_back(-1);
            }
    return l;
}

Layout layout(const BF& f, int w, int h)
{
    switch (f.type) {
        case BF::Type::integer: return layout(f.integer, w, h);
        case BF::Type::packed: return layout(f.packed, w, h);
        case BF::Type::subword: return layout(f.subword, w, h);
        default: return {};
    }
}

// Reference for is_valid()
bool fields_valid(const image::BitField* f, int n, long long avail)
{
    long long s = 0;
    for (int i = 0; i < n; ++i) {
        if (f[i].width < 1 || f[i].gap < 0) return false;
        s += (long long)f[i].width + f[i].gap;
    }
    return s <= avail;
}
bool valid(const BF& f)
{
    const long long imax = std::numeric_limits<int>::max();
    auto chans = [](const BF::ChannelConf& c) { return (long long)c.color_space->get_num_channels() + c.has_alpha; };
    switch (f.type) {
        case BF::Type::integer: {
            auto& g = f.integer;
            return g.bits_per_word >= 1 && g.words_per_channel >= 1 && g.bits_per_word <= 8 * bytes_of(g.word_type) && (long long)g.bits_per_word * g.words_per_channel <= imax;
        }
        case BF::Type::packed: {
            auto& g = f.packed;
            long long bits = (long long)g.bits_per_word * g.words_per_pixel;
            return g.bits_per_word >= 1 && g.words_per_pixel >= 1 && g.bits_per_word <= 8 * bytes_of(g.word_type) && bits <= imax && chans(g.channel_conf) <= 8 &&
                fields_valid(g.bit_fields, int(chans(g.channel_conf)), bits);
        }
        case BF::Type::subword: {
            auto& g = f.subword;
            return g.bits_per_channel >= 1 && g.pixels_per_word >= 1 && __int128(g.bits_per_channel) * chans(g.channel_conf) * g.pixels_per_word <= 8 * bytes_of(g.word_type);
        }
        case BF::Type::float_: return true;
        case BF::Type::indexed: {
            auto& g = f.indexed;
            return g.bits_per_pixel >= 1 && g.pixels_per_compound >= 1 && g.bits_per_word >= 1 && g.words_per_compound >= 1 && g.bits_per_word <= 8 * bytes_of(g.word_type) &&
                (long long)g.bits_per_word * g.words_per_compound <= imax && (long long)g.bits_per_pixel * g.pixels_per_compound <= (long long)g.bits_per_word * g.words_per_compound;
        }
    }
    return false;
}

const std::vector<std::pair<int, int>>& sizes() { static const std::vector<std::pair<int, int>> v = { { 1, 1 }, { 2, 1 }, { 1, 2 }, { 3, 2 }, { 5, 3 }, { 8, 2 }, { 9, 2 } }; return v; }

template<class F> bool same_mem(const BF& from, const F& to)
{
    for (auto [w, h] : sizes())
        if (layout(from, w, h) != layout(to, w, h)) return false;
    return true;
}

std::string show(const BF::ChannelConf& c) { return mc::str(c.color_space->is_rgb() ? "RGB" : c.color_space->is_lum() ? "Lum" : "degenerate", c.has_alpha ? "+alpha" : "", c.has_alpha && c.alpha_channel_first ? " alpha first" : "", c.reverse_order ? " reversed" : ""); }
const char* show(IT t) { const char* n[] = { "byte", "char", "short", "int", "long", "llong" }; return n[int(t)]; }
const char* show(Endianness e) { return e == Endianness::big ? "big" : "little"; }
std::string show(const BF::IntegerFormat& f) { return mc::str("integer(", show(f.word_type), ", ", f.bits_per_word, " bits per word, ", f.words_per_channel, " words per channel, ", show(f.word_order), ", ", show(f.channel_conf), ")"); }
std::string show(const BF::SubwordFormat& f) { return mc::str("subword(", show(f.word_type), ", ", f.bits_per_channel, " bits per channel, ", f.pixels_per_word, " pixels per word, ", show(f.bit_order), f.word_aligned_rows ? ", aligned rows, " : ", ", show(f.channel_conf), ")"); }
std::string show(const BF::PackedFormat& f)
{
    std::string s = mc::str("packed(", show(f.word_type), ", ", f.bits_per_word, " bits per word, ", f.words_per_pixel, " words per pixel, ", show(f.word_order), ", fields");
    for (int i = 0; i < std::min(f.channel_conf.get_num_channels(), 8); ++i) s += mc::str(" ", f.bit_fields[i].width, "+", f.bit_fields[i].gap);
    return s + ", " + show(f.channel_conf) + ")";
}
std::string show(const BF& f)
{
    switch (f.type) {
        case BF::Type::integer: return show(f.integer);
        case BF::Type::packed: return show(f.packed);
        case BF::Type::subword: return show(f.subword);
        default: return "other";
    }
}
bool is_valid(const BF::IntegerFormat& f) { BF g; g.type = BF::Type::integer; g.integer = f; return valid(g); }
bool is_valid(const BF::SubwordFormat& f) { BF g; g.type = BF::Type::subword; g.subword = f; return valid(g); }
bool is_valid(const BF::PackedFormat& f) { BF g; g.type = BF::Type::packed; g.packed = f; return valid(g); }

const std::vector<IT> word_types = { IT::byte, IT::char_, IT::short_, IT::int_, IT::long_, IT::llong };

bool same(const BF::ChannelConf& a, const BF::ChannelConf& b) { return a.color_space == b.color_space && a.has_alpha == b.has_alpha && a.alpha_channel_first == b.alpha_channel_first && a.reverse_order == b.reverse_order; }
bool same(const BF::IntegerFormat& a, const BF::IntegerFormat& b) { return a.word_type == b.word_type && a.bits_per_word == b.bits_per_word && a.words_per_channel == b.words_per_channel && a.word_order == b.word_order && same(a.channel_conf, b.channel_conf); }
bool same(const BF::SubwordFormat& a, const BF::SubwordFormat& b) { return a.word_type == b.word_type && a.bits_per_channel == b.bits_per_channel && a.pixels_per_word == b.pixels_per_word && a.bit_order == b.bit_order && a.word_aligned_rows == b.word_aligned_rows && same(a.channel_conf, b.channel_conf); }

const BF::IntegerFormat probe_int { IT::llong, 61, 7, Endianness::little, { &image::ColorSpace::get_rgb(), true, true, true } };
const BF::SubwordFormat probe_sub { IT::llong, 13, 3, Endianness::little, true, { &image::ColorSpace::get_rgb(), false, true, true } };

// Casts to bytes that must be possible: words that use all bits and are in native order, and single-word channels
bool simple(const BF& f, const std::string& target)
{
    if (f.type == BF::Type::integer && target == "integer")
        return f.integer.bits_per_word == 8 * bytes_of(f.integer.word_type) && (f.integer.words_per_channel == 1 || f.integer.word_order == Endianness::little);
    if (f.type == BF::Type::integer)
        return bytes_of(f.integer.word_type) == 1 && f.integer.words_per_channel == 1 && f.integer.channel_conf.get_num_channels() == 1;
    if (f.type == BF::Type::subword && target == "integer")
        return bytes_of(f.subword.word_type) == 1 && f.subword.pixels_per_word == 1 && f.subword.channel_conf.get_num_channels() == 1;
    return false;
}

template<class F> void check_cast(mc::Ctx& x, const BF& from, const BF::ChannelConf& cc, IT from_type, const F& probe, const char* target, int& made)
{
    for (IT wt : word_types) {
        F to = probe;
        bool ok = from.try_cast_to(to, wt);
        x.eval(1);
        if (!ok) {
            MC_CHECK(x, same(to, probe), "refused cast of ", show(from), " changed the output argument");
            bool same_kind = (from.type == BF::Type::integer && std::is_same_v<F, BF::IntegerFormat>) || (from.type == BF::Type::subword && std::is_same_v<F, BF::SubwordFormat>);
            MC_CHECK(x, !(same_kind && (wt == from_type || (wt == IT::byte && from_type == IT::char_))), "cast of ", show(from), " to a ", target, " format of the same memory is refused");
            MC_CHECK(x, !(wt == IT::byte && simple(from, target)), "cast of ", show(from), " to a ", target, " format of bytes is refused");
            continue;
        }
        ++made;
        MC_CHECK(x, wt == from_type || wt == IT::byte, show(from), " was cast to word type ", show(wt));
        MC_CHECK(x, to.word_type == wt, "cast of ", show(from), " to word type ", show(wt), " gives ", show(to));
        MC_CHECK(x, is_valid(to), "cast of ", show(from), " to word type ", show(wt), " gives invalid format ", show(to));
        MC_CHECK(x, (to.channel_conf.color_space == cc.color_space && to.channel_conf.has_alpha == cc.has_alpha), "cast of ", show(from), " gives ", show(to));
        MC_CHECK(x, same_mem(from, to), "cast of ", show(from), " to word type ", show(wt), " gives ", show(to), " which does not describe the same memory");
    }
}

void check_casts(mc::Ctx& x, const BF& f, const BF::ChannelConf& cc, IT from_type)
{
    MC_CHECK(x, f.is_valid(), show(f), " is reported as invalid");
    int made = 0;
    check_cast(x, f, cc, from_type, probe_int, "integer", made);
    int m2 = made;
    check_cast(x, f, cc, from_type, probe_sub, "subword", made);
    x.outcome(mc::hash_str(mc::str(int(f.type), " ", m2, " ", made)));
}

BF::ChannelConf choose_conf(mc::Ctx& x, bool degen)
{
    int k = x.choose(degen ? 6 : 5);
    const image::ColorSpace* cs = k == 0 || k == 1 ? &image::ColorSpace::get_lum() : k == 2 || k == 3 ? &image::ColorSpace::get_rgb() : &image::ColorSpace::get_degen();
    bool alpha = k == 1 || k == 3 || k == 4;
    bool first = alpha && x.choose(2);
    bool rev = x.choose(2);
    return { cs, alpha, first, rev };
}

mc::Scenario s_int("casts-of-integer-formats", 1, [](mc::Ctx& x) {
    IT t = word_types[x.choose(6)];
    int full = 8 * bytes_of(t);
    int bpw = x.range(1, full);
    int wpc = x.range(1, x.thorough ? 16 : 8);
    auto order = x.choose(2) ? Endianness::little : Endianness::big;
    auto cc = choose_conf(x, true);
    BF f; f.set_integer_format(t, bpw, wpc, order, *cc.color_space, cc.has_alpha, cc.alpha_channel_first, cc.reverse_order);
    check_casts(x, f, cc, t);
});

mc::Scenario s_sub("casts-of-subword-formats", 1, [](mc::Ctx& x) {
    IT t = word_types[x.choose(6)];
    int full = 8 * bytes_of(t);
    auto cc = choose_conf(x, false);
    int n = cc.get_num_channels();
    int bpc = x.range(1, full / n);
    int ppw = x.range(1, full / n / bpc);
    auto order = x.choose(2) ? Endianness::little : Endianness::big;
    bool aligned = x.choose(2);
    BF f; f.set_subword_format(t, bpc, ppw, order, aligned, *cc.color_space, cc.has_alpha, cc.alpha_channel_first, cc.reverse_order);
    check_casts(x, f, cc, t);
});

mc::Scenario s_pack("casts-of-packed-formats", 8, [](mc::Ctx& x) {
    IT t = word_types[x.choose(6)];
    int full = 8 * bytes_of(t);
    int wpp = x.range(1, x.thorough ? 12 : 8);
    x.shard_point();
    int bpw = x.pick({ 1, 2, 4, 5, 7, 8, 12, 16, 24, 32, 33, 48, 63, 64 });
    if (bpw > full) return x.prune();
    auto order = x.choose(2) ? Endianness::little : Endianness::big;
    auto cc = choose_conf(x, true);
    int n = cc.get_num_channels();
    int total = wpp * bpw;
    std::vector<image::BitField> fields(n);
    if (n > 0) {
        // a uniform arrangement in which one value may be off by one
        int part = x.choose(2) && wpp % n == 0 ? wpp / n * bpw : total / n;
        if (part < 1) return x.prune();
        int width = x.pick({ 0, 1, 2, 4, 5, 8, 16 });
        if (width == 0) width = part;
        else if (width >= part) return x.prune();
        int gap = x.choose(2) ? part - width : 0;
        int last = x.choose(2) ? gap : 0;
        for (int i = 0; i < n; ++i) fields[i] = { width, i == n - 1 ? last : gap };
        int dev = x.choose(1 + 4 * n);
        if (dev > 0) {
            auto& fl = fields[(dev - 1) / 4];
            switch ((dev - 1) % 4) { case 0: ++fl.width; break; case 1: --fl.width; break; case 2: ++fl.gap; break; case 3: --fl.gap; break; }
        }
    }
    BF f; f.set_packed_format(t, bpw, wpp, order, core::Span<const image::BitField>(fields.data(), fields.size()), *cc.color_space, cc.has_alpha, cc.alpha_channel_first, cc.reverse_order);
    if (!valid(f)) { MC_CHECK(x, !f.is_valid(), show(f), " is reported as valid"); return; }
    check_casts(x, f, cc, t);
});

// All small field sequences in one and two words
mc::Scenario s_pack2("casts-of-small-packed-formats", 8, [](mc::Ctx& x) {
    int bits = x.choose(2) ? 4 : 2;
    int wpp = x.range(1, x.thorough ? 4 : 3);
    IT t = x.choose(2) ? IT::byte : IT::short_;
    auto order = x.choose(2) ? Endianness::little : Endianness::big;
    auto cc = choose_conf(x, false);
    x.shard_point();
    int n = cc.get_num_channels();
    int left = wpp * bits;
    std::vector<image::BitField> fields(n);
    for (int i = 0; i < n; ++i) {
        int need = n - 1 - i;
        if (left - need < 1) return x.prune();
        fields[i].width = x.range(1, left - need); left -= fields[i].width;
        fields[i].gap = x.range(0, left - need); left -= fields[i].gap;
    }
    BF f; f.set_packed_format(t, bits, wpp, order, core::Span<const image::BitField>(fields.data(), fields.size()), *cc.color_space, cc.has_alpha, cc.alpha_channel_first, cc.reverse_order);
    check_casts(x, f, cc, t);
});

// Casting to packed format, in a separate process because the function may terminate the program
mc::Scenario s_to_packed("casts-to-packed-formats", 1, [](mc::Ctx& x) {
    int kind = x.choose(4);
    IT wt = x.choose(2) ? IT::byte : IT::short_;
    auto cc = choose_conf(x, false);
    BF f;
    switch (kind) {
        case 0: f.set_integer_format(IT::short_, 16, 1, Endianness::big, *cc.color_space, cc.has_alpha, cc.alpha_channel_first, cc.reverse_order); break;
        case 1: {
            std::vector<image::BitField> fl(cc.get_num_channels(), image::BitField { 4, 0 });
            f.set_packed_format(IT::short_, 16, 1, Endianness::big, core::Span<const image::BitField>(fl.data(), fl.size()), *cc.color_space, cc.has_alpha, cc.alpha_channel_first, cc.reverse_order);
            break;
        }
        case 2: f.set_subword_format(IT::short_, 4, 1, Endianness::big, true, *cc.color_space, cc.has_alpha, cc.alpha_channel_first, cc.reverse_order); break;
        case 3: f.type = BF::Type::float_; f.float_ = { BF::FloatType::float_, cc }; break;
    }
    pid_t pid = fork();
    if (pid == 0) {
        if (!freopen("/dev/null", "w", stderr)) _exit(9);
        BF::PackedFormat to {};
        bool ok = f.try_cast_to(to, wt);
        if (!ok) _exit(0);
        if (kind == 3) _exit(2);
        _exit(is_valid(to) && to.word_type == wt && same_mem(f, to) ? 1 : 2);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    x.eval(1);
    if (!WIFEXITED(st)) {
        x.fail_keyed("cast-to-packed-unimplemented", mc::str("trying to cast ", show(f), " to a packed format terminates the program"));
        return;
    }
    MC_CHECK(x, WEXITSTATUS(st) <= 1, "cast of ", show(f), " to packed format does not describe the same memory");
});

// Formats that are not integer based cannot be cast
mc::Scenario s_other("casts-of-other-formats", 1, [](mc::Ctx& x) {
    BF f;
    if (x.choose(2)) { f.type = BF::Type::float_; f.float_ = { BF::FloatType::double_, { &image::ColorSpace::get_rgb(), false, false, false } }; }
    else f.set_indexed_format(IT::byte, 4, 2, 8, 1, Endianness::big, Endianness::big, true);
    MC_CHECK(x, f.is_valid(), "valid format is reported as invalid");
    for (IT t : word_types) {
        BF::IntegerFormat a = probe_int; BF::SubwordFormat b = probe_sub;
        MC_CHECK(x, (!f.try_cast_to(a, t) && same(a, probe_int) && !f.try_cast_to(b, t) && same(b, probe_sub)), "format that is not integer based was cast");
        x.eval(2);
    }
});

// Validity of parameters of all kinds, including extreme ones
mc::Scenario s_valid("validity", 1, [](mc::Ctx& x) {
    int kind = x.choose(4);
    IT t = word_types[x.choose(6)];
    const int M = std::numeric_limits<int>::max();
    auto val = [&] { return x.pick({ 1, 2, 3, 4, 5, 8, 9, 16, 32, 33, 64, 65, 0, -1, M, M / 2 + 1, M / 64, M / 64 + 1, 46341, 46340, -M - 1 }); };
    auto cc = choose_conf(x, true);
    BF f;
    int a = val(), b = val();
    if (kind == 0) f.set_integer_format(t, a, b, Endianness::big, *cc.color_space, cc.has_alpha, cc.alpha_channel_first, cc.reverse_order);
    else if (kind == 1) {
        std::vector<image::BitField> fl(cc.get_num_channels());
        int w = x.pick({ 1, 3, 8, 16, 0, -1, M }), g = x.pick({ 0, 1, 8, -1, M });
        for (auto& i : fl) i = { w, g };
        f.set_packed_format(t, a, b, Endianness::big, core::Span<const image::BitField>(fl.data(), fl.size()), *cc.color_space, cc.has_alpha, cc.alpha_channel_first, cc.reverse_order);
    }
    else if (kind == 2) f.set_subword_format(t, a, b, Endianness::big, false, *cc.color_space, cc.has_alpha, cc.alpha_channel_first, cc.reverse_order);
    else {
        int c = val(), d = x.pick({ 1, 2, 3, 8, 0, -1, M, M / 64, M / 64 + 1 });
        f.set_indexed_format(t, a, b, c, d, Endianness::big, Endianness::big, false);
    }
    x.eval(1);
    x.outcome(valid(f));
    MC_CHECK(x, f.is_valid() == valid(f), "kind ", kind, ", word type ", show(t), ", parameters ", a, ", ", b, ", ", show(cc), ": validity ", !valid(f));
});

// Mapping of types
struct Other {};
mc::Scenario s_types("types", 1, [](mc::Ctx& x) {
    auto chk = [&](auto tag, bool ok, IT ref) {
        using T = decltype(tag);
        IT t = IT::llong;
        if (ref == IT::llong) t = IT::byte;
        IT t0 = t;
        bool r = BF::try_map_integer_type<T>(t);
        MC_CHECK(x, r == ok, "try_map_integer_type() returns ", r, " for type of size ", sizeof(T));
        MC_CHECK(x, t == (ok ? ref : t0), "wrong integer type");
        if (ok) MC_CHECK(x, (BF::get_bytes_per_word(ref) == int(sizeof(T)) && BF::get_bits_per_word(ref) == int(8 * sizeof(T))), "wrong word size");
        x.eval(1);
    };
    chk(std::byte(), true, IT::byte); chk(char(), true, IT::char_); chk((signed char)0, true, IT::char_); chk((unsigned char)0, true, IT::char_);
    chk(short(), true, IT::short_); chk((unsigned short)0, true, IT::short_); chk(int(), true, IT::int_); chk(0u, true, IT::int_); chk(0l, true, IT::long_); chk(0ul, true, IT::long_);
    chk(0ll, true, IT::llong); chk(0ull, true, IT::llong);
    chk(false, false, IT::byte); chk(L'x', false, IT::byte); chk(u'x', false, IT::byte); chk(float(), false, IT::byte);
    auto chf = [&](auto tag, bool ok, BF::FloatType ref) {
        using T = decltype(tag);
        auto t = ref == BF::FloatType::float_ ? BF::FloatType::double_ : BF::FloatType::float_;
        auto t0 = t;
        bool r = BF::try_map_float_type<T>(t);
        MC_CHECK(x, r == ok, "try_map_float_type() returns ", r, " for type of size ", sizeof(T));
        MC_CHECK(x, t == (ok ? ref : t0), "wrong floating-point type");
        x.eval(1);
    };
    chf(0.0f, true, BF::FloatType::float_); chf(0.0, true, BF::FloatType::double_); chf(0.0l, true, BF::FloatType::ldouble); chf(0, false, BF::FloatType::float_);
    for (IT t : word_types) {
        // byte order is immaterial when there is only one byte
        Endianness e = {};
        bool ok = BF::try_get_byte_order(t, e);
        MC_CHECK(x, (bytes_of(t) == 1 || (ok && e == Endianness::little)), "wrong byte order of ", show(t));
    }
});

// Descriptions of actual pixel formats: the layout computed from the description is that of the format
constexpr auto big = Endianness::big, lit = Endianness::little;
using u8 = unsigned char; using s8 = signed char; using u16 = std::uint16_t; using s16 = std::int16_t; using u32 = std::uint32_t; using s32 = std::int32_t; using u64 = std::uint64_t;
using L = image::ChannelSpec_Lum; using LA = image::ChannelSpec_LumA; using C3 = image::ChannelSpec_RGB; using C4 = image::ChannelSpec_RGBA;
template<class F> void described(mc::Ctx& x, const char* name)
{
    F fmt;
    BF f;
    MC_CHECK(x, fmt.try_describe(f), name, " is not described");
    MC_CHECK(x, (f.is_valid() && valid(f)), name, " is described by an invalid format");
    Ref r = c37::ref(static_cast<const F*>(nullptr));
    for (auto [w, h] : sizes()) {
        Layout l;
        for (int y = 0; y < h; ++y) for (int xx = 0; xx < w; ++xx)
            for (int c = 0; c < r.num_channels; ++c) {
                for (int b = 0; b < r.depth[c]; ++b) { auto k = r.bit(w, xx, y, c, b); l.push_back((k.word * long(sizeof(typename F::word_type)) + k.bit / 8) * 8 + k.bit % 8); }
                l.push_back(-1);
            }
        MC_CHECK(x, l == layout(f, w, h), name, " is described as ", show(f), " which has another layout");
        x.eval(1);
    }
    auto& cc = f.type == BF::Type::integer ? f.integer.channel_conf : f.type == BF::Type::packed ? f.packed.channel_conf : f.subword.channel_conf;
    MC_CHECK(x, (cc.get_num_channels() == r.num_channels && cc.has_alpha == r.alpha), name, " is described as ", show(f));
    int made = 0;
    IT t = f.type == BF::Type::integer ? f.integer.word_type : f.type == BF::Type::packed ? f.packed.word_type : f.subword.word_type;
    check_cast(x, f, cc, t, probe_int, "integer", made);
    check_cast(x, f, cc, t, probe_sub, "subword", made);
}
#define D(...) { #__VA_ARGS__, &described<__VA_ARGS__> }
using image::IntegerPixelFormat; using image::PackedPixelFormat; using image::SubwordPixelFormat; using image::IndexedPixelFormat;
const std::vector<std::pair<const char*, void (*)(mc::Ctx&, const char*)>> real = {
    D(IntegerPixelFormat<C3, u8, 8>), D(IntegerPixelFormat<C3, char, 8, char, 1, big, false, true>), D(IntegerPixelFormat<C4, u8, 8, u8, 1, big, true>), D(IntegerPixelFormat<C4, s8, 8, s8, 1, big, true, true>), D(IntegerPixelFormat<C4, u8, 8, u8, 1, big, false, true>),
    D(IntegerPixelFormat<LA, u16, 16, u16, 1, big, false, true>), D(IntegerPixelFormat<LA, u16, 12>), D(IntegerPixelFormat<L, u8, 8, u16, 2, big>), D(IntegerPixelFormat<L, char, 8, u16, 2, lit>), D(IntegerPixelFormat<C4, u8, 8, u32, 4, lit, true, false>),
    D(IntegerPixelFormat<C3, u16, 16, u32, 2, big>), D(IntegerPixelFormat<C3, u16, 16, u64, 3, lit, false, true>), D(IntegerPixelFormat<L, u64, 64>), D(IntegerPixelFormat<L, u8, 1>), D(IntegerPixelFormat<L, u8, 5, u32, 3, lit>),
    D(IntegerPixelFormat<C4, long long, 64, u64>),
    D(PackedPixelFormat<C3, u8, image::ChannelPacking_332>), D(PackedPixelFormat<C3, u16, image::ChannelPacking_565, u8, 8, 2, lit, false, true>), D(PackedPixelFormat<C3, u32, image::ChannelPacking_888>),
    D(PackedPixelFormat<C3, s32, image::ChannelPacking_888, char, 8, 3, big>), D(PackedPixelFormat<C3, s32, image::ChannelPacking_888, char, 8, 3, lit>),
    D(PackedPixelFormat<C4, u32, image::FourChannelPacking<8, 0, 8, 0, 8, 0, 8, 0>, u8, 8, 4, lit, true>), D(PackedPixelFormat<C4, u32, image::FourChannelPacking<8, 0, 8, 0, 8, 0, 8, 0>, s8, 8, 4, big, false, true>),
    D(PackedPixelFormat<C4, u64, image::FourChannelPacking<16, 0, 16, 0, 16, 0, 16, 0>, u16, 16, 4, big, true, true>), D(PackedPixelFormat<C4, u64, image::FourChannelPacking<16, 0, 16, 0, 16, 0, 16, 0>, u16, 16, 4, lit>),
    D(PackedPixelFormat<LA, s16, image::TwoChannelPacking<9, 1, 5, 1>, s16, 16, 1, big, true, true>), D(PackedPixelFormat<LA, u16, image::TwoChannelPacking<5, 3, 5, 0>, u8, 8, 2, lit>), D(PackedPixelFormat<L, u8, image::OneChannelPacking<5, 2>>),
    D(PackedPixelFormat<L, u16, image::OneChannelPacking<16, 0>, u8, 8, 2, big>),
    D(SubwordPixelFormat<L, u8, 1, 8>), D(SubwordPixelFormat<L, char, 1, 8, lit, false, false, false>), D(SubwordPixelFormat<L, s8, 2, 4>), D(SubwordPixelFormat<L, u8, 3, 2, lit, true, false, false>), D(SubwordPixelFormat<LA, u8, 1, 4, lit, true>),
    D(SubwordPixelFormat<LA, u8, 2, 2, big, false, true>), D(SubwordPixelFormat<C3, u16, 1, 5, lit>), D(SubwordPixelFormat<C4, u32, 3, 2, lit, true, false>), D(SubwordPixelFormat<C4, u32, 8, 1, lit, true, false>), D(SubwordPixelFormat<L, u32, 8, 4, lit, false, false, false>),
    D(SubwordPixelFormat<L, u16, 4, 4, lit, false, false, false>), D(SubwordPixelFormat<L, u64, 16, 2, lit, false, false, false>), D(SubwordPixelFormat<LA, u16, 8, 1>),
};
mc::Scenario s_real("descriptions-of-pixel-formats", 1, [](mc::Ctx& x) {
    auto& e = real[x.choose(int(real.size()))];
    e.second(x, e.first);
});

template<class F> void described_indexed(mc::Ctx& x, int bpp, int ppc, int bpw, int wpc, Endianness bo, Endianness wo, bool al, IT t)
{
    static const image::BufferedImage<IntegerPixelFormat<C3, u8, 8>> pal(image::Size(2, 1));
    F fmt(pal);
    BF f;
    MC_CHECK(x, fmt.try_describe(f), "not described");
    auto& g = f.indexed;
    MC_CHECK(x, (f.type == BF::Type::indexed && f.is_valid() && g.word_type == t && g.bits_per_pixel == bpp && g.pixels_per_compound == ppc && g.bits_per_word == bpw && g.words_per_compound == wpc && g.bit_order == bo && g.word_order == wo && g.compound_aligned_rows == al),
             "wrong description of indexed format ", bpp, " ", ppc, " ", bpw, " ", wpc);
    x.eval(1);
}
#define DI(S, M, N, A, W, B, DD, E, H, T) [](mc::Ctx& x) { described_indexed<IndexedPixelFormat<S, M, N, A, W, B, DD, E, H>>(x, M, N, B, DD, A, E, H, T); }
mc::Scenario s_real_indexed("descriptions-of-indexed-pixel-formats", 1, [](mc::Ctx& x) {
    static const std::vector<void (*)(mc::Ctx&)> l = {
        DI(u8, 8, 1, big, u8, 8, 1, big, true, IT::char_), DI(u8, 1, 8, lit, char, 8, 1, big, false, IT::char_), DI(u16, 3, 5, lit, u8, 8, 2, lit, true, IT::char_), DI(u16, 5, 3, big, u16, 15, 1, lit, false, IT::short_),
        DI(u32, 8, 4, lit, u16, 16, 2, big, true, IT::short_), DI(s32, 6, 4, big, s32, 32, 1, big, false, IT::int_), DI(u64, 8, 8, lit, u64, 64, 1, big, true, IT::long_), DI(u64, 4, 5, big, long long, 60, 1, lit, false, IT::llong),
    };
    l[x.choose(int(l.size()))](x);
});
} // namespace
