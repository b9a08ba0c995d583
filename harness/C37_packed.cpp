#include "C37_formats.hpp"
using namespace c37;
namespace {
using u8 = unsigned char; using s8 = signed char; using u16 = std::uint16_t; using s16 = std::int16_t; using u32 = std::uint32_t; using s32 = std::int32_t; using i64 = std::int64_t; using v64 = std::uint64_t;
using image::PackedPixelFormat; using image::SubwordPixelFormat;
using L = image::ChannelSpec_Lum; using LA = image::ChannelSpec_LumA; using C3 = image::ChannelSpec_RGB; using C4 = image::ChannelSpec_RGBA;
template<int... n> struct PackHelper;
template<int a, int b> struct PackHelper<a, b> { using type = image::OneChannelPacking<a, b>; };
template<int a, int b, int c, int d> struct PackHelper<a, b, c, d> { using type = image::TwoChannelPacking<a, b, c, d>; };
template<int a, int b, int c, int d, int e, int f> struct PackHelper<a, b, c, d, e, f> { using type = image::ThreeChannelPacking<a, b, c, d, e, f>; };
template<int a, int b, int c, int d, int e, int f, int g, int h> struct PackHelper<a, b, c, d, e, f, g, h> { using type = image::FourChannelPacking<a, b, c, d, e, f, g, h>; };
template<int... n> using P = typename PackHelper<n...>::type;
const std::vector<Entry>& packed()
{
    static const std::vector<Entry> l = {
        FMT(PackedPixelFormat<C3, u8, image::ChannelPacking_332>), FMT(PackedPixelFormat<C3, char, image::ChannelPacking_233, char, 8, 1, big, false, true>), FMT(PackedPixelFormat<C3, u16, image::ChannelPacking_565>),
        FMT(PackedPixelFormat<C3, s16, image::ChannelPacking_555>), FMT(PackedPixelFormat<C3, u16, image::ChannelPacking_565, u8, 8, 2, big>), FMT(PackedPixelFormat<C3, u16, image::ChannelPacking_565, char, 8, 2, lit, false, true>),
        FMT(PackedPixelFormat<C3, u32, image::ChannelPacking_888>), FMT(PackedPixelFormat<C3, s32, image::ChannelPacking_888, char, 8, 3, big>), FMT(PackedPixelFormat<C3, u16, P<3, 1, 2, 2, 4, 1>>),
        FMT(PackedPixelFormat<C3, u16, P<3, 1, 2, 2, 4, 1>, u8, 5, 3, lit>), FMT(PackedPixelFormat<C3, u16, P<1, 0, 1, 0, 1, 0>, u8, 1, 3, big>), FMT(PackedPixelFormat<L, u8, P<5, 2>>), FMT(PackedPixelFormat<L, u16, P<12, 3>>),
        FMT(PackedPixelFormat<L, u32, P<31, 1>, u16, 16, 2, lit>), FMT(PackedPixelFormat<LA, u8, P<6, 0, 2, 0>>), FMT(PackedPixelFormat<LA, u8, P<6, 0, 2, 0>, u8, 8, 1, big, true>), FMT(PackedPixelFormat<LA, u8, P<6, 0, 2, 0>, u8, 8, 1, big, false, true>),
        FMT(PackedPixelFormat<LA, s16, P<9, 1, 5, 1>, s16, 16, 1, big, true, true>), FMT(PackedPixelFormat<C4, u16, P<5, 0, 5, 0, 5, 0, 1, 0>>), FMT(PackedPixelFormat<C4, u16, P<1, 0, 5, 0, 5, 0, 5, 0>, u16, 16, 1, big, true>),
        FMT(PackedPixelFormat<C4, u16, P<4, 0, 4, 0, 4, 0, 4, 0>, u8, 8, 2, lit, true, true>), FMT(PackedPixelFormat<C4, u16, P<1, 1, 2, 0, 3, 1, 4, 0>, u16, 16, 1, big, false, true>), FMT(PackedPixelFormat<C4, u32, P<8, 0, 8, 0, 8, 0, 8, 0>>),
        FMT(PackedPixelFormat<C4, u32, P<8, 0, 8, 0, 8, 0, 8, 0>, u8, 8, 4, lit, true>), FMT(PackedPixelFormat<C4, u32, P<8, 0, 8, 0, 8, 0, 8, 0>, s8, 8, 4, big, false, true>), FMT(PackedPixelFormat<C4, u32, P<10, 0, 10, 0, 10, 0, 2, 0>>),
        FMT(PackedPixelFormat<C4, s32, P<2, 0, 10, 0, 10, 0, 10, 0>, u16, 16, 2, lit, true, false>), FMT(PackedPixelFormat<C4, v64, P<16, 0, 16, 0, 16, 0, 16, 0>, u16, 16, 4, big, true, true>), FMT(PackedPixelFormat<C3, v64, P<21, 0, 21, 1, 21, 0>>),
        FMT(PackedPixelFormat<C4, v64, P<17, 2, 9, 0, 8, 3, 12, 1>, u8, 8, 7, lit, false, false>), FMT(PackedPixelFormat<C4, v64, P<17, 2, 17, 0, 11, 3, 12, 1>, u32, 32, 2, big, true, false>),
    };
    return l;
}
const std::vector<Entry>& subword()
{
    static const std::vector<Entry> l = {
        FMT(SubwordPixelFormat<L, u8, 1, 8>), FMT(SubwordPixelFormat<L, u8, 1, 8, lit>), FMT(SubwordPixelFormat<L, char, 1, 8, big, false, false, false>), FMT(SubwordPixelFormat<L, char, 1, 8, lit, false, false, false>),
        FMT(SubwordPixelFormat<L, s8, 2, 4>), FMT(SubwordPixelFormat<L, u8, 2, 4, lit, false, true, false>), FMT(SubwordPixelFormat<L, u8, 4, 2>), FMT(SubwordPixelFormat<L, u8, 3, 2, big>), FMT(SubwordPixelFormat<L, u8, 3, 2, lit, true, false, false>),
        FMT(SubwordPixelFormat<L, u8, 8, 1>), FMT(SubwordPixelFormat<L, u8, 1, 5, big, false, false, false>), FMT(SubwordPixelFormat<L, u8, 1, 3, lit>), FMT(SubwordPixelFormat<LA, u8, 1, 4>), FMT(SubwordPixelFormat<LA, u8, 1, 4, lit, true>),
        FMT(SubwordPixelFormat<LA, u8, 2, 2, big, false, true>), FMT(SubwordPixelFormat<LA, u8, 2, 2, lit, true, true, false>), FMT(SubwordPixelFormat<LA, u8, 1, 3, big, true, false, false>), FMT(SubwordPixelFormat<C3, u8, 1, 2>),
        FMT(SubwordPixelFormat<C3, u8, 2, 1, lit, false, true>), FMT(SubwordPixelFormat<C3, u16, 1, 5, lit>), FMT(SubwordPixelFormat<C3, s16, 2, 2, big, false, true, false>), FMT(SubwordPixelFormat<C4, u8, 1, 2>), FMT(SubwordPixelFormat<C4, u8, 1, 2, lit, true>),
        FMT(SubwordPixelFormat<C4, u8, 2, 1, big, false, true>), FMT(SubwordPixelFormat<C4, s16, 1, 4, lit, true, true, false>), FMT(SubwordPixelFormat<C4, u16, 2, 2, big, true, false, false>), FMT(SubwordPixelFormat<C4, u32, 3, 2, lit, true, false>),
        FMT(SubwordPixelFormat<L, u16, 5, 3>), FMT(SubwordPixelFormat<L, s32, 11, 2, lit, false, false, false>), FMT(SubwordPixelFormat<C3, v64, 7, 3, big, false, false, false>), FMT(SubwordPixelFormat<LA, i64, 16, 2, lit, true, true>),
        FMT(SubwordPixelFormat<C4, v64, 12, 1, big, true>), FMT(SubwordPixelFormat<LA, v64, 17, 1, big, true>), FMT(SubwordPixelFormat<L, v64, 20, 3, lit, false, false, false>),
    };
    return l;
}
mc::Scenario s1("packed-blocks", 16, [](mc::Ctx& x) { run_blocks(x, packed()); });
mc::Scenario s2("packed-values", 16, [](mc::Ctx& x) { run_values(x, packed()); });
mc::Scenario s3("subword-blocks", 16, [](mc::Ctx& x) { run_blocks(x, subword()); });
mc::Scenario s4("subword-values", 16, [](mc::Ctx& x) { run_values(x, subword()); });
} // namespace
