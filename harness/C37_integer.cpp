#include "C37_formats.hpp"
using namespace c37;
namespace {
using u8 = unsigned char; using s8 = signed char; using u16 = std::uint16_t; using s16 = std::int16_t; using u32 = std::uint32_t; using s32 = std::int32_t; using i64 = std::int64_t;
using image::IntegerPixelFormat;
using L = image::ChannelSpec_Lum; using LA = image::ChannelSpec_LumA; using C3 = image::ChannelSpec_RGB; using C4 = image::ChannelSpec_RGBA;
const std::vector<Entry>& list()
{
    static const std::vector<Entry> l = {
        FMT(IntegerPixelFormat<L, char, 8>), FMT(IntegerPixelFormat<LA, char, 8>), FMT(IntegerPixelFormat<C3, char, 8>), FMT(IntegerPixelFormat<C4, char, 8>),
        FMT(IntegerPixelFormat<LA, char, 8, char, 1, big, true>), FMT(IntegerPixelFormat<LA, char, 8, char, 1, big, false, true>), FMT(IntegerPixelFormat<LA, char, 8, char, 1, big, true, true>),
        FMT(IntegerPixelFormat<C3, char, 8, char, 1, big, true>), FMT(IntegerPixelFormat<C3, char, 8, char, 1, big, false, true>), FMT(IntegerPixelFormat<C3, char, 8, char, 1, lit, true, true>),
        FMT(IntegerPixelFormat<C4, char, 8, char, 1, big, true>), FMT(IntegerPixelFormat<C4, char, 8, char, 1, big, false, true>), FMT(IntegerPixelFormat<C4, char, 8, char, 1, big, true, true>),
        FMT(IntegerPixelFormat<L, u8, 8>), FMT(IntegerPixelFormat<C4, s8, 8>), FMT(IntegerPixelFormat<L, s8, 7>), FMT(IntegerPixelFormat<C3, u8, 1>), FMT(IntegerPixelFormat<LA, u8, 5>),
        FMT(IntegerPixelFormat<L, u8, 3, u8, 2, big>), FMT(IntegerPixelFormat<C3, u8, 3, u8, 2, lit>), FMT(IntegerPixelFormat<LA, u8, 1, s8, 5, lit>), FMT(IntegerPixelFormat<C4, u8, 1, s8, 8, big, true, false>),
        FMT(IntegerPixelFormat<L, s16, 16>), FMT(IntegerPixelFormat<C4, s16, 16, s16, 1, big, true, true>), FMT(IntegerPixelFormat<C3, u16, 16>), FMT(IntegerPixelFormat<LA, u16, 9>), FMT(IntegerPixelFormat<C3, s16, 4>),
        FMT(IntegerPixelFormat<C3, char, 8, s16, 2, big>), FMT(IntegerPixelFormat<C4, char, 8, s16, 2, lit, true>), FMT(IntegerPixelFormat<LA, u8, 5, u16, 3, big, false, true>), FMT(IntegerPixelFormat<L, u8, 4, u16, 3, lit>),
        FMT(IntegerPixelFormat<L, s32, 32>), FMT(IntegerPixelFormat<C4, s32, 32>), FMT(IntegerPixelFormat<C3, u32, 8>), FMT(IntegerPixelFormat<C4, u32, 12, u32, 1, big, true>),
        FMT(IntegerPixelFormat<LA, u8, 8, u32, 4, big>), FMT(IntegerPixelFormat<LA, u8, 8, s32, 4, lit, true>), FMT(IntegerPixelFormat<C3, u16, 11, u32, 2, big>), FMT(IntegerPixelFormat<C4, u8, 6, u32, 3, lit, true, true>),
        FMT(IntegerPixelFormat<L, u16, 16, i64, 4, big>), FMT(IntegerPixelFormat<LA, i64, 64>), FMT(IntegerPixelFormat<C3, u8, 7, i64, 7, lit, false, true>), FMT(IntegerPixelFormat<L, u32, 17>),
    };
    return l;
}
mc::Scenario s1("integer-blocks", 16, [](mc::Ctx& x) { run_blocks(x, list()); });
mc::Scenario s2("integer-values", 16, [](mc::Ctx& x) { run_values(x, list()); });
} // namespace
