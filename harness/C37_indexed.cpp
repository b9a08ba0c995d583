#include "C37_formats.hpp"
using namespace c37;
namespace {
using u8 = unsigned char; using s8 = signed char; using u16 = std::uint16_t; using s16 = std::int16_t; using u32 = std::uint32_t; using s32 = std::int32_t; using i64 = std::int64_t; using v64 = std::uint64_t;
using image::IndexedPixelFormat;
const std::vector<Entry>& list()
{
    static const std::vector<Entry> l = {
        FMT(IndexedPixelFormat<u8, 8>), FMT(IndexedPixelFormat<char, 8>), FMT(IndexedPixelFormat<u8, 1, 8>), FMT(IndexedPixelFormat<u8, 1, 8, lit>), FMT(IndexedPixelFormat<char, 1, 8, big, char, 8, 1, big, false>), FMT(IndexedPixelFormat<s8, 1, 8, lit, s8, 8, 1, big, false>),
        FMT(IndexedPixelFormat<u8, 2, 4>), FMT(IndexedPixelFormat<u8, 2, 4, lit, u8, 8, 1, lit, false>), FMT(IndexedPixelFormat<u8, 4, 2, lit>), FMT(IndexedPixelFormat<u8, 4, 2, big, u8, 8, 1, big, false>), FMT(IndexedPixelFormat<u8, 3, 2>), FMT(IndexedPixelFormat<u8, 3, 2, lit, u8, 7>),
        FMT(IndexedPixelFormat<u8, 5, 1>), FMT(IndexedPixelFormat<u16, 3, 5, big>), FMT(IndexedPixelFormat<u16, 3, 5, lit, u8, 8, 2, big>), FMT(IndexedPixelFormat<u16, 3, 5, big, u8, 8, 2, lit, false>), FMT(IndexedPixelFormat<u16, 5, 3, lit, u8, 5, 3, big, false>),
        FMT(IndexedPixelFormat<s16, 8, 2, big, char, 8, 2, lit>), FMT(IndexedPixelFormat<u32, 7, 3, big, u8, 8, 3, big>), FMT(IndexedPixelFormat<u32, 8, 4, lit, u16, 16, 2, lit, false>), FMT(IndexedPixelFormat<s32, 6, 4, big, s8, 8, 3, lit>), FMT(IndexedPixelFormat<v64, 8, 8>),
        FMT(IndexedPixelFormat<u16, 1, 7, lit, u8, 3, 3, lit, true>), FMT(IndexedPixelFormat<u16, 1, 9, big, u8, 3, 3, big, false>), FMT(IndexedPixelFormat<u32, 2, 9, lit, u16, 9, 2, big, true>), FMT(IndexedPixelFormat<i64, 4, 5, big, u8, 8, 3, lit, false>),
        FMT(IndexedPixelFormat<u8, 1, 1>), FMT(IndexedPixelFormat<u8, 2, 3, big>), FMT(IndexedPixelFormat<u8, 1, 5, lit, u8, 8, 1, big, false>),
    };
    return l;
}
mc::Scenario s1("indexed-blocks", 16, [](mc::Ctx& x) { run_blocks(x, list()); });
mc::Scenario s2("indexed-values", 16, [](mc::Ctx& x) { run_values(x, list()); });
} // namespace
