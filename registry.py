# What to build and explore for each claimed property (used by check.py and tools/gen.py).
PROPS = {}
NOT_APPLICABLE = {}
NOTES = ("Every check enumerates a bounded space of behaviors of the real code exhaustively (see DESIGN.md). "
         "check.py compiles harness/*.cpp together with the needed sources of /repo and runs all scenarios.")
HOOKS = None

# Sources of the core library that most harnesses need
CORE = ["core/" + s + ".cpp" for s in
        "demangle terminate time newline_codec unicode_bridge random locale timer misc_error build_environment platform_info "
        "platform_support resource_limits thread source rewindable_source filesystem file file_sink file_source "
        "text_file_error impl/prim_text_file_impl terminal base64 word_wrap".split()]

CHECK = CORE + ["log/log_level.cpp"] + ["check/" + s + ".cpp" for s in
        "check_no_error command duplicating_reporter pattern_based_test_order random_seed reporter simple_reporter "
        "standard_path_mapper test_context test_list test_runner test_trail wildcard_filter xml_reporter "
        "noinst/root_context_impl noinst/test_level_report_logger noinst/thread_context_impl".split()]

ENUM = "exhaustive enumeration of all cases of a bounded input space on the real code against an exact reference model (stateless explicit-state exploration)"
OPSEQ = "stateless model checking: exhaustive enumeration of all operation sequences up to a depth bound on the real code, in lock step with a reference model"


def prop(id, harness, sources=(), san="", level="model_checking", technique=OPSEQ, note="", bounds="", assumptions=(), rule="",
         bins=None, budget=None, dev=None, **kw):
    if bins is None:
        b = {"name": "main", "harness": harness, "sources": list(sources), "san": san}
        b.update(kw)
        bins = [b]
    PROPS[id] = {"bins": bins, "level": level, "technique": technique, "level_note": note or bounds, "bounds": bounds,
                 "assumptions": list(assumptions)}
    if rule:
        PROPS[id]["rule"] = rule
    if budget:
        PROPS[id]["budget"] = budget
    if dev:
        PROPS[id]["dev"] = dev


prop("C01", ["C01_int_arith.cpp"], CORE, technique=ENUM, san="undefined",
     bounds="all 64 pairs of standard integer types and char types against 3 others; all values of 8-bit types (16-bit too in thorough), "
            "boundary values (powers of 2 and of 3,5,7,10, roots, limits +-) of wider types, plus for every left operand the right operands "
            "adjacent to the exact overflow boundary; shifts 0..140")
prop("C02", ["C02_int_cast.cpp"], CORE, technique=ENUM, san="undefined",
     bounds="all 256 ordered pairs of fundamental integer types incl. bool and character types; all values of 8- and 16-bit types, boundary "
            "values of wider types; explicit clamp ranges; all sign extension widths")
prop("C03", ["C03_int_math.cpp"], CORE, technique=ENUM, san="undefined",
     bounds="all 15 non-bool fundamental integer types (all ordered pairs for divisions); all values of 8- and 16-bit types, boundary values of wider "
            "ones, values around all perfect squares (all 2^32 values of 32-bit types in the thorough tier), bases 2..40 and 15 larger ones, all bit counts")
prop("C04", ["C04_mul_prec.cpp"], CORE, technique=ENUM, opt="-O2",
     bounds="16 instances of 8- to 128-bit multiple precision integers (parts of 8,16,32,64 bits, signed and unsigned) and the 65-bit SuperInt: all "
            "values of 8-bit and 16-bit instances (second operand over a digit-class alphabet in quick), all values built from half-part digits of a class alphabet "
            "{0,1,2,3,b/4,b/2-1,b/2,b/2+1,b-3,b-2,b-1} for wider ones, every shift distance below the width, all operators")
prop("C05", ["C05_float_int.cpp"], CORE, technique=ENUM, san="undefined", flags=["-fno-sanitize=float-cast-overflow"],
     bounds="float, double and long double against all 16 fundamental integer types: floats around all powers of two up to 2^68, all half integers up to 20, "
            "limits, denormals, infinities, NaN, and the floats within 3 ulps of every boundary integer; every one of the 2^32 floats in the thorough tier")
prop("C06", ["C06_int_text.cpp"], CORE, technique=ENUM, san="address",
     bounds="10 integer types x char/wchar_t; radix 2..36; minimum digit counts {-1,0,1,2,5,63..66,70,130}; all values of 8-bit types and boundary values of wider "
            "types; numerals of all values within 40 of every limit; all strings of up to 3 (thorough 4) characters over a 26-character class alphabet; all sign modes")
prop("C15", ["C15_deque.cpp"], CORE, san="address", dev={"quick": 1, "thorough": 2}, bounds="all ring buffer windows (capacity 0..6, quick; 0..8, thorough; 0..9 for single operations), all operation "
     "sequences of length 2 (3 in thorough for capacities up to 4) over the complete interface with all positions and counts; element types: non-throwing move, throwing move, "
     "move-only, trivial; an element operation failing at every point")
prop("C16", ["C16_vector.cpp"], CORE, san="address", dev={"quick": 1, "thorough": 2}, bounds="static capacities 0..4, all capacities up to 6 (8 in thorough) and fill levels, all operation "
     "sequences of length 2 (3 in thorough) over the complete interface with all positions and counts; element types: non-throwing move, throwing move, move-only, trivial; "
     "an element operation failing at every point")
prop("C17", ["C17_flat.cpp"], CORE, san="address", dev={"quick": 1, "thorough": 2}, bounds="FlatMap, FlatSet, FlatMultimap, FlatMultiset with int, std::string and a key with a custom (descending, "
     "partial) order, static capacity 0..2: all sequences of 4 (5 in thorough) operations over 4 to 6 keys, all lookups after every operation; all multisets of up to 8 elements; "
     "element operations failing at every point")
prop("C18", ["C18_buffer.cpp"], CORE, san="address", bounds="Buffer: seed sizes 0..4, all constructors, sequences of 3 to 4 (4 to 5 in thorough) operations with all sizes 0..5 and size limits; "
     "contents wrappers; memory input stream against std::istringstream (sequences of 3/4 operations on 5 texts); memory output streams of capacity 0..5 with all initial sizes; seed memory streams")
prop("C07", ["C07_unicode.cpp"], CORE, technique=ENUM, san="address", bounds="all code points; all sequences of up to 4 code units over class-complete alphabets (26 UTF-8 bytes, 14 UTF-16 "
     "units, 22 UCS values), all 2-byte (3-byte in thorough) UTF-8 sequences; all concatenations of up to 3 of 16 valid and invalid sequences with every division of the input into parts and output "
     "buffers of 1..5 and 16 units; buffer offsets 0 and 2; native encoding bridge in the C and C.utf8 locales")
prop("C08", ["C08_char_codec.cpp"], CORE, technique=ENUM, san="address", bounds="C, C.utf8 and a stateful (shift) encoding; all concatenations of up to 3-4 valid, invalid and incomplete sequences, "
     "every division of the input, output buffers of 1..5 and 16 units, strict and lenient; text codecs (POSIX/Windows, narrow/wide) with filler of 0..1025 characters around internal buffer sizes")
prop("C09", ["C09_newline.cpp"], CORE, technique=ENUM, san="address", bounds="all strings of up to 6 (8 in thorough) characters over {a, NL, CR, NUL}, every start offset, buffer size and buffer offset; all divisions "
     "of strings of up to 7 (9) characters with output buffers of 1,2,3,5")
prop("C25", ["C25_thread_guard.cpp"], CORE, san="sched", dev={"quick": 2, "thorough": 3}, bounds="all sequences of up to 4 (5 in thorough) operations (construct, configure, move, move assign, "
     "join, rethrow, destroy) on two guards with normally ending and throwing threads, all thread schedules with up to 2 (3) preemptions or thread creation failures, data race detection by vector clocks; nested guards")
prop("C28", ["C28_test_runner.cpp"], CHECK, san="sched", dev={"quick": 1, "thorough": 2}, bounds="all lists of up to 3 tests (passing, failing, throwing, concurrent or not, disabled, "
     "excluded), 0..3 repetitions, 1..3 threads, shuffled and ordered; reporter failing at every callback; tests that check from several threads; all thread schedules with up to 1 (2) preemptions (any number of forced switches), data race detection")
prop("C29", ["C29_check_macros.cpp", "C29_relations.cpp"], CHECK, technique=ENUM, opt="-O1", bounds="all pairs of 16 integer and float types over 25-40 boundary values; all triples of 11 types for distance checks; all check macros over 5 arithmetic types and strings with exact message, location and count; inexact comparison over multiples of 1/4; all sequences of up to 3 elements over 3 values for sequence macros; all sequences of 3 (4) checks including exceptions")
prop("C30", ["C30_reports.cpp"], CHECK, technique=ENUM, san="address", bounds="seeds of 0-2 blocks with each word from boundary values, all one-character corruptions, truncations and extensions of their texts; all texts of up to 3 (4) characters over XML-relevant characters in each of message, test name, suite name, file path; all report structures of up to 3 (4) tests x 0-2 failures x repetitions x reporter stacks; seed sequences per repetition; 14 log path templates x tests x repetitions x runs")
prop("C26", ["C26_loggers.cpp"], CORE + ["log/log_level.cpp"], san="sched", dev={"quick": 2, "thorough": 3}, bounds="all chains of up to 3 (4) loggers over prefix, channel selection, fixed and variable "
     "limit (by channel pattern), channel, duplicating, jail and timestamp loggers with 4 kinds of targets, narrow, wide (2 (3)) and wide on narrow; all channels, levels and 3 message forms; file loggers; 2 to 3 threads logging "
     "under all schedules with up to 2 (3) preemptions while the limit is changed, data race detection")
prop("C10", ["C10_text_file.cpp"], CORE, san="address", dev={"quick": 1, "thorough": 2}, technique=OPSEQ, bounds="narrow and wide, POSIX and Windows newline, unbuffered and buffered text files (8 types) over an in-memory file, 3-5 initial contents (with "
     "invalid and incomplete characters), 5-10 combinations of buffer sizes 0..5, static and dynamic end of file: all sequences of 3 (4) of 17 operations; all sequences of 2 (3) operations with up to 1 (2) short transfers, interruptions and errors; "
     "state dependent encoding: all sequences of 4 (6) of 11 operations; loading and saving with contents of 20 sizes around buffer sizes and 12-14 endings")
prop("C11", ["C11_text_stream.cpp"], CORE, technique=OPSEQ, san="address", dev={"quick": 1, "thorough": 2}, bounds="6 kinds of stream buffer (narrow and wide, POSIX and Windows newline, unbuffered and buffered) over an in-memory file, 2-4 initial contents, buffer sizes 0..5 and caller provided memory: all sequences of 4 (5) of 18 operations, and of 3 (4) with up to 1 (2) short transfers, interruptions and errors; streams in step with standard string streams: all sequences of 4 (5) of 9 operations x 3 ways of construction; state dependent encoding: all sequences of 5 (6) of 10 operations; change of locale between two operations")
prop("C12", ["C12_file.cpp"], CORE, san="address", dev={"quick": 2, "thorough": 3}, bounds="all sequences of 3 (4) read, write and seek operations in all file modes with up to 2 (3) "
     "deviations (short transfer, interruption, error) at any system call and of 2 operations with 4 (6); loading, saving and touching files of 17 sizes around internal buffer sizes; all sequences of 3 (4) life cycle operations (open in every mode, close, "
     "move, lock) on two file objects with failing system calls; terminal queries; moves of standard stream objects")
prop("C13", ["C13_source_sink.cpp"], CORE, san="address", dev={"quick": 2, "thorough": 3}, bounds="file, buffered file (buffers of 1,3; thorough 1,2,3,9) and rewindable (on files, buffered files and on an arbitrarily behaving "
     "source; initial buffers of 0,3; thorough 0,1,3,64) sources on inputs of 0 and 5 (0,1,4,7) bytes: all sequences of 3 to 4 (4) reads of all kinds with sizes 0,1,2,3,5, rewinds and releases; direct and buffered (1,2,3,5) sinks: all "
     "sequences of 3 (4) writes of sizes 0,1,2,4,7 and flushes; up to 2 (3) short transfers, interruptions, errors, exceptions")
prop("C14", ["C14_base64.cpp"], CORE, technique=ENUM, san="address", bounds="encoding: all byte strings of length up to 2, of length 3 over 16 bytes, contents of all lengths up to 420 (800); all variants, padding and 7 line sizes, "
     "every output buffer size; decoding: all strings of up to 5 characters over a 13 (16) character class alphabet, all characters at all positions of 14 texts, all final groups; incremental: every division of input with buffers of 0,1,2,3,64; narrow and wide")
prop("C19", ["C19_matcher.cpp"], CHECK, technique=ENUM, san="address", bounds="all lists of up to 2 patterns (3 with shorter second and third) of length up to 3 over {a,b,*} with all strings of up to 4 (3) characters over {a,b,c}; all single "
     "patterns of length up to 6 with all strings of up to 7; all character values; all sequences of 5 (6) builder operations; all test filters of up to 4 (5) words; all orders by up to 3 patterns")
prop("C20", ["C20_word_wrap.cpp"], CORE, technique=ENUM, san="address", opt="-O2", bounds="all texts of up to 5 (6) words with spaces 0,1,2 and words 0,1,3, trailing spaces 0,1,3 and 45 (140) line geometries; all texts of 6 to 8 (10) words of sizes 1,2,5; "
     "all texts of up to 3 words with sizes at the limits of the type; badness minimal among all ways to break")
prop("C21", ["C21_text_formatter.cpp"], CORE, technique=ENUM, san="address", opt="-O1", bounds="all texts of up to 5 (7) characters over {letter, space, newline} with 2000 combinations of width, "
     "indentation, padding, offset, wrapping, justification, clipping, filling, normalization and alignment; all lines of up to 4 (5) words; all divisions into three pieces, compilation, measuring; all sequences of 5 (6) "
     "operations with holds, jumps, offsets, sections; all 1944 x 1944 changes of text attributes; styles switched at all positions")
prop("C22", ["C22_quote_list.cpp"], CORE, technique=ENUM, opt="-O2",
     bounds="char and wchar_t; all strings of up to 4 (6 thorough) characters over a 13-character class alphabet and every single character in 6 contexts, every "
            "size limit from 0 to beyond the full size; lists of up to 4 (5) elements with all 5 space modes x 3 separators x 5 bracketings, all strings of up to 5 (7) "
            "list-syntax characters parsed into targets of 0..3 elements; hex dumps of up to 3 (5) elements of 7 integer types with all size limits; "
            "all strings of up to 5 characters over an 11-character alphabet parsed as 6 integer types, strings, characters and enumerations")
prop("C23", ["C23_format.cpp"], CORE, technique=ENUM, san="address",
     bounds="char and wchar_t; all parameterized strings of up to 6 (7 thorough) characters over {%,s,a,space} with 5 parameter lists through 14 entry points; all template "
            "strings of up to 5 (7) characters over {@,{,},x,y,-} with 4 parameters, every error handler abort point; all strings of up to 7 (10) "
            "characters over {space,a,comma} for splitting and trimming; ordinals -1300..1300 for 6 types")
prop("C24", ["C24_bits.cpp"], CORE, technique=ENUM, san="undefined", opt="-O0",
     bounds="part copying between 1,2,3 (17 of one bit) parts and 1,2,5 (17 of one bit) parts of 1, 8, 16, 24, 32, 40 and 64 bits with and without sign extension: all values of up to 10 (14) bits, single bits, prefixes, "
            "periodic patterns and all combinations of 5 part classes otherwise; all byte orders of 1 to 4 byte integers; hashes of 15 integer types; literal hash maps of up to 4 of 7 keys in every order; "
            "bit media of widths 1..17,24,30..33,48,62..64 of 11 types (all values of up to 9 (16) bits); all layouts of up to 4 bit fields")
prop("C46", ["C46_small.cpp"], CORE, technique=OPSEQ, san="address",
     bounds="range maps: all sequences of 3 (4) assignments and updates of all ranges of 6 keys (at the limits of the key type) and defragmentations; frozen sets: all sequences of 3 (4) operations "
            "on 6 contents with ascending and descending order, iterators failing at every point; index, stride (1,2,3,8) and proxy iterators at all pairs of up to 7 positions; stable sort of all sequences of up to 6 (8) "
            "elements; histograms of 1 to 4 bins with up to 3 (4) values, 4 widths; guards, typed registry, tuple functions, floating point modulus, character mapping")
prop("C47", ["C47_random.cpp"], CORE, technique=ENUM, san="address", opt="-O2",
     bounds="every output sequence of 3 (4 for multiple precision) draws of a 4-bit engine for 9 integer types and all pairs of 14 (28) limits spanning up to 4000 values: in range, all values, exactly uniform; "
            "floats and unit vectors for all sequences of up to 6 (8) words over 6 classes; seed sequences of up to 3 (4) words over 5 values in all divisions, 18 output sizes, against std::seed_seq; all sequences of 3 (4) moves")
prop("C48", ["C48_time.cpp"], CORE, technique=ENUM, san="address",
     bounds="all formats of up to 3 (4) of 15 conversions and texts x 4 precisions x 11 times x 10 subsecond values x 3 time zones, narrow and wide, against strftime; time points before and after the epoch; unrepresentable times")

prop("C27", ["C27_cli.cpp", "C27_types_0.cpp", "C27_types_1.cpp", "C27_types_2.cpp", "C27_types_3.cpp"], CORE + ["log/log_level.cpp"], san="address", technique=ENUM,
     bounds="all patterns of up to 3 leaves (keywords, option, value slot) combined by optionality, repetition, alternatives and juxtaposition (352 function "
            "signatures), all pairs of patterns of up to 2 leaves, all delegating patterns of up to 2 leaves with a sub-processor, each with all argument vectors of "
            "up to 2..4 (5) arguments; all token strings of up to 6 (7) tokens as pattern; 4 option sets with all vectors of up to 3 (4) out of 27 arguments; wide characters")

prop("C33", ["C33_kdtree.cpp"], CORE, san="address", technique=ENUM, opt="-O2",
     bounds="all sequences of up to 7 (9) points on a line of 3, up to 4 (6) on a 3x3 and 7 (9) on a 2x2 grid, up to 4 (6) on a 2x2x2 grid; all subsets of a 4x4 and a 3x3x2 grid; all query points on "
            "a grid of halves extending beyond the points with and without distance limits; trees of all sizes up to 80 (300)")
prop("C34", ["C34_packer.cpp"], CORE, san="undefined", technique=ENUM, opt="-O1",
     bounds="all lists of up to 3 (4) rectangles with sides 0..3 and of up to 6 (8) rectangles of 4 shapes, spacings 0..2, margins 0..1, bins of all sizes up to 8, every number of bins; all sequences of 5 (6) "
            "operations on one packer; sizes, spacings, margins at the limits of 4 integer types")
prop("C35", ["C35_pixel.cpp"], CORE, san="undefined", technique=ENUM, opt="-O1",
     bounds="all pairs of boxes over 11 (14) coordinates and 6 (9) sizes per axis including the limits of the type; all pairs of boxes with coordinates -2..2 and sizes 0..3 pixel by pixel; all pairs of "
            "positions, sizes over 14 coordinates; text forms, narrow and wide")
RENDER = CORE + ["log/log_level.cpp", "math/quaternion.cpp", "display/event_handler.cpp", "render/impl/key_bindings.cpp", "render/noinst/engine_impl.cpp", "render/engine.cpp", "render/opengl.cpp", "render/virt_trackball.cpp", "image/color_space.cpp"]
prop("C45", ["C45_key_bindings.cpp", "C45_engine.cpp"], RENDER, technique=OPSEQ, san="address", bounds="all histories of 5 (6) presses, releases, focus losses, resumptions, mode changes and rebindings over 8 binding sets x handler behaviours (interrupting, throwing, changing mode, registering, binding); series of 7 (9) presses for all sets of multiplicities and boundary intervals; render engine on a stand-in display: all histories of 6 (7) events of 5 modifier keys, a key and a mouse button")
prop("C49", ["C49_engine.cpp"], RENDER, technique=OPSEQ, san="address", bounds="all histories of 3 (4) of 29 events and interface calls on 3 screen setups; all histories of 5 (6) of 12 view operations and of 5 (6) of 9 rate/screen operations; all feature configurations; on a stand-in display and OpenGL, real clock")
prop("C50", ["C50_trackball.cpp"], CORE + ["render/virt_trackball.cpp", "math/quaternion.cpp"], technique=OPSEQ, san="address", bounds="all histories of 5 (6) of 15 operations with 3 time origins; drags of up to 45 (60) movements with 8 time steps; all pairs of positions on viewports up to 24x9 (40x14) with 3 aspect ratios; against a reference using rotation matrices")
prop("C43", ["C43_timestamp.cpp"], CORE, san="undefined", technique=ENUM,
     bounds="1 to 4 bit timestamps: all sequences of 3 to 5 (4 to 6) events with all time steps up to two periods and all clock errors of less than half a period; 8, 31, 32 and 63 bit timestamps at boundary steps and errors")
prop("C31", ["C31_matrix.cpp"], CORE, san="undefined", technique=ENUM, opt="-O1",
     bounds="determinant, inverse and decomposition of all 1x1 to 3x3 matrices over 7, 9, 3 and 4 (5) integers, all 4x4 matrices over {0,1} (in thorough with any entry replaced), 8 other shapes; "
            "all triangular matrices up to 3x3 (4x4); all pairs of matrices of 11 shapes and vectors of 1 to 4 components over small integers")
prop("C32", ["C32_quaternion.cpp"], CORE + ["math/quaternion.cpp"], san="undefined", technique=ENUM, opt="-O1",
     bounds="all pairs of quaternions over 5 and 3 (6) integer components; 28 (126) axes x 53 angles in all forms; compositions of all pairs of 28 axes and 11 (53) angles; 17^3 Euler angles; text")
prop("C36", ["C36_color.cpp"], CORE + ["util/css_color.cpp", "image/color_space.cpp"], san="undefined", technique=ENUM, opt="-O1",
     bounds="all hexadecimal color texts of 3 and 4 digits, every digit and 11 other characters in every position of texts of up to 10 characters; all names and their near misses; functional texts of up to 4 (5) "
            "arguments over 20 argument texts and 7 separators; format and reparse of 19^4 hexadecimal and 3 x 21^3 x 8 functional colors; unit fractions for 8 integer and 3 float types, all maxima of 8-bit types, all "
            "values of up to 5000 (70000) and their neighbours; all bit width pairs of 8 types; all pairs of 8-bit maxima; all 8 and 16 bit components in 3 representations with alpha; 25^3 (61^3) colors in 5 color spaces")

IMAGE = CORE + ["image/" + s + ".cpp" for s in ["buffer_format", "color_space", "palettes", "reader", "writable_image", "writer", "error"]]
prop("C37", ["C37_integer.cpp", "C37_packed.cpp", "C37_indexed.cpp"], IMAGE, technique=ENUM, san="address", bounds="137 pixel formats (integer, packed, subword, indexed; all word orders, bit orders, alpha positions, reversals, alignments, unused bits, 1 to 64 bits deep) against bit-level reference layouts; all image sizes up to 3x3 (5x4), and up to 11x2 (19x4) for multi-pixel words; all block positions and sizes, read, write and fill, 3 initial contents, 3 kinds of values, tight and negative strides, whole buffer compared; all 8-bit values and boundary and every 13th (all) 16-bit values per component")
prop("C38", ["C38_reader.cpp"], IMAGE, technique=ENUM, san="address", bounds="all images up to 3x3 (4x4), all block positions and sizes in and around them, all 9 falloff mode pairs, and positions at the extremes of int; blocks up to 4100 pixels wide or high; 15 image kinds x direct/indexed x 15 target kinds x 9 background colors; all 8-bit component and alpha values; 15 palette shapes, all indexes; all sequences of 3 (4) color slot operations and reads; all pattern and area boxes for memory helpers; images monitored for out-of-bounds access; strides and memory guards verified")
prop("C39", ["C39_writer.cpp"], IMAGE, technique=OPSEQ, san="address", bounds="fill, block, image and mask writes at all positions and with all sizes in and around all images up to 3x3, positions at the extremes of int, blocks up to 4100 pixels; 15 target kinds x direct/indexed x 15 source kinds x 7 blending and opacity settings x falloff modes; all 256 mask values; 7 palette shapes x 60 colors x 15 kinds; all sequences of 4 (5) of 13 operations on 6 kinds of images; images monitored for out-of-bounds access; pixels outside the target area compared exactly")
PNG = IMAGE + ["image/" + s + ".cpp" for s in ["file_format_png", "file_format_registry", "load", "save"]] + ["log/log_level.cpp"]
prop("C40", ["C40_save.cpp", "C40_load.cpp"], PNG, technique=ENUM, san="address", libs=["-lpng", "-lz"], dev={"quick": 2, "thorough": 3}, bounds="saving: 15 pixel kinds and all integer and subword buffer formats x sizes up to 17 x both interlacing modes, decoded by plain libpng; loading: all color types, depths and transparency variants x sizes up to 10x9 (17x17) x interlacing, encoded by plain libpng; truncation at every byte, damage to every byte and bit; error or exception at every call to source, sink, tracker and logger; files with up to 2 (3) system faults")
FONT = PNG + ["font/" + s + ".cpp" for s in ["face", "loader_fallback"]]
prop("C41", ["C41_buffer_format.cpp"], IMAGE, technique=ENUM, bounds="all integer formats of up to 8 words per channel, all subword formats, packed formats of up to 8 words per pixel with uniform fields and one deviation, all field sequences in up to 12 bits; 6 word types, all channel configurations; both target kinds x all word types; bit-by-bit memory maps over 7 image sizes; 42 real formats bound to their descriptions")
prop("C42", ["C42_font.cpp"], FONT, technique=OPSEQ, san="address", libs=["-lpng", "-lz"], bounds="all characters; all glyphs at all offsets in and around 5 tray sizes with 3 memory layouts; positions at extremes of int; all histories of 4 (5) of 14 operations on two faces of same loader; all texts of up to 3 (4) of 7 characters in both directions; base class with stand-in face: sequences of 2 (3) renderings")
prop("C51", ["C51_font_files.cpp"], FONT, technique=ENUM, san="address", libs=["-lpng", "-lz"], bounds="33 deviations of specification file x image states, reloading after correction; regeneration from stand-in faces: 8 styles x 5 glyph shapes x 4 coverages x 5 range sets x 3 previous fonts x 3 sizes x 2 locales x 4 names, reloaded and compared glyph by glyph")
