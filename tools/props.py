# Source of properties.jsonl (see gen.py). One entry per property.
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe_at=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": ["src/archon/" + f for f in files],
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe_at), "hook_needed": hook},
    })


prop("C01", "Checked integer arithmetic is exact or refuses",
     "For any two integer types and any two values, checked addition, subtraction, multiplication, exponentiation and "
     "left shift either deliver the exact mathematical result or report overflow and leave the target unchanged, and they "
     "report overflow exactly when the result is not representable in the target type. The throwing and the "
     "'can it be done' variants always agree with the 'try' variants.",
     ["inputs", "configurations"], "all pairs of integer types and all values of them",
     "Tests sample values per type pair; overflow boundaries depend on both types and both values.",
     ["core/integer.hpp"], [("try_int_add / try_int_sub / try_int_mul / try_int_pow", "core/integer.hpp")])
prop("C02", "Integer casts and mixed-type comparisons preserve value",
     "A checked integer cast succeeds exactly when the value is representable in the target type and then preserves it, a "
     "clamping cast gives the nearest value in range, casts to, from and between two's complement encodings preserve the "
     "represented value, and comparison of integers of different types orders them by mathematical value.",
     ["inputs", "configurations"], "all pairs of integer types including bool and non-standard types, all values",
     "Tests sample values; signed/unsigned boundary cases depend on widths of both types.",
     ["core/integer.hpp"], [("can_int_cast, int_cast_clamp, twos_compl_cast, int_less", "core/integer.hpp")])
prop("C03", "Integer math functions compute the mathematical result",
     "Integer square root, bit and digit position finding, digit counting, power-of-two test, masks, logical shifts, sign "
     "extension, rounding divisions, combined division, and periodic modulo return the mathematically defined result for "
     "every value in their documented domain, including the extreme values of every integer type.",
     ["inputs", "configurations"], "all integer types, all argument values in the documented domains",
     "Tests sample values; Newton iteration, rounding and extreme-value handling differ per value.",
     ["core/integer.hpp", "core/math.hpp"], [("int_sqrt, int_find_msd_pos, int_periodic_mod, ...", "core/integer.hpp")])
prop("C04", "Multiple precision integers behave as two's complement integers",
     "Integers composed of several machine words behave, in every arithmetic, bitwise, shift, comparison, conversion and "
     "formatting operation, exactly like mathematical integers reduced to the width of the type.",
     ["inputs", "configurations"], "all values of small multi-word types, signed and unsigned, all operators",
     "Tests sample operands; carries, borrows and long division quotient estimates depend on every bit.",
     ["core/mul_prec_int.hpp", "core/super_int.hpp"], [("word-wise arithmetic with carry", "core/mul_prec_int.hpp")])
prop("C05", "Conversion and comparison between floats and integers is exact",
     "Comparing a floating-point value with an integer gives the mathematically correct answer, and converting a "
     "floating-point value to an integer type succeeds, and truncates it, exactly when the value lies between the least and the greatest value of that type. The "
     "clamping conversion gives the nearest limit otherwise, and zero for not-a-number.",
     ["inputs", "configurations"], "all float and integer type pairs, all values around every representability boundary",
     "Tests sample values; errors hide in the last representable float below a power of two.",
     ["core/float.hpp"], [("float_to_int, float/int comparison, int limits in float", "core/float.hpp")])
prop("C06", "Integer text conversion round-trips and rejects malformed input",
     "Formatting an integer in any radix, with any minimum number of digits, yields its canonical digits, and parsing that "
     "text restores the value. Parsing accepts exactly the well-formed numerals whose value is representable in the target "
     "type, and leaves the target unchanged otherwise.",
     ["inputs", "configurations"], "all values of 8/16-bit types and boundary values of wider types, all radices, all short strings",
     "Tests sample strings; overflow detection during accumulation depends on value, radix and type.",
     ["core/integer_formatter.hpp", "core/integer_parser.hpp", "core/as_int.hpp", "core/value_parser.hpp"],
     [("digit loops with overflow check", "core/integer_parser.hpp")])
prop("C07", "Unicode transcoding is exact, strict and independent of chunking",
     "Encoding and decoding between UCS, UTF-8 and UTF-16 follows the Unicode standard: every valid sequence is converted "
     "exactly, every invalid sequence (overlong, surrogate, out of range, truncated, stray unit) is detected at the right "
     "position, and lenient conversion replaces each maximal invalid part by one replacement character. The result of "
     "incremental conversion does not depend on how input and output are divided into buffers.",
     ["inputs", "histories"], "all short code unit sequences over class-complete alphabets, all splits, all buffer sizes",
     "Tests list examples with few splits; decoder state across split points is a product of sequence and split.",
     ["core/unicode.hpp"], [("incremental UTF-8/UTF-16 decoding steps", "core/unicode.hpp")])
prop("C08", "Locale character codecs give the same result for any buffering",
     "Decoding or encoding text through a locale character codec or a text codec yields the same characters, the same error "
     "position and the same final shift state for every division of the input and output into buffers; lenient mode never "
     "fails and replaces each undecodable or unencodable unit.",
     ["inputs", "histories", "configurations"], "all short inputs over class-complete alphabets, all splits, all output buffer sizes, strict and lenient, stateless and stateful codecs",
     "Tests use a few texts and buffer sizes.",
     ["core/char_codec_concept.hpp", "core/impl/char_codec.hpp", "core/text_codec.hpp", "core/impl/text_codec_impl.hpp", "core/string_codec.hpp"],
     [("character codec wrapping std::codecvt with partial character handling", "core/impl/char_codec.hpp")])
prop("C09", "Newline translation is exact under any buffering",
     "Windows-style newline encoding maps every newline to carriage return plus newline and decoding maps every such pair "
     "back, leaving everything else unchanged, regardless of how the data is divided into buffers; decode(encode(x)) = x and "
     "simulated decoding consumes exactly the bytes that decode to the requested number of characters.",
     ["inputs", "histories"], "all strings up to a bounded length over {CR, LF, other}, all splits and output sizes, end-of-input flag at every point",
     "Tests use random splits of few strings.",
     ["core/newline_codec.cpp", "core/newline_codec.hpp"], [("WindowsNewlineCodec decode/encode/simul_dec", "core/newline_codec.cpp")])
prop("C10", "Text file contents and positions obey a simple file model",
     "For any sequence of reads, writes, flushes, position queries and seeks on a text file, in POSIX or Windows newline mode "
     "and for any buffer sizes, the characters read and the bytes in the file are those of an ideal text file, and seeking to "
     "a position obtained earlier continues exactly where that position was taken.",
     ["histories", "configurations"], "all operation sequences up to a bounded depth, all small buffer sizes, newline modes, buffered and unbuffered variants, short transfers and errors",
     "Tests run a handful of scripted sequences; position reconstruction depends on buffer fill at the moment of the query.",
     ["core/text_file.hpp", "core/impl/text_file_impl.hpp", "core/impl/prim_text_file_impl.cpp", "core/buffered_text_file.hpp", "core/impl/buffered_text_file_impl.hpp"],
     [("tell by simulated decoding from buffer start", "core/impl/text_file_impl.hpp"), ("mode switching stop_reading/stop_writing", "core/text_file.hpp")])
prop("C11", "Text file streams read and write what a standard stream would",
     "For any sequence of extraction, insertion, unget, peek, seek, tell, sync and flush operations on a text file stream and "
     "for any buffer size, the stream delivers and stores the same text as an ideal stream over the same file.",
     ["histories", "configurations"], "all operation sequences up to a bounded depth, small buffer sizes",
     "Tests run few scripted sequences.",
     ["core/text_file_stream.hpp"], [("stream buffer underflow/overflow/seek", "core/text_file_stream.hpp")])
prop("C12", "File I/O survives interruptions, short transfers and errors",
     "Reading and writing through a file object transfers exactly the requested bytes in order whatever mixture of short "
     "transfers and signal interruptions the system delivers, reports the system's error otherwise, and on failure reports "
     "exactly how many bytes were transferred; loading and saving whole files is complete or reports an error; descriptors "
     "are closed exactly once.",
     ["fault_sequences", "histories"], "all sequences of system answers (full, short, EINTR, error, end of file) up to a deviation bound",
     "Tests run on a well-behaved filesystem; no interruption or short transfer ever occurs.",
     ["core/file.cpp", "core/file.hpp"], [("retry loops in try_read/try_write/try_open", "core/file.cpp")])
prop("C13", "Sources and sinks deliver every byte once and in order",
     "File, buffered, and rewindable sources and sinks deliver every byte exactly once and in order for any sequence of read "
     "and write sizes, any buffer size and any short-transfer behavior of the underlying file or source; rewinding replays "
     "the input from its beginning.",
     ["histories", "fault_sequences", "configurations"], "all operation sequences up to a bounded depth, buffer sizes, short transfer patterns",
     "Tests use one or two sizes over a regular file.",
     ["core/source.cpp", "core/source.hpp", "core/sink.hpp", "core/file_source.cpp", "core/file_sink.cpp", "core/rewindable_source.cpp"],
     [("buffered file source/sink, rewind buffer", "core/file_source.cpp, core/file_sink.cpp, core/rewindable_source.cpp")])
prop("C14", "Base64 encoding and decoding are exact inverses",
     "Base64 encoding follows RFC 4648 for every byte string, one-shot and incremental interfaces agree for every division "
     "into chunks and buffers, decoding restores the original bytes, and malformed input is reported with an error and never "
     "yields wrong bytes or touches memory outside the given buffers.",
     ["inputs", "histories", "configurations"], "all short byte and character strings over class-complete alphabets, all chunkings, all codec options",
     "Tests use few strings.",
     ["core/base64.cpp", "core/base64.hpp"], [("incremental Base64 encoder/decoder", "core/base64.cpp")])
prop("C15", "Deque behaves as an ideal sequence",
     "After any sequence of operations a double ended queue holds exactly the elements of an ideal sequence subjected to the "
     "same operations, every element is constructed and destroyed exactly once, and a failing element operation leaves the "
     "queue as documented without leaking.",
     ["histories", "fault_sequences"], "all operation sequences from all reachable ring-buffer states up to bounded capacity; element operations throwing at every point",
     "Tests run a few scripts; wrap-around position times operation is a large product.",
     ["core/deque.hpp"], [("ring buffer with wrap-around", "core/deque.hpp")], state=[("offset,size,capacity", "ring buffer window", "core/deque.hpp")])
prop("C16", "Vector behaves as an ideal sequence",
     "After any sequence of operations the alternative vector holds exactly the elements of an ideal sequence subjected to the "
     "same operations, with and without static or seed memory, every element is constructed and destroyed exactly once, and "
     "a failing element operation does not corrupt it.",
     ["histories", "fault_sequences", "configurations"], "all operation sequences up to bounded depth and size, all static capacities, element operations throwing at every point",
     "Tests run a few scripts.",
     ["core/vector.hpp", "core/impl/vector_impl.hpp"], [("growth, in-place move, static memory", "core/impl/vector_impl.hpp")])
prop("C17", "Flat maps and sets behave as sorted associative containers",
     "Flat map, set, multimap and multiset give, for any sequence of insertions, erasures and lookups, the same contents, "
     "order and results as the corresponding standard associative containers.",
     ["histories", "configurations"], "all operation sequences over small key sets up to bounded depth, custom comparators",
     "Tests run a few scripts.",
     ["core/flat_map.hpp", "core/flat_set.hpp", "core/flat_multimap.hpp", "core/flat_multiset.hpp", "core/impl/flat_map_impl.hpp"],
     [("binary search on contiguous storage", "core/impl/flat_map_impl.hpp")])
prop("C18", "Growable buffers and in-memory streams keep all written data",
     "Growable buffers and memory-backed input and output streams hold exactly the data put into them, in order, for any "
     "sequence of appends, prepends, growth requests, seeks and reads and any initial memory, and never touch memory outside "
     "their buffers; fixed-size output streams fail cleanly when full.",
     ["histories", "configurations"], "all operation sequences up to bounded depth, all seed memory sizes",
     "Tests use few sizes; relocation happens only at particular fill levels.",
     ["core/buffer.hpp", "core/buffer_contents.hpp", "core/string_buffer_contents.hpp", "core/memory_input_stream.hpp", "core/memory_output_stream.hpp", "core/seed_memory_output_stream.hpp"],
     [("reserve/append_a/prepend_a with relocation", "core/buffer.hpp")])
prop("C19", "Wildcard matching equals its definition",
     "A string matches a set of patterns exactly when the pattern definition says so, for literal, wildcard and alternative "
     "patterns, and the reported pattern is the right one; ambiguity detection reports exactly the pattern sets for which "
     "some string matches more than one pattern.",
     ["inputs", "programs"], "all pattern sets and all strings up to bounded length over a small alphabet",
     "Tests list examples; automaton construction depends on pattern interplay.",
     ["core/string_matcher.hpp", "check/wildcard_filter.cpp", "check/pattern_based_test_order.cpp"], [("NFA to DFA construction", "core/string_matcher.hpp")])
prop("C20", "Word wrapping is valid and optimal",
     "Word wrapping never splits, reorders or drops words and lets no line exceed its limit unless a single word does; the "
     "optimizing algorithm minimizes the documented badness over all valid ways to break the text.",
     ["inputs", "configurations"], "all word and space size sequences up to a bounded length, all line geometries",
     "Tests compare on random cases only.",
     ["core/word_wrap.cpp", "core/word_wrap.hpp"], [("greedy and Knuth dynamic programming", "core/word_wrap.cpp")])
prop("C21", "Text formatter keeps words and respects widths",
     "Text formatting to a given width outputs every word and explicit newline of the input in order, keeps every line within "
     "the width unless a single word does not fit, honors indentation, and produces output that does not depend on how the "
     "input was divided into pieces.",
     ["inputs", "histories", "configurations"], "all short texts over {word, space, newline, section commands}, all widths, all splits",
     "Tests cover a few texts.",
     ["core/text_formatter.hpp"], [("section stack and line breaking", "core/text_formatter.hpp")])
prop("C22", "Quoting, listing and dumping are faithful",
     "Quoted forms are unambiguous and printable and respect the requested size limit, formatting a sequence as a list and "
     "parsing it back restores the sequence, hexadecimal dumps show every byte once at the right place, and value parsing "
     "consumes the whole string or fails.",
     ["inputs", "configurations"], "all short strings and sequences over class-complete alphabets, all parameter combinations",
     "Tests list examples.",
     ["core/quote.hpp", "core/as_list.hpp", "core/hex_dump.hpp", "core/value_parser.hpp", "core/enum.hpp"], [("escape and truncation logic", "core/quote.hpp")])
prop("C23", "Parameterized strings and templates expand exactly",
     "Formatting a parameterized string and expanding a string template substitutes every parameter at its place, reproduces "
     "all other text unchanged, and reports malformed specifications; string splitting and trimming partition the input as "
     "documented.",
     ["inputs"], "all short template strings over a class-complete alphabet",
     "Tests list examples.",
     ["core/format.hpp", "core/string_template.hpp", "core/string.hpp", "core/string_formatter.hpp"], [("template parser", "core/string_template.hpp")])
prop("C24", "Byte-level integer utilities are exact",
     "Integer conversion between sequences of parts of any widths, endianness detection, hashing and bit field packing "
     "preserve every bit for all word sizes and all bit positions.",
     ["inputs", "configurations"], "all part widths, all values of small words",
     "Tests sample values.",
     ["core/integer.hpp", "core/endianness.hpp", "core/hash_fnv.hpp"], [("int_bit_copy", "core/integer.hpp")])
prop("C25", "Managed threads always join and hand over exceptions",
     "A managed thread is always waited for before its guard goes away, an exception leaving the thread function is rethrown "
     "to exactly one caller that asks for it, also after the guard has been moved, and no other thread schedule outcome is possible.",
     ["schedules", "histories"], "all interleavings of parent and managed threads up to a preemption bound, all guard operation sequences",
     "No test exercises it; move during execution is a race.",
     ["core/thread_guard.hpp"], [("join in destructor and move assignment", "core/thread_guard.hpp")])
prop("C26", "Loggers emit exactly the messages their configuration selects",
     "A log message is emitted exactly when its level is within the limit in force, once per selected destination, with all "
     "prefixes in order, formatted completely and never interleaved with another message, for any composition of prefix, "
     "limit, channel, duplicating, jail and timestamp loggers and any number of threads.",
     ["schedules", "histories", "configurations"], "all small logger compositions, all levels, all interleavings of two or three logging threads up to a preemption bound",
     "Only encoding loggers are tested.",
     ["log/logger.hpp", "log/limit_logger.hpp", "log/prefix_logger.hpp", "log/channel_logger.hpp", "log/duplicating_logger.hpp", "log/jail_logger.hpp", "log/impl/encoding_logger_impl.hpp"],
     [("effective limit, prefix chain, sink mutex", "log/logger.hpp")])
prop("C27", "Command lines are matched exactly as the interface specification says",
     "For any interface specification and any command line, the processor accepts exactly the command lines described by the "
     "patterns and options, invokes the right pattern function with the right arguments, applies every option in order, and "
     "reports an error for everything else.",
     ["inputs", "programs"], "all command lines up to a bounded length over a class-complete argument alphabet, for a family of specifications",
     "Tests list examples; NFA matching depends on the interplay of options, values and patterns.",
     ["cli/processor.hpp", "cli/impl/processor.hpp", "cli/impl/pattern_matcher.hpp", "cli/impl/nfa_builder.hpp", "cli/impl/spec_parser.hpp"],
     [("NFA pattern matching, option parsing", "cli/impl")])
prop("C28", "Test runner executes and counts every selected test exactly once per repetition",
     "For every thread schedule, the test runner executes each selected test exactly the requested number of times, never runs "
     "a nonconcurrent test at the same time as any other, reports begin and end of every execution without overlap of reporter "
     "calls, and its summary and verdict reflect every failed check and every failed execution.",
     ["schedules", "configurations"], "all interleavings of testing threads up to a preemption bound, all small test lists with failing, throwing and nonconcurrent tests",
     "The runner cannot observe its own schedules; a lost failure makes the suite report success.",
     ["check/test_runner.cpp", "check/noinst/thread_context_impl.cpp", "check/noinst/root_context_impl.cpp"],
     [("shared execution queue under mutex, per-thread counters merged at end", "check/noinst/thread_context_impl.cpp")])
prop("C29", "Check macros pass exactly when the stated relation holds",
     "Every check operation succeeds exactly when the mathematical relation it states holds between its arguments, whatever "
     "their types, and a failed check is counted and reported once.",
     ["inputs", "configurations"], "all check operations over boundary values of mixed integer and floating types, all short sequences",
     "The test library is the oracle of all other tests and is itself checked on examples only.",
     ["check/test_context.hpp", "check/test_context.cpp", "check/check_macros.hpp"], [("reliable comparison", "check/test_context.hpp")])
prop("C30", "Test reports and seeds are faithful",
     "Report files are well-formed and contain every executed test and failure with its exact text, and a serialized random "
     "seed parses back to the same seed and nothing else is accepted.",
     ["inputs"], "all short texts over a class-complete alphabet, all seed lengths and all single-character corruptions",
     "Tests use random seeds only.",
     ["check/xml_reporter.cpp", "check/random_seed.cpp", "check/random_seed.hpp"], [("escape, checksum", "check/random_seed.hpp")])
prop("C31", "Vector and matrix algebra is exact over small integers",
     "Vector and matrix operations (sums, products, inner and outer products, transposition, sub-matrix access, trace, "
     "determinant, inversion, solving) satisfy their algebraic definitions for every matrix of small integers of every small shape, "
     "singular matrices being reported as such.",
     ["inputs", "configurations"], "all matrices with entries from a small set, shapes up to 4x4",
     "Tests use a few matrices; pivoting depends on which entries are zero.",
     ["math/matrix.hpp", "math/vector.hpp", "math/matrix_base.hpp", "math/vector_base.hpp"], [("LU decomposition with partial pivoting", "math/matrix.hpp")])
prop("C32", "Quaternions and rotations agree with rotation matrices",
     "Quaternion arithmetic satisfies the quaternion algebra exactly on small integers, and converting a rotation between "
     "axis-angle, quaternion and matrix form, composing, inverting and applying it, gives the same effect on every vector within rounding.",
     ["inputs"], "all quaternions with small integer components, all axis and angle combinations of a grid including degenerate ones",
     "Tests use a few rotations.",
     ["math/quaternion.hpp", "math/rotation.hpp"], [("conversion formulas and sign selection", "math/quaternion.hpp")])
prop("C33", "Spatial search returns the true nearest point",
     "The balanced k-d tree is a permutation of the given points, and a nearest point search always returns a point at minimal distance.",
     ["inputs", "configurations"], "all point sets of bounded size on a small grid with duplicates, all query points, 1 to 3 dimensions",
     "Tests use random points.",
     ["util/kdtree.hpp"], [("median partition and branch pruning", "util/kdtree.hpp")])
prop("C34", "Rectangle packing places all boxes without overlap",
     "Rectangle packing succeeds only with every box inside the area and no two boxes overlapping, reports failure otherwise, "
     "and leaves no box out.",
     ["inputs"], "all lists of boxes of bounded number and size, all area sizes",
     "Tests use random boxes.",
     ["util/rectangle_packer.hpp"], [("first fit search over free spaces", "util/rectangle_packer.hpp")])
prop("C35", "Pixel geometry is exact set algebra",
     "Containment, intersection and clipping of boxes agree with the sets of pixels they denote, and position and size "
     "arithmetic is exact or reports overflow, up to the extreme coordinate values.",
     ["inputs"], "all boxes with coordinates from a small range and from the extremes of the integer type",
     "Tests sample boxes.",
     ["util/pixel_box.hpp", "util/pixel_pos.hpp", "util/pixel_size.hpp"], [("overflow-aware clipping", "util/pixel_box.hpp")])
prop("C36", "Color values survive text and numeric conversion",
     "Parsing a CSS color gives the color the CSS rules define or fails, formatting and reparsing a color restores it, "
     "conversions between numeric color component types are nearest-value and monotone and round-trip where the target is "
     "at least as precise, and color space conversions are mutually inverse within rounding.",
     ["inputs", "configurations"], "all short color strings over a class-complete alphabet, all component values of all component types",
     "Tests sample colors.",
     ["util/css_color.cpp", "util/css_color.hpp", "util/unit_frac.hpp", "util/color_space.hpp", "util/as_css_color.hpp", "image/comp_repr.hpp"],
     [("CSS parser, unit fraction conversion", "util/css_color.cpp, util/unit_frac.hpp")])
prop("C37", "Pixel formats store and retrieve every pixel without touching others",
     "In every pixel format, writing any block of pixels into an image and reading it back yields the same pixels, changes no "
     "pixel and no memory outside the block, and the memory layout is the documented one (component order, byte order, bit order, packing).",
     ["inputs", "configurations"], "all small image sizes, all block positions and sizes, all format parameters of a bounded family, all pixel values for small words",
     "Tests cover few combinations of format parameters.",
     ["image/integer_pixel_format.hpp", "image/packed_pixel_format.hpp", "image/subword_pixel_format.hpp", "image/indexed_pixel_format.hpp", "image/buffered_image.hpp", "image/bit_medium.hpp"],
     [("bit addressing and block transfer", "image/subword_pixel_format.hpp")])
prop("C38", "Image reading applies clipping, falloff and conversion exactly",
     "Reading any block of any image, inside, partly outside or far outside its boundaries, yields the true pixel inside and "
     "the pixel defined by the falloff mode outside, converted to the requested component type and color representation.",
     ["inputs", "configurations"], "all small images, all block positions around the image, all falloff mode pairs, all target representations",
     "Tests cover a few blocks and modes.",
     ["image/reader.hpp", "image/reader.cpp"], [("falloff index mapping and block splitting", "image/reader.cpp")])
prop("C39", "Image writing modifies exactly the target area",
     "Writing, filling, copying and blending blocks at any position modifies exactly the pixels in the intersection of the "
     "block with the image, with the value defined by the operation, in every supported image and color representation.",
     ["inputs", "configurations"], "all small images, all block positions around the image, copy and blend with all opacity extremes",
     "Tests cover a few blocks.",
     ["image/writer.hpp", "image/writer.cpp", "image/blend.hpp"], [("clipping and block-wise conversion", "image/writer.cpp")])
prop("C40", "PNG files round-trip and damaged files are rejected safely",
     "Saving an image as PNG and loading it restores size, format and every pixel, for all supported formats; any truncated or "
     "corrupted file and any I/O failure during loading or saving leads to an error report, never to a crash, hang or silent success with wrong pixels.",
     ["inputs", "fault_sequences", "configurations"], "all small images of all formats; truncation at every byte, corruption of every byte, I/O error at every call",
     "No test covers PNG.",
     ["image/file_format_png.cpp", "image/load.cpp", "image/save.cpp"], [("libpng callbacks with error propagation", "image/file_format_png.cpp")])
prop("C41", "Buffer format conversions describe the same memory",
     "Whenever one buffer format can be cast to another form, both describe exactly the same assignment of bits in memory to "
     "pixel components, and when no such cast is made the format is left unchanged; the descriptions of the pixel formats match the memory layout they use.",
     ["configurations"], "all buffer formats of a bounded family, all casts",
     "Tests do not cover it.",
     ["image/buffer_format.cpp", "image/buffer_format.hpp"], [("try_cast_to", "image/buffer_format.cpp")])
prop("C42", "Text rendering stays within bounds and is independent of state",
     "Rendering text with the built-in font places glyph pixels only inside the target, consistent with the reported "
     "metrics, and gives the same result regardless of previous rendering operations.",
     ["inputs", "histories"], "all short texts over representative glyphs, all small offsets",
     "Tests cover loading only.",
     ["font/face.hpp", "font/loader_fallback.cpp"], [("fallback face glyph transfer", "font/loader_fallback.cpp")])
prop("C43", "Event timestamps are unwrapped correctly for any delivery order",
     "Unwrapped event timestamps equal the true times for every sequence of wrapped timestamps, monotonic from each of the primary "
     "and the secondary clock, as long as the disagreement between the two clocks stays below half a wrapping period.",
     ["histories", "inputs"], "all sequences of bounded length over all time steps, small and large wrapping words",
     "Tests use chosen sequences.",
     ["display/noinst/timestamp_unwrapper.hpp"], [("session-relative unwrapping", "display/noinst/timestamp_unwrapper.hpp")])
prop("C44", "Display events are delivered in order under the documented rules",
     "For every order of window system events, a connection delivers to each window's handler exactly the events of that "
     "window, in order, with keyboard, mouse and focus rules as documented, and stops processing exactly when told to.",
     ["histories"], "all sequences of system events up to a bounded depth on an offline display back end",
     "No test covers it (needs a display).",
     ["display/sdl_implementation.cpp", "display/event_handler.hpp", "display/connection.hpp"], [("event loop", "display/sdl_implementation.cpp")])
prop("C45", "Key bindings dispatch the best matching handler once",
     "For any set of key bindings and any sequence of key and modifier events, exactly the handlers defined by the binding "
     "rules are invoked, with repeated-press counts and modifier changes taken into account.",
     ["histories", "configurations"], "all event sequences up to a bounded depth for a family of binding sets",
     "No test covers it.",
     ["render/impl/key_bindings.cpp", "render/impl/key_bindings.hpp", "render/key_binding_support.hpp"], [("binding lookup state machine", "render/impl/key_bindings.cpp")])
prop("C46", "Small ordered utilities keep their contracts for every input",
     "Range maps, frozen sets, compile-time hash maps, histograms, stable sort, index and stride iterators, enumerations with names, scope guards and typed "
     "registries return what their definitions say for every input and every order of operations.",
     ["inputs", "histories"], "all small contents and all queries",
     "Tests list examples.",
     ["core/range_map.hpp", "core/literal_hash_map.hpp", "core/histogram.hpp", "core/stride_iterator.hpp", "core/index_iterator.hpp", "core/enum.hpp"], [("various", "core")])
prop("C47", "Random numbers are exactly uniform over their range; seeding is deterministic",
     "For every generator range and every requested range, including ranges wider than the generator and ranges crossing zero, "
     "bounded random integers lie in the requested range and every value is produced by the same number of generator outputs; "
     "shuffling yields every permutation equally often; seed sequences produce the same words as std::seed_seq for the same seed, "
     "whatever history of copies, moves and assignments the seed sequence object has.",
     ["inputs", "histories"], "all outputs of small generators, all small ranges",
     "Tests run one generator with one seed and check broad statistics.",
     ["core/random.hpp"], [("rand_int, rand_int_max, SeedSeq, reseed_random", "core/random.hpp")])
prop("C48", "Timestamps and durations are broken down and formatted exactly",
     "For every instant in the supported range and every precision, the broken-down time, the fractional part and the formatted "
     "text of a timestamp denote exactly that instant (rounded down to the requested precision), also before the epoch.",
     ["inputs"], "a lattice of instants around all field boundaries, all precisions and formats",
     "Tests format the current time or a few instants.",
     ["core/time.hpp", "core/timestamp_formatter.hpp"], [("timestamp formatting", "core/timestamp_formatter.hpp")])

prop("C49", "The render engine redraws, ticks and quits as its events demand",
     "For every history of window, keyboard, mouse and screen events and of calls of the engine's interface, the engine renders and "
     "presents a new frame exactly when something that affects the frame has changed, every frame reflects the current view settings "
     "(projection, zoom within its limits, viewport, background, headlight, wireframe), the scene is ticked once per frame period as "
     "dictated by the tracked or explicitly set frame rate, also when the rate changes, and the engine stops when, and only when, told to quit.",
     ["histories"], "all event histories up to a depth, all feature configurations",
     "There is no test of the engine.",
     ["render/noinst/engine_impl.cpp", "render/engine.hpp"], [("engine loop", "render/noinst/engine_impl.cpp")])

prop("C50", "The virtual trackball follows the pointer and spins as released",
     "For every history of acquire, track, release, reorientation and viewport changes with arbitrary time stamps, the orientation "
     "reported by the virtual trackball is a proper finite rotation, follows the pointer on the ball while acquired, is continuous at "
     "acquisition and release, and afterwards turns at the constant rate with which the pointer moved immediately before the release.",
     ["histories"], "all histories up to a depth over a lattice of positions and time steps",
     "There is no test of the trackball.",
     ["render/virt_trackball.cpp", "render/impl/finite_curve_memory.hpp"], [("trackball", "render/virt_trackball.cpp")])
prop("C51", "Fallback font files are read faithfully and regenerated without loss",
     "Loading a fallback font accepts exactly well-formed specification files and gives the glyphs, metrics and names they state; regenerating the font from any "
     "face and loading the result reproduces that face's glyphs and metrics under every locale.",
     ["inputs", "configurations"], "all deviations of a specification file, all small stand-in faces, styles, sizes and range sets",
     "Tests load only the built-in font.",
     ["font/loader_fallback.cpp", "font/code_point.hpp", "core/text_parser.hpp"], [("load_fallback_font, regen_fallback_font", "font/loader_fallback.cpp")])
