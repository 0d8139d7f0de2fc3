#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
ALL = ["src/lib.rs", "src/utf8.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs",
       "src/utf32_le.rs", "src/single_byte.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"]
TESTS = ("The unit tests fix a handful of short strings per module and the 29 proptest cases discard the "
         "result of random calls or round-trip with one fixed 32-byte buffer, always with is_end=true, for 8 of the 38 encodings. ")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    a["observe_at"] = observe or ["return value of encode_from_str / decode_to_str and the caller's output buffer"]
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every call returns a well-formed result, never a panic",
 "For every encoding, every input, every output buffer length (including zero) and both values of the end-of-input flag, encoding and decoding return normally instead of panicking. On success the returned slice lies inside the caller's buffer, the consumed count does not exceed the input length and, when encoding, is a character boundary; decoded text, and the already-written part of the buffer after a decode error, is always valid UTF-8. On error the reported range is non-empty, lies inside the input (on character boundaries when encoding), and the reported written count does not exceed the buffer length.",
 ["inputs"], "all byte strings / strings x all buffer lengths x both end flags x 38 encodings",
 TESTS + "The never-panics tests use one 4096-byte buffer that never fills up and never inspect the result.",
 ALL, [("index arithmetic guarded by length comparisons; unchecked char / str conversions", "every encode_from_str / decode_to_str")])

prop("C02", "UTF-16 conversion follows the Unicode standard in both byte orders",
 "The big- and little-endian UTF-16 encoders produce, for every Unicode scalar value, exactly the code units the Unicode standard assigns to it, in the named byte order, and never return an error. The decoders map every well-formed code unit or surrogate pair back to that scalar value, and report unpaired surrogates and input that ends inside a code unit or pair as invalid data, never as text.",
 ["inputs"], "all scalar values, all code unit sequences, both byte orders",
 TESTS + "1.1 million scalar values and all unit pairs cannot be sampled by the two emoji and six kana used.",
 ["src/utf16_be.rs", "src/utf16_le.rs"], [("surrogate arithmetic", "src/utf16_be.rs, src/utf16_le.rs: encode_from_str, decode_to_str")])

prop("C03", "UTF-32 conversion follows the Unicode standard in both byte orders",
 "The big- and little-endian UTF-32 encoders produce, for every Unicode scalar value, its four-byte value in the named byte order and never return an error. The decoders accept exactly the 32-bit values that are Unicode scalar values, yielding that character, and report every other value (surrogates, values above 10FFFF) and an incomplete final unit as invalid data covering exactly that unit.",
 ["inputs"], "all scalar values, all 32-bit values, both byte orders",
 TESTS + "Only three invalid values are tested.",
 ["src/utf32_be.rs", "src/utf32_le.rs"], [("char::from_u32 on 4-byte units", "src/utf32_*.rs: decode_to_str")])

prop("C04", "UTF-8 decoding accepts exactly well-formed UTF-8 and passes it through",
 "The UTF-8 decoder outputs every well-formed character of its input unchanged and treats every other byte (overlong forms, surrogates, out-of-range values, stray or missing continuation bytes) as invalid data. A reported error starts at the first byte that is not part of a well-formed character, covers at least the run of continuation bytes and 11111xxx bytes that directly follows it, and never includes a byte of a well-formed character. The UTF-8 encoder copies text unchanged and never returns an error.",
 ["inputs"], "all byte strings, with and without more input to follow",
 TESTS + "The malformed inputs tested are a dozen fixed 17-byte strings, none with a malformed sequence just before the end of the input.",
 ["src/utf8.rs"], [("core::str::from_utf8 plus classification of the first bad byte", "src/utf8.rs: decode_to_str"), ("copy_len", "src/utf8.rs")])

prop("C05", "Single-byte decoders follow the published mapping of their encoding",
 "For each of the 31 single-byte encodings (US-ASCII, IBM 866, ISO 8859-1..11 and 13..16, KOI8-R/U, Mac Roman, Mac Cyrillic, Windows 874 and 1250..1258), decoding a byte yields exactly the character the encoding's published mapping table assigns to it. A byte the table leaves undefined is reported as invalid data covering exactly that byte. This holds at every position in any byte string.",
 ["inputs"], "31 encodings x 256 byte values x all positions/contexts",
 TESTS + "Only ISO 8859-1 is tested for all bytes and 8859-7 for some; 28 tables are never exercised.",
 ["src/single_byte.rs", "src/generated/single_byte"], [("DECODE_TABLE lookup", "src/single_byte.rs: ascii_ext_decode_to_str"), ("generated tables", "src/generated/single_byte/*_tables.rs.inc")])

prop("C06", "Single-byte encoders are the exact inverse of the published mapping",
 "For each of the 31 single-byte encodings and every Unicode scalar value: if the published mapping assigns a byte to the character, encoding it yields exactly that one byte; otherwise encoding fails and reports that character as unrepresentable. This holds at every position in any text.",
 ["inputs"], "31 encodings x 1,112,064 scalar values x all positions",
 TESTS + "Encoding is exercised for ISO 8859-1 and a few characters of 8859-7; binary search over the other 28 tables is untested.",
 ["src/single_byte.rs", "src/generated/single_byte"], [("binary search over sorted ENCODE_TABLE", "src/single_byte.rs: ascii_ext_encode_from_str")])

prop("C07", "Big5 decoding follows the WHATWG decoder and index",
 "For every byte string the Big5 decoder produces the text the WHATWG Big5 decoder produces: bytes 00-7F are themselves, a valid lead/trail pair yields the indexed character (or one of the four two-character combinations), and everything else is invalid data. The error covers the lead byte alone when the lead is invalid, the trail is missing at the end of input, or the offending trail byte is ASCII, and both bytes otherwise, so an ASCII byte is never swallowed.",
 ["inputs"], "all byte strings (all lead/trail pairs in all contexts)",
 TESTS + "One test feeds all valid pairs once, newline separated, with a huge buffer; the ~46,000 invalid pairs and all contexts are not covered.",
 ["src/big5_whatwg.rs", "src/generated/whatwg/big5_whatwg_tables.rs.inc"], [("pointer arithmetic and DECODE_TABLE", "src/big5_whatwg.rs: decode_to_str")])

prop("C08", "Big5 encoding yields the designated code for every representable text",
 "The Big5 encoder maps each character of the WHATWG Big5 index to its designated code (the lowest pointer, except the last one for U+2550, U+255E, U+2561, U+256A, U+5341 and U+5345), ASCII to itself, and the sequences U+00CA/U+00EA followed by U+0304/U+030C to their single combined code whenever both characters are present. Every other character is reported as unrepresentable.",
 ["inputs"], "all texts; 1,112,064 scalar values and all pairs with the four combining sequences",
 TESTS + "Representable characters are tested once each, newline separated; unrepresentable ones are represented by one emoji.",
 ["src/big5_whatwg.rs", "src/generated/whatwg/big5_whatwg_tables.rs.inc"], [("ENCODE_TABLE binary search, map_grapheme look-ahead", "src/big5_whatwg.rs: encode_from_str")])

prop("C09", "Shift JIS decoding follows the WHATWG decoder and index",
 "For every byte string the Shift JIS decoder produces the text the WHATWG Shift JIS decoder produces: bytes 00-80 are themselves, A1-DF are half-width katakana, a valid lead/trail pair yields the indexed character or, for pointers 8836-10715, a private-use character, and everything else is invalid data. The error covers the lead byte alone when the lead is invalid, the trail is missing at the end of input, or the offending trail byte is ASCII, and both bytes otherwise.",
 ["inputs"], "all byte strings (all lead/trail pairs in all contexts)",
 TESTS + "One test feeds all indexed pairs once, newline separated; the 1,880 private-use codes have two samples and invalid pairs seven.",
 ["src/shiftjis_whatwg.rs", "src/generated/whatwg/shiftjis_whatwg_tables.rs.inc"], [("pointer arithmetic, special cases and DECODE_TABLE", "src/shiftjis_whatwg.rs: decode_to_str")])

prop("C10", "Shift JIS encoding yields the designated code for every representable text",
 "The Shift JIS encoder maps U+0000-U+0080 to themselves, U+00A5 to 5C, U+203E to 7E, U+2212 like U+FF0D, U+FF61-U+FF9F to A1-DF, U+E000-U+E757 to the codes that decode to them, and each other character of the WHATWG JIS X 0208 index to the code of its lowest pointer outside 8272-8835. Every other character is reported as unrepresentable.",
 ["inputs"], "all texts; 1,112,064 scalar values in any context",
 TESTS + "Unrepresentable characters are represented by one emoji, the private-use area by its two end points.",
 ["src/shiftjis_whatwg.rs", "src/generated/whatwg/shiftjis_whatwg_tables.rs.inc"], [("special cases 1-5, ENCODE_TABLE binary search", "src/shiftjis_whatwg.rs: encode_from_str")])

prop("C11", "Streaming encode equals one-shot encode for every chunking",
 "Encoding a text piecewise - however it is cut into chunks, with whatever sequence of output buffer sizes, prepending unconsumed text to the next chunk, passing the end flag only with the last chunk, and skipping or substituting unrepresentable characters as they are reported - yields the same concatenated bytes and the same reported characters as encoding the whole text in one call. Without the end flag and with ample output space at most the one character that could still combine with the next one is left unconsumed.",
 ["inputs", "histories"], "all texts x all chunkings x all buffer-size sequences x error policies x 38 encodings",
 TESTS + "No test feeds an encoder a second chunk or varies the buffer between calls.",
 ALL, [("consumed-count computation, end-flag handling of U+00CA/U+00EA", "every encode_from_str")], state=[{"name": "unconsumed tail", "meaning": "text the caller must re-submit", "where": "second element of the Ok result"}])

prop("C12", "Streaming decode equals one-shot decode for every split of the bytes",
 "Decoding a byte stream piecewise - cut at any byte positions, also inside a character, with whatever sequence of output buffer sizes, prepending unconsumed bytes to the next chunk, passing the end flag only with the last chunk, and skipping each reported invalid range - yields the same text, and treats the same input bytes as invalid, as decoding the whole stream in one call. Without the end flag and with ample output space, fewer bytes than one complete character are left unconsumed.",
 ["inputs", "histories"], "all byte strings x all splits x all buffer-size sequences x 38 encodings",
 TESTS + "Split input is tested as a few truncated strings in a single call; continuation is never tested.",
 ALL, [("incomplete-tail detection with is_end", "decode_to_str of utf8, utf16_*, utf32_*, big5_whatwg, shiftjis_whatwg"), ("output-full break", "every decode_to_str")], state=[{"name": "unconsumed tail", "meaning": "bytes the caller must re-submit", "where": "second element of the Ok result"}])

prop("C13", "A limited output buffer holds the longest prefix of whole characters that fits",
 "When the output buffer limits a call, the call writes exactly the longest run of leading complete characters whose converted form fits, never part of a character, and the returned consumed count is exactly the length of the input those characters occupy. Consequently a call whose buffer can hold the next character always makes progress.",
 ["inputs"], "all inputs x all buffer lengths x 38 encodings",
 TESTS + "Three or four buffer lengths on one string per module are tested.",
 ALL, [("space check before each write; copy_len", "every encode_from_str / decode_to_str")])

prop("C14", "Encode errors are exact and resumable",
 "Encoding into a buffer with room reports an error if and only if the text contains a character the encoding cannot represent; the error names the first such character and its exact byte range, everything before it has been converted into the first output_bytes_written bytes of the buffer, and those bytes are valid text in the target encoding. Continuing after each reported range therefore produces exactly the encodings of the representable pieces of the text, and nothing else.",
 ["inputs", "histories"], "all texts with any number and placement of unrepresentable characters x buffer lengths x encodings",
 TESTS + "About ten fixed error cases; no test resumes after an error.",
 ALL, [("EncodeError construction", "encode_from_str of single_byte, big5_whatwg, shiftjis_whatwg")])

prop("C15", "Decode errors are exact, never cover valid text, and are resumable",
 "Decoding into a buffer with room reports an error (cause: invalid data) if and only if it reaches malformed or undefined input; the error range starts exactly at the first such byte, everything before it has been converted into the first output_bytes_written bytes of the buffer, and the range never contains a byte of a character that would decode on its own. Skipping each reported range and continuing therefore recovers every well-formed character of the input.",
 ["inputs", "histories"], "all byte strings x buffer lengths x both end flags x 38 encodings",
 TESTS + "Fixed single-error strings only; no test resumes after an error or has two errors.",
 ALL, [("DecodeError construction", "every decode_to_str")])

prop("C16", "Encoding is lossless except where documented",
 "For every text, if encoding succeeds then decoding the encoded bytes succeeds and returns the same text, in every encoding. The only exceptions are the documented Shift JIS substitutions U+00A5, U+203E and U+2212, which come back as U+005C, U+007E and U+FF0D.",
 ["inputs"], "all representable texts x buffer sizes x 38 encodings",
 TESTS + "Text round trips are tested for the UTFs with printable characters only; never for Big5, Shift JIS or 28 single-byte encodings.",
 ALL, [("encode and decode tables are inverses", "src/generated"), ("special cases", "src/shiftjis_whatwg.rs, src/big5_whatwg.rs")])

prop("C17", "Decoding then re-encoding is stable",
 "For the UTFs and all single-byte encodings, any byte string that decodes without error re-encodes to exactly the same bytes. For Big5 and Shift JIS, where several codes share a character, the re-encoding always succeeds, decodes to the same text, and re-encoding again changes nothing.",
 ["inputs"], "all valid byte strings x 38 encodings",
 TESTS + "Byte round trips are tested for ASCII, ISO 8859-1 and 8859-7 only.",
 ALL, [("encode and decode tables are inverses / canonicalise", "src/generated, single_byte.rs, big5_whatwg.rs, shiftjis_whatwg.rs")])

prop("C18", "The end-of-input flag only decides how an incomplete tail is treated",
 "If the input does not end inside a character, setting or clearing the end flag gives identical results. If it does, without the flag the call succeeds and leaves exactly the incomplete tail unconsumed, and with the flag the tail is finalised: decoders report it as an error from the tail's first byte through the end of input, and the Big5 encoder emits a final U+00CA/U+00EA as that character. With the flag set and ample output space, a successful call has consumed all of its input.",
 ["inputs"], "all inputs, especially all truncations of multi-byte characters, x both flags x buffer lengths",
 TESTS + "Two or three truncations per module.",
 ["src/utf8.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"], [("is_end branches", "decode_to_str of the multi-byte modules; big5_whatwg::encode_from_str")])

prop("C19", "Conversions are pure functions of their arguments",
 "The result of a call and the bytes it reports as written depend only on the encoding, the input, the end flag and, when output space is limiting, the buffer length: not on previous contents, alignment or surplus length of the buffer, the location of the input in memory, previous or concurrent calls to any encoding, or input beyond what was converted.",
 ["inputs", "histories"], "all inputs x buffer contents/sizes/alignments x call histories and interleavings across 38 encodings",
 TESTS + "Every test uses a fresh zero-filled buffer and one call.",
 ALL, [("no global state; output fully overwritten up to the returned length", "every encode_from_str / decode_to_str")])

prop("C20", "Encodings agree with each other where they must",
 "ASCII text encodes to and decodes from its own bytes in UTF-8 and every single-byte and multi-byte legacy encoding; the little-endian forms of UTF-16 and UTF-32 are the byte-swapped big-endian forms with identical consumed counts and errors; ISO 8859-1 maps 1-to-1 to the first 256 scalar values; and decoding any legacy text and passing it through UTF-8, UTF-16 or UTF-32 in either byte order gives the same text.",
 ["inputs"], "all texts and byte strings across all pairs of encodings",
 TESTS + "Modules are tested in isolation; nothing relates one to another.",
 ALL, [("ASCII fast path; to_be/to_le pairs of modules", "all modules")])

prop("C21", "The single-byte generator turns any mapping file into correct conversions",
 "For any mapping file that extends ASCII, with any choice of defined bytes, characters (other than U+FFFD), line order, comments and undefined-byte lines, building the crate with the table file the generator script produces gives a decoder that maps exactly the listed bytes to the listed characters and rejects the others, and an encoder that maps each listed character to the lowest byte that carries it. A mapping file that does not map all of 00-7F to themselves is refused.",
 ["inputs", "configurations"], "all valid single-byte mapping files",
 "No test runs the generator scripts; only the committed outputs are compiled.",
 ["encoding_tables/single_byte/generate_ascii_ext_tables.py", "src/single_byte.rs"], [("generate_ascii_ext_encoding", "encoding_tables/single_byte/generate_ascii_ext_tables.py")],
 ["behaviour of the crate rebuilt in a scratch copy from generated tables", "exit status of the script"])

prop("C22", "The Big5 and Shift JIS generators turn any index file into correct conversions",
 "For any index in the published format (any set of pointers outside the ranges the algorithms reserve, with characters repeated, in any line order), building the crate with the generated tables gives decoders that yield the indexed character for each listed pointer and reject the unlisted ones, and encoders that use the designated pointer when a character is listed more than once. The generated test vectors cover every listed pointer and every encodable character, and agree with the generated conversions in both directions.",
 ["inputs", "configurations"], "all index files",
 "No test runs the generator scripts; the committed test vectors come from the same script run as the committed tables, so a common mistake is invisible.",
 ["encoding_tables/whatwg/generate_big5.py", "encoding_tables/whatwg/generate_shiftjis.py", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"], [("index_to_bytes, deduped_table, generate_*_tables, generate_*_test_data", "encoding_tables/whatwg/*.py")],
 ["behaviour of the crate rebuilt in a scratch copy from generated tables", "generated test vector files"])

prop("C23", "Regenerating the tables from the committed mapping data changes no conversion",
 "Running the generator scripts on the mapping files in the repository and rebuilding gives a crate whose 38 encodings convert every byte pair and every scalar value exactly as the published mappings say and exactly as the crate built from the committed tables does.",
 ["inputs", "configurations"], "every byte pair and scalar value x 38 encodings, tables committed vs regenerated",
 "No test compares the committed tables with their source data.",
 ["encoding_tables", "src/generated"], [("__main__ sections of the generator scripts", "encoding_tables/**/generate_*.py")],
 ["behaviour of the crate rebuilt in a scratch copy from regenerated tables"])

prop("C24", "Conversions allocate nothing and need only a small, bounded stack",
 "No conversion in either direction of any encoding ever touches the heap, whether it succeeds, fails or stops for want of space. Every conversion of any input, up to several megabytes and however malformed, completes on a thread with 128 KiB of stack.",
 ["inputs"], "all inputs up to megabytes x buffer sizes x both flags x 38 encodings",
 TESTS + "No test observes allocation or stack use; inputs of the tests are below 200 bytes.",
 ALL, [("no_std and recursion-free loops over fixed tables", "src/lib.rs; every encode_from_str / decode_to_str")],
 ["counting global allocator", "thread with a small stack"])

prop("C25", "A call costs no more than the work it does",
 "The time of a call is at most proportional to what it converts: input beyond what fits in the buffer and buffer beyond what the input needs cost nothing. Streaming any input of length n through a small fixed buffer therefore takes time proportional to n.",
 ["inputs"], "input sizes to megabytes x content x buffer sizes x 38 encodings in both directions",
 TESTS + "No test has an input large enough for the cost of a call to show.",
 ALL, [("single pass over the input; slicing before validating", "every encode_from_str / decode_to_str, src/utf8.rs")],
 ["CPU time of the calling thread"])

prop("C26", "Streams can be transcoded between any two encodings in bounded memory",
 "A pipeline that decodes a byte stream from any encoding and encodes it in any other, through buffers of any sizes from 4 bytes on and input chunks of any sizes, terminates and produces exactly the bytes of converting the whole in one piece. With invalid input skipped or replaced, and unrepresentable characters replaced, each once and in place, the result is the same for every choice of buffers and chunks.",
 ["inputs", "histories"], "all byte streams x 38 x 38 encodings x chunk sizes x buffer sizes x error policies",
 TESTS + "No test drives two conversions together; the documented loop is an example that is compiled and not run.",
 ALL, [("contract of the free functions: consumed counts, errors, resumption", "src/lib.rs; every encode_from_str / decode_to_str")])

prop("C27", "Table generation is reproducible and a refused mapping harms nothing",
 "What the generator scripts produce depends on the mapping files alone: not on hash seeds, locale, time, directory, earlier contents of the generated files, how often the scripts run, whether the other scripts run at the same time, or whether an earlier run was cut off part-way. When a mapping file is refused, every file generated before is left exactly as it was. A script that cannot write a file in full exits with an error.",
 ["inputs", "configurations", "crash_points"], "all mapping and index files x environments x earlier contents x points of interruption",
 "No test runs the generator scripts.",
 ["encoding_tables/single_byte/generate_ascii_ext_tables.py", "encoding_tables/whatwg/generate_big5.py", "encoding_tables/whatwg/generate_shiftjis.py"],
 [("opening, writing and closing of files, iteration over sets and dicts", "encoding_tables/**/generate_*.py")],
 ["generated files in a scratch copy", "exit status of the script"])

prop("C28", "A malformed mapping file is refused, never turned into wrong tables",
 "If a mapping or index file lists a byte or pointer outside the range of the encoding, lists one twice, maps to a value that is not a Unicode scalar value, or has a line whose numbers cannot be read, its generator script exits with an error. It never writes tables that convert wrongly or do not build.",
 ["inputs", "configurations"], "all mapping and index files with such a defect",
 "No test runs the generator scripts.",
 ["encoding_tables/single_byte/generate_ascii_ext_tables.py", "encoding_tables/whatwg/generate_big5.py", "encoding_tables/whatwg/generate_shiftjis.py"],
 [("load_table_file; reading loop of generate_ascii_ext_encoding", "encoding_tables/**/generate_*.py")],
 ["exit status of the script", "generated files in a scratch copy"])

prop("C29", "The result of a call does not depend on the build or the machine",
 "For every call (encode or decode of any input, any buffer length, end flag and call history), optimised and unoptimised builds, builds with and without debug assertions, overflow checks and the processor's extra features, and targets of either byte order and of 32-bit or 64-bit pointers return the same result: same variant, counts, bytes and error fields. Code that computes fixed widths and byte orders by hand must never take them from the machine.",
 ["inputs", "histories", "configurations"], "all calls, on all targets and build profiles",
 "The tests run on one little-endian 64-bit machine and in one build profile.",
 ["src/lib.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs", "src/utf8.rs", "src/single_byte.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"],
 [("encode_from_str", "src/**"), ("decode_to_str", "src/**")],
 ["return values and buffers of encode and decode in each build"])

prop("C30", "No input makes the crate execute undefined behaviour",
 "Whatever the input, buffer length, history of calls and calls running at the same time, encode and decode read nothing outside the input, access nothing outside the output buffer, and never make an invalid value: no uninitialised data, no str that is not UTF-8, no misaligned or dangling access, no data race. This holds wherever the input and the buffer lie in memory, at any alignment and next to inaccessible memory.",
 ["inputs", "histories", "configurations"], "all calls, with inputs and buffers anywhere in memory",
 "The crate uses unsafe code, and a read past the end of an input gives no wrong result in a test.",
 ["src/lib.rs", "src/utf8.rs", "src/single_byte.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"],
 [("encode_from_str", "src/**"), ("decode_to_str", "src/**"), ("unsafe blocks of the encodings", "src/**")],
 ["memory accesses next to protected pages", "Miri's verdict on the calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert sum(p["statement"].count(x) for x in (". ",)) <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
