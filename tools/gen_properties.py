#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code so that it stays valid JSON).
import json, os
P = "packages/"
O = P + "optivorbis/src/"
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None))
L = []
L.append(prop("C01", "Optimization is lossless: decoded audio is unchanged",
 "For every valid Vorbis I stream with floor type 1, every audio packet a decoder would decode is present in the output, in the same order, and decodes to exactly the same mode, window flags, floor values, residue classifications, codebook entries and vector-quantization values as in the input, so the decoded PCM is bit-identical. Packets that a decoder would discard (empty, or ended before the mode and window flags) are the only ones that may be dropped, and trailing padding bytes are the only data that may be removed from a kept packet.",
 ["inputs"], "All valid setup headers (codebook shapes, ordered/sparse/single-entry codebooks, lookup types 0-2, floor 1, residue types 0-2, coupling, submaps, up to 64 modes, up to 255 channels, all blocksizes) and all audio packet contents, including truncated and padded ones.",
 "The tests remux a handful of fixture files and only check that no error is returned; no test decodes the output or compares it with the input.",
 [O+"vorbis/optimizer/audio_packet_common.rs", O+"vorbis/optimizer/audio_packet_rewrite.rs", O+"vorbis/optimizer/audio_packet_analyze.rs", O+"vorbis/codebook/mod.rs", O+"vorbis/codebook/huffman_tree.rs"],
 [("two-pass rewrite replaying the same packet walk", O+"vorbis/optimizer/audio_packet_rewrite.rs"), ("packet walk", O+"vorbis/optimizer/audio_packet_common.rs"), ("codeword assignment", O+"vorbis/codebook/huffman_tree.rs")],
 ["bytes returned by OggToOgg::remux, decoded by an independent decoder", "packets returned by VorbisOptimizer::optimize_packet"]))
L.append(prop("C02", "Identification and setup headers keep their meaning and are conformant",
 "The output identification header has the same channels, sampling rate, bitrates and blocksizes, exactly 30 bytes and a framing bit of one. The output setup header describes the same codebooks (dimensions, entry count, lookup type, exact minimum and delta values, value bits, sequence flag, multiplicands), floors, residues (type, begin, end, partition size, classifications, cascades, books), mappings (coupling, multiplexing, submaps) and modes as the input in the same order; only codeword lengths may differ. The output setup header is strictly specification-conformant with no data beyond its framing bit except bit padding.",
 ["inputs"], "All valid identification and setup headers, including extreme field values (entry counts, zero or very small/large Vorbis floats, 256 codebooks, 64 floors/residues/mappings/modes).",
 "No test parses the headers of the output; the setup rewriter has no unit tests and lookup-count and float packing are sampled on a few values.",
 [O+"vorbis/optimizer/setup_header_parse.rs", O+"vorbis/optimizer/setup_header_rewrite.rs", O+"vorbis/optimizer/identification_header_copy.rs", P+"vorbis_bitpack/src/lib.rs"],
 [("setup parse", O+"vorbis/optimizer/setup_header_parse.rs"), ("setup rewrite", O+"vorbis/optimizer/setup_header_rewrite.rs"), ("float32 pack/unpack", P+"vorbis_bitpack/src/lib.rs")],
 ["header packets in the bytes returned by OggToOgg::remux"]))
L.append(prop("C03", "Emitted codebooks are optimal prefix codes for the stream",
 "For every codebook, the codeword lengths in the output setup header form a complete prefix code (or the one-bit single-entry code) over exactly the entries that the stream's audio packets use, each length being between 1 and 32, and the total number of codeword bits in the audio packets is the minimum any prefix code can achieve for those usage counts (within the format's 32-bit limit), hence never more than in the input. The setup header writes each list of codeword lengths in the most compact of the formats that can express it (ordered, unordered or sparse). Audio packets carry no padding bytes after their last coded bit.",
 ["inputs"], "All usage histograms of codebook entries: empty, single, uniform, skewed, Fibonacci-like, ties, thousands of entries.",
 "Unit tests check the code length algorithm on one ten-symbol example and trivial cases; nothing checks optimality of the emitted streams.",
 [O+"vorbis/codebook/huffman_codeword_lengths.rs", O+"vorbis/codebook/mod.rs", O+"vorbis/codebook/huffman_tree.rs", O+"vorbis/optimizer/setup_header_rewrite.rs"],
 [("entry frequency recording", O+"vorbis/codebook/mod.rs"), ("in-place Huffman lengths", O+"vorbis/codebook/huffman_codeword_lengths.rs")],
 ["codeword lengths and codewords in the output setup header and audio packets"]))
L.append(prop("C04", "Comment header follows the requested vendor and comment actions",
 "The output comment header is always a well-formed Vorbis comment header whose vendor string is, byte for byte, the input one (Copy), the full OptiVorbis tag (Replace), the input one followed by '; ' and the full or short tag unless it already ends with '; ' and either tag (AppendTag, AppendShortTag), or empty (Empty); its user comments are the input ones in order and byte for byte (Copy), or none (Delete). If the input comment header ends early, everything completely read before that point is kept, the rest is left out, and the audio is still processed.",
 ["inputs","configurations"], "All vendor strings and comment lists (any bytes, any lengths, empty, non-UTF-8), all truncation points, all combinations of the five vendor actions and two comment actions.",
 "Tests cover one fixture per action and never a truncated or non-UTF-8 header.",
 [O+"vorbis/optimizer/comment_header_parse.rs", O+"vorbis/optimizer/comment_header_copy.rs"],
 [("comment parse with end-of-packet tolerance", O+"vorbis/optimizer/comment_header_parse.rs"), ("comment regeneration", O+"vorbis/optimizer/comment_header_copy.rs")],
 ["second packet of each logical stream in the output"]))
L.append(prop("C05", "Output is a valid and tight Ogg bitstream",
 "The output is a sequence of Ogg pages with nothing before, between or after them, where each page has version 0, a correct CRC and correct lacing; per logical stream, page sequence numbers count up from zero, the beginning-of-stream flag is on the first page only and the end-of-stream flag on the last page only, continuation flags match packet spanning, and logical streams are not interleaved. The identification header is alone on the first page, the setup header ends its page, and audio packets are packed into as few pages as possible, except that the page of the first audio packets may end early where that is what tells a start offset apart.",
 ["inputs"], "All input streams (packet sizes from 0 bytes to several maximal pages, any original paging) and all chainings of them.",
 "Tests never parse the container of the output.",
 [O+"remuxer/ogg_to_ogg/mod.rs"],
 [("page end decisions", O+"remuxer/ogg_to_ogg/mod.rs (second_pass)")],
 ["bytes returned by OggToOgg::remux, parsed by an independent Ogg demuxer"]))
L.append(prop("C06", "Granule positions are correct, keep start offset and end truncation",
 "Header pages have granule position 0; each other page has the granule position implied by the block sizes of the audio packets completed up to it, plus the start offset of the original stream (original granule position of the first audio page minus its computed one) unless ignoring the start offset was requested, and -1 if no packet ends in it. The last page keeps the original granule position (minus the offset when ignored) whenever it is consistent, i.e. yields at least one and at most all samples of the last packet, and is the computed position otherwise, so that a decoder presents the same samples at the same times. Wrong intermediate granule positions in the input are repaired.",
 ["inputs","configurations"], "All sequences of short and long blocks, original pagings, start offsets (positive, negative, zero), end truncations, corrupt granule positions, missing end-of-stream flags, discarded packets, both settings of the start offset option.",
 "Unit tests only run fixtures with zero offset and do not inspect granule positions.",
 [O+"remuxer/ogg_to_ogg/granulator.rs", O+"remuxer/ogg_to_ogg/mod.rs"],
 [("granule position state machine", O+"remuxer/ogg_to_ogg/granulator.rs")],
 ["granule positions of the pages returned by OggToOgg::remux"],
 [dict(name="last written granule and block size, start offset", meaning="running position per stream", where=O+"remuxer/ogg_to_ogg/mod.rs (VorbisStreamState)")]))
L.append(prop("C07", "Any input bytes give a result or an error, never a crash or a hang",
 "For every byte sequence, every setting and every prefix, corruption or splice of valid streams, remuxing and the low-level optimizer return a success or an error in time bounded by the input and declared codebook sizes: they never panic, overflow, loop forever, or cause undefined behaviour. When remuxing succeeds with a non-empty output, that output can be remuxed again successfully.",
 ["inputs","configurations"], "All byte strings as Ogg input with checksum verification on or off, and all packet sequences fed to the low-level API.",
 "The tests use ten well-formed files; the fuzz target in the repository is not run by the tests and has no output oracle.",
 [O+"remuxer/ogg_to_ogg/mod.rs", O+"vorbis/optimizer/setup_header_parse.rs", O+"vorbis/optimizer/audio_packet_common.rs", O+"vorbis/codebook/huffman_tree.rs"],
 [("error propagation and checked arithmetic", O+"vorbis/optimizer.rs"), ("arena backed self-referencing tree", O+"vorbis/codebook/huffman_tree.rs")],
 ["return value, panics, sanitizer reports of OggToOgg::remux and VorbisOptimizer under hostile input"]))
L.append(prop("C08", "I/O faults and short transfers are handled without silent data loss",
 "Short reads and writes and interrupted writes do not change the output, an interrupted read either does not change it or is reported, and any other read, seek or write error makes remuxing return an error, never success and never a panic. Success means that every byte of the output was accepted by the sink. The source is read only from its initial position onwards, and both passes start there, so data before the initial position never matters.",
 ["fault_sequences","inputs"], "Every read, seek and write operation index failing, with every error kind, every chunking of reads and writes, and every initial source position.",
 "Tests only use in-memory cursors at position zero that never fail.",
 [O+"remuxer/ogg_to_ogg/mod.rs", P+"vorbis_bitpack/src/lib.rs"],
 [("error propagation with ?, rewind to the initial position", O+"remuxer/ogg_to_ogg/mod.rs")],
 ["fault-injecting Read/Seek/Write wrappers around OggToOgg::remux"]))
L.append(prop("C09", "Exactly the Vorbis streams are kept; unsupported multiplexing is refused",
 "Every Vorbis logical stream of a chained Ogg input is in the output, complete, in order and optimized independently of the others, and non-Vorbis logical streams, chained or multiplexed with a Vorbis stream, contribute nothing to it. A Vorbis stream that begins while another Vorbis stream has not ended is refused with the unsupported-multiplexing error, and one that goes on after another has begun is refused. An input without Vorbis streams gives the no-Vorbis-stream error, or an empty output when that error is disabled; a stream that announces itself as Vorbis but has an invalid identification header is an error.",
 ["inputs","configurations"], "All chainings and interleavings of Vorbis and non-Vorbis logical streams, including missing end-of-stream flags and streams with headers only.",
 "Tests have one chained file, one skeleton file and one Opus file and only check for success or error.",
 [O+"remuxer/ogg_to_ogg/mod.rs", O+"vorbis/optimizer.rs"],
 [("stream map and grouping detection", O+"remuxer/ogg_to_ogg/mod.rs (first_pass)")],
 ["logical streams of the output and returned errors"]))
L.append(prop("C10", "Stream serials follow the settings and SOURCE_DATE_EPOCH is reproducible",
 "Without randomization, the i-th Vorbis stream of the output gets the serial first_stream_serial_offset + i (mod 2^32). With randomization, all streams of an output have distinct serials, serials differ between runs, and the offset is added to the random serials. With SOURCE_DATE_EPOCH set to a valid (possibly negative) integer, separate processes remuxing the same input with the same settings produce byte-identical output, different inputs generally get different serials, and an invalid value gives the invalid-SOURCE_DATE_EPOCH error; without randomization, or in builds without the source-date-epoch feature, the variable has no influence.",
 ["inputs","configurations"], "All offsets including wrap-around, any number of chained streams, all values of SOURCE_DATE_EPOCH.",
 "No test looks at the serials or sets SOURCE_DATE_EPOCH.",
 [O+"remuxer/ogg_to_ogg/mod.rs"],
 [("random_stream_serial_and_increment", O+"remuxer/ogg_to_ogg/mod.rs")],
 ["serials in the output of separate processes"]))
L.append(prop("C11", "Remuxing is deterministic, isolated and idempotent",
 "With fixed serials, the output depends only on the input bytes and settings: it is the same on repetition, with a reused or fresh remuxer, after an error in a previous remux, for a differently paged input with the same packets and granule positions, and with any number of threads remuxing at the same time. Remuxing an output again keeps every packet and granule position and cannot make it smaller (packets that end in the middle of a symbol aside).",
 ["inputs","histories","schedules"], "All inputs, all sequences of remuxes on one instance and all thread schedules.",
 "Each test performs one remux on one thread.",
 [O+"remuxer/ogg_to_ogg/mod.rs", O+"vorbis/codebook/huffman_codeword_lengths.rs"],
 [("per-remux state only; process-wide PRNG behind a mutex", O+"remuxer/ogg_to_ogg/mod.rs")],
 ["bytes returned by repeated, interleaved and concurrent OggToOgg::remux calls"]))
L.append(prop("C12", "Vorbis bitpacking is exact in both the std and the no-std build",
 "Any sequence of writes of unsigned and signed integers of widths 0 to 32, flags and Vorbis floats gives exactly the least-significant-bit-first concatenation of their low bits, zero-padded to a byte when finalized or dropped, and reading with the same widths returns the same values; writing after finalizing starts at the next byte. Reading past the end is an unexpected-end-of-file error and never a value, reads consume no byte that is not needed, every 32-bit Vorbis float word is read as its exact value, and packing a value that is exactly representable gives a word of the same value, including zero.",
 ["inputs","histories"], "All operation sequences and widths, all 2^32 Vorbis float words, both feature configurations.",
 "Tests sample a few sequences and a stride of float words whose exponent is in the normal range.",
 [P+"vorbis_bitpack/src/lib.rs"],
 [("BitpackReader, BitpackWriter, float32_pack, float32_unpack", P+"vorbis_bitpack/src/lib.rs")],
 ["public API of vorbis_bitpack with and without the no-std feature"]))
L.append(prop("C13", "Documented stream defects are repaired instead of rejected",
 "In release builds, a stream whose only defects are wrong framing bits, wrong codebook sync patterns, nonzero time-domain transforms, window or transform types, nonzero reserved mapping bits, a residue end before its begin, trailing bytes after header data, a truncated comment header, empty or padded audio packets, a missing end-of-stream flag, or wrong granule positions is accepted, and the output is what the same stream without these defects gives, i.e. a strictly conformant stream with the same audio.",
 ["inputs"], "All subsets of these defects applied to all valid streams.",
 "One fixture has empty audio packets; the leniencies for release builds are not compiled in the test profile at all.",
 [O+"vorbis/optimizer/setup_header_parse.rs", O+"vorbis/optimizer/identification_header_copy.rs", O+"vorbis/optimizer/comment_header_parse.rs", O+"remuxer/ogg_to_ogg/mod.rs"],
 [("lenient parse, normalizing rewrite", O+"vorbis/optimizer/setup_header_parse.rs")],
 ["output for the defective stream compared with output for the clean stream"]))
L.append(prop("C14", "Invalid streams are refused, corrupt pages are detected",
 "A stream whose identification or setup header violates the specification in a way that affects decoding (bad version, zero channels or rate, bad blocksizes, overspecified codebook, floor type other than 1, reserved residue, lookup or mapping type, out-of-range codebook, floor, residue, mapping or channel index, classbook with too few entries, repeated or too many floor points counting the implicit ones, early end of packet, missing, repeated or misordered headers), or whose audio packets use an undefined mode, an unassigned codeword, a non-vector or wrongly dimensioned codebook for residue, or a header packet type, is refused with an error. Values at the limits that the specification allows are accepted. A page whose checksum does not match is refused when verification is on and accepted, with correct checksums in the output, when it is off.",
 ["inputs","configurations"], "All single violations placed anywhere in any valid stream; all bit flips of a page.",
 "Tests cover one file with a bad checksum and one Opus file.",
 [O+"vorbis/optimizer/setup_header_parse.rs", O+"vorbis/optimizer.rs", O+"vorbis/optimizer/audio_packet_common.rs", O+"remuxer/ogg_to_ogg/mod.rs"],
 [("header validation", O+"vorbis/optimizer/setup_header_parse.rs"), ("packet validation", O+"vorbis/optimizer/audio_packet_common.rs"), ("verify_ogg_page_checksums", O+"remuxer/ogg_to_ogg/mod.rs")],
 ["errors returned by OggToOgg::remux and VorbisOptimizer"]))
L.append(prop("C15", "The command-line program does what its options say and reports failure",
 "For valid arguments, the program writes to the output file, or to standard output for '-', exactly the bytes the library gives with the settings named by its options and the documented defaults for the others, nothing else is written to standard output in that case, and it exits with 0. For unknown options, invalid option values, a wrong number of files, unreadable input, a remuxer that is unknown or cannot be deduced, invalid streams, or any failure to write the whole output, it prints a message to standard error and exits with a nonzero status. The input file is never changed: an output that is the same file, under whatever name, is refused. Quiet mode prints nothing on success, and help and version requests exit with 0.",
 ["inputs","configurations","fault_sequences"], "All combinations of options and values, input files and output kinds, including full or closed outputs.",
 "The command-line package has no tests.",
 [P+"optivorbis_cli/src/bin/optivorbis.rs"],
 [("option parsing and remux", P+"optivorbis_cli/src/bin/optivorbis.rs")],
 ["exit status, standard output, standard error and output file of the built program"]))
L.append(prop("C16", "Manglers see the right values and have the final say",
 "For each Vorbis stream the mangler is given the original sampling frequency and bitrates once, and for each packet written, in order, the computed serial, page end and granule position with its number within its stream and correct header and last-packet indications; exactly the values it returns are what is in the output, and the pass-through mangler and the default methods change nothing.",
 ["inputs","configurations"], "All streams, chainings and mangler return values.",
 "No test uses a mangler other than the pass-through one.",
 [O+"remuxer/ogg_to_ogg/mod.rs", O+"remuxer/ogg_to_ogg/ogg_vorbis_stream_mangler.rs"],
 [("mangler calls", O+"remuxer/ogg_to_ogg/mod.rs")],
 ["recorded mangler calls checked against the output"]))
L.append(prop("C17", "The low-level optimizer honours its documented contract",
 "For a stream fed packet by packet, analysis returns nothing for headers and discarded packets and the block size of the packet's mode for other audio packets; optimization returns a packet without block size for headers, nothing for exactly the discarded audio packets, and a packet with the same block size as in analysis for the others, for borrowed and owned buffers alike. The packets it returns are the ones the remuxer writes for the same stream and settings, and do not depend on other optimizer instances.",
 ["inputs","histories"], "All valid packet sequences, buffer ownerships and interleavings of optimizer instances.",
 "No test uses the low-level API.",
 [O+"vorbis/optimizer.rs", O+"vorbis/optimizer/audio_packet_analyze.rs", O+"vorbis/optimizer/audio_packet_rewrite.rs"],
 [("state machine", O+"vorbis/optimizer.rs")],
 ["return values of VorbisOptimizer::analyze_packet and optimize_packet"]))
L.append(prop("C18", "The WebAssembly bindings behave as the native remuxer",
 "For every input buffer, valid or not, the remux method of the exported OggToOgg class returns the bytes that the native library's OggToOgg::new_with_defaults() gives for it, apart from the stream serials, which are random and distinct in both, and throws a string with the native error message if and only if the native library returns an error; it never aborts. That also holds on the 32-bit target for extreme field values (where memory suffices), and for any number of calls on one instance, after errors too, without keeping memory.",
 ["inputs","configurations","histories"], "All input buffers and sequences of calls, in a WebAssembly host.",
 "No test runs the WebAssembly build, or any 32-bit build.",
 [O+"wasm_bindings.rs", O+"vorbis/optimizer/comment_header_parse.rs", O+"remuxer/ogg_to_ogg/mod.rs"], [("exported class", O+"wasm_bindings.rs"), ("sums of lengths in pointer-sized integers", O+"vorbis/optimizer/comment_header_parse.rs")], ["results and exceptions of the exported function, called in Node.js"]))
W = "web/src/ts/"
L.append(prop("C19", "The web demo delivers the optimized file or the error, for any use of the page",
 "For every file chosen with the file dialog, or dropped with an Ogg media type (audio, video or application), the page passes its bytes to the library once and presents the result: on success the player and each download have exactly the bytes that the library returned, typed audio/ogg, downloaded under the name of that file; on failure the error's message is shown as text and the file selector is back. While a file is processed only the progress text is visible, and never afterwards, also if the worker fails. Any file, also the same one, can be processed after going back or after an error; cancelled dialogs and drops without Ogg files change nothing; at most the object URL of the presented file is alive.",
 ["inputs","histories","fault_sequences"], "All files, names, media types and sequences of user actions and worker failures.",
 "The web demo has no tests.",
 [W+"main.ts", W+"optivorbis_worker.ts", W+"input_file_handler.ts", W+"input_file_drop_zone.ts", W+"output_file_section.ts", W+"file_error_modal.ts"],
 [("worker", W+"optivorbis_worker.ts"), ("file handling", W+"input_file_handler.ts"), ("drag and drop", W+"input_file_drop_zone.ts"), ("download and back", W+"output_file_section.ts")],
 ["visible elements, player source, downloads, messages and object URLs of the page, run in a model of a browser"]))
L.append(prop("C20", "Memory and time do not grow beyond the need, and all memory is given back",
 "Remuxing and the low-level optimizer work packet by packet: the most memory they hold at once, apart from the source and the sink, is bounded by a multiple of the sizes that the headers of the Vorbis streams declare or contain (the comments that a header announces but does not contain do not count) plus the packets of an output page, and does not grow with the number of pages or packets, be they kept, discarded or of other logical streams. Processing time grows in proportion to the length of a stream and to what else a file has of something (streams, comments, codebook entries, bytes of a packet), not faster, and so does the memory that these take. After each call, whether it succeeds, refuses the input or meets an I/O error, and once its results and low-level optimizers are dropped (in whatever state), all memory is given back.",
 ["inputs","histories","fault_sequences"], "All stream lengths, inputs, settings, points of failure, and states of the low-level optimizer.",
 "Tests remux a few short files and do not observe memory.",
 [O+"remuxer/ogg_to_ogg/mod.rs", O+"vorbis/optimizer.rs", O+"vorbis/optimizer/setup_header_parse.rs", O+"vorbis/codebook/huffman_tree.rs", O+"vorbis/codebook/mod.rs"],
 [("passes over the packets", O+"remuxer/ogg_to_ogg/mod.rs"), ("reservations by declared sizes", O+"vorbis/optimizer/setup_header_parse.rs"), ("arena of the Huffman tree", O+"vorbis/codebook/huffman_tree.rs")],
 ["heap allocations and releases of the thread, CPU time"]))
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
