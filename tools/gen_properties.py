#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Compression is lossless for every point layout and item version",
 "For every supported combination of point items and item versions, any sequence of point records that is compressed and then decompressed with the same LASzip parameters yields the original records byte for byte, in order. This holds for every bit pattern of every field, including extreme integers, floating-point times that are NaN, infinite or negative zero, unused bits, and any order of scanner channels, return numbers and returns-per-pulse.",
 ["inputs", "configurations"], "all layouts (point formats 0-10, with and without extra bytes, every legal item version) x all point sequences",
 "The unit tests replay a handful of smooth files/point literals; the codecs are adaptive predictors whose branches depend on the differences between several past points, so the values and orders that break them never occur there.",
 ["src/las/point0.rs","src/las/point6.rs","src/las/gps.rs","src/las/rgb.rs","src/las/nir.rs","src/las/wavepacket.rs","src/las/extra_bytes.rs","src/record.rs"],
 [("per-field compressor/decompressor pairs that must mirror each other's predictor state","src/las/*.rs"),("sequential (v1/v2) and layered (v3/v4) record framing","src/record.rs")],
 [("last point / last values per context","prediction history, one per scanner channel for the layered formats","src/las/point6.rs"),("gps time sequences","four remembered time stamps/differences","src/las/gps.rs")],
 ["bytes returned by the decompressor"])

prop("C02", "Compressed bytes are exactly the LASzip encoding",
 "For every supported layout, item version and point sequence, the compressed stream (header offset, chunk bytes including layer sizes, chunk table) is byte-identical to what the LASzip format definition prescribes, and streams produced by any other conforming LASzip encoder decode to the points that encoder was given.",
 ["inputs","configurations"], "all layouts/versions x all point sequences x chunk sizes, in both directions (our encoder against the reference decoder and the reverse)",
 "Compressor and decompressor of this library share constants and predictors, so a matched error on both sides round-trips perfectly and only breaks interchange with other software; the six LASzip-made fixture files exercise a few value patterns and two layouts.",
 ["src/las","src/encoders.rs","src/decoders.rs","src/models.rs","src/compressors.rs","src/decompressors.rs","src/laszip/chunk_table.rs","src/record.rs"],
 [("arithmetic coder and adaptive models with the LASzip constants","src/encoders.rs, src/models.rs"),("integer coder corrector buckets","src/compressors.rs"),("predictors and context formulas","src/las"),("chunk layout","src/laszip, src/record.rs")],
 None, ["compressed bytes", "decoded points"])

prop("C03", "The entropy coder is lossless for every mix of coding calls",
 "Any sequence of encoder calls (adaptive symbols over any alphabet size from 2 to 2048, adaptive bits, raw bits of any width 1 to 32, raw bytes, shorts, 32- and 64-bit integers), finished once, is decoded to the same values by the mirrored calls with identically configured models, and decoding consumes no more than the bytes that were produced. This holds for any length, including carries that propagate through the output buffer and after models were rescaled many times.",
 ["inputs","programs"], "all programs of encoder calls x all values x all lengths",
 "Unit tests encode two short streams; carry propagation across the internal buffer boundary, interval underflow and model halving only appear for particular long value sequences.",
 ["src/encoders.rs","src/decoders.rs","src/models.rs"],
 [("carry propagation through a circular output buffer","src/encoders.rs"),("model statistics halving and decoder tables","src/models.rs"),("interval renormalisation","src/decoders.rs, src/encoders.rs")],
 [("base/length interval","the coder state","src/encoders.rs"),("symbol counts, update cycle","adaptive statistics","src/models.rs")],
 ["decoded values","number of bytes produced and consumed"])

prop("C04", "The integer coder is lossless for every width, context and value",
 "For every bit width 1 to 32 (or equivalent value range up to 2^30), number of contexts and splitting threshold, any sequence of (prediction, value, context) triples whose value fits the configured range is decoded to the same values when the decoder is given the same predictions and contexts, also when the difference between prediction and value wraps around.",
 ["inputs","configurations"], "all coder configurations x all sequences of (prediction, value, context)",
 "The tests use one configuration and small differences; correctors near the range boundary, at powers of two and beyond the splitting threshold take different paths.",
 ["src/compressors.rs","src/decompressors.rs"],
 [("corrector folding into the range and bucket k coding","src/compressors.rs"),("bucket decoding and unfolding","src/decompressors.rs")],
 [("k","last bucket, exposed to callers as a context","src/compressors.rs")],["decoded values","k after each call"])

prop("C05", "How a writer's calls are sliced does not change the file",
 "For a given point sequence and LASzip parameters, the bytes written are the same however the points are divided over single-point and multi-point calls, through any of the writer's call paths, and whether or not room for the chunk-table offset was reserved explicitly first. The resulting stream is well formed: its first 8 bytes locate the chunk table, whose entries give for each chunk the exact number of bytes (and, for variable-size chunks, points) between the offset field and the table, and nothing follows the table.",
 ["histories","configurations"], "all sequences of writer calls for all layouts, chunk sizes and chunk modes",
 "Tests write all points one by one or all at once; chunk boundaries falling inside or exactly at the edge of a multi-point call, and mixtures of calls, are not exercised.",
 ["src/laszip/sequential/compression.rs","src/laszip/chunk_table.rs","src/lib.rs"],
 [("chunk roll-over and table bookkeeping","src/laszip/sequential/compression.rs"),("offset back-patching","src/laszip/chunk_table.rs, src/laszip/details.rs")],
 [("current chunk entry, start positions","bookkeeping of the chunk being written","src/laszip/sequential/compression.rs")],["written bytes"])

prop("C06", "The parallel writer produces the sequential writer's file",
 "For any fixed-size-chunk parameters and any point sequence, divided in any way over calls, the parallel writer and the one-shot parallel buffer compressor write exactly the bytes the sequential writer writes for the same points. This holds under every scheduling of its worker threads and for any number of workers.",
 ["schedules","histories","configurations"], "all interleavings of the workers x all call slicings x point counts around chunk boundaries x pool sizes",
 "Tests compare on one pool with OS scheduling and a few slicings; left-over buffering between calls, result ordering and the last partial chunk depend on slicing and schedule.",
 ["src/laszip/parallel/compression.rs","src/laszip/chunk_table.rs"],
 [("left-over buffer carried between calls","src/laszip/parallel/compression.rs"),("order-preserving collection of chunk results","src/laszip/parallel/compression.rs")],
 [("rest","points not yet filling a chunk","src/laszip/parallel/compression.rs")],["written bytes"])

prop("C07", "The parallel reader returns the sequential reader's points",
 "For any valid stream, with fixed- or variable-size chunks, the parallel reader, in whatever request sizes it is asked, and the one-shot parallel decompression functions return exactly the points the sequential reader returns, in order. This holds under every scheduling of the worker threads and any number of workers; asking for more points than the chunks of the stream can hold ends in an error, not in a panic or a short success.",
 ["schedules","histories","inputs"], "all interleavings of the workers x all request slicings x chunk layouts x pool sizes",
 "Tests read one file on one pool with a couple of request sizes; request boundaries inside chunks, partial last chunks, variable and empty chunks and worker order are not covered.",
 ["src/laszip/parallel/decompression.rs"],
 [("splitting of compressed input and output by the chunk table","src/laszip/parallel/decompression.rs"),("left-over decompressed points between calls","src/laszip/parallel/decompression.rs")],
 [("last_chunk_read, rest","position in the stream","src/laszip/parallel/decompression.rs")],["decompressed bytes","returned errors"])

prop("C08", "Seeking positions any reader exactly at the requested point",
 "After any history of reads and seeks (calls that failed included) on a stream with a chunk table, a successful seek to point n makes the following reads return points n, n+1, ... exactly as a fresh front-to-back read would, for the sequential and the parallel reader, fixed- and variable-size chunks, layered and non-layered layouts. When the number of points is determined by the stream (layered layouts, variable-size chunks, or all chunks exactly full), seeking to or beyond it never makes a later read return a point: it reports an error then or at the seek.",
 ["histories","inputs"], "all seek/read histories x chunk layouts x readers",
 "Tests seek to a few positions in one file with a fresh reader; correctness depends on the state left by previous reads and seeks and on where the target lies in its chunk.",
 ["src/laszip/sequential/decompression.rs","src/laszip/parallel/decompression.rs","src/laszip/chunk_table.rs"],
 [("chunk lookup through cumulated table entries","src/laszip"),("decoder reset and in-chunk skipping","src/laszip/sequential/decompression.rs")],
 [("current_chunk, chunk_points_read","reader position","src/laszip/sequential/decompression.rs")],["points read after each seek"])

prop("C09", "Variable-size chunks reproduce every partition of the points",
 "With variable-size chunks, whatever way the caller ends chunks - any chunk sizes, consecutive ends giving empty chunks, several ends before the first point or before finishing - all readers return exactly the written points in order, and the chunk table records exactly the caller's non-empty chunks' point counts in order, with counts adding up to the number of points.",
 ["histories","configurations"], "all interleavings of compress / end-chunk / finish calls",
 "One test uses a regular partition into non-empty chunks; empty chunks, one-point chunks, and the end-of-file position of the last chunk are not exercised.",
 ["src/laszip/sequential/compression.rs","src/laszip/sequential/decompression.rs","src/laszip/parallel/compression.rs"],
 [("explicit chunk finishing","src/laszip/sequential/compression.rs, src/laszip/parallel/compression.rs"),("per-entry point counts driving the reader","src/laszip/sequential/decompression.rs")],
 None,["points read","chunk table"])

prop("C10", "Appending gives the same points as writing in one go",
 "Appending points to any finished stream (including one with zero points, a full or a partial last chunk), with the sequential or the parallel appender, in one or several appending sessions and any call slicing, yields a finished stream whose readers return the original points followed by the appended ones. For fixed-size chunks the result is byte-identical to the file written in one go; for variable-size chunks earlier chunks keep their bytes, and appended points may join the last chunk or start a new one.",
 ["histories","configurations"], "all initial states x all append histories x layouts x chunk modes",
 "Tests append to one file once; the last chunk's fill level, empty files, repeated sessions and variable-size chunks select different paths.",
 ["src/laszip/sequential/appender.rs","src/laszip/parallel/appender.rs"],
 [("re-opening the last chunk and re-writing the table","src/laszip/sequential/appender.rs, src/laszip/parallel/appender.rs")],
 None,["stream bytes","points read"])

prop("C11", "Selective decompression equals full decompression on selected fields",
 "For the layered layouts and every one of the selectable attribute combinations, every selected attribute of every point decompresses to its true value, with the sequential reader, the parallel reader and the one-shot parallel function, front to back, across chunk boundaries and after any seek. X and Y, return number, number of returns and scanner channel are always true. What a point decompresses to under a selection does not depend on the reader, the request sizes or the seeks by which it was reached; for non-layered layouts the selection changes nothing.",
 ["configurations","inputs","histories"], "all attribute selections x point sequences x readers x read/seek histories",
 "Tests try a few selections on one file; skipping one layer must not disturb the context of another, which depends on which attributes change where.",
 ["src/las/selective.rs","src/las/point6.rs","src/record.rs","src/laszip"],
 [("skipping of unrequested layers","src/las/point6.rs, src/las/rgb.rs, src/las/nir.rs, src/las/wavepacket.rs, src/las/extra_bytes.rs"),("propagation of the selection to the workers","src/laszip/parallel/decompression.rs")],
 None,["decompressed fields"])

prop("C12", "The LASzip parameter record survives serialisation",
 "Every parameter record that can be built (any point format, extra bytes, item versions, any fixed chunk size from 1, or variable-size chunks) serialises to the record layout of the LASzip specification and parses back to one that compares equal in every observable (items, sizes, versions, chunk size, chunk mode). Records with an unknown compressor, item type or version are refused with an error, not misread.",
 ["inputs","configurations"], "all buildable records; all single-field deviations of the serialised form",
 "The tests parse one record from one file.",
 ["src/laszip/vlr.rs","src/laszip/mod.rs"],[("field-by-field read/write","src/laszip/vlr.rs")],None,["serialised bytes","parsed record"])

prop("C13", "The chunk table survives serialisation",
 "Every chunk table (any number of chunks, any point and byte counts representable in 32 bits, fixed- or variable-size mode) that is written is read back identical, with the reader left right after the offset field, also when the offset field holds the -1 placeholder and the real offset is in the last 8 bytes of the stream. Written bytes follow the LASzip layout.",
 ["inputs","configurations"], "all tables over extreme and boundary counts, in both chunk modes",
 "Tests use tables with small monotone sizes.",
 ["src/laszip/chunk_table.rs"],[("integer-coded table","src/laszip/chunk_table.rs")],None,["table entries","stream position"])

prop("C14", "I/O errors are reported; short or interrupted I/O is harmless",
 "When any single I/O operation of the underlying source or destination fails, the failing call of the writer, appender or reader (sequential or parallel), of the one-shot functions and of the file reader returns an error instead of panicking or silently succeeding: no run in which every call reported success has written a wrong stream or returned wrong points. A reader that is used on after such a failure returns errors or the points that follow, never others. Sources and destinations that transfer fewer bytes than asked, or report interruption, give exactly the same result as ordinary ones.",
 ["fault_sequences","histories"], "every position of one fault (two in the thorough tier) x every operation of the history; every short-transfer pattern",
 "Tests run on in-memory cursors that never fail or transfer short.",
 ["src/laszip/sequential","src/laszip/parallel","src/laszip/chunk_table.rs","src/encoders.rs","src/decoders.rs","src/record.rs"],
 [("error propagation with ?","all I/O call sites"),("read_exact/write_all instead of read/write","all I/O call sites")],None,["returned results","stream bytes"])

prop("C15", "An interrupted write never yields wrong points",
 "If writing stops at any byte of its output (including in the middle of the final update of the chunk-table offset), reading back at most as many points as were written yields only a correct prefix of them before an error: never a wrong point, never a panic, never an endless loop. With fixed-size or layered chunks, every chunk completely written before the stop is still read front to back; an interrupted append likewise leaves the points of all chunks before the reopened one readable front to back with the sequential reader.",
 ["crash_points","histories"], "every prefix of the write log, with the last write torn at every byte",
 "No test reads an unfinished file.",
 ["src/laszip/sequential","src/laszip/parallel","src/laszip/chunk_table.rs"],
 [("placeholder offset and fallback without chunk table","src/laszip/chunk_table.rs, src/laszip/sequential/decompression.rs")],None,["points read back"])

prop("C16", "Streams without usable chunk table are still read front to back",
 "A sequential reader given a stream whose chunk-table offset was never filled in and whose table is missing, or a source on which the table cannot be reached, returns all the points front to back for fixed-size chunks and for layered variable-size chunks. A writer on a destination where the offset could not be patched but the offset was stored at the very end gives a stream that every reader reads normally.",
 ["configurations","inputs"], "all layouts x chunk partitions x ways the table can be absent",
 "Tests always have a reachable, complete chunk table.",
 ["src/laszip/chunk_table.rs","src/laszip/sequential/decompression.rs","src/record.rs"],
 [("fallback when the table cannot be read","src/laszip/sequential/decompression.rs"),("point count stored in each layered chunk","src/record.rs")],None,["points read"])

prop("C17", "A stream works at any offset and leaves its surroundings untouched",
 "Writing, appending, reading and seeking behave identically when the compressed stream starts at any position of a larger file: the written bytes differ only in the stored absolute offset, nothing before the start is modified or read, and after finishing, the destination is positioned at the end of the stream.",
 ["configurations","histories"], "all start offsets x operation histories",
 "Unit tests mostly start at offset 0 or at one file's header size.",
 ["src/laszip"],[("positions taken relative to the start of the point data","src/laszip/details.rs, src/laszip/chunk_table.rs")],None,["bytes around the stream","positions"])

prop("C18", "One-shot buffer functions agree with the streaming API",
 "Compressing a buffer in one call writes the stream the streaming writer would write for those points and default chunk size of the given parameters, and decompressing a buffer in one call returns what the streaming reader returns, for every layout, chunk mode the call accepts, and number of points including zero. Buffers that are not a whole number of points are never turned into wrong points: they are refused (by an error or a debug assertion) or only their whole points are used.",
 ["inputs","configurations"], "all layouts x point counts around chunk boundaries x buffer sizes",
 "Tests use one file and one buffer size.",
 ["src/laszip/sequential","src/laszip/parallel","src/laszip/mod.rs"],[("thin wrappers over the streaming types","src/laszip")],None,["bytes"])

prop("C19", "Raw point records pack and unpack without loss",
 "Packing and unpacking of every raw record item (all point structures, times, colours, infrared, wave packets and the bit fields inside them) are inverse to each other for every bit pattern, and field accessors return the little-endian bits the LAS specification puts there.",
 ["inputs"], "all bit patterns per byte/field of every record type",
 "Tests cover a few literals.",
 ["src/packers.rs","src/las"],[("hand-written pack/unpack per structure","src/las/*.rs, src/packers.rs")],None,["packed bytes","fields"])

prop("C20", "Unsupported parameters are refused with an error",
 "Parameters this library cannot handle (unknown item versions, item lists mixing incompatible versions or with nothing to compress, unsupported point formats, variable-size chunks where a writer needs fixed ones) make constructors and one-shot functions return an error: they never panic and never produce a stream that decodes to other points. Every parameter record that a constructor accepts works. (Building a parameter record itself from an empty item list, and calling a method the documentation restricts to the other chunk mode, are documented panics and not covered.)",
 ["configurations"], "all item lists up to length 3 over all item types and versions 0-5 x constructors",
 "Tests construct only supported combinations.",
 ["src/record.rs","src/laszip/vlr.rs","src/laszip/sequential","src/laszip/parallel"],[("version dispatch","src/record.rs, src/laszip/details.rs")],None,["returned errors"])

prop("C21", "The file reader gives the same points for LAS and LAZ",
 "The whole-file reader returns, for a compressed LAS file, exactly the point records of the equivalent uncompressed file, for every point format with any number of extra bytes, any header size and any preceding records, and reports end of data after the last point, also when points are read one by one and the rest at once. A file whose LASzip record is missing, or is about points of another size than the header's, is refused with an error.",
 ["inputs","configurations"], "all point formats x extra-byte counts x header/record layouts x point counts",
 "Tests read a few fixture files of old formats.",
 ["src/las/file.rs"],[("header parsing and point source selection","src/las/file.rs")],None,["points read"])

prop("C22", "Streams are independent of each other and deterministic",
 "Any number of writers and readers in one process, used interleaved in any order on one thread or concurrently on several, each behave exactly as if used alone; the same calls on the same data always give the same bytes.",
 ["schedules","histories"], "all interleavings of the calls of two or three instances",
 "Tests use one instance at a time.",
 ["src/las","src/record.rs","src/laszip"],[("no shared mutable state between instances","whole crate")],None,["bytes and points of each instance"])

prop("C23", "A chunk's bytes depend only on the chunk's own points",
 "Every chunk is compressed from a fresh state: the bytes of a chunk are those of a stream consisting of just that chunk's points, whatever preceded it in the stream, and each chunk decompresses to its points on its own. This holds for every layout and version and any history of earlier chunks, including reused writers and readers.",
 ["histories","inputs"], "all pairs and triples of chunk contents",
 "Tests never compare chunks in isolation; state leaking over a chunk boundary on both sides round-trips.",
 ["src/record.rs","src/las","src/laszip/sequential"],[("reset of models, contexts, layers at chunk end","src/record.rs, src/laszip/sequential/compression.rs, src/laszip/sequential/decompression.rs")],None,["chunk bytes"])

prop("C24", "Reading past the last point reports an error, never a made-up point",
 "When the number of points is determined by the stream - layered layouts, variable-size chunks, or all chunks exactly full - a reader asked for more points than the stream holds returns all of them and then an error, at every further request, sequential or parallel, by single points or in bulk, selective or not. It never returns extra points, panics or loops.",
 ["inputs","histories"], "all chunk layouts x over-read amounts x request slicings",
 "Tests read exactly the number of points in the header.",
 ["src/laszip/sequential/decompression.rs","src/laszip/parallel/decompression.rs"],[("end detection from the chunk table or end of data","src/laszip")],None,["results after the end"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
