#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": hook}})

TR = "src/track/track.cpp"; SW = "src/writer/simple_writer.cpp"; FW = "src/writer/faststart_writer.cpp"
W = "src/writer/writer.cpp"; BH = "src/box_header.cpp"; BI = "src/box_info.cpp"; RD = "src/reader/reader.cpp"
H = "src/track/h264.cpp"
CODECS = ["src/track/aac.cpp", "src/track/av1.cpp", "src/track/h264.cpp", "src/track/mp3.cpp", "src/track/opus.cpp", "src/track/vpx.cpp"]

p("W01", "A progressive file gives back every sample of every track byte for byte",
  "For any number of audio and video tracks and any interleaving of sample additions and chunk boundaries among them (a track's chunk being ended before another track adds), the finished progressive (data-before-index) file lets an independent reader that follows only the file's own tables recover, for each track, exactly the samples that were added to it: same count, same order, same sizes, same bytes. "
  "The file is a well-formed sequence of boxes that tiles it completely, with every box's size equal to what it contains, and every sample lies inside the media-data box.",
  ["schedules", "histories", "configurations"],
  "All interleavings of addData and terminateCurrentChunk calls over any set of tracks of any of the seven codecs, any sample sizes including empty samples, empty tracks, any file-brand list, and any buffering behaviour of the output stream.",
  "No existing test runs a writer at all: only the helpers that build the chunk-offset, sample-to-chunk and time-to-sample tables are tested, on a few fixed vectors. Agreement of four tables and the data over every interleaving of several tracks cannot be settled by samples.",
  [SW, TR, W, BI, BH, "src/box/stco.cpp", "src/box/stsc.cpp", "src/box/stsz.cpp"] + CODECS,
  [("chunk offset captured when a chunk's first sample is stored", "Track::addMdatData in " + TR),
   ("sample-to-chunk run-length coding", "make_stsc_entries in " + TR),
   ("space for the data header reserved after the file-type box and patched at the end", "SimpleWriter::writeFtypBox / writeFreeBoxAndMdatHeader in " + SW),
   ("offset and size fix-up of the index tree", "BoxInfo::adjustOffsetAndSize in " + BI)],
  [("m_chunk_infos / m_current_chunk_info", "closed and open chunks of a track", "include/shiguredo/mp4/track/track.hpp"),
   ("m_mdat_data_size", "bytes of media data so far", "include/shiguredo/mp4/writer/writer.hpp")],
  ["bytes of the output stream after the last finishing call"])

p("W02", "A fast-start file has its index first and still gives back every sample",
  "For any number of tracks and any interleaving of sample additions and chunk boundaries (a track's chunk being ended before another track adds), the finished fast-start file has the layout file-type, index, media-data with no gap or overlap, and an independent reader recovers for each track exactly the samples added to it, byte for byte and in order. "
  "This holds for any finalisation in which the size of the index itself moves the data it points at, however many passes that takes.",
  ["schedules", "histories", "configurations"],
  "All interleavings of addData and terminateCurrentChunk over any set of tracks of any codec, any sample sizes, any index size, any buffering of the output stream and of the spool file.",
  "No existing test constructs the fast-start writer. Offsets are only right if the iterative relocation converges to the layout that is actually written, for every combination of table sizes.",
  [FW, TR, W, BI, BH] + CODECS,
  [("iterate index construction to a fixed point, shifting every chunk offset by the difference", "FaststartWriter::appendTrakAndUdtaBoxInfo in " + FW),
   ("chunk offsets relocated relative to the spool file", "Track::resetChunkOffsets in " + TR),
   ("spool copied behind the media-data header", "FaststartWriter::copyMdatData in " + FW)],
  [("m_chunk_infos", "chunk offsets, first relative to the spool then to the file", "include/shiguredo/mp4/track/track.hpp")],
  ["bytes of the output stream after the last finishing call"])

p("W03", "Timing, sync points and edit list survive muxing for every history",
  "In a finished file each track's decode times, recovered by summing the time-to-sample table, equal the timestamps at which its samples were added relative to the first one, and the last sample lasts until the declared track duration. "
  "The sync-sample table of a video track lists exactly the samples added as key frames; the track, media, movie and edit-list durations and time scales are the declared ones in their respective time scales, and the edit list carries the track's media start time, with values that do not fit 32 bits represented without loss.",
  ["histories", "schedules", "configurations"],
  "All non-decreasing timestamp sequences (steps, including the last, below 2^32) per track under all interleavings across tracks, all key-frame patterns, all time scales, all declared durations not before the last timestamp, media start times set at construction or later.",
  "The only timing test feeds eight fixed duration lists to the run-length coder; nothing checks a track's accumulated state after an arbitrary history, or that 32-bit fields are wide enough.",
  [TR, SW, FW, "src/box/stts.cpp", "src/box/stss.cpp", "src/box/elst.cpp", "src/box/mdhd.cpp", "src/box/mvhd.cpp", "src/box/tkhd.cpp"],
  [("durations derived from successive timestamps; last one from the declared duration", "Track::addMdatData, Track::finalize in " + TR),
   ("key sample numbers recorded for video only", "Track::addMdatData in " + TR),
   ("run-length coding", "make_stts_entries in " + TR)],
  [("m_sample_durations, m_prev_timestamp, m_key_sample_numbers", "timing state of a track", "include/shiguredo/mp4/track/track.hpp")],
  ["time-to-sample, sync-sample, edit-list and header boxes of the finished file"])

p("W04", "Every track keeps its own identity and codec description",
  "In a finished file there is exactly one track box per track handed over, in the order handed over, each with the track identifier, handler kind, pixel dimensions and codec description (VP8, VP9, AV1, H.264, AAC, MP3, Opus, with their bitrates, buffer sizes, profile, level, pre-skip, configuration records and audio roll distance) given for it, independent of how samples of the tracks were interleaved, and with every field whose value the format prescribes (unity matrix, track-enabled flags, handler names, self-contained data reference, field ordering and pixel aspect of VP8 and VP9 entries) holding it. "
  "Identifiers handed out by a writer are never repeated and the movie header announces a next identifier larger than all of them; a zero identifier is refused; the file-type box carries the requested brands and the encoder tag box is present.",
  ["configurations", "histories"],
  "All combinations and counts of track kinds and parameters, with tracks created before, between and after sample additions to other tracks.",
  "The codec boxes are tested one fixed instance each; nothing tests that a track's parameters reach its own boxes, for every parameter value and when several tracks share a writer.",
  CODECS + ["src/track/vide.cpp", "src/track/soun.cpp", W, "src/box/sample_entry.cpp", "src/box/esds.cpp", "src/box/dOps.cpp", "src/box/av1c.cpp", "src/box/avc.cpp", "src/box/vpc.cpp", "src/box/btrt.cpp"],
  [("sample description construction per codec", "makeStsdBoxInfo of each track class in src/track"),
   ("track identifier allocation", "Writer::getAndUpdateNextTrackID in " + W)],
  [("m_next_track_id", "next identifier", "include/shiguredo/mp4/writer/writer.hpp")],
  ["track boxes of the finished file"])

p("W05", "All date stamps in a file are the clock reading at writer creation",
  "The creation and modification stamps of the movie, of every track and of every media header equal the wall-clock second at which the writer was created, expressed in the container's 1904 epoch, whatever the clock does afterwards (steps, jumps backwards, long pauses, passing the limits of 32-bit seconds) and whichever track or writer they belong to. "
  "Nothing else in the file depends on the clock, and the stamps do not depend on the time zone.",
  ["schedules", "histories", "fault_sequences"],
  "All clock values from 1970 to beyond 2106 and all clock movements (steps, backward jumps, stalls) between any two calls.",
  "Existing tests convert two fixed instants; none observes a writer, let alone under a moving clock.",
  [SW, FW, TR, "src/time/time.cpp", "src/box/mvhd.cpp", "src/box/tkhd.cpp", "src/box/mdhd.cpp"],
  [("one clock reading in the writer constructor, shared with every track", "SimpleWriter/FaststartWriter constructors; getTimeFromEpoch")],
  [("m_time_from_epoch", "the stamp", "include/shiguredo/mp4/writer/writer.hpp, include/shiguredo/mp4/track/track.hpp")],
  ["header boxes of the finished file"])

p("W06", "Media beyond the 32-bit size and offset limits stays addressable",
  "When media data or chunk offsets cross the 4 GiB boundary, in either file layout, the finished file switches to 64-bit sizes and 64-bit chunk offsets exactly where needed, so that every sample of every track is still found at its true position with its true size, and the boxes still tile the file. "
  "This includes sizes that sit exactly on, one below and one above each limit, tracks of which only some cross it, and boxes a caller adds to the index. "
  "A single sample too large for its 32-bit size field is refused instead of being recorded with a wrong size.",
  ["histories", "configurations"],
  "All histories whose media data or offsets straddle the limits of 32-bit fields, in both layouts.",
  "No test produces more than a few bytes; the choice of offset table is tested on two single-entry vectors.",
  [SW, FW, TR, BH, BI, "src/box/co64.cpp", "src/box/stco.cpp"],
  [("offset table width chosen from the last chunk's offset", "make_offset_box in " + TR),
   ("large header written over the reserved space", "SimpleWriter::writeFreeBoxAndMdatHeader in " + SW),
   ("large header accounted for in the relocation fixed point", "FaststartWriter::getMdatHeaderSize / appendTrakAndUdtaBoxInfo in " + FW),
   ("header size promotion", "BoxHeader::setOffsetAndDataSize in " + BH)],
  [], ["structure of the (sparse) output and sample positions"])

p("W07", "A failing output medium never yields a wrong file reported as finished",
  "If writing to or repositioning the output fails at any operation (disk full, I/O error, short write, failed seek), in either file layout, then either some call of the muxing sequence reports the failure to its caller or the finished output is complete and correct. "
  "Muxing always ends within a bounded number of output operations, whatever fails.",
  ["fault_sequences", "histories"],
  "All placements of one or more output-stream failures (transient or permanent, complete or partial) over all muxing histories.",
  "No test ever lets a stream fail; every write site and every later use of the stream has to notice.",
  [SW, FW, BH, BI, "src/bitio/writer.cpp"],
  [("stream state checked after each operation, exception on failure", "goodness checks in " + SW + ", " + FW + ", " + BH + ", src/bitio/writer.cpp")],
  [], ["exceptions from the muxing calls", "bytes that reached the medium"])

p("W08", "A failing spool file never yields a wrong fast-start file reported as finished",
  "If the fast-start writer's intermediate file cannot be created, or fails to accept, position, return or close its data at any point (disk full, I/O error, short write, short read), then some call reports the failure, and no sequence of calls that all reported success leaves an output with missing or wrong media. "
  "Copying ends within a bounded number of steps even when the intermediate file keeps failing.",
  ["fault_sequences", "histories"],
  "All placements of failures over every operation on the intermediate file in all muxing histories.",
  "No test touches the intermediate file; its failures surface late, because of buffering, and in code that only runs when something fails.",
  [FW],
  [("result of each operation on the intermediate file checked", "FaststartWriter::addMdatData, tellCurrentMdatOffset, copyMdatData, constructor in " + FW)],
  [("m_mdat_fd, m_mdat_path", "the intermediate file", "include/shiguredo/mp4/writer/faststart_writer.hpp")],
  ["exceptions", "bytes that reached the medium", "number of spool operations"],
  None)

p("W09", "Writers leave nothing behind: no spool file, handle or memory",
  "Each fast-start writer spools into a file of its own, created at the requested place and never the same as another live writer's, and a successful finish removes that file and no other. "
  "Whether muxing finishes, is abandoned at any point or fails to open its spool, destroying the writer gives back every file handle, and a failed open leaves no file behind; as long as memory itself does not run out, all memory it took is given back too, whatever operation failed, for any number of writers in a row.",
  ["histories", "fault_sequences"],
  "All histories of opening, feeding, finishing, abandoning and destroying writers, including failures while opening or closing the intermediate file.",
  "No test opens a fast-start writer; leaks only show over many writers or on the failure paths.",
  [FW, W, BI, "src/box.cpp"],
  [("spool created from a unique-name template", "FaststartWriter constructor in " + FW),
   ("spool closed and removed after the copy", "FaststartWriter::copyMdatData / deleteIntermediateFile in " + FW),
   ("tree ownership", "BoxInfo::~BoxInfo, Writer::~Writer")],
  [("m_mdat_fd, m_mdat_path", "the intermediate file", "include/shiguredo/mp4/writer/faststart_writer.hpp")],
  ["directory contents, open handles, outstanding heap bytes"])

p("W10", "A recording cut off by a crash never shows wrong samples",
  "If the process dies between or inside any two output operations and only the bytes written so far survive, then a reader of the remaining file either finds no index or finds an index whose every sample that lies within the surviving bytes has exactly the content that was added. "
  "For the progressive layout a visible index additionally implies that all media data it refers to has survived.",
  ["crash_points", "histories"],
  "All crash points, including inside a single write, over all muxing histories of both layouts.",
  "No test interrupts a writer; the guarantee depends on the order of writes, which a finished file does not show.",
  [SW, FW, BI],
  [("index written last (progressive)", "SimpleWriter::writeMoovBox in " + SW),
   ("index final before it is written (fast-start)", "FaststartWriter::appendTrakAndUdtaBoxInfo in " + FW)],
  [], ["surviving prefix of the output operations"])

p("W11", "A sample that could not be stored does not damage the others",
  "When storing a sample fails and the caller is told (medium error that stores nothing, exhausted memory, malformed access unit), the samples accepted before and after it are still recovered exactly from a file that is later finished successfully; the refused addition contributes nothing, except that valid H.264 units preceding the point of failure inside one access unit may have been stored. "
  "A refused sample never shifts the size, time, chunk or sync-point record of another sample.",
  ["fault_sequences", "histories"],
  "All histories with any number of failed additions at any point, in either layout, followed by further successful additions.",
  "No test provokes a failed addition; the damage shows only later, in tables that no longer agree.",
  [TR, H, SW, FW],
  [("track bookkeeping updated together with the stored data", "Track::addMdatData in " + TR)],
  [("m_current_chunk_info, m_sample_durations, m_mdat_sample_sizes, m_key_sample_numbers", "must stay in step", "include/shiguredo/mp4/track/track.hpp")],
  ["tables and data of the file finished after the failures"])

p("W12", "Equal histories give identical files, and both layouts carry the same media",
  "Repeating the same history with the same clock reading yields a byte-identical file, no matter how the output stream or the intermediate file buffers, how memory is laid out, what ran before in the process, or what time zone, locale and logging the process has. "
  "The progressive and the fast-start file of one history carry the same tracks with the same samples, times and descriptions, differing only in placement.",
  ["histories", "configurations", "schedules"],
  "All histories, stream buffer sizes, spool buffering and partial-write patterns, and prior process states.",
  "No test produces a file; uninitialised or leftover state differs only between environments.",
  [SW, FW, TR, W, BI],
  [("no global mutable state; every field initialised before it is written", "src/writer, src/track, src/box")],
  [], ["bytes of outputs of repeated and paired runs"])

p("W13", "Writers and readers on different threads do not affect one another",
  "Any number of muxing sessions and reading sessions, each confined to its own thread and its own streams, produce exactly what each would produce alone, under every interleaving of their steps. "
  "This covers finished files, reader output, reported errors and track identifiers.",
  ["schedules"],
  "All interleavings of independent sessions at stream, file, allocation and lock operations.",
  "Existing tests are single-threaded.",
  [SW, FW, RD, TR, "src/box_map.cpp", "src/box_types.cpp", "src/box_type.cpp"],
  [("no shared mutable state between sessions", "all of src")],
  [], ["outputs of sessions run together versus alone"])

p("W14", "Running out of memory is reported, never a crash or a corrupt result",
  "If any single or every later memory allocation fails at any point of muxing or reading, the failing call reports it as an exception and the session can still be torn down without crash, double release or use of released memory. "
  "A muxing session that reports success in spite of failed allocations has produced a correct file.",
  ["fault_sequences", "histories"],
  "All placements of allocation failures over muxing and reading histories.",
  "No test makes an allocation fail.",
  [SW, FW, TR, BI, RD, H],
  [("ownership and exception propagation", "all of src")],
  [], ["exceptions, memory-safety of teardown"])

p("H01", "H.264 access units are split and stored correctly however they arrive",
  "For any sequence of byte-stream access units, with three- or four-byte start codes in any mix and parameter sets and supplemental units anywhere among slices, each slice unit becomes exactly one sample holding its length in four bytes followed by its unmodified payload, in arrival order and with the access unit's time and key flag. "
  "Parameter sets appear once each, in arrival order, unmodified, in the track's decoder record, whose profile and level come from the first sequence parameter set; supplemental units are dropped; anything else, data that does not begin with a start code, and parameter sets beyond what the record can hold (31 sequence and 255 picture parameter sets, 65535 bytes each) are refused with an error.",
  ["histories", "inputs"],
  "All sequences of access units built from units of any length from one byte up (sequence parameter sets from five), with malformed units interspersed.",
  "Two table tests cover splitting one or two tiny units; nothing covers accumulation across calls, parameter-set placement or refusal mid-unit.",
  [H, "src/box/avc.cpp"],
  [("unit scanner", "find_next_nal_unit in " + H), ("dispatch per unit type", "H264Track::addData in " + H)],
  [("m_sequence_parameter_sets, m_picture_parameter_sets", "collected parameter sets", "include/shiguredo/mp4/track/h264.hpp")],
  ["samples and decoder record of the finished file", "errors"])

p("R01", "The reader reports every box of a well-formed file, however it is delivered",
  "For any well-formed file built from the supported boxes nested as the format allows (no deeper than 64 levels), with 32-bit, 64-bit and to-end-of-file sizes and with unknown boxes, the reader reports every box exactly once in file order, with its true type, offset, size and nesting depth. "
  "What it reports does not depend on how the stream delivers the bytes (chunk sizes, buffering, short reads), nor on where in the stream, or with its end already met, the stream was left before the reader was given it.",
  ["inputs", "schedules", "configurations"],
  "All well-formed box trees (and all files the writers can produce) and all fragmentations of the stream.",
  "No test runs the reader; the box tests parse one isolated payload of each kind from a memory stream.",
  [RD, BH, "src/box_map.cpp", "src/box_types.cpp", BI],
  [("recursive descent by declared sizes", "SimpleReader::readBox in " + RD), ("type registry", "register_box_map in src/box_types.cpp")],
  [], ["reader output"])

p("R02", "Hostile or damaged files cannot crash, hang or exhaust the reader",
  "For any byte sequence whatsoever, reading ends after work bounded by a small polynomial of the file's length, uses memory in proportion to the file's length and holds none of it afterwards, and ends either normally or by reporting an error; it never reads outside its buffers, overflows the stack or aborts. "
  "This includes files whose sizes, counts, lengths and nesting contradict each other.",
  ["inputs", "fault_sequences"],
  "All byte sequences; sampled as valid files with stored-byte corruption, field-targeted corruption, truncation, splicing, and hostile nesting.",
  "No test feeds the reader anything, and the box tests only feed well-formed payloads.",
  [RD, BH, "src/bitio/bitio.cpp", "src/bitio/reader.cpp"] + ["src/box/%s.cpp" % b for b in ("esds", "iods", "hdlr", "urn", "url", "sample_entry", "sgpd", "trun", "tfra", "stsz", "pssh")],
  [("declared size checked against what remains", "SimpleReader::readBox in " + RD),
   ("reads beyond a payload reported as errors", "src/bitio/reader.cpp")],
  [], ["outcome, number of stream operations, heap high-water mark, sanitizer reports"])

p("R03", "Read errors and truncation are never silently accepted by the reader",
  "If the input stream fails at any read or seek, returns less than asked or ends early, the reader reports an error, or reports exactly what it would have reported for the intact file. "
  "A file cut anywhere inside a box is refused; a cut on a top-level box boundary yields exactly the boxes before it. The command-line tool exits with success exactly when reading succeeded.",
  ["fault_sequences", "crash_points", "inputs"],
  "All placements of stream failures over reading histories; all truncation points of all well-formed files.",
  "No test reads from a failing or truncated stream.",
  [RD, BH, "src/bitio/reader.cpp", "src/stream/stream.cpp", "src/cli/mp4-tool.cpp"],
  [("declared size checked against remaining size", "SimpleReader::readBox in " + RD),
   ("stream state checked after each operation", "src/bitio/reader.cpp, src/stream/stream.cpp, " + BH)],
  [], ["reader output and errors", "exit status"])

p("R04", "The reader's listing states the field values the file holds",
  "For every well-formed file, the line printed for each box states, after offset and size, exactly the values its bytes hold under the format's rules, in the tool's Name=value notation: numbers with the width, position and signedness the version and flags prescribe, fixed-point numbers, language codes, times, four-character codes, strings, "
  "flag-dependent optional fields present exactly when the flags say so, and every entry of every table in stored order, none missing and none invented. "
  "The text does not depend on how the stream fragments the file, nor on the time zone, locale or logging of the process. "
  "Composition offsets, media times, matrix entries, balance, volume, layer, gain and roll distances are signed; every other number is unsigned. Unregistered boxes, and sound sample entries placed directly in wave, are listed as raw bytes.",
  ["inputs", "configurations"],
  "All box kinds, versions, flag combinations, list lengths and field values in all well-formed trees, and everything the writers produce.",
  "Tests print one or two fixed instances per box kind; a decoder and its encoder that share a mistake agree with each other.",
  ["src/box", "src/box.cpp", RD, "src/time/time.cpp", "src/bitio/bitio.cpp", "src/bitio/reader.cpp", "include/shiguredo/mp4/bitio/bitio.hpp"],
  [("readData and toString of each box", "src/box"),
   ("one line per box", "SimpleReader::readBox in " + RD)],
  [], ["reader output"])

p("B01", "Every supported box survives storage byte for byte, or the failure is reported",
  "For every supported box kind and every valid payload of it, decoding the payload from a stream and encoding the result reproduces the payload exactly, the size announced for it equals the bytes encoded, and both directions report the number of bits they processed. "
  "This is independent of how the medium fragments the transfer; a medium that fails or ends early at any byte makes the operation report an error rather than succeed. "
  "Valid payloads are those the supported versions describe, in canonical form: strings terminated, descriptor lengths in the four-byte form the library itself writes, iods of length seven, hdlr with a terminated name, meta with version and flags 0, sound sample description extensions of the length their version prescribes, sample groups of the five supported types.",
  ["inputs", "configurations", "fault_sequences"],
  "All supported box kinds, versions and flag combinations with all field values, all list lengths, all transfer fragmentations, all failure points.",
  "The existing table checks one or two fixed instances per kind through a memory stream that never fails.",
  ["src/box", "src/box.cpp", "src/bitio/bitio.cpp", "src/bitio/reader.cpp", "src/bitio/writer.cpp", "include/shiguredo/mp4/bitio/bitio.hpp"],
  [("symmetric field lists in encode, decode and size functions", "writeData / readData / getDataSize of each box in src/box"),
   ("stream checks", "src/bitio/reader.cpp, src/bitio/writer.cpp")],
  [], ["re-encoded bytes, announced sizes, bit counts, errors"])

p("B02", "Bit-level values survive any write/read sequence over an imperfect medium",
  "For any sequence of values of any widths (single bits, signed and unsigned integers, strings, length-prefixed strings, variable-length integers), reading back what was written in the same sequence yields the same values and the two sides count the same bits, however the medium fragments transfers. "
  "A medium failure or premature end at any point is reported by the operation that needs the missing bits and no operation reports success with invented bits. A text longer than its length field can state, or a number larger than its variable-length form can state, is refused and leaves no trace in the stream. "
  "Whole-byte transfers and relative moves while a byte is only partly transferred are refused without effect; a move to an absolute place starts afresh there. "
  "After the medium has failed, no later transfer of whole bytes over it reports success.",
  ["histories", "fault_sequences"],
  "All operation sequences and widths from 1 to 64 bits, all failure points.",
  "The existing tests write and read a handful of fixed bytes through memory streams.",
  ["src/bitio/bitio.cpp", "src/bitio/reader.cpp", "src/bitio/writer.cpp", "include/shiguredo/mp4/bitio/bitio.hpp"],
  [("bit accumulator with byte flush", "src/bitio/writer.cpp"), ("byte refill with stream check", "src/bitio/reader.cpp")],
  [("m_octet, m_width", "partial byte", "include/shiguredo/mp4/bitio/reader.hpp, writer.hpp")],
  ["values read back, bit counts, errors"])

p("B03", "Boxes described by the caller are stored exactly as described",
  "For every supported box kind and all field values its description can hold, a tree of boxes assembled from such descriptions in any order in which parents precede children is stored as exactly the bytes the format prescribes: fields in their place, width and sign, reserved bits as prescribed, every child after its siblings inside its parent, every size and offset exact. "
  "The size announced for a box and for a tree equals what is stored. The result depends only on the last layout, however often the tree was laid out at whatever place while it grew or its payloads were re-sized, past 4 GiB included, and writing it is repeatable. "
  "A medium that fails at any operation makes writing report an error or store everything; afterwards the same tree can still be stored completely on another medium. "
  "Setting, adding, removing and checking flags and versions behaves as on a set of bits: removing a flag that is not set leaves it unset. A description that contradicts itself or holds more than its fields can state (an over-long descriptor URL, high-profile fields without such a profile, QuickTime data of a wrong length, more entries or bytes than a count or length field holds) is refused rather than stored; a time or offset beyond 32 bits described with the 32-bit version of a box is kept in the version that holds it. The printed form states what was described. Destroying the tree frees all of it.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "All box kinds, versions, flag combinations and field values; all assembly orders, layout histories and failure points.",
  "The existing table constructs one or two instances per kind, writes each alone once to a memory stream that never fails, and lays out three fixed trees.",
  ["src/box", "src/box.cpp", "src/box_info.cpp", "src/box_header.cpp", "include/shiguredo/mp4/box", "src/bitio/bitio.cpp", "src/bitio/writer.cpp"],
  [("descriptions and encoders", "parameter constructors and writeData of each box in src/box"),
   ("layout", "BoxInfo::adjustOffsetAndSize in src/box_info.cpp, BoxHeader::setOffsetAndDataSize in src/box_header.cpp"),
   ("flags", "FullBox in src/box.cpp")],
  [("m_offset, m_size, m_header_size", "place and size of a box", "include/shiguredo/mp4/box_header.hpp"), ("m_leafs", "children", "include/shiguredo/mp4/box_info.hpp")],
  ["stored bytes, announced sizes, flags, printed form, errors"])

p("B04", "A box header says exactly where its box is, in every form and at any place",
  "Reading the header at the start of any box of a file, in any order, gives the box's own offset, type, total size, header size and data size, for 32-bit sizes, 64-bit sizes and boxes that run to the end of the file, at any offset of files far beyond 4 GiB; positioning at a box's data or end, through the header or through the box made from it, lands exactly there. "
  "Following headers from end to end visits exactly the boxes of the file. A header laid out for some data takes the 32-bit form exactly up to the largest size that fits it, whatever it was laid out for before; written at its offset it takes the bytes the format prescribes, says the same afterwards, can be written again, and reads back equal; a header just read is written back, in the form it had, as the bytes it was read from. "
  "A header that is cut short, or a medium that fails while it is read, positioned at or written, is reported and never read as some other box. Version and flags of a box change only as set, and a box kind without them is not affected by setting them. The registry calls supported exactly the kinds that have a decoder. "
  "A header the caller gives in the 32-bit form with a size that does not fit it is outside this statement.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "All header forms, sizes from the bare header to 2^56 and more, offsets, box trees, orders of access, fragmentations, truncation points and stream failures.",
  "The existing tests read and write about ten fixed headers over memory streams that never fail or end early.",
  ["src/box_header.cpp", "src/box.cpp", "src/box_map.cpp", "src/box_type.cpp"],
  [("header decoding in three forms", "read_box_header in src/box_header.cpp"), ("choice of header form", "BoxHeader::setOffsetAndDataSize, BoxHeader::write in src/box_header.cpp"),
   ("version and flags", "FullBox in src/box.cpp"), ("registry", "BoxMap in src/box_map.cpp")],
  [("m_offset, m_size, m_header_size, m_extend_to_eof", "place and form of a box", "include/shiguredo/mp4/box_header.hpp")],
  ["header fields, stream positions, written header bytes, errors"])

p("B05", "The registry of box kinds is a dictionary keyed by four-byte codes",
  "After any history of definitions -- the built-in kinds registered at any moment, kinds of the caller's own added, either replacing the other -- asking the registry for a box of a code, directly or with a header, gives a new box of the latest definition of exactly that code, carrying the code and the header asked for, and a stand-in for a code nobody defined; every box it gives is independent of the others. "
  "Whether a code is supported, which versions it has and whether one version is among them is answered from the latest definition (a kind defined without versions has all of them); the built-in registration knows each kind of this library with the versions its format defines. "
  "Codes are equal, ordered and printed by all their four bytes, the zero code matches every other, and text of another length is refused as a code. A factory that fails, or memory that runs out at any moment, is reported, leaves the earlier definition in force, leaves the header with the caller and leaks nothing.",
  ["histories", "inputs", "fault_sequences"],
  "All sequences of definitions, lookups and queries over all codes, and all allocation failures within them.",
  "The existing tests look up no kind through a registry they changed, and never fail a definition or a lookup.",
  ["src/box_map.cpp", "src/box_types.cpp", "src/box_type.cpp", "include/shiguredo/mp4/box_type.hpp"],
  [("definitions and lookups", "BoxMap::addBoxDef, BoxMap::getBoxInstance in src/box_map.cpp"), ("built-in kinds and versions", "register_box_map in src/box_types.cpp"),
   ("four-byte codes", "BoxType in src/box_type.cpp")],
  [("m_map", "code to factory and versions", "include/shiguredo/mp4/box_map.hpp"), ("m_data", "the four bytes", "include/shiguredo/mp4/box_type.hpp")],
  ["boxes given, answers to queries, comparison results, printed codes, errors"])

p("N01", "Epoch conversion and date formatting agree with the calendar",
  "Converting a Unix time to the container epoch adds the fixed distance between the epochs, and formatting a container time prints the same instant as a calendar date in UTC.",
  ["inputs"], "All instants representable in the container.",
  "Two fixed instants are tested.",
  ["src/time/time.cpp"], [("constant offset and C library calendar", "src/time/time.cpp")], [], ["returned values"])

p("N02", "Byte-order helpers are inverse pairs",
  "Converting integers to big-endian bytes and back is the identity.",
  ["inputs"], "All 32- and 64-bit values.",
  "A few fixed values are tested.",
  ["src/endian/endian.cpp"], [("shifts and masks", "src/endian/endian.cpp")], [], ["returned values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
