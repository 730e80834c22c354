#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as code so that wording stays reviewable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })

prop("C01", "Codec parsers are total on arbitrary bytes",
 "Handing any byte string to any codec-level parser (H264, H265, AV1, VP8, VP9, MPEG-4 video and audio, MPEG-1 audio, AC-3, E-AC-3, Opus, FLAC, G711, JPEG) returns a value or an error within bounded time: it never panics, never loops forever and never changes the input bytes. Whenever a value is returned, every accessor and serialiser of that value can be called without panicking, and for the formats that can be written back, writing the value and parsing it again yields the same value.",
 ["inputs"], "all byte strings, in particular truncated, bit-flipped, spliced and deliberately crafted ones with extreme field values",
 "The repository's fuzz targets are run only on a few hundred checked-in seeds; they check one parser call each, rarely the accessors, and never crafted extreme field values.",
 ["pkg/codecs", "pkg/bits/read.go"],
 [("HasSpace checks before every unsafe bit read", "pkg/bits/read.go"), ("per-field range checks", "pkg/codecs/h264/sps.go, pkg/codecs/h265/sps.go, pkg/codecs/av1/sequence_header.go"), ("length checks", "pkg/codecs/*/*.go")],
 ["return values and panics of Unmarshal/Decode/IsRandomAccess/accessors/Marshal"])

prop("C02", "MP4 readers are total on arbitrary bytes and their output is usable",
 "Handing any byte string to the fMP4 init reader, the fMP4 fragment reader or the MP4 presentation reader returns a value or an error within bounded time, without panicking. When a value is returned every one of its members can be used: samples can be fetched, tracks written again and access units decoded without panicking.",
 ["inputs"], "all byte strings, in particular structurally valid MP4 trees with mutated, duplicated, removed, resized and reordered boxes",
 "Fuzz seeds in the repository are fixed files; box-level duplication, removal, 64-bit sizes and count/size extremes are not covered by them.",
 ["pkg/formats/fmp4", "pkg/formats/pmp4", "internal/mp4"],
 [("box parsing state machine", "pkg/formats/fmp4/init.go, pkg/formats/fmp4/parts.go, pkg/formats/pmp4/presentation.go"), ("codec boxes reader", "internal/mp4/codec_boxes.go")],
 ["Init.Unmarshal", "Parts.Unmarshal", "Presentation.Unmarshal", "Sample.GetPayload", "Marshal of what was read"])

prop("C03", "MPEG-TS reader is total on arbitrary bytes",
 "For any byte stream, opening it with the MPEG-TS reader and reading it until an error returns within a number of read calls proportional to the stream length, without panicking and without calling the underlying reader again and again after it reported end of stream. In a stream of any multiplexer, units that cannot be decoded (malformed, without timestamp, of undeclared streams) and tables with a wrong checksum are each reported through the decode-error callback and leave the reader usable: all other units are delivered with their payload and timestamps. The error returned at the end of the stream wraps the end-of-file error.",
 ["inputs"], "all byte streams: random, truncated, valid streams with corrupted, dropped, duplicated, reordered packets, crafted PSI and PES, and arbitrary read chunk sizes",
 "The fuzz seeds in the repository hold a few streams; the interplay of garbage, packet loss and PSI changes is not sampled by unit tests.",
 ["pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/robust_demuxer.go", "pkg/formats/mpegts/pre_demuxer.go", "pkg/formats/mpegts/track.go", "pkg/formats/mpegts/substructs"],
 [("re-synchronisation and packet validation", "pkg/formats/mpegts/robust_demuxer.go"), ("decode error callback", "pkg/formats/mpegts/reader.go")],
 ["Reader.Initialize", "Reader.Read", "Reader callbacks", "the underlying io.Reader"])

prop("C04", "Resource use is bounded by the input and documented limits are enforced",
 "Memory allocated while parsing is bounded by a fixed constant plus a small multiple of the number of bytes actually supplied, whatever sizes or counts the input declares. What exceeds the enforced maxima is rejected with an error and what is exactly at the maxima is accepted when it is read: Annex B and AVCC access units (8 MiB, 50 NAL units), ADTS audio units (5120 bytes), H264 reference frame cycles (255), H265 short-term sets (64) and their pictures (255), fMP4 samples per track run (19200), MP4 samples per track (5184000).",
 ["inputs"], "inputs whose declared sizes and counts range over and far beyond the limits, with little actual data",
 "Unit tests never measure allocation and test at most one over-limit value per parser.",
 ["pkg/codecs/h264/h264.go", "pkg/codecs/h265/h265.go", "pkg/codecs/av1/av1.go", "pkg/codecs/mpeg4audio/mpeg4_audio.go", "pkg/formats/fmp4/parts.go", "pkg/formats/pmp4/presentation.go", "pkg/formats/pmp4/track.go"],
 [("MaxAccessUnitSize, MaxNALUsPerAccessUnit, MaxTemporalUnitSize, MaxOBUsPerTemporalUnit, MaxAccessUnitSize (audio)", "pkg/codecs/*"), ("sample / chunk count caps", "pkg/formats/fmp4/parts.go, pkg/formats/pmp4/*.go")],
 ["bytes allocated during the call", "acceptance or rejection at limit-1, limit, limit+1"])

prop("C05", "MPEG-TS write then read returns the same access units",
 "Every access unit written through the MPEG-TS writer with any supported codec is delivered to that track's callback exactly once, in writing order per track, with the same payload (for H264/H265 a leading access unit delimiter is not delivered) and the same PTS and DTS modulo 2^33, however tracks are interleaved and whatever the payload sizes and timestamps. Asynchronous KLV, which carries no timestamps, is delivered with the PTS of the unit that precedes it in the stream. No decode error is reported for a stream the writer produced. (Units are valid and within the documented maxima; the first unit of AAC, AC-3 and E-AC-3 tracks is within the first megabyte.)",
 ["inputs", "configurations", "histories"], "all track sets, write histories, payload sizes from one byte to several hundred kilobytes, payload contents and 33-bit timestamps",
 "Unit tests use one or two short access units per codec with one timestamp pair; packet-boundary sizes, stuffing, interleaving and clock wrap are not sampled.",
 ["pkg/formats/mpegts/writer.go", "pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/track.go", "pkg/formats/mpegts/substructs"],
 [("PES packing and per-codec framing", "pkg/formats/mpegts/writer.go"), ("PES unpacking and per-codec deframing", "pkg/formats/mpegts/reader.go")],
 ["Writer.Write* arguments", "Reader.OnData* arguments", "Reader.OnDecodeError"])

prop("C06", "MPEG-TS track metadata survives write and read",
 "For any set of tracks accepted by the MPEG-TS writer, a reader opened on the produced stream reports the same number of tracks in the same order with the same PIDs, languages, codecs and codec parameters, and tells video tracks from the others. PIDs chosen automatically are valid and distinct, and PIDs chosen by the user are kept. Track lists whose tables do not fit are refused with an error.",
 ["configurations"], "all track lists: codecs, parameters (channel counts and mappings, languages and subtitle descriptors, AAC and LATM configurations, sample rates), explicit and automatic PIDs",
 "Unit tests cover one fixed parameter set per codec.",
 ["pkg/formats/mpegts/writer.go", "pkg/formats/mpegts/track.go", "pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/substructs"],
 [("descriptor generation and parsing", "pkg/formats/mpegts/track.go, pkg/formats/mpegts/substructs"), ("codec parameter discovery in the first packets", "pkg/formats/mpegts/track.go")],
 ["Writer.Tracks", "Reader.Tracks()"])

prop("C07", "MPEG-TS output is a conformant transport stream",
 "Everything the MPEG-TS writer emits is a sequence of whole 188-byte packets with sync bytes, with continuity counters that increase by one per payload packet per PID, PAT and PMT with valid checksums, and with the stream types and descriptors that the standards prescribe, before any media packet and repeated periodically, and PES packets whose lengths (except for units beyond 65535 bytes, which have none), stream ids, and timestamps agree with what was written. Clock references are carried on the PCR PID only, never exceed the decode timestamp of the unit that carries them, and are emitted at least with every third unit of the PCR track and with each of its random access video units; random access units are flagged as such. The choice of the PCR track and of automatic PIDs depends only on the tracks given to the writer.",
 ["inputs", "configurations", "histories"], "all track sets and write histories",
 "Unit tests compare a handful of outputs byte by byte; long histories, counter wrap and clock reference cadence are not covered.",
 ["pkg/formats/mpegts/writer.go", "pkg/formats/mpegts/track.go"],
 [("table retransmission and PCR insertion", "pkg/formats/mpegts/writer.go")],
 ["bytes emitted by Writer, parsed by an independent transport stream parser"])

prop("C08", "MPEG-TS reading does not depend on chunking and survives garbage and loss",
 "The tracks, events and errors a reader reports depend only on the bytes of the stream and not on how the underlying reader splits them; sources that discard the part of a datagram that does not fit the buffer (sockets) are read without loss when datagrams have up to 7 packets. When a stream is prefixed with or interrupted by garbage, or individual packets are lost, duplicated or damaged, the reader resynchronises and every access unit whose packets, and those of the unit that follows it, are all intact and follow the point of recovery is delivered unchanged, while no altered or invented payload is delivered for lost packets without an error being reported. Consecutive duplicates of a packet, which may carry another clock reference, are skipped. (Not covered: losses of a multiple of 16 packets of a stream, the truncation of the last unit of a stream when its length is not declared, and damage to the header fields of the packets of a unit, which the stream does not allow to detect.)",
 ["inputs", "fault_sequences"], "all chunkings of the stream and all placements of garbage bytes, dropped packets, duplicated packets and damaged sync bytes or headers",
 "Unit tests hold single examples of garbage at the start and of a corrupted packet.",
 ["pkg/formats/mpegts/robust_demuxer.go", "pkg/formats/mpegts/pre_demuxer.go", "pkg/formats/mpegts/reader.go"],
 [("sync search and packet checks", "pkg/formats/mpegts/robust_demuxer.go"), ("continuity check", "go-astits packet pool")],
 ["Reader callbacks under perturbed streams"])

prop("C09", "MPEG-TS reader and writer report I/O failures",
 "If the destination of an MPEG-TS writer fails on any write, the call in progress returns an error that wraps the destination's error, and no call that returned success has left a partial or missing packet. If the destination recovers, the following calls that return success write whole, valid units that are preceded by the tables. If the source of an MPEG-TS reader fails at any point, opening or reading returns an error that wraps the source's error after delivering what was complete, and a source that returns short reads is handled as if it had returned full ones. An error returned by a data callback is returned by the read call in progress.",
 ["fault_sequences", "crash_points"], "every write index and every read offset at which a failure can be injected",
 "No unit test injects I/O failures.",
 ["pkg/formats/mpegts/writer.go", "pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/robust_demuxer.go"],
 [("error propagation", "pkg/formats/mpegts/writer.go, pkg/formats/mpegts/reader.go")],
 ["errors returned by Write*, Initialize and Read under injected faults"])

prop("C10", "fMP4 initialisation segments round-trip",
 "Any valid fMP4 initialisation description (any number of tracks, identifiers, time scales, supported codecs and codec parameters) that marshals without error unmarshals to an equal description (bit rates, which are only written, excluded), and marshalling that again yields the same bytes when default bit rates are used. The bytes form a well-formed box tree: sizes nest exactly, track headers, media headers and track defaults exist once per track with matching identifiers, and sample descriptions carry the codec parameters bit for bit. Segments laid out by other writers (boxes in other orders, 64-bit headers and times, long descriptor sizes, other parameter set arrays, additional OBUs, metadata blocks and boxes, unsupported tracks) are read to exactly the description they contain. A description cut before its end is refused.",
 ["inputs", "configurations"], "all track lists over all codecs and parameter values representable in the container",
 "Unit tests hold a fixed example per codec with one track each.",
 ["pkg/formats/fmp4/init.go", "pkg/formats/fmp4/init_track.go", "internal/mp4", "pkg/formats/mp4/codecs"],
 [("box writers and readers", "internal/mp4/codec_boxes.go, internal/mp4/writer.go, pkg/formats/fmp4/init_track.go")],
 ["Init.Marshal bytes", "Init.Unmarshal result", "independent box walker"])

prop("C11", "fMP4 fragments round-trip",
 "Any sequence of fMP4 parts (sequence numbers, tracks, base times up to 64 bits, up to 19200 samples per track with durations, signed presentation offsets, sync flags and payloads of any size) that marshals without error unmarshals to equal parts with every sample's payload, duration, offset and sync flag preserved and in order. In the produced bytes every track run's data offset points exactly at that track's first sample and sample sizes add up to the media data, as seen by an independent box parser. Fragments laid out by other writers (default durations, sizes and flags, flags of the first sample, several runs per track, 32-bit times, unknown boxes) are read exactly. Fragments cut before their end are refused.",
 ["inputs", "configurations"], "all part lists, sample counts, sizes and field values",
 "Unit tests hold two fixed fragments.",
 ["pkg/formats/fmp4/parts.go", "pkg/formats/fmp4/part.go", "pkg/formats/fmp4/part_track.go", "pkg/formats/fmp4/sample.go"],
 [("moof/mdat writer with data offsets", "pkg/formats/fmp4/part.go"), ("moof/mdat reader", "pkg/formats/fmp4/parts.go")],
 ["Part(s).Marshal bytes", "Parts.Unmarshal result", "independent box walker"])

prop("C12", "MP4 presentations round-trip with lazily read payloads",
 "Any MP4 presentation (tracks, time offsets, samples with durations, signed presentation offsets, sync flags and payloads, with a total duration and an offset that the 32-bit fields of the format can represent) that marshals without error unmarshals to a presentation with the same tracks, codec parameters, time offsets and samples, and every sample's payload read lazily through it, in any order and repeatedly, equals the original payload. An independent box parser resolving chunk offsets, sizes, sync and timing tables finds the same samples at the same places, stored in the order of their decoding times across tracks, and track, edit and movie durations that agree with them. Presentations too big for 32-bit offsets are refused or written exactly. Presentations laid out by other writers (media data first, several samples per chunk, uncompressed tables, their own sample entries, 64-bit headers and times, unsupported tracks) are read exactly.",
 ["inputs", "configurations", "histories"], "all track and sample lists, and all orders of lazy payload reads",
 "Unit tests hold fixed presentations and read payloads once in order.",
 ["pkg/formats/pmp4/presentation.go", "pkg/formats/pmp4/track.go", "pkg/formats/pmp4/sample.go"],
 [("sample table generation", "pkg/formats/pmp4/track.go"), ("sample table reading", "pkg/formats/pmp4/presentation.go")],
 ["Presentation.Marshal bytes", "Presentation.Unmarshal result", "Sample.GetPayload results"])

prop("C13", "MP4 writers and readers report I/O failures",
 "If the destination of an fMP4 or MP4 writer fails on any write or seek, even once, or a sample payload cannot be obtained, marshalling returns that error and never reports success for incomplete output. If the source of an MP4 reader fails on any read, or ends early, opening or fetching a payload returns an error and never wrong data; a failed seek gives an error or, where it does not matter, the right result. Short reads leave the result unchanged, and after a failure the same value can be written and the same payload fetched correctly.",
 ["fault_sequences", "crash_points"], "every index of read, write, seek and payload call at which a failure or short transfer can be injected",
 "No unit test injects I/O failures.",
 ["pkg/formats/fmp4", "pkg/formats/pmp4", "internal/mp4/writer.go"],
 [("error propagation", "pkg/formats/pmp4/presentation.go, pkg/formats/pmp4/track.go, pkg/formats/fmp4/init.go, pkg/formats/fmp4/part.go")],
 ["errors and data returned under injected faults"])

prop("C14", "Access-unit framings are lossless and reject malformed input",
 "Encoding any list of non-empty units with Annex B, AVCC, AV1 bitstream (low-overhead OBU) or ADTS framing and decoding it returns the same list, and the encoded bytes are exactly what the format prescribes; a unit that does not fit the length field of its format is refused. Decoding any byte string agrees with an independent decoder of the format on whether it is well-formed and on the units it contains.",
 ["inputs"], "all unit lists within the format's limits and all byte strings near well-formed ones",
 "Unit tests hold a handful of fixed frames per format.",
 ["pkg/codecs/h264/annexb.go", "pkg/codecs/h264/avcc.go", "pkg/codecs/av1/bitstream.go", "pkg/codecs/av1/leb128.go", "pkg/codecs/av1/obu_header.go", "pkg/codecs/mpeg4audio/adts.go"],
 [("framers and deframers", "pkg/codecs/h264/annexb.go, pkg/codecs/h264/avcc.go, pkg/codecs/av1/bitstream.go, pkg/codecs/mpeg4audio/adts.go")],
 ["Marshal and Unmarshal results"])

prop("C15", "MPEG-4 audio configurations and LATM framing round-trip",
 "Every supported AudioSpecificConfig and StreamMuxConfig written and parsed again is equal, predicts its own size exactly, and is written with the bits the standard prescribes, channel counts included (by configuration or by program config element); audio mux elements and LOAS sync streams carrying any payload lists round-trip with payloads of any length including those above multiples of 255, and elements too long for LOAS are refused. A raw data block cut before its first channel element has no channel count. Parsing accepts any conforming element, including ones in-band, whose configuration is reused from a previous element.",
 ["inputs", "configurations"], "all configurations (object types, sample rates by index or explicit, channel configurations, extensions, program/layer/subframe counts) and payload lists",
 "Unit tests hold a few fixed configurations.",
 ["pkg/codecs/mpeg4audio"],
 [("bit-level marshal/unmarshal with size prediction", "pkg/codecs/mpeg4audio/*.go")],
 ["Marshal and Unmarshal results compared with an independent bit writer"])

prop("C16", "Header structures round-trip between fields and bytes",
 "Every header structure that can be both written and read (FLAC stream info, Opus identification header, JPEG segments, AV1 OBU header and LEB128, MPEG-TS metadata cells and descriptors, Opus access units, control headers and audio descriptors) written with any valid field values parses back to equal fields with all bytes consumed, and its bytes match the layout its specification prescribes. Declared sizes match the bytes produced.",
 ["inputs"], "all valid field value combinations",
 "Unit tests hold one or two values per structure.",
 ["pkg/codecs/flac/stream_info.go", "pkg/codecs/opus/id_header.go", "pkg/codecs/jpeg", "pkg/codecs/av1", "pkg/formats/mpegts/substructs"],
 [("field packing", "pkg/codecs/flac/stream_info.go, pkg/codecs/opus/id_header.go, pkg/codecs/jpeg/*.go, pkg/formats/mpegts/substructs/*.go")],
 ["marshal and unmarshal results compared with independent layouts"])

prop("C17", "H264 parameter sets decode to what the standard defines",
 "For any syntactically valid H264 sequence parameter set, every decoded field equals the encoded one, whatever optional parts are present and wherever emulation prevention bytes fall. The derived picture width, height and frame rate equal those the standard derives from the fields. Sets that use a feature the parser declares unsupported are rejected with an error, never misread.",
 ["inputs"], "all combinations of profiles, scaling lists, picture order count types, cropping, VUI, HRD parameters and values",
 "Unit tests hold a dozen captured parameter sets.",
 ["pkg/codecs/h264/sps.go", "pkg/codecs/h264/emulation_prevention.go", "pkg/bits/read.go"],
 [("bit-level SPS reader", "pkg/codecs/h264/sps.go")],
 ["SPS fields, Width(), Height(), FPS() against an independent bit writer and derivation"])

prop("C18", "H265 parameter sets decode to what the standard defines",
 "For any syntactically valid H265 sequence or picture parameter set, every decoded field equals the encoded one, whatever optional parts are present and wherever emulation prevention bytes fall. The derived picture width, height and frame rate equal those the standard derives from the fields. Sets that use a feature the parser declares unsupported are rejected with an error, never misread.",
 ["inputs"], "all combinations of profile-tier-level layers, conformance windows, scaling lists, PCM, short-term and long-term reference sets (explicit and predicted), VUI and HRD values",
 "Unit tests hold a dozen captured parameter sets.",
 ["pkg/codecs/h265/sps.go", "pkg/codecs/h265/pps.go", "pkg/codecs/h264/emulation_prevention.go", "pkg/bits/read.go"],
 [("bit-level SPS and PPS readers", "pkg/codecs/h265/sps.go, pkg/codecs/h265/pps.go")],
 ["SPS and PPS fields, Width(), Height(), FPS() against an independent bit writer and derivation"])

prop("C19", "AV1, VP9 and MPEG-4 video headers decode to what the standards define",
 "For any syntactically valid AV1 sequence header or VP9 uncompressed header, every decoded field and derived dimension equals what was encoded, in every profile and with every optional part. Headers of features the parser declares unsupported are rejected with an error. An MPEG-4 video configuration is accepted exactly when it consists of valid start-code-delimited objects of a configuration.",
 ["inputs"], "all combinations of header fields over all profiles",
 "Unit tests hold a few captured headers.",
 ["pkg/codecs/av1/sequence_header.go", "pkg/codecs/vp9/header.go", "pkg/codecs/mpeg4video/is_valid_config.go"],
 [("bit-level header readers", "pkg/codecs/av1/sequence_header.go, pkg/codecs/vp9/header.go")],
 ["decoded fields against an independent bit writer"])

prop("C20", "Audio frame headers give the sizes, durations and rates of their standards",
 "For every valid MPEG-1/2 audio (layers II and III), AC-3 and E-AC-3 (bit stream identifier 16) header the decoded fields, frame length, sample rate, sample count and channel count equal the standard's tables, and reserved or invalid combinations are rejected. For every valid Opus packet the reported duration equals the one RFC 6716 defines for its configuration and frame count.",
 ["inputs"], "the whole header value space (enumerated) with random trailing data",
 "Unit tests hold a few captured headers; the tables have hundreds of entries.",
 ["pkg/codecs/mpeg1audio/frame_header.go", "pkg/codecs/ac3", "pkg/codecs/eac3", "pkg/codecs/opus/packet_duration.go"],
 [("tables and formulas", "pkg/codecs/mpeg1audio/frame_header.go, pkg/codecs/ac3/sync_info.go, pkg/codecs/eac3/sync_info.go, pkg/codecs/opus/packet_duration.go")],
 ["decoded values against independently derived tables"])

prop("C21", "DTS extraction gives valid and accurate decode timestamps",
 "For any H264 or H265 access unit sequence in decoding order with PTS values, no DTS returned is lower than the previous one, and none is after its PTS (except, in H264, by the step of at most 90 ticks after the previous DTS that is taken while the reordering depth is being learned), or an error is returned instead. For a conforming progressive stream of constant frame rate (H264 picture order count types 0 and 2, H265 trailing, RASL, IDR and CRA pictures, reordering up to 10 frames) whose parameter sets and slice headers are consistent with its PTS order, every access unit from the first random access point on gets a DTS without error, across picture order count wraps, parameter set changes, several H265 picture parameter sets, random access points and timestamp gaps; once the depth is learned, DTS advances by one frame per access unit and does not lag behind by more than the stream's reordering requires (in H265 with timing information in the SPS, from the first access unit on).",
 ["inputs", "histories"], "all conforming reordering structures (depth, order count types, field coding, wrap periods, parameter set placement) and arbitrary hostile sequences",
 "Unit tests replay a few captured sequences; state carried across access units is what breaks.",
 ["pkg/codecs/h264/dts_extractor.go", "pkg/codecs/h265/dts_extractor.go"],
 [("POC difference and expected DTS computation", "pkg/codecs/h264/dts_extractor.go, pkg/codecs/h265/dts_extractor.go")],
 ["Extract results over synthetic streams"])

prop("C22", "Bit reader and writer agree with a big-integer model",
 "Reading any number of bits, flags and Exp-Golomb codes at any position returns exactly the bits of the buffer and advances the position by exactly the bits read, or returns an error when too few bits remain or the value does not fit the result, and never reads outside the buffer. Writing values at consecutive positions produces exactly those bits, and reading them back returns the values.",
 ["inputs", "histories"], "all buffers, positions and sequences of operation widths up to 64 bits, and all Exp-Golomb codes",
 "Unit tests use two buffers.",
 ["pkg/bits/read.go", "pkg/bits/write.go"],
 [("bounds check and byte-wise shifting", "pkg/bits/read.go, pkg/bits/write.go")],
 ["returned values, errors and positions"])

prop("C23", "MPEG-TS time decoding unwraps the 33-bit clock",
 "For any sequence of 33-bit timestamps whose consecutive true values differ by less than half the clock period, the time decoder returns the true elapsed value relative to the first timestamp, forwards and backwards, across any number of wraps.",
 ["histories", "inputs"], "all sequences of steps smaller than half the period in either direction, of any length",
 "Unit tests cover one wrap in each direction.",
 ["pkg/formats/mpegts/time_decoder.go"],
 [("difference modulo 2^33 with negative threshold", "pkg/formats/mpegts/time_decoder.go")],
 ["Decode results against an unbounded integer model"])

prop("C24", "Rewindable and buffered readers deliver every byte once and in order",
 "Whatever the sizes of the reads before rewinding, a rewindable reader delivers after rewinding exactly the bytes of the source from its start, in order, without loss or duplication, then continues with the source and its errors, transient ones included, and refuses to record more than its limit. The buffered packet reader delivers exactly the concatenation of the datagrams of its source, before and after transient errors, and rejects datagrams that are not whole packets.",
 ["histories", "inputs"], "all sequences of read sizes, short reads and errors of the source, before and after rewinding",
 "Unit tests perform one fixed sequence of reads.",
 ["pkg/rewindablereader/reader.go", "pkg/formats/mpegts/buffered_reader.go"],
 [("recorded entries", "pkg/rewindablereader/reader.go"), ("mid buffer", "pkg/formats/mpegts/buffered_reader.go")],
 ["bytes, counts and errors returned by Read"])

prop("C25", "Seekable buffer behaves like a file",
 "Any sequence of writes (with any of its write methods, and as destination of io.Copy), seeks (from start, current position and end, also beyond the end) and resets on the in-memory seekable buffer leaves the same content, returns the same positions and reports the same failures as a file opened for writing, with the difference that seeking beyond the end extends the content immediately; gaps are filled with zeros.",
 ["histories"], "all sequences of write, seek and reset operations",
 "Unit tests perform a few fixed operations.",
 ["pkg/formats/fmp4/seekablebuffer/seekablebuffer.go"],
 [("position tracking over bytes.Buffer", "pkg/formats/fmp4/seekablebuffer/seekablebuffer.go")],
 ["content and return values against a byte-slice model"])

prop("C26", "Random access detection is exact",
 "An H264 or H265 access unit is reported as a random access point exactly when it contains an IDR (H264), IDR or CRA (H265) slice NAL unit; an AV1 temporal unit exactly when it contains a sequence header; a VP8 frame exactly when it is a key frame; a VP9 frame exactly when it is a key frame, shown or hidden, and not the repetition of an existing frame. The fMP4 sample helpers set and read the sync flag and presentation offset accordingly.",
 ["inputs"], "all access units, over all NAL unit and OBU types and positions and all frame header flags",
 "Unit tests hold one positive example per codec.",
 ["pkg/codecs/h264/is_random_access.go", "pkg/codecs/h265/is_random_access.go", "pkg/codecs/av1/is_random_access.go", "pkg/codecs/vp9/is_random_access.go", "pkg/formats/fmp4/sample.go"],
 [("unit type scan", "pkg/codecs/*/is_random_access.go")],
 ["IsRandomAccess results, Sample fields"])

prop("C27", "Independent objects can be used from different goroutines",
 "Using distinct readers, writers, parsers and extractors concurrently from different goroutines is free of data races, and each produces exactly what it produces when used alone.",
 ["schedules"], "all interleavings of operations on distinct objects, including ones that share read-only inputs",
 "Existing tests run sequentially, so package-level state (tables, caches, scratch buffers) shared between objects would go unnoticed.",
 ["pkg"],
 [("no mutable package-level state", "pkg")],
 ["race detector reports", "per-object outputs compared with a sequential run"])

prop("C28", "Data handed over is never modified behind the other side's back",
 "Bytes passed to any writer, marshaller or parser are not modified, and marshalled output, delivered access units, parsed structures and fetched payloads keep their content no matter what is subsequently done with the object that produced them or with other objects. Marshalling the same value twice gives the same bytes, and what a caller writes in data it received does not change what it receives later. Parsing another input with an object that was already used gives, in the parts every input carries, what a new object gives.",
 ["histories"], "all sequences of operations following a delivery",
 "Unit tests look at values right after the call that returned them.",
 ["pkg/formats/mpegts", "pkg/formats/fmp4", "pkg/formats/pmp4", "pkg/codecs"],
 [("freshly allocated buffers", "pkg/formats/mpegts/reader.go, pkg/formats/fmp4/parts.go")],
 ["content hashes of inputs and outputs taken at hand-over and re-checked later"])

prop("C29", "G711 coding is exact",
 "Decoding every A-law and mu-law octet gives the value the standard's formula defines, and encoding any list of 16-bit samples gives for each sample an octet whose decoded value is a nearest one in the code table, up to the 14-bit input resolution of the encoder, with decode-then-encode being the identity up to the two representations of zero. Output lengths are exactly half or double the input, and odd input lengths are rejected.",
 ["inputs"], "all 256 octets and all 65536 sample values, enumerated, and lists of them",
 "Unit tests hold a few samples.",
 ["pkg/codecs/g711"],
 [("decode table by formula and inverted encode table", "pkg/codecs/g711/*.go")],
 ["decoded and encoded values"])

prop("C30", "Emulation prevention removal is the exact inverse of insertion",
 "For any raw payload, removing emulation prevention bytes from its escaped form returns the payload, and data that contains no escape sequence is returned unchanged. The result never aliases or alters the input.",
 ["inputs"], "all payloads, dense in zero and small bytes",
 "Unit tests hold three short examples.",
 ["pkg/codecs/h264/emulation_prevention.go"],
 [("two-pass scan", "pkg/codecs/h264/emulation_prevention.go")],
 ["returned bytes against a reference escaper"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
