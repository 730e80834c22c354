package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp8"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
)

// C01: parsers are total.

// totalParser is a parser of the library, together with what can be done with its results.
type totalParser struct {
	name    string
	seed    func(r *rand.Rand) []byte
	parse   func(b []byte) (any, error)
	use     func(v any)                 // accessors
	marshal func(v any) ([]byte, error) // serialiser
	norm    func(v any) any             // what survives writing back
}

// units are carried in a buffer with 16-bit lengths.
func packUnits(l [][]byte) []byte {
	var out []byte
	for _, u := range l {
		n := min(len(u), 65534)
		out = binary.BigEndian.AppendUint16(out, uint16(n))
		out = append(out, u[:n]...)
	}
	return out
}

func unpackUnits(b []byte) [][]byte {
	l := [][]byte{}
	for len(b) >= 2 && len(l) < 2000 {
		n := min(int(binary.BigEndian.Uint16(b)), len(b)-2)
		l = append(l, b[2:2+n:2+n])
		b = b[2+n:]
	}
	return l
}

func nonZero(l [][]byte) [][]byte {
	var out [][]byte
	for _, u := range l {
		if len(u) > 0 {
			out = append(out, u)
		}
	}
	return out
}

func seedH264SPS(r *rand.Rand) []byte {
	_, w := genH264SPS(r)
	w.trailing()
	return append([]byte{0x67}, escape(w.out())...)
}

func seedH265SPS(r *rand.Rand) []byte {
	_, w := genH265SPS(r)
	w.trailing()
	return append([]byte{0x42, 0x01}, escape(w.out())...)
}

func seedUnits(r *rand.Rand) [][]byte {
	var l [][]byte
	for range 1 + r.IntN(5) {
		l = append(l, naluNoStartCode(r, sizeDist(r)))
	}
	return l
}

func seedOBUs(r *rand.Rand) [][]byte {
	var l [][]byte
	for range 1 + r.IntN(5) {
		if r.IntN(3) == 0 {
			_, w := genAV1Seq(r)
			w.trailing()
			l = append(l, append([]byte{0x08}, w.out()...))
			continue
		}
		l = append(l, append([]byte{byte(r.IntN(16)) << 3}, payload(r, r.IntN(60))...))
	}
	return l
}

func mustMarshal(m interface{ Marshal() ([]byte, error) }) []byte {
	b, err := m.Marshal()
	if err != nil {
		return []byte{1, 2, 3}
	}
	return b
}

func seedSMC(r *rand.Rand) *mpeg4audio.StreamMuxConfig { return genSMC(r, false) }

func seedAME(r *rand.Rand, s *mpeg4audio.StreamMuxConfig, present bool) []byte {
	e := mpeg4audio.AudioMuxElement{StreamMuxConfig: s, MuxConfigPresent: present}
	e.Payloads = make([][][][]byte, s.NumSubFrames+1)
	for i := range e.Payloads {
		e.Payloads[i] = make([][][]byte, len(s.Programs))
		for p := range s.Programs {
			e.Payloads[i][p] = make([][]byte, len(s.Programs[p].Layers))
			for l := range e.Payloads[i][p] {
				e.Payloads[i][p][l] = payload(r, r.IntN(300))
			}
		}
	}
	return mustMarshal(e)
}

// a fixed configuration for elements which do not carry theirs.
func outOfBandSMC(b []byte) *mpeg4audio.StreamMuxConfig {
	var h byte
	if len(b) > 0 {
		h = b[len(b)-1]
	}
	return genSMC(rand.New(rand.NewPCG(uint64(h), 5)), true)
}

func seedDTS(r *rand.Rand, hevc bool) []byte {
	var l [][]byte
	add := func(u []byte) { l = append(l, u) }
	if hevc {
		o := &h265Opt{pocBits: 4 + r.IntN(13), reorder: r.IntN(5), subLayers: r.IntN(3)}
		var sps *h265.SPS
		var w *bitWriter
		if flip(r) {
			sps, w = genH265SPS(r)
		} else {
			sps, w = genH265SPSOpt(r, o)
		}
		w.trailing()
		pps, raw := genDTSPPS(r)
		add(append([]byte{0x42, 0x01}, escape(w.out())...))
		add(raw)
		for range 1 + r.IntN(5) {
			p := &dtsPic{kind: pick[byte](r, 'P', 'B', 'b', 'I', 'C'), poc: r.IntN(40)}
			for range r.IntN(5) {
				p.keep = append(p.keep, p.poc+1+r.IntN(8))
			}
			add(h265Slice(r, sps, pps, p, r.IntN(20) != 0, flip(r), flip(r)))
			add(nil) // end of access unit
		}
	} else {
		p := genDTSH264SPS(r, pick[uint32](r, 0, 0, 0, 1, 2))
		add(p.raw)
		for i := range 1 + r.IntN(5) {
			pic := &dtsPic{kind: pick[byte](r, 'P', 'B', 'b', 'i', 'I')}
			add(h264Slice(r, p.sps, pic, r.IntN(20), i, true))
			add(nil)
		}
	}
	return packUnits(l)
}

func runDTS(b []byte, extract func(au [][]byte, pts int64) (int64, error)) (any, error) {
	var out []string
	var au [][]byte
	pts := int64(90000)
	do := func() {
		v, err := extract(au, pts)
		out = append(out, fmt.Sprint(v, err))
		pts += 3000
		au = nil
	}
	for _, u := range unpackUnits(b) {
		if len(u) == 0 && len(au) > 0 && len(au)%2 == 1 {
			do()
			continue
		}
		au = append(au, u)
	}
	do()
	return out, nil
}

func fixed(n int) func(r *rand.Rand) []byte {
	return func(r *rand.Rand) []byte { return payload(r, r.IntN(n)) }
}

var totalParsers = []*totalParser{
	{
		name: "ac3.SyncInfo",
		seed: func(r *rand.Rand) []byte {
			return append([]byte{0x0B, 0x77, 1, 2, byte(r.IntN(3))<<6 | byte(r.IntN(38))}, payload(r, r.IntN(8))...)
		},
		parse: func(b []byte) (any, error) { var s ac3.SyncInfo; err := s.Unmarshal(b); return s, err },
		use:   func(v any) { s := v.(ac3.SyncInfo); s.FrameSize(); s.SampleRate() },
	},
	{
		name:  "ac3.BSI",
		seed:  func(r *rand.Rand) []byte { return append([]byte{byte(r.IntN(9)) << 3}, payload(r, r.IntN(4))...) },
		parse: func(b []byte) (any, error) { var s ac3.BSI; err := s.Unmarshal(b); return s, err },
		use:   func(v any) { v.(ac3.BSI).ChannelCount() },
	},
	{
		name: "eac3.SyncInfo",
		seed: func(r *rand.Rand) []byte {
			b := append([]byte{0x0B, 0x77}, payload(r, 3)...)
			return append(append(b, 0x80|byte(r.IntN(8))), payload(r, r.IntN(30))...)
		},
		parse: func(b []byte) (any, error) { var s eac3.SyncInfo; err := s.Unmarshal(b); return s, err },
		use: func(v any) {
			s := v.(eac3.SyncInfo)
			s.FrameSize()
			s.SampleRate()
			s.ChannelCount()
			s.NumBlocks()
		},
	},
	{
		name:    "av1.Bitstream",
		seed:    func(r *rand.Rand) []byte { return mustMarshal(av1.Bitstream(seedOBUs(r))) },
		parse:   func(b []byte) (any, error) { var s av1.Bitstream; err := s.Unmarshal(b); return s, err },
		marshal: func(v any) ([]byte, error) { return v.(av1.Bitstream).Marshal() },
	},
	{
		name: "av1.LEB128",
		seed: func(r *rand.Rand) []byte { return lebEnc(r.Uint64() >> uint(r.IntN(64))) },
		parse: func(b []byte) (any, error) {
			var l av1.LEB128
			n, err := l.Unmarshal(b)
			if err == nil && (n <= 0 || n > len(b)) {
				panic(failure{msg: fmt.Sprintf("av1.LEB128.Unmarshal consumed %d bytes out of %d", n, len(b))})
			}
			return l, err
		},
		marshal: func(v any) ([]byte, error) {
			l := v.(av1.LEB128)
			b := make([]byte, l.MarshalSize())
			l.MarshalTo(b)
			return b, nil
		},
	},
	{
		name:  "av1.OBUHeader",
		seed:  fixed(4),
		parse: func(b []byte) (any, error) { var s av1.OBUHeader; err := s.Unmarshal(b); return s, err },
	},
	{
		name: "av1.SequenceHeader",
		seed: func(r *rand.Rand) []byte {
			_, w := genAV1Seq(r)
			w.trailing()
			return append([]byte{0x08}, w.out()...)
		},
		parse: func(b []byte) (any, error) { var s av1.SequenceHeader; err := s.Unmarshal(b); return s, err },
		use:   func(v any) { s := v.(av1.SequenceHeader); s.Width(); s.Height() },
	},
	{
		name: "av1.IsRandomAccess",
		seed: func(r *rand.Rand) []byte { return packUnits(seedOBUs(r)) },
		parse: func(b []byte) (any, error) {
			l := unpackUnits(b)
			x, err := av1.IsRandomAccess(l) //nolint:staticcheck
			return []bool{x, av1.IsRandomAccess2(l)}, err
		},
	},
	{
		name:    "flac.StreamInfo",
		seed:    func(r *rand.Rand) []byte { return payload(r, 34) },
		parse:   func(b []byte) (any, error) { var s flac.StreamInfo; err := s.Unmarshal(b); return s, err },
		marshal: func(v any) ([]byte, error) { return v.(flac.StreamInfo).Marshal() },
	},
	{
		name: "g711.Alaw",
		seed: fixed(300),
		parse: func(b []byte) (any, error) {
			var s g711.Alaw
			s.Unmarshal(b)
			return []any{[]byte(s), g711.DecodeAlaw(b)}, nil //nolint:staticcheck
		},
		use: func(v any) {
			g711.Alaw(v.([]any)[0].([]byte)).Marshal()                                                    //nolint:errcheck
			g711.Alaw(append(append([]byte{}, v.([]any)[0].([]byte)...), 1)[len(v.([]any))%2:]).Marshal() //nolint:errcheck
		},
	},
	{
		name: "g711.Mulaw",
		seed: fixed(300),
		parse: func(b []byte) (any, error) {
			var s g711.Mulaw
			s.Unmarshal(b)
			return []any{[]byte(s), g711.DecodeMulaw(b)}, nil //nolint:staticcheck
		},
		use: func(v any) { g711.Mulaw(v.([]any)[0].([]byte)).Marshal() }, //nolint:errcheck
	},
	{
		name: "g711.Marshal",
		seed: fixed(300),
		parse: func(b []byte) (any, error) {
			x, err1 := g711.Alaw(b).Marshal()
			y, err2 := g711.Mulaw(b).Marshal()
			return []any{x, y, fmt.Sprint(err1), fmt.Sprint(err2)}, nil
		},
	},
	{
		name:    "h264.AnnexB",
		seed:    func(r *rand.Rand) []byte { return mustMarshal(h264.AnnexB(seedUnits(r))) },
		parse:   func(b []byte) (any, error) { var s h264.AnnexB; err := s.Unmarshal(b); return s, err },
		marshal: func(v any) ([]byte, error) { return v.(h264.AnnexB).Marshal() },
		norm:    func(v any) any { return stripZeros(v.(h264.AnnexB)) },
	},
	{
		name:    "h264.AVCC",
		seed:    func(r *rand.Rand) []byte { return mustMarshal(h264.AVCC(seedUnits(r))) },
		parse:   func(b []byte) (any, error) { var s h264.AVCC; err := s.Unmarshal(b); return s, err },
		marshal: func(v any) ([]byte, error) { return v.(h264.AVCC).Marshal() },
	},
	{
		name:  "h264.EmulationPreventionRemove",
		seed:  func(r *rand.Rand) []byte { return escape(sparseBytes(r, r.IntN(200))) },
		parse: func(b []byte) (any, error) { return h264.EmulationPreventionRemove(b), nil },
	},
	{
		name:  "h264.IsRandomAccess",
		seed:  func(r *rand.Rand) []byte { return packUnits(seedUnits(r)) },
		parse: func(b []byte) (any, error) { return h264.IsRandomAccess(unpackUnits(b)), nil },
	},
	{
		name: "h264.NALUType",
		seed: fixed(10),
		parse: func(b []byte) (any, error) {
			var out []string
			for _, x := range b {
				out = append(out, h264.NALUType(x).String(), h265.NALUType(x).String())
			}
			return out, nil
		},
	},
	{
		name:  "h264.SPS",
		seed:  seedH264SPS,
		parse: func(b []byte) (any, error) { var s h264.SPS; err := s.Unmarshal(b); return s, err },
		use: func(v any) {
			s := v.(h264.SPS)
			s.Width()
			s.Height()
			s.FPS()
		},
	},
	{
		name: "h264.DTSExtractor",
		seed: func(r *rand.Rand) []byte { return seedDTS(r, false) },
		parse: func(b []byte) (any, error) {
			d := &h264.DTSExtractor{}
			d.Initialize()
			return runDTS(b, d.Extract)
		},
	},
	{
		name:  "h265.SPS",
		seed:  seedH265SPS,
		parse: func(b []byte) (any, error) { var s h265.SPS; err := s.Unmarshal(b); return s, err },
		use: func(v any) {
			s := v.(h265.SPS)
			s.Width()
			s.Height()
			s.FPS()
		},
	},
	{
		name:  "h265.PPS",
		seed:  func(r *rand.Rand) []byte { _, b := genDTSPPS(r); return b },
		parse: func(b []byte) (any, error) { var s h265.PPS; err := s.Unmarshal(b); return s, err },
	},
	{
		name:  "h265.IsRandomAccess",
		seed:  func(r *rand.Rand) []byte { return packUnits(seedUnits(r)) },
		parse: func(b []byte) (any, error) { return h265.IsRandomAccess(unpackUnits(b)), nil },
	},
	{
		name: "h265.DTSExtractor",
		seed: func(r *rand.Rand) []byte { return seedDTS(r, true) },
		parse: func(b []byte) (any, error) {
			d := &h265.DTSExtractor{}
			d.Initialize()
			return runDTS(b, d.Extract)
		},
	},
	{
		name: "jpeg.DefineQuantizationTable",
		seed: func(r *rand.Rand) []byte {
			var b []byte
			for range 1 + r.IntN(4) {
				b = append(append(b, byte(r.IntN(16))), payload(r, 64)...)
			}
			return b
		},
		parse: func(b []byte) (any, error) {
			var s jpeg.DefineQuantizationTable
			err := s.Unmarshal(b)
			return s, err
		},
		marshal: func(v any) ([]byte, error) { return v.(jpeg.DefineQuantizationTable).Marshal(nil)[4:], nil },
	},
	{
		name: "jpeg.DefineRestartInterval",
		seed: func(r *rand.Rand) []byte { return randBytes(r, 2) },
		parse: func(b []byte) (any, error) {
			var s jpeg.DefineRestartInterval
			err := s.Unmarshal(b)
			return s, err
		},
	},
	{
		name: "jpeg.StartOfFrame1",
		seed: func(r *rand.Rand) []byte {
			b := []byte{8, byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(256)), 3, 0, pick[byte](r, 0x21, 0x22), 0, 1, 0x11, 1, 2, 0x11, 1}
			if flip(r) {
				b[11], b[14] = 0, 0
			}
			return b
		},
		parse: func(b []byte) (any, error) { var s jpeg.StartOfFrame1; err := s.Unmarshal(b); return s, err },
		marshal: func(v any) ([]byte, error) {
			s := v.(jpeg.StartOfFrame1)
			return s.Marshal(nil)[4:], nil
		},
	},
	{
		name: "jpeg.StartOfScan",
		seed: func(r *rand.Rand) []byte { return jpeg.StartOfScan{}.Marshal(nil)[4:] },
		parse: func(b []byte) (any, error) {
			err := jpeg.StartOfScan{}.Unmarshal(b)
			return 0, err
		},
	},
	{
		name: "mpeg1audio.FrameHeader",
		seed: func(r *rand.Rand) []byte {
			return append([]byte{0xFF, 0xF2 | byte(r.IntN(16)), byte(r.IntN(256)), byte(r.IntN(256))}, payload(r, r.IntN(4))...)
		},
		parse: func(b []byte) (any, error) { var s mpeg1audio.FrameHeader; err := s.Unmarshal(b); return s, err },
		use:   func(v any) { s := v.(mpeg1audio.FrameHeader); s.FrameLen(); s.SampleCount() },
	},
	{
		name: "mpeg4audio.ADTSPackets",
		seed: func(r *rand.Rand) []byte {
			var l []adtsUnit
			for range 1 + r.IntN(4) {
				l = append(l, adtsUnit{1 + r.IntN(3), r.IntN(13), 1 + r.IntN(7), payload(r, 1+r.IntN(60))})
			}
			return adtsEncode(r, l, true)
		},
		parse:   func(b []byte) (any, error) { var s mpeg4audio.ADTSPackets; err := s.Unmarshal(b); return s, err },
		marshal: func(v any) ([]byte, error) { return v.(mpeg4audio.ADTSPackets).Marshal() },
	},
	{
		name: "mpeg4audio.AudioMuxElement",
		seed: func(r *rand.Rand) []byte { return seedAME(r, genSMC(r, true), true) },
		parse: func(b []byte) (any, error) {
			s := mpeg4audio.AudioMuxElement{MuxConfigPresent: true}
			err := s.Unmarshal(b)
			return s, err
		},
		marshal: func(v any) ([]byte, error) { return v.(mpeg4audio.AudioMuxElement).Marshal() },
	},
	{
		name: "mpeg4audio.AudioMuxElement/external",
		seed: func(r *rand.Rand) []byte {
			h := []byte{byte(r.IntN(256))}
			return append(seedAME(r, outOfBandSMC(h), false), h...)
		},
		parse: func(b []byte) (any, error) {
			s := mpeg4audio.AudioMuxElement{StreamMuxConfig: outOfBandSMC(b)}
			err := s.Unmarshal(b[:max(0, len(b)-1):max(0, len(b)-1)])
			return s, err
		},
		use: func(v any) { v.(mpeg4audio.AudioMuxElement).Marshal() }, //nolint:errcheck
	},
	{
		name: "mpeg4audio.AudioMuxElement/unconfigured",
		seed: func(r *rand.Rand) []byte { return seedAME(r, genSMC(r, true), flip(r)) },
		parse: func(b []byte) (any, error) {
			s := mpeg4audio.AudioMuxElement{MuxConfigPresent: len(b)%2 == 0}
			err := s.Unmarshal(b)
			return s, err
		},
		use: func(v any) { v.(mpeg4audio.AudioMuxElement).Marshal() }, //nolint:errcheck
	},
	{
		name: "mpeg4audio.AudioSpecificConfig",
		seed: func(r *rand.Rand) []byte { return mustMarshal(genASC(r)) },
		parse: func(b []byte) (any, error) {
			var s mpeg4audio.AudioSpecificConfig
			err := s.Unmarshal(b)
			return s, err
		},
		marshal: func(v any) ([]byte, error) { return v.(mpeg4audio.AudioSpecificConfig).Marshal() },
	},
	{
		name: "mpeg4audio.AudioSpecificConfig/pos",
		seed: func(r *rand.Rand) []byte { return append([]byte{byte(r.IntN(12))}, mustMarshal(genASC(r))...) },
		parse: func(b []byte) (any, error) {
			if len(b) == 0 {
				return nil, fmt.Errorf("short")
			}
			var s mpeg4audio.AudioSpecificConfig
			pos := int(b[0])
			if pos > (len(b)-1)*8 {
				pos = (len(b) - 1) * 8
			}
			start := pos
			err := s.UnmarshalFromPos(b[1:], &pos)
			if err == nil && (pos < start || pos > (len(b)-1)*8) {
				panic(failure{msg: fmt.Sprintf("UnmarshalFromPos moved the position from %d to %d in %d bits", start, pos, (len(b)-1)*8)})
			}
			return s, err
		},
	},
	{
		name: "mpeg4audio.AudioSyncStream",
		seed: func(r *rand.Rand) []byte {
			var s mpeg4audio.AudioSyncStream
			for range 1 + r.IntN(3) {
				s.AudioMuxElements = append(s.AudioMuxElements, payload(r, 1+r.IntN(60)))
			}
			return mustMarshal(s)
		},
		parse: func(b []byte) (any, error) {
			var s mpeg4audio.AudioSyncStream
			err := s.Unmarshal(b)
			return s, err
		},
		marshal: func(v any) ([]byte, error) { return v.(mpeg4audio.AudioSyncStream).Marshal() },
	},
	{
		name: "mpeg4audio.CountChannelsFromRawDataBlock",
		seed: func(r *rand.Rand) []byte {
			b := payload(r, 1+r.IntN(120))
			b[0] = b[0]&0x1F | byte(pick(r, 0, 1, 2, 3, 4, 5, 5, 5, 6, 7))<<5
			return b
		},
		parse: func(b []byte) (any, error) { return mpeg4audio.CountChannelsFromRawDataBlock(b) },
	},
	{
		name: "mpeg4audio.ParsePCEFromRawDataBlock",
		seed: func(r *rand.Rand) []byte {
			b := payload(r, 1+r.IntN(120))
			b[0] = b[0]&0x1F | 5<<5
			return b
		},
		parse: func(b []byte) (any, error) {
			p, err := mpeg4audio.ParsePCEFromRawDataBlock(b)
			if p == nil {
				return nil, err
			}
			return *p, err
		},
	},
	{
		name: "mpeg4audio.StreamMuxConfig",
		seed: func(r *rand.Rand) []byte { return mustMarshal(seedSMC(r)) },
		parse: func(b []byte) (any, error) {
			var s mpeg4audio.StreamMuxConfig
			err := s.Unmarshal(b)
			return s, err
		},
		marshal: func(v any) ([]byte, error) { return v.(mpeg4audio.StreamMuxConfig).Marshal() },
	},
	{
		name: "mpeg4video.IsValidConfig",
		seed: func(r *rand.Rand) []byte {
			b := []byte{0, 0, 1, 0xB0, 1, 0, 0, 1, byte(r.IntN(0x20))}
			b = append(b, sparseBytes(r, r.IntN(8))...)
			b = append(b, 0, 0, 1, 0x20+byte(r.IntN(16)))
			return append(b, sparseBytes(r, r.IntN(12))...)
		},
		parse: func(b []byte) (any, error) { return 0, mpeg4video.IsValidConfig(b) },
	},
	{
		name: "opus.IDHeader",
		seed: func(r *rand.Rand) []byte {
			return append([]byte("OpusHead\x01"), payload(r, 10+r.IntN(10))...)
		},
		parse:   func(b []byte) (any, error) { var s opus.IDHeader; err := s.Unmarshal(b); return s, err },
		marshal: func(v any) ([]byte, error) { return v.(opus.IDHeader).Marshal() },
	},
	{
		name: "opus.PacketDuration",
		seed: fixed(10),
		parse: func(b []byte) (any, error) {
			d1, d2 := opus.PacketDuration(b), opus.PacketDuration2(b) //nolint:staticcheck
			if d2 < 0 || d1 < 0 {
				panic(failure{msg: fmt.Sprintf("negative duration %v %v", d1, d2)})
			}
			return []any{d1, d2}, nil
		},
	},
	{
		name:  "vp8.IsRandomAccess",
		seed:  fixed(10),
		parse: func(b []byte) (any, error) { return vp8.IsRandomAccess(b), nil },
	},
	{
		name:  "vp9.IsRandomAccess",
		seed:  func(r *rand.Rand) []byte { _, w, _ := genVP9(r); return append(w.out(), payload(r, r.IntN(4))...) },
		parse: func(b []byte) (any, error) { return vp9.IsRandomAccess(b), nil },
	},
	{
		name:  "vp9.Header",
		seed:  func(r *rand.Rand) []byte { _, w, _ := genVP9(r); return append(w.out(), payload(r, r.IntN(4))...) },
		parse: func(b []byte) (any, error) { var s vp9.Header; err := s.Unmarshal(b); return s, err },
		use: func(v any) {
			s := v.(vp9.Header)
			s.Width()
			s.Height()
			s.ChromaSubsampling()
		},
	},
	{
		name: "substructs.MetadataAUCell",
		seed: func(r *rand.Rand) []byte {
			n := r.IntN(30)
			return append([]byte{1, 2, byte(r.IntN(256)) | 15, 0, byte(n)}, payload(r, n)...)
		},
		parse: func(b []byte) (any, error) {
			var s substructs.MetadataAUCell
			n, err := s.Unmarshal(b)
			if err == nil && (n <= 0 || n > len(b)) {
				panic(failure{msg: fmt.Sprintf("MetadataAUCell.Unmarshal consumed %d bytes out of %d", n, len(b))})
			}
			return s, err
		},
		marshal: func(v any) ([]byte, error) {
			s := v.(substructs.MetadataAUCell)
			b := make([]byte, 5+len(s.AUCellData))
			n, err := s.MarshalTo(b)
			return b[:n], err
		},
	},
	{
		name: "substructs.MetadataDescriptor",
		seed: func(r *rand.Rand) []byte {
			b := payload(r, 9+r.IntN(12))
			if flip(r) {
				b[0], b[1] = 0xFF, 0xFF
			}
			i := 2
			if b[0] == 0xFF && b[1] == 0xFF {
				i = 6
			}
			if flip(r) {
				b[i] = 0xFF
			}
			return b
		},
		parse: func(b []byte) (any, error) {
			var s substructs.MetadataDescriptor
			err := s.Unmarshal(b)
			return s, err
		},
		marshal: func(v any) ([]byte, error) { return v.(substructs.MetadataDescriptor).Marshal() },
	},
	{
		name: "substructs.MetadataSTDDescriptor",
		seed: func(r *rand.Rand) []byte { return payload(r, 9) },
		parse: func(b []byte) (any, error) {
			var s substructs.MetadataSTDDescriptor
			err := s.Unmarshal(b)
			return s, err
		},
		marshal: func(v any) ([]byte, error) { return v.(substructs.MetadataSTDDescriptor).Marshal() },
	},
	{
		name: "substructs.OpusAccessUnit",
		seed: func(r *rand.Rand) []byte {
			n := r.IntN(600)
			b := []byte{0x7f, 0xe0 | byte(r.IntN(8))<<2}
			for s := n; ; s -= 255 {
				if s < 255 {
					b = append(b, byte(s))
					break
				}
				b = append(b, 255)
			}
			return append(b, payload(r, n+r.IntN(10))...)
		},
		parse: func(b []byte) (any, error) {
			var s substructs.OpusAccessUnit
			n, err := s.Unmarshal(b)
			if err == nil && (n <= 0 || n > len(b)) {
				panic(failure{msg: fmt.Sprintf("OpusAccessUnit.Unmarshal consumed %d bytes out of %d", n, len(b))})
			}
			return s, err
		},
		marshal: func(v any) ([]byte, error) {
			s := v.(substructs.OpusAccessUnit)
			b := make([]byte, s.MarshalSize())
			n, err := s.MarshalTo(b)
			return b[:n], err
		},
	},
	{
		name: "substructs.OpusAudioDescriptor",
		seed: func(r *rand.Rand) []byte {
			b := []byte{0x80, pick(r, byte(r.IntN(12)), 0x80+byte(r.IntN(10)), 0x81, 0xFF)}
			if b[1] == 0x81 {
				b = append(b, byte(r.IntN(10)), byte(r.IntN(3)))
			}
			return append(b, payload(r, r.IntN(14))...)
		},
		parse: func(b []byte) (any, error) {
			var s substructs.OpusAudioDescriptor
			err := s.Unmarshal(b)
			return s, err
		},
		use:     func(v any) { s := v.(substructs.OpusAudioDescriptor); s.ChannelCount() },
		marshal: func(v any) ([]byte, error) { return v.(substructs.OpusAudioDescriptor).Marshal() },
	},
}

// bitSplice inserts or overwrites bit patterns at any bit position.
func bitSplice(r *rand.Rand, b []byte) []byte {
	bits := toBits(b)
	w := &bitWriter{}
	switch r.IntN(6) {
	case 0:
		w.ue(pick[uint32](r, math.MaxUint32-1, math.MaxUint32-2, 1<<31, 1<<31-1, 65535, 65536, 1<<30))
	case 1:
		w.se(pick[int32](r, math.MaxInt32, -math.MaxInt32, 1<<30, -32768, 32767))
	case 2:
		w.u(r.IntN(80), 0) // long prefix
	case 3:
		for range r.IntN(40) {
			w.u(1, 1)
		}
	case 4:
		w.u(32+r.IntN(2), r.Uint64())
	default:
		w.ue(uint32(r.IntN(70)))
	}
	i := 0
	if len(bits) > 0 {
		i = r.IntN(len(bits) + 1)
	}
	out := &bitWriter{}
	out.bits = append(out.bits, bits[:i]...)
	out.bits = append(out.bits, w.bits...)
	if flip(r) {
		i = min(len(bits), i+len(w.bits))
	}
	out.bits = append(out.bits, bits[i:]...)
	return out.out()
}

// checkTotal runs one parser on one buffer under all monitors.
func checkTotal(c *Case, p *totalParser, in []byte) bool {
	c.Input("buf", in)
	// the first run has no spare capacity: reading past the end is a bounds violation.
	exact := make([]byte, len(in))
	copy(exact, in)
	exact = exact[:len(in):len(in)]
	var v any
	var err error
	c.Protect(p.name, func() { v, err = p.parse(exact) })
	c.Check(bytes.Equal(exact, in), "%s modified its input", p.name)
	c.Count("parsed", 1)

	// the second one has garbage in the spare capacity: the outcome has to be the same.
	spare := make([]byte, len(in)+64)
	copy(spare, in)
	for i := len(in); i < len(spare); i++ {
		spare[i] = byte(0xA5 + i*7)
	}
	keep := clone(spare)
	var v2 any
	var err2 error
	c.Protect(p.name, func() { v2, err2 = p.parse(spare[:len(in)]) })
	c.Check(bytes.Equal(spare, keep), "%s wrote to its input buffer", p.name)
	c.Check((err == nil) == (err2 == nil) && deepEq(v, v2),
		"%s depends on bytes that are not part of its input: %+v %v, then %+v %v", p.name, v, err, v2, err2)

	if err != nil {
		c.Count("rejected", 1)
		return false
	}
	c.Count("accepted", 1)
	if p.use != nil {
		c.Protect(p.name+" accessors of "+fmt.Sprintf("%.300s", fmt.Sprintf("%+v", v)), func() { p.use(v) })
		c.Count("accessed", 1)
	}
	if p.marshal == nil {
		return true
	}
	var out []byte
	c.Protect(p.name+" Marshal of "+fmt.Sprintf("%.300s", fmt.Sprintf("%+v", v)), func() { out, err = p.marshal(v) })
	c.Check(bytes.Equal(exact, in), "marshalling of %s modified the input it was parsed from", p.name)
	if err != nil {
		c.Count("not_writable", 1)
		c.Notef("%s: %v", p.name, err)
		return true
	}
	c.Input("written", out)
	var v3 any
	c.Protect(p.name+" after Marshal", func() { v3, err = p.parse(out) })
	a, b := v, v3
	if p.norm != nil {
		a = p.norm(a)
		if err == nil {
			b = p.norm(b)
		}
	}
	if err != nil && p.norm != nil && fmt.Sprint(a) == "[]" {
		return true
	}
	c.Check(err == nil, "%s: value %.400s was written as %s, which is rejected: %v", p.name, fmt.Sprintf("%+v", v), hexShort(out), err)
	c.Check(deepEq(a, b), "%s: value %.400s was written as %s and read as %.400s", p.name,
		fmt.Sprintf("%+v", a), hexShort(out), fmt.Sprintf("%+v", b))
	c.Count("written_back", 1)
	return true
}

func c01Mutated(c *Case) {
	r := c.R
	p := totalParsers[c.Idx%len(totalParsers)]
	seed := p.seed(r)
	if checkTotal(c, p, seed) {
		c.Count("seeds_accepted", 1)
		c.Count("accepted:"+p.name, 1)
	}
	for range 12 {
		b := seed
		for range r.IntN(3) {
			b = mutate(r, b)
		}
		for range r.IntN(3) {
			b = bitSplice(r, b)
		}
		c.Eval(1)
		checkTotal(c, p, b)
		c.Distinct(p.name, b)
	}
	c.Sample("%s: mutations of %s", p.name, hexShort(seed))
}

func c01Truncated(c *Case) {
	r := c.R
	p := totalParsers[c.Idx%len(totalParsers)]
	seed := p.seed(r)
	if r.IntN(3) == 0 {
		seed = bitSplice(r, seed)
	}
	n := min(len(seed), 120)
	for i := range n {
		c.Eval(1)
		checkTotal(c, p, seed[:i])
	}
	for i := len(seed) - 1; i > len(seed)-8 && i > n; i-- {
		c.Eval(1)
		checkTotal(c, p, seed[:i])
	}
	c.Distinct(p.name, seed)
	c.Count("truncated", n)
}

func c01Random(c *Case) {
	r := c.R
	p := totalParsers[c.Idx%len(totalParsers)]
	for range 20 {
		n := r.IntN(pick(r, 4, 16, 64, 600))
		b := payload(r, n)
		switch r.IntN(3) {
		case 0:
			b = sparseBytes(r, n)
		case 1:
			if s := p.seed(r); len(s) > 0 { // a valid beginning
				b = append(clone(s[:1+r.IntN(min(len(s), 6))]), b...)
			}
		}
		c.Eval(1)
		checkTotal(c, p, b)
		c.Distinct(p.name, b)
	}
}

// c01Large feeds long adversarial inputs, under the CPU watchdog.
func c01Large(c *Case) {
	r := c.R
	p := totalParsers[c.Idx%len(totalParsers)]
	n := pick(r, 70000, 300000, 1<<20)
	var b []byte
	unit := [][]byte{{0}, {0xFF}, {0, 0, 1}, {0, 0, 0, 1}, {0, 0, 3}, {0, 0, 1, 0}, {0x80}, {0, 0, 0, 1, 1}, {0x0A, 0}, {0xFF, 0xF1}, {0x56, 0xE0, 1, 0}, {1}}
	k := c.Idx / len(totalParsers) % (len(unit) + 2)
	switch {
	case k < len(unit):
		b = bytes.Repeat(unit[k], n/len(unit[k]))
	case k == len(unit):
		s := p.seed(r)
		if len(s) == 0 {
			s = []byte{1}
		}
		b = bytes.Repeat(s, n/len(s)+1)
	default:
		b = randBytes(r, n)
	}
	if s := p.seed(r); r.IntN(2) == 0 {
		b = append(clone(s), b...)
	}
	checkTotal(c, p, b)
	c.Count("large", 1)
	c.Max("largest_input", int64(len(b)))
	c.Distinct(p.name, b)
}

// c01Short enumerates every buffer of up to two bytes, for every parser.
func c01Short(c *Case) {
	p := totalParsers[c.Idx]
	buf := make([]byte, 2)
	try := func(b []byte) {
		c.Eval(1)
		checkTotal(c, p, b)
	}
	try(nil)
	try(buf[:0])
	for i := range 65536 {
		buf[0], buf[1] = byte(i>>8), byte(i)
		if buf[1] == 0 {
			try(buf[:1])
		}
		try(buf)
	}
	c.Count("short_buffers", 65794)
	c.Distinct(p.name)
}

func init() {
	n := len(totalParsers)
	var req []string
	for _, p := range totalParsers {
		req = append(req, "accepted:"+p.name)
	}
	register(&Property{
		ID: "C01",
		Rule: "each parser is run on generated valid data, mutations and bit splices of it, all truncations, random bytes, all buffers of up to 2 bytes and " +
			"megabyte-sized patterns; monitors: panic, CPU watchdog, heap watchdog, input bytes unchanged, outcome independent of bytes beyond the buffer, " +
			"accessors and serialisers of accepted values, equality after writing back",
		Assumptions: []string{
			"values returned together with an error are not judged",
			"writing back is judged when the serialiser accepts the value",
			"trailing zero bytes of H264 units are part of the Annex B delimiters",
		},
		Require: append(req, "parsed", "accepted", "rejected", "written_back", "accessed", "truncated", "large", "short_buffers"),
		Families: []Family{
			{Name: "mutated", Quick: n * 400, Thorough: n * 60000, Run: c01Mutated},
			{Name: "truncated", Quick: n * 60, Thorough: n * 6000, Run: c01Truncated},
			{Name: "random", Quick: n * 300, Thorough: n * 30000, Run: c01Random},
			{Name: "large", Quick: n * 14, Thorough: n * 280, Run: c01Large},
			{Name: "short", Quick: n, Thorough: n, Run: c01Short},
		},
	})
}
