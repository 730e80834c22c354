package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

// memFile is an in-memory file, independent from the one of the library.
type memFile struct {
	b   []byte
	pos int64
}

func (m *memFile) Write(p []byte) (int, error) {
	if n := m.pos + int64(len(p)); n > int64(len(m.b)) {
		m.b = append(m.b, make([]byte, n-int64(len(m.b)))...)
	}
	copy(m.b[m.pos:], p)
	m.pos += int64(len(p))
	return len(p), nil
}

func (m *memFile) Read(p []byte) (int, error) {
	if m.pos >= int64(len(m.b)) {
		return 0, io.EOF
	}
	n := copy(p, m.b[m.pos:])
	m.pos += int64(n)
	return n, nil
}

func (m *memFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += int64(len(m.b))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	m.pos = off
	return off, nil
}

// lateFile is a file that already contains base bytes (which are not stored).
type lateFile struct {
	memFile
	base int64
}

func (m *lateFile) Seek(off int64, whence int) (int64, error) {
	if whence == io.SeekStart {
		off -= m.base
	}
	n, err := m.memFile.Seek(off, whence)
	return n + m.base, err
}

// mbox is a box found by the independent parser.
type mbox struct {
	typ      string
	off      int // offset of the header
	body     int // offset of the content
	end      int
	entry    []byte // fixed fields of containers with fields
	children []*mbox
	raw      []byte // content (leaves)
	path     string
}

// sizes of the fields which precede the children, in containers.
var mp4Containers = map[string]int{
	"moov": 0, "trak": 0, "mdia": 0, "minf": 0, "dinf": 0, "stbl": 0, "edts": 0, "udta": 0, "mvex": 0,
	"moof": 0, "traf": 0, "stsd": 8, "dref": 8,
	"avc1": 78, "hvc1": 78, "hev1": 78, "av01": 78, "vp09": 78, "mp4v": 78,
	"mp4a": 28, "Opus": 28, "fLaC": 28, "ac-3": 28, "ec-3": 28, "ipcm": 28,
}

// walkBoxes parses a buffer as a sequence of boxes which nest exactly.
func walkBoxes(b []byte, off, end int, path string) ([]*mbox, error) {
	var out []*mbox
	for off < end {
		if end-off < 8 {
			return nil, fmt.Errorf("%d stray bytes at offset %d in %q", end-off, off, path)
		}
		size := int(binary.BigEndian.Uint32(b[off:]))
		x := &mbox{typ: string(b[off+4 : off+8]), off: off, body: off + 8}
		x.path = path + "/" + x.typ
		if size == 1 {
			if end-off < 16 {
				return nil, fmt.Errorf("short 64-bit header at %d", off)
			}
			size = int(binary.BigEndian.Uint64(b[off+8:]))
			x.body = off + 16
		}
		x.end = off + size
		if x.end < x.body || x.end > end {
			return nil, fmt.Errorf("box %s at %d has size %d, exceeding its container that ends at %d", x.path, off, size, end)
		}
		if skip, ok := mp4Containers[x.typ]; ok {
			if x.end-x.body < skip {
				return nil, fmt.Errorf("box %s is too short", x.path)
			}
			x.entry = b[x.body : x.body+skip]
			c, err := walkBoxes(b, x.body+skip, x.end, x.path)
			if err != nil {
				return nil, err
			}
			x.children = c
		} else {
			x.raw = b[x.body:x.end]
		}
		out = append(out, x)
		off = x.end
	}
	return out, nil
}

func (x *mbox) all(typ string) []*mbox {
	var out []*mbox
	for _, c := range x.children {
		if c.typ == typ {
			out = append(out, c)
		}
	}
	return out
}

// one returns the only child with a path, as in "mdia/mdhd".
func (x *mbox) one(path ...string) *mbox {
	cur := x
	for _, p := range path {
		l := cur.all(p)
		if len(l) != 1 {
			panic(failure{msg: fmt.Sprintf("%d boxes %q in %s", len(l), p, cur.path)})
		}
		cur = l[0]
	}
	return cur
}

func rootOf(l []*mbox) *mbox { return &mbox{children: l} }

func (x *mbox) types() []string {
	var out []string
	for _, c := range x.children {
		out = append(out, c.typ)
	}
	return out
}

// bitReader is an independent bit reader.
type bitReader struct {
	bits []byte
	pos  int
}

func newBitReader(b []byte) *bitReader { return &bitReader{bits: toBits(b)} }

func (r *bitReader) u(n int) uint64 {
	if r.pos+n > len(r.bits) {
		panic(failure{msg: "structure is too short"})
	}
	v := bitsVal(r.bits[r.pos : r.pos+n])
	r.pos += n
	return v
}

func (r *bitReader) left() int { return len(r.bits) - r.pos }

func be32(b []byte, i int) uint32 {
	if i+4 > len(b) {
		panic(failure{msg: "box is too short"})
	}
	return binary.BigEndian.Uint32(b[i:])
}

func be64(b []byte, i int) uint64 {
	return uint64(be32(b, i))<<32 | uint64(be32(b, i+4))
}

// ---- codec generation ----

type genCodecOut struct {
	codec  codecs.Codec
	width  int // expected, for video
	height int
	avc    *h264.SPS
	hevc   *h265.SPS
	av1    *av1.SequenceHeader
}

const codecKinds = 15

func genNonEmpty(r *rand.Rand, n int) []byte { return payload(r, 1+r.IntN(n)) }

// genMP4Codec generates a codec with valid parameters.
func genMP4Codec(r *rand.Rand, kind int) *genCodecOut {
	o := &genCodecOut{}
	switch kind {
	case 0:
		for {
			s, w := genH264SPS(r)
			w.trailing()
			raw := append([]byte{0x67}, escape(w.out())...)
			var p h264.SPS
			if p.Unmarshal(raw) != nil || p.Width() <= 0 || p.Height() <= 0 || len(raw) > 60000 {
				continue // cropped to nothing
			}
			o.avc = s
			o.width, o.height = p.Width(), p.Height()
			o.codec = &codecs.H264{SPS: raw, PPS: append([]byte{0x68}, payload(r, r.IntN(30))...)}
			return o
		}
	case 1:
		for {
			s, w := genH265SPS(r)
			w.trailing()
			raw := append([]byte{0x42, 0x01}, escape(w.out())...)
			var p h265.SPS
			if p.Unmarshal(raw) != nil || p.Width() <= 0 || p.Height() <= 0 || len(raw) > 60000 ||
				s.BitDepthLumaMinus8 > 7 || s.BitDepthChromaMinus8 > 7 { // 3 bits in hvcC
				continue
			}
			o.hevc = s
			o.width, o.height = p.Width(), p.Height()
			o.codec = &codecs.H265{
				VPS: append([]byte{0x40, 0x01}, payload(r, r.IntN(30))...), SPS: raw,
				PPS: append([]byte{0x44, 0x01}, payload(r, r.IntN(30))...),
			}
			return o
		}
	case 2:
		for {
			s, w := genAV1Seq(r)
			w.trailing()
			raw := append([]byte{0x08}, w.out()...)
			var p av1.SequenceHeader
			if p.Unmarshal(raw) != nil {
				continue
			}
			o.av1 = s
			o.width, o.height = p.Width(), p.Height()
			o.codec = &codecs.AV1{SequenceHeader: raw}
			return o
		}
	case 3:
		c := &codecs.VP9{
			Width: 1 + int(edge(r, 16))%65535, Height: 1 + int(edge(r, 16))%65535,
			Profile: uint8(r.IntN(4)), BitDepth: pick[uint8](r, 8, 10, 12),
			ChromaSubsampling: uint8(r.IntN(4)), ColorRange: flip(r),
		}
		o.codec, o.width, o.height = c, c.Width, c.Height
	case 4:
		o.codec, o.width, o.height = &codecs.MPEG4Video{Config: genNonEmpty(r, pick(r, 10, 100, 300, 20000))}, 800, 600
	case 5:
		o.codec, o.width, o.height = &codecs.MPEG1Video{Config: genNonEmpty(r, pick(r, 10, 100, 300, 20000))}, 800, 600
	case 6:
		c := &codecs.MJPEG{Width: 1 + int(edge(r, 16))%65535, Height: 1 + int(edge(r, 16))%65535}
		o.codec, o.width, o.height = c, c.Width, c.Height
	case 7:
		o.codec = &codecs.Opus{ChannelCount: pick(r, 1, 2, 6, 8, 1+r.IntN(255))}
	case 8:
		s := &flac.StreamInfo{
			MinBlockSize: uint16(edge(r, 16)), MaxBlockSize: uint16(edge(r, 16)),
			MinFrameSize: uint32(edge(r, 24)), MaxFrameSize: uint32(edge(r, 24)),
			SampleRate: pick(r, 44100, 48000, 96000, 192000, uint32(1+r.IntN(655350))), ChannelCount: uint8(1 + r.IntN(8)),
			BitDepth: uint8(4 + r.IntN(29)), TotalSamples: edge(r, 36),
		}
		copy(s.MD5[:], payload(r, 16))
		o.codec = &codecs.FLAC{StreamInfo: s}
	case 9, 10:
		for {
			a := genASC(r)
			if _, err := a.Marshal(); err != nil || a.ChannelConfig == 0 { // not supported by the writer
				continue
			}
			o.codec = &codecs.MPEG4Audio{Config: *a}
			return o
		}
	case 11:
		o.codec = &codecs.MPEG1Audio{
			SampleRate:   pick(r, 16000, 22050, 24000, 32000, 44100, 48000),
			ChannelCount: 1 + r.IntN(2),
		}
	case 12:
		i := r.IntN(3)
		o.codec = &codecs.AC3{
			SampleRate: [3]int{48000, 44100, 32000}[i], ChannelCount: 1 + r.IntN(6), Fscod: uint8(i),
			Bsid: uint8(r.IntN(32)), Bsmod: uint8(r.IntN(8)), Acmod: uint8(r.IntN(8)), LfeOn: flip(r), BitRateCode: uint8(r.IntN(32)),
		}
	case 13:
		i := r.IntN(3)
		c := &codecs.EAC3{
			SampleRate: [3]int{48000, 44100, 32000}[i], ChannelCount: 1 + r.IntN(16),
			DataRate: uint16(edge(r, 13)), Asvc: flip(r), Bsmod: uint8(r.IntN(8)), Acmod: uint8(r.IntN(8)), LfeOn: flip(r),
			NumDepSub: uint8(max(0, r.IntN(24)-8)),
		}
		if c.NumDepSub > 0 {
			c.ChanLoc = uint16(edge(r, 9))
		}
		o.codec = c
	default:
		o.codec = &codecs.LPCM{
			LittleEndian: flip(r), BitDepth: pick(r, 8, 16, 24, 32, 64),
			SampleRate: pick(r, 8000, 44100, 48000, 65535, 1+r.IntN(65535)), ChannelCount: pick(r, 1, 2, 6, 1+r.IntN(65535)),
		}
	}
	return o
}

// descriptor is a MPEG-4 descriptor (ISO 14496-1, 8.3.3).
type descriptor struct {
	tag  byte
	body []byte
}

func readDescriptors(b []byte) ([]descriptor, error) {
	var out []descriptor
	for len(b) > 0 {
		d := descriptor{tag: b[0]}
		b = b[1:]
		n := 0
		for i := 0; ; i++ {
			if len(b) == 0 || i == 4 {
				return nil, errors.New("invalid descriptor size")
			}
			x := b[0]
			b = b[1:]
			n = n<<7 | int(x&0x7F)
			if x&0x80 == 0 {
				break
			}
		}
		if n > len(b) {
			return nil, fmt.Errorf("descriptor %d exceeds its container", d.tag)
		}
		d.body = b[:n]
		b = b[n:]
		out = append(out, d)
	}
	return out, nil
}

// checkSampleEntry verifies that a sample entry carries the parameters of a codec.
func checkSampleEntry(c *Case, x *mbox, o *genCodecOut, trackID int, avg, maxr uint32, btrt bool) {
	var video, audio bool
	var typ, conf string
	rate, channels, sampleSize := uint32(48000), 0, 16
	switch o.codec.(type) {
	case *codecs.H264:
		typ, conf, video = "avc1", "avcC", true
	case *codecs.H265:
		typ, conf, video = "hvc1", "hvcC", true
	case *codecs.AV1:
		typ, conf, video = "av01", "av1C", true
	case *codecs.VP9:
		typ, conf, video = "vp09", "vpcC", true
	case *codecs.MPEG4Video, *codecs.MPEG1Video, *codecs.MJPEG:
		typ, conf, video = "mp4v", "esds", true
	case *codecs.Opus:
		typ, conf, audio = "Opus", "dOps", true
	case *codecs.FLAC:
		typ, conf, audio = "fLaC", "dfLa", true
	case *codecs.MPEG4Audio, *codecs.MPEG1Audio:
		typ, conf, audio = "mp4a", "esds", true
	case *codecs.AC3:
		typ, conf, audio = "ac-3", "dac3", true
	case *codecs.EAC3:
		typ, conf, audio = "ec-3", "dec3", true
	case *codecs.LPCM:
		typ, conf, audio = "ipcm", "pcmC", true
	}
	c.Check(x.typ == typ, "sample entry %q, want %q", x.typ, typ)
	want := []string{conf}
	if btrt {
		want = append(want, "btrt")
	}
	c.Check(fmt.Sprint(x.types()) == fmt.Sprint(want), "sample entry %s contains %v, want %v", x.typ, x.types(), want)
	c.Check(binary.BigEndian.Uint16(x.entry[6:]) == 1, "data reference index of %s", x.typ)
	if video {
		if o.width < 65536 && o.height < 65536 {
			w, h := int(binary.BigEndian.Uint16(x.entry[24:])), int(binary.BigEndian.Uint16(x.entry[26:]))
			c.Check(w == o.width && h == o.height, "sample entry has size %dx%d, want %dx%d", w, h, o.width, o.height)
		}
	}
	b := x.one(conf).raw
	esds := func(oti byte, streamType byte, spec []byte) {
		c.Check(be32(b, 0) == 0, "version of esds")
		ds, err := readDescriptors(b[4:])
		c.NoErr(err, "esds")
		c.Check(len(ds) == 1 && ds[0].tag == 3 && len(ds[0].body) >= 3, "esds does not contain exactly an ES descriptor")
		es := ds[0].body
		c.Check(int(binary.BigEndian.Uint16(es)) == trackID&0xFFFF && es[2] == 0, "ES_ID %d flags %d, want %d 0", binary.BigEndian.Uint16(es), es[2], trackID&0xFFFF)
		ds, err = readDescriptors(es[3:])
		c.NoErr(err, "ES descriptor")
		c.Check(len(ds) == 2 && ds[0].tag == 4 && ds[1].tag == 6 && eqBytes(ds[1].body, []byte{2}), "content of ES descriptor: %v", ds)
		dc := ds[0].body
		c.Check(len(dc) >= 13, "decoder config too short")
		c.Check(dc[0] == oti && dc[1]>>2 == streamType && dc[1]&1 == 1, "object type 0x%x stream type %x, want 0x%x %x", dc[0], dc[1], oti, streamType)
		c.Check(be32(dc, 5) == maxr && be32(dc, 9) == avg, "bit rates %d %d, want %d %d", be32(dc, 5), be32(dc, 9), maxr, avg)
		ds, err = readDescriptors(dc[13:])
		c.NoErr(err, "decoder config")
		if spec == nil {
			c.Check(len(ds) == 0, "unexpected decoder specific info")
		} else {
			c.Check(len(ds) == 1 && ds[0].tag == 5 && eqBytes(ds[0].body, spec), "decoder specific info %v, want %x", ds, spec)
		}
	}
	switch k := o.codec.(type) {
	case *codecs.H264:
		c.Check(len(b) > 6 && b[0] == 1 && b[1] == o.avc.ProfileIdc && b[2] == k.SPS[2] && b[3] == o.avc.LevelIdc && b[4] == 0xFF && b[5] == 0xE1,
			"avcC header %s for SPS %s", hexShort(b), hexShort(k.SPS))
		n := int(binary.BigEndian.Uint16(b[6:]))
		c.Check(n == len(k.SPS) && len(b) >= 8+n+3 && eqBytes(b[8:8+n], k.SPS), "SPS of avcC")
		p := b[8+n:]
		m := int(binary.BigEndian.Uint16(p[1:]))
		c.Check(p[0] == 1 && m == len(k.PPS) && len(p) >= 3+m && eqBytes(p[3:3+m], k.PPS), "PPS of avcC")
	case *codecs.H265:
		c.Check(len(b) >= 23, "hvcC too short")
		ptl := o.hevc.ProfileTierLevel
		compat := uint32(0)
		for i, v := range ptl.GeneralProfileCompatibilityFlag {
			if v {
				compat |= 1 << uint(31-i)
			}
		}
		c.Check(b[0] == 1 && b[1]&31 == ptl.GeneralProfileIdc&31 && be32(b, 2) == compat && b[12] == ptl.GeneralLevelIdc,
			"hvcC profile, compatibility flags and level %x, want %d %08x %d", b[:13], ptl.GeneralProfileIdc, compat, ptl.GeneralLevelIdc)
		c.Check(uint32(b[16]&3) == o.hevc.ChromaFormatIdc && uint32(b[17]&7) == o.hevc.BitDepthLumaMinus8 && uint32(b[18]&7) == o.hevc.BitDepthChromaMinus8,
			"hvcC chroma format and bit depths %x, want %d %d %d", b[16:19], o.hevc.ChromaFormatIdc, o.hevc.BitDepthLumaMinus8, o.hevc.BitDepthChromaMinus8)
		c.Check(b[21]&3 == 3, "hvcC length size")
		found := map[byte][]byte{}
		p := b[23:]
		for range b[22] {
			c.Check(len(p) >= 5, "hvcC arrays")
			t, n := p[0]&63, int(binary.BigEndian.Uint16(p[3:]))
			c.Check(binary.BigEndian.Uint16(p[1:]) == 1 && len(p) >= 5+n, "hvcC array of type %d", t)
			found[t] = p[5 : 5+n]
			p = p[5+n:]
		}
		c.Check(len(p) == 0 && len(found) == 3 && eqBytes(found[32], k.VPS) && eqBytes(found[33], k.SPS) && eqBytes(found[34], k.PPS), "parameter sets of hvcC")
	case *codecs.AV1:
		br := newBitReader(b)
		f := []uint64{br.u(1), br.u(7), br.u(3), br.u(5), br.u(1), br.u(1), br.u(1), br.u(1), br.u(1), br.u(1), br.u(2)}
		cc := o.av1.ColorConfig
		bit := func(v bool) uint64 {
			if v {
				return 1
			}
			return 0
		}
		want := []uint64{1, 1, uint64(o.av1.SeqProfile), uint64(o.av1.SeqLevelIdx[0]), bit(o.av1.SeqTier[0]), bit(cc.HighBitDepth), bit(cc.TwelveBit),
			bit(cc.MonoChrome), bit(cc.SubsamplingX), bit(cc.SubsamplingY), uint64(cc.ChromaSamplePosition)}
		c.Check(fmt.Sprint(f) == fmt.Sprint(want), "av1C fields %v, want %v", f, want)
		obus, ok := refAV1(b[4:])
		c.Check(ok && len(obus) == 1 && eqBytes(obus[0], k.SequenceHeader), "configOBUs %x, want %x", b[4:], k.SequenceHeader)
	case *codecs.VP9:
		br := newBitReader(b)
		br.u(32)
		p, _, d, cs, fr := br.u(8), br.u(8), br.u(4), br.u(3), br.u(1)
		c.Check(b[0] == 1 && p == uint64(k.Profile) && d == uint64(k.BitDepth) && cs == uint64(k.ChromaSubsampling) && (fr == 1) == k.ColorRange,
			"vpcC %x, want %+v", b, *k)
	case *codecs.MPEG4Video:
		esds(0x20, 4, k.Config)
	case *codecs.MPEG1Video:
		esds(0x61, 4, k.Config)
	case *codecs.MJPEG:
		esds(0x6C, 4, nil)
	case *codecs.MPEG4Audio:
		w := &bitWriter{}
		writeASC(w, &k.Config, false)
		w.align()
		ch := int(k.Config.ChannelConfig)
		if ch == 7 {
			ch = 8
		}
		if k.Config.ChannelCount != 0 { //nolint:staticcheck
			ch = k.Config.ChannelCount //nolint:staticcheck
		}
		rate, channels = uint32(k.Config.SampleRate), ch
		esds(0x40, 5, w.out())
	case *codecs.MPEG1Audio:
		rate, channels = uint32(k.SampleRate), k.ChannelCount
		esds(0x6B, 5, nil)
	case *codecs.Opus:
		channels = k.ChannelCount
		c.Check(len(b) >= 11 && b[0] == 0 && int(b[1]) == k.ChannelCount && be32(b, 4) == 48000, "dOps %x, want %d channels", b, k.ChannelCount)
	case *codecs.FLAC:
		rate, channels, sampleSize = k.StreamInfo.SampleRate, int(k.StreamInfo.ChannelCount), int(k.StreamInfo.BitDepth)
		w := &bitWriter{}
		s := k.StreamInfo
		for _, f := range [][2]uint64{{16, uint64(s.MinBlockSize)}, {16, uint64(s.MaxBlockSize)}, {24, uint64(s.MinFrameSize)}, {24, uint64(s.MaxFrameSize)},
			{20, uint64(s.SampleRate)}, {3, uint64(s.ChannelCount - 1)}, {5, uint64(s.BitDepth - 1)}, {36, s.TotalSamples}} {
			w.u(int(f[0]), f[1])
		}
		w.bytes(s.MD5[:])
		c.Check(len(b) == 8+34 && be32(b, 0) == 0 && be32(b, 4) == 0x80000022 && eqBytes(b[8:], w.out()), "dfLa %x, want %x", b, w.out())
	case *codecs.AC3:
		rate, channels = uint32(k.SampleRate), k.ChannelCount
		br := newBitReader(b)
		f := []uint64{br.u(2), br.u(5), br.u(3), br.u(3), br.u(1), br.u(5)}
		l := uint64(0)
		if k.LfeOn {
			l = 1
		}
		want := []uint64{uint64(k.Fscod), uint64(k.Bsid), uint64(k.Bsmod), uint64(k.Acmod), l, uint64(k.BitRateCode)}
		c.Check(len(b) == 3 && fmt.Sprint(f) == fmt.Sprint(want), "dac3 %x: %v, want %v", b, f, want)
	case *codecs.EAC3:
		rate, channels = uint32(k.SampleRate), k.ChannelCount
		br := newBitReader(b)
		f := []uint64{br.u(13), br.u(3), br.u(2), br.u(5), br.u(1), br.u(1), br.u(3), br.u(3), br.u(1), br.u(3), br.u(4)}
		bit := func(v bool) uint64 {
			if v {
				return 1
			}
			return 0
		}
		fs := map[int]uint64{48000: 0, 44100: 1, 32000: 2}[k.SampleRate]
		want := []uint64{uint64(k.DataRate), 0, fs, 16, 0, bit(k.Asvc), uint64(k.Bsmod), uint64(k.Acmod), bit(k.LfeOn), 0, uint64(k.NumDepSub)}
		c.Check(fmt.Sprint(f) == fmt.Sprint(want), "dec3 %x: %v, want %v", b, f, want)
		if k.NumDepSub > 0 {
			loc := br.u(9)
			c.Check(loc == uint64(k.ChanLoc), "dec3 channel location %d, want %d", loc, k.ChanLoc)
		}
	case *codecs.LPCM:
		rate, channels, sampleSize = uint32(k.SampleRate), k.ChannelCount, k.BitDepth
		c.Check(len(b) == 6 && be32(b, 0) == 0 && (b[4]&1 == 1) == k.LittleEndian && int(b[5]) == k.BitDepth, "pcmC %x, want %+v", b, *k)
	}
	if audio {
		ch, ss, sr := int(binary.BigEndian.Uint16(x.entry[16:])), int(binary.BigEndian.Uint16(x.entry[18:])), be32(x.entry, 24)
		c.Check(ch == channels && ss == sampleSize, "%s: channel count %d sample size %d, want %d %d", x.typ, ch, ss, channels, sampleSize)
		if rate < 65536 { // 16.16 fixed point
			c.Check(sr == rate<<16, "%s: sample rate %d/65536, want %d", x.typ, sr, rate)
		} else if x.typ != "ipcm" {
			// "the greatest expressible regular division of that rate", when there is one, otherwise
			// 65535 (FLAC in ISOBMFF); for other codecs, not indicated (0) is accepted too.
			v := sr >> 16
			ok := sr&0xFFFF == 0 && (v == 0 && x.typ != "fLaC" || v != 0 && rate%v == 0 || v == 65535)
			for n := uint32(2); n <= 4 && x.typ == "fLaC"; n++ {
				if rate%n == 0 && rate/n < 65536 {
					ok = v == rate/n
					break
				}
			}
			c.Check(ok, "%s: sample rate %d/65536 for a rate of %d", x.typ, sr, rate)
			c.Count("high_rates", 1)
		}
	}
	if btrt {
		b := x.one("btrt").raw
		c.Check(len(b) == 12 && be32(b, 4) == maxr && be32(b, 8) == avg, "btrt %x, want max %d avg %d", b, maxr, avg)
	}
	c.Count("sample_entries", 1)
	c.Count("entry:"+typ, 1)
}

// checkTrackHeaders verifies what the two writers have in common.
func checkTrackHeaders(c *Case, tr *mbox, o *genCodecOut, id int, timeScale uint32) {
	tk := tr.one("tkhd").raw
	c.Check(len(tk) == 84 && tk[0] == 0 && tk[3] == 3, "tkhd %x", tk)
	c.Check(be32(tk, 12) == uint32(id), "tkhd: track id %d, want %d", be32(tk, 12), id)
	video := isVideoCodec(o.codec)
	c.Check(o.codec.IsVideo() == video, "%T: IsVideo() is %v", o.codec, !video)
	if video {
		if o.width < 65536 && o.height < 65536 {
			c.Check(be32(tk, 76) == uint32(o.width)<<16 && be32(tk, 80) == uint32(o.height)<<16, "tkhd: size %x %x, want %d %d", be32(tk, 76), be32(tk, 80), o.width, o.height)
		}
		tr.one("mdia", "minf", "vmhd")
	} else {
		tr.one("mdia", "minf", "smhd")
	}
	md := tr.one("mdia", "mdhd").raw
	c.Check(len(md) == 24 && md[0] == 0 && be32(md, 12) == timeScale, "mdhd %x, want time scale %d", md, timeScale)
	h := tr.one("mdia", "hdlr").raw
	want := "soun"
	if video {
		want = "vide"
	}
	c.Check(len(h) >= 24 && string(h[8:12]) == want, "hdlr %x, want type %s", h, want)
	dr := tr.one("mdia", "minf", "dinf", "dref")
	c.Check(be32(dr.entry, 4) == uint32(len(dr.children)) && len(dr.children) == 1 && dr.children[0].typ == "url ", "dref")
	sd := tr.one("mdia", "minf", "stbl", "stsd")
	c.Check(be32(sd.entry, 4) == 1 && len(sd.children) == 1, "stsd contains %d entries, declares %d", len(sd.children), be32(sd.entry, 4))
}

// allZeroTable verifies that a table box declares no entries.
func emptyTable(c *Case, x *mbox) {
	for _, v := range x.raw {
		c.Check(v == 0, "%s is not empty: %x", x.path, x.raw)
	}
}

// isVideoCodec does not rely on IsVideo() of the codec, which is checked against it.
func isVideoCodec(k codecs.Codec) bool {
	switch k.(type) {
	case *codecs.AV1, *codecs.VP9, *codecs.H264, *codecs.H265, *codecs.MPEG4Video, *codecs.MPEG1Video, *codecs.MJPEG:
		return true
	}
	return false
}
