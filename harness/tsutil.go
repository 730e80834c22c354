package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	"github.com/asticode/go-astits"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
)

// ---- independent transport stream parser ----

const mask33 = 1<<33 - 1

type tsPacket struct {
	idx     int
	pid     int
	pusi    bool
	rai     bool
	cc      int
	pcr     int64 // -1: absent
	pcrExt  int
	payload []byte
	hasPay  bool
	hasAF   bool
}

func parseTSPacket(b []byte) (*tsPacket, error) {
	if len(b) != 188 {
		return nil, fmt.Errorf("size is %d", len(b))
	}
	if b[0] != 0x47 {
		return nil, fmt.Errorf("no sync byte")
	}
	p := &tsPacket{
		pid:  int(b[1]&0x1F)<<8 | int(b[2]),
		pusi: b[1]&0x40 != 0,
		cc:   int(b[3] & 15),
		pcr:  -1,
	}
	if b[1]&0x80 != 0 {
		return nil, fmt.Errorf("transport error indicator is set")
	}
	if b[3]>>6 != 0 {
		return nil, fmt.Errorf("scrambling control is %d", b[3]>>6)
	}
	p.hasAF, p.hasPay = b[3]&0x20 != 0, b[3]&0x10 != 0
	if !p.hasAF && !p.hasPay {
		return nil, fmt.Errorf("neither adaptation field nor payload")
	}
	pos := 4
	if p.hasAF {
		l := int(b[4])
		if p.hasPay && l > 182 || !p.hasPay && l != 183 {
			return nil, fmt.Errorf("adaptation field length is %d", l)
		}
		pos = 5
		if l > 0 {
			fl := b[5]
			pos = 6
			p.rai = fl&0x40 != 0
			if fl&0x8F != 0 {
				return nil, fmt.Errorf("unexpected adaptation field flags %#x", fl)
			}
			if fl&0x10 != 0 {
				if l < 7 {
					return nil, fmt.Errorf("adaptation field too short for the clock reference")
				}
				v := uint64(0)
				for _, x := range b[6:12] {
					v = v<<8 | uint64(x)
				}
				p.pcr, p.pcrExt = int64(v>>15), int(v&0x1FF)
				if v>>9&0x3F != 0x3F {
					return nil, fmt.Errorf("reserved bits of the clock reference are not set")
				}
				pos = 12
			}
			for i := pos; i < 5+l; i++ {
				if b[i] != 0xFF {
					return nil, fmt.Errorf("stuffing byte %#x", b[i])
				}
			}
		}
		pos = 5 + l
	}
	if p.hasPay {
		p.payload = b[pos:]
		if len(p.payload) == 0 {
			return nil, fmt.Errorf("empty payload")
		}
	}
	return p, nil
}

func parseTSPackets(buf []byte) ([]*tsPacket, error) {
	if len(buf)%188 != 0 {
		return nil, fmt.Errorf("%d bytes are not a multiple of 188", len(buf))
	}
	var out []*tsPacket
	for i := 0; i < len(buf); i += 188 {
		p, err := parseTSPacket(buf[i : i+188])
		if err != nil {
			return nil, fmt.Errorf("packet %d: %w", i/188, err)
		}
		p.idx = i / 188
		out = append(out, p)
	}
	return out, nil
}

func crcMPEG2(b []byte) uint32 {
	c := uint32(0xFFFFFFFF)
	for _, x := range b {
		c ^= uint32(x) << 24
		for range 8 {
			if c>>31 == 1 {
				c = c<<1 ^ 0x04C11DB7
			} else {
				c <<= 1
			}
		}
	}
	return c
}

// parseSection returns table id, table id extension, version and the body of a single section.
func parseSection(pay []byte) (id int, ext int, version int, body []byte, err error) {
	if pay[0] != 0 {
		return 0, 0, 0, nil, fmt.Errorf("pointer field is %d", pay[0])
	}
	s := pay[1:]
	if len(s) < 12 {
		return 0, 0, 0, nil, fmt.Errorf("section too short")
	}
	l := int(s[1]&15)<<8 | int(s[2])
	if 3+l > len(s) || l < 9 {
		return 0, 0, 0, nil, fmt.Errorf("section length %d", l)
	}
	if s[1]>>4 != 0b1011 {
		return 0, 0, 0, nil, fmt.Errorf("section flags %#x", s[1]>>4)
	}
	if crcMPEG2(s[:3+l]) != 0 {
		return 0, 0, 0, nil, fmt.Errorf("section checksum is wrong")
	}
	for _, x := range s[3+l:] {
		if x != 0xFF {
			return 0, 0, 0, nil, fmt.Errorf("section followed by %#x", x)
		}
	}
	if s[5]&1 != 1 || s[6] != 0 || s[7] != 0 {
		return 0, 0, 0, nil, fmt.Errorf("section header % x", s[:8])
	}
	return int(s[0]), int(s[3])<<8 | int(s[4]), int(s[5] >> 1 & 31), s[8 : 3+l-4], nil
}

type tsES struct {
	typ  int
	pid  int
	desc []byte
}

type tsPMT struct {
	idx    int
	pcrPID int
	es     []tsES
	ver    int
	raw    []byte
}

func parsePMTBody(body []byte) (*tsPMT, error) {
	if len(body) < 4 {
		return nil, fmt.Errorf("PMT too short")
	}
	p := &tsPMT{pcrPID: int(body[0]&0x1F)<<8 | int(body[1]), raw: body}
	il := int(body[2]&15)<<8 | int(body[3])
	pos := 4 + il
	for pos < len(body) {
		if pos+5 > len(body) {
			return nil, fmt.Errorf("PMT entry truncated")
		}
		e := tsES{typ: int(body[pos]), pid: int(body[pos+1]&0x1F)<<8 | int(body[pos+2])}
		dl := int(body[pos+3]&15)<<8 | int(body[pos+4])
		if pos+5+dl > len(body) {
			return nil, fmt.Errorf("PMT descriptors truncated")
		}
		e.desc = body[pos+5 : pos+5+dl]
		for i := 0; i < dl; {
			if i+2 > dl || i+2+int(e.desc[i+1]) > dl {
				return nil, fmt.Errorf("descriptor truncated")
			}
			i += 2 + int(e.desc[i+1])
		}
		pos += 5 + dl
		p.es = append(p.es, e)
	}
	return p, nil
}

type tsPES struct {
	pid      int
	first    *tsPacket
	last     *tsPacket
	packets  []*tsPacket
	streamID int
	length   int
	pts, dts int64 // -1: absent
	data     []byte
}

func parseTimestamp(b []byte, prefix byte) (int64, error) {
	if b[0]>>4 != prefix || b[0]&1 != 1 || b[2]&1 != 1 || b[4]&1 != 1 {
		return 0, fmt.Errorf("timestamp markers % x", b)
	}
	return int64(b[0]>>1&7)<<30 | int64(b[1])<<22 | int64(b[2]>>1)<<15 | int64(b[3])<<7 | int64(b[4]>>1), nil
}

func parsePES(pid int, pkts []*tsPacket) (*tsPES, error) {
	var b []byte
	for _, p := range pkts {
		b = append(b, p.payload...)
	}
	s := &tsPES{pid: pid, first: pkts[0], last: pkts[len(pkts)-1], packets: pkts, pts: -1, dts: -1}
	if len(b) < 9 || b[0] != 0 || b[1] != 0 || b[2] != 1 {
		return nil, fmt.Errorf("no PES start code")
	}
	s.streamID, s.length = int(b[3]), int(b[4])<<8|int(b[5])
	if b[6]>>6 != 2 {
		return nil, fmt.Errorf("PES marker bits")
	}
	if b[7]&0x3F != 0 {
		return nil, fmt.Errorf("PES flags %#x", b[7])
	}
	hl := int(b[8])
	need := map[byte]int{0: 0, 2: 5, 3: 10}
	if b[7]>>6 == 1 || hl != need[b[7]>>6] || len(b) < 9+hl {
		return nil, fmt.Errorf("PES header length %d with flags %#x", hl, b[7])
	}
	var err error
	switch b[7] >> 6 {
	case 2:
		s.pts, err = parseTimestamp(b[9:14], 2)
	case 3:
		s.pts, err = parseTimestamp(b[9:14], 3)
		if err == nil {
			s.dts, err = parseTimestamp(b[14:19], 1)
		}
	}
	if err != nil {
		return nil, err
	}
	if s.length != 0 && s.length != len(b)-6 {
		return nil, fmt.Errorf("PES packet length is %d, there are %d bytes", s.length, len(b)-6)
	}
	s.data = b[9+hl:]
	return s, nil
}

// ---- generators ----

type tsTrack struct {
	kind  string
	track *mpegts.Track
	gen   func(r *rand.Rand, size int) [][]byte // units of a single write
	conf  any
}

// tsWrite is a single write, or a single unit which was read.
type tsWrite struct {
	trk      int
	pts, dts int64
	units    [][]byte
}

func genOpusDesc(r *rand.Rand) *substructs.OpusAudioDescriptor {
	d := &substructs.OpusAudioDescriptor{ChannelConfigCode: pick[uint8](r, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x80, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88)}
	if r.IntN(3) != 0 {
		return d
	}
	d.ChannelConfigCode = 0x81
	d.ExplicitChannelCount = pick(r, 1, 2, 3, 4, 8, 9, 1+r.IntN(60))
	d.MappingFamily = pick(r, 1, 2, 3, 255)
	if d.ExplicitChannelCount <= 2 && flip(r) {
		d.MappingFamily = 0
		return d
	}
	d.StreamCount = 1 + r.IntN(d.ExplicitChannelCount)
	d.CoupledStreamCount = r.IntN(d.StreamCount + 1)
	d.ChannelMapping = make([]byte, d.ExplicitChannelCount)
	for i := range d.ChannelMapping {
		d.ChannelMapping[i] = byte(r.IntN(d.StreamCount + d.CoupledStreamCount + 1))
	}
	return d
}

// splitBytes divides a size in n parts, each at least min.
func splitBytes(r *rand.Rand, total, n, least int) []int {
	out := make([]int, n)
	left := max(0, total-n*least)
	for i := range out {
		k := left
		if i != n-1 {
			k = r.IntN(left + 1)
		}
		out[i] = least + k
		left -= k
	}
	return out
}

func naluList(r *rand.Rand, size int, hevc bool) [][]byte {
	n := pick(r, 1, 1, 1, 2, 3, 1+r.IntN(8), 1+r.IntN(49))
	least := 1
	if hevc {
		least = 2
	}
	var out [][]byte
	for i, s := range splitBytes(r, size, n, least) {
		b := naluNoStartCode(r, s)
		if hevc {
			t := pick(r, 1, 1, 0, 19, 20, 21, 32, 33, 34, 39, 9, r.IntN(64))
			b[0], b[1] = byte(t<<1), 1
			if r.IntN(8) == 0 {
				b[0] |= byte(r.IntN(2))
				b[1] = byte(1 + r.IntN(255))
			}
			if t == 35 && (i != 0 || r.IntN(4) != 0) {
				b[0] = 2
			}
		} else {
			t := pick(r, 1, 1, 5, 6, 7, 8, r.IntN(24))
			b[0] = byte(t) | byte(r.IntN(4)<<5)
			if t == 9 {
				b[0] = 1
			}
			if b[0] == 0 {
				b[0] = 0x41
			}
		}
		if len(b) > 2 && !hevc { // restore the absence of start codes
			if b[0] == 0 && b[1] == 0 && b[2] <= 2 {
				b[0] = 0x21
			}
		}
		if hevc && len(b) > 3 && b[0] == 0 && b[1] == 0 && b[2] <= 2 {
			b[1] = 1
		}
		out = append(out, b)
	}
	return out
}

// mpeg1AudioFrame returns a MPEG-1 layer 2 or 3 frame.
func mpeg1AudioFrame(r *rand.Rand) []byte {
	layer := 2 + r.IntN(2)
	bi := 1 + r.IntN(14)
	si := r.IntN(3)
	pad := r.IntN(2)
	kb := refM1L3[bi]
	if layer == 2 {
		kb = refM1L2[bi]
	}
	rate := [3]int{44100, 48000, 32000}[si]
	n := 144*kb*1000/rate + pad
	b := payload(r, n)
	b[0] = 0xFF
	b[1] = 0xF0 | 1<<3 | byte(4-layer)<<1 | byte(r.IntN(2))
	b[2] = byte(bi<<4 | si<<2 | pad<<1 | r.IntN(2))
	return b
}

type ac3Conf struct {
	rate, channels int
	fscod          int
	bsi            []byte
}

func genAC3Conf(r *rand.Rand) *ac3Conf {
	a := &ac3Conf{fscod: r.IntN(3)}
	a.rate = [3]int{48000, 44100, 32000}[a.fscod]
	acmod := r.IntN(8)
	lfe := r.IntN(2)
	skip := 0
	switch acmod {
	case 2, 3, 4, 6:
		skip = 2
	case 5, 7:
		skip = 4
	}
	a.channels = [8]int{2, 1, 2, 3, 3, 4, 4, 5}[acmod] + lfe
	b1 := byte(r.IntN(32))
	b1 = b1&^(1<<(4-skip)) | byte(lfe)<<(4-skip)
	a.bsi = []byte{byte(pick(r, 8, 8, 6, 4)<<3 | r.IntN(8)), byte(acmod<<5) | b1}
	return a
}

func (a *ac3Conf) frame(r *rand.Rand) []byte {
	code := r.IntN(38)
	kbps := [19]int{32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 576, 640}[code/2]
	words := kbps * 1000 * 1536 / a.rate / 16
	if a.fscod == 1 && code%2 == 1 {
		words++
	}
	b := payload(r, words*2)
	copy(b, []byte{0x0B, 0x77})
	b[4] = byte(a.fscod<<6 | code)
	copy(b[5:], a.bsi)
	return b
}

type eac3Conf struct {
	rate, channels            int
	fscod, code2, acmod, lfe_ int
}

func genEAC3Conf(r *rand.Rand) *eac3Conf {
	e := &eac3Conf{fscod: r.IntN(4), code2: r.IntN(4), acmod: r.IntN(8), lfe_: r.IntN(2)}
	if e.fscod == 3 {
		e.code2 = r.IntN(3)
		e.rate = [3]int{24000, 22050, 16000}[e.code2]
	} else {
		e.rate = [3]int{48000, 44100, 32000}[e.fscod]
	}
	e.channels = [8]int{2, 1, 2, 3, 3, 4, 4, 5}[e.acmod] + e.lfe_
	return e
}

func (e *eac3Conf) frame(r *rand.Rand, size int) []byte {
	size = max(size, 10)
	frm := min(size/2-1, 2047)
	w := &bitWriter{}
	w.u(16, 0x0B77)
	w.u(2, 0)
	w.u(3, 0)
	w.u(11, uint64(frm))
	w.u(2, uint64(e.fscod))
	w.u(2, uint64(e.code2))
	w.u(3, uint64(e.acmod))
	w.u(1, uint64(e.lfe_))
	w.u(5, 16)
	w.u(5, uint64(r.IntN(32)))
	w.u(1, 0)
	b := payload(r, size)
	copy(b, w.out())
	return b
}

var tsKinds = []string{"h264", "h265", "mpeg4video", "mpeg1video", "opus", "aac", "latm", "mp3", "ac3", "eac3", "klv-sync", "klv-async", "dvb"}

var tsIsVideo = map[string]bool{"h264": true, "h265": true, "mpeg4video": true, "mpeg1video": true}

func videoFrame(r *rand.Rand, size int, code byte) []byte {
	b := payload(r, size)
	if r.IntN(3) == 0 && size >= 4 {
		copy(b[r.IntN(size-3):], []byte{0, 0, 1, code})
	}
	return b
}

// manyUnits makes some access units of a lot of small frames.
func manyUnits(r *rand.Rand, n int) int {
	if r.IntN(100) == 0 {
		return max(n, pick(r, 17, 33, 65, 129, 257, 20+r.IntN(300)))
	}
	return n
}

func genTSTrack(r *rand.Rand, kind string) *tsTrack {
	t := &tsTrack{kind: kind, track: &mpegts.Track{}}
	one := func(f func(r *rand.Rand, size int) []byte) func(r *rand.Rand, size int) [][]byte {
		return func(r *rand.Rand, size int) [][]byte { return [][]byte{f(r, size)} }
	}
	switch kind {
	case "h264":
		t.track.Codec = &codecs.H264{}
		t.gen = func(r *rand.Rand, size int) [][]byte {
			l := naluList(r, size, false)
			if r.IntN(6) == 0 && len(l) < 49 {
				l = append([][]byte{{9, pick[byte](r, 0x10, 0xF0)}}, l...)
			}
			return l
		}
	case "h265":
		t.track.Codec = &codecs.H265{}
		t.gen = func(r *rand.Rand, size int) [][]byte {
			l := naluList(r, size, true)
			if r.IntN(6) == 0 && len(l) < 49 {
				l = append([][]byte{{35 << 1, 1, 0x50}}, l...)
			}
			return l
		}
	case "mpeg4video":
		t.track.Codec = &codecs.MPEG4Video{}
		t.gen = one(func(r *rand.Rand, size int) []byte { return videoFrame(r, size, 0xB3) })
	case "mpeg1video":
		t.track.Codec = &codecs.MPEG1Video{}
		t.gen = one(func(r *rand.Rand, size int) []byte { return videoFrame(r, size, 0xB8) })
	case "opus":
		d := genOpusDesc(r)
		t.conf = d
		t.track.Codec = &codecs.Opus{Desc: d}
		if d.ChannelConfigCode != 0x81 && d.ChannelConfigCode <= 8 && flip(r) {
			t.track.Codec = &codecs.Opus{ChannelCount: int(d.ChannelConfigCode)} //nolint:staticcheck
		}
		t.gen = func(r *rand.Rand, size int) [][]byte {
			var l [][]byte
			n := manyUnits(r, pick(r, 1, 1, 2, 5, 1+r.IntN(12)))
			for _, s := range splitBytes(r, max(size, n), n, 1) {
				l = append(l, payload(r, s))
			}
			return l
		}
	case "aac":
		ch := 1 + r.IntN(7)
		cc := ch
		if ch == 7 {
			cc = 8
		}
		conf := mpeg4audio.Config{Type: mpeg4audio.ObjectType(1 + r.IntN(4)), SampleRate: sampleRateTable[r.IntN(len(sampleRateTable))], ChannelConfig: uint8(ch), ChannelCount: cc} //nolint:staticcheck
		if r.IntN(10) != 0 {
			conf.Type = 2
		}
		t.conf = conf
		switch r.IntN(4) { // these are equivalent
		case 0:
			conf.ChannelConfig = 0
		case 1:
			conf.ChannelCount = 0 //nolint:staticcheck
		}
		t.track.Codec = &codecs.MPEG4Audio{Config: conf}
		t.gen = func(r *rand.Rand, size int) [][]byte {
			n := pick(r, 1, 1, 2, 5, 1+r.IntN(16))
			n = manyUnits(r, max(n, (size+5119)/5120))
			var l [][]byte
			for _, s := range splitBytes(r, max(size, n), n, 1) {
				l = append(l, payload(r, min(s, 5120)))
			}
			return l
		}
	case "latm":
		t.track.Codec = &codecs.MPEG4AudioLATM{}
		t.gen = func(r *rand.Rand, size int) [][]byte {
			n := pick(r, 1, 1, 2, 5, 1+r.IntN(12))
			n = manyUnits(r, max(n, (size+8190)/8191))
			var l [][]byte
			for _, s := range splitBytes(r, max(size, n), n, 1) {
				l = append(l, payload(r, min(s, 8191)))
			}
			return l
		}
	case "mp3":
		t.track.Codec = &codecs.MPEG1Audio{}
		t.gen = func(r *rand.Rand, size int) [][]byte {
			l := [][]byte{mpeg1AudioFrame(r)}
			n := len(l[0])
			for n < size && len(l) < 30 || r.IntN(3) == 0 {
				l = append(l, mpeg1AudioFrame(r))
				n += len(l[len(l)-1])
			}
			return l
		}
	case "ac3":
		a := genAC3Conf(r)
		t.conf = a
		t.track.Codec = &codecs.AC3{SampleRate: a.rate, ChannelCount: a.channels}
		t.gen = one(func(r *rand.Rand, _ int) []byte { return a.frame(r) })
	case "eac3":
		e := genEAC3Conf(r)
		t.conf = e
		t.track.Codec = &codecs.EAC3{SampleRate: e.rate, ChannelCount: e.channels}
		t.gen = one(e.frame)
	case "klv-sync", "klv-async":
		t.track.Codec = &codecs.KLV{Synchronous: kind == "klv-sync"}
		t.gen = one(payload)
	case "dvb":
		var items []*astits.DescriptorSubtitlingItem
		for range 1 + r.IntN(3) {
			items = append(items, &astits.DescriptorSubtitlingItem{
				Language: []byte(pick(r, "eng", "ita", "fra", "\x00\x01\xFF")), Type: uint8(edge(r, 8)), CompositionPageID: uint16(edge(r, 16)), AncillaryPageID: uint16(edge(r, 16)),
			})
		}
		t.track.Codec = &codecs.DVBSubtitle{Items: items}
		t.gen = one(payload)
	}
	return t
}

// write calls the method of the writer which corresponds to the track.
func (t *tsTrack) write(w *mpegts.Writer, e *tsWrite) error {
	tr := t.track
	switch t.kind {
	case "h264":
		return w.WriteH264(tr, e.pts, e.dts, e.units)
	case "h265":
		return w.WriteH265(tr, e.pts, e.dts, e.units)
	case "mpeg4video":
		return w.WriteMPEG4Video(tr, e.pts, e.units[0])
	case "mpeg1video":
		return w.WriteMPEG1Video(tr, e.pts, e.units[0])
	case "opus":
		return w.WriteOpus(tr, e.pts, e.units)
	case "aac":
		return w.WriteMPEG4Audio(tr, e.pts, e.units)
	case "latm":
		return w.WriteMPEG4AudioLATM(tr, e.pts, e.units)
	case "mp3":
		return w.WriteMPEG1Audio(tr, e.pts, e.units)
	case "ac3":
		return w.WriteAC3(tr, e.pts, e.units[0])
	case "eac3":
		return w.WriteEAC3(tr, e.pts, e.units[0])
	case "klv-sync", "klv-async":
		return w.WriteKLV(tr, e.pts, e.units[0])
	default:
		return w.WriteDVBSubtitle(tr, e.pts, e.units[0])
	}
}

// subscribe registers a callback which delivers units in a common form.
func tsSubscribe(rd *mpegts.Reader, tr *mpegts.Track, cb func(pts, dts int64, units [][]byte) error) {
	one := func(pts int64, b []byte) error { return cb(pts, pts, [][]byte{b}) }
	many := func(pts int64, l [][]byte) error { return cb(pts, pts, l) }
	switch tr.Codec.(type) {
	case *codecs.H264:
		rd.OnDataH264(tr, cb)
	case *codecs.H265:
		rd.OnDataH265(tr, cb)
	case *codecs.MPEG4Video, *codecs.MPEG1Video:
		rd.OnDataMPEGxVideo(tr, one)
	case *codecs.Opus:
		rd.OnDataOpus(tr, many)
	case *codecs.MPEG4Audio:
		rd.OnDataMPEG4Audio(tr, many)
	case *codecs.MPEG4AudioLATM:
		rd.OnDataMPEG4AudioLATM(tr, many)
	case *codecs.MPEG1Audio:
		rd.OnDataMPEG1Audio(tr, many)
	case *codecs.AC3:
		rd.OnDataAC3(tr, one)
	case *codecs.EAC3:
		rd.OnDataEAC3(tr, one)
	case *codecs.KLV:
		rd.OnDataKLV(tr, one)
	case *codecs.DVBSubtitle:
		rd.OnDataDVBSubtitle(tr, one)
	}
}

// tsHistory is a set of tracks and a list of writes.
type tsHistory struct {
	tracks []*tsTrack
	writes []*tsWrite
	tables map[int]bool // explicit WriteTables() before a write
}

func (t *tsTrack) needsData() bool { return t.kind == "aac" || t.kind == "ac3" || t.kind == "eac3" }

func tsSize(r *rand.Rand, big int) int {
	switch r.IntN(12) {
	case 0:
		return 1
	case 1:
		return 1 + r.IntN(8)
	case 2: // packet boundaries
		return max(1, 184*(1+r.IntN(4))-r.IntN(60))
	case 3:
		return 140 + r.IntN(50)
	case 4:
		return 1 + r.IntN(5000)
	case 5:
		if big > 0 && r.IntN(6) == 0 {
			return pick(r, 65535, 65536, 65527, 65528, 65530, 65522, 65500+r.IntN(80), 65536+r.IntN(big), 131070+r.IntN(10))
		}
		return 1 + r.IntN(20000)
	default:
		return 1 + r.IntN(400)
	}
}

type tsOpts struct {
	kinds    []string
	tracks   int
	writes   int
	big      int
	size     func(r *rand.Rand) int
	plainPTS bool // small increasing timestamps
}

func genTSHistory(r *rand.Rand, o tsOpts) *tsHistory {
	h := &tsHistory{tables: map[int]bool{}}
	n := o.tracks
	if n == 0 {
		n = pick(r, 1, 1, 2, 2, 3, 4)
	}
	kinds := o.kinds
	if kinds == nil {
		kinds = tsKinds
		if o.tracks == 0 && r.IntN(16) == 0 { // many tracks (the writer puts their description in a single packet)
			n = 5 + r.IntN(24)
			kinds = []string{"h264", "h265", "mpeg4video", "mpeg1video", "aac", "latm", "mp3"}
		}
	}
	for range n {
		h.tracks = append(h.tracks, genTSTrack(r, kinds[r.IntN(len(kinds))]))
	}
	if n > 1 && r.IntN(5) == 0 { // PIDs that differ by a single bit
		base := 0x20 + r.IntN(0x1FDF)
		used := map[int]bool{0x1000: true, 0: true, base: true}
		h.tracks[0].track.PID = uint16(base)
		if base == 0x1000 {
			h.tracks[0].track.PID = 0
		}
		for _, t := range h.tracks[1:] {
			if p := base ^ 1<<r.IntN(13); p >= 0x20 && p < 0x1FFF && !used[p] {
				used[p] = true
				t.track.PID = uint16(p)
			}
		}
	}
	writes := o.writes
	if writes == 0 {
		writes = pick(r, 1, 3, 10, 30, 1+r.IntN(120))
	}
	size := o.size
	if size == nil {
		size = func(r *rand.Rand) int { return tsSize(r, o.big) }
	}
	// A unit whose PES packet has no declared length is lost by the demultiplexer when it precedes
	// a unit that fits in a single packet. This is a known finding, that has its own family.
	unbounded := make([]bool, n)
	base := make([]int64, n)
	b0 := pick[int64](r, 0, 90000, 1<<33-90000, 1<<32, 1<<33-1, int64(r.Uint64()>>30), r.Int64N(1<<33), -100000, 1<<40+5)
	if o.plainPTS {
		b0 = 90000 + r.Int64N(1<<31)
	}
	for i := range base {
		base[i] = b0 + r.Int64N(20000)
	}
	add := func(trk int, sz int) {
		t := h.tracks[trk]
		base[trk] += pick[int64](r, 1, 1800, 3000, 3600, 900+r.Int64N(9000))
		e := &tsWrite{trk: trk, pts: base[trk], dts: base[trk]}
		if t.kind == "h264" || t.kind == "h265" {
			switch r.IntN(4) {
			case 0:
				e.pts = e.dts + pick[int64](r, 1, 3600, 7200, r.Int64N(90000))
			case 1:
				if !o.plainPTS && r.IntN(10) == 0 {
					e.pts = e.dts + pick[int64](r, -1, -3600, 1<<33, 1<<32)
				}
			}
		}
		if !o.plainPTS && r.IntN(40) == 0 { // edges
			e.dts = pick[int64](r, 0, 1<<33, 1<<33-1, 1<<32, 1<<32-1, 1<<31)
			e.pts = e.dts
			if t.kind == "h264" || t.kind == "h265" {
				e.pts += pick[int64](r, 0, 1, 3600)
			}
		}
		if unbounded[trk] {
			sz = max(sz, 400)
		}
		if t.kind == "klv-async" { // without a declared length, the unit is delivered with a later timestamp
			sz = min(sz, 65500)
		}
		e.units = t.gen(r, max(1, sz))
		unbounded[trk] = !tsIsVideo[t.kind] && sz > 30000 && len(tsFramed(t, e.units)) > 65500
		h.writes = append(h.writes, e)
	}
	// what is needed to detect codec parameters has to come early
	for _, i := range r.Perm(n) {
		if h.tracks[i].needsData() {
			add(i, 1+r.IntN(300))
			if r.IntN(3) == 0 {
				add(r.IntN(n), 1+r.IntN(300))
			}
		}
	}
	total := 0
	for len(h.writes) < writes && total < 3<<20 {
		s := size(r)
		total += s
		add(r.IntN(n), s)
		if r.IntN(60) == 0 {
			h.tables[len(h.writes)-1] = true
		}
	}
	return h
}

// run writes the history.
func (h *tsHistory) run(c *Case, out io.Writer) {
	w := &mpegts.Writer{W: out}
	for _, t := range h.tracks {
		w.Tracks = append(w.Tracks, t.track)
	}
	if c.Idx%8 == 3 { // the other way of creating a writer
		c.Protect("NewWriter", func() { w = mpegts.NewWriter(out, w.Tracks) }) //nolint:staticcheck
	} else {
		c.Protect("Writer.Initialize", func() { c.NoErr(w.Initialize(), "Writer.Initialize") })
	}
	for i, e := range h.writes {
		if h.tables[i] {
			_, err := w.WriteTables()
			c.NoErr(err, "WriteTables")
		}
		t := h.tracks[e.trk]
		c.Protect("Write "+t.kind, func() { c.NoErr(t.write(w, e), "Write "+t.kind) })
	}
}

// tsRead is what a reader reported.
type tsRead struct {
	initErr error
	err     error
	tracks  []*mpegts.Track
	units   []*tsWrite // trk is the index of the track
	errs    []error
	keepLog bool
	skip    map[int]bool // tracks without callback
	log     []string     // units and errors
	calls   int
}

// readTS reads a stream until an error is returned.
func readTS(c *Case, src io.Reader, maxCalls int) *tsRead {
	o := &tsRead{}
	o.read(c, src, maxCalls)
	return o
}

func (o *tsRead) read(c *Case, src io.Reader, maxCalls int) {
	rd := &mpegts.Reader{R: src}
	if c.Idx%8 == 5 { // the other way of creating a reader
		c.Protect("NewReader", func() { rd, o.initErr = mpegts.NewReader(src) }) //nolint:staticcheck
	} else {
		c.Protect("Reader.Initialize", func() { o.initErr = rd.Initialize() })
	}
	if o.initErr != nil {
		return
	}
	o.tracks = rd.Tracks()
	for i, t := range o.tracks {
		c.Check(t != nil && t.Codec != nil, "track %d has no codec", i)
		if o.skip[i] {
			continue
		}
		tsSubscribe(rd, t, func(pts, dts int64, units [][]byte) error {
			u := &tsWrite{trk: i, pts: pts, dts: dts, units: units}
			o.units = append(o.units, u)
			if o.keepLog {
				o.log = append(o.log, fmt.Sprintf("track %d pts=%d dts=%d units=%x", i, pts, dts, units))
			}
			return nil
		})
	}
	rd.OnDecodeError(func(err error) {
		o.errs = append(o.errs, err)
		if o.keepLog {
			o.log = append(o.log, "error "+err.Error())
		}
	})
	c.Protect("Reader.Read", func() {
		for {
			o.calls++
			if maxCalls > 0 && o.calls > maxCalls {
				c.Failf("the stream did not end after %d calls to Read", o.calls)
			}
			err := rd.Read()
			if err != nil {
				o.err = err
				return
			}
		}
	})
}

func stripAUD(kind string, units [][]byte) [][]byte {
	if len(units) == 0 || len(units[0]) == 0 {
		return units
	}
	if kind == "h264" && units[0][0] == 9 || kind == "h265" && units[0][0] == 70 {
		return units[1:]
	}
	return units
}

// expected returns what a reader has to deliver for a track.
func (h *tsHistory) expected(trk int) []*tsWrite {
	var out []*tsWrite
	last := int64(-1)
	for _, e := range h.writes {
		k := h.tracks[e.trk].kind
		if k != "klv-async" {
			last = e.pts & mask33
		}
		if e.trk != trk {
			continue
		}
		x := &tsWrite{trk: trk, pts: e.pts & mask33, dts: e.dts & mask33, units: stripAUD(k, e.units)}
		if k == "klv-async" {
			if last < 0 {
				continue
			}
			x.pts, x.dts = last, last
		}
		if k != "h264" && k != "h265" {
			x.dts = x.pts
		}
		out = append(out, x)
	}
	return out
}

func sameUnit(a, b *tsWrite) bool {
	return a.pts == b.pts && a.dts == b.dts && equalList(a.units, b.units)
}

func (e *tsWrite) String() string {
	return fmt.Sprintf("pts=%d dts=%d units=%s", e.pts, e.dts, hexList(e.units))
}

var _ = errors.Is
var _ = bytes.Equal

type randT = rand.Rand

var sampleRateTable = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
