package main

import (
	"bytes"
	"encoding/binary"
	"math/rand/v2"
	"reflect"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
)

// ---- unit generators ----

// naluNoStartCode generates a NALU that is legal within Annex B: no embedded start
// code, no trailing zero.
func naluNoStartCode(r *rand.Rand, n int) []byte {
	if n == 0 {
		n = 1
	}
	b := payload(r, n)
	zeros := 0
	for i := range b {
		if zeros >= 2 && b[i] <= 2 {
			b[i] = 3
		}
		if b[i] == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	if b[n-1] == 0 {
		b[n-1] = 0x80
	}
	return b
}

func sizeDist(r *rand.Rand) int {
	switch r.IntN(10) {
	case 0:
		return 1
	case 1:
		return 1 + r.IntN(3)
	case 2:
		return 120 + r.IntN(16) // leb128 boundary
	case 3:
		return 250 + r.IntN(12)
	case 4:
		return 1 + r.IntN(3000)
	case 5:
		if r.IntN(10) == 0 {
			return 16380 + r.IntN(8)
		}
		return 1 + r.IntN(40)
	default:
		return 1 + r.IntN(40)
	}
}

// mutate changes a buffer in one of several ways.
func mutate(r *rand.Rand, b []byte) []byte {
	out := clone(b)
	if out == nil {
		out = []byte{}
	}
	for range 1 + r.IntN(3) {
		switch r.IntN(9) {
		case 0: // truncate
			if len(out) > 0 {
				out = out[:r.IntN(len(out))]
			}
		case 1: // bit flip
			if len(out) > 0 {
				out[r.IntN(len(out))] ^= 1 << uint(r.IntN(8))
			}
		case 2: // byte change
			if len(out) > 0 {
				out[r.IntN(len(out))] = pick(r, byte(0), 1, 2, 3, 0x7F, 0x80, 0xFE, 0xFF, byte(r.IntN(256)))
			}
		case 3: // insertion
			i := r.IntN(len(out) + 1)
			ins := payload(r, 1+r.IntN(6))
			out = append(out[:i:i], append(ins, out[i:]...)...)
		case 4: // deletion
			if len(out) > 0 {
				i := r.IntN(len(out))
				j := min(len(out), i+1+r.IntN(4))
				out = append(out[:i:i], out[j:]...)
			}
		case 5: // append
			out = append(out, payload(r, 1+r.IntN(8))...)
		case 6: // duplicate range
			if len(out) > 0 {
				i := r.IntN(len(out))
				j := min(len(out), i+1+r.IntN(32))
				out = append(out[:j:j], out[i:]...)
			}
		case 7: // saturate a range
			if len(out) > 0 {
				i := r.IntN(len(out))
				v := pick(r, byte(0), 0xFF, 0x55)
				for j := i; j < len(out) && j < i+1+r.IntN(8); j++ {
					out[j] = v
				}
			}
		case 8: // truncate near the end
			if n := len(out); n > 0 {
				out = out[:n-1-r.IntN(min(n, 3))]
			}
		}
	}
	return out
}

// ---- Annex B ----

type annexBResult struct {
	ok    bool
	units [][]byte
	size  int
}

// refAnnexB is an independent decoder; units are returned without trailing zeros, and
// units made only of zeros are dropped.
func refAnnexB(buf []byte) annexBResult {
	p := 0
	for p < len(buf) && buf[p] == 0 {
		p++
	}
	// the decoder requires the initial delimiter to be 3 or 4 bytes long
	if p >= len(buf) || buf[p] != 1 || (p != 2 && p != 3) {
		return annexBResult{}
	}
	p++
	var units [][]byte
	start := p
	i := p
	flush := func(end int) {
		u := buf[start:end]
		for len(u) > 0 && u[len(u)-1] == 0 {
			u = u[:len(u)-1]
		}
		if len(u) > 0 {
			units = append(units, u)
		}
	}
	for i < len(buf) {
		if i+2 < len(buf) && buf[i] == 0 && buf[i+1] == 0 && buf[i+2] == 1 {
			flush(i)
			i += 3
			start = i
		} else {
			i++
		}
	}
	flush(len(buf))
	size := 0
	for _, u := range units {
		size += len(u)
	}
	return annexBResult{ok: len(units) > 0 && len(units) <= h264.MaxNALUsPerAccessUnit, units: units, size: size}
}

func stripZeros(l [][]byte) [][]byte {
	var out [][]byte
	for _, u := range l {
		for len(u) > 0 && u[len(u)-1] == 0 {
			u = u[:len(u)-1]
		}
		if len(u) > 0 {
			out = append(out, u)
		}
	}
	return out
}

func checkAnnexBDecode(c *Case, buf []byte) {
	orig := clone(buf)
	c.Input("annexb", orig)
	want := refAnnexB(buf)
	var got h264.AnnexB
	err := got.Unmarshal(buf)
	c.Check(bytes.Equal(buf, orig), "input modified")
	if err != nil {
		// zero-only units may be counted as units by the decoder
		if want.ok && len(want.units) > h264.MaxNALUsPerAccessUnit-10 {
			return
		}
		c.Check(!want.ok, "well-formed Annex B unit with %d NALUs rejected: %v", len(want.units), err)
		c.Count("annexb_rejected", 1)
		return
	}
	norm := stripZeros(got)
	if !want.ok && len(want.units) == 0 && len(norm) == 0 && len(got) > 0 {
		// only zero-filled units: accepting or rejecting is not specified
		return
	}
	c.Check(want.ok, "malformed Annex B unit accepted: %d units", len(got))
	c.Check(equalList(norm, want.units), "units differ: got %s, want %s", hexList(norm), hexList(want.units))
	for _, u := range got {
		c.Check(len(u) > 0, "empty unit returned")
	}
	c.Count("annexb_accepted", 1)
}

func c14AnnexB(c *Case) {
	r := c.R
	n := 1 + r.IntN(8)
	if r.IntN(10) == 0 {
		n = 45 + r.IntN(6)
	}
	var units [][]byte
	for range n {
		units = append(units, naluNoStartCode(r, sizeDist(r)))
	}
	in := cloneList(units)
	enc, err := h264.AnnexB(in).Marshal()
	c.NoErr(err, "marshal")
	c.Check(equalList(in, units), "input modified")
	var want []byte
	for _, u := range units {
		want = append(want, 0, 0, 0, 1)
		want = append(want, u...)
	}
	c.Check(bytes.Equal(enc, want), "Annex B encoding differs")
	var dec h264.AnnexB
	dec = append(dec, []byte{9, 9}) // content is replaced
	err = dec.Unmarshal(enc)
	c.NoErr(err, "unmarshal")
	c.Check(equalList(dec, units), "round trip differs: got %s, want %s", hexList(dec), hexList(units))
	// mixed delimiters
	var mixed []byte
	for _, u := range units {
		if r.IntN(2) == 0 {
			mixed = append(mixed, 0)
		}
		mixed = append(mixed, 0, 0, 1)
		mixed = append(mixed, u...)
	}
	var dec2 h264.AnnexB
	err = dec2.Unmarshal(mixed)
	c.NoErr(err, "unmarshal of mixed delimiters")
	c.Check(equalList(dec2, units), "mixed delimiters: got %s, want %s", hexList(dec2), hexList(units))
	for range 3 {
		checkAnnexBDecode(c, mutate(r, pick(r, mixed, enc)))
	}
	checkAnnexBDecode(c, sparseBytes(r, r.IntN(40)))
	c.Count("units", n)
	c.Distinct("annexb", units)
	c.Sample("annexb %d units %s", n, hexList(units))
}

// ---- AVCC ----

func refAVCC(buf []byte) ([][]byte, bool) {
	var units [][]byte
	if len(buf) == 0 {
		return nil, false
	}
	for len(buf) > 0 {
		if len(buf) < 4 {
			return nil, false
		}
		l := binary.BigEndian.Uint32(buf)
		buf = buf[4:]
		if uint64(l) > uint64(len(buf)) {
			return nil, false
		}
		if l > 0 {
			units = append(units, buf[:l])
		}
		buf = buf[l:]
	}
	return units, len(units) > 0 && len(units) <= h264.MaxNALUsPerAccessUnit
}

func checkAVCCDecode(c *Case, buf []byte) {
	orig := clone(buf)
	c.Input("avcc", orig)
	want, ok := refAVCC(buf)
	var got h264.AVCC
	err := got.Unmarshal(buf)
	c.Check(bytes.Equal(buf, orig), "input modified")
	if ok {
		c.NoErr(err, "well-formed AVCC unit rejected")
		c.Check(equalList(got, want), "units differ: got %s, want %s", hexList(got), hexList(want))
		c.Count("avcc_accepted", 1)
	} else {
		c.Check(err != nil, "malformed AVCC unit accepted: %s", hexList(got))
		c.Count("avcc_rejected", 1)
	}
}

func c14AVCC(c *Case) {
	r := c.R
	n := 1 + r.IntN(8)
	if r.IntN(10) == 0 {
		n = 47 + r.IntN(6)
	}
	var units [][]byte
	for range n {
		units = append(units, payload(r, sizeDist(r)))
	}
	in := cloneList(units)
	enc, err := h264.AVCC(in).Marshal()
	c.NoErr(err, "marshal")
	c.Check(equalList(in, units), "input modified")
	var want []byte
	for _, u := range units {
		want = binary.BigEndian.AppendUint32(want, uint32(len(u)))
		want = append(want, u...)
	}
	c.Check(bytes.Equal(enc, want), "AVCC encoding differs")
	checkAVCCDecode(c, clone(enc))
	// with empty units in between, which are skipped
	var withEmpty []byte
	for _, u := range units {
		for range r.IntN(3) {
			withEmpty = append(withEmpty, 0, 0, 0, 0)
		}
		withEmpty = binary.BigEndian.AppendUint32(withEmpty, uint32(len(u)))
		withEmpty = append(withEmpty, u...)
	}
	for range r.IntN(3) {
		withEmpty = append(withEmpty, 0, 0, 0, 0)
	}
	checkAVCCDecode(c, withEmpty)
	for range 3 {
		checkAVCCDecode(c, mutate(r, pick(r, enc, withEmpty)))
	}
	checkAVCCDecode(c, sparseBytes(r, r.IntN(30)))
	c.Count("units", n)
	c.Distinct("avcc", units)
	c.Sample("avcc %d units %s", n, hexList(units))
}

// ---- units of megabytes ----

func c14Large(c *Case) {
	r := c.R
	// sizes are around powers of two up to the documented limit on the size of an access unit
	big := pick(r, 1<<16, 1<<20, 1<<21, 1<<22, 7<<20) + r.IntN(9) - 4
	units := [][]byte{naluNoStartCode(r, 1+r.IntN(30)), nil, naluNoStartCode(r, 1+r.IntN(300)), naluNoStartCode(r, 1)}
	units[1] = append(make([]byte, 0, big+r.IntN(64)), naluNoStartCode(r, big)...)
	if flip(r) {
		units = units[1:]
	}
	if flip(r) {
		units = units[:len(units)-2]
	}
	if r.IntN(3) == 0 { // alone
		for len(units[0]) != big {
			units = units[1:]
		}
		units = units[:1]
	}
	keep := make([][]byte, len(units))
	for i, u := range units {
		keep[i] = clone(u)
	}
	var wantB, wantC []byte
	var obus, wantO [][]byte
	var wantA []byte
	for _, u := range units {
		wantB = append(append(wantB, 0, 0, 0, 1), u...)
		wantC = append(binary.BigEndian.AppendUint32(wantC, uint32(len(u))), u...)
		obus = append(obus, append([]byte{6 << 3}, u...))
		wantO = append(wantO, append([]byte{6 << 3}, u...))
		wantA = append(wantA, 6<<3|2)
		wantA = append(wantA, lebEnc(uint64(len(u)))...)
		wantA = append(wantA, u...)
	}
	c.Input("annexb", wantB)
	var b h264.AnnexB
	c.NoErr(b.Unmarshal(wantB), "Annex B with a unit of megabytes")
	c.Check(equalList(b, units), "Annex B with a unit of %d bytes: units differ: got %s, want %s", big, hexList(b), hexList(units))
	enc, err := h264.AnnexB(units).Marshal()
	c.NoErr(err, "Annex B Marshal")
	c.Check(bytes.Equal(enc, wantB), "Annex B encoding of a unit of %d bytes differs", big)
	var a h264.AVCC
	c.NoErr(a.Unmarshal(wantC), "AVCC with a unit of megabytes")
	c.Check(equalList(a, units), "AVCC with a unit of %d bytes: units differ: got %s, want %s", big, hexList(a), hexList(units))
	enc, err = h264.AVCC(units).Marshal()
	c.NoErr(err, "AVCC Marshal")
	c.Check(bytes.Equal(enc, wantC), "AVCC encoding of a unit of %d bytes differs", big)
	var o av1.Bitstream
	c.NoErr(o.Unmarshal(wantA), "AV1 with an OBU of megabytes")
	c.Check(equalList(o, wantO), "AV1 with an OBU of %d bytes: OBUs differ: got %s, want %s", big, hexList(o), hexList(wantO))
	enc, err = av1.Bitstream(obus).Marshal()
	c.NoErr(err, "AV1 Marshal")
	c.Check(bytes.Equal(enc, wantA), "AV1 encoding of an OBU of %d bytes differs", big)
	c.Check(equalList(units, keep), "the units have been modified while they were encoded")
	// encoders have no limit, and the length field has 32 bits
	l := 1<<24 + r.IntN(1<<20)
	huge := make([]byte, l, l+r.IntN(64))
	huge[0], huge[len(huge)-1] = 0x65, 0x77
	enc, err = h264.AVCC([][]byte{huge}).Marshal()
	if err == nil {
		c.Check(len(enc) == len(huge)+4 && binary.BigEndian.Uint32(enc) == uint32(len(huge)) && bytes.Equal(enc[4:], huge),
			"AVCC encoding of a unit of %d bytes differs: %s", len(huge), hexShort(enc))
	}
	c.Count("large", 1)
	c.Distinct("large", big, len(units))
	c.Sample("unit of %d bytes among %d", big, len(units))
}

// ---- AV1 ----

func refLEB(buf []byte) (uint64, int, bool) {
	var v uint64
	for i := 0; i < 8; i++ {
		if i >= len(buf) {
			return 0, 0, false
		}
		v |= uint64(buf[i]&0x7F) << uint(7*i)
		if buf[i]&0x80 == 0 {
			return v, i + 1, v <= 0xFFFFFFFF
		}
	}
	return 0, 0, false
}

func lebEnc(v uint64) []byte {
	var out []byte
	for {
		b := byte(v & 0x7F)
		v >>= 7
		if v != 0 {
			out = append(out, b|0x80)
		} else {
			return append(out, b)
		}
	}
}

func refAV1(buf []byte) ([][]byte, bool) {
	var units [][]byte
	for {
		if len(buf) < 1 || buf[0]&0x80 != 0 || buf[0]&0x04 != 0 || buf[0]&0x02 == 0 {
			return nil, false
		}
		size, n, ok := refLEB(buf[1:])
		if !ok || size > uint64(len(buf)-1-n) {
			return nil, false
		}
		u := append([]byte{buf[0] &^ 2}, buf[1+n:1+n+int(size)]...)
		units = append(units, u)
		buf = buf[1+n+int(size):]
		if len(buf) == 0 {
			return units, true
		}
	}
}

func checkAV1Decode(c *Case, buf []byte) {
	orig := clone(buf)
	c.Input("av1", orig)
	want, ok := refAV1(buf)
	var got av1.Bitstream
	err := got.Unmarshal(buf)
	c.Check(bytes.Equal(buf, orig), "input modified")
	if ok {
		c.NoErr(err, "well-formed AV1 bitstream rejected")
		c.Check(equalList(got, want), "OBUs differ: got %s, want %s", hexList(got), hexList(want))
		c.Count("av1_accepted", 1)
	} else {
		c.Check(err != nil, "malformed AV1 bitstream accepted: %s", hexList(got))
		c.Count("av1_rejected", 1)
	}
}

func c14AV1(c *Case) {
	r := c.R
	n := 1 + r.IntN(10)
	var units, in [][]byte
	var want []byte
	for range n {
		u := payload(r, sizeDist(r))
		u[0] &= 0b01111001 // no forbidden bit, no extension, no size
		units = append(units, u)
		sz := lebEnc(uint64(len(u) - 1))
		withSize := append([]byte{u[0] | 2}, append(clone(sz), u[1:]...)...)
		want = append(want, withSize...)
		if r.IntN(4) == 0 {
			in = append(in, withSize) // units that already hold their size are kept
		} else {
			in = append(in, u)
		}
	}
	in2 := cloneList(in)
	enc, err := av1.Bitstream(in2).Marshal()
	c.NoErr(err, "marshal")
	c.Check(equalList(in, in2), "input modified")
	c.Check(bytes.Equal(enc, want), "AV1 bitstream encoding differs: got %s want %s", hexShort(enc), hexShort(want))
	checkAV1Decode(c, enc)
	// non-minimal sizes
	var nm []byte
	for _, u := range units {
		nm = append(nm, u[0]|2)
		sz := lebEnc(uint64(len(u) - 1))
		pad := r.IntN(8 - len(sz) + 1)
		for range pad {
			sz[len(sz)-1] |= 0x80
			sz = append(sz, 0)
		}
		nm = append(nm, sz...)
		nm = append(nm, u[1:]...)
	}
	checkAV1Decode(c, nm)
	for range 3 {
		checkAV1Decode(c, mutate(r, pick(r, enc, nm)))
	}
	// marshal must reject units without a valid header
	bad := cloneList(units)
	i := r.IntN(n)
	switch r.IntN(3) {
	case 0:
		bad[i] = []byte{}
	case 1:
		bad[i][0] |= 0x80
	default:
		bad[i][0] |= 0x04
	}
	_, err = av1.Bitstream(bad).Marshal()
	c.Check(err != nil, "invalid OBU accepted by marshal")
	c.Count("units", n)
	c.Distinct("av1", units)
	c.Sample("av1 %d units %s", n, hexList(units))
}

// ---- ADTS ----

var refSampleRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

type adtsUnit struct {
	profile, srIdx, ch int
	au                 []byte
}

func adtsEncode(r *rand.Rand, units []adtsUnit, exact bool) []byte {
	var out []byte
	for _, u := range units {
		w := &bitWriter{}
		w.u(12, 0xFFF)
		if exact {
			w.u(1, 0)
		} else {
			w.u(1, uint64(r.IntN(2))) // ID: MPEG-4 or MPEG-2
		}
		w.u(2, 0)
		w.u(1, 1)
		w.u(2, uint64(u.profile))
		w.u(4, uint64(u.srIdx))
		if exact {
			w.u(1, 0)
		} else {
			w.u(1, uint64(r.IntN(2)))
		}
		w.u(3, uint64(u.ch))
		if exact {
			w.u(4, 0)
		} else {
			w.u(4, uint64(r.IntN(16)))
		}
		w.u(13, uint64(len(u.au)+7))
		if exact {
			w.u(11, 0x7FF)
		} else {
			w.u(11, uint64(r.IntN(2048)))
		}
		w.u(2, 0)
		out = append(out, w.out()...)
		out = append(out, u.au...)
	}
	return out
}

func refADTS(buf []byte) ([]adtsUnit, bool) {
	var out []adtsUnit
	for {
		if len(buf) < 8 {
			return nil, false
		}
		bb := toBits(buf[:7])
		g := func(o, n int) int { return int(bitsVal(bb[o : o+n])) }
		if g(0, 12) != 0xFFF || g(15, 1) != 1 {
			return nil, false
		}
		u := adtsUnit{profile: g(16, 2), srIdx: g(18, 4), ch: g(23, 3)}
		if u.srIdx > 12 {
			return nil, false
		}
		l := g(30, 13)
		if l < 8 || l-7 > mpeg4audio.MaxAccessUnitSize || g(54, 2) != 0 || len(buf) < l {
			return nil, false
		}
		u.au = buf[7:l]
		out = append(out, u)
		buf = buf[l:]
		if len(buf) == 0 {
			return out, true
		}
	}
}

func checkADTSDecode(c *Case, buf []byte) {
	orig := clone(buf)
	c.Input("adts", orig)
	want, ok := refADTS(buf)
	var got mpeg4audio.ADTSPackets
	err := got.Unmarshal(buf)
	c.Check(bytes.Equal(buf, orig), "input modified")
	if !ok {
		c.Check(err != nil, "malformed ADTS stream accepted: %d packets", len(got))
		c.Count("adts_rejected", 1)
		return
	}
	c.NoErr(err, "well-formed ADTS stream rejected")
	c.Check(len(got) == len(want), "%d packets, want %d", len(got), len(want))
	for i, g := range got {
		w := want[i]
		chc := w.ch
		if w.ch == 7 {
			chc = 8
		}
		c.Check(int(g.Type) == w.profile+1 && g.SampleRate == refSampleRates[w.srIdx] && int(g.ChannelConfig) == w.ch &&
			g.ChannelCount == chc && bytes.Equal(g.AU, w.au), "packet %d differs: %+v, want %+v", i, *g, w)
	}
	c.Count("adts_accepted", 1)
}

func c14ADTS(c *Case) {
	r := c.R
	n := 1 + r.IntN(6)
	many := r.IntN(150) == 0
	if many {
		n = pick(r, 33, 65, 129, 257, 1025, 2+r.IntN(1500))
	}
	var units []adtsUnit
	var in mpeg4audio.ADTSPackets
	for range n {
		sz := sizeDist(r)
		if many {
			sz = 1 + r.IntN(30)
		}
		if r.IntN(12) == 0 {
			sz = pick(r, 5120, 5119, 2041, 2040, 2042, 4089, 5000+r.IntN(121))
		}
		if sz > 5120 {
			sz = 5120
		}
		u := adtsUnit{r.IntN(4), r.IntN(13), r.IntN(8), payload(r, sz)}
		units = append(units, u)
		p := &mpeg4audio.ADTSPacket{
			Type: mpeg4audio.ObjectType(u.profile + 1), SampleRate: refSampleRates[u.srIdx],
			ChannelConfig: uint8(u.ch), AU: clone(u.au),
		}
		if r.IntN(3) == 0 && u.ch != 0 {
			// deprecated way
			p.ChannelConfig = 0
			p.ChannelCount = u.ch
			if u.ch == 7 {
				p.ChannelCount = 8
			}
		}
		in = append(in, p)
	}
	enc, err := in.Marshal()
	c.NoErr(err, "marshal")
	for i := range in {
		c.Check(bytes.Equal(in[i].AU, units[i].au), "input modified")
	}
	want := adtsEncode(r, units, true)
	c.Check(bytes.Equal(enc, want), "ADTS encoding differs: got %s want %s", hexShort(enc), hexShort(want))
	checkADTSDecode(c, enc)
	loose := adtsEncode(r, units, false)
	checkADTSDecode(c, loose)
	for range 3 {
		checkADTSDecode(c, mutate(r, pick(r, enc, loose)))
	}
	// a unit that no packet can hold, among good ones
	odd := append([]adtsUnit{}, units...)
	k := r.IntN(len(odd))
	switch r.IntN(4) {
	case 0, 1:
		odd[k].au = nil
		if r.IntN(2) == 0 {
			odd = append(odd, adtsUnit{odd[k].profile, odd[k].srIdx, odd[k].ch, payload(r, 1+r.IntN(10))})
		}
		c.Count("adts_empty_units", 1)
	case 2:
		odd[k].au = payload(r, pick(r, 5121, 5122, 8184, 5121+r.IntN(3000)))
		c.Count("adts_oversized_units", 1)
	default:
		odd[k].srIdx = 13 + r.IntN(3)
	}
	checkADTSDecode(c, adtsEncode(r, odd, r.IntN(2) == 0))
	// invalid values are refused
	bad := &mpeg4audio.ADTSPacket{Type: 2, SampleRate: 44100, ChannelConfig: 2, AU: []byte{1, 2, 3}}
	switch r.IntN(4) {
	case 3: // does not fit into the 13 bits of the frame length
		bad.AU = make([]byte, pick(r, 8185, 8186, 8192, 16384, 8185+r.IntN(70000)))
		c.Count("adts_too_long", 1)
	case 0:
		bad.Type = pick(r, mpeg4audio.ObjectType(0), 5, 29, 6)
	case 1:
		bad.SampleRate = pick(r, 0, 44101, 7349, -1, 96001)
	default:
		bad.ChannelConfig = 0
		bad.ChannelCount = pick(r, 7, 9, -1, 100)
	}
	_, err = mpeg4audio.ADTSPackets{bad}.Marshal()
	c.Check(err != nil, "invalid ADTS packet accepted: %+v", *bad)
	c.Count("units", n)
	c.Distinct("adts", enc)
	c.Sample("adts %d packets, %s", n, hexShort(enc))
}

// deepEq is reflect.DeepEqual, except that nil and empty slices are equal.
func deepEq(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return va.IsValid() == vb.IsValid()
	}
	return deepEqV(va, vb)
}

func deepEqV(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		for i := range a.Len() {
			if !deepEqV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := range a.Len() {
			if !deepEqV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEqV(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := range a.NumField() {
			if !deepEqV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Func, reflect.Map, reflect.Chan:
		return reflect.DeepEqual(a.Interface(), b.Interface())
	default:
		return a.Equal(b)
	}
}

func init() {
	register(&Property{
		ID: "C14",
		Rule: "random unit lists (sizes 1..20000 with boundary sizes, contents dense in zeros, start codes and sync bytes) encoded and compared byte by byte with a reference encoder, decoded, " +
			"re-encoded with alternative legal forms, plus mutated encodings compared with an independent reference decoder; distinct by unit list",
		Families: []Family{
			{"annexb", 15000, 1000000, c14AnnexB},
			{"avcc", 15000, 1000000, c14AVCC},
			{"av1", 15000, 1000000, c14AV1},
			{"adts", 15000, 1000000, c14ADTS},
			{"large", 24, 1000, c14Large},
		},
		Require: []string{
			"large", "annexb_accepted", "annexb_rejected", "avcc_accepted", "avcc_rejected",
			"av1_accepted", "av1_rejected", "adts_accepted", "adts_rejected", "adts_too_long",
		},
	})
}
