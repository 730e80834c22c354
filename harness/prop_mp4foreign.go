package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

// ---- sample entries as other writers lay them out ----

// longDesc writes a MPEG-4 descriptor, with a size in 1 to 4 bytes.
func longDesc(r *rand.Rand, tag byte, body []byte) []byte {
	n := len(body)
	k := pick(r, 1, 1, 2, 3, 4, 4)
	for k < 4 && n >= 1<<(7*k) {
		k++
	}
	out := []byte{tag}
	for i := k - 1; i >= 0; i-- {
		b := byte(n>>(7*i)) & 0x7F
		if i > 0 {
			b |= 0x80
		}
		out = append(out, b)
	}
	return append(out, body...)
}

func foreignEsds(r *rand.Rand, oti, streamType byte, spec []byte) []byte {
	dc := []byte{oti, streamType<<2 | byte(r.IntN(2))<<1 | 1}
	dc = append(dc, randBytes(r, 11)...)
	if spec != nil {
		dc = append(dc, longDesc(r, 5, spec)...)
		if r.IntN(4) == 0 {
			dc = append(dc, longDesc(r, 0x14, randBytes(r, 1))...)
		}
	}
	es := append(randBytes(r, 2), byte(r.IntN(32))) // no dependency, no URL, no clock reference
	if r.IntN(6) == 0 {
		es[2] |= 0x80
		es = append(es, randBytes(r, 2)...)
	}
	if r.IntN(6) == 0 {
		es[2] |= 0x20
		es = append(es, randBytes(r, 2)...)
	}
	es = append(es, longDesc(r, 4, dc)...)
	if r.IntN(5) != 0 {
		es = append(es, longDesc(r, 6, []byte{2})...)
	}
	return append([]byte{0, 0, 0, 0}, longDesc(r, 3, es)...)
}

func obuWithSize(r *rand.Rand, typ byte, body []byte) []byte {
	out := []byte{typ<<3 | 2}
	n := len(body)
	k := 1
	for n >= 1<<(7*k) {
		k++
	}
	if r.IntN(4) == 0 {
		k = min(k+1+r.IntN(3), 8) // not minimal
	}
	for i := range k {
		b := byte(n>>(7*i)) & 0x7F
		if i < k-1 {
			b |= 0x80
		}
		out = append(out, b)
	}
	return append(out, body...)
}

func withLen16(b []byte) []byte {
	return append([]byte{byte(len(b) >> 8), byte(len(b))}, b...)
}

// foreignConfig returns the type of the sample entry and its configuration box.
func foreignConfig(c *Case, r *rand.Rand, o *genCodecOut) (entry string, conf []byte) {
	switch k := o.codec.(type) {
	case *codecs.H264:
		b := []byte{1, k.SPS[1], k.SPS[2], k.SPS[3], 0xFC | pick[byte](r, 3, 3, 1, 0), 0xE1}
		b = append(b, withLen16(k.SPS)...)
		b = append(b, 1)
		b = append(b, withLen16(k.PPS)...)
		switch k.SPS[1] {
		case 100, 110, 122, 144:
			b = append(b, 0xFC|byte(o.avc.ChromaFormatIdc)&3, 0xF8|byte(o.avc.BitDepthLumaMinus8)&7, 0xF8|byte(o.avc.BitDepthChromaMinus8)&7)
			if r.IntN(3) == 0 {
				b = append(b, 1)
				b = append(b, withLen16(append([]byte{0x6D}, randBytes(r, 1+r.IntN(9))...))...)
			} else {
				b = append(b, 0)
			}
		}
		return "avc1", boxBytes("avcC", b)
	case *codecs.H265:
		b := append([]byte{1}, randBytes(r, 12)...)
		b = append(b, 0xF0|byte(r.IntN(16)), byte(r.IntN(256)), 0xFC|byte(r.IntN(4)), 0xFC|byte(o.hevc.ChromaFormatIdc),
			0xF8|byte(o.hevc.BitDepthLumaMinus8), 0xF8|byte(o.hevc.BitDepthChromaMinus8), byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(64))<<2|pick[byte](r, 3, 3, 1))
		type arr struct {
			typ byte
			n   [][]byte
		}
		arrs := []arr{{32, [][]byte{k.VPS}}, {33, [][]byte{k.SPS}}, {34, [][]byte{k.PPS}}}
		if r.IntN(2) == 0 {
			r.Shuffle(len(arrs), func(i, j int) { arrs[i], arrs[j] = arrs[j], arrs[i] })
			c.Count("hvcc_orders", 1)
		}
		for range r.IntN(3) {
			x := arr{typ: pick[byte](r, 39, 40)}
			for range r.IntN(3) {
				x.n = append(x.n, append([]byte{x.typ << 1, 1}, randBytes(r, 1+r.IntN(20))...))
			}
			at := r.IntN(len(arrs) + 1)
			arrs = append(arrs[:at], append([]arr{x}, arrs[at:]...)...)
			c.Count("hvcc_sei_arrays", 1)
		}
		b = append(b, byte(len(arrs)))
		for _, x := range arrs {
			b = append(b, byte(r.IntN(2))<<7|x.typ, 0, byte(len(x.n)))
			for _, n := range x.n {
				b = append(b, withLen16(n)...)
			}
		}
		return pick(r, "hvc1", "hev1"), boxBytes("hvcC", b)
	case *codecs.AV1:
		s := o.av1
		bit := func(v bool, n int) byte {
			if v {
				return 1 << n
			}
			return 0
		}
		b := []byte{0x81, s.SeqProfile<<5 | s.SeqLevelIdx[0], bit(s.SeqTier[0], 7) | bit(s.ColorConfig.HighBitDepth, 6) | bit(s.ColorConfig.TwelveBit, 5) |
			bit(s.ColorConfig.MonoChrome, 4) | bit(s.ColorConfig.SubsamplingX, 3) | bit(s.ColorConfig.SubsamplingY, 2) | byte(s.ColorConfig.ChromaSamplePosition)&3, 0}
		if r.IntN(3) == 0 {
			b[3] = 0x10 | byte(r.IntN(16)) // initial presentation delay
		}
		b = append(b, obuWithSize(r, 1, k.SequenceHeader[1:])...)
		for range r.IntN(3) {
			b = append(b, obuWithSize(r, 5, randBytes(r, 1+r.IntN(30)))...)
			c.Count("av1c_metadata", 1)
		}
		return "av01", boxBytes("av1C", b)
	case *codecs.VP9:
		b := []byte{1, 0, 0, 0, k.Profile, byte(r.IntN(63)), k.BitDepth<<4 | k.ChromaSubsampling<<1, pick[byte](r, 1, 2, 9), pick[byte](r, 1, 2, 16), pick[byte](r, 0, 1, 2, 9), 0, 0}
		if k.ColorRange {
			b[6] |= 1
		}
		return "vp09", boxBytes("vpcC", b)
	case *codecs.MPEG4Video:
		return "mp4v", boxBytes("esds", foreignEsds(r, 0x20, 4, k.Config))
	case *codecs.MPEG1Video:
		return "mp4v", boxBytes("esds", foreignEsds(r, 0x61, 4, k.Config))
	case *codecs.MJPEG:
		return "mp4v", boxBytes("esds", foreignEsds(r, 0x6C, 4, nil))
	case *codecs.MPEG4Audio:
		spec, err := k.Config.Marshal()
		c.NoErr(err, "config")
		return "mp4a", boxBytes("esds", foreignEsds(r, 0x40, 5, spec))
	case *codecs.MPEG1Audio:
		return "mp4a", boxBytes("esds", foreignEsds(r, 0x6B, 5, nil))
	case *codecs.Opus:
		b := append([]byte{0, byte(k.ChannelCount)}, randBytes(r, 8)...)
		if k.ChannelCount <= 2 && r.IntN(2) == 0 {
			b = append(b, 0)
		} else {
			n := max(1, k.ChannelCount/2)
			b = append(b, pick[byte](r, 1, 255), byte(n), byte(k.ChannelCount-n))
			for i := range k.ChannelCount {
				b = append(b, byte(i))
			}
		}
		return "Opus", boxBytes("dOps", b)
	case *codecs.FLAC:
		si, err := k.StreamInfo.Marshal()
		c.NoErr(err, "stream info")
		b := []byte{0, 0, 0, 0, 0x80, 0, 0, 34}
		b = append(b, si...)
		if n := r.IntN(3); n > 0 {
			b[4] = 0
			for i := range n {
				x := randBytes(r, 4+r.IntN(60))
				typ := pick[byte](r, 1, 4)
				if i == n-1 {
					typ |= 0x80
				}
				b = append(b, typ, 0, 0, byte(len(x)))
				b = append(b, x...)
			}
			c.Count("flac_more_blocks", 1)
		}
		return "fLaC", boxBytes("dfLa", b)
	case *codecs.AC3:
		w := &bitWriter{}
		w.u(2, uint64(k.Fscod))
		w.u(5, uint64(k.Bsid))
		w.u(3, uint64(k.Bsmod))
		w.u(3, uint64(k.Acmod))
		w.flag(k.LfeOn)
		w.u(5, uint64(k.BitRateCode))
		w.u(5, 0)
		return "ac-3", boxBytes("dac3", w.out())
	case *codecs.EAC3:
		w := &bitWriter{}
		w.u(13, uint64(k.DataRate))
		w.u(3, 0)
		w.u(2, uint64(r.IntN(3)))
		w.u(5, 16)
		w.u(1, 0)
		w.flag(k.Asvc)
		w.u(3, uint64(k.Bsmod))
		w.u(3, uint64(k.Acmod))
		w.flag(k.LfeOn)
		w.u(3, 0)
		w.u(4, uint64(k.NumDepSub))
		if k.NumDepSub > 0 {
			w.u(9, uint64(k.ChanLoc))
		} else {
			w.u(1, 0)
		}
		b := w.out()
		if r.IntN(3) == 0 { // extension of type A (Dolby Atmos)
			b = append(b, 1, byte(1+r.IntN(16)))
			c.Count("dec3_extensions", 1)
		}
		return "ec-3", boxBytes("dec3", b)
	case *codecs.LPCM:
		b := []byte{0, 0, 0, 0, 0, byte(k.BitDepth)}
		if k.LittleEndian {
			b[4] = 1
		}
		return "ipcm", boxBytes("pcmC", b)
	}
	panic("unknown codec")
}

// foreignEntry returns a sample entry with the same codec, and the fields that do not matter changed.
func foreignEntry(c *Case, r *rand.Rand, o *genCodecOut, fixed []byte) []byte {
	b := clone(fixed)
	typ, conf := foreignConfig(c, r, o)
	if len(b) == 78 { // video
		copy(b[28:36], randBytes(r, 8)) // resolution
		copy(b[42:74], append([]byte{byte(r.IntN(32))}, randBytes(r, 31)...))
		copy(b[74:76], []byte{0, pick[byte](r, 24, 32)})
	} else if _, ok := o.codec.(*codecs.LPCM); !ok {
		copy(b[18:20], []byte{0, pick[byte](r, 16, 8, 24)}) // sample size
	}
	if _, ok := o.codec.(*codecs.MPEG4Audio); ok && r.IntN(2) == 0 { // what matters is in the configuration
		copy(b[16:18], []byte{0, 2})
		copy(b[24:28], pick(r, []byte{0, 0, 0, 0}, []byte{0xAC, 0x44, 0, 0}))
	}
	extra := func() []byte {
		switch r.IntN(5) {
		case 0:
			return boxBytes("btrt", randBytes(r, 12))
		case 1:
			return boxBytes("pasp", []byte{0, 0, 0, byte(1 + r.IntN(9)), 0, 0, 0, 1})
		case 2:
			return boxBytes("colr", append([]byte("nclx"), 0, 1, 0, 1, 0, 1, 0x80))
		case 3:
			return boxBytes("zzzz", randBytes(r, r.IntN(20)))
		default:
			return boxBytes("free", randBytes(r, r.IntN(20)))
		}
	}
	for range r.IntN(3) {
		b = append(b, extra()...)
	}
	if r.IntN(8) == 0 {
		conf = box64Bytes(string(conf[4:8]), conf[8:])
	}
	b = append(b, conf...)
	for range r.IntN(3) {
		b = append(b, extra()...)
	}
	return boxBytes(typ, b)
}

// c10Foreign: initialisation segments by others.
func c10Foreign(c *Case) {
	r := c.R
	in, outs := genInit(r, c.Idx%codecKinds)
	in.UserData = nil
	if r.IntN(3) == 0 {
		in.UserData = genUserData(r)
	}
	buf, err := marshalInit(*in, true)
	c.NoErr(err, "Init.Marshal")
	boxes, err := walkBoxes(buf, 0, len(buf), "")
	c.NoErr(err, "box tree")
	moov := rootOf(boxes).one("moov")
	unknown := func() []byte {
		switch r.IntN(6) {
		case 0:
			return boxBytes("zzzz", randBytes(r, r.IntN(30)))
		case 1:
			return boxBytes("free", randBytes(r, r.IntN(30)))
		}
		return nil
	}
	stsdLast := false
	trak := func(k int, x *mbox, unsupported bool) []byte {
		var entry []byte
		se := x.one("mdia", "minf", "stbl", "stsd").children[0]
		if unsupported {
			entry = boxBytes("c608", append([]byte{0, 0, 0, 0, 0, 0, 0, 1}, randBytes(r, r.IntN(2)*8)...)[:8])
		} else {
			entry = foreignEntry(c, r, outs[k], se.entry)
		}
		tables := [][]byte{
			boxBytes("stsd", append([]byte{0, 0, 0, 0, 0, 0, 0, 1}, entry...)), boxBytes("stts", make([]byte, 8)), boxBytes("stsc", make([]byte, 8)),
			boxBytes("stsz", make([]byte, 12)), boxBytes("stco", make([]byte, 8)),
		}
		if r.IntN(3) == 0 {
			tables = append(tables, boxBytes("sgpd", append([]byte{1, 0, 0, 0}, append([]byte("roll"), 0, 0, 0, 2, 0, 0, 0, 1, 0xFF, 0xFF)...)))
		}
		if r.IntN(3) == 0 {
			r.Shuffle(len(tables), func(i, j int) { tables[i], tables[j] = tables[j], tables[i] })
		}
		stsdLast = string(tables[len(tables)-1][4:8]) == "stsd"
		minf := [][]byte{boxBytes("dinf", boxBytes("dref", append([]byte{0, 0, 0, 0, 0, 0, 0, 1}, boxBytes("url ", []byte{0, 0, 0, 1})...)))}
		if len(se.entry) == 78 {
			minf = append(minf, boxBytes("vmhd", append([]byte{0, 0, 0, 1}, make([]byte, 8)...)))
		} else {
			minf = append(minf, boxBytes("smhd", make([]byte, 8)))
		}
		minf = append(minf, boxBytes("stbl", bytes.Join(tables, nil)))
		if r.IntN(3) == 0 {
			r.Shuffle(len(minf), func(i, j int) { minf[i], minf[j] = minf[j], minf[i] })
			stsdLast = stsdLast && string(minf[len(minf)-1][4:8]) == "stbl"
		}
		hdlr := "soun"
		if len(se.entry) == 78 {
			hdlr = "vide"
		}
		name := pick(r, "\x00", "Handler\x00", "GPAC ISO Video Handler\x00")
		h := boxBytes("hdlr", append(append(make([]byte, 8), hdlr...), append(make([]byte, 12), name...)...))
		mdhd := x.one("mdia", "mdhd").raw
		if r.IntN(2) == 0 { // 64-bit times
			mdhd = append(append(append(u32b(1<<24), randBytes(r, 16)...), mdhd[12:16]...), append(make([]byte, 8), mdhd[20:]...)...)
		} else {
			mdhd = append(append(make([]byte, 4), randBytes(r, 8)...), mdhd[12:]...)
		}
		m := append(boxBytes("mdhd", mdhd), h...)
		m = append(m, unknown()...)
		m = append(m, boxBytes("minf", bytes.Join(minf, nil))...)
		if u := unknown(); u != nil {
			m = append(m, u...)
			stsdLast = false
		}
		tk := x.one("tkhd").raw
		if r.IntN(2) == 0 {
			v := append([]byte{1}, tk[1:4]...)
			v = append(v, randBytes(r, 16)...)
			v = append(v, tk[12:20]...)
			v = append(v, 0, 0, 0, 0)
			tk = append(v, tk[20:]...)
		}
		t := boxBytes("tkhd", tk)
		t = append(t, unknown()...)
		if r.IntN(3) == 0 {
			t = append(t, boxBytes("edts", boxBytes("elst", append(make([]byte, 4), u32b(1, 0, uint32(r.IntN(5000)), 0x10000)...)))...)
		}
		t = append(t, boxBytes("mdia", m)...)
		if u := unknown(); u != nil {
			t = append(t, u...)
			stsdLast = false
		}
		return boxBytes("trak", t)
	}
	// movie
	mvhd := moov.one("mvhd").raw
	if r.IntN(2) == 0 {
		v := append(u32b(1<<24), make([]byte, 16)...)
		v = append(v, mvhd[12:16]...)
		v = append(v, make([]byte, 8)...)
		mvhd = append(v, mvhd[20:]...)
	}
	var items [][]byte
	var kinds []string
	put := func(kind string, b []byte) { items, kinds = append(items, b), append(kinds, kind) }
	mv := mboxBytes(moov.one("mvex"))
	if r.IntN(3) == 0 {
		mv = boxBytes("mvex", append(boxBytes("mehd", make([]byte, 8)), mv[8:]...))
	}
	var ud []byte
	for _, x := range moov.all("udta") {
		ud = mboxBytes(x)
	}
	mvexAt, udAt := len(in.Tracks), len(in.Tracks)
	if r.IntN(3) == 0 {
		mvexAt = r.IntN(len(in.Tracks) + 1)
	}
	if r.IntN(2) == 0 {
		udAt = r.IntN(len(in.Tracks) + 1)
	}
	for k := 0; k <= len(in.Tracks); k++ {
		if r.IntN(4) == 0 {
			if u := unknown(); u != nil {
				put("unknown", u)
			}
		}
		if ud != nil && k == udAt {
			put("udta", ud)
		}
		if k == mvexAt {
			put("mvex", mv)
		}
		if r.IntN(8) == 0 {
			put("unsupported", trak(0, moov.all("trak")[r.IntN(len(in.Tracks))], true))
			c.Count("unsupported_tracks", 1)
			stsdLast = false
		}
		if k < len(in.Tracks) {
			put("trak", trak(k, moov.all("trak")[k], false))
		}
	}
	body := boxBytes("mvhd", mvhd)
	for _, x := range items {
		body = append(body, x...)
	}
	m := boxBytes("moov", body)
	if r.IntN(10) == 0 {
		m = box64Bytes("moov", body)
	}
	file := boxBytes("ftyp", append(append([]byte(pick(r, "iso5", "isom", "mp42", "cmfc", "dash")), randBytes(r, 4)...), "iso6mp41"...))
	if u := unknown(); u != nil {
		file = append(file, u...)
	}
	file = append(file, m...)
	for range r.IntN(2) {
		if u := unknown(); u != nil {
			file = append(file, u...)
		}
	}
	c.Input("init", file)
	var got fmp4.Init
	c.Protect("Init.Unmarshal", func() { err = got.Unmarshal(bytes.NewReader(file)) })
	c.NoErr(err, fmt.Sprintf("Init.Unmarshal of a segment with %v", kinds))
	c.Check(len(got.Tracks) == len(in.Tracks), "%d tracks read, want %d", len(got.Tracks), len(in.Tracks))
	for k, t := range in.Tracks {
		g := got.Tracks[k]
		c.Check(g.ID == t.ID && g.TimeScale == t.TimeScale, "track %d: id %d time scale %d, want %d %d", k, g.ID, g.TimeScale, t.ID, t.TimeScale)
		want := t.Codec
		c.Check(deepEq(g.Codec, want), "track %d: codec read as %T %+v, want %T %+v", k, g.Codec, deref(g.Codec), want, deref(want))
	}
	c.Check(len(got.UserData) == len(in.UserData), "%d user data boxes, want %d", len(got.UserData), len(in.UserData))
	for k, t := range in.Tracks {
		got.Tracks[k].AvgBitrate, got.Tracks[k].MaxBitrate = t.AvgBitrate, t.MaxBitrate
	}
	buf2, err := marshalInit(got, flip(r))
	c.NoErr(err, "Marshal of what was read")
	c.Check(bytes.Equal(buf, buf2), "marshalling what was read gives other bytes than the same description")
	c.Count("foreign", 1)
	if stsdLast {
		c.Count("stsd_last", 1)
	}
	c.Distinct("foreign", file)
	c.Sample("foreign segment: %v, %d bytes", kinds, len(file))
}

// mboxBytes serialises a box that was read.
func mboxBytes(x *mbox) []byte {
	b := append(clone(x.entry), x.raw...)
	for _, k := range x.children {
		b = append(b, mboxBytes(k)...)
	}
	return boxBytes(x.typ, b)
}
