package main

import (
	"bytes"
	"math/rand/v2"
	"runtime"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// C04: resource use.

// allocated returns the bytes allocated by a function, garbage included.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// checkAlloc verifies that no more than base + mult * size bytes are allocated.
func checkAlloc(c *Case, what string, size int, base, mult uint64, f func()) {
	var n uint64
	c.Protect(what, func() { n = allocated(f) })
	c.Check(n <= base+mult*uint64(size), "%s allocated %d bytes for an input of %d bytes (allowed %d + %d per byte)", what, n, size, base, mult)
	c.Count("measured", 1)
	c.Max("allocated:"+what, int64(n))
	if n > base/4 && size > 0 {
		c.Max("per_byte:"+what, int64((n-base/4)/uint64(size)))
	}
}

func c04Codec(c *Case) {
	r := c.R
	p := totalParsers[c.Idx%len(totalParsers)]
	if p.name == "h264.NALUType" {
		return // one string per byte, built by the harness
	}
	b := p.seed(r)
	for range 6 {
		c.Input("buf", b)
		checkAlloc(c, p.name, len(b), 32<<10, 128, func() { p.parse(b) }) //nolint:errcheck
		c.Distinct(p.name, b)
		switch r.IntN(4) {
		case 0: // ones make counts and sizes huge
			if len(b) > 0 {
				b = clone(b)
				at := r.IntN(len(b))
				for i := at; i < min(len(b), at+1+r.IntN(6)); i++ {
					b[i] = pick[byte](r, 0xFF, 0xFF, 0x00, 0x7F, 0x80)
				}
			}
		case 1:
			b = append(clone(b), payload(r, r.IntN(200))...)
		case 2:
			b = bitSplice(r, b)
		default:
			b = mutate(r, clone(b))
		}
	}
}

func c04CodecLarge(c *Case) {
	r := c.R
	p := totalParsers[c.Idx%len(totalParsers)]
	if p.name == "h264.NALUType" {
		return
	}
	n := pick(r, 3000, 20000, 100000)
	var b []byte
	unit := [][]byte{{0}, {0xFF}, {0, 0, 1}, {0, 0, 0, 1}, {0, 0, 3}, {0, 0, 1, 0x65}, {0x80}, {0, 0, 0, 1, 1}, {0x0A, 0}, {0x56, 0xE0, 1, 0}, {1}, {0x55}, {0xAA}}
	k := c.Idx / len(totalParsers) % (len(unit) + 3)
	if k < len(unit) {
		b = bytes.Repeat(unit[k], n/len(unit[k]))
		if flip(r) { // let the last length be complete
			for i := len(b) - 1 - r.IntN(len(b)/8); i < len(b); i++ {
				b[i] = 0
			}
		}
	} else {
		for len(b) < n {
			s := p.seed(r)
			if len(s) == 0 {
				break
			}
			b = append(b, s...)
		}
	}
	s := p.seed(r)
	if k == 1 { // every beginning, followed by lengths which are as large as possible
		b = bytes.Repeat([]byte{0xFF}, 8000)
		b = append(b, make([]byte, 1000)...)
		for i := range min(len(s), 32) {
			b2 := append(clone(s[:i]), b...)
			c.Input("buf", b2)
			checkAlloc(c, p.name, len(b2), 32<<10, 128, func() { p.parse(b2) }) //nolint:errcheck
		}
	}
	if flip(r) && len(s) > 0 { // a valid beginning
		b = append(clone(s[:1+r.IntN(len(s))]), b...)
	}
	c.Input("buf", b)
	checkAlloc(c, p.name, len(b), 32<<10, 128, func() { p.parse(b) }) //nolint:errcheck
	c.Distinct(p.name, b)
}

const (
	mp4AllocBase = 256 << 10
	mp4AllocMult = 1024
)

func checkMP4Alloc(c *Case, kind int, buf []byte) {
	var v any
	var err error
	c.Input(mp4KindNames[kind], buf)
	checkAlloc(c, "Unmarshal of "+mp4KindNames[kind], len(buf), mp4AllocBase, mp4AllocMult, func() { v, err = mp4Read(c, kind, buf) })
	if err != nil {
		c.Count("mp4_rejected", 1)
		return
	}
	c.Count("mp4_accepted", 1)
	if p, ok := v.(*pmp4.Presentation); ok {
		n := 0
		for _, t := range p.Tracks {
			for _, s := range t.Samples {
				n++
				if n > 50 {
					return
				}
				checkAlloc(c, "GetPayload", len(buf), mp4AllocBase, 16, func() { s.GetPayload() }) //nolint:errcheck
			}
		}
	}
	if ps, ok := v.(fmp4.Parts); ok {
		n := 0
		for _, p := range ps {
			for _, t := range p.Tracks {
				for _, s := range t.Samples {
					n++
					if n > 50 {
						return
					}
					checkAlloc(c, "sample helpers", len(s.Payload), 32<<10, 128, func() {
						s.GetH264() //nolint:errcheck,staticcheck
						s.GetH265() //nolint:errcheck,staticcheck
						s.GetAV1()  //nolint:errcheck,staticcheck
					})
				}
			}
		}
	}
}

func c04MP4(c *Case) {
	r := c.R
	kind := c.Idx % 3
	fam := pick(r, "tree", "tree", "crafted", "crafted", "bytes")
	buf := hostileMP4(r, kind, fam)
	c.Distinct(buf)
	checkMP4Alloc(c, kind, buf)
}

// c04Amplify: small structures repeated many times, each asking for as much as possible.
func c04Amplify(c *Case) {
	r := c.R
	kind := c.Idx % 3
	base := validMP4(r, kind)
	boxes, err := walkBoxes(base, 0, len(base), "")
	c.NoErr(err, "boxes")
	root := &mnode{}
	for _, b := range boxes {
		root.children = append(root.children, toNode(b))
	}
	var all []*mnode
	root.list(&all)
	find := func(t string) *mnode {
		for _, x := range all {
			if x.typ == t {
				return x
			}
		}
		return nil
	}
	n := pick(r, 50, 300, 2000)
	count := pick[uint32](r, 0xFFFFFFFF, 1<<31, 5184000, 19200, 1<<20, uint32(len(base)*10), uint32(len(base)))
	what := ""
	switch c.Idx / 3 % 7 {
	case 0: // nesting
		t := pick(r, "mdia", "minf", "stbl", "edts", "traf", "udta", "trak", "moov", "stsd", "moof")
		what = "nest " + t
		parents := map[string]string{"mdia": "trak", "edts": "trak", "minf": "mdia", "stbl": "minf", "traf": "moof", "udta": "moov", "trak": "moov", "stsd": "stbl"}
		p := root
		if q := find(parents[t]); q != nil {
			p = q
		}
		d := &mnode{typ: t}
		for range n * 3 {
			d = &mnode{typ: t, children: []*mnode{d}}
			if t == "stsd" {
				d.pre = make([]byte, 8)
			}
		}
		at := r.IntN(len(p.children) + 1)
		p.children = append(append(append([]*mnode(nil), p.children[:at]...), d), p.children[at:]...)
	case 1: // repetition of a box with a huge count
		t := pick(r, "trun", "stts", "stsz", "ctts", "stss", "stsc", "stco", "elst", "hvcC", "avcC", "esds", "dfLa", "sidx", "tfra", "sgpd", "sbgp", "saiz", "saio", "pssh", "keys", "co64")
		what = "repeat " + t
		x := find(t)
		if x == nil {
			x = &mnode{typ: t}
			p := find(pick(r, "stbl", "traf", "udta", "moov"))
			if p == nil {
				p = root
			}
			p.children = append(p.children, x)
		}
		x.pre = append(u32b(pick[uint32](r, 0, 1, 1<<24, 1<<24|1)), u32b(count)...)
		x.pre = append(x.pre, make([]byte, pick(r, 0, 4, 8, 16, 30))...)
		if flip(r) {
			x.pre = append(x.pre[:8], u32b(count, count, count)...)
		}
		x.big = r.IntN(3) == 0
		for range n {
			for _, p := range append([]*mnode{root}, all...) {
				for i, y := range p.children {
					if y == x {
						p.children = append(append(append([]*mnode(nil), p.children[:i]...), x.clone()), p.children[i:]...)
						break
					}
				}
			}
		}
	case 2: // runs without fields
		what = "empty runs"
		if x := find("traf"); x != nil {
			for range n {
				x.children = append(x.children, &mnode{typ: "trun", pre: append(u32b(pick[uint32](r, 0, 1)), u32b(min(count, 19200), 0)...), big: flip(r)})
			}
		}
	case 3: // many tracks with many samples
		what = "tracks"
		if m, t := find("moov"), find("trak"); m != nil && t != nil {
			each := count
			if flip(r) { // what the file could hold once
				size := uint32(len(base) + n*len(t.write(nil)))
				each = pick(r, size/4, size/5, size/8, size/40)
			}
			for range n {
				q := t.clone()
				var l []*mnode
				q.list(&l)
				for _, x := range l {
					if x.typ == "stts" {
						x.pre = u32b(0, 1, each, 1)
					}
					if x.typ == "stbl" && each != count { // no tables that contradict it
						for i, y := range x.children {
							if y.typ == "stts" {
								x.children = x.children[:i+1]
								break
							}
						}
					}
				}
				m.children = append(m.children, q)
			}
		}
	case 4: // user data
		what = "user data"
		if m := find("moov"); m != nil {
			u := &mnode{typ: "udta"}
			for range pick(r, 1, n) {
				u.children = append(u.children, &mnode{typ: pick(r, boxTypes...), pre: append(u32b(0), u32b(count, count)...)})
			}
			if flip(r) {
				u.children = []*mnode{{typ: "trun", pre: u32b(0, count)}}
			}
			m.children = append(m.children, u)
		}
	case 5: // tables whose entries are plausible one by one
		what = "entries"
		size := uint32(len(base) + 8*n)
		each := pick(r, size/4, size/5, size/8, size/40)
		for _, x := range all {
			if x.typ == "stts" || x.typ == "ctts" || (x.typ == "stsc" && flip(r)) {
				x.pre = u32b(0, uint32(n))
				for k := range n {
					switch x.typ {
					case "stsc":
						x.pre = append(x.pre, u32b(1+uint32(k)*each, 1, 1)...)
					default:
						x.pre = append(x.pre, u32b(each, 1)...)
					}
				}
			}
			if x.typ == "trun" && flip(r) { // runs that declare what would fit into the whole file
				x.pre = u32b(pick[uint32](r, 0x100, 0x200, 0x400), min(each, 19200))
			}
		}
		if m := find("traf"); m != nil {
			for range n / 10 {
				m.children = append(m.children, &mnode{typ: "trun", pre: u32b(pick[uint32](r, 0x100, 0x200, 0x800), min(each, 19200))})
			}
		}
	default: // sample sizes
		what = "sizes"
		if x := find("stsz"); x != nil && len(x.pre) >= 12 {
			for i := 12; i+4 <= len(x.pre); i += 4 {
				copy(x.pre[i:], u32b(count))
			}
		}
		if x := find("trun"); x != nil && len(x.pre) >= 16 {
			for i := 8; i+4 <= len(x.pre); i += 4 {
				if r.IntN(3) == 0 {
					copy(x.pre[i:], u32b(count))
				}
			}
		}
	}
	var out []byte
	for _, b := range root.children {
		out = b.write(out)
	}
	c.Count("amplify:"+what, 1)
	c.Distinct(out)
	checkMP4Alloc(c, kind, out)
}

// h264SPSWithRefs is a minimal SPS with picture order count type 1.
func h264SPSWithRefs(n int) []byte {
	w := &bitWriter{}
	w.u(8, 66)
	w.u(8, 0)
	w.u(8, 30)
	for _, v := range []uint32{0, 0, 1} {
		w.ue(v)
	}
	w.flag(false)
	w.se(0)
	w.se(0)
	w.ue(uint32(n))
	for range n {
		w.se(1)
	}
	w.ue(1)
	w.flag(false)
	w.ue(10)
	w.ue(10)
	w.flag(true)
	w.flag(true)
	w.flag(false)
	w.flag(false)
	w.trailing()
	return append([]byte{0x67}, escape(w.out())...)
}

func splitSizes(r *rand.Rand, total, n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = 1
	}
	left := total - n
	for i := range out {
		k := left
		if i != n-1 {
			k = r.IntN(left + 1)
		}
		out[i] += k
		left -= k
	}
	return out
}

// c04Limits: documented maxima are accepted, one more is not.
func c04Limits(c *Case) {
	r := c.R
	over := c.Idx % 2
	judge := func(what string, err error) {
		c.Count("limit:"+what, 1)
		if over == 0 {
			c.Check(err == nil, "%s: exactly the maximum is rejected: %v", what, err)
		} else {
			c.Check(err != nil, "%s: one more than the maximum is accepted", what)
		}
	}
	units := func(total, n int) [][]byte {
		var l [][]byte
		for _, s := range splitSizes(r, total, n) {
			l = append(l, bytes.Repeat([]byte{byte(1 + r.IntN(255))}, s))
		}
		return l
	}
	c.Distinct("limit", c.Idx)
	switch c.Idx / 2 % 11 {
	case 0:
		b, _ := h264.AnnexB(units(h264.MaxAccessUnitSize+over, pick(r, 1, 1, 2, 1+r.IntN(50)))).Marshal()
		var a h264.AnnexB
		judge("Annex B size", a.Unmarshal(b))
	case 1:
		b, _ := h264.AVCC(units(h264.MaxAccessUnitSize+over, pick(r, 1, 1, 2, 1+r.IntN(50)))).Marshal()
		var a h264.AVCC
		judge("AVCC size", a.Unmarshal(b))
	case 2:
		b, _ := h264.AnnexB(units(100+r.IntN(5000), h264.MaxNALUsPerAccessUnit+over)).Marshal()
		var a h264.AnnexB
		judge("Annex B count", a.Unmarshal(b))
	case 3:
		b, _ := h264.AVCC(units(100+r.IntN(5000), h264.MaxNALUsPerAccessUnit+over)).Marshal()
		var a h264.AVCC
		judge("AVCC count", a.Unmarshal(b))
	case 4:
		b, err := mpeg4audio.ADTSPackets{
			{Type: 2, SampleRate: 44100, ChannelConfig: 2, AU: payload(r, 1+r.IntN(500))},
			{Type: 2, SampleRate: 44100, ChannelConfig: 2, AU: payload(r, mpeg4audio.MaxAccessUnitSize+over)},
		}.Marshal()
		if err != nil {
			c.Check(over == 1, "ADTS Marshal: %v", err)
			return
		}
		var a mpeg4audio.ADTSPackets
		judge("ADTS size", a.Unmarshal(b))
	case 5:
		p := &fmp4.Part{Tracks: []*fmp4.PartTrack{{ID: 1}}}
		for range 19200 + over {
			p.Tracks[0].Samples = append(p.Tracks[0].Samples, &fmp4.Sample{Duration: 1, Payload: []byte{1}})
		}
		f := &memFile{}
		c.NoErr(p.Marshal(f), "Part.Marshal")
		var ps fmp4.Parts
		judge("fMP4 samples", ps.Unmarshal(f.b))
		if over == 1 { // the same, with a 64-bit header
			boxes, err := walkBoxes(f.b, 0, len(f.b), "")
			c.NoErr(err, "boxes")
			root := &mnode{}
			for _, b := range boxes {
				root.children = append(root.children, toNode(b))
			}
			var all []*mnode
			root.list(&all)
			for _, x := range all {
				x.big = x.typ == "trun"
			}
			var out []byte
			for _, b := range root.children {
				out = b.write(out)
			}
			var ps2 fmp4.Parts
			judge("fMP4 samples, 64-bit header", ps2.Unmarshal(out))
		}
	case 6:
		var s h264.SPS
		judge("H264 reference frames", s.Unmarshal(h264SPSWithRefs(255+over)))
	case 7:
		o := &h265Opt{}
		for range 64 + over {
			o.sets = append(o.sets, rpsFromSet(map[int32]bool{-1: true}))
		}
		_, w := genH265SPSOpt(r, o)
		w.trailing()
		var s h265.SPS
		judge("H265 reference picture sets", s.Unmarshal(append([]byte{0x42, 0x01}, escape(w.out())...)))
	case 8, 9:
		set := map[int32]bool{}
		for i := range int32(255 + over) {
			if c.Idx/2%11 == 8 {
				set[-1-i] = true
			} else {
				set[1+i] = true
			}
		}
		_, w := genH265SPSOpt(r, &h265Opt{sets: []*h265.SPS_ShortTermRefPicSet{rpsFromSet(set)}})
		w.trailing()
		var s h265.SPS
		judge("H265 pictures of a reference set", s.Unmarshal(append([]byte{0x42, 0x01}, escape(w.out())...)))
	default:
		const maxSamples = 30 * 60 * 60 * 48
		if c.Idx >= 22 {
			return // once
		}
		t := &pmp4.Track{ID: 1, TimeScale: 1000, Codec: genMP4Codec(r, 7).codec, Samples: make([]*pmp4.Sample, maxSamples+over)}
		s := &pmp4.Sample{Duration: 1, PayloadSize: 0, GetPayload: func() ([]byte, error) { return nil, nil }}
		for i := range t.Samples {
			t.Samples[i] = s
		}
		var out bytes.Buffer
		c.NoErr(pmp4.Presentation{Tracks: []*pmp4.Track{t}}.Marshal(&out), "Marshal")
		var p pmp4.Presentation
		judge("MP4 samples", p.Unmarshal(bytes.NewReader(out.Bytes())))
	}
}

func init() {
	n := len(totalParsers)
	register(&Property{
		ID: "C04",
		Rule: "allocations (garbage included) of every parser are measured on valid, mutated, extended and repeated inputs whose counts and sizes are pushed to the extremes, and have to stay below a " +
			"constant plus a multiple of the input size; inputs exactly at the documented maxima have to be accepted and those one above rejected",
		Assumptions: []string{
			"codec parsers: 32 KiB plus 128 bytes per byte; MP4 readers: 256 KiB plus 1024 bytes per byte",
			"maxima that the code defines but does not enforce (H265 and AV1 units) are not judged",
		},
		Require: []string{
			"measured", "mp4_rejected", "mp4_accepted", "limit:Annex B size", "limit:AVCC size", "limit:Annex B count", "limit:AVCC count", "limit:ADTS size", "limit:fMP4 samples",
			"limit:H264 reference frames", "limit:H265 reference picture sets", "limit:H265 pictures of a reference set", "limit:MP4 samples",
		},
		Families: []Family{
			{Name: "codec", Quick: n * 120, Thorough: n * 20000, Run: c04Codec},
			{Name: "codec-large", Quick: n * 16, Thorough: n * 640, Run: c04CodecLarge},
			{Name: "mp4", Quick: 12000, Thorough: 1000000, Run: c04MP4},
			{Name: "amplify", Quick: 1050, Thorough: 47000, Run: c04Amplify},
			{Name: "limits", Quick: 88, Thorough: 2200, Run: c04Limits},
		},
	})
}
