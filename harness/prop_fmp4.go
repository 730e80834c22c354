package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	amp4 "github.com/abema/go-mp4"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

// C10: initialization segments.

func genTimeScale(r *rand.Rand) uint32 {
	return pick(r, 90000, 48000, 44100, 1000, 1, uint32(max(1, edge(r, 32))))
}

// genTrackIDs generates distinct non-zero track IDs.
func genTrackIDs(r *rand.Rand, n int) []int {
	seen := map[int]bool{}
	var out []int
	for len(out) < n {
		id := pick(r, len(out)+1, int(edge(r, 32)), 65536+r.IntN(10), int(uint32(0xFFFFFFFF)))
		if id == 0 || seen[id] {
			continue
		}
		seen[id] = true
		out = append(out, id)
	}
	return out
}

func genInit(r *rand.Rand, kind int) (*fmp4.Init, []*genCodecOut) {
	return genInitN(r, kind, 1+r.IntN(pick(r, 1, 2, 5, 12)))
}

func genInitN(r *rand.Rand, kind int, n int) (*fmp4.Init, []*genCodecOut) {
	i := &fmp4.Init{}
	var outs []*genCodecOut
	ids := genTrackIDs(r, n)
	for k := range n {
		if k > 0 {
			kind = r.IntN(codecKinds)
		}
		o := genMP4Codec(r, kind)
		outs = append(outs, o)
		t := &fmp4.InitTrack{ID: ids[k], TimeScale: genTimeScale(r), Codec: o.codec}
		if r.IntN(3) == 0 {
			t.AvgBitrate, t.MaxBitrate = uint32(edge(r, 32)), uint32(edge(r, 32))
		}
		i.Tracks = append(i.Tracks, t)
	}
	return i, outs
}

func genUserData(r *rand.Rand) []amp4.IBox {
	var l []amp4.IBox
	for range r.IntN(4) {
		switch r.IntN(4) {
		case 0:
			l = append(l, &amp4.Colr{ColourType: [4]byte{'n', 'c', 'l', 'x'}, ColourPrimaries: uint16(edge(r, 16)), TransferCharacteristics: uint16(edge(r, 16)),
				MatrixCoefficients: uint16(edge(r, 16)), FullRangeFlag: flip(r)})
		case 1:
			l = append(l, &amp4.Free{Data: payload(r, r.IntN(20))})
		case 2:
			l = append(l, &amp4.Btrt{BufferSizeDB: uint32(edge(r, 32)), MaxBitrate: uint32(edge(r, 32)), AvgBitrate: uint32(edge(r, 32))})
		default:
			l = append(l, &amp4.Sidx{ReferenceID: uint32(edge(r, 32)), Timescale: uint32(edge(r, 32)), References: []amp4.SidxReference{}})
		}
	}
	return l
}

func marshalInit(i fmp4.Init, lib bool) ([]byte, error) {
	if lib {
		var b seekablebuffer.Buffer
		err := i.Marshal(&b)
		return b.Bytes(), err
	}
	m := &memFile{}
	err := i.Marshal(m)
	return m.b, err
}

func bitratesOf(t *fmp4.InitTrack) (uint32, uint32) {
	avg, maxr := t.AvgBitrate, t.MaxBitrate
	def := uint32(128825)
	if isVideoCodec(t.Codec) {
		def = 1000000
	}
	if avg == 0 {
		avg = def
	}
	if maxr == 0 {
		maxr = def
	}
	return avg, maxr
}

func c10Init(c *Case) {
	r := c.R
	init, outs := genInit(r, c.Idx%codecKinds)
	if c.Fam == "wide" {
		init, outs = genInitN(r, c.Idx%codecKinds, pick(r, 33, 65, 129, 257, 30+r.IntN(300)))
	}
	if r.IntN(3) == 0 {
		init.UserData = genUserData(r)
	}
	buf, err := marshalInit(*init, true)
	c.NoErr(err, "Init.Marshal")
	c.Input("init", buf)
	buf2, err := marshalInit(*init, false)
	c.NoErr(err, "Init.Marshal on another file")
	c.Check(bytes.Equal(buf, buf2), "Marshal on two kinds of files gives different bytes")

	boxes, err := walkBoxes(buf, 0, len(buf), "")
	c.NoErr(err, "box tree")
	root := rootOf(boxes)
	c.Check(fmt.Sprint(root.types()) == "[ftyp moov]", "top-level boxes %v", root.types())
	moov := root.one("moov")
	mv := moov.one("mvhd").raw
	c.Check(len(mv) == 100 && be32(mv, 12) != 0, "mvhd %x", mv)
	traks := moov.all("trak")
	c.Check(len(traks) == len(init.Tracks), "%d trak boxes, want %d", len(traks), len(init.Tracks))
	trexs := moov.one("mvex").all("trex")
	c.Check(len(trexs) == len(init.Tracks), "%d trex boxes, want %d", len(trexs), len(init.Tracks))
	for k, t := range init.Tracks {
		checkTrackHeaders(c, traks[k], outs[k], t.ID, t.TimeScale)
		avg, maxr := bitratesOf(t)
		stbl := traks[k].one("mdia", "minf", "stbl")
		checkSampleEntry(c, stbl.one("stsd").children[0], outs[k], t.ID, avg, maxr, true)
		c.Check(be32(trexs[k].raw, 4) == uint32(t.ID) && be32(trexs[k].raw, 8) == 1, "trex %x, want id %d", trexs[k].raw, t.ID)
		for _, n := range []string{"stts", "stsc", "stsz", "stco"} {
			emptyTable(c, stbl.one(n))
		}
	}

	var got fmp4.Init
	c.Protect("Init.Unmarshal", func() { err = got.Unmarshal(bytes.NewReader(buf)) })
	c.NoErr(err, "Init.Unmarshal")
	c.Check(len(got.Tracks) == len(init.Tracks), "%d tracks read, want %d", len(got.Tracks), len(init.Tracks))
	for k, t := range init.Tracks {
		g := got.Tracks[k]
		c.Check(g.ID == t.ID && g.TimeScale == t.TimeScale, "track %d: id %d time scale %d, want %d %d", k, g.ID, g.TimeScale, t.ID, t.TimeScale)
		c.Check(deepEq(g.Codec, t.Codec), "track %d: codec read as %T %+v, want %T %+v", k, g.Codec, deref(g.Codec), t.Codec, deref(t.Codec))
		c.Count(fmt.Sprintf("codec:%T", t.Codec), 1)
		g.AvgBitrate, g.MaxBitrate = t.AvgBitrate, t.MaxBitrate
	}
	c.Check(len(got.UserData) == len(init.UserData), "%d user data boxes, want %d", len(got.UserData), len(init.UserData))
	for k := range init.UserData {
		c.Check(fmt.Sprintf("%T", got.UserData[k]) == fmt.Sprintf("%T", init.UserData[k]), "user data box %d is a %T, want %T", k, got.UserData[k], init.UserData[k])
		c.Count("user_data", 1)
	}
	buf3, err := marshalInit(got, flip(r))
	c.NoErr(err, "Marshal of what was read")
	c.Check(bytes.Equal(buf, buf3), "marshalling what was read gives different bytes")
	// a description that is cut before its end is refused
	for range 2 {
		cut := r.IntN(len(buf))
		var part fmp4.Init
		c.Protect("Init.Unmarshal", func() { err = part.Unmarshal(bytes.NewReader(buf[:cut])) })
		c.Check(err != nil, "initialization cut at byte %d of %d is accepted", cut, len(buf))
		c.Count("init_cut_refused", 1)
	}
	// fields that are derived from other ones may be missing
	alt := *init
	alt.Tracks = nil
	for _, t := range init.Tracks {
		u := *t
		switch k := t.Codec.(type) {
		case *codecs.MPEG4Audio:
			v := *k
			if flip(r) {
				v.Config.ChannelCount = 0 //nolint:staticcheck
			} else {
				v.Config.ChannelConfig = 0
			}
			u.Codec = &v
			c.Count("derived_fields", 1)
		case *codecs.AC3:
			v := *k
			v.Fscod = uint8(r.IntN(4)) //nolint:staticcheck
			u.Codec = &v
			c.Count("derived_fields", 1)
		}
		alt.Tracks = append(alt.Tracks, &u)
	}
	late := &lateFile{base: pick[int64](r, 0, 0, 1, 1<<31, 1<<32)}
	c.NoErr(alt.Marshal(late), "Marshal without derived fields")
	c.Check(bytes.Equal(late.b, buf), "a description without derived fields is marshalled in another way: %s, want %s (file of %d bytes)", hexShort(late.b), hexShort(buf), late.base)
	c.Count("inits", 1)
	c.Count("tracks", len(init.Tracks))
	c.Distinct("init", buf)
	c.Sample("%d tracks, first %T, %d bytes", len(init.Tracks), init.Tracks[0].Codec, len(buf))
}

func deref(v any) any {
	switch k := v.(type) {
	case *codecs.H264:
		return *k
	case *codecs.H265:
		return *k
	case *codecs.MPEG4Audio:
		return *k
	case *codecs.AC3:
		return *k
	case *codecs.EAC3:
		return *k
	case *codecs.LPCM:
		return *k
	case *codecs.VP9:
		return *k
	case *codecs.FLAC:
		return *k.StreamInfo
	}
	return v
}

// c10LPCMRate: sample rates that do not fit the 16.16 field of the sample entry.
func c10LPCMRate(c *Case) {
	rate := []int{65535, 65536, 88200, 96000, 192000}[c.Idx%5]
	i := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: 1000, Codec: &codecs.LPCM{BitDepth: 24, SampleRate: rate, ChannelCount: 2}}}}
	buf, err := marshalInit(*i, true)
	c.Count("lpcm_rate", 1)
	c.Distinct(rate)
	if err != nil {
		return
	}
	var got fmp4.Init
	c.NoErr(got.Unmarshal(bytes.NewReader(buf)), "Unmarshal")
	g := got.Tracks[0].Codec.(*codecs.LPCM).SampleRate
	if g != rate && rate > 65535 && g == rate&0xFFFF {
		c.FailKeyf("lpcm-rate-above-65535", "LPCM sample rate %d is read back as %d", rate, g)
	}
	c.Check(g == rate, "LPCM sample rate %d is read back as %d", rate, g)
}

// c10Unfit: codec parameters around the limits of what the container can carry: what is written
// without error is read back.
func c10Unfit(c *Case) {
	r := c.R
	var codec codecs.Codec
	fits := true
	switch r.IntN(4) {
	case 3:
		w, h := pick(r, 0, 1, 65535, 65536, 65537, 1<<20, 1+r.IntN(70000)), pick(r, 0, 1, 65535, 65536, 65537, 1+r.IntN(70000))
		fits = w >= 1 && w <= 65535 && h >= 1 && h <= 65535
		codec = &codecs.MJPEG{Width: w, Height: h}
		if flip(r) {
			codec = &codecs.VP9{Width: w, Height: h, Profile: 1, BitDepth: 8, ChromaSubsampling: 1}
		}
	case 0, 1:
		n := pick(r, 65534, 65535, 65536, 65537, 65536+r.IntN(300), 131071+r.IntN(4))
		fits = n <= 65535
		resize := func(b []byte) []byte {
			out := bytes.Repeat([]byte{0xA5}, max(n, len(b)))
			copy(out, b)
			return out
		}
		if r.IntN(2) == 0 {
			k := genMP4Codec(r, 0).codec.(*codecs.H264)
			if r.IntN(2) == 0 {
				k.SPS = resize(k.SPS)
			} else {
				k.PPS = resize(k.PPS)
			}
			codec = k
		} else {
			k := genMP4Codec(r, 1).codec.(*codecs.H265)
			switch r.IntN(3) {
			case 0:
				k.VPS = resize(k.VPS)
			case 1:
				k.SPS = resize(k.SPS)
			default:
				k.PPS = resize(k.PPS)
			}
			codec = k
		}
	default:
		n := pick(r, 7, 9, 10, 64, 255, 256, 65535)
		fits = false
		codec = &codecs.MPEG4Audio{Config: mpeg4audio.AudioSpecificConfig{
			Type: mpeg4audio.ObjectTypeAACLC, SampleRate: 48000, ChannelCount: n}}
	}
	i := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: 48000, Codec: codec}}}
	buf, err := marshalInit(*i, true)
	c.Distinct(dump(codec))
	if fits {
		c.NoErr(err, "Marshal")
		c.Count("largest_parameters", 1)
	}
	if err != nil {
		c.Count("unfit_refused", 1)
		return
	}
	var got fmp4.Init
	c.NoErr(got.Unmarshal(bytes.NewReader(buf)), "Unmarshal")
	c.Check(dump(got.Tracks[0].Codec) == dump(codec), "codec read back differs")
}

// c10HvcC: ISO 14496-15, 8.3.3.1: general_constraint_indicator_flags of hvcC are the ones of
// the profile_tier_level() structure.
func c10HvcC(c *Case) {
	r := c.R
	o := genMP4Codec(r, 1)
	sps := o.codec.(*codecs.H265).SPS
	raw := unescape(sps)
	i := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: 1000, Codec: o.codec}}}
	buf, err := marshalInit(*i, true)
	c.NoErr(err, "Marshal")
	c.Input("init", buf)
	boxes, err := walkBoxes(buf, 0, len(buf), "")
	c.NoErr(err, "boxes")
	b := rootOf(boxes).one("moov", "trak", "mdia", "minf", "stbl", "stsd", "hvc1", "hvcC").raw
	c.Count("hvcc", 1)
	c.Distinct(sps)
	if !bytes.Equal(b[6:12], raw[8:14]) {
		if bytes.Equal(b[6:12], sps[7:13]) {
			c.FailKeyf("hvcc-constraint-flags", "general_constraint_indicator_flags of hvcC are %x, the ones of the SPS are %x", b[6:12], raw[8:14])
		}
		c.Failf("general_constraint_indicator_flags of hvcC are %x, the ones of the SPS are %x", b[6:12], raw[8:14])
	}
}

func unescape(b []byte) []byte {
	var out []byte
	zeros := 0
	for _, x := range b {
		if zeros >= 2 && x == 3 {
			zeros = 0
			continue
		}
		out = append(out, x)
		if x == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	return out
}

// C11: fragments.

func genParts(r *rand.Rand, big bool) fmp4.Parts {
	var ps fmp4.Parts
	for range pick(r, 1, 1, 2, 1+r.IntN(4)) {
		p := &fmp4.Part{SequenceNumber: uint32(edge(r, 32))}
		for k, id := range genTrackIDs(r, pick(r, 1, 1, 2, 3, r.IntN(6))) {
			_ = k
			t := &fmp4.PartTrack{ID: id, BaseTime: edge(r, 64)}
			n := pick(r, 0, 1, 2, r.IntN(12), r.IntN(60))
			maxSize := pick(r, 1, 16, 300, 3000)
			if big {
				n, maxSize = pick(r, 19199, 19200, 5000+r.IntN(10000)), 8
				big = false
			}
			allSync := flip(r)
			noOffset := flip(r)
			rare := -1 // the only sample that is not like the others
			if r.IntN(4) == 0 {
				if r.IntN(16) == 0 {
					n = max(n, r.IntN(1200))
				}
				rare = pick(r, n-1, r.IntN(n+1))
			}
			for i := range n {
				s := &fmp4.Sample{Duration: uint32(edge(r, 32)), Payload: payload(r, r.IntN(maxSize+1))}
				if rare >= 0 {
					if i == rare {
						s.PTSOffset, s.IsNonSyncSample = pick[int32](r, 0, 0, 1, -1), flip(r)
					}
					t.Samples = append(t.Samples, s)
					continue
				}
				if !noOffset {
					s.PTSOffset = int32(uint32(edge(r, 32)))
				}
				if !allSync {
					s.IsNonSyncSample = flip(r)
				}
				t.Samples = append(t.Samples, s)
			}
			p.Tracks = append(p.Tracks, t)
		}
		ps = append(ps, p)
	}
	return ps
}

func c11Parts(c *Case) {
	r := c.R
	ps := genParts(r, c.Fam == "big")
	checkParts(c, ps)
}

// c11Wide covers unusual dimensions: many tracks, many parts, large samples, many samples in several track runs.
func c11Wide(c *Case) {
	r := c.R
	sample := func(size int) *fmp4.Sample {
		return &fmp4.Sample{
			Duration: uint32(edge(r, 32)), PTSOffset: int32(uint32(edge(r, 32))), IsNonSyncSample: flip(r), Payload: payload(r, size),
		}
	}
	many := func() int { return pick(r, 33, 65, 129, 257, 30+r.IntN(300)) }
	ps := fmp4.Parts{}
	parts, tracks := 1, 1
	kind := c.Idx % 4
	switch kind {
	case 0:
		tracks = many()
	case 1:
		parts = many()
	}
	for k := range parts {
		p := &fmp4.Part{SequenceNumber: uint32(k + 1)}
		for _, id := range genTrackIDs(r, tracks) {
			t := &fmp4.PartTrack{ID: id, BaseTime: edge(r, 64)}
			switch kind {
			case 2: // large samples
				for range 1 + r.IntN(3) {
					t.Samples = append(t.Samples, sample(pick(r, 1<<16, 1<<20, 1<<22, r.IntN(1<<21), 1<<24)+r.IntN(3)-1))
				}
			case 3: // hundreds of samples of hundreds of bytes
				for range 500 + r.IntN(2500) {
					t.Samples = append(t.Samples, sample(r.IntN(900)))
				}
			default:
				for range r.IntN(4) {
					t.Samples = append(t.Samples, sample(r.IntN(40)))
				}
			}
			p.Tracks = append(p.Tracks, t)
		}
		ps = append(ps, p)
	}
	checkParts(c, ps)
	c.Count("wide", 1)
}

func comparePartsRead(c *Case, ps, got fmp4.Parts) {
	c.Check(len(got) == len(ps), "%d parts read, want %d", len(got), len(ps))
	for k, p := range ps {
		c.Check(got[k].SequenceNumber == p.SequenceNumber && len(got[k].Tracks) == len(p.Tracks), "part %d: %d tracks, sequence number %d", k, len(got[k].Tracks), got[k].SequenceNumber)
		for j, t := range p.Tracks {
			g := got[k].Tracks[j]
			c.Check(g.ID == t.ID && g.BaseTime == t.BaseTime && len(g.Samples) == len(t.Samples),
				"part %d track %d: id %d base time %d samples %d, want %d %d %d", k, j, g.ID, g.BaseTime, len(g.Samples), t.ID, t.BaseTime, len(t.Samples))
			for x, s := range t.Samples {
				q := g.Samples[x]
				c.Check(q.Duration == s.Duration && q.PTSOffset == s.PTSOffset && q.IsNonSyncSample == s.IsNonSyncSample && bytes.Equal(q.Payload, s.Payload),
					"part %d track %d sample %d read as %d %d %v %s, want %d %d %v %s", k, j, x,
					q.Duration, q.PTSOffset, q.IsNonSyncSample, hexShort(q.Payload), s.Duration, s.PTSOffset, s.IsNonSyncSample, hexShort(s.Payload))
			}
		}
	}
}

func checkParts(c *Case, ps fmp4.Parts) {
	r := c.R
	var sb seekablebuffer.Buffer
	c.NoErr(ps.Marshal(&sb), "Parts.Marshal")
	buf := sb.Bytes()
	c.Input("parts", buf)
	m := &memFile{}
	if flip(r) { // one by one
		for _, p := range ps {
			c.NoErr(p.Marshal(m), "Part.Marshal")
		}
	} else {
		c.NoErr(ps.Marshal(m), "Parts.Marshal")
	}
	c.Check(bytes.Equal(buf, m.b), "Marshal on two kinds of files gives different bytes")
	if r.IntN(4) == 0 { // at the end of a long file
		late := &lateFile{base: pick[int64](r, 1, 1<<16, 1<<30, 1<<31-1, 1<<31, 1<<32, 1<<40) + r.Int64N(100)}
		c.NoErr(ps.Marshal(late), "Parts.Marshal")
		c.Check(bytes.Equal(buf, late.b), "parts appended to a file of %d bytes differ", late.base)
		c.Count("appended", 1)
	}

	// independent parser
	boxes, err := walkBoxes(buf, 0, len(buf), "")
	c.NoErr(err, "box tree")
	c.Check(len(boxes) == 2*len(ps), "%d top-level boxes for %d parts", len(boxes), len(ps))
	total := 0
	for k, p := range ps {
		moof, mdat := boxes[2*k], boxes[2*k+1]
		c.Check(moof.typ == "moof" && mdat.typ == "mdat", "top-level boxes %s %s", moof.typ, mdat.typ)
		mf := moof.one("mfhd").raw
		c.Check(len(mf) == 8 && be32(mf, 4) == p.SequenceNumber, "mfhd %x, want %d", mf, p.SequenceNumber)
		trafs := moof.all("traf")
		c.Check(len(trafs) == len(p.Tracks), "%d traf boxes, want %d", len(trafs), len(p.Tracks))
		pos := mdat.body
		for j, t := range p.Tracks {
			tf := trafs[j].one("tfhd").raw
			c.Check(be32(tf, 4) == uint32(t.ID), "tfhd: id %d, want %d", be32(tf, 4), t.ID)
			c.Check(be32(tf, 0) == 0x020000 && len(tf) == 8, "tfhd flags %x", be32(tf, 0))
			td := trafs[j].one("tfdt").raw
			c.Check(len(td) == 12 && td[0] == 1 && be64(td, 4) == t.BaseTime, "tfdt %x, want %d", td, t.BaseTime)
			tr := trafs[j].one("trun").raw
			version, flags, count := tr[0], be32(tr, 0)&0xFFFFFF, int(be32(tr, 4))
			c.Check(flags&^uint32(0xF01) == 0, "trun flags %x", flags)
			c.Check(count == len(t.Samples), "trun declares %d samples, want %d", count, len(t.Samples))
			i := 8
			c.Check(flags&1 != 0, "trun without data offset")
			off := moof.off + int(int32(be32(tr, i)))
			i += 4
			c.Check(off == pos, "track run %d points at %d, its data is at %d", j, off, pos)
			next := func(flag uint32, def uint32) uint32 {
				if flags&flag == 0 {
					return def
				}
				i += 4
				return be32(tr, i-4)
			}
			for x, s := range t.Samples {
				d, sz, fl, cto := next(0x100, 0), next(0x200, 0), next(0x400, 0), next(0x800, 0)
				c.Check(d == s.Duration && int(sz) == len(s.Payload), "sample %d: duration %d size %d, want %d %d", x, d, sz, s.Duration, len(s.Payload))
				c.Check((fl&0x10000 != 0) == s.IsNonSyncSample, "sample %d: flags %x, non-sync %v", x, fl, s.IsNonSyncSample)
				c.Check((version == 1 || cto == 0) && int32(cto) == s.PTSOffset, "sample %d: composition offset %d (version %d), want %d", x, int32(cto), version, s.PTSOffset)
				c.Check(pos+int(sz) <= mdat.end && bytes.Equal(buf[pos:pos+int(sz)], s.Payload), "sample %d: payload is not at %d", x, pos)
				pos += int(sz)
				total++
			}
			c.Check(i == len(tr), "trun has %d bytes left", len(tr)-i)
		}
		c.Check(pos == mdat.end, "mdat has %d bytes not belonging to samples", mdat.end-pos)
	}

	var got fmp4.Parts
	c.Protect("Parts.Unmarshal", func() { err = got.Unmarshal(buf) })
	c.NoErr(err, "Parts.Unmarshal")
	comparePartsRead(c, ps, got)
	var sb2 seekablebuffer.Buffer
	c.NoErr(got.Marshal(&sb2), "Marshal of what was read")
	c.Check(bytes.Equal(sb2.Bytes(), buf), "marshalling what was read gives different bytes")
	// a fragment that is cut before its end is not taken for a complete one
	if len(buf) > 0 {
		for range 3 {
			cut := r.IntN(len(buf))
			whole, start := 0, 0
			for k := range ps {
				if boxes[2*k+1].end <= cut {
					whole, start = k+1, boxes[2*k+1].end
				}
			}
			var part fmp4.Parts
			c.Notef("cut at %d of %d", cut, len(buf))
			c.Protect("Parts.Unmarshal", func() { err = part.Unmarshal(buf[:cut:cut]) })
			switch {
			case cut == start:
				c.NoErr(err, "fragments cut between two of them")
				comparePartsRead(c, ps[:whole], part)
			case cut < start+8 && err == nil: // not even a header is left: nothing is missing
				comparePartsRead(c, ps[:whole], part)
			default:
				c.Check(err != nil, "fragments cut at byte %d of %d are accepted", cut, len(buf))
				c.Count("cut_refused", 1)
			}
		}
	}
	c.Count("parts", len(ps))
	c.Count("samples", total)
	c.Max("bytes", int64(len(buf)))
	c.Distinct("parts", buf)
	if len(ps) > 0 {
		c.Sample("%d parts, %d samples, %d bytes", len(ps), total, len(buf))
	}
}

// c11Foreign: fragments of other writers: defaults in the track fragment header, flags of the
// first sample, several runs per track, unsigned offsets, 32-bit base times, other boxes.
func c11Foreign(c *Case) {
	r := c.R
	full := func(typ string, version byte, flags uint32, content ...[]byte) []byte {
		b := u32b(uint32(version)<<24 | flags)
		for _, x := range content {
			b = append(b, x...)
		}
		if r.IntN(16) == 0 && typ != "trun" {
			return box64Bytes(typ, b)
		}
		return boxBytes(typ, b)
	}
	other := func(top bool) []byte {
		if r.IntN(4) != 0 {
			return nil
		}
		if !top {
			return pick(r, boxBytes("free", payload(r, r.IntN(9))), boxBytes("wxyz", payload(r, r.IntN(20))),
				full("senc", 0, 0, u32b(0)), boxBytes("uuid", payload(r, 16+r.IntN(9))))
		}
		return pick(r, boxBytes("free", payload(r, r.IntN(9))), boxBytes("styp", []byte("msdh\x00\x00\x00\x00msdhmsix")),
			boxBytes("wxyz", payload(r, r.IntN(20))), boxBytes("skip", nil),
			full("prft", 0, 0, u32b(1, 2, 3, 4)))
	}
	var want fmp4.Parts
	var buf []byte
	runs, firsts := 0, 0
	backward := 0
	prevPos, prevEnd := 0, 0 // content of the previous mdat
	for range 1 + r.IntN(3) {
		buf = append(buf, other(true)...)
		p := &fmp4.Part{SequenceNumber: uint32(edge(r, 32))}
		want = append(want, p)
		head := append(full("mfhd", 0, 0, u32b(p.SequenceNumber)), other(false)...)
		var data []byte
		type patch struct {
			pos, off int
			abs      bool
		}
		var patches []patch
		mdat64 := r.IntN(8) == 0
		for _, id := range genTrackIDs(r, 1+r.IntN(3)) {
			t := &fmp4.PartTrack{ID: id, BaseTime: edge(r, 64)}
			p.Tracks = append(p.Tracks, t)
			defDur, defSize, defFlags := uint32(edge(r, 32)), uint32(r.IntN(40)), r.Uint32()
			tfFlags := uint32(0x020000)
			var tfBody []byte
			tfBody = append(tfBody, u32b(uint32(id))...)
			if flip(r) { // sample description
				tfFlags |= 2
				tfBody = append(tfBody, u32b(1)...)
			}
			for k, v := range []uint32{defDur, defSize, defFlags} {
				if flip(r) {
					tfFlags |= 8 << k
					tfBody = append(tfBody, u32b(v)...)
				}
			}
			traf := append(full("tfhd", 0, tfFlags, tfBody), other(false)...)
			if t.BaseTime < 1<<32 && flip(r) {
				traf = append(traf, full("tfdt", 0, 0, u32b(uint32(t.BaseTime)))...)
			} else {
				traf = append(traf, full("tfdt", 1, 0, u32b(uint32(t.BaseTime>>32), uint32(t.BaseTime)))...)
			}
			traf = append(traf, other(false)...)
			for range r.IntN(4) {
				runs++
				n := r.IntN(6)
				flags := uint32(1)
				if tfFlags&8 == 0 || flip(r) {
					flags |= 0x100
				}
				if tfFlags&16 == 0 || flip(r) {
					flags |= 0x200
				}
				switch {
				case tfFlags&32 == 0 || r.IntN(3) == 0:
					flags |= 0x400
				case flip(r):
					flags |= 4
				}
				version := byte(r.IntN(2))
				if flip(r) {
					flags |= 0x800
				}
				first := r.Uint32()
				data = append(data, payload(r, r.IntN(3))...) // hole
				start := len(data)
				back := flags&0x200 != 0 && prevEnd > prevPos && r.IntN(3) == 0 // in the media data of the previous fragment
				at := 0
				if back {
					at = prevPos + r.IntN(prevEnd-prevPos)
					start = at
					backward++
				}
				var ent []byte
				for k := range n {
					s := &fmp4.Sample{Duration: defDur}
					size, fl := defSize, defFlags
					if k == 0 && flags&4 != 0 {
						fl = first
						firsts++
					}
					if flags&0x100 != 0 {
						s.Duration = uint32(edge(r, 32))
						ent = append(ent, u32b(s.Duration)...)
					}
					if flags&0x200 != 0 {
						size = uint32(r.IntN(60))
						if back {
							size = min(size, uint32(prevEnd-at))
						}
						ent = append(ent, u32b(size)...)
					}
					if flags&0x400 != 0 {
						fl = r.Uint32()
						ent = append(ent, u32b(fl)...)
					}
					if flags&0x800 != 0 {
						s.PTSOffset = int32(uint32(edge(r, 32)))
						if version == 0 {
							s.PTSOffset = int32(uint32(edge(r, 31)))
						}
						ent = append(ent, u32b(uint32(s.PTSOffset))...)
					}
					s.IsNonSyncSample = fl&0x10000 != 0
					if back {
						s.Payload = clone(buf[at : at+int(size)])
						at += int(size)
					} else {
						s.Payload = payload(r, int(size))
						data = append(data, s.Payload...)
					}
					t.Samples = append(t.Samples, s)
				}
				body := u32b(uint32(n), 0)
				if flags&4 != 0 {
					body = append(body, u32b(first)...)
				}
				b := full("trun", version, flags, append(body, ent...))
				patches = append(patches, patch{8 + len(head) + 8 + len(traf) + 16, start, back})
				traf = append(append(traf, b...), other(false)...)
			}
			head = append(head, boxBytes("traf", traf)...)
		}
		moof := boxBytes("moof", head)
		mid := other(true)
		hdr := 8
		if mdat64 {
			hdr = 16
		}
		for _, x := range patches {
			if x.abs {
				copy(moof[x.pos:], u32b(uint32(int32(x.off-len(buf)))))
			} else {
				copy(moof[x.pos:], u32b(uint32(len(moof)+len(mid)+hdr+x.off)))
			}
		}
		buf = append(append(buf, moof...), mid...)
		if mdat64 {
			buf = append(buf, box64Bytes("mdat", data)...)
		} else {
			buf = append(buf, boxBytes("mdat", data)...)
		}
		prevPos, prevEnd = len(buf)-len(data), len(buf)
	}
	buf = append(buf, other(true)...)
	c.Input("parts", buf)
	var got fmp4.Parts
	var err error
	c.Protect("Parts.Unmarshal", func() { err = got.Unmarshal(buf) })
	c.NoErr(err, "Parts.Unmarshal")
	comparePartsRead(c, want, got)
	c.Count("foreign", 1)
	c.Count("foreign_runs", runs)
	c.Count("first_sample_flags", firsts)
	c.Count("backward_runs", backward)
	c.Distinct("foreign", buf)
}

// c11Helpers: access units go through samples.
func c11Helpers(c *Case) {
	r := c.R
	var au [][]byte
	for range 1 + r.IntN(5) {
		au = append(au, naluNoStartCode(r, sizeDist(r)))
	}
	off := int32(uint32(edge(r, 32)))
	s1, err := fmp4.NewSampleH264(off, au) //nolint:staticcheck
	c.NoErr(err, "NewSampleH264")
	s2, err := fmp4.NewSampleH265(off, au) //nolint:staticcheck
	c.NoErr(err, "NewSampleH265")
	obus := seedOBUs(r)
	for i := range obus {
		obus[i][0] &^= 0x02
	}
	s3, err := fmp4.NewSampleAV12(obus) //nolint:staticcheck
	c.NoErr(err, "NewSampleAV1")
	if flip(r) { // samples that are filled again
		used := func() *fmp4.Sample {
			s := &fmp4.Sample{PTSOffset: int32(r.Uint32()), IsNonSyncSample: flip(r), Payload: randBytes(r, r.IntN(50))}
			if flip(r) {
				c.NoErr(s.FillH264(int32(r.Uint32()), [][]byte{{pick[byte](r, 5, 1), 2, 3}}), "FillH264")
			}
			return s
		}
		s1, s2, s3 = used(), used(), used()
		s3.PTSOffset = 0
		c.NoErr(s1.FillH264(off, au), "FillH264")
		c.NoErr(s2.FillH265(off, au), "FillH265")
		c.NoErr(s3.FillAV1(obus), "FillAV1")
		c.Count("refilled", 1)
	}
	c.Check(s1.PTSOffset == off && s2.PTSOffset == off && s3.PTSOffset == 0, "offsets %d %d %d of filled samples, want %d %d 0", s1.PTSOffset, s2.PTSOffset, s3.PTSOffset, off, off)
	s1.Duration, s2.Duration, s3.Duration = uint32(r.IntN(10000)), uint32(r.IntN(10000)), uint32(r.IntN(10000))
	ps := fmp4.Parts{{Tracks: []*fmp4.PartTrack{{ID: 1, Samples: []*fmp4.Sample{s1}}, {ID: 2, Samples: []*fmp4.Sample{s2}}, {ID: 3, Samples: []*fmp4.Sample{s3}}}}}
	checkParts(c, ps)
	var sb seekablebuffer.Buffer
	c.NoErr(ps.Marshal(&sb), "Marshal")
	var got fmp4.Parts
	c.NoErr(got.Unmarshal(sb.Bytes()), "Unmarshal")
	x, err := got[0].Tracks[0].Samples[0].GetH264()
	c.NoErr(err, "GetH264")
	c.Check(equalList(x, au), "H264 access unit %s, want %s", hexList(x), hexList(au))
	x, err = got[0].Tracks[1].Samples[0].GetH265()
	c.NoErr(err, "GetH265")
	c.Check(equalList(x, au), "H265 access unit %s, want %s", hexList(x), hexList(au))
	x, err = got[0].Tracks[2].Samples[0].GetAV1()
	c.NoErr(err, "GetAV1")
	c.Check(equalList(x, obus), "AV1 temporal unit %s, want %s", hexList(x), hexList(obus))
	c.Count("helpers", 1)
}

func init() {
	register(&Property{
		ID: "C10",
		Rule: "random track lists over every codec and parameter are marshalled; an independent box parser verifies nesting, headers and codec boxes bit for bit, " +
			"the reader has to return an equal description, and marshalling it again the same bytes",
		Assumptions: []string{
			"bit rates are written but not read back; they are judged in the written boxes only",
			"values which the container cannot represent are not generated, except LPCM sample rates (known finding)",
		},
		Require: []string{
			"inits", "user_data", "init_cut_refused", "hvcc", "lpcm_rate", "unfit_refused", "foreign", "high_rates", "derived_fields", "hvcc_sei_arrays", "hvcc_orders", "av1c_metadata", "flac_more_blocks", "unsupported_tracks", "dec3_extensions", "stsd_last", "largest_parameters", "entry:avc1", "entry:hvc1", "entry:av01", "entry:vp09", "entry:mp4v", "entry:mp4a", "entry:Opus",
			"entry:fLaC", "entry:ac-3", "entry:ec-3", "entry:ipcm",
		},
		Families: []Family{
			{Name: "init", Quick: 12000, Thorough: 1000000, Run: c10Init},
			{Name: "wide", Quick: 40, Thorough: 3000, Run: c10Init},
			{Name: "lpcm-rate", Quick: 5, Thorough: 5, Run: c10LPCMRate},
			{Name: "hvcc", Quick: 8, Thorough: 1000, Run: c10HvcC},
			{Name: "unfit", Quick: 300, Thorough: 20000, Run: c10Unfit},
			{Name: "foreign", Quick: 8000, Thorough: 600000, Run: c10Foreign},
		},
	})
	register(&Property{
		ID: "C11",
		Rule: "random part lists are marshalled; an independent box parser finds every sample at the place, with the size, duration, offset and flags that were written, " +
			"the reader has to return equal parts, and marshalling them again the same bytes",
		Assumptions: []string{"at most 19200 samples per track run, the documented limit of the reader"},
		Require:     []string{"parts", "samples", "helpers", "refilled", "appended", "foreign", "foreign_runs", "backward_runs", "first_sample_flags", "cut_refused"},
		Families: []Family{
			{Name: "parts", Quick: 20000, Thorough: 1500000, Run: c11Parts},
			{Name: "big", Quick: 40, Thorough: 2000, Run: c11Parts},
			{Name: "wide", Quick: 80, Thorough: 6000, Run: c11Wide},
			{Name: "foreign", Quick: 12000, Thorough: 800000, Run: c11Foreign},
			{Name: "helpers", Quick: 5000, Thorough: 300000, Run: c11Helpers},
		},
	})
}
