package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// C12: presentations.

// genPres is a presentation along with what is known about it.
type genPres struct {
	p        *pmp4.Presentation
	outs     []*genCodecOut
	payloads [][][]byte
	calls    int
}

func genPresentation(r *rand.Rand, kind int) *genPres { return genPresentationN(r, kind, 0) }

// genPresentationN generates a presentation with up to maxSamples samples per track, or with few samples.
func genPresentationN(r *rand.Rand, kind int, maxSamples int) *genPres {
	g := &genPres{p: &pmp4.Presentation{}}
	n := 1 + r.IntN(pick(r, 1, 2, 4, 8))
	if maxSamples < 0 { // many tracks
		n = -maxSamples
		maxSamples = 0
	} else if maxSamples != 0 {
		n = pick(r, 1, 2, 2, 3)
	}
	if maxSamples > 100000 {
		n = 1
	}
	ids := genTrackIDs(r, n)
	for k := range n {
		if k > 0 {
			kind = r.IntN(codecKinds)
		}
		o := genMP4Codec(r, kind)
		g.outs = append(g.outs, o)
		t := &pmp4.Track{ID: ids[k], TimeScale: genTimeScale(r), Codec: o.codec}
		count := pick(r, 0, 1, 2, r.IntN(12), r.IntN(60), r.IntN(200))
		budget := uint64(1)<<32 - 1
		durKind, offKind, syncKind, sizeKind := r.IntN(5), r.IntN(3), r.IntN(3), r.IntN(5)
		if maxSamples != 0 { // plausible durations, in order to get many chunks
			count = maxSamples/8 + r.IntN(maxSamples)
			t.TimeScale = pick[uint32](r, 1000, 48000, 90000)
			durKind, sizeKind = pick(r, 2, 4), r.IntN(4)
		}
		constDur := uint32(edge(r, 25))
		if maxSamples != 0 {
			constDur = t.TimeScale / pick[uint32](r, 24, 25, 30, 47, 50)
		}
		rare := -1 // the only sample that is not like the others
		if r.IntN(4) == 0 {
			rare = pick(r, 0, count-1, r.IntN(count+1))
			offKind, syncKind = 0, 0
		}
		var pls [][]byte
		total := uint64(0)
		for i := range count {
			s := &pmp4.Sample{}
			switch durKind {
			case 0:
				s.Duration = constDur
			case 1:
				s.Duration = pick[uint32](r, 0, 1, 2)
			case 2:
				s.Duration = uint32(r.IntN(100000))
			case 3:
				s.Duration = uint32(edge(r, 32))
			default:
				s.Duration = pick(r, constDur, constDur, constDur+1)
			}
			if total+uint64(s.Duration) > budget {
				s.Duration = 0
			}
			total += uint64(s.Duration)
			switch offKind {
			case 1:
				s.PTSOffset = int32(uint32(edge(r, 32)))
			case 2:
				s.PTSOffset = pick[int32](r, 0, 0, 3000, -3000)
			}
			switch syncKind {
			case 1:
				s.IsNonSyncSample = flip(r)
			case 2:
				s.IsNonSyncSample = r.IntN(10) != 0
			}
			if i == rare {
				s.PTSOffset, s.IsNonSyncSample = pick[int32](r, 0, 0, 1, -1), flip(r)
			}
			var pl []byte
			switch sizeKind {
			case 0:
				pl = payload(r, r.IntN(2))
			case 1:
				pl = payload(r, 7)
			case 2:
				pl = payload(r, r.IntN(300))
			case 3:
				pl = payload(r, pick(r, 0, 0, 1, 5))
			default:
				pl = payload(r, pick(r, 0, 10, r.IntN(2000)))
			}
			s.PayloadSize = uint32(len(pl))
			s.GetPayload = func() ([]byte, error) {
				g.calls++
				return pl, nil
			}
			pls = append(pls, pl)
			t.Samples = append(t.Samples, s)
		}
		switch r.IntN(4) {
		case 0:
			t.TimeOffset = int32(uint32(edge(r, 32)))
		case 1:
			t.TimeOffset = int32(r.IntN(200001) - 100000)
		}
		if v := int64(total) + int64(t.TimeOffset); v < 0 || v > int64(budget) {
			t.TimeOffset = 0
		}
		g.payloads = append(g.payloads, pls)
		g.p.Tracks = append(g.p.Tracks, t)
	}
	return g
}

// choppy is a reader that returns fewer bytes than asked.
type choppy struct {
	io.ReadSeeker
	r *rand.Rand
}

func (s *choppy) Read(p []byte) (int, error) {
	if len(p) > 1 && s.r.IntN(2) == 0 {
		p = p[:1+s.r.IntN(len(p)-1)]
	}
	return s.ReadSeeker.Read(p)
}

// checkPresBytes verifies a presentation through an independent parser.
func checkPresBytes(c *Case, g *genPres, buf []byte) {
	boxes, err := walkBoxes(buf, 0, len(buf), "")
	c.NoErr(err, "box tree")
	root := rootOf(boxes)
	c.Check(fmt.Sprint(root.types()) == "[ftyp moov mdat]", "top-level boxes %v", root.types())
	moov, mdat := root.one("moov"), root.one("mdat")
	mv := moov.one("mvhd").raw
	c.Check(len(mv) == 100 && be32(mv, 12) != 0, "mvhd %x", mv)
	movieScale := uint64(be32(mv, 12))
	traks := moov.all("trak")
	c.Check(len(traks) == len(g.p.Tracks), "%d trak boxes, want %d", len(traks), len(g.p.Tracks))
	type span struct {
		a, b int
		at   int64 // decoding time, in nanoseconds
		trk  int
	}
	var spans []span
	maxDur := uint32(0)
	judgeDur := true
	for k, t := range g.p.Tracks {
		tr := traks[k]
		checkTrackHeaders(c, tr, g.outs[k], t.ID, t.TimeScale)
		avg := uint32(128825)
		if isVideoCodec(t.Codec) {
			avg = 1000000
		}
		stbl := tr.one("mdia", "minf", "stbl")
		checkSampleEntry(c, stbl.one("stsd").children[0], g.outs[k], t.ID, avg, avg, false)

		// durations
		total := uint64(0)
		for _, s := range t.Samples {
			total += uint64(s.Duration)
		}
		want := uint64(int64(total)+int64(t.TimeOffset)) * movieScale / uint64(t.TimeScale)
		if want < 1<<32 {
			d := be32(tr.one("tkhd").raw, 20)
			c.Check(uint64(d) == want, "tkhd: duration %d, want %d", d, want)
			maxDur = max(maxDur, d)
		} else {
			judgeDur = false
		}
		el := tr.one("edts", "elst").raw
		c.Check(el[0] == 0 && len(el) == 8+12*int(be32(el, 4)), "elst %x", el)
		if t.TimeOffset > 0 {
			c.Check(be32(el, 4) == 2 && int32(be32(el, 12)) == -1 && be32(el, 24) == 0, "elst for time offset %d: %x", t.TimeOffset, el)
			if w := total * movieScale / uint64(t.TimeScale); w < 1<<32 {
				c.Check(uint64(be32(el, 20)) == w, "elst: duration %d, want %d", be32(el, 20), w)
			}
			if w := uint64(t.TimeOffset) * movieScale / uint64(t.TimeScale); w < 1<<32 {
				c.Check(uint64(be32(el, 8)) == w, "elst: pause %d, want %d", be32(el, 8), w)
			}
		} else {
			c.Check(be32(el, 4) == 1 && int32(be32(el, 12)) == -t.TimeOffset, "elst for time offset %d: %x", t.TimeOffset, el)
			// of the two values, only the first is right: see c12EditList
			skip := uint64(-int64(t.TimeOffset))
			w, own := (total-skip)*movieScale/uint64(t.TimeScale), (total+skip)*movieScale/uint64(t.TimeScale)
			if own < 1<<32 {
				d := uint64(be32(el, 8))
				c.Check(d == w || d == own, "elst: duration %d, want %d", d, w)
			}
		}
		md := uint64(be32(tr.one("mdia", "mdhd").raw, 16))
		c.Check(md == total || md == uint64(int64(total)+int64(t.TimeOffset)), "mdhd: duration %d, want %d", md, total)

		// times
		i, n := 0, len(t.Samples)
		tts := stbl.one("stts").raw
		c.Check(len(tts) == 8+8*int(be32(tts, 4)), "stts %x", tts)
		for e := range int(be32(tts, 4)) {
			cnt, d := int(be32(tts, 8+8*e)), be32(tts, 12+8*e)
			c.Check(cnt > 0 && i+cnt <= n, "stts entry %d covers %d samples from %d, of %d", e, cnt, i, n)
			for range cnt {
				c.Check(t.Samples[i].Duration == d, "stts: duration of sample %d is %d, want %d", i, d, t.Samples[i].Duration)
				i++
			}
		}
		c.Check(i == n, "stts covers %d samples of %d", i, n)
		i = 0
		if l := stbl.all("ctts"); len(l) > 0 {
			ct := l[0].raw
			c.Check(len(ct) == 8+8*int(be32(ct, 4)), "ctts %x", ct)
			for e := range int(be32(ct, 4)) {
				cnt, o := int(be32(ct, 8+8*e)), int32(be32(ct, 12+8*e))
				c.Check(cnt > 0 && i+cnt <= n && (ct[0] == 1 || o >= 0), "ctts entry %d covers %d samples from %d, of %d", e, cnt, i, n)
				for range cnt {
					c.Check(t.Samples[i].PTSOffset == o, "ctts: offset of sample %d is %d, want %d", i, o, t.Samples[i].PTSOffset)
					i++
				}
			}
		} else {
			for _, s := range t.Samples {
				c.Check(s.PTSOffset == 0, "no ctts, with offset %d", s.PTSOffset)
				i++
			}
		}
		c.Check(i == n, "ctts covers %d samples of %d", i, n)

		// sync
		sync := make([]bool, n)
		if l := stbl.all("stss"); len(l) > 0 {
			ss := l[0].raw
			c.Check(len(ss) == 8+4*int(be32(ss, 4)), "stss %x", ss)
			prev := 0
			for e := range int(be32(ss, 4)) {
				v := int(be32(ss, 8+4*e))
				c.Check(v > prev && v <= n, "stss: sample %d after %d, of %d", v, prev, n)
				sync[v-1] = true
				prev = v
			}
		} else {
			for i := range sync {
				sync[i] = true
			}
		}
		for i, s := range t.Samples {
			c.Check(sync[i] != s.IsNonSyncSample, "sync flag of sample %d", i)
		}

		// places
		sz, sc, so := stbl.one("stsz").raw, stbl.one("stsc").raw, stbl.one("stco").raw
		c.Check(int(be32(sz, 8)) == n, "stsz declares %d samples, want %d", be32(sz, 8), n)
		sizes := make([]int, n)
		for i := range sizes {
			if v := be32(sz, 4); v != 0 {
				sizes[i] = int(v)
			} else {
				sizes[i] = int(be32(sz, 12+4*i))
			}
		}
		chunks := int(be32(so, 4))
		c.Check(len(so) == 8+4*chunks && len(sc) == 8+12*int(be32(sc, 4)), "sizes of stco and stsc")
		entries := int(be32(sc, 4))
		for e := 1; e < entries; e++ {
			c.Check(be32(sc, 8+12*e) > be32(sc, 8+12*(e-1)), "stsc: entry %d starts at chunk %d, the previous one at %d", e, be32(sc, 8+12*e), be32(sc, 8+12*(e-1)))
		}
		i = 0
		e := -1
		at := int64(t.TimeOffset)
		scale := int64(t.TimeScale)
		for ch := 1; ch <= chunks; ch++ {
			for e+1 < entries && int(be32(sc, 8+12*(e+1))) == ch {
				e++
			}
			c.Check(e >= 0 && (e+1 >= entries || int(be32(sc, 8+12*(e+1))) > ch), "stsc does not cover chunk %d", ch)
			c.Check(be32(sc, 16+12*e) == 1, "sample description index of stsc")
			off := int(be32(so, 8+4*(ch-1)))
			for range int(be32(sc, 12+12*e)) {
				c.Check(i < n, "chunks contain more than %d samples", n)
				pl := g.payloads[k][i]
				c.Check(sizes[i] == len(pl), "size of sample %d is %d, want %d", i, sizes[i], len(pl))
				c.Check(off >= mdat.body && off+len(pl) <= mdat.end && bytes.Equal(buf[off:off+len(pl)], pl),
					"track %d sample %d: payload is not at %d", k, i, off)
				if len(pl) > 0 {
					spans = append(spans, span{off, off + len(pl), at/scale*1e9 + at%scale*1e9/scale, k})
				}
				at += int64(t.Samples[i].Duration)
				off += sizes[i]
				i++
			}
		}
		c.Check(i == n, "chunks contain %d samples of %d", i, n)
		c.Check(e == entries-1, "stsc contains %d entries, used %d", entries, e+1)
		c.Count("samples", n)
		c.Count("chunks", chunks)
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
	pos := mdat.body
	for i, s := range spans {
		c.Check(s.a == pos, "media data: a sample starts at %d, the previous one ends at %d", s.a, pos)
		c.Check(i == 0 || s.at >= spans[i-1].at, "media data: a sample of track %d with time %d ns follows one of track %d with time %d ns",
			s.trk, s.at, spans[max(i, 1)-1].trk, spans[max(i, 1)-1].at)
		pos = s.b
	}
	c.Check(pos == mdat.end, "mdat ends at %d, samples at %d", mdat.end, pos)
	if judgeDur {
		c.Check(be32(mv, 16) == maxDur, "mvhd: duration %d, longest track %d", be32(mv, 16), maxDur)
	}
}

// checkPresRead verifies that what was read is the same presentation.
// checkPresRead compares a presentation read from src with what was written.
func checkPresRead(c *Case, g *genPres, got *pmp4.Presentation, skip map[int]bool, src io.Seeker) {
	r := c.R
	var want []*pmp4.Track
	var pls [][][]byte
	for k, t := range g.p.Tracks {
		if !skip[k] {
			want = append(want, t)
			pls = append(pls, g.payloads[k])
		}
	}
	c.Check(len(got.Tracks) == len(want), "%d tracks read, want %d", len(got.Tracks), len(want))
	type ref struct{ k, i int }
	var refs []ref
	for k, t := range want {
		q := got.Tracks[k]
		c.Check(q.ID == t.ID && q.TimeScale == t.TimeScale && q.TimeOffset == t.TimeOffset,
			"track %d: id %d time scale %d offset %d, want %d %d %d", k, q.ID, q.TimeScale, q.TimeOffset, t.ID, t.TimeScale, t.TimeOffset)
		c.Check(deepEq(q.Codec, t.Codec), "track %d: codec read as %T %+v, want %T %+v", k, q.Codec, deref(q.Codec), t.Codec, deref(t.Codec))
		c.Check(len(q.Samples) == len(t.Samples), "track %d: %d samples, want %d", k, len(q.Samples), len(t.Samples))
		for i, s := range t.Samples {
			x := q.Samples[i]
			c.Check(x.Duration == s.Duration && x.PTSOffset == s.PTSOffset && x.IsNonSyncSample == s.IsNonSyncSample && x.PayloadSize == s.PayloadSize,
				"track %d sample %d: %d %d %v %d, want %d %d %v %d", k, i, x.Duration, x.PTSOffset, x.IsNonSyncSample, x.PayloadSize,
				s.Duration, s.PTSOffset, s.IsNonSyncSample, s.PayloadSize)
			c.Check(x.GetPayload != nil, "track %d sample %d has no payload", k, i)
			refs = append(refs, ref{k, i})
			if r.IntN(4) == 0 {
				refs = append(refs, ref{k, i})
			}
		}
	}
	// payloads, in any order and repeatedly
	if flip(r) {
		r.Shuffle(len(refs), func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
	}
	for _, f := range refs {
		var pl []byte
		var err error
		if r.IntN(4) == 0 { // the file is used by others, too
			_, err = src.Seek(int64(r.IntN(3000)), io.SeekStart)
			c.NoErr(err, "Seek")
			c.Count("moved_files", 1)
		}
		c.Protect("GetPayload", func() { pl, err = got.Tracks[f.k].Samples[f.i].GetPayload() })
		c.NoErr(err, "GetPayload")
		c.Check(bytes.Equal(pl, pls[f.k][f.i]), "track %d sample %d: payload %s, want %s", f.k, f.i, hexShort(pl), hexShort(pls[f.k][f.i]))
		if len(pl) > 0 {
			pl[0] ^= 0xFF // owned by the caller
		}
		c.Count("lazy_reads", 1)
	}
}

func c12Pres(c *Case) {
	r := c.R
	longest := 0
	if c.Fam == "long" {
		longest = pick(r, 600, 2000, 5000)
		if c.Idx%40 == 7 {
			longest = 300000 // samples of a chunk do not fit 16 bits
			c.Count("long_chunks", 1)
		}
	}
	if c.Fam == "wide" {
		longest = -pick(r, 33, 65, 129, 257, 30+r.IntN(300))
	}
	g := genPresentationN(r, c.Idx%codecKinds, longest)
	var out bytes.Buffer
	c.NoErr(g.p.Marshal(&out), "Presentation.Marshal")
	buf := out.Bytes()
	c.Input("presentation", buf)
	checkPresBytes(c, g, buf)

	src := append([]byte(nil), buf...)
	var rd io.ReadSeeker = bytes.NewReader(src)
	if flip(r) {
		rd = &choppy{rd, r}
	}
	var got pmp4.Presentation
	var err error
	c.Protect("Presentation.Unmarshal", func() { err = got.Unmarshal(rd) })
	c.NoErr(err, "Presentation.Unmarshal")
	checkPresRead(c, g, &got, nil, rd)

	var out2 bytes.Buffer
	c.NoErr(got.Marshal(&out2), "Marshal of what was read")
	c.Check(bytes.Equal(out2.Bytes(), buf), "marshalling what was read gives different bytes")
	c.Count("presentations", 1)
	c.Count("tracks", len(g.p.Tracks))
	c.Max("bytes", int64(len(buf)))
	c.Distinct("pres", buf)
	c.Sample("%d tracks, first %T with %d samples, %d bytes", len(g.p.Tracks), g.p.Tracks[0].Codec, len(g.p.Tracks[0].Samples), len(buf))
}

// c12Foreign: presentations written by others: media data first, other boxes, sample groups
// per chunk, tables without compression, 64-bit headers, tracks with unsupported codecs.
func c12Foreign(c *Case) {
	r := c.R
	g := genPresentation(r, c.Idx%codecKinds)
	var out bytes.Buffer
	c.NoErr(g.p.Marshal(&out), "Marshal")
	boxes, err := walkBoxes(out.Bytes(), 0, out.Len(), "")
	c.NoErr(err, "boxes")
	root := rootOf(boxes)
	moov := root.one("moov")
	skip := map[int]bool{}
	// new media data: chunks of random length, in random order among tracks, with holes
	var mdat []byte
	type pl struct{ chunks, sizes []int }
	places := make([]pl, len(g.p.Tracks))
	next := make([]int, len(g.p.Tracks))
	perChunk := make([]int, len(g.p.Tracks))
	for k := range perChunk {
		perChunk[k] = pick(r, 0, 1+r.IntN(4))
	}
	for {
		var avail []int
		for k, t := range g.p.Tracks {
			if next[k] < len(t.Samples) {
				avail = append(avail, k)
			}
		}
		if len(avail) == 0 {
			break
		}
		k := avail[r.IntN(len(avail))]
		n := perChunk[k]
		if n == 0 {
			n = 1 + r.IntN(5)
		}
		n = min(n, len(g.p.Tracks[k].Samples)-next[k])
		mdat = append(mdat, make([]byte, r.IntN(4))...)
		places[k].chunks = append(places[k].chunks, len(mdat))
		places[k].sizes = append(places[k].sizes, n)
		for range n {
			mdat = append(mdat, g.payloads[k][next[k]]...)
			next[k]++
		}
	}
	var ftyp []byte
	mdatFirst := flip(r)
	variants := make([]int, len(g.p.Tracks))
	for k := range variants {
		variants[k] = r.IntN(32) & r.IntN(32)
	}
	// sample entries of other writers
	entries := make([][]byte, len(g.p.Tracks))
	for k, tr := range moov.all("trak") {
		if flip(r) {
			entries[k] = foreignEntry(c, r, g.outs[k], tr.one("mdia", "minf", "stbl", "stsd").children[0].entry)
			c.Count("foreign_entries", 1)
		}
	}
	build := func(base int) []byte {
		tail := []byte{}
		for k, tr := range moov.all("trak") {
			v1 := variants[k]
			tail = append(tail, rebuildTrak(r, c, tr, func(x *mbox) []byte {
				switch x.typ {
				case "stsd":
					if entries[k] != nil && !skip[k] {
						return append([]byte{0, 0, 0, 0, 0, 0, 0, 1}, entries[k]...)
					}
				case "stsc":
					b := make([]byte, 8)
					var ent []byte
					n := 0
					for i, s := range places[k].sizes {
						if i > 0 && places[k].sizes[i-1] == s && c.Idx%2 == 0 {
							continue
						}
						ent = append(ent, u32b(uint32(i+1), uint32(s), 1)...)
						n++
					}
					copy(b[4:], u32b(uint32(n)))
					return append(b, ent...)
				case "stco":
					b := append(make([]byte, 4), u32b(uint32(len(places[k].chunks)))...)
					for _, o := range places[k].chunks {
						b = append(b, u32b(uint32(base+o))...)
					}
					return b
				case "mdhd":
					if v1&1 != 0 { // 64-bit times
						b := append(u32b(1<<24), make([]byte, 16)...)
						b = append(b, x.raw[12:16]...)
						b = append(b, 0, 0, 0, 0)
						return append(b, x.raw[16:]...)
					}
				case "tkhd":
					if v1&2 != 0 {
						b := append([]byte{1}, x.raw[1:4]...)
						b = append(b, make([]byte, 16)...)
						b = append(b, x.raw[12:20]...)
						b = append(b, 0, 0, 0, 0)
						return append(b, x.raw[20:]...)
					}
				case "elst":
					if v1&4 != 0 {
						b := append(u32b(1<<24), x.raw[4:8]...)
						for e := x.raw[8:]; len(e) >= 12; e = e[12:] {
							b = append(b, 0, 0, 0, 0)
							b = append(b, e[:4]...)
							sign := byte(int8(e[4]) >> 7)
							b = append(b, sign, sign, sign, sign)
							b = append(b, e[4:12]...)
						}
						return b
					}
				case "stts", "ctts":
					negative := false
					var ent []byte
					n := 0
					for e := x.raw[8:]; len(e) >= 8; e = e[8:] {
						negative = negative || e[4]&0x80 != 0
						for range be32(e, 0) {
							ent = append(append(ent, 0, 0, 0, 1), e[4:8]...)
							n++
						}
					}
					if v1&8 == 0 { // one entry per sample
						ent, n = x.raw[8:], int(be32(x.raw, 4))
					}
					b := append([]byte{x.raw[0], 0, 0, 0}, u32b(uint32(n))...)
					if x.typ == "ctts" && !negative && v1&16 != 0 {
						b[0] = 0 // unsigned offsets
					}
					return append(b, ent...)
				}
				return nil
			})...)
		}
		return append(boxBytes("mvhd", moov.one("mvhd").raw), tail...)
	}
	if r.IntN(4) == 0 && len(g.p.Tracks) > 1 {
		k := r.IntN(len(g.p.Tracks))
		skip[k] = true
		moov.all("trak")[k].one("mdia", "minf", "stbl", "stsd").children[0].typ = "c608"
	}
	ftyp = boxBytes("ftyp", root.one("ftyp").raw)
	// the random choices of rebuildTrak must be the same in the two passes
	seed := r.Uint64()
	pass := func(base int) []byte {
		r = rand.New(rand.NewPCG(seed, 1))
		return boxBytes("moov", build(base))
	}
	var buf []byte
	if mdatFirst {
		m := boxBytes("mdat", mdat)
		buf = append(append(append([]byte(nil), ftyp...), m...), pass(len(ftyp)+8)...)
	} else {
		m1 := pass(0)
		buf = append(append(append([]byte(nil), ftyp...), pass(len(ftyp)+len(m1)+8)...), boxBytes("mdat", mdat)...)
	}
	c.Input("presentation", buf)
	src := bytes.NewReader(buf)
	var got pmp4.Presentation
	c.Protect("Presentation.Unmarshal", func() { err = got.Unmarshal(src) })
	c.NoErr(err, "Presentation.Unmarshal")
	checkPresRead(c, g, &got, skip, src)
	// writing what was read
	var out2 bytes.Buffer
	c.NoErr(got.Marshal(&out2), "Marshal of what was read")
	g2 := &genPres{p: &pmp4.Presentation{}}
	for k := range g.p.Tracks {
		if !skip[k] {
			g2.p.Tracks = append(g2.p.Tracks, g.p.Tracks[k])
			g2.outs = append(g2.outs, g.outs[k])
			g2.payloads = append(g2.payloads, g.payloads[k])
		}
	}
	checkPresBytes(c, g2, out2.Bytes())
	c.Count("foreign", 1)
	c.Count("skipped_tracks", len(skip))
	c.Distinct("foreign", buf)
}

func u32b(v ...uint32) []byte {
	var b []byte
	for _, x := range v {
		b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return b
}

func boxBytes(typ string, content []byte) []byte {
	return append(append(u32b(uint32(8+len(content))), typ...), content...)
}

func box64Bytes(typ string, content []byte) []byte {
	b := append(u32b(1), typ...)
	b = append(b, u32b(0, uint32(16+len(content)))...)
	return append(b, content...)
}

// rebuildTrak serialises a box, with replaced contents, 64-bit headers and unknown boxes.
func rebuildTrak(r *rand.Rand, c *Case, x *mbox, repl func(x *mbox) []byte) []byte {
	content := append([]byte(nil), x.entry...)
	if x.typ == "stsd" {
		if v := repl(x); v != nil {
			return boxBytes(x.typ, v)
		}
	}
	if x.children == nil {
		if v := repl(x); v != nil {
			content = append(content, v...)
		} else {
			content = append(content, x.raw...)
		}
	}
	for _, k := range x.children {
		content = append(content, rebuildTrak(r, c, k, repl)...)
	}
	if _, isContainer := mp4Containers[x.typ]; x.typ != "c608" && (!isContainer || x.typ == "mdia" || x.typ == "trak") && r.IntN(12) == 0 {
		return box64Bytes(x.typ, content)
	}
	return boxBytes(x.typ, content)
}

// sparse is a file whose big parts are not stored.
type sparse struct {
	parts [][]byte
	size  int64
	pos   int64
}

func (s *sparse) Write(p []byte) (int, error) {
	if len(p) < 1<<20 {
		p = append([]byte(nil), p...)
	}
	s.parts = append(s.parts, p)
	s.size += int64(len(p))
	return len(p), nil
}

func (s *sparse) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

func (s *sparse) Read(p []byte) (int, error) {
	off := s.pos
	for _, x := range s.parts {
		if off < int64(len(x)) {
			n := copy(p, x[off:])
			s.pos += int64(n)
			return n, nil
		}
		off -= int64(len(x))
	}
	return 0, io.EOF
}

// c12Huge: presentations close to and beyond 4 GiB.
func c12Huge(c *Case) {
	r := c.R
	big := make([]byte, 1<<28) // shared, never touched
	var sizes []int
	target := []int64{1<<32 - 8, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1<<32 - 700, 1<<32 - 9, 1<<32 - 2000, 5 << 30, 8<<30 + 100}[c.Idx%9]
	left := target
	for left > 4000 {
		n := min(left-4000, int64(len(big)))
		sizes = append(sizes, int(n))
		left -= n
	}
	for left > 0 {
		n := min(left, int64(1+r.IntN(600)))
		sizes = append(sizes, int(n))
		left -= n
	}
	two := (c.Idx/9)%2 == 1
	p := &pmp4.Presentation{}
	for k := range 2 {
		p.Tracks = append(p.Tracks, &pmp4.Track{ID: k + 1, TimeScale: 1000, Codec: genMP4Codec(r, 7).codec})
	}
	type want struct {
		k, i int
		pl   []byte
	}
	var wants []want
	for i, n := range sizes {
		k := 0
		if two {
			k = i % 2
		}
		pl := big[:n]
		if n < 1000 {
			pl = payload(r, n)
			wants = append(wants, want{k, len(p.Tracks[k].Samples), pl})
		}
		p.Tracks[k].Samples = append(p.Tracks[k].Samples, &pmp4.Sample{
			Duration: 1, PayloadSize: uint32(n), GetPayload: func() ([]byte, error) { return pl, nil },
		})
	}
	out := &sparse{}
	err := p.Marshal(out)
	c.Count("huge", 1)
	c.Distinct("huge", c.Idx)
	c.Max("huge_size", out.size)
	if err != nil {
		c.Check(target+2000 > 1<<32, "Marshal of %d bytes: %v", target, err)
		c.Count("huge_refused", 1)
		return
	}
	c.Count("huge_written", 1)
	head := out.parts[0]
	boxes, err := walkBoxes(head, 0, len(head), "")
	c.NoErr(err, "boxes")
	c.Check(len(boxes) == 2, "ftyp and moov")
	hd := append(append([]byte(nil), out.parts[1]...), out.parts[2]...)
	size := int64(be32(hd, 0))
	c.Check(string(hd[4:8]) == "mdat" && size == 8+target, "size of mdat is %d, want %d", size, 8+target)
	var got pmp4.Presentation
	c.NoErr(got.Unmarshal(out), "Unmarshal")
	for _, w := range wants {
		pl, err := got.Tracks[w.k].Samples[w.i].GetPayload()
		c.NoErr(err, "GetPayload")
		c.Check(bytes.Equal(pl, w.pl), "file of %d bytes: payload of sample %d is wrong", out.size, w.i)
		c.Count("huge_reads", 1)
	}
}

// c12EditList: durations of edit lists and media headers, with time offsets (ISO 14496-12, 8.4.2 and 8.6.6).
func c12EditList(c *Case) {
	off := []int32{0, 500, -500, 1, -1, 9000, -9000, -90000}[c.Idx%8]
	const n, dur = 4, 45000
	g := &genPres{p: &pmp4.Presentation{}}
	o := genMP4Codec(c.R, c.Idx/8%2)
	t := &pmp4.Track{ID: 1, TimeScale: 1000, Codec: o.codec, TimeOffset: off}
	for range n {
		t.Samples = append(t.Samples, &pmp4.Sample{Duration: dur, PayloadSize: 3, GetPayload: func() ([]byte, error) { return []byte{1, 2, 3}, nil }})
		g.payloads = append(g.payloads, [][]byte{{1, 2, 3}})
	}
	g.p.Tracks = append(g.p.Tracks, t)
	var out bytes.Buffer
	c.NoErr(g.p.Marshal(&out), "Presentation.Marshal")
	c.Input("presentation", out.Bytes())
	boxes, err := walkBoxes(out.Bytes(), 0, out.Len(), "")
	c.NoErr(err, "box tree")
	moov := rootOf(boxes).one("moov")
	scale := be32(moov.one("mvhd").raw, 12)
	tr := moov.one("trak")
	el := tr.one("edts", "elst").raw
	md := be32(tr.one("mdia", "mdhd").raw, 16)
	c.Count("edit_lists", 1)
	c.Distinct("edit", off)
	d := be32(el, len(el)-12)
	inMovie := func(v int) uint32 { return uint32(uint64(v) * uint64(scale) / 1000) }
	want := inMovie(n * dur)
	if off < 0 {
		want = inMovie(n*dur + int(off))
	}
	if d != want {
		if off < 0 && d == inMovie(n*dur-int(off)) {
			c.FailKeyf("edit-list-duration-negative-offset", "time offset %d: duration of the edit is %d, want %d", off, d, want)
		}
		c.Failf("time offset %d: duration of the edit is %d, want %d", off, d, want)
	}
	if md != n*dur {
		if md == uint32(n*dur+int(off)) {
			c.FailKeyf("media-duration-includes-offset", "time offset %d: duration of the media is %d, want %d", off, md, n*dur)
		}
		c.Failf("time offset %d: duration of the media is %d, want %d", off, md, n*dur)
	}
}

func init() {
	register(&Property{
		ID: "C12",
		Rule: "random presentations are marshalled; an independent parser resolves chunk, size, time and sync tables and has to find every sample where its payload is, without " +
			"holes or overlaps, in the order of decoding times; the reader has to return an equal presentation whose payloads are right in any order and repeatedly, also through short reads; " +
			"presentations rearranged as other writers do (media data first, holes, uncompressed tables, 64-bit headers, unsupported tracks) are read too; sizes around 4 GiB are either refused or exact",
		Assumptions: []string{"the total duration and the duration plus the time offset of a track fit 32 bits"},
		Require:     []string{"presentations", "chunks", "lazy_reads", "moved_files", "long_chunks", "foreign", "foreign_entries", "skipped_tracks", "huge_refused", "huge_written", "huge_reads", "edit_lists"},
		Families: []Family{
			{Name: "presentations", Quick: 8000, Thorough: 500000, Run: c12Pres},
			{Name: "long", Quick: 120, Thorough: 8000, Run: c12Pres},
			{Name: "wide", Quick: 30, Thorough: 2000, Run: c12Pres},
			{Name: "foreign", Quick: 6000, Thorough: 400000, Run: c12Foreign},
			{Name: "huge", Quick: 18, Thorough: 72, Run: c12Huge},
			{Name: "edit-list", Quick: 16, Thorough: 16, Run: c12EditList},
		},
	})
}
