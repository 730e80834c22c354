package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

// ---- C21 ----

// dtsPic is a picture of a generated stream, in decoding order.
type dtsPic struct {
	display int   // position in output order, from the beginning of the stream
	poc     int   // picture order, relative to the last IDR, one unit per picture
	kind    byte  // 'I' (IDR), 'C' (CRA), 'P', 'B' (used for reference), 'b', 'i' (intra anchor)
	keep    []int // pictures (POC) kept as reference when this one is decoded
	reorder int   // pictures that precede it in decoding order and follow it in output order
}

// pyramid emits the pictures between two anchors, in decoding order.
func pyramid(lo, hi int, out *[]int, refs map[int]bool, r *rand.Rand, style int) {
	n := hi - lo - 1
	if n <= 0 {
		return
	}
	switch {
	case style == 0 || n == 1: // all pictures in order, not used for reference
		for p := lo + 1; p < hi; p++ {
			*out = append(*out, p)
		}
	case style == 1: // one reference in the middle
		mid := (lo + hi) / 2
		*out = append(*out, mid)
		refs[mid] = true
		for p := lo + 1; p < hi; p++ {
			if p != mid {
				*out = append(*out, p)
			}
		}
	default: // dyadic
		mid := (lo + hi) / 2
		*out = append(*out, mid)
		refs[mid] = n > 2 || hi-mid > 1 || mid-lo > 1
		pyramid(lo, mid, out, refs, r, style)
		pyramid(mid, hi, out, refs, r, style)
	}
}

// genDTSStream generates the structure of a stream. maxMini is the maximum distance
// between anchors.
func genDTSStream(r *rand.Rand, gops, maxMini int, cra bool, fixed bool) []*dtsPic {
	var out []*dtsPic
	display := 0
	mini := 1 + r.IntN(maxMini)
	style := r.IntN(3)
	maxKeep := pick(r, 1, 3, 3, 9)
	for g := range gops {
		_ = g
		base := display
		out = append(out, &dtsPic{display: display, kind: 'I'})
		display++
		anchor := 0
		anchors := []int{0}
		n := r.IntN(6)
		if r.IntN(4) == 0 {
			n = r.IntN(60)
		}
		for range n {
			m := mini
			if !fixed {
				m = 1 + r.IntN(maxMini)
				style = r.IntN(3)
			}
			next := anchor + m
			a := &dtsPic{display: base + next, poc: next, kind: 'P'}
			if cra && r.IntN(5) == 0 {
				a.kind = 'C'
			} else if r.IntN(10) == 0 {
				a.kind = 'i'
			}
			a.keep = append([]int{}, anchors[max(0, len(anchors)-1-r.IntN(maxKeep)):]...)
			if (a.kind == 'C' || a.kind == 'i') && m == 1 && r.IntN(3) == 0 {
				a.keep = nil // nothing that follows needs what precedes an intra picture
			}
			out = append(out, a)
			var order []int
			refs := map[int]bool{}
			pyramid(anchor, next, &order, refs, r, style)
			decoded := map[int]bool{}
			for i, p := range order {
				x := &dtsPic{display: base + p, poc: p, kind: 'b', keep: []int{anchor, next}}
				if refs[p] {
					x.kind = 'B'
				}
				for d := range decoded {
					// references stay available while pictures that follow them in
					// decoding order may use them
					if refs[d] && i < len(order) {
						x.keep = append(x.keep, d)
					}
				}
				decoded[p] = true
				out = append(out, x)
			}
			anchor = next
			if a.keep == nil || a.kind == 'C' {
				anchors = nil
			}
			anchors = append(anchors, next)
			display = base + next + 1
		}
	}
	for i, p := range out {
		for _, q := range out[:i] {
			if q.display > p.display {
				p.reorder++
			}
		}
	}
	return out
}

func depthOf(pics []*dtsPic) int {
	d := 0
	for _, p := range pics {
		d = max(d, p.reorder)
	}
	return d
}

func describePics(pics []*dtsPic) string {
	s := ""
	for i, p := range pics {
		if i > 40 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" %c%d", p.kind, p.display)
	}
	return s
}

type dtsH264Params struct {
	sps     *h264.SPS
	raw     []byte
	pocBits int
}

func genDTSH264SPS(r *rand.Rand, pocType uint32) *dtsH264Params {
	for {
		s, w := genH264SPS(r)
		if s.PicOrderCntType != pocType || !s.FrameMbsOnlyFlag {
			continue
		}
		w.trailing()
		return &dtsH264Params{
			sps: s, raw: append([]byte{0x67}, escape(w.out())...),
			pocBits: int(s.Log2MaxPicOrderCntLsbMinus4) + 4,
		}
	}
}

func h264Slice(r *rand.Rand, sps *h264.SPS, p *dtsPic, poc int, frameNum int, first bool) []byte {
	w := &bitWriter{}
	if first {
		w.ue(0)
	} else {
		w.ue(uint32(1 + r.IntN(100)))
	}
	typ := map[byte]uint32{'I': 2, 'C': 2, 'i': 2, 'P': 0, 'B': 1, 'b': 1}[p.kind]
	if flip(r) {
		typ += 5
	}
	w.ue(typ)
	w.ue(pick(r, 0, uint32(r.IntN(256))))
	if sps.SeparateColourPlaneFlag {
		w.u(2, uint64(r.IntN(3)))
	}
	w.u(int(sps.Log2MaxFrameNumMinus4)+4, uint64(frameNum)&(1<<(sps.Log2MaxFrameNumMinus4+4)-1))
	if p.kind == 'I' {
		w.ue(pick(r, 0, 1, uint32(r.IntN(65536))))
	}
	n := int(sps.Log2MaxPicOrderCntLsbMinus4) + 4
	w.u(n, uint64(poc)&(1<<n-1))
	w.bytes(randBytes(r, 2+r.IntN(20)))
	w.trailing()
	var h byte
	switch p.kind {
	case 'I':
		h = 0x65
	case 'b':
		h = 0x01
	default:
		h = pick[byte](r, 0x41, 0x61, 0x21)
	}
	return append([]byte{h}, escape(w.out())...)
}

func h264Extras(r *rand.Rand) [][]byte {
	var out [][]byte
	if r.IntN(4) == 0 {
		out = append(out, []byte{0x09, 0xF0})
	}
	if r.IntN(4) == 0 {
		out = append(out, append([]byte{0x06}, randBytes(r, 1+r.IntN(30))...))
	}
	return out
}

// dtsMonitor checks a sequence of calls online.
type dtsMonitor struct {
	prev   int64
	filled bool
}

// step checks what holds for any input. It returns whether the step was an adaptation.
func (m *dtsMonitor) step(c *Case, i int, pts, dts int64, adaptations bool) bool {
	adapt := false
	if m.filled {
		c.Check(dts >= m.prev, "access unit %d: DTS %d is lower than the previous DTS %d (PTS %d)", i, dts, m.prev, pts)
		adapt = adaptations && dts-m.prev == 90
	}
	if dts > pts {
		c.Check(adapt, "access unit %d: DTS %d is after PTS %d (previous DTS %d)", i, dts, pts, m.prev)
		c.Count("overshoot_while_adapting", 1)
	}
	m.prev = dts
	m.filled = true
	return adapt
}

// dtsClock maps output positions to PTS, at a constant frame rate which may not be a
// whole number of ticks.
type dtsClock struct {
	base     int64
	num, den int64 // duration of a frame
	gapAt    int   // output position before which a gap is inserted
	gap      int64
}

func genDTSClock(r *rand.Rand) *dtsClock {
	k := &dtsClock{den: 1}
	k.num = pick[int64](r, 1500, 1800, 3000, 3003, 3600, 3750, 6006, 18000, 90000)
	if r.IntN(4) == 0 {
		k.num, k.den = 90000*1001, 24000
	}
	k.base = pick[int64](r, 0, 0, 56890, -90000, 1<<33, int64(r.IntN(1<<40)))
	k.gapAt = -1
	return k
}

func (k *dtsClock) pts(display int) int64 {
	v := k.base + int64(display)*k.num/k.den
	if k.gapAt >= 0 && display >= k.gapAt {
		v += k.gap
	}
	return v
}

func c21H264(c *Case) {
	r := c.R
	ps := genDTSH264SPS(r, 0)
	inc := 2
	maxMini := 8
	switch r.IntN(8) {
	case 0:
		inc = 1
	case 1:
		inc, maxMini = 4, 1
	}
	for maxMini > 1 && maxMini*inc >= 1<<(ps.pocBits-1) {
		maxMini--
	}
	fixed := r.IntN(3) != 0
	pics := genDTSStream(r, 1+r.IntN(4), maxMini, false, fixed)
	if inc == 1 && lateParity(pics) {
		inc = 2
		if maxMini*inc >= 1<<(ps.pocBits-1) {
			return
		}
	}
	runH264(c, ps, pics, inc, fixed)
}

// lateParity returns whether an increment of one is not visible from the parity of the first
// pictures: see the family h264-late-parity for what happens then.
func lateParity(pics []*dtsPic) bool {
	return len(pics) < 2 || pics[1].kind == 'I' || pics[1].poc%2 == 0
}

// c21H264Switch covers streams that change parameters: picture order increment, size of the
// picture order count, structure. What was learned from the first part is of no use then.
func c21H264Switch(c *Case) {
	r := c.R
	var segs []*dtsSegment
	display := 0
	for len(segs) < 2+r.IntN(3) {
		s := &dtsSegment{ps: genDTSH264SPS(r, 0), inc: pick(r, 1, 2, 2, 4)}
		maxMini := 8
		if s.inc == 4 {
			maxMini = 1
		}
		for maxMini > 1 && maxMini*s.inc >= 1<<(s.ps.pocBits-1) {
			maxMini--
		}
		s.fixed = r.IntN(3) != 0
		s.pics = genDTSStream(r, 1+r.IntN(2), maxMini, false, s.fixed)
		if s.inc == 1 && lateParity(s.pics) {
			continue
		}
		if n := len(segs); n > 0 {
			if prev := segs[n-1]; r.IntN(3) == 0 && prev.inc != 1 {
				// the smallest change: the size of the picture order count only
				if q := otherPOCBits(prev.ps); q != nil && (maxMini == 1 || q.pocBits >= s.ps.pocBits) {
					s.ps = q
					c.Count("h264_smallest_change", 1)
				}
			}
			if bytes.Equal(segs[n-1].ps.raw, s.ps.raw) {
				continue
			}
		}
		for _, p := range s.pics {
			p.display += display
		}
		display += len(s.pics)
		segs = append(segs, s)
	}
	k := genDTSClock(r)
	d := newH264Extractor(c)
	m := &dtsMonitor{}
	i := 0
	for n, s := range segs {
		c.Notef("segment %d: poc bits %d, increment %d:%s", n, s.ps.pocBits, s.inc, describePics(s.pics))
		depth := depthOf(s.pics)
		var dtss []int64
		frameNum := 0
		for j, p := range s.pics {
			pts := k.pts(p.display)
			au := h264Extras(r)
			if p.kind == 'I' {
				frameNum = 0
				if j == 0 || flip(r) {
					au = append(au, s.ps.raw, []byte{0x68, 0xEE, 0x3C, 0x80})
				}
			}
			au = append(au, h264Slice(r, s.ps.sps, p, p.poc*s.inc, frameNum, true))
			if p.kind != 'b' {
				frameNum++
			}
			c.Eval(1)
			var dts int64
			var err error
			c.Protect("h264.DTSExtractor.Extract", func() { dts, err = d.Extract(au, pts) })
			if err != nil {
				c.Failf("segment %d, access unit %d (%c, display %d, PTS %d) of a conforming stream: %v; previous DTS %v", n, j, p.kind, p.display, pts, err, dtss)
			}
			m.step(c, i, pts, dts, true)
			dtss = append(dtss, dts)
			if s.fixed && j > 40 {
				step := dts - dtss[j-1]
				tol := k.num/k.den/50 + 2
				c.Check(step >= k.num/k.den-tol && step <= k.num/k.den+tol,
					"segment %d, access unit %d: DTS advanced by %d, frame duration is %d; DTS %v", n, j, step, k.num/k.den, dtss)
				ref := k.pts(i - depth)
				c.Check(dts <= ref+tol, "segment %d, access unit %d: DTS %d is after the decoding time %d", n, j, dts, ref)
				c.Check(dts >= ref-maxLag(depth)*k.num/k.den-tol, "segment %d, access unit %d: DTS %d lags behind the decoding time %d", n, j, dts, ref)
				c.Max(fmt.Sprintf("h264_lag%d_%d", s.inc, depth), (ref-dts)*100*k.den/k.num)
				c.Count("h264_switch_settled", 1)
			}
			i++
		}
		if n > 0 {
			c.Count("h264_switches", 1)
			if segs[n-1].inc != s.inc {
				c.Count(fmt.Sprintf("h264_increment_%d_to_%d", segs[n-1].inc, s.inc), 1)
			}
		}
		c.Distinct(describePics(s.pics), s.inc, s.ps.pocBits, k.num)
	}
}

// otherPOCBits returns the same SPS with another size of the picture order count, in the same
// number of bits.
func otherPOCBits(ps *dtsH264Params) *dtsH264Params {
	old := ps.sps.Log2MaxPicOrderCntLsbMinus4
	var log2 uint32
	switch {
	case old == 1 || old == 2:
		log2 = 3 - old
	case old >= 3 && old <= 6:
		log2 = 9 - old
	case old >= 7 && old <= 12:
		log2 = 19 - old
	default:
		return nil
	}
	w := &bitWriter{}
	w.ue(old)
	code := w.bits
	w = &bitWriter{}
	w.ue(log2)
	raw := unescape(ps.raw)
	// the position of the code is found by trying: the SPS has to be equal otherwise
	for pos := 32; pos+len(code) <= len(raw)*8; pos++ {
		b := clone(raw)
		for i := range code {
			if b[(pos+i)/8]>>(7-(pos+i)%8)&1 != code[i] {
				b = nil
				break
			}
			b[(pos+i)/8] ^= (code[i] ^ w.bits[i]) << (7 - (pos+i)%8)
		}
		if b == nil {
			continue
		}
		b = append([]byte{0x67}, escape(b[1:])...)
		var q h264.SPS
		if q.Unmarshal(clone(b)) != nil || q.Log2MaxPicOrderCntLsbMinus4 != log2 {
			continue
		}
		back := q
		back.Log2MaxPicOrderCntLsbMinus4 = old
		if dump(&back) != dump(ps.sps) {
			continue
		}
		return &dtsH264Params{sps: &q, raw: b, pocBits: int(log2) + 4}
	}
	return nil
}

type dtsSegment struct {
	ps    *dtsH264Params
	inc   int
	pics  []*dtsPic
	fixed bool
}

// runH264 feeds a conforming stream to an extractor, under the monitor.
func runH264(c *Case, ps *dtsH264Params, pics []*dtsPic, inc int, fixed bool) {
	r := c.R
	depth := depthOf(pics)
	k := genDTSClock(r)
	var idrs []int
	for i, p := range pics {
		if p.kind == 'I' && i > 0 {
			idrs = append(idrs, i)
		}
	}
	spsAt := -1
	ps2 := ps
	settledFrom := 40
	if len(idrs) > 0 {
		at := idrs[r.IntN(len(idrs))]
		switch r.IntN(4) {
		case 0: // pause in the stream
			k.gapAt, k.gap = pics[at].display, int64(r.IntN(900000))
			settledFrom = at + 120
		case 1: // change of parameters
			spsAt = at
			for range 50 {
				ps2 = genDTSH264SPS(r, 0)
				if ps2.pocBits >= ps.pocBits && !(inc == 1 && (at+1 >= len(pics) || pics[at+1].poc%2 == 0)) {
					break
				}
				ps2, spsAt = ps, -1
			}
			if spsAt >= 0 {
				settledFrom = at + 40
			}
		}
	}
	c.Notef("poc bits %d, increment %d, separate planes %v, depth %d, clock %+v, new SPS at %d:%s",
		ps.pocBits, inc, ps.sps.SeparateColourPlaneFlag, depth, *k, spsAt, describePics(pics))

	d := newH264Extractor(c)
	m := &dtsMonitor{}
	frameNum := 0
	var dtss []int64
	for i, p := range pics {
		pts := k.pts(p.display)
		au := h264Extras(r)
		if i == spsAt {
			ps = ps2
			c.Count("h264_parameter_changes", 1)
		}
		if p.kind == 'I' {
			frameNum = 0
			if i == 0 || i == spsAt || flip(r) {
				au = append(au, ps.raw, []byte{0x68, 0xEE, 0x3C, 0x80})
			}
		}
		au = append(au, h264Slice(r, ps.sps, p, p.poc*inc, frameNum, true))
		if r.IntN(3) == 0 {
			au = append(au, h264Slice(r, ps.sps, p, p.poc*inc, frameNum, false))
		}
		if p.kind != 'b' {
			frameNum++
		}
		if p.poc*inc >= 1<<ps.pocBits {
			c.Count("h264_poc_wraps", 1)
		}
		c.Eval(1)
		var dts int64
		var err error
		c.Protect("h264.DTSExtractor.Extract", func() { dts, err = d.Extract(au, pts) })
		if err != nil {
			c.Failf("access unit %d (%c, display %d, PTS %d) of a conforming stream: %v; previous DTS %v", i, p.kind, p.display, pts, err, dtss)
		}
		m.step(c, i, pts, dts, true)
		dtss = append(dtss, dts)
		c.Count("h264_access_units", 1)
		// once the reordering depth is known, the DTS advances by one frame at a time, is
		// not after the decoding time of the picture and lags within the supported depth.
		if fixed && i > settledFrom {
			step := dts - dtss[i-1]
			tol := k.num/k.den/50 + 2
			c.Check(step >= k.num/k.den-tol && step <= k.num/k.den+tol,
				"access unit %d: DTS advanced by %d, frame duration is %d; DTS %v", i, step, k.num/k.den, dtss)
			ref := k.pts(i)
			if i < k.gapAt || k.gapAt < 0 || i-depth >= k.gapAt {
				ref = k.pts(i - depth)
			}
			c.Check(dts <= ref+tol, "access unit %d: DTS %d is after the decoding time %d", i, dts, ref)
			c.Check(dts >= ref-maxLag(depth)*k.num/k.den-tol, "access unit %d: DTS %d lags behind the decoding time %d", i, dts, ref)
			c.Max(fmt.Sprintf("h264_lag%d_%d", inc, depth), (ref-dts)*100*k.den/k.num)
			c.Count("h264_settled_units", 1)
		}
	}
	c.Max("h264_depth", int64(depth))
	c.Distinct(describePics(pics), inc, ps.pocBits, k.num)
	c.Sample("%s dts %v", describePics(pics), dtss[:min(len(dtss), 12)])
}

// c21H264LateParity is the smallest stream whose POC increment cannot be recognized before
// the DTS of the first anchor is returned.
func c21H264LateParity(c *Case) {
	ps := genDTSH264SPS(c.R, 0)
	for ps.pocBits < 6 {
		ps = genDTSH264SPS(c.R, 0)
	}
	d := newH264Extractor(c)
	for i, p := range []*dtsPic{
		{kind: 'I'}, {kind: 'P', poc: 4}, {kind: 'b', poc: 1}, {kind: 'b', poc: 2}, {kind: 'b', poc: 3},
	} {
		au := [][]byte{ps.raw, h264Slice(c.R, ps.sps, p, p.poc, i, true)}
		if _, err := d.Extract(au, int64(p.poc)*3000); err != nil {
			c.FailKeyf("h264-dts-late-parity", "access unit %d of I0 P4 b1 b2 b3 with POC increment 1: %v", i, err)
		}
	}
}

// c21H264NoReorder covers the streams which cannot have reordered pictures.
func c21H264NoReorder(c *Case) {
	r := c.R
	ps := genDTSH264SPS(r, 2)
	k := genDTSClock(r)
	d := newH264Extractor(c)
	m := &dtsMonitor{}
	pts := k.base
	for i := range 1 + r.IntN(40) {
		p := &dtsPic{kind: 'P'}
		if i == 0 || r.IntN(10) == 0 {
			p.kind = 'I'
		}
		au := h264Extras(r)
		if p.kind == 'I' {
			au = append(au, ps.raw, []byte{0x68, 0xEE, 0x3C, 0x80})
		}
		au = append(au, h264Slice(r, ps.sps, p, 0, i, true))
		c.Eval(1)
		var dts int64
		var err error
		c.Protect("h264.DTSExtractor.Extract", func() { dts, err = d.Extract(au, pts) })
		c.NoErr(err, "Extract of a stream without reordering")
		m.step(c, i, pts, dts, false)
		c.Check(dts == pts, "DTS %d differs from PTS %d although output order is decoding order", dts, pts)
		pts += int64(1 + r.IntN(20000))
		c.Count("h264_no_reorder", 1)
	}
	c.Distinct(ps.raw, pts)
}

// c21H264Any feeds arbitrary access units.
func c21H264Any(c *Case) {
	r := c.R
	d := newH264Extractor(c)
	m := &dtsMonitor{}
	var ps []*dtsH264Params
	for range 2 {
		ps = append(ps, genDTSH264SPS(r, pick[uint32](r, 0, 0, 0, 1, 2)))
		if r.IntN(4) == 0 {
			ps[len(ps)-1].raw = mutate(r, ps[len(ps)-1].raw)
		}
	}
	cur := ps[0]
	poc := 0
	pts := int64(r.IntN(1 << 20))
	if r.IntN(8) == 0 {
		pts = int64(r.Uint64())
	}
	jitter := pick(r, 0, 100, 5000, 1<<20)
	for i := range 1 + r.IntN(60) {
		p := &dtsPic{kind: pick[byte](r, 'P', 'P', 'B', 'b', 'i', 'I')}
		if i == 0 || r.IntN(12) == 0 {
			p.kind = 'I'
		}
		poc += r.IntN(7) - 2
		if p.kind == 'I' {
			poc = r.IntN(3)
		}
		var au [][]byte
		if p.kind == 'I' {
			cur = ps[r.IntN(len(ps))]
			au = append(au, cur.raw)
		}
		au = append(au, h264Extras(r)...)
		s := h264Slice(r, cur.sps, p, poc, i, true)
		if r.IntN(10) == 0 {
			s = mutate(r, s)
		}
		if r.IntN(20) == 0 {
			s = s[:r.IntN(min(len(s)+1, 6))]
		}
		if r.IntN(12) != 0 {
			au = append(au, s)
		}
		if r.IntN(20) == 0 && len(au) > 0 {
			au[r.IntN(len(au))] = randBytes(r, r.IntN(8))
		}
		pts += 3000
		x := pts
		if jitter > 0 {
			x += int64(r.IntN(2*jitter)) - int64(jitter)
		}
		c.Eval(1)
		var dts int64
		var err error
		keep := cloneList(au)
		c.Protect(fmt.Sprintf("h264.DTSExtractor.Extract(%s)", hexList(au)), func() { dts, err = d.Extract(au, x) })
		c.Check(equalList(au, keep), "the access unit was modified")
		if err != nil {
			c.Count("h264_any_errors", 1)
			continue
		}
		m.step(c, i, x, dts, true)
		c.Count("h264_any_units", 1)
	}
	c.Distinct(c.Idx)
}

// ---- H265 ----

func genDTSPPS(r *rand.Rand) (*h265.PPS, []byte) {
	p := &h265.PPS{ID: small(r, 64), SPSID: 0, OutputFlagPresentFlag: flip(r), NumExtraSliceHeaderBits: uint8(pick(r, 0, 0, 1, 2, r.IntN(8)))}
	w := &bitWriter{}
	w.ue(p.ID)
	w.ue(0)
	w.flag(false)
	w.flag(p.OutputFlagPresentFlag)
	w.u(3, uint64(p.NumExtraSliceHeaderBits))
	w.u(20, uint64(r.Uint32()))
	w.trailing()
	return p, append([]byte{34 << 1, 1}, escape(w.out())...)
}

func rpsOf(p *dtsPic) *h265.SPS_ShortTermRefPicSet {
	m := map[int32]bool{}
	for _, k := range p.keep {
		m[int32(k-p.poc)] = p.kind != 'C'
	}
	return rpsFromSet(m)
}

func rpsEqual(a, b *h265.SPS_ShortTermRefPicSet) bool {
	return fmt.Sprint(a.DeltaPocS0, a.DeltaPocS1, a.UsedByCurrPicS0Flag, a.UsedByCurrPicS1Flag) ==
		fmt.Sprint(b.DeltaPocS0, b.DeltaPocS1, b.UsedByCurrPicS0Flag, b.UsedByCurrPicS1Flag)
}

// writeRPSInter writes the set of a slice as a difference from one of the sets of the SPS,
// if it is possible.
func writeRPSInter(r *rand.Rand, w *bitWriter, sets []*h265.SPS_ShortTermRefPicSet, target *h265.SPS_ShortTermRefPicSet) bool {
	want := map[int32]bool{}
	for i, d := range target.DeltaPocS0 {
		want[d] = target.UsedByCurrPicS0Flag[i]
	}
	for i, d := range target.DeltaPocS1 {
		want[d] = target.UsedByCurrPicS1Flag[i]
	}
	for _, idx := range r.Perm(len(sets)) {
		ref := sets[idx]
		entries := append(append(append([]int32{}, ref.DeltaPocS0...), ref.DeltaPocS1...), 0)
		for delta := int32(-16); delta <= 16; delta++ {
			if delta == 0 {
				continue
			}
			n := 0
			for _, e := range entries {
				if _, ok := want[e+delta]; ok && e+delta != 0 {
					n++
				}
			}
			if n != len(want) {
				continue
			}
			w.flag(true)
			w.ue(uint32(len(sets) - 1 - idx)) // delta_idx_minus1
			w.flag(delta < 0)
			if delta < 0 {
				w.ue(uint32(-delta - 1))
			} else {
				w.ue(uint32(delta - 1))
			}
			for _, e := range entries {
				used, ok := want[e+delta]
				ok = ok && e+delta != 0
				w.flag(ok && used)
				if !(ok && used) {
					w.flag(ok)
				}
			}
			return true
		}
	}
	return false
}

func h265Slice(r *rand.Rand, sps *h265.SPS, pps *h265.PPS, p *dtsPic, first bool, leading bool, gpb bool) []byte {
	var typ h265.NALUType
	sliceType := uint32(0)
	switch p.kind {
	case 'I':
		typ = pick(r, h265.NALUType_IDR_W_RADL, h265.NALUType_IDR_N_LP)
		sliceType = 2
	case 'C':
		typ = h265.NALUType_CRA_NUT
		sliceType = 2
	case 'i':
		typ = h265.NALUType_TRAIL_R
		sliceType = 2
	case 'P':
		typ = h265.NALUType_TRAIL_R
		sliceType = 1
		if gpb {
			sliceType = 0
		}
	case 'B':
		typ = h265.NALUType_TRAIL_R
		if leading {
			typ = h265.NALUType_RASL_R
		}
	case 'b':
		typ = h265.NALUType_TRAIL_N
		if leading {
			typ = h265.NALUType_RASL_N
		}
	}
	w := &bitWriter{}
	w.flag(first)
	if p.kind == 'I' || p.kind == 'C' {
		w.flag(flip(r))
	}
	w.ue(pps.ID)
	if !first {
		w.bytes(randBytes(r, 20))
	} else {
		w.u(int(pps.NumExtraSliceHeaderBits), r.Uint64())
		w.ue(sliceType)
		if pps.OutputFlagPresentFlag {
			w.flag(true)
		}
		if sps.SeparateColourPlaneFlag {
			w.u(2, uint64(r.IntN(3)))
		}
		if p.kind != 'I' {
			n := int(sps.Log2MaxPicOrderCntLsbMinus4) + 4
			w.u(n, uint64(p.poc)&(1<<n-1))
			rps := rpsOf(p)
			idx := -1
			for i, s := range sps.ShortTermRefPicSets {
				if rpsEqual(s, rps) {
					idx = i
				}
			}
			num := len(sps.ShortTermRefPicSets)
			switch {
			case idx >= 0 && r.IntN(4) != 0:
				w.flag(true)
				if num > 1 {
					w.u(clog2(num), uint64(idx))
				}
			default:
				w.flag(false)
				if flip(r) || !writeRPSInter(r, w, sps.ShortTermRefPicSets, rps) {
					writeRPSExplicit(w, rps, num)
				}
			}
		}
	}
	w.bytes(randBytes(r, 2+r.IntN(20)))
	w.trailing()
	return append([]byte{byte(typ) << 1, 1}, escape(w.out())...)
}

// genDTSH265SPS generates a SPS for a stream.
func genDTSH265SPS(r *rand.Rand, pics []*dtsPic, maxMini int, k *dtsClock) (*h265Opt, *h265.SPS, []byte) {
	depth := depthOf(pics)
	o := &h265Opt{pocBits: 4 + r.IntN(13), reorder: depth + pick(r, 0, 0, 0, 1)}
	for 1<<(o.pocBits-1) <= 2*maxMini {
		o.pocBits++
	}
	if r.IntN(4) == 0 {
		o.subLayers = 1 + r.IntN(2)
	}
	if flip(r) {
		// the time scale and the frame duration, in lowest or higher terms
		n, d := k.num, 90000*k.den
		for a, b := n, d; ; a, b = b, a%b {
			if b == 0 {
				n, d = n/a, d/a
				break
			}
		}
		f := uint32(1 + r.IntN(3))
		if r.IntN(3) == 0 {
			f = uint32(1 + r.Int64N(int64(1<<32-1)/max(n, d)))
		}
		o.timing = &h265.SPS_TimingInfo{NumUnitsInTick: uint32(n) * f, TimeScale: uint32(d) * f}
	}
	// some of the sets in use are placed in the SPS
	if flip(r) {
		for _, p := range pics {
			if p.kind != 'I' && r.IntN(4) == 0 && len(o.sets) < 60 {
				s := rpsOf(p)
				dup := false
				for _, x := range o.sets {
					dup = dup || rpsEqual(x, s)
				}
				if !dup {
					o.sets = append(o.sets, s)
				}
			}
		}
	}
	sps, w := genH265SPSOpt(r, o)
	w.trailing()
	raw := append([]byte{0x42, 0x01}, escape(w.out())...)
	return o, sps, raw
}

// c21H265Switch covers streams that change parameters: structure, reordering depth, reference
// picture sets, PPS content and number of PPS.
func c21H265Switch(c *Case) {
	r := c.R
	k := genDTSClock(r)
	d := newH265Extractor(c)
	m := &dtsMonitor{}
	display, i := 0, 0
	var prevRaw []byte
	for n := range 2 + r.IntN(3) {
		maxMini := pick(r, 1, 2, 4, 8, 8, 16)
		pics := genDTSStream(r, 1+r.IntN(3), maxMini, true, flip(r))
		o, sps, raw := genDTSH265SPS(r, pics, maxMini, k)
		if bytes.Equal(raw, prevRaw) {
			continue
		}
		prevRaw = raw
		gpb := flip(r)
		var ppss []*h265.PPS
		var rawPPSs [][]byte
		genPPSs := func() {
			ppss, rawPPSs = nil, nil
			ids := map[uint32]bool{}
			for range pick(r, 1, 1, 2, 3) {
				p, b := genDTSPPS(r)
				if !ids[p.ID] {
					ids[p.ID] = true
					ppss = append(ppss, p)
					rawPPSs = append(rawPPSs, b)
				}
			}
			if len(ppss) > 1 {
				c.Count("h265_several_pps", 1)
			}
		}
		genPPSs()
		depth := depthOf(pics)
		c.Notef("segment %d: poc bits %d, depth %d, reorder %d, sets %d, timing %v, gpb %v:%s", n, o.pocBits, depth, o.reorder, len(o.sets), o.timing, gpb, describePics(pics))
		var dtss []int64
		cra := -1
		for j, p := range pics {
			pts := k.pts(display + p.display)
			var au [][]byte
			if r.IntN(4) == 0 {
				au = append(au, []byte{35 << 1, 1, 0x50})
			}
			if p.kind == 'I' || p.kind == 'C' {
				cra = -1
				if p.kind == 'C' {
					cra = p.display
				}
				switch {
				case j == 0 || flip(r):
					au = append(au, []byte{32 << 1, 1, 2, 3, 4}, raw)
					if j != 0 && r.IntN(3) == 0 {
						genPPSs()
						c.Count("h265_pps_changes", 1)
					}
					au = append(au, rawPPSs...)
				case r.IntN(3) == 0:
					genPPSs()
					c.Count("h265_pps_changes", 1)
					au = append(au, rawPPSs...)
				}
			}
			leading := p.display < cra
			pps := ppss[r.IntN(len(ppss))]
			au = append(au, h265Slice(r, sps, pps, p, true, leading, gpb))
			if r.IntN(3) == 0 {
				au = append(au, h265Slice(r, sps, pps, p, false, leading, gpb))
			}
			c.Eval(1)
			var dts int64
			var err error
			c.Protect("h265.DTSExtractor.Extract", func() { dts, err = d.Extract(au, pts) })
			if err != nil {
				c.Failf("segment %d, access unit %d (%c, display %d, PTS %d, RPS %v) of a conforming stream: %v; previous DTS %v", n, j, p.kind, p.display, pts, p.keep, err, dtss)
			}
			m.step(c, i, pts, dts, false)
			dtss = append(dtss, dts)
			if j > 40 {
				step := dts - dtss[j-1]
				tol := k.num/k.den/50 + 2
				c.Check(step >= k.num/k.den-tol && step <= k.num/k.den+tol,
					"segment %d, access unit %d: DTS advanced by %d, frame duration is %d; DTS %v", n, j, step, k.num/k.den, dtss)
				ref := k.pts(i - o.reorder)
				c.Check(dts >= ref-tol && dts <= ref+tol, "segment %d, access unit %d: DTS %d, decoding time is %d; DTS %v", n, j, dts, ref, dtss)
				c.Count("h265_switch_settled", 1)
			}
			i++
		}
		display += len(pics)
		c.Count("h265_segments", 1)
		c.Distinct(describePics(pics), o.pocBits, k.num, o.reorder)
	}
}

func c21H265(c *Case) {
	r := c.R
	fixed := r.IntN(3) != 0
	maxMini := pick(r, 1, 2, 4, 8, 8, 16)
	pics := genDTSStream(r, 1+r.IntN(4), maxMini, true, fixed)
	depth := depthOf(pics)
	k := genDTSClock(r)
	o, sps, raw := genDTSH265SPS(r, pics, maxMini, k)
	pps, rawPPS := genDTSPPS(r)
	gpb := flip(r)

	// start from a CRA picture in the middle of the stream
	start := 0
	if r.IntN(4) == 0 {
		for i, p := range pics {
			if p.kind == 'C' {
				start = i
				break
			}
		}
	}
	c.Notef("poc bits %d, separate planes %v, reorder %d, sub-layers %d, sets %d, timing %v, gpb %v, extra bits %d, clock %+v, start %d:%s",
		o.pocBits, sps.SeparateColourPlaneFlag, o.reorder, o.subLayers, len(o.sets), o.timing, gpb, pps.NumExtraSliceHeaderBits, *k, start, describePics(pics))

	d := newH265Extractor(c)
	m := &dtsMonitor{}
	var dtss []int64
	cra := -1
	for i, p := range pics {
		if p.kind == 'I' || p.kind == 'C' {
			cra = -1
			if p.kind == 'C' {
				cra = p.display
			}
		}
		if i < start {
			continue
		}
		if start != 0 && o.timing == nil && i > start && p.display < pics[start].display {
			// pictures that a decoder which starts here discards; see the family
			// h265-initial-cra for what happens to them.
			continue
		}
		pts := k.pts(p.display)
		var au [][]byte
		if r.IntN(4) == 0 {
			au = append(au, []byte{35 << 1, 1, 0x50})
		}
		if i == start || ((p.kind == 'I' || p.kind == 'C') && flip(r)) {
			au = append(au, []byte{32 << 1, 1, 2, 3, 4}, raw, rawPPS)
		}
		if r.IntN(4) == 0 {
			au = append(au, append([]byte{39 << 1, 1}, randBytes(r, 1+r.IntN(20))...))
		}
		au = append(au, h265Slice(r, sps, pps, p, true, p.display < cra, gpb))
		if r.IntN(3) == 0 {
			au = append(au, h265Slice(r, sps, pps, p, false, p.display < cra, gpb))
		}
		if p.kind == 'C' {
			c.Count("h265_cra", 1)
		}
		if p.display < cra {
			c.Count("h265_leading", 1)
		}
		if p.poc >= 1<<o.pocBits {
			c.Count("h265_poc_wraps", 1)
		}
		c.Eval(1)
		var dts int64
		var err error
		c.Protect("h265.DTSExtractor.Extract", func() { dts, err = d.Extract(au, pts) })
		if err != nil {
			c.Failf("access unit %d (%c, display %d, PTS %d, RPS %v) of a conforming stream: %v; previous DTS %v", i, p.kind, p.display, pts, p.keep, err, dtss)
		}
		m.step(c, i, pts, dts, false)
		dtss = append(dtss, dts)
		if i == 0 && o.timing != nil {
			ref := pts - int64(o.reorder)*k.num/k.den
			c.Check(dts >= ref-1 && dts <= ref+1, "first access unit, %d reordered frames of %d/%d: DTS %d, PTS %d", o.reorder, k.num, k.den, dts, pts)
			c.Count("h265_timed_starts", 1)
		}
		c.Count("h265_access_units", 1)
		if n := len(dtss); n > 40 {
			step := dts - dtss[n-2]
			tol := k.num/k.den/50 + 2
			c.Check(step >= k.num/k.den-tol && step <= k.num/k.den+tol,
				"access unit %d: DTS advanced by %d, frame duration is %d; DTS %v", i, step, k.num/k.den, dtss)
			ref := k.pts(i - o.reorder)
			c.Check(dts >= ref-tol && dts <= ref+tol, "access unit %d: DTS %d, decoding time is %d; DTS %v", i, dts, ref, dtss)
			c.Count("h265_settled_units", 1)
		}
	}
	c.Max("h265_depth", int64(depth))
	c.Distinct(describePics(pics), o.pocBits, k.num, o.reorder)
	c.Sample("%s dts %v", describePics(pics), dtss[:min(len(dtss), 12)])
}

// c21H265Any feeds arbitrary access units.
func c21H265Any(c *Case) {
	r := c.R
	d := newH265Extractor(c)
	m := &dtsMonitor{}
	type set struct {
		sps    *h265.SPS
		pps    *h265.PPS
		raw    [][]byte
		broken bool
	}
	var sets []*set
	for range 2 {
		s := &set{}
		var w *bitWriter
		if flip(r) {
			s.sps, w = genH265SPS(r)
		} else {
			o := &h265Opt{pocBits: 4 + r.IntN(13), reorder: r.IntN(5), subLayers: r.IntN(3)}
			if flip(r) {
				o.timing = &h265.SPS_TimingInfo{NumUnitsInTick: u32(r), TimeScale: u32(r)}
			}
			for range r.IntN(4) {
				m := map[int32]bool{}
				for range r.IntN(6) {
					m[int32(r.IntN(20)-10)] = true
				}
				delete(m, 0)
				o.sets = append(o.sets, rpsFromSet(m))
			}
			s.sps, w = genH265SPSOpt(r, o)
		}
		w.trailing()
		var rawPPS []byte
		s.pps, rawPPS = genDTSPPS(r)
		s.raw = [][]byte{append([]byte{0x42, 0x01}, escape(w.out())...), rawPPS}
		if r.IntN(4) == 0 {
			i := r.IntN(2)
			s.raw[i] = mutate(r, s.raw[i])
		}
		sets = append(sets, s)
	}
	cur := sets[0]
	poc := 0
	pts := int64(r.IntN(1 << 20))
	jitter := pick(r, 0, 100, 5000, 1<<20)
	if r.IntN(8) == 0 {
		pts = int64(r.Uint64())
	}
	for i := range 1 + r.IntN(60) {
		p := &dtsPic{kind: pick[byte](r, 'P', 'P', 'B', 'b', 'i', 'I', 'C')}
		if i == 0 || r.IntN(12) == 0 {
			p.kind = pick[byte](r, 'I', 'C')
		}
		poc += r.IntN(7) - 2
		if p.kind == 'I' {
			poc = 0
		}
		p.poc = poc
		for range r.IntN(5) {
			if k := poc + r.IntN(16) - 10; k != poc {
				p.keep = append(p.keep, k)
			}
		}
		var au [][]byte
		if p.kind == 'I' || p.kind == 'C' {
			cur = sets[r.IntN(len(sets))]
			au = append(au, cur.raw...)
		}
		s := h265Slice(r, cur.sps, cur.pps, p, r.IntN(20) != 0, r.IntN(4) == 0, r.IntN(4) == 0)
		if r.IntN(10) == 0 {
			s = mutate(r, s)
		}
		if r.IntN(20) == 0 {
			s = s[:r.IntN(min(len(s)+1, 10))]
		}
		if r.IntN(12) != 0 {
			au = append(au, s)
		}
		if r.IntN(20) == 0 && len(au) > 0 {
			au[r.IntN(len(au))] = randBytes(r, r.IntN(8))
		}
		pts += 3000
		x := pts
		if jitter > 0 {
			x += int64(r.IntN(2*jitter)) - int64(jitter)
		}
		c.Eval(1)
		var dts int64
		var err error
		keep := cloneList(au)
		c.Protect(fmt.Sprintf("h265.DTSExtractor.Extract(%s)", hexList(au)), func() { dts, err = d.Extract(au, x) })
		c.Check(equalList(au, keep), "the access unit was modified")
		if err != nil {
			c.Count("h265_any_errors", 1)
			continue
		}
		m.step(c, i, x, dts, false)
		c.Count("h265_any_units", 1)
	}
	c.Distinct(c.Idx)
}

// c21H265InitialCRA starts with a CRA picture followed by its leading pictures, in a stream
// that does not carry its frame rate.
func c21H265InitialCRA(c *Case) {
	sps, w := genH265SPSOpt(c.R, &h265Opt{pocBits: 8, reorder: 2})
	w.trailing()
	raw := append([]byte{0x42, 0x01}, escape(w.out())...)
	pps, rawPPS := genDTSPPS(c.R)
	d := newH265Extractor(c)
	for i, p := range []*dtsPic{
		{kind: 'C', poc: 8, keep: []int{0}}, {kind: 'B', poc: 4, keep: []int{0, 8}}, {kind: 'b', poc: 2, keep: []int{0, 4, 8}},
	} {
		au := [][]byte{raw, rawPPS, h265Slice(c.R, sps, pps, p, true, i > 0, false)}
		if _, err := d.Extract(au, int64(p.poc)*3750); err != nil {
			c.FailKeyf("h265-dts-initial-cra-without-timing", "access unit %d of C8 B4 b2 without timing info: %v", i, err)
		}
	}
}

func init() {
	register(&Property{
		ID:   "C21",
		Rule: "a distinct stream structure (picture types and order, POC layout, frame duration) or arbitrary sequence",
		Families: []Family{
			{Name: "h264", Quick: 20000, Thorough: 1000000, Run: c21H264},
			{Name: "h264-late-parity", Quick: 1, Thorough: 1, Run: c21H264LateParity},
			{Name: "h264-switch", Quick: 6000, Thorough: 400000, Run: c21H264Switch},
			{Name: "h265-switch", Quick: 4000, Thorough: 300000, Run: c21H265Switch},
			{Name: "h264-no-reorder", Quick: 2000, Thorough: 100000, Run: c21H264NoReorder},
			{Name: "h264-any", Quick: 20000, Thorough: 1000000, Run: c21H264Any},
			{Name: "h265-any", Quick: 20000, Thorough: 1000000, Run: c21H265Any},
			{Name: "h265-initial-cra", Quick: 1, Thorough: 1, Run: c21H265InitialCRA},
			{Name: "h265", Quick: 10000, Thorough: 500000, Run: c21H265},
		},
		Require: []string{"h264_access_units", "h264_settled_units", "h264_no_reorder", "h264_any_units", "h265_access_units", "h265_settled_units", "h265_cra", "h265_leading", "h265_any_units", "h264_poc_wraps", "h265_poc_wraps", "h264_parameter_changes",
			"h264_switches", "h264_smallest_change", "h265_segments", "h265_several_pps", "h265_pps_changes", "h265_switch_settled", "h264_switch_settled", "h264_increment_1_to_2", "h264_increment_2_to_1", "h264_increment_4_to_2", "h264_increment_2_to_4"},
	})
}

// maxLag is the maximum distance, in frames, between the extracted DTS and the decoding time once
// the structure of the stream is known.
func maxLag(depth int) int64 {
	if depth == 0 {
		return 0
	}
	return 6
}

// extractors are created in both ways that the library offers.
func newH264Extractor(c *Case) *h264.DTSExtractor {
	if c.Idx%4 == 1 {
		return h264.NewDTSExtractor() //nolint:staticcheck
	}
	d := &h264.DTSExtractor{}
	d.Initialize()
	return d
}

func newH265Extractor(c *Case) *h265.DTSExtractor {
	if c.Idx%4 == 1 {
		return h265.NewDTSExtractor() //nolint:staticcheck
	}
	d := &h265.DTSExtractor{}
	d.Initialize()
	return d
}
