package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"slices"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
)

// C08, C09: MPEG-TS with perturbed streams and with failing sources and destinations.

// tsStream is a written history, together with the position of everything.
type tsStream struct {
	h     *tsHistory
	b     []byte
	owner []int // write index of each packet, -1 for tables
	span  [][2]int
	part  [][]byte
}

func makeTSStream(c *Case, h *tsHistory) *tsStream {
	s := &tsStream{h: h}
	var buf bytes.Buffer
	w := &mpegts.Writer{W: &buf}
	for _, t := range h.tracks {
		w.Tracks = append(w.Tracks, t.track)
	}
	c.NoErr(w.Initialize(), "Writer.Initialize")
	pos := 0
	for i, e := range h.writes {
		t := h.tracks[e.trk]
		c.NoErr(t.write(w, e), "Write "+t.kind)
		b := buf.Bytes()[pos:]
		s.part = append(s.part, clone(b))
		first, last := -1, -1
		for k := 0; k < len(b); k += 188 {
			pid := int(b[k+1]&0x1F)<<8 | int(b[k+2])
			o := -1
			if pid == int(t.track.PID) {
				o = i
				if first < 0 {
					first = (pos + k) / 188
				}
				last = (pos + k) / 188
			}
			s.owner = append(s.owner, o)
		}
		s.span = append(s.span, [2]int{first, last})
		pos = buf.Len()
	}
	s.b = buf.Bytes()
	return s
}

func (s *tsStream) n() int { return len(s.owner) }

func (s *tsStream) pkt(i int) []byte { return s.b[i*188 : i*188+188] }

// claims returns the units that have to be delivered when some packets are not intact.
// Units that begin before packet "from" are not claimed.
func (s *tsStream) claims(damaged func(i int) bool, from int) []bool {
	h := s.h
	intact := make([]bool, len(h.writes))
	next := make([]int, len(h.writes))
	lastOf := map[int]int{}
	for i, e := range h.writes {
		intact[i] = true
		for k := s.span[i][0]; k <= s.span[i][1]; k++ {
			if s.owner[k] == i && damaged(k) {
				intact[i] = false
			}
		}
		next[i] = -1
		if p, ok := lastOf[e.trk]; ok {
			next[p] = i
		}
		lastOf[e.trk] = i
	}
	out := make([]bool, len(h.writes))
	for i := range h.writes {
		out[i] = intact[i] && s.span[i][0] >= from && (next[i] < 0 || intact[next[i]])
	}
	return out
}

// timestamp of asynchronous KLV units, given the packets that reach the demultiplexer.
func (s *tsStream) asyncPTS(i int, arrives func(k int) bool) int64 {
	for j := i - 1; j >= 0; j-- {
		e := s.h.writes[j]
		if s.h.tracks[e.trk].kind != "klv-async" && arrives(s.span[j][0]) {
			return e.pts & mask33
		}
	}
	return -1
}

// checkUnits compares what was delivered with what was written. In strict mode, anything that was not
// written is a violation. Units that are claimed have to be delivered. When "arrives" is nil, the timestamp of
// asynchronous KLV units, which is the one of other units, is not judged.
func (s *tsStream) checkUnits(c *Case, o *tsRead, claimed []bool, arrives func(k int) bool, damaged func(k int) bool, strict bool) {
	h := s.h
	got := make([][]*tsWrite, len(h.tracks))
	for _, u := range o.units {
		got[u.trk] = append(got[u.trk], u)
	}
	for trk, t := range h.tracks {
		pos := 0
		for i, e := range h.writes {
			if e.trk != trk {
				continue
			}
			x := &tsWrite{trk: trk, pts: e.pts & mask33, dts: e.dts & mask33, units: stripAUD(t.kind, e.units)}
			if t.kind != "h264" && t.kind != "h265" {
				x.dts = x.pts
			}
			anyPTS := false
			if t.kind == "klv-async" {
				v := int64(0)
				if arrives != nil {
					v = s.asyncPTS(i, arrives)
				} else if s.asyncPTS(i, func(k int) bool { return !damaged(k) }) < 0 {
					v = -1
				}
				if v < 0 && claimed[i] {
					claimed[i] = false
				}
				x.pts, x.dts = v, v
				anyPTS = !claimed[i] || !strict || arrives == nil
			}
			same := func(u *tsWrite) bool {
				return sameUnit(u, x) || anyPTS && equalList(u.units, x.units)
			}
			if strict {
				if pos < len(got[trk]) && same(got[trk][pos]) {
					pos++
					c.Count("delivered", 1)
					continue
				}
			} else if claimed[i] || !anyPTS {
				found := -1
				for k := pos; k < len(got[trk]); k++ {
					if same(got[trk][k]) {
						found = k
						break
					}
				}
				if found >= 0 {
					pos = found + 1
					c.Count("delivered", 1)
					continue
				}
			}
			if claimed[i] {
				d := "nothing else"
				if pos < len(got[trk]) {
					d = got[trk][pos].String()
				}
				c.Failf("track %d (%s): unit %d (packets %d-%d) is intact, as the one that follows, but it has not been delivered; got %s, want %v", trk, t.kind, i, s.span[i][0], s.span[i][1], d, x)
			}
			c.Count("not_delivered", 1)
		}
		if strict && pos != len(got[trk]) {
			c.Failf("track %d (%s): a unit that was not written has been delivered: %v", trk, t.kind, got[trk][pos])
		}
	}
}

func tsEvents(o *tsRead) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%v %v\n", o.initErr, o.err)
	for _, t := range o.tracks {
		j, _ := json.Marshal(t.Codec)
		fmt.Fprintf(&b, "%d %q %T %s\n", t.PID, t.Language, t.Codec, j)
	}
	for _, l := range o.log {
		b.WriteString(l)
		b.WriteByte('\n')
	}
	return b.String()
}

func tsNoSync(r *rand.Rand, n int) []byte {
	b := randBytes(r, n)
	for i := range b {
		if b[i] == 0x47 {
			b[i] = 0x48
		}
	}
	return b
}

// perturb alters a stream in any way.
func tsPerturb(r *rand.Rand, b []byte) []byte {
	b = clone(b)
	for range r.IntN(6) {
		if len(b) < 188*3 {
			break
		}
		n := len(b) / 188
		i := r.IntN(n) * 188
		switch r.IntN(10) {
		case 0: // garbage
			b = slices.Insert(b, i, randBytes(r, 1+r.IntN(600))...)
		case 1:
			b = slices.Insert(b, i, tsNoSync(r, 1+r.IntN(600))...)
		case 2: // loss
			b = slices.Delete(b, i, i+188)
		case 3: // duplicate
			b = slices.Insert(b, i, b[i:i+188]...)
		case 4: // header
			b[i+r.IntN(12)] ^= 1 << r.IntN(8)
		case 5: // content
			b[i+r.IntN(188)] = byte(r.Uint32())
		case 6: // truncation of a packet
			k := 1 + r.IntN(187)
			b = slices.Delete(b, i, i+k)
		case 7: // exchange
			j := r.IntN(n) * 188
			var t [188]byte
			copy(t[:], b[i:])
			copy(b[i:i+188], b[j:])
			copy(b[j:], t[:])
		case 8: // end
			b = b[:len(b)-r.IntN(min(len(b), 400))]
		case 9: // null packets
			p := bytes.Repeat([]byte{0xFF}, 188)
			copy(p, []byte{0x47, 0x1F, 0xFF, 0x10 | byte(r.IntN(16))})
			b = slices.Insert(b, i, p...)
		}
	}
	return b
}

func c08Chunks(c *Case) {
	r := c.R
	h := genTSHistory(r, tsOpts{writes: 1 + r.IntN(40)})
	b := makeTSStream(c, h).b
	if r.IntN(3) != 0 {
		b = tsPerturb(r, b)
	}
	c.Input("stream", b)
	ref := &tsRead{keepLog: true}
	ref.read(c, bytes.NewReader(b), 0)
	want := tsEvents(ref)
	for k := range 4 {
		src := &chunkReader{b: b, errWith: flip(r), hangLimit: 20000}
		switch (c.Idx + k) % 8 {
		case 7: // datagrams of a socket, up to 7 packets each
			src.datagrams = true
			src.next = func() int { return 188 * (1 + r.IntN(7)) }
		case 0:
			if len(b) > 30000 {
				continue
			}
			src.next = func() int { return 1 }
		case 1:
			src.next = func() int { return 1 + r.IntN(400) }
		case 2:
			src.next = func() int { return 188 * (1 + r.IntN(7)) }
		case 3:
			n := 1 + r.IntN(1500)
			src.next = func() int { return n }
		case 4:
			src.next = func() int { return pick(r, 0, 0, 1, 5, 187, 188, 189, 1316) }
		case 5:
			src.next = func() int { return pick(r, 187, 1, 188, 376, 1315, 1) }
		default:
			src.next = func() int { return 1 << 20 }
		}
		o := &tsRead{keepLog: true}
		o.read(c, src, 0)
		if got := tsEvents(o); got != want {
			c.Input("events_full", []byte(want))
			c.Input("events_split", []byte(got))
			c.Failf("events depend on how the stream is split (mode %d, %d bytes of datagrams discarded): %s", (c.Idx+k)%8, src.discarded, firstDiff(want, got))
		}
		c.Count("chunkings", 1)
		if src.datagrams {
			c.Count("datagram_chunkings", 1)
		}
		c.Eval(1)
		c.Distinct(b, k, src.reads)
	}
	c.Count("events", len(ref.log))
	c.Count("decode_errors", len(ref.errs))
	if ref.initErr != nil {
		c.Count("streams_refused", 1)
	} else {
		c.Count("streams_read", 1)
	}
	c.Sample("%d bytes, %d events", len(b), len(ref.log))
}

func firstDiff(a, b string) string {
	la, lb := bytes.Split([]byte(a), []byte("\n")), bytes.Split([]byte(b), []byte("\n"))
	for i := range max(len(la), len(lb)) {
		var x, y []byte
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if !bytes.Equal(x, y) {
			return fmt.Sprintf("event %d is %.200q, or %.200q", i, x, y)
		}
	}
	return "same"
}

// initOK checks that initialization succeeded, which is granted when parameters are available.
func (s *tsStream) initOK(c *Case, o *tsRead, claimed []bool) bool {
	if o.initErr == nil {
		c.Check(len(o.tracks) == len(s.h.tracks), "%d tracks, want %d", len(o.tracks), len(s.h.tracks))
		for i, t := range s.h.tracks {
			if err := sameTSCodec(t, o.tracks[i].Codec); err != nil {
				c.Failf("track %d (%s): %v", i, t.kind, err)
			}
		}
		return true
	}
	have := map[int]bool{}
	for i, e := range s.h.writes {
		if claimed[i] {
			have[e.trk] = true
		}
	}
	for i, t := range s.h.tracks {
		if t.needsData() && !have[i] {
			c.Count("parameters_lost", 1)
			return false
		}
	}
	c.Failf("Reader.Initialize: %v", o.initErr)
	return false
}

func c08History(c *Case, kinds []string) *tsStream {
	r := c.R
	h := genTSHistory(r, tsOpts{writes: 5 + r.IntN(60), kinds: kinds, plainPTS: true, size: func(r *randT) int {
		if r.IntN(3) == 0 {
			return 1 + r.IntN(3000)
		}
		return 1 + r.IntN(700)
	}})
	h.tables = map[int]bool{}
	// start codes at the beginning of packets
	for _, e := range h.writes {
		k := h.tracks[e.trk].kind
		if !tsIsVideo[k] && k != "dvb" && k != "klv-async" && k != "opus" && k != "aac" || r.IntN(2) == 0 {
			continue
		}
		if k == "h264" || k == "h265" {
			if r.IntN(2) == 0 { // many small NALUs, whose start codes have any position
				var l [][]byte
				for range 20 + r.IntN(25) {
					n := naluNoStartCode(r, 2+r.IntN(30))
					n[0] = 0x65
					if k == "h265" {
						n[0], n[1] = 2, 1
					}
					l = append(l, n)
				}
				e.units = l
			}
			continue
		}
		u := e.units[len(e.units)-1]
		for i := r.IntN(4); i+14 <= len(u); i += 4 + r.IntN(30) {
			copy(u[i:], []byte{0, 0, 1, pick[byte](r, 0xE0, 0xC0, 0xBD, 0xFC), 0, byte(r.IntN(20)), 0x80, 0x80, 5, 0x21, 0, 1, 0, 1})
		}
	}
	return makeTSStream(c, h)
}

// c08Loss: packets are lost.
func c08Loss(c *Case) {
	r := c.R
	s := c08History(c, nil)
	lost := map[int]bool{}
	n := s.n()
	mode := r.IntN(4)
	for range 1 + r.IntN(12) {
		i := r.IntN(n)
		switch mode {
		case 0: // single packets
			lost[i] = true
		case 1: // bursts
			for k := i; k < min(n, i+1+r.IntN(10)); k++ {
				lost[k] = true
			}
		case 2: // the first packet of an unit
			w := r.IntN(len(s.span))
			lost[s.span[w][0]] = true
		default: // the last packet of an unit
			w := r.IntN(len(s.span))
			lost[s.span[w][1]] = true
		}
	}
	// initial tables are needed
	for i := 0; i < n && s.owner[i] < 0; i++ {
		delete(lost, i)
	}
	// the loss of the end of a stream cannot be detected
	lastOf := map[int]int{}
	for i, e := range s.h.writes {
		lastOf[e.trk] = i
	}
	for _, i := range lastOf {
		for k := s.span[i][0]; k <= s.span[i][1]; k++ {
			delete(lost, k)
		}
	}
	// nor the loss of a multiple of 16 packets
	gap := map[int]int{}
	for i := range n {
		if s.owner[i] < 0 {
			continue
		}
		trk := s.h.writes[s.owner[i]].trk
		if lost[i] {
			gap[trk]++
			if gap[trk] == 15 {
				delete(lost, i)
				gap[trk] = 0
			}
		} else {
			gap[trk] = 0
		}
	}
	var out []byte
	for i := range n {
		if !lost[i] {
			out = append(out, s.pkt(i)...)
		}
	}
	c.Input("stream", out)
	c.Notef("lost packets: %v", mapKeys(lost))
	claimed := s.claims(func(i int) bool { return lost[i] }, 0)
	o := readTS(c, &chunkReader{b: out, next: func() int { return 188 * 7 }, hangLimit: 20000}, 0)
	c.Count("lost_packets", len(lost))
	c.Eval(1)
	c.Distinct(out)
	if !s.initOK(c, o, claimed) {
		return
	}
	c.Check(errors.Is(o.err, io.EOF), "the reader ended with error %v", o.err)
	s.checkUnits(c, o, claimed, func(k int) bool { return !lost[k] }, nil, true)
	c.Count("decode_errors", len(o.errs))
	c.Sample("%d of %d packets lost, %d units delivered", len(lost), n, len(o.units))
}

func mapKeys(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

// c08Duplicates: packets are sent twice.
func c08Duplicates(c *Case) {
	r := c.R
	s := c08History(c, nil)
	var out []byte
	held := map[int][]byte{} // duplicates which are sent after packets of other streams
	dups := 0
	for i := range s.n() {
		p := s.pkt(i)
		pid := int(p[1]&0x1F)<<8 | int(p[2])
		if h, ok := held[pid]; ok {
			out = append(out, h...)
			delete(held, pid)
		}
		out = append(out, p...)
		if r.IntN(6) == 0 {
			dups++
			// the clock reference of a duplicate may be another one
			if p[3]&0x20 != 0 && p[4] >= 7 && p[5]&0x10 != 0 && r.IntN(3) != 0 {
				p = clone(p)
				pcr := uint64(p[6])<<25 | uint64(p[7])<<17 | uint64(p[8])<<9 | uint64(p[9])<<1 | uint64(p[10])>>7
				pcr += 1 + uint64(r.IntN(200))
				p[6], p[7], p[8], p[9], p[10], p[11] = byte(pcr>>25), byte(pcr>>17), byte(pcr>>9), byte(pcr>>1), byte(pcr)<<7|0x7E|byte(r.IntN(2)), byte(r.IntN(44))
				c.Count("duplicates_with_other_pcr", 1)
			}
			if r.IntN(3) == 0 {
				held[pid] = p
			} else {
				out = append(out, p...)
			}
		}
	}
	c.Input("stream", out)
	o := readTS(c, bytes.NewReader(out), 0)
	claimed := s.claims(func(int) bool { return false }, 0)
	c.Count("duplicated_packets", dups)
	c.Eval(1)
	c.Distinct(out)
	if !s.initOK(c, o, claimed) {
		return
	}
	c.Check(errors.Is(o.err, io.EOF), "the reader ended with error %v", o.err)
	s.checkUnits(c, o, claimed, func(int) bool { return true }, nil, true)
}

// c08Garbage: bytes without sync byte, between packets.
func c08Garbage(c *Case) {
	r := c.R
	s := c08History(c, nil)
	n := s.n()
	at := map[int]bool{}
	for range 1 + r.IntN(5) {
		at[r.IntN(n)] = true
	}
	if flip(r) {
		at[0] = true
	}
	if len(s.b) == 0 {
		return
	}
	var out []byte
	after := 0
	for i := range n {
		if at[i] {
			g := tsNoSync(r, pick(r, 1, 187, 188, 189, 376, 1316, 1+r.IntN(187), 1+r.IntN(3000)))
			if i == 0 && r.IntN(10) == 0 {
				g = tsNoSync(r, 100000+r.IntN(300000))
			}
			out = append(out, g...)
			c.Count("garbage_bytes", len(g))
			if i > 0 {
				after++
			}
		}
		out = append(out, s.pkt(i)...)
	}
	if r.IntN(4) == 0 {
		out = append(out, tsNoSync(r, 1+r.IntN(600))...)
	}
	c.Input("stream", out)
	o := readTS(c, &chunkReader{b: out, next: func() int { return 1 + r.IntN(1500) }, hangLimit: 20000}, 0)
	c.Eval(1)
	c.Distinct(out)
	claimed := s.claims(func(int) bool { return false }, 0)
	if !s.initOK(c, o, claimed) {
		return
	}
	c.Check(errors.Is(o.err, io.EOF), "the reader ended with error %v", o.err)
	c.Check(after == 0 || len(o.errs) > 0, "garbage was skipped without reporting errors")
	s.checkUnits(c, o, claimed, func(int) bool { return true }, nil, true)
	c.Count("decode_errors", len(o.errs))
}

// c08SyncGarbage: any bytes, anywhere.
func c08SyncGarbage(c *Case) {
	r := c.R
	s := c08History(c, nil)
	n := s.n()
	if n < 6 {
		return
	}
	i := r.IntN(n)
	off := 0
	if r.IntN(3) == 0 {
		off = r.IntN(188)
	}
	size := 1 + r.IntN(1000)
	if r.IntN(10) == 0 {
		size = 1 + r.IntN(20000)
	}
	g := randBytes(r, size)
	if flip(r) { // dense sync bytes
		for k := range g {
			if r.IntN(20) == 0 {
				g[k] = 0x47
			}
		}
	}
	if r.IntN(4) == 0 { // plausible packets
		for k := 0; k+188 <= len(g); k += 188 {
			copy(g[k:], []byte{0x47, byte(r.IntN(0x80)), byte(r.Uint32()), 0x10 | byte(r.IntN(16))})
		}
	}
	pos := i*188 + off
	out := slices.Concat(s.b[:pos], g, s.b[pos:])
	c.Input("stream", out)
	// a packet without other sync bytes, in which any strategy finds the boundary
	rec := n
	for k := i + 1; k < n; k++ {
		if !bytes.Contains(s.pkt(k)[1:], []byte{0x47}) {
			rec = k + 1
			break
		}
	}
	// false packets must not have the PID of real ones: they would be an alteration that cannot be detected
	pids := map[int]bool{0: true, 0x1000: true}
	for _, t := range s.h.tracks {
		pids[int(t.track.PID)] = true
	}
	end := pos + len(g) + (rec*188 - pos)
	for j := i * 188; j < end && j+2 < len(out); j++ {
		if out[j] != 0x47 || j < pos && j%188 == 0 || j >= pos+len(g) && (j-len(g))%188 == 0 {
			continue
		}
		if pids[int(out[j+1]&0x1F)<<8|int(out[j+2])] {
			if j < pos || j >= pos+len(g) {
				c.Count("ambiguous", 1)
				return
			}
			out[j] = 0x48
		}
	}
	// what is before is unchanged, when it does not depend on what follows
	claimed := s.claims(func(k int) bool { return k >= i && k < rec }, 0)
	// at the end of the stream, bytes are not enough
	if i == 0 { // the initial tables could be lost: wait for the next ones
		t := n
		for k := rec; k+1 < n; k++ {
			if s.owner[k] < 0 && s.owner[k+1] < 0 {
				t = k
				break
			}
		}
		for k := range claimed {
			if s.span[k][0] < t {
				claimed[k] = false
			}
		}
	}
	c.Notef("%d bytes at packet %d+%d, recovery at %d of %d", size, i, off, rec, n)
	o := readTS(c, &chunkReader{b: out, next: func() int { return 1 + r.IntN(1500) }, hangLimit: 20000}, 0)
	for _, err := range o.errs {
		c.Notef("decode error: %v", err)
	}
	c.Eval(1)
	c.Distinct(out)
	if o.initErr != nil {
		first := s.span[0][0]
		for w, e := range s.h.writes {
			if s.h.tracks[e.trk].needsData() {
				first = s.span[w][1]
			}
		}
		c.Check(i <= first, "Reader.Initialize: %v", o.initErr)
		c.Count("tables_lost", 1)
		return
	}
	if i < 2 { // tables could be those of the garbage
		for k, t := range s.h.tracks {
			if len(o.tracks) != len(s.h.tracks) || sameTSCodec(t, o.tracks[k].Codec) != nil {
				c.Count("tables_lost", 1)
				return
			}
		}
	}
	m := 0
	for _, v := range claimed {
		if v {
			m++
		}
	}
	c.Count("recovered_units", m)
	s.checkUnits(c, o, claimed, func(k int) bool { return k < i || k >= rec }, nil, false)
	c.Count("decode_errors", len(o.errs))
	c.Sample("%d bytes of garbage at packet %d+%d, recovered at %d of %d, %d units claimed", size, i, off, rec, n, m)
}

// c08Damage: packets are altered.
func c08Damage(c *Case) {
	r := c.R
	s := c08History(c, nil)
	n := s.n()
	start := s.span[0][0]
	if n-start < 4 {
		return
	}
	buf := clone(s.b)
	bad := map[int]bool{}
	strict := true
	altered := false
	for range 1 + r.IntN(4) {
		i := start + r.IntN(n-start)
		if bad[i] {
			continue
		}
		p := buf[i*188 : i*188+188]
		kind := r.IntN(6)
		switch kind {
		case 0: // sync byte
			if bytes.Contains(p[1:], []byte{0x47}) {
				continue
			}
			p[0] ^= byte(1 + r.IntN(255))
		case 1: // error indicator
			p[1] |= 0x80
		case 2: // invalid length of the adaptation field
			p[3] |= 0x20
			p[4] = byte(184 + r.IntN(72))
			altered = altered || s.owner[i] >= 0 && s.h.tracks[s.h.writes[s.owner[i]].trk].needsData()
			strict = false
		case 3: // continuity counter
			if i+1 >= n {
				continue
			}
			p[3] = p[3]&0xF0 | (p[3]+byte(1+r.IntN(15)))&15
			strict = false
		case 4: // PID
			pid := int(p[1]&0x1F)<<8 | int(p[2])
			q := pid
			for q == pid || q == 0 || q == 0x1000 {
				q = pick(r, r.IntN(8192), 8191)
			}
			altered = altered || slices.ContainsFunc(s.h.tracks, func(t *tsTrack) bool { return t.needsData() && int(t.track.PID) == q })
			for trk, t := range s.h.tracks { // the unit of the other track is interrupted
				if int(t.track.PID) != q {
					continue
				}
				for w, e := range s.h.writes {
					if e.trk == trk && s.span[w][0] < i {
						k := s.span[w][0]
						nxt := true
						for w2 := w + 1; w2 < len(s.h.writes); w2++ {
							if s.h.writes[w2].trk == trk {
								nxt = s.span[w2][0] > i
								break
							}
						}
						if nxt {
							bad[k] = true
						}
					}
				}
			}
			p[1] = p[1]&0xE0 | byte(q>>8)
			p[2] = byte(q)
			strict = false
		case 5: // neither payload nor adaptation field
			p[3] &= 0x0F
		}
		bad[i] = true
		c.Notef("packet %d: damage %d", i, kind)
		c.Count(fmt.Sprintf("damage:%d", kind), 1)
	}
	c.Notef("damaged packets: %v", mapKeys(bad))
	c.Input("stream", buf)
	claimed := s.claims(func(i int) bool { return bad[i] }, 0)
	o := readTS(c, &chunkReader{b: buf, hangLimit: 20000}, 0)
	c.Eval(1)
	c.Distinct(buf)
	if o.initErr != nil && altered { // the first unit of a track is altered
		c.Count("altered_first_unit", 1)
		return
	}
	if !s.initOK(c, o, claimed) {
		return
	}
	c.Check(errors.Is(o.err, io.EOF), "the reader ended with error %v", o.err)
	// the end of an unit without declared length
	for i, e := range s.h.writes {
		last := true
		for _, e2 := range s.h.writes[i+1:] {
			if e2.trk == e.trk {
				last = false
			}
		}
		for k := s.span[i][0]; last && k <= s.span[i][1]; k++ {
			if bad[k] {
				strict = false
			}
		}
	}
	s.checkUnits(c, o, claimed, nil, func(k int) bool { return bad[k] }, strict)
	c.Count("decode_errors", len(o.errs))
}

func init() {
	register(&Property{
		ID: "C08",
		Rule: "written streams are read with several chunkings, which have to give the same events; garbage, loss, duplication and damage of packets are injected at random places: " +
			"units that are intact, as the following one of their track, have to be delivered unchanged, and no unit that was not written may be delivered when packets are lost, duplicated or separated by garbage",
		Assumptions: []string{
			"the loss of a multiple of 16 consecutive packets of a stream and the loss of the end of the last unit of a stream are not detectable",
			"after garbage that contains sync bytes, recovery is required from the first packet that contains no other sync byte",
			"after damage of PID, continuity counter and adaptation field length, units other than the damaged ones are judged",
		},
		Require: []string{"chunkings", "datagram_chunkings", "events", "decode_errors", "streams_refused", "streams_read", "lost_packets", "duplicated_packets", "duplicates_with_other_pcr", "garbage_bytes", "recovered_units", "delivered", "not_delivered"},
		Families: []Family{
			{Name: "chunks", Quick: 3000, Thorough: 100000, Run: c08Chunks},
			{Name: "loss", Quick: 10000, Thorough: 400000, Run: c08Loss},
			{Name: "duplicates", Quick: 3000, Thorough: 100000, Run: c08Duplicates},
			{Name: "garbage", Quick: 3000, Thorough: 100000, Run: c08Garbage},
			{Name: "sync", Quick: 6000, Thorough: 200000, Run: c08SyncGarbage},
			{Name: "damage", Quick: 8000, Thorough: 300000, Run: c08Damage},
		},
	})
}

// ---- C09 ----

var errInjected = errors.New("injected failure")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type structErr struct{ n int }

func (e *structErr) Error() string { return fmt.Sprintf("failure %d", e.n) }

// faultErrors are the errors that sources and destinations return.
func faultError(r *rand.Rand) (error, string) {
	switch r.IntN(9) {
	case 0:
		return fmt.Errorf("read tcp: %w", io.EOF), "wrapped EOF"
	case 1:
		return io.ErrUnexpectedEOF, "unexpected EOF"
	case 2:
		return fmt.Errorf("body: %w", io.ErrUnexpectedEOF), "wrapped unexpected EOF"
	case 3:
		return timeoutErr{}, "timeout"
	case 4:
		return &structErr{r.IntN(100)}, "struct"
	case 5:
		return os.ErrDeadlineExceeded, "deadline"
	case 6:
		return io.ErrClosedPipe, "closed pipe"
	case 7:
		return fmt.Errorf("a: %w", errors.Join(errInjected, io.EOF)), "joined"
	default:
		return errInjected, "plain"
	}
}

// faultReader fails after a number of bytes.
type faultReader struct {
	b        []byte
	at       int
	err      error
	withData bool
	once     bool // the failure happens once, then the source goes on
	next     func() int
	pos      int
	fired    int
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.fired > 0 && f.once {
		if f.pos >= len(f.b) {
			return 0, io.EOF
		}
		n := copy(p, f.b[f.pos:])
		f.pos += n
		return n, nil
	}
	if f.pos >= f.at {
		f.fired++
		if f.fired > 5000 {
			panic(failure{msg: "the source is called over and over after it failed"})
		}
		return 0, f.err
	}
	n := min(len(p), f.at-f.pos)
	if f.next != nil {
		n = min(n, f.next())
	}
	copy(p[:n], f.b[f.pos:])
	f.pos += n
	if f.pos == f.at && f.withData && n > 0 {
		f.fired++
		return n, f.err
	}
	return n, nil
}

func c09Reader(c *Case) {
	r := c.R
	s := c08History(c, nil)
	b := s.b
	offsets := []int{r.IntN(len(b) + 1)}
	if c.Idx%10 == 0 { // every packet boundary, and something around it
		offsets = nil
		for i := 0; i <= min(s.n(), 60); i++ {
			offsets = append(offsets, i*188, min(len(b), i*188+1+r.IntN(187)))
		}
	} else {
		for range 5 {
			offsets = append(offsets, pick(r, r.IntN(len(b)+1), min(len(b), r.IntN(1400)), r.IntN(s.n()+1)*188, len(b)))
		}
	}
	ref := readTS(c, bytes.NewReader(b), 0)
	c.NoErr(ref.initErr, "Reader.Initialize")
	byTrack := make([][]*tsWrite, len(s.h.tracks))
	for _, u := range ref.units {
		byTrack[u.trk] = append(byTrack[u.trk], u)
	}
	for _, at := range offsets {
		e, name := faultError(r)
		f := &faultReader{b: b, at: at, err: e, withData: flip(r), once: flip(r)}
		if e == io.ErrUnexpectedEOF { //nolint:errorlint
			f.once = false // an end of stream is not temporary
		}
		if flip(r) {
			m := pick(r, 1, 188, 1316, 100+r.IntN(1000))
			if m == 1 && len(b) > 20000 {
				m = 50
			}
			f.next = func() int { return m }
		}
		c.Notef("source fails at %d of %d with %v, with data %v, once %v", at, len(b), e, f.withData, f.once)
		o := readTS(c, f, 0)
		c.Eval(1)
		c.Distinct(b, at, name, f.withData, f.once)
		c.Count("source_failures", 1)
		c.Count("fault:"+name, 1)
		got := o.err
		if o.initErr != nil {
			got = o.initErr
			c.Count("failed_initialize", 1)
		} else {
			c.Count("failed_read", 1)
		}
		c.Check(f.fired > 0, "the source did not fail and reading ended with %v", got)
		if !errors.Is(got, e) || e == io.ErrUnexpectedEOF && got == io.EOF { //nolint:errorlint
			c.Failf("the source failed at byte %d of %d with %q (%s, with data %v, once %v), the reader returned %q", at, len(b), e, name, f.withData, f.once, got)
		}
		if o.initErr != nil {
			continue
		}
		// what was complete
		pos := make([]int, len(s.h.tracks))
		for n, u := range o.units {
			if pos[u.trk] < len(byTrack[u.trk]) && sameUnit(byTrack[u.trk][pos[u.trk]], u) {
				pos[u.trk]++
				c.Count("delivered", 1)
				continue
			}
			// an end of stream completes the last unit of a track
			if e == io.ErrUnexpectedEOF && tsIsVideo[s.h.tracks[u.trk].kind] && !slices.ContainsFunc(o.units[n+1:], func(x *tsWrite) bool { return x.trk == u.trk }) {
				continue
			}
			c.Failf("source failed at %d: unit %v was delivered, want %v", at, u, byTrack[u.trk][pos[u.trk]])
		}
		full := at / 188
		want := make([]int, len(s.h.tracks))
		for i, x := range s.h.writes {
			t := s.h.tracks[x.trk]
			if s.span[i][1] >= full || t.kind == "klv-async" && s.asyncPTS(i, func(int) bool { return true }) < 0 {
				continue
			}
			complete := !tsIsVideo[t.kind]
			for j := i + 1; j < len(s.h.writes) && !complete; j++ {
				if s.h.writes[j].trk == x.trk {
					complete = s.span[j][0] < full
					break
				}
			}
			if complete {
				want[x.trk]++
			}
		}
		for i := range want {
			c.Check(pos[i] >= want[i], "source failed at %d: track %d (%s) had %d complete units, %d were delivered", at, i, s.h.tracks[i].kind, want[i], pos[i])
		}
	}
}

// c09Callback: errors of callbacks.
func c09Callback(c *Case) {
	r := c.R
	s := c08History(c, nil)
	e, _ := faultError(r)
	ref := readTS(c, bytes.NewReader(s.b), 0)
	if len(ref.units) == 0 {
		return
	}
	at := r.IntN(len(ref.units))
	rd := &mpegts.Reader{R: bytes.NewReader(s.b)}
	c.NoErr(rd.Initialize(), "Reader.Initialize")
	n := 0
	fired := false
	for i, t := range rd.Tracks() {
		tsSubscribe(rd, t, func(pts, dts int64, units [][]byte) error {
			u := &tsWrite{trk: i, pts: pts, dts: dts, units: units}
			c.Check(n < len(ref.units) && ref.units[n].trk == i && sameUnit(ref.units[n], u), "unit %d differs", n)
			n++
			if n-1 == at {
				fired = true
				return e
			}
			return nil
		})
	}
	for {
		before := n
		err := rd.Read()
		if fired {
			fired = false
			c.Check(n == before+1 && errors.Is(err, e), "the callback of unit %d returned %v, Read returned %v", at, e, err)
			c.Count("callback_errors", 1)
			continue
		}
		if err != nil {
			c.Check(errors.Is(err, io.EOF), "Read: %v", err)
			break
		}
	}
	c.Check(n == len(ref.units), "%d units after an error of a callback, want %d", n, len(ref.units))
	c.Eval(1)
	c.Distinct(s.b, at)
}

// faultWriter fails on a given call.
type faultWriter struct {
	buf   []byte
	at    int // index of the call, -1 never
	err   error
	part  func(n int) int // bytes accepted by the call that fails
	once  bool
	calls int
	fired int
}

func (f *faultWriter) Write(p []byte) (int, error) {
	i := f.calls
	f.calls++
	if i == f.at || !f.once && f.fired > 0 {
		f.fired++
		n := 0
		if f.part != nil && f.fired == 1 {
			n = f.part(len(p))
		}
		f.buf = append(f.buf, p[:n]...)
		return n, f.err
	}
	f.buf = append(f.buf, p...)
	return len(p), nil
}

func c09Writer(c *Case) {
	r := c.R
	h := genTSHistory(r, tsOpts{writes: 2 + r.IntN(12), size: func(r *randT) int {
		if r.IntN(8) == 0 {
			return 1 + r.IntN(3000)
		}
		return 1 + r.IntN(400)
	}})
	withTables := flip(r)
	run := func(f *faultWriter) (errs []error, parts [][]byte, tabErr error) {
		w := &mpegts.Writer{W: f}
		for _, t := range h.tracks {
			w.Tracks = append(w.Tracks, t.track)
		}
		c.NoErr(w.Initialize(), "Writer.Initialize")
		if withTables {
			c.Protect("WriteTables", func() { _, tabErr = w.WriteTables() })
		}
		pos := len(f.buf)
		for _, e := range h.writes {
			var err error
			c.Protect("Write", func() { err = h.tracks[e.trk].write(w, e) })
			errs = append(errs, err)
			parts = append(parts, clone(f.buf[pos:]))
			pos = len(f.buf)
		}
		return errs, parts, tabErr
	}
	ref := &faultWriter{at: -1}
	refErrs, refParts, _ := run(ref)
	for i, err := range refErrs {
		c.NoErr(err, fmt.Sprintf("write %d", i))
	}
	c.Max("destination_calls", int64(ref.calls))
	var points []int
	switch {
	case c.Idx%8 == 0 && ref.calls < 400:
		for i := range ref.calls {
			points = append(points, i)
		}
	case c.Idx%8 == 0: // the first packets
		for i := range 300 {
			points = append(points, i)
		}
	default:
		for range 8 {
			points = append(points, r.IntN(ref.calls))
		}
	}
	for _, at := range points {
		e, name := faultError(r)
		f := &faultWriter{at: at, err: e, once: flip(r)}
		switch r.IntN(4) {
		case 0, 1:
			f.part = func(n int) int { return r.IntN(n) }
		case 2: // everything has been written, nevertheless there is an error
			f.part = func(n int) int { return n }
		}
		c.Notef("destination fails at call %d of %d with %v, once %v", at, ref.calls, e, f.once)
		startFired := 0
		w := &mpegts.Writer{W: f}
		for _, t := range h.tracks {
			w.Tracks = append(w.Tracks, t.track)
		}
		c.NoErr(w.Initialize(), "Writer.Initialize")
		if withTables {
			var err error
			var n int
			c.Protect("WriteTables", func() { n, err = w.WriteTables() })
			c.Check(n == len(f.buf), "WriteTables returned %d bytes, %v, the destination received %d bytes", n, err, len(f.buf))
			c.Check((err != nil) == (f.fired > 0), "destination failed at call %d, WriteTables returned %v", at, err)
			c.Check(err == nil || errors.Is(err, e), "WriteTables returned %v, want %v", err, e)
			startFired = f.fired
		}
		hasTables := withTables && f.fired == 0
		for i, x := range h.writes {
			t := h.tracks[x.trk]
			pos := len(f.buf)
			var err error
			c.Protect("Write", func() { err = t.write(w, x) })
			part := f.buf[pos:]
			if f.fired > startFired {
				if err == nil || !errors.Is(err, e) {
					c.Failf("the destination failed at call %d with %q (once %v), write %d (%s) returned %v", at, e, f.once, i, t.kind, err)
				}
				startFired = f.fired
				c.Count("failed_writes", 1)
				// whole packets that have been accepted
				if p, err := parseTSPackets(part[:len(part)/188*188]); err == nil {
					hasTables = hasTables || len(p) >= 2 && p[0].pid == 0 && p[1].pid == 0x1000
				}
				continue
			}
			c.NoErr(err, fmt.Sprintf("write %d (%s), in which the destination did not fail (failure at call %d)", i, t.kind, at))
			if f.fired == 0 {
				c.Check(bytes.Equal(part, refParts[i]), "write %d (%s), before the failure, differs from the one without failures", i, t.kind)
			}
			pkts, err := parseTSPackets(part)
			if err != nil {
				c.Input("write", part)
				c.Failf("write %d (%s) succeeded after a failure (call %d) and its output is not valid: %v", i, t.kind, at, err)
			}
			if f.fired > 0 {
				c.Count("writes_after_failure", 1)
			}
			for len(pkts) >= 2 && pkts[0].pid == 0 {
				c.Check(pkts[1].pid == 0x1000, "write %d: tables are not complete", i)
				for _, k := range pkts[:2] {
					_, _, _, _, err := parseSection(k.payload)
					c.NoErr(err, "tables")
				}
				hasTables = true
				pkts = pkts[2:]
			}
			c.Check(hasTables, "write %d (%s) succeeded and its unit is not preceded by tables (failure at call %d)", i, t.kind, at)
			c.Check(len(pkts) > 0, "write %d: no packets", i)
			for k, p := range pkts {
				c.Check(p.pid == int(t.track.PID) && p.pusi == (k == 0) && (k == 0 || p.cc == (pkts[k-1].cc+1)&15), "write %d (%s): packet %d is not of the unit", i, t.kind, k)
			}
			pes, err := parsePES(pkts[0].pid, pkts)
			c.NoErr(err, fmt.Sprintf("write %d (%s)", i, t.kind))
			c.Check(bytes.Equal(pes.data, tsFramed(t, x.units)), "write %d (%s) succeeded and its unit is not complete", i, t.kind)
		}
		c.Eval(1)
		c.Count("fault:"+name, 1)
		c.Distinct(ref.buf, at, name, f.once)
		c.Check(f.fired > 0, "the destination was expected to fail at call %d of %d", at, ref.calls)

		// the number of bytes returned by WriteTables
		f.at, f.once, f.fired = f.calls+r.IntN(4), true, 0
		pos := len(f.buf)
		var n int
		var err error
		c.Protect("WriteTables", func() { n, err = w.WriteTables() })
		c.Check((err != nil) == (f.fired > 0), "destination failed %d times, WriteTables returned %v", f.fired, err)
		c.Check(n == len(f.buf)-pos, "WriteTables returned %d bytes, %v, the destination received %d bytes", n, err, len(f.buf)-pos)
	}
	c.Sample("%d writes, %d calls to the destination, %d failures injected", len(h.writes), ref.calls, len(points))
}

func init() {
	register(&Property{
		ID: "C09",
		Rule: "the source of a reader fails at generated offsets (every packet boundary in some cases) with errors of several kinds, EOF wrappers included, once or forever, with or without data; " +
			"the destination of a writer fails at generated calls (every call in some cases); callbacks fail: errors have to come back and what was complete has to be delivered or written",
		Require: []string{"source_failures", "failed_initialize", "failed_read", "delivered", "callback_errors", "failed_writes", "writes_after_failure"},
		Families: []Family{
			{Name: "reader", Quick: 4000, Thorough: 200000, Run: c09Reader},
			{Name: "callback", Quick: 1500, Thorough: 50000, Run: c09Callback},
			{Name: "writer", Quick: 4000, Thorough: 150000, Run: c09Writer},
		},
	})
}
