package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
)

// C03: MPEG-TS reader on any bytes.

// tsMux is an independent multiplexer, able to write legal and illegal streams.
type tsMux struct {
	r   *rand.Rand
	cc  map[int]int
	out []byte
}

func newTSMux(r *rand.Rand) *tsMux { return &tsMux{r: r, cc: map[int]int{}} }

// packet writes a packet. The adaptation field, if present, includes its length.
func (m *tsMux) packet(pid int, pusi bool, af []byte, pay []byte) {
	b := make([]byte, 0, 188)
	flags := byte(0)
	if pusi {
		flags = 0x40
	}
	ctl := byte(0)
	if len(pay) > 0 {
		ctl |= 0x10
	}
	room := 184 - len(af) - len(pay)
	if room > 0 { // stuffing
		switch {
		case len(af) == 0 && room == 1:
			af = []byte{0}
		case len(af) == 0:
			af = append([]byte{byte(room - 1), 0}, bytes.Repeat([]byte{0xFF}, room-2)...)
		case len(af) == 1:
			af = append([]byte{byte(room), 0}, bytes.Repeat([]byte{0xFF}, room-1)...)
		default:
			af = append(clone(af), bytes.Repeat([]byte{0xFF}, room)...)
			af[0] += byte(room)
		}
	}
	if len(af) > 0 {
		ctl |= 0x20
	}
	cc := m.cc[pid]
	if len(pay) > 0 {
		m.cc[pid] = (cc + 1) & 15
	} else {
		cc = (cc - 1) & 15
	}
	b = append(b, 0x47, flags|byte(pid>>8), byte(pid), ctl|byte(cc))
	b = append(append(b, af...), pay...)
	if len(b) != 188 {
		panic(fmt.Sprintf("verif: packet of %d bytes", len(b)))
	}
	m.out = append(m.out, b...)
}

// adaptation returns a random legal adaptation field, of at most n bytes.
func (m *tsMux) adaptation(n int) []byte {
	r := m.r
	if n < 2 || flip(r) {
		return nil
	}
	fl := byte(0)
	var b []byte
	add := func(bit byte, size int) {
		if len(b)+size+2 <= n && flip(r) {
			fl |= bit
			b = append(b, randBytes(r, size)...)
			switch bit {
			case 0x10, 0x08:
				b[len(b)-2] |= 0x7E
				b[len(b)-1] = byte(r.IntN(200))
			case 0x02:
				b[len(b)-size] = byte(size - 1)
			}
		}
	}
	if flip(r) {
		fl |= 0x40
	}
	if r.IntN(4) == 0 {
		fl |= 0x20
	}
	add(0x10, 6)
	add(0x08, 6)
	add(0x04, 1)
	add(0x02, 1+r.IntN(20))
	b = append([]byte{0, fl}, b...)
	for len(b) < n && r.IntN(3) == 0 {
		b = append(b, 0xFF)
	}
	b[0] = byte(len(b) - 1)
	return b
}

func psiSection(table int, ext int, version int, body []byte) []byte {
	n := len(body) + 9
	s := []byte{byte(table), 0xB0 | byte(n>>8), byte(n), byte(ext >> 8), byte(ext), 0xC1 | byte(version<<1), 0, 0}
	s = append(s, body...)
	crc := crcMPEG2(s)
	return append(s, byte(crc>>24), byte(crc>>16), byte(crc>>8), byte(crc))
}

// psi writes sections in packets.
func (m *tsMux) psi(pid int, pointer int, sections ...[]byte) {
	b := append([]byte{byte(pointer)}, bytes.Repeat([]byte{0xFF}, pointer)...)
	for _, s := range sections {
		b = append(b, s...)
	}
	for k := 0; len(b) > 0; k++ {
		n := min(184, len(b))
		p := clone(b[:n])
		for len(p) < 184 {
			p = append(p, 0xFF)
		}
		m.packet(pid, k == 0, nil, p)
		b = b[n:]
	}
}

func patBody(l [][2]int) []byte {
	var b []byte
	for _, x := range l {
		b = append(b, byte(x[0]>>8), byte(x[0]), 0xE0|byte(x[1]>>8), byte(x[1]))
	}
	return b
}

func pmtBody(pcr int, desc []byte, es []tsES) []byte {
	b := []byte{0xE0 | byte(pcr>>8), byte(pcr), 0xF0 | byte(len(desc)>>8), byte(len(desc))}
	b = append(b, desc...)
	for _, e := range es {
		b = append(b, byte(e.typ), 0xE0|byte(e.pid>>8), byte(e.pid), 0xF0|byte(len(e.desc)>>8), byte(len(e.desc)))
		b = append(b, e.desc...)
	}
	return b
}

func clockBytes(prefix byte, v int64) []byte {
	return []byte{prefix<<4 | byte(v>>30&7)<<1 | 1, byte(v >> 22), byte(v>>15)<<1 | 1, byte(v >> 7), byte(v)<<1 | 1}
}

type pesOpts struct {
	pts, dts int64 // -1: absent
	sid      int
	bounded  bool
	extra    bool // optional fields and stuffing in the header
}

func (m *tsMux) pesBytes(o pesOpts, data []byte) []byte {
	r := m.r
	var h []byte
	fl := byte(0)
	if o.pts >= 0 && o.dts >= 0 {
		fl = 0xC0
		h = append(clockBytes(3, o.pts), clockBytes(1, o.dts)...)
	} else if o.pts >= 0 {
		fl = 0x80
		h = clockBytes(2, o.pts)
	}
	if o.extra {
		if r.IntN(4) == 0 { // ESCR
			fl |= 0x20
			h = append(h, 0xC4|byte(r.IntN(8)<<3)|byte(r.IntN(4)), byte(r.Uint32()), byte(r.Uint32())|4, byte(r.Uint32()), byte(r.Uint32())|4, byte(r.Uint32())|1)
		}
		if r.IntN(4) == 0 { // ES rate
			fl |= 0x10
			h = append(h, 0x80|byte(r.IntN(128)), byte(r.Uint32()), byte(r.Uint32())|1)
		}
		if r.IntN(4) == 0 { // additional copy info
			fl |= 4
			h = append(h, 0x80|byte(r.IntN(128)))
		}
		if r.IntN(4) == 0 { // CRC
			fl |= 2
			h = append(h, byte(r.Uint32()), byte(r.Uint32()))
		}
		if r.IntN(2) == 0 {
			h = append(h, bytes.Repeat([]byte{0xFF}, r.IntN(20))...)
		}
	}
	n := 0
	if o.bounded && 3+len(h)+len(data) <= 65535 {
		n = 3 + len(h) + len(data)
	}
	b := []byte{0, 0, 1, byte(o.sid), byte(n >> 8), byte(n), 0x80 | byte(r.IntN(2)<<2), fl, byte(len(h))}
	if o.extra {
		b[6] |= byte(r.IntN(4)) | byte(r.IntN(2)<<3)
	}
	return append(append(b, h...), data...)
}

func (m *tsMux) pes(pid int, o pesOpts, data []byte, noise func()) {
	b := m.pesBytes(o, data)
	for k := 0; len(b) > 0; k++ {
		var af []byte
		if k == 0 {
			af = m.adaptation(100)
		} else if m.r.IntN(8) == 0 {
			af = m.adaptation(180)
		}
		n := min(184-len(af), len(b))
		if k == 0 && m.r.IntN(12) == 0 { // little more than the header with the timestamp
			n = min(n, 14+pick(m.r, 0, 0, 1, 5, m.r.IntN(20)))
		}
		if k > 0 && m.r.IntN(20) == 0 {
			n = min(n, 1+m.r.IntN(183))
		}
		m.packet(pid, k == 0, af, b[:n])
		b = b[n:]
		if noise != nil && len(b) > 0 && m.r.IntN(6) == 0 {
			noise()
		}
	}
}

// descriptorsOf returns stream type and descriptors which identify a track, as built by the writer.
func descriptorsOf(c *Case, t *tsTrack) tsES {
	var buf bytes.Buffer
	w := &mpegts.Writer{W: &buf, Tracks: []*mpegts.Track{t.track}}
	c.NoErr(w.Initialize(), "Writer.Initialize")
	_, err := w.WriteTables()
	c.NoErr(err, "WriteTables")
	pkts, err := parseTSPackets(buf.Bytes())
	c.NoErr(err, "tables")
	_, _, _, body, err := parseSection(pkts[1].payload)
	c.NoErr(err, "PMT")
	p, err := parsePMTBody(body)
	c.NoErr(err, "PMT")
	t.track.PID = 0
	return p.es[0]
}

// klvCells splits a unit into metadata AU cells.
func klvCells(b []byte, cells []int) []byte {
	var out []byte
	for i, n := range cells {
		ind := byte(0)
		if i == 0 {
			ind |= 2
		}
		if i == len(cells)-1 {
			ind |= 1
		}
		out = append(append(out, 0, byte(i), ind<<6|0x1F, byte(n>>8), byte(n)), b[:n]...)
		b = b[n:]
	}
	return out
}

// klvBadCells damages a list of cells.
func klvBadCells(r *rand.Rand, data []byte, cells []int) []byte {
	k := 1 + r.IntN(len(cells)-1) // not the first one
	pos := 0
	for _, n := range cells[:k] {
		pos += 5 + n
	}
	end := pos + 5 + cells[k]
	switch r.IntN(5) {
	case 0: // wrong sequence number
		data[pos+1] ^= 1 << r.IntN(8)
	case 1: // a cell is missing
		if k == len(cells)-1 {
			return data[:pos]
		}
		return append(data[:pos], data[end:]...)
	case 2: // a cell is repeated
		return append(clone(data[:end]), data[pos:]...)
	case 3: // something follows the last cell
		return append(data, randBytes(r, 1+r.IntN(8))...)
	default: // a unit begins inside another one
		data[pos+2] |= 0x80
	}
	return data
}

// badUnits returns payloads that cannot be decoded.
func badUnit(r *rand.Rand, kind string, good []byte) []byte {
	b := clone(good)
	switch kind {
	case "h264", "h265":
		switch r.IntN(3) {
		case 0:
			b[0] = 9 // no start code at the beginning
		case 1:
			return []byte{0, 0, 0, 1}
		default: // no start code at all
			return bytes.Repeat([]byte{byte(1 + r.IntN(255))}, 1+r.IntN(100))
		}
	case "opus":
		switch r.IntN(3) {
		case 0:
			b[0] = 0x12
		case 1:
			b = b[:len(b)-1]
		default:
			b = append(b, 0x7F)
		}
	case "aac":
		switch r.IntN(3) {
		case 0:
			b[0] = 0
		case 1:
			b = b[:len(b)-1]
		default:
			b = append(b, 0xFF, 0xF1, 0)
		}
	case "latm":
		switch r.IntN(2) {
		case 0:
			b[0] = 0
		default:
			b = b[:len(b)-1]
		}
	case "mp3":
		switch r.IntN(3) {
		case 0:
			b[0] = 0
		case 1:
			b = b[:len(b)-1]
		default:
			b = append(b, 0xFF, 0xFB)
		}
	case "ac3":
		switch r.IntN(3) {
		case 0:
			b[0] = 0
		case 1:
			b = b[:len(b)-1]
		default:
			b = append(b, 1)
		}
	case "eac3":
		b[r.IntN(2)] ^= byte(1 + r.IntN(255))
	case "klv-sync":
		switch r.IntN(4) {
		case 0:
			b[1] = byte(1 + r.IntN(255))
		case 1:
			b[2] &= 0x3F
		case 2:
			b = append(b, 1)
		default:
			b = b[:len(b)-1]
		}
	default:
		return nil
	}
	return b
}

// c03Foreign: streams built by another multiplexer, in which some units cannot be decoded.
func c03Foreign(c *Case) {
	r := c.R
	m := newTSMux(r)
	n := 1 + r.IntN(4)
	h := &tsHistory{}
	var es []tsES
	pmtPID := pick(r, 0x1000, 32+r.IntN(200), 0x1FF0)
	pid := 256 + r.IntN(1000)
	type ext struct {
		idx int // in h.tracks, or -1
		pid int
	}
	var streams []ext
	for range n {
		pid += 1 + r.IntN(40)
		if r.IntN(6) == 0 { // unsupported streams
			e := tsES{typ: pick(r, 0x06, 0x80, 0x42, 0x15, 0xD1, 0x33, 0x0D), pid: pid}
			switch r.IntN(4) {
			case 0:
				e.desc = []byte{5, 4, 'X', 'Y', 'Z', 'W'}
			case 1:
				e.desc = []byte{0x0A, 4, 'e', 'n', 'g', 0}
			case 2:
				e.desc = append([]byte{0xFE, 12}, randBytes(r, 12)...)
			}
			es = append(es, e)
			streams = append(streams, ext{-1, pid})
			continue
		}
		t := genTSTrack(r, tsKinds[r.IntN(len(tsKinds))])
		e := descriptorsOf(c, t)
		e.pid = pid
		if t.kind == "mpeg1video" && flip(r) {
			e.typ = 1 // MPEG-1 video, instead of MPEG-2 video
		}
		if r.IntN(3) == 0 {
			t.track.Language = pick(r, "eng", "deu", "abc")
			d := append([]byte(t.track.Language), byte(r.IntN(4)))
			for r.IntN(3) == 0 && len(d) < 100 { // further languages
				d = append(d, 'i', 't', 'a', byte(r.IntN(4)))
			}
			e.desc = append(clone(e.desc), append([]byte{0x0A, byte(len(d))}, d...)...)
		}
		if r.IntN(3) == 0 { // descriptors that have to be ignored
			d := append([]byte{0x52, 1}, byte(r.Uint32()))
			if flip(r) {
				d = append([]byte{0xF0, 7}, randBytes(r, 7)...)
			}
			e.desc = append(d, e.desc...)
		}
		if t.kind == "klv-sync" && flip(r) { // other metadata, in formats which are not supported
			other := func() []byte {
				d := append([]byte{1, byte(r.IntN(3)), pick[byte](r, 0x10, 0x11, 0x40), byte(r.IntN(256)), pick[byte](r, 0, 2, 5, 6, 7)<<5 | 0xF}, randBytes(r, r.IntN(4))...)
				if r.IntN(3) == 0 { // a format identifier, that is not KLVA
					d = append([]byte{1, 0, 0xFF, 'I', 'D', '3', ' ', byte(r.IntN(256)), pick[byte](r, 0, 2, 5, 6, 7)<<5 | 0xF}, randBytes(r, r.IntN(4))...)
				}
				return append([]byte{0x26, byte(len(d))}, d...)
			}
			e.desc = clone(e.desc)
			if flip(r) {
				e.desc = append(other(), e.desc...)
			}
			if flip(r) {
				e.desc = append(e.desc, other()...)
			}
			c.Count("other_metadata", 1)
		}
		t.track.PID = uint16(pid)
		es = append(es, e)
		streams = append(streams, ext{len(h.tracks), pid})
		h.tracks = append(h.tracks, t)
	}
	var pdesc []byte
	if r.IntN(3) == 0 {
		pdesc = []byte{5, 4, 'H', 'D', 'M', 'V'}
	}
	version := r.IntN(32)
	pmt := psiSection(2, 1+r.IntN(65535), version, pmtBody(es[0].pid, pdesc, es))
	programs := [][2]int{{1 + r.IntN(65535), pmtPID}}
	if r.IntN(3) == 0 {
		programs = append([][2]int{{0, 0x10}}, programs...)
	}
	pat := psiSection(0, r.IntN(65536), r.IntN(32), patBody(programs))
	tables := func() {
		m.psi(0, pick(r, 0, 0, 0, 1, r.IntN(100)), pat)
		m.psi(pmtPID, pick(r, 0, 0, 0, 1, r.IntN(20)), pmt)
	}
	undeclared := 0
	damaged := 0
	noise := func() {
		switch r.IntN(5) {
		case 4: // damaged tables
			if r.IntN(4) == 0 {
				p, s := 0, clone(pat)
				if flip(r) {
					p, s = pmtPID, clone(pmt)
				}
				s[8+r.IntN(len(s)-8)] ^= 1 << r.IntN(8)
				m.psi(p, pick(r, 0, 0, 1, r.IntN(20)), s)
				damaged++
				c.Count("damaged_tables", 1)
			}
		case 0:
			m.packet(0x1FFF, false, nil, randBytes(r, 184))
		case 1: // adaptation field only
			s := streams[r.IntN(len(streams))]
			af := m.adaptation(100)
			if af == nil {
				af = []byte{1, 0}
			}
			m.packet(s.pid, false, af, nil)
		case 2:
			m.packet(0x11, true, nil, append(append([]byte{0}, psiSection(0x42, 1, 0, []byte{0, 1, 0xFF})...), bytes.Repeat([]byte{0xFF}, 184-1-15)...))
		case 3:
			tables()
		}
	}
	tables()
	type sent struct {
		trk int
		u   *tsWrite
	}
	var want []sent
	bad := 0
	pts := int64(r.Uint64() >> 31)
	last := int64(-1)
	first := map[int]bool{}
	total := 5 + r.IntN(40)
	unbounded := map[int]bool{}
	for i := range total {
		s := streams[r.IntN(len(streams))]
		if i < len(streams) {
			s = streams[i]
		}
		pts = (pts + 1 + r.Int64N(20000)) & mask33
		if r.IntN(4) == 0 {
			noise()
		}
		if r.IntN(10) == 0 { // a stream that is not declared
			m.pes(0x1500, pesOpts{pts: pts, dts: -1, sid: 0xE0, bounded: true}, randBytes(r, 1+r.IntN(100)), nil)
			undeclared++
			last = pts
		}
		if s.idx < 0 {
			m.pes(s.pid, pesOpts{pts: pts, dts: -1, sid: 0xBD, bounded: true}, randBytes(r, 1+r.IntN(500)), noise)
			last = pts
			continue
		}
		t := h.tracks[s.idx]
		o := pesOpts{pts: pts, dts: -1, sid: 0xC0 + r.IntN(4), bounded: true, extra: flip(r)}
		if tsIsVideo[t.kind] {
			o.sid = 0xE0 + r.IntN(4)
			o.bounded = flip(r)
		}
		size := 1 + r.IntN(600)
		if unbounded[s.idx] { // known finding of C05
			size = 400 + r.IntN(300)
			o.bounded = o.bounded && t.kind != "mp3" && t.kind != "ac3"
		}
		if t.kind == "klv-async" {
			o.pts = -1
			o.sid = 0xBD
		}
		u := &tsWrite{trk: s.idx, pts: pts, dts: pts, units: t.gen(r, size)}
		if t.kind == "h264" || t.kind == "h265" {
			if flip(r) {
				o.dts = (pts - r.Int64N(10000)) & mask33
				u.dts = o.dts
			}
			for len(u.units) != 0 && len(stripAUD(t.kind, u.units)) != len(u.units) {
				u.units = stripAUD(t.kind, u.units)
			}
			if len(u.units) == 0 {
				u.units = [][]byte{{1, 2, 3}}
			}
		}
		data := tsFramed(t, u.units)
		if (t.kind == "h264" || t.kind == "h265") && flip(r) { // without delimiter, with short start codes
			data = nil
			for k, x := range u.units {
				if k == 0 || flip(r) {
					data = append(data, 0)
				}
				data = append(append(data, 0, 0, 1), x...)
			}
		}
		if r.IntN(12) == 0 && tsIsVideo[t.kind] && o.bounded {
			o.bounded = false
		}
		cells := []int(nil)
		if t.kind == "klv-sync" && flip(r) { // more than one cell
			cells = splitBytes(r, len(u.units[0]), pick(r, 1+r.IntN(5), 1+r.IntN(5), 1+r.IntN(256)), 0)
			c.Max("cells", int64(len(cells)))
			data = klvCells(u.units[0], cells)
		}
		isBad := false
		if first[s.idx] || !t.needsData() {
			switch r.IntN(14) {
			case 0:
				if len(cells) > 1 {
					data = klvBadCells(r, data, cells)
					isBad = true
				} else if b := badUnit(r, t.kind, data); b != nil {
					data = b
					isBad = true
				}
			case 1: // no timestamp
				if t.kind != "klv-async" {
					o.pts, o.dts = -1, -1
					isBad = true
				}
			case 2: // different timestamps where they are not possible
				if !tsIsVideo[t.kind] && t.kind != "klv-async" && t.kind != "klv-sync" && t.kind != "dvb" {
					o.dts = (pts - 1 - r.Int64N(1000)) & mask33
					isBad = true
				}
			}
		}
		if unbounded[s.idx] && o.bounded && len(data) < 200 {
			continue
		}
		first[s.idx] = true
		if o.pts >= 0 {
			last = o.pts
		}
		unbounded[s.idx] = !o.bounded
		m.pes(s.pid, o, data, noise)
		c.Count("unit:"+t.kind, 1)
		if isBad {
			bad++
			c.Count("bad:"+t.kind, 1)
			continue
		}
		if t.kind == "klv-async" {
			if last < 0 {
				continue
			}
			u.pts, u.dts = last, last
		}
		want = append(want, sent{s.idx, u})
	}
	c.Input("stream", m.out)
	c.Eval(1)
	c.Distinct(m.out)
	rd := &mpegts.Reader{R: &chunkReader{b: m.out, next: func() int { return 1 + r.IntN(3000) }, hangLimit: 20000}}
	c.NoErr(rd.Initialize(), "Reader.Initialize")
	c.Check(len(rd.Tracks()) == len(streams), "%d tracks, want %d", len(rd.Tracks()), len(streams))
	var got []sent
	for i, tr := range rd.Tracks() {
		s := streams[i]
		c.Check(int(tr.PID) == s.pid, "track %d has PID %d, want %d", i, tr.PID, s.pid)
		if s.idx < 0 {
			_, ok := tr.Codec.(*codecs.Unsupported)
			c.Check(ok, "track %d (type %#x, descriptors % x) is %T, want unsupported", i, es[i].typ, es[i].desc, tr.Codec)
			c.Count("unsupported_tracks", 1)
			continue
		}
		t := h.tracks[s.idx]
		if err := sameTSCodec(t, tr.Codec); err != nil {
			c.Failf("track %d (%s): %v", i, t.kind, err)
		}
		c.Check(tr.Language == t.track.Language, "track %d: language %q, want %q", i, tr.Language, t.track.Language)
		tsSubscribe(rd, tr, func(pts, dts int64, units [][]byte) error {
			got = append(got, sent{s.idx, &tsWrite{pts: pts, dts: dts, units: units}})
			return nil
		})
	}
	var errs []error
	rd.OnDecodeError(func(err error) { errs = append(errs, err) })
	for calls := 0; ; calls++ {
		c.Check(calls < 100000, "the stream does not end")
		err := rd.Read()
		if err != nil {
			c.Check(errors.Is(err, io.EOF), "the reader ended with error %v", err)
			break
		}
	}
	byTrack := func(l []sent, trk int) (out []*tsWrite) {
		for _, x := range l {
			if x.trk == trk {
				out = append(out, x.u)
			}
		}
		return
	}
	for i, t := range h.tracks {
		g, w := byTrack(got, i), byTrack(want, i)
		for k := range min(len(g), len(w)) {
			same := sameUnit(g[k], w[k])
			if !same {
				c.Failf("track %d (%s): unit %d is %v, want %v (%d units are invalid, errors: %v)", i, t.kind, k, g[k], w[k], bad, errs)
			}
		}
		c.Check(len(g) == len(w), "track %d (%s): %d units, want %d (%d units are invalid, errors: %v)", i, t.kind, len(g), len(w), bad, errs)
		c.Count("delivered", len(g))
	}
	c.Check(len(errs) == bad+undeclared+damaged, "%d decode errors, %d units are invalid, %d are undeclared and %d tables are damaged: %v",
		len(errs), bad, undeclared, damaged, errs)
	c.Count("decode_errors", len(errs))
	c.Sample("%d streams, %d units, %d invalid", len(streams), len(want), bad)
}

// tsTotal reads a stream to the end, in any condition.
func tsTotal(c *Case, b []byte) {
	r := c.R
	c.Input("stream", b)
	c.Eval(1)
	c.Distinct(b)
	src := &chunkReader{b: b, hangLimit: 10000, errWith: r.IntN(4) == 0}
	switch r.IntN(4) {
	case 0:
		src.next = func() int { return 1 + r.IntN(1400) }
	case 1:
		src.next = func() int { return r.IntN(30) }
	}
	rd := &mpegts.Reader{R: src}
	var err error
	c.Protect("Reader.Initialize", func() { err = rd.Initialize() })
	if err != nil {
		c.Count("refused", 1)
		c.Check(len(b) < 1<<20 || true, "")
		return
	}
	c.Count("opened", 1)
	for i, t := range rd.Tracks() {
		c.Check(t != nil && t.Codec != nil, "track %d has no codec", i)
		if r.IntN(6) != 0 {
			tsSubscribe(rd, t, func(_, _ int64, units [][]byte) error {
				c.Count("units", 1)
				for _, u := range units {
					if len(u) == 0 && len(units) > 1 {
						c.Count("empty_units", 1)
					}
				}
				return nil
			})
		}
	}
	nerr := 0
	if r.IntN(4) != 0 {
		rd.OnDecodeError(func(err error) {
			c.Check(err != nil, "decode error without error")
			nerr++
		})
	}
	limit := 32*(len(b)/188) + 9000
	ends := 0
	c.Protect("Reader.Read", func() {
		for calls := 0; ; calls++ {
			c.Check(calls < limit, "the reader did not end after %d calls on %d bytes", calls, len(b))
			err := rd.Read()
			if err != nil {
				c.Check(errors.Is(err, io.EOF), "the reader ended with error %v", err)
				ends++
				if ends == 3 {
					return
				}
			} else {
				c.Check(ends == 0, "Read succeeded after the end of the stream")
			}
		}
	})
	c.Count("decode_errors", nerr)
	c.Max("decode_errors_per_stream", int64(nerr))
}

func c03Random(c *Case) {
	r := c.R
	b := randBytes(r, r.IntN(20000))
	switch r.IntN(4) {
	case 0: // packets
		for i := 0; i < len(b); i += 188 {
			b[i] = 0x47
		}
	case 1: // packets of few streams
		for i := 0; i+5 < len(b); i += 188 {
			b[i] = 0x47
			b[i+1] = byte(r.IntN(2)<<6) | byte(r.IntN(2)<<4)
			b[i+2] = byte(r.IntN(3))
			b[i+3] = pick[byte](r, 0x10, 0x10, 0x30, 0x20) | byte(i/188&15)
			if flip(r) {
				b[i+4] = byte(r.IntN(184))
			}
		}
	case 2:
		b = bytes.Repeat([]byte{pick[byte](r, 0x47, 0, 0xFF, 0x46)}, len(b))
	}
	tsTotal(c, b)
}

func c03Mutated(c *Case) {
	r := c.R
	h := genTSHistory(r, tsOpts{writes: 1 + r.IntN(50), size: func(r *randT) int { return 1 + r.IntN(600) }})
	b := makeTSStream(c, h).b
	for range r.IntN(4) {
		b = tsPerturb(r, b)
	}
	for range pick(r, 0, 1, 3, 20) {
		if len(b) == 0 {
			break
		}
		i := r.IntN(len(b))
		if flip(r) { // the most sensitive bytes
			i = min(len(b)-1, i/188*188+r.IntN(30))
		}
		if r.IntN(3) == 0 {
			i = min(len(b)-1, r.IntN(600))
		}
		b[i] = pick(r, b[i]^1<<r.IntN(8), byte(r.Uint32()), 0, 0xFF)
	}
	tsTotal(c, b)
}

// c03Crafted: tables and PES packets with arbitrary content.
func c03Crafted(c *Case) {
	r := c.R
	m := newTSMux(r)
	desc := func() []byte {
		var d []byte
		for range r.IntN(4) {
			tag := pick(r, 0x05, 0x0A, 0x26, 0x27, 0x59, 0x6A, 0x7A, 0x7F, 0x40, 0x4D, 0x48, 0x56, 0x28, r.IntN(256))
			b := randBytes(r, r.IntN(24))
			if tag == 0x05 && flip(r) {
				b = append([]byte(pick(r, "Opus", "KLVA", "AC-3", "HEVC")), b...)
				if flip(r) {
					b = b[:4]
				}
			}
			if tag == 0x7F && flip(r) {
				b = append([]byte{0x80}, b...)
				if len(b) > 1 && flip(r) {
					b[1] = pick[byte](r, 0x81, 0, 1, 8, 0xFF, 0x88)
				}
			}
			if tag == 0x26 && flip(r) {
				b = append([]byte{1, 0, 0xFF, 'K', 'L', 'V', 'A', 0, byte(r.Uint32())}, b...)
			}
			if tag == 0x7F && len(b) == 0 {
				b = []byte{0x80}
			}
			d = append(append(d, byte(tag), byte(len(b))), b...)
		}
		if r.IntN(10) == 0 && len(d) > 1 {
			d = d[:len(d)-1]
		}
		return d
	}
	var pids []int
	var es []tsES
	for range 1 + r.IntN(5) {
		pid := pick(r, 256, 257, 258, 0, 0x1000, 0x1FFF, 0x11, r.IntN(8192))
		pids = append(pids, pid)
		es = append(es, tsES{typ: pick(r, 0x1B, 0x24, 0x10, 2, 1, 0x06, 0x0F, 0x11, 3, 0x81, 0x87, 0x15, r.IntN(256)), pid: pid, desc: desc()})
	}
	pmtPID := pick(r, 0x1000, 256, 0x20, 0x11, 0x1FFF, 1)
	tables := func() {
		body := pmtBody(pick(r, 256, 0x1FFF, 0), desc(), es)
		s := psiSection(2, 1, r.IntN(32), body[:min(len(body), 1000)])
		p := psiSection(0, 1, r.IntN(32), patBody([][2]int{{r.IntN(4), pmtPID}, {r.IntN(3), pick(r, 0x1000, 256, r.IntN(8192))}}))
		if r.IntN(4) == 0 && len(s) > 12 { // with a valid checksum
			s = psiSection(pick(r, 2, 2, 0, 0x42, 0x40, 0x4E, 0x73, 0x70), 1, 0, randBytes(r, r.IntN(200)))
		}
		if r.IntN(8) == 0 {
			s[r.IntN(len(s))] ^= 1 << r.IntN(8)
		}
		if r.IntN(8) == 0 {
			p[r.IntN(len(p))] ^= 1 << r.IntN(8)
		}
		m.psi(0, pick(r, 0, 0, 1, r.IntN(200)), p)
		if r.IntN(8) == 0 {
			m.psi(pmtPID, 0, s, s, s)
		} else {
			m.psi(pmtPID, pick(r, 0, 0, 1, r.IntN(200)), s)
		}
	}
	tables()
	for range r.IntN(40) {
		pid := pids[r.IntN(len(pids))]
		k := tsKinds[r.IntN(len(tsKinds))]
		t := genTSTrack(r, k)
		data := tsFramed(t, t.gen(r, 1+r.IntN(500)))
		switch r.IntN(6) {
		case 0:
			data = mutate(r, data)
		case 1:
			data = data[:r.IntN(len(data)+1)]
		case 2:
			data = randBytes(r, r.IntN(300))
		}
		o := pesOpts{pts: r.Int64N(1<<33+1) - 1, dts: -1, sid: pick(r, 0xE0, 0xC0, 0xBD, 0xFC, 0xBE, 0xBF, r.IntN(256)), bounded: flip(r), extra: flip(r)}
		if r.IntN(3) == 0 {
			o.dts = o.pts
		}
		b := m.pesBytes(o, data)
		if r.IntN(4) == 0 {
			b[r.IntN(min(len(b), 20))] = byte(r.Uint32())
		}
		if r.IntN(10) == 0 {
			b = b[:r.IntN(len(b)+1)]
		}
		for k := 0; len(b) > 0; k++ {
			n := min(184, len(b))
			if r.IntN(6) == 0 {
				n = 1 + r.IntN(n)
			}
			m.packet(pid, k == 0 || r.IntN(50) == 0, nil, b[:n])
			b = b[n:]
		}
		if r.IntN(10) == 0 {
			tables()
		}
		if r.IntN(20) == 0 {
			m.packet(pid, flip(r), append([]byte{byte(20)}, randBytes(r, 20)...), randBytes(r, 100))
		}
	}
	tsTotal(c, m.out)
}

// c03Short: well-formed tables, and units of a few bytes.
func c03Short(c *Case) {
	r := c.R
	m := newTSMux(r)
	var tracks []*tsTrack
	var es []tsES
	for i := range 1 + r.IntN(3) {
		k := tsKinds[r.IntN(len(tsKinds))]
		if flip(r) {
			k = pick(r, "ac3", "eac3", "aac", "latm", "klv-sync", "opus")
		}
		t := genTSTrack(r, k)
		e := descriptorsOf(c, t)
		e.pid = 256 + i
		tracks, es = append(tracks, t), append(es, e)
	}
	m.psi(0, 0, psiSection(0, 1, 0, patBody([][2]int{{1, 0x1000}})))
	m.psi(0x1000, 0, psiSection(2, 1, 0, pmtBody(256, nil, es)))
	pts := r.Int64N(1 << 32)
	for n := range 3 + r.IntN(30) {
		i := r.IntN(len(tracks))
		if n < len(tracks) {
			i = n
		}
		t := tracks[i]
		good := tsFramed(t, t.gen(r, 1+r.IntN(200)))
		data := good[:min(len(good), r.IntN(24))]
		switch r.IntN(8) {
		case 0:
			data = good
		case 1, 2:
			if len(data) > 0 {
				data = clone(data)
				data[r.IntN(min(len(data), 6))] = pick(r, 0, 0xFF, byte(r.Uint32()))
			}
		case 3:
			data = randBytes(r, r.IntN(10))
		}
		pts += 1 + r.Int64N(5000)
		o := pesOpts{pts: pts, dts: -1, sid: 0xC0, bounded: r.IntN(4) != 0, extra: flip(r)}
		if tsIsVideo[t.kind] {
			o.sid = 0xE0
		}
		m.pes(256+i, o, data, nil)
		c.Count("short:"+t.kind, 1)
	}
	tsTotal(c, m.out)
}

// c03Large: long streams without what a reader looks for.
func c03Large(c *Case) {
	r := c.R
	m := newTSMux(r)
	n := 6000 + r.IntN(3000)
	switch c.Idx % 4 {
	case 0: // no tables
		for range n {
			m.packet(256, true, nil, randBytes(r, 184))
		}
	case 1: // tables, and an AAC stream without data
		m.psi(0, 0, psiSection(0, 1, 0, patBody([][2]int{{1, 0x1000}})))
		m.psi(0x1000, 0, psiSection(2, 1, 0, pmtBody(256, nil, []tsES{{typ: 0x0F, pid: 256}})))
		for range n {
			m.packet(257, true, nil, randBytes(r, 184))
		}
	case 2: // no sync bytes
		m.out = tsNoSync(r, n*188)
	case 3: // every PID
		m.psi(0, 0, psiSection(0, 1, 0, patBody([][2]int{{1, 0x1000}})))
		m.psi(0x1000, 0, psiSection(2, 1, 0, pmtBody(256, nil, []tsES{{typ: 0x1B, pid: 256}})))
		for i := range 8191 {
			if i != 0x1000 && i > 32 {
				m.packet(i, true, nil, append([]byte{0, 0, 1, 0xE0, 0, 0, 0x80, 0x80, 5, 0x21, 0, 1, 0, 1}, randBytes(r, 170)...))
			}
		}
	}
	tsTotal(c, m.out)
}

func init() {
	req := []string{"refused", "opened", "units", "decode_errors", "delivered", "unsupported_tracks"}
	for _, k := range tsKinds {
		req = append(req, "unit:"+k)
	}
	for _, k := range []string{"h264", "h265", "opus", "aac", "latm", "mp3", "ac3", "eac3", "klv-sync"} {
		req = append(req, "bad:"+k)
	}
	register(&Property{
		ID: "C03",
		Rule: "random, mutated and crafted streams are read to the end, and three times beyond it, with monitors on panics, number of calls, calls to the source after its end and final error; " +
			"streams of an independent multiplexer, in which some units are invalid, have to be delivered without the invalid units, each of which has to be reported once",
		Assumptions: []string{
			"the number of calls is limited to 32 per packet plus the number of PIDs",
			"the time needed by a stream is not judged, apart from a limit of 60 seconds per case: the dependency copies a unit once for each of its packets",
		},
		Require: req,
		Families: []Family{
			{Name: "random", Quick: 6000, Thorough: 300000, Run: c03Random},
			{Name: "mutated", Quick: 12000, Thorough: 600000, Run: c03Mutated},
			{Name: "crafted", Quick: 12000, Thorough: 600000, Run: c03Crafted},
			{Name: "foreign", Quick: 12000, Thorough: 400000, Run: c03Foreign},
			{Name: "short", Quick: 10000, Thorough: 400000, Run: c03Short},
			{Name: "large", Quick: 8, Thorough: 100, Run: c03Large},
		},
	})
}
