package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/asticode/go-astits"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
)

// C05, C06, C07: MPEG-TS writer and reader, without faults.

// checkTSDelivery compares what a reader delivered with what was written.
func checkTSDelivery(c *Case, h *tsHistory, o *tsRead) {
	c.NoErr(o.initErr, "Reader.Initialize")
	c.Check(errors.Is(o.err, io.EOF), "the reader ended with error %v", o.err)
	for _, err := range o.errs {
		c.Failf("decode error on a stream made by the writer: %v", err)
	}
	c.Check(len(o.tracks) == len(h.tracks), "%d tracks, want %d", len(o.tracks), len(h.tracks))
	got := make([][]*tsWrite, len(h.tracks))
	for _, u := range o.units {
		got[u.trk] = append(got[u.trk], u)
	}
	for i, t := range h.tracks {
		want := h.expected(i)
		if o.skip[i] {
			want = nil
		}
		for j := range min(len(want), len(got[i])) {
			if !sameUnit(want[j], got[i][j]) {
				c.Failf("track %d (%s) unit %d: got %v, want %v", i, t.kind, j, got[i][j], want[j])
			}
			n := 0
			for _, u := range want[j].units {
				n += len(u)
			}
			c.Count("delivered:"+t.kind, 1)
			c.Max("unit_bytes", int64(n))
			c.Eval(1)
		}
		c.Check(len(got[i]) == len(want), "track %d (%s): %d units were delivered, %d were written", i, t.kind, len(got[i]), len(want))
	}
}

func c05Run(c *Case, o tsOpts) {
	r := c.R
	h := genTSHistory(r, o)
	var buf bytes.Buffer
	h.run(c, &buf)
	c.Input("stream", buf.Bytes())
	o2 := &tsRead{}
	if r.IntN(6) == 0 { // not every track is of interest
		o2.skip = map[int]bool{}
		for i := range h.tracks {
			if flip(r) {
				o2.skip[i] = true
				c.Count("without_callback", 1)
			}
		}
	}
	o2.read(c, bytes.NewReader(buf.Bytes()), len(buf.Bytes())/188+10)
	checkTSDelivery(c, h, o2)
	for _, e := range h.writes {
		c.Distinct(h.tracks[e.trk].kind, e.units)
	}
	c.Count("bytes", buf.Len())
	c.Sample("%d tracks, %d writes, %d bytes", len(h.tracks), len(h.writes), buf.Len())
}

func c05Histories(c *Case) { c05Run(c, tsOpts{big: 200000}) }

// c05Sizes goes through every payload size of a kind.
func c05Sizes(c *Case) {
	r := c.R
	kind := tsKinds[c.Idx%len(tsKinds)]
	at := c.Idx / len(tsKinds) * 20
	n := 0
	c05Run(c, tsOpts{kinds: []string{kind}, tracks: 1 + c.Idx%2, writes: 24, size: func(_ *randT) int {
		n++
		return at + n
	}})
	_ = r
}

func c05Large(c *Case) {
	r := c.R
	kind := tsKinds[c.Idx%len(tsKinds)]
	c05Run(c, tsOpts{kinds: []string{kind, tsKinds[r.IntN(len(tsKinds))]}, tracks: 2, writes: 6, size: func(r *randT) int {
		return pick(r, 100, 65536-20+r.IntN(40), 65535*2-10+r.IntN(30), 1+r.IntN(400000), 300000)
	}})
}

// c05Unbounded: a unit that exceeds 65535 bytes, followed by one that fits in a packet.
func c05Unbounded(c *Case) {
	r := c.R
	kind := []string{"opus", "aac", "latm", "klv-sync", "dvb"}[c.Idx%5]
	h := &tsHistory{tracks: []*tsTrack{genTSTrack(r, kind)}}
	for i, s := range []int{1 + r.IntN(100), 1 + r.IntN(100), 66000 + r.IntN(60000), 1 + r.IntN(100), 1 + r.IntN(100)} {
		pts := int64(90000 * (1 + i))
		h.writes = append(h.writes, &tsWrite{pts: pts, dts: pts, units: h.tracks[0].gen(r, s)})
		for i := 2; i < len(h.writes[len(h.writes)-1].units) && s < 200; i++ {
			h.writes[len(h.writes)-1].units = h.writes[len(h.writes)-1].units[:2]
		}
	}
	var buf bytes.Buffer
	h.run(c, &buf)
	c.Input("stream", buf.Bytes())
	o := readTS(c, bytes.NewReader(buf.Bytes()), 0)
	c.Eval(1)
	c.NoErr(o.initErr, "Reader.Initialize")
	if len(o.units) == 4 && sameUnit(o.units[0], h.expected(0)[0]) && sameUnit(o.units[1], h.expected(0)[1]) && sameUnit(o.units[2], h.expected(0)[3]) &&
		sameUnit(o.units[3], h.expected(0)[4]) && len(tsFramed(h.tracks[0], h.writes[3].units)) < 160 && len(o.errs) == 0 {
		c.FailKeyf("pes-over-65535-before-single-packet-unit", "%s unit of %d bytes, followed by one that fits in a packet, is not delivered", kind, len(tsFramed(h.tracks[0], h.writes[2].units)))
	}
	checkTSDelivery(c, h, o)
}

// c05Cells: synchronous metadata that needs many cells.
func c05Cells(c *Case) {
	r := c.R
	n := pick(r, 1, 2, 15, 16, 17, 18) // the demultiplexer takes a quadratic time
	if c.Idx%4 == 0 {
		n = pick(r, 17, 32, 33)
	}
	size := 65535*n - pick(r, 0, 0, 1, 65534, r.IntN(65535))
	h := &tsHistory{tracks: []*tsTrack{genTSTrack(r, "klv-sync"), genTSTrack(r, pick(r, "h264", "aac"))}}
	for i, s := range []int{100, 5000, size, 1000 + r.IntN(3000), 70000} {
		pts := int64(90000 * (1 + i))
		u := randBytes(r, s)
		h.writes = append(h.writes, &tsWrite{pts: pts, dts: pts, units: [][]byte{u}},
			&tsWrite{trk: 1, pts: pts, dts: pts, units: h.tracks[1].gen(r, 1000)})
	}
	for _, t := range h.tracks {
		t.track.PID = 0
	}
	var buf bytes.Buffer
	h.run(c, &buf)
	o := readTS(c, bytes.NewReader(buf.Bytes()), 0)
	c.Eval(1)
	c.NoErr(o.initErr, "Reader.Initialize")
	checkTSDelivery(c, h, o)
	c.Max("cells", int64(n))
	c.Count("cell_histories", 1)
}

// c05Long: long sequences, in which counters wrap.
func c05Long(c *Case) {
	c05Run(c, tsOpts{writes: 600 + c.R.IntN(600), size: func(r *randT) int { return 1 + r.IntN(600) }})
}

func sameTSCodec(t *tsTrack, got codecs.Codec) error {
	want := t.track.Codec
	if o, ok := want.(*codecs.Opus); ok {
		desc := o.Desc
		if desc == nil {
			desc = &substructs.OpusAudioDescriptor{ChannelConfigCode: uint8(o.ChannelCount)} //nolint:staticcheck
		}
		g, ok := got.(*codecs.Opus)
		if !ok || g.Desc == nil {
			return fmt.Errorf("codec %T, want Opus", got)
		}
		if !deepEq(*g.Desc, *desc) {
			return fmt.Errorf("descriptor %+v, want %+v", g.Desc, desc)
		}
		n := int(desc.ChannelConfigCode)
		switch {
		case n == 0x81:
			n = desc.ExplicitChannelCount
		case n == 0 || n == 0x80:
			n = 2
		case n > 0x81:
			n -= 0x81
		}
		if g.ChannelCount != n || g.Desc.ChannelCount() != n { //nolint:staticcheck
			return fmt.Errorf("channel count %d and %d, want %d", g.ChannelCount, g.Desc.ChannelCount(), n) //nolint:staticcheck
		}
		return nil
	}
	if reflect.TypeOf(want) != reflect.TypeOf(got) {
		return fmt.Errorf("codec %T, want %T", got, want)
	}
	if a, ok := t.conf.(mpeg4audio.Config); ok {
		want = &codecs.MPEG4Audio{Config: a}
	}
	if !deepEq(got, want) {
		return fmt.Errorf("codec %+v, want %+v", got, want)
	}
	return nil
}

func c06Tracks(c *Case) {
	r := c.R
	n := pick(r, 1, 2, 3, 4, 6, 1+r.IntN(12))
	h := &tsHistory{}
	used := map[uint16]bool{}
	for i := range n {
		t := genTSTrack(r, tsKinds[(c.Idx+i*r.IntN(13))%len(tsKinds)])
		if r.IntN(3) == 0 {
			for {
				pid := pick(r, uint16(256+r.IntN(16)), uint16(32+r.IntN(8158)), 32, 0x1FFE, 255, 0x0FFF, 0x1001)
				if pid != 0x1000 && !used[pid] {
					used[pid] = true
					t.track.PID = pid
					break
				}
			}
		}
		if r.IntN(3) == 0 {
			t.track.Language = pick(r, "eng", "ita", "qaa", "und", "mul", "mis", "zxx", "   ", "ENG", "\xE9\xE8\xFF", "\x01\x02\x03", string([]byte{byte('a' + r.IntN(26)), byte('a' + r.IntN(26)), byte('a' + r.IntN(26))}))
		}
		if d, ok := t.track.Codec.(*codecs.DVBSubtitle); ok && r.IntN(3) == 0 { // up to more than the table can hold
			d.Items = nil
			for k := range pick(r, 8+r.IntN(12), 20, 21, 22, 1+r.IntN(70), 32, 33, 64) {
				d.Items = append(d.Items, &astits.DescriptorSubtitlingItem{Language: []byte("eng"), Type: uint8(k), CompositionPageID: uint16(k), AncillaryPageID: uint16(r.Uint32())})
			}
			c.Count("many_subtitles", 1)
		}
		h.tracks = append(h.tracks, t)
	}
	explicit := make([]uint16, n)
	for i, t := range h.tracks {
		explicit[i] = t.track.PID
	}
	w := &mpegts.Writer{}
	var buf bytes.Buffer
	w.W = &buf
	for _, t := range h.tracks {
		w.Tracks = append(w.Tracks, t.track)
	}
	var err error
	c.Protect("Writer.Initialize", func() { err = w.Initialize() })
	if err != nil {
		c.Failf("valid tracks are refused (PIDs %v): %v", explicit, err)
	}
	seen := map[uint16]bool{}
	for i, t := range h.tracks {
		pid := t.track.PID
		c.Check(explicit[i] == 0 || pid == explicit[i], "PID %d changed into %d", explicit[i], pid)
		c.Check(pid >= 32 && pid < 0x1FFF && pid != 0x1000, "PID %d is not usable", pid)
		c.Check(!seen[pid], "PID %d is used twice", pid)
		seen[pid] = true
		if explicit[i] == 0 {
			c.Count("automatic_pid", 1)
		} else {
			c.Count("explicit_pid", 1)
		}
	}
	// the table has to fit in a packet; when it does not, there has to be an error.
	if flip(r) {
		_, err = w.WriteTables()
	}
	order := r.Perm(n)
	rounds := 1 + r.IntN(2)
	pts := int64(90000)
	for range rounds {
		for _, i := range order {
			if err != nil {
				break
			}
			t := h.tracks[i]
			e := &tsWrite{trk: i, pts: pts, dts: pts, units: t.gen(r, 1+r.IntN(400))}
			pts += 3000
			c.Protect("Write "+t.kind, func() { err = t.write(w, e) })
			h.writes = append(h.writes, e)
		}
	}
	if err != nil {
		// the only reason for which this is acceptable
		size := c06PMTSize(h)
		c.Check(size > 183, "write failed: %v (table of %d bytes)", err, size)
		c.Count("table_too_large", 1)
		return
	}
	c.Input("stream", buf.Bytes())
	o := readTS(c, bytes.NewReader(buf.Bytes()), buf.Len()/188+10)
	c.NoErr(o.initErr, "Reader.Initialize")
	c.Check(len(o.tracks) == n, "%d tracks, want %d", len(o.tracks), n)
	for i, t := range h.tracks {
		g := o.tracks[i]
		c.Check(g.PID == t.track.PID, "track %d: PID %d, want %d", i, g.PID, t.track.PID)
		c.Check(g.Language == t.track.Language, "track %d: language %q, want %q", i, g.Language, t.track.Language)
		if err := sameTSCodec(t, g.Codec); err != nil {
			c.Failf("track %d (%s): %v", i, t.kind, err)
		}
		c.Check(g.Codec.IsVideo() == tsIsVideo[t.kind] && t.track.Codec.IsVideo() == tsIsVideo[t.kind],
			"track %d (%s): IsVideo() is %v, want %v", i, t.kind, g.Codec.IsVideo(), tsIsVideo[t.kind])
		c.Count("track:"+t.kind, 1)
		c.Distinct(t.kind, fmt.Sprintf("%+v", t.conf), t.track.Language, explicit[i])
	}
	checkTSDelivery(c, h, o)
	c.Count("track_lists", 1)
	c.Sample("%d tracks, PIDs %v", n, explicit)
}

// c06PMTSize is the size of the program map table section.
func c06PMTSize(h *tsHistory) int {
	n := 3 + 5 + 4 + 4
	for _, t := range h.tracks {
		n += 5
		switch t.kind {
		case "opus":
			o := t.track.Codec.(*codecs.Opus)
			n += 6 + 3
			if o.Desc != nil {
				b, _ := o.Desc.Marshal()
				n += len(b)
			} else {
				n++
			}
		case "ac3", "eac3":
			n += 5
		case "klv-sync":
			n += 2 + 9 + 2 + 9
		case "klv-async":
			n += 6
		case "dvb":
			n += 2 + 8*len(t.track.Codec.(*codecs.DVBSubtitle).Items)
		}
		if t.track.Language != "" {
			n += 6
		}
	}
	return n
}

var tsStreamTypes = map[string]int{
	"h264": 0x1B, "h265": 0x24, "mpeg4video": 0x10, "mpeg1video": 0x02, "opus": 0x06, "aac": 0x0F, "latm": 0x11, "mp3": 0x03, "ac3": 0x81, "eac3": 0x87,
	"klv-sync": 0x15, "klv-async": 0x06, "dvb": 0x06,
}

// tsIsRandomAccess tells whether a unit can be decoded without the previous ones.
func tsIsRandomAccess(kind string, units [][]byte) bool {
	switch kind {
	case "h264":
		for _, u := range units {
			if u[0]&31 == 5 {
				return true
			}
		}
		return false
	case "h265":
		for _, u := range units {
			if t := u[0] >> 1 & 63; t == 19 || t == 20 || t == 21 {
				return true
			}
		}
		return false
	case "mpeg4video":
		return bytes.Contains(units[0], []byte{0, 0, 1, 0xB3})
	case "mpeg1video":
		return bytes.Contains(units[0], []byte{0, 0, 1, 0xB8})
	}
	return true
}

// checkTSOutput verifies the bytes produced by each call.
func checkTSOutput(c *Case, h *tsHistory, parts [][]byte) {
	var all []byte
	start := make([]int, len(parts))
	for i, p := range parts {
		c.Check(len(p)%188 == 0, "write %d (%s) produced %d bytes", i, h.tracks[h.writes[i].trk].kind, len(p))
		start[i] = len(all) / 188
		all = append(all, p...)
	}
	c.Input("stream", all)
	pkts, err := parseTSPackets(all)
	c.NoErr(err, "output of the writer")
	lastCC := map[int]int{}
	byPID := map[int]*tsTrack{}
	idxOf := map[int]int{}
	for i, t := range h.tracks {
		byPID[int(t.track.PID)] = t
		idxOf[int(t.track.PID)] = i
	}
	var pmt *tsPMT
	var pmtPrev *tsPMT
	hasPAT := false
	leading := -1
	sincePCR := 0
	sinceTables := 0
	unit := -1
	for i := range parts {
		e := h.writes[i]
		t := h.tracks[e.trk]
		end := len(pkts)
		if i+1 < len(parts) {
			end = start[i+1]
		}
		var media []*tsPacket
		for _, p := range pkts[start[i]:end] {
			if p.hasPay {
				if prev, ok := lastCC[p.pid]; ok {
					c.Check(p.cc == (prev+1)&15, "packet %d: continuity counter of PID %d is %d after %d", p.idx, p.pid, p.cc, prev)
				}
				lastCC[p.pid] = p.cc
			} else {
				c.Check(lastCC[p.pid] == p.cc, "packet %d without payload: continuity counter of PID %d changed", p.idx, p.pid)
			}
			switch {
			case p.pid == 0:
				c.Check(p.pusi, "packet %d: PAT without start indicator", p.idx)
				id, _, _, body, err := parseSection(p.payload)
				c.NoErr(err, "PAT")
				c.Check(id == 0, "PAT has table id %d", id)
				c.Check(len(body) == 4 && int(body[2]&0x1F)<<8|int(body[3]) == 0x1000 && (body[0] != 0 || body[1] != 0), "PAT lists % x", body)
				hasPAT = true
				sinceTables = 0
				c.Count("pat", 1)
			case p.pid == 0x1000:
				c.Check(p.pusi, "packet %d: PMT without start indicator", p.idx)
				id, _, ver, body, err := parseSection(p.payload)
				c.NoErr(err, "PMT")
				c.Check(id == 2, "PMT has table id %d", id)
				pmtPrev = pmt
				pmt, err = parsePMTBody(body)
				c.NoErr(err, "PMT")
				pmt.ver = ver
				if pmtPrev != nil {
					c.Check(bytes.Equal(pmtPrev.raw, pmt.raw) || pmtPrev.ver != pmt.ver, "PMT changed and kept version %d", ver)
				}
				c.Check(len(pmt.es) == len(h.tracks), "PMT has %d streams, want %d", len(pmt.es), len(h.tracks))
				for k, es := range pmt.es {
					tr := h.tracks[k]
					want := tsStreamTypes[tr.kind]
					c.Check(es.pid == int(tr.track.PID) && es.typ == want, "PMT stream %d is type %#x on PID %d, want %#x on PID %d", k, es.typ, es.pid, want, tr.track.PID)
					checkESDescriptors(c, tr, es.desc)
				}
				c.Count("pmt", 1)
			default:
				c.Check(byPID[p.pid] != nil, "packet %d: PID %d is not a track", p.idx, p.pid)
				c.Check(hasPAT && pmt != nil, "packet %d: media precedes tables", p.idx)
				if leading < 0 {
					leading = p.pid
					c.Check(p.pid == pmt.pcrPID || len(h.tables) > 0, "PCR PID is %d, the first unit has PID %d", pmt.pcrPID, p.pid)
				}
				media = append(media, p)
			}
		}
		unit++
		c.Check(len(media) > 0, "write %d (%s) produced no media", i, t.kind)
		c.Check(sinceTables < 40, "no tables for %d units", sinceTables)
		sinceTables++
		for k, p := range media {
			c.Check(p.pid == int(t.track.PID), "packet %d has PID %d, want %d", p.idx, p.pid, t.track.PID)
			c.Check(p.pusi == (k == 0), "packet %d: start indicator %v at position %d of the unit", p.idx, p.pusi, k)
			c.Check(k == 0 || p.pcr < 0, "packet %d: clock reference inside of a unit", p.idx)
			c.Check(k == 0 || !p.rai, "packet %d: random access flag inside of a unit", p.idx)
			c.Check(k == len(media)-1 || k == 0 || len(p.payload) == 184, "packet %d: %d bytes of payload inside of a unit", p.idx, len(p.payload))
		}
		s, err := parsePES(media[0].pid, media)
		c.NoErr(err, fmt.Sprintf("unit %d (%s)", i, t.kind))
		wantSID := 0xC0
		switch t.kind {
		case "h264", "h265", "mpeg4video", "mpeg1video":
			wantSID = 0xE0
		case "klv-sync":
			wantSID = 0xFC
		case "klv-async", "dvb":
			wantSID = 0xBD
		}
		c.Check(s.streamID == wantSID, "unit %d (%s): stream id %#x, want %#x", i, t.kind, s.streamID, wantSID)
		if wantSID != 0xE0 {
			over := len(s.data) > 65535-13
			c.Check(s.length != 0 || over, "unit %d (%s) of %d bytes: PES length is not declared", i, t.kind, len(s.data))
		}
		pts, dts := e.pts&mask33, e.dts&mask33
		switch t.kind {
		case "klv-async":
			c.Check(s.pts == -1 && s.dts == -1, "unit %d (%s) has timestamps", i, t.kind)
		case "h264", "h265":
			c.Check(s.pts == pts, "unit %d (%s): PTS %d, want %d", i, t.kind, s.pts, pts)
			c.Check(s.dts == dts || s.dts == -1 && pts == dts, "unit %d (%s): DTS %d, want %d", i, t.kind, s.dts, dts)
		default:
			c.Check(s.pts == pts, "unit %d (%s): PTS %d, want %d", i, t.kind, s.pts, pts)
			c.Check(s.dts == -1 || s.dts == pts, "unit %d (%s): DTS %d, want %d", i, t.kind, s.dts, pts)
			dts = pts
		}
		ra := tsIsRandomAccess(t.kind, e.units)
		c.Check(media[0].rai == ra, "unit %d (%s): random access flag is %v, want %v", i, t.kind, media[0].rai, ra)
		if ra && tsIsVideo[t.kind] {
			c.Count("random_access_video", 1)
		}
		if !ra {
			c.Count("not_random_access", 1)
		}
		// the payload, deframed
		want := tsFramed(t, e.units)
		c.Check(bytes.Equal(s.data, want), "unit %d (%s): payload %s, want %s", i, t.kind, hexShort(s.data), hexShort(want))
		pcr := media[0].pcr
		if int(t.track.PID) != leading {
			c.Check(pcr < 0, "unit %d: clock reference outside of the PCR PID", i)
		} else {
			c.Check(pmt.pcrPID == leading, "unit %d: PCR PID is %d, clock references are on PID %d", i, pmt.pcrPID, leading)
			if pcr < 0 {
				sincePCR++
				c.Check(sincePCR < 3, "unit %d: no clock reference for %d units", i, sincePCR)
				c.Check(!ra || !tsIsVideo[t.kind], "unit %d: random access unit without clock reference", i)
			} else {
				sincePCR = 0
				d := (dts - pcr) & mask33
				c.Check(d <= 90000, "unit %d (%s): clock reference %d, DTS %d", i, t.kind, pcr, dts)
				c.Check(media[0].pcrExt < 300, "clock reference extension %d", media[0].pcrExt)
				c.Count("pcr", 1)
			}
		}
		c.Count("pes", 1)
		c.Count("packets", len(media))
		c.Eval(1)
	}
	c.Distinct(all)
}

// tsFramed is the content of the PES packet of a write, built independently.
func tsFramed(t *tsTrack, units [][]byte) []byte {
	var out []byte
	switch t.kind {
	case "h264", "h265":
		if t.kind == "h264" && units[0][0] != 9 {
			units = append([][]byte{{9, 0xF0}}, units...)
		}
		if t.kind == "h265" && units[0][0] != 70 {
			units = append([][]byte{{70, 1, 0x50}}, units...)
		}
		for _, u := range units {
			out = append(append(out, 0, 0, 0, 1), u...)
		}
	case "opus":
		for _, u := range units {
			out = append(out, 0x7F, 0xE0)
			n := len(u)
			for ; n >= 255; n -= 255 {
				out = append(out, 255)
			}
			out = append(append(out, byte(n)), u...)
		}
	case "aac":
		cf := t.conf.(mpeg4audio.Config)
		ri := 0
		for i, v := range sampleRateTable {
			if v == cf.SampleRate {
				ri = i
			}
		}
		for _, u := range units {
			w := &bitWriter{}
			w.u(12, 0xFFF)
			w.u(1, 0)
			w.u(2, 0)
			w.u(1, 1)
			w.u(2, uint64(cf.Type-1))
			w.u(4, uint64(ri))
			w.u(1, 0)
			w.u(3, uint64(cf.ChannelConfig))
			w.u(4, 0)
			w.u(13, uint64(len(u)+7))
			w.u(11, 0x7FF)
			w.u(2, 0)
			out = append(append(out, w.out()...), u...)
		}
	case "latm":
		for _, u := range units {
			w := &bitWriter{}
			w.u(11, 0x2B7)
			w.u(13, uint64(len(u)))
			out = append(append(out, w.out()...), u...)
		}
	case "klv-sync":
		b := units[0]
		n := (len(b) + 65534) / 65535
		for i := range n {
			k := min(len(b), 65535)
			frag := 0
			if i == 0 {
				frag |= 2
			}
			if i == n-1 {
				frag |= 1
			}
			out = append(out, 0, byte(i), byte(frag<<6)|0x1F, byte(k>>8), byte(k))
			out = append(out, b[:k]...)
			b = b[k:]
		}
	default:
		for _, u := range units {
			out = append(out, u...)
		}
	}
	return out
}

// checkESDescriptors verifies the descriptors of an elementary stream.
func checkESDescriptors(c *Case, t *tsTrack, b []byte) {
	d := map[byte][]byte{}
	for i := 0; i < len(b); i += 2 + int(b[i+1]) {
		d[b[i]] = b[i+2 : i+2+int(b[i+1])]
	}
	switch t.kind {
	case "opus":
		c.Check(string(d[0x05]) == "Opus", "registration descriptor is %q", d[0x05])
		c.Check(len(d[0x7F]) >= 2 && d[0x7F][0] == 0x80, "extension descriptor is % x", d[0x7F])
	case "klv-async":
		c.Check(string(d[0x05]) == "KLVA", "registration descriptor is %q", d[0x05])
	case "klv-sync":
		c.Check(bytes.Contains(d[0x26], []byte("KLVA")), "metadata descriptor is % x", d[0x26])
		c.Check(len(d[0x27]) == 9, "metadata STD descriptor is % x", d[0x27])
	case "ac3":
		checkAC3Descriptor(c, t, d[0x6A], t.track.Codec.(*codecs.AC3).ChannelCount, 0, 8)
	case "eac3":
		checkAC3Descriptor(c, t, d[0x7A], t.track.Codec.(*codecs.EAC3).ChannelCount, 0x80, 16)
	case "dvb":
		c.Check(len(d[0x59]) == 8*len(t.track.Codec.(*codecs.DVBSubtitle).Items), "subtitling descriptor is % x", d[0x59])
	}
	if t.track.Language != "" {
		c.Check(bytes.Equal(d[0x0A], []byte(t.track.Language+"\x00")), "language descriptor is % x", d[0x0A])
	}
}

func c07Run(c *Case, o tsOpts, explicitTables bool, reuse bool) {
	r := c.R
	h := genTSHistory(r, o)
	if !explicitTables {
		h.tables = map[int]bool{}
	} else {
		h.tables[0] = true
	}
	for i, t := range h.tracks {
		if r.IntN(5) == 0 && (len(h.tracks) <= 14 || i < 3) { // tables have to fit into a packet
			t.track.Language = "eng"
		}
	}
	rounds := 1
	if reuse {
		rounds = 2
	}
	for round := range rounds {
		var buf bytes.Buffer
		w := &mpegts.Writer{W: &buf}
		for _, t := range h.tracks {
			w.Tracks = append(w.Tracks, t.track)
		}
		c.Protect("Writer.Initialize", func() { c.NoErr(w.Initialize(), "Writer.Initialize") })
		if round == 1 { // the same tracks, with another writer and another order
			r.Shuffle(len(h.writes), func(i, j int) { h.writes[i], h.writes[j] = h.writes[j], h.writes[i] })
			c.Count("tracks_reused", 1)
		}
		var parts [][]byte
		pos := 0
		for i, e := range h.writes {
			if h.tables[i] {
				n, err := w.WriteTables()
				c.NoErr(err, "WriteTables")
				c.Check(n == 376, "WriteTables wrote %d bytes", n)
				c.Count("explicit_tables", 1)
			}
			t := h.tracks[e.trk]
			c.Protect("Write "+t.kind, func() { c.NoErr(t.write(w, e), "Write "+t.kind) })
			parts = append(parts, clone(buf.Bytes()[pos:]))
			pos = buf.Len()
		}
		checkTSOutput(c, h, parts)
	}
	c.Sample("%d tracks, %d writes", len(h.tracks), len(h.writes))
}

func c07Histories(c *Case) { c07Run(c, tsOpts{big: 100000}, false, false) }
func c07Tables(c *Case)    { c07Run(c, tsOpts{}, true, false) }
func c07Reuse(c *Case)     { c07Run(c, tsOpts{tracks: 2 + c.R.IntN(2)}, false, true) }
func c07Long(c *Case) {
	c07Run(c, tsOpts{writes: 500 + c.R.IntN(500), size: func(r *randT) int { return 1 + r.IntN(600) }}, c.Idx%4 == 3, false)
}

// c07Cells: metadata that needs up to 256 cells.
func c07Cells(c *Case) {
	c07Run(c, tsOpts{kinds: []string{"klv-sync"}, tracks: 1, writes: 2, size: func(r *randT) int {
		n := pick(r, 2, 16, 17, 127, 128, 129, 255, 256)
		c.Max("cells", int64(n))
		return 65535*n - pick(r, 0, 0, 1, 65534, r.IntN(65535))
	}}, false, false)
}

func c07Sizes(c *Case) {
	kind := tsKinds[c.Idx%len(tsKinds)]
	at := c.Idx / len(tsKinds) * 20
	n := 0
	c07Run(c, tsOpts{kinds: []string{kind}, tracks: 1, writes: 24, size: func(_ *randT) int {
		n++
		return at + n
	}}, false, false)
}

func init() {
	var d5 []string
	var d6 []string
	for _, k := range tsKinds {
		d5 = append(d5, "delivered:"+k)
		d6 = append(d6, "track:"+k)
	}
	register(&Property{
		ID: "C05",
		Rule: "generated write histories of 1-4 tracks of every codec, with sizes from one byte to several hundred kilobytes and timestamps around every wrap, are written and read back; for each track the " +
			"list of delivered units has to equal the list of written units, timestamps modulo 2^33 included",
		Assumptions: []string{
			"the first unit of MPEG-4 audio, AC-3 and E-AC-3 tracks is within the first megabyte",
			"asynchronous KLV carries no timestamp: the one of the preceding timestamped unit is expected; a unit without any preceding timestamp is not delivered",
			"access units respect the documented maxima, the delimiter added by the writer included",
		},
		Require: d5,
		Families: []Family{
			{Name: "histories", Quick: 8000, Thorough: 200000, Run: c05Histories},
			{Name: "sizes", Quick: 13 * 250, Thorough: 13 * 3000, Run: c05Sizes},
			{Name: "large", Quick: 208, Thorough: 8000, Run: c05Large},
			{Name: "unbounded", Quick: 10, Thorough: 200, Run: c05Unbounded},
			{Name: "long", Quick: 240, Thorough: 6000, Run: c05Long},
			{Name: "cells", Quick: 8, Thorough: 160, Run: c05Cells},
		},
	})
	register(&Property{
		ID: "C06",
		Rule: "generated track lists, with every codec and parameters over their whole range, automatic and explicit PIDs, are written together with one or two units per track in any order and read back; " +
			"tracks have to be the same, in the same order",
		Assumptions: []string{
			"PIDs are in the range that the standard leaves to streams and differ from the one of the program map table",
			"track lists whose program map table does not fit in a packet have to be refused with an error",
		},
		Require:  append(d6, "track_lists", "automatic_pid", "explicit_pid", "table_too_large"),
		Families: []Family{{Name: "tracks", Quick: 60000, Thorough: 2000000, Run: c06Tracks}},
	})
	register(&Property{
		ID: "C07",
		Rule: "the bytes produced by each call of the writer are parsed by an independent transport stream parser and compared with what was written: packets, continuity counters, tables and their checksums, " +
			"PES headers, lengths, stream ids and timestamps, payload framing, clock references, random access flags",
		Assumptions: []string{
			"a clock reference is expected at least every third unit of the PCR stream and on its random access video units, up to one second before the decode timestamp",
			"PES packets larger than 65535 bytes have no declared length",
		},
		Require: []string{"pat", "pmt", "pes", "pcr", "random_access_video", "not_random_access", "explicit_tables", "tracks_reused", "ac3_descriptors"},
		Families: []Family{
			{Name: "histories", Quick: 8000, Thorough: 200000, Run: c07Histories},
			{Name: "sizes", Quick: 13 * 250, Thorough: 13 * 3000, Run: c07Sizes},
			{Name: "tables", Quick: 3000, Thorough: 100000, Run: c07Tables},
			{Name: "reuse", Quick: 3000, Thorough: 100000, Run: c07Reuse},
			{Name: "long", Quick: 300, Thorough: 10000, Run: c07Long},
			{Name: "cells", Quick: 16, Thorough: 400, Run: c07Cells},
			{Name: "ac3", Quick: 16, Thorough: 16, Run: c07AC3},
		},
	})
}

// checkAC3Descriptor verifies AC-3 and enhanced AC-3 descriptors (EN 300 468, D.3 and D.5),
// which carry the component type and the version of the bit stream. The value of the component
// type is judged by c07AC3 only.
func checkAC3Descriptor(c *Case, t *tsTrack, d []byte, channels int, base byte, bsid byte) {
	c.Check(len(d) == 3 && d[0]&0xF0 == 0xC0 && d[2] == bsid, "%s descriptor is % x", t.kind, d)
	c.Check(d[1] == ac3ComponentType(base, channels) || d[1] == ac3OwnComponentType(channels),
		"%s component type of %d channels is %#x", t.kind, channels, d[1])
}

// ac3ComponentType follows EN 300 468, table D.1: enhanced flag, full service flag, service
// type (complete main), number of channels.
func ac3ComponentType(base byte, channels int) byte {
	v := base | 0x40
	switch {
	case channels == 1:
	case channels == 2:
		v |= 2
	case channels <= 6:
		v |= 4
	default:
		v |= 5
	}
	return v
}

// ac3OwnComponentType is what the writer is known to write instead (known finding).
func ac3OwnComponentType(channels int) byte {
	switch {
	case channels <= 2:
		return 0x05
	case channels <= 4:
		return 0x0B
	}
	return 0x0D
}

// c07AC3 goes through the channel counts of AC-3 and E-AC-3.
func c07AC3(c *Case) {
	var buf bytes.Buffer
	ch := 1 + c.Idx/2
	t := &mpegts.Track{PID: 256, Codec: &codecs.AC3{SampleRate: 48000, ChannelCount: ch}}
	tag, base, bsid := byte(0x6A), byte(0), byte(8)
	if c.Idx%2 == 1 {
		t.Codec = &codecs.EAC3{SampleRate: 48000, ChannelCount: ch}
		tag, base, bsid = 0x7A, 0x80, 16
	} else if ch > 6 {
		return
	}
	w := &mpegts.Writer{W: &buf, Tracks: []*mpegts.Track{t}}
	c.NoErr(w.Initialize(), "Writer.Initialize")
	_, err := w.WriteTables()
	c.NoErr(err, "WriteTables")
	pkts, err := parseTSPackets(buf.Bytes())
	c.NoErr(err, "packets")
	c.Check(len(pkts) == 2, "%d packets", len(pkts))
	_, _, _, body, err := parseSection(pkts[1].payload)
	c.NoErr(err, "PMT section")
	pmt, err := parsePMTBody(body)
	c.NoErr(err, "PMT")
	c.Check(len(pmt.es) == 1, "%d streams", len(pmt.es))
	var d []byte
	for b := pmt.es[0].desc; len(b) >= 2; b = b[2+int(b[1]):] {
		if b[0] == tag {
			d = b[2 : 2+int(b[1])]
		}
	}
	c.Count("ac3_descriptors", 1)
	c.Distinct("ac3", c.Idx)
	c.Check(len(d) == 3 && d[0]&0xF0 == 0xC0 && d[2] == bsid, "descriptor is % x", d)
	want := ac3ComponentType(base, ch)
	if d[1] != want {
		if d[1] == ac3OwnComponentType(ch) {
			c.FailKeyf("ac3-component-type", "component type of %T with %d channels is %#x, want %#x", t.Codec, ch, d[1], want)
		}
		c.Failf("component type of %T with %d channels is %#x, want %#x", t.Codec, ch, d[1], want)
	}
}
