package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"slices"
	"strings"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// C28: data handed over is never modified behind the other side's back.

// dump describes a value with everything that can be reached from it.
func dump(v any) string {
	var b strings.Builder
	dumpV(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dumpV(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 30 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpV(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := range v.NumField() {
			b.WriteString(v.Type().Field(i).Name + ":")
			dumpV(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%d:%x", v.Len(), v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		fmt.Fprintf(b, "%d[", v.Len())
		for i := range v.Len() {
			dumpV(b, v.Index(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		fmt.Fprintf(b, "map%d", v.Len())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(v.Kind().String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		b.WriteString("?")
	}
}

// guards watches buffers handed over to the library, and what surrounds them.
type guards struct {
	mem, keep [][]byte
	lists     [][][]byte // lists of units, spare capacity included
	heads     [][][]byte
}

// bytes returns a copy of b that is surrounded by other data, within its capacity.
func (g *guards) bytes(b []byte) []byte {
	m := make([]byte, len(b)+48)
	for i := range m {
		m[i] = byte(0x5A + i*13)
	}
	copy(m[16:], b)
	g.mem = append(g.mem, m)
	g.keep = append(g.keep, clone(m))
	return m[16 : 16+len(b)]
}

func (g *guards) units(l [][]byte) [][]byte {
	out := make([][]byte, 0, len(l)+3)
	for _, u := range l {
		out = append(out, g.bytes(u))
	}
	full := out[:len(l)+3]
	for i := range 3 {
		full[len(l)+i] = []byte{0xEE, byte(i)}
	}
	g.lists = append(g.lists, full)
	g.heads = append(g.heads, append([][]byte(nil), full...))
	return out
}

func (g *guards) check(c *Case, what string) {
	for i := range g.mem {
		if !bytes.Equal(g.mem[i], g.keep[i]) {
			n := 0
			for g.mem[i][n] == g.keep[i][n] {
				n++
			}
			c.Failf("%s: byte %d of a buffer of %d bytes owned by the caller has been modified", what, n-16, len(g.mem[i])-48)
		}
	}
	for i, l := range g.lists {
		for k := range l {
			h := g.heads[i][k]
			c.Check(len(l[k]) == len(h) && cap(l[k]) == cap(h) && (len(h) == 0 || &l[k][0] == &h[0]),
				"%s: element %d of a list of %d units owned by the caller has been replaced", what, k, len(l)-3)
		}
	}
	c.Count("buffers_checked", len(g.mem))
}

// held are contents that have been received from the library.
type held struct {
	what string
	get  func() string
	keep string
}

type holder struct{ l []*held }

func (h *holder) add(what string, get func() string) {
	h.l = append(h.l, &held{what, get, get()})
}

func (h *holder) bytes(what string, b []byte) {
	h.add(what, func() string { return string(b) })
}

func (h *holder) check(c *Case, when string) {
	for _, x := range h.l {
		if s := x.get(); s != x.keep {
			c.Failf("%s changed %s: was %.400q, is %.400q", x.what, when, x.keep, s)
		}
	}
	c.Count("contents_rechecked", len(h.l))
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xA5
	}
}

// c28Parsers: an history of parsing, using and writing back with several objects.
func c28Parsers(c *Case) {
	r := c.R
	var g guards
	var h holder
	type obj struct {
		p *totalParser
		v any
	}
	var objs []obj
	outs := map[int][]byte{}
	n := 2 + r.IntN(6)
	for k := range n {
		p := totalParsers[c.Idx%len(totalParsers)]
		if k > 0 && flip(r) {
			p = totalParsers[r.IntN(len(totalParsers))]
		}
		b := p.seed(r)
		if r.IntN(6) == 0 {
			b = bitSplice(r, b)
		}
		c.Distinct(p.name, b)
		in := g.bytes(b)
		var v any
		var err error
		c.Protect(p.name, func() { v, err = p.parse(in) })
		g.check(c, "parsing of "+p.name)
		h.check(c, "after parsing of "+p.name)
		if err != nil {
			continue
		}
		c.Count("parsed", 1)
		objs = append(objs, obj{p, v})
		h.add("result of parsing of "+p.name, func() string { return dump(v) })
		for range 1 + r.IntN(3) {
			i := r.IntN(len(objs))
			o := objs[i]
			if o.p.use != nil && flip(r) {
				c.Protect(o.p.name, func() { o.p.use(o.v) })
				g.check(c, "accessors of "+o.p.name)
				h.check(c, "after accessors of "+o.p.name)
			}
			if o.p.marshal == nil {
				continue
			}
			var out []byte
			c.Protect(o.p.name, func() { out, err = o.p.marshal(o.v) })
			g.check(c, "Marshal of "+o.p.name)
			h.check(c, "after Marshal of "+o.p.name)
			if err != nil {
				continue
			}
			if prev, ok := outs[i]; ok {
				c.Check(bytes.Equal(prev, out), "%s: Marshal gives %s, then %s", o.p.name, hexShort(prev), hexShort(out))
				c.Count("marshalled_again", 1)
			}
			outs[i] = clone(out)
			c.Count("marshalled", 1)
			if flip(r) { // the output is owned by the caller
				scribble(out)
				g.check(c, "writing in the output of Marshal of "+o.p.name)
				h.check(c, "after writing in the output of Marshal of "+o.p.name)
			} else {
				h.bytes("output of Marshal of "+o.p.name, out)
			}
		}
		// the receiver is used again
		if flip(r) {
			if t := reflect.ValueOf(v); t.Kind() == reflect.Struct {
				x := reflect.New(t.Type())
				x.Elem().Set(t)
				if m := x.MethodByName("Marshal"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 2 {
					if u, ok := x.Interface().(interface{ Unmarshal([]byte) error }); ok {
						var ret []reflect.Value
						c.Protect(p.name, func() { ret = m.Call(nil) })
						if b, ok := ret[0].Interface().([]byte); ok && ret[1].IsNil() {
							hh := holder{}
							hh.bytes("output of Marshal of "+p.name, b)
							c.Protect(p.name, func() { u.Unmarshal(g.bytes(p.seed(r))) }) //nolint:errcheck
							hh.check(c, "after Unmarshal in the same object")
							c.Count("receiver_reused", 1)
						}
					}
				}
			}
		}
	}
	c.Sample("%d objects of %s and others", n, totalParsers[c.Idx%len(totalParsers)].name)
}

// c28Units: functions that take units.
func c28Units(c *Case) {
	r := c.R
	var g guards
	var h holder
	for range 2 + r.IntN(4) {
		l := seedUnits(r)
		if r.IntN(3) == 0 {
			l = seedOBUs(r)
		}
		if len(l) == 0 || len(l[0]) == 0 {
			continue
		}
		if c.Idx%50 == 0 { // a large unit, alone or not
			l = append([][]byte(nil), l[:1+r.IntN(len(l))]...)
			if flip(r) {
				l = l[:1]
			}
			k := r.IntN(len(l))
			l[k] = append(clone(l[k]), payload(r, pick(r, 4096, 65536, 66000, 1<<17, 200000)+r.IntN(8))...)
			c.Count("large_units", 1)
		}
		c.Distinct(l)
		u := g.units(l)
		one := g.bytes(bytes.Join(l, nil))
		enc := func(what string, f func() ([]byte, error)) {
			var a, b []byte
			var err error
			c.Protect(what, func() { a, err = f() })
			g.check(c, what)
			h.check(c, "after "+what)
			if err != nil {
				return
			}
			h.bytes("output of "+what, a)
			c.Protect(what, func() { b, err = f() })
			c.Check(err == nil && bytes.Equal(a, b), "%s gives %s, then %s (%v)", what, hexShort(a), hexShort(b), err)
			scribble(b)
			g.check(c, "writing in the output of "+what)
			h.check(c, "after writing in the output of "+what)
			c.Count("encoded", 1)
		}
		enc("AnnexB.Marshal", func() ([]byte, error) { return h264.AnnexB(u).Marshal() })
		enc("AVCC.Marshal", func() ([]byte, error) { return h264.AVCC(u).Marshal() })
		enc("Bitstream.Marshal", func() ([]byte, error) { return av1.Bitstream(u).Marshal() })
		enc("EmulationPreventionRemove", func() ([]byte, error) { return h264.EmulationPreventionRemove(one), nil })
		enc("Alaw.Marshal", func() ([]byte, error) { return g711.Alaw(one[:len(one)&^1]).Marshal() })
		enc("Mulaw.Marshal", func() ([]byte, error) { return g711.Mulaw(one[:len(one)&^1]).Marshal() })
		enc("Alaw.Unmarshal", func() ([]byte, error) { var a g711.Alaw; a.Unmarshal(one); return a, nil })
		enc("Mulaw.Unmarshal", func() ([]byte, error) { var a g711.Mulaw; a.Unmarshal(one); return a, nil })
		fill := func(what string, f func(s *fmp4.Sample) error, get func(s *fmp4.Sample) ([][]byte, error)) {
			calls := 0
			enc(what, func() ([]byte, error) {
				var s fmp4.Sample
				calls++
				err := f(&s)
				if err != nil {
					return nil, err
				}
				l, err := get(&s)
				if err == nil && calls == 1 {
					h.add("units read from a sample", func() string { return fmt.Sprintf("%x", l) })
				}
				return s.Payload, nil
			})
		}
		fill("FillH264", func(s *fmp4.Sample) error { return s.FillH264(1, u) }, func(s *fmp4.Sample) ([][]byte, error) { return s.GetH264() })
		fill("FillH265", func(s *fmp4.Sample) error { return s.FillH265(1, u) }, func(s *fmp4.Sample) ([][]byte, error) { return s.GetH265() })
		fill("FillAV1", func(s *fmp4.Sample) error { return s.FillAV1(u) }, func(s *fmp4.Sample) ([][]byte, error) { return s.GetAV1() })
		c.Protect("IsRandomAccess", func() {
			h264.IsRandomAccess(u)
			h265.IsRandomAccess(u)
			av1.IsRandomAccess2(u)
		})
		g.check(c, "IsRandomAccess")
		h.check(c, "after IsRandomAccess")
	}
	// DTS extractors
	var e4 h264.DTSExtractor
	var e5 h265.DTSExtractor
	e4.Initialize()
	e5.Initialize()
	for range 3 {
		for k, au := range dtsAUs(r) {
			u := g.units(au)
			c.Protect("DTSExtractor", func() {
				e4.Extract(u, int64(k)*3000) //nolint:errcheck
				e5.Extract(u, int64(k)*3000) //nolint:errcheck
			})
			g.check(c, "DTSExtractor.Extract")
			c.Count("extracted", 1)
		}
	}
}

// dtsAUs returns access units with parameters.
func dtsAUs(r *rand.Rand) [][][]byte {
	var out [][][]byte
	var cur [][]byte
	for _, u := range unpackUnits(seedDTS(r, flip(r))) {
		if len(u) == 0 {
			if len(cur) > 0 {
				out = append(out, cur)
			}
			cur = nil
			continue
		}
		cur = append(cur, u)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}
	return out
}

// c28TS: a writer does not touch what it is given, a reader does not touch what it delivered.
func c28TS(c *Case) {
	r := c.R
	h := genTSHistory(r, tsOpts{kinds: pick(r, nil, []string{tsKinds[c.Idx%len(tsKinds)]})})
	var g guards
	for _, e := range h.writes {
		e.units = g.units(e.units)
	}
	confs := func() string {
		s := ""
		for _, t := range h.tracks {
			s += dump(t.track.Codec)
		}
		return s
	}
	before := confs()
	var out bytes.Buffer
	w := &mpegts.Writer{W: &scribbler{w: &out}}
	for _, t := range h.tracks {
		w.Tracks = append(w.Tracks, t.track)
	}
	c.Protect("Writer.Initialize", func() { c.NoErr(w.Initialize(), "Writer.Initialize") })
	for i, e := range h.writes {
		if h.tables[i] {
			_, err := w.WriteTables()
			c.NoErr(err, "WriteTables")
		}
		t := h.tracks[e.trk]
		c.Protect("Write "+t.kind, func() { c.NoErr(t.write(w, e), "Write "+t.kind) })
		if i%4 == 0 {
			g.check(c, "Write "+t.kind)
		}
	}
	g.check(c, "Writer")
	c.Check(confs() == before, "the parameters of tracks have been modified by the writer")
	c.Count("written", len(h.writes))
	c.Input("stream", out.Bytes())
	c.Distinct(out.Bytes())

	// the same history, with a second writer
	var out2 bytes.Buffer
	h.run(c, &out2)
	c.Check(bytes.Equal(out2.Bytes(), out.Bytes()), "a second writer gives a different stream for the same writes")

	// reading: what is delivered is kept until the end
	read := func(scrib bool) (string, *tsRead) {
		o := &tsRead{}
		var hold holder
		var log strings.Builder
		src := clone(out.Bytes())
		keep := clone(src)
		rd := &mpegts.Reader{R: bytes.NewReader(src)}
		c.NoErr(rd.Initialize(), "Reader.Initialize")
		for i, t := range rd.Tracks() {
			fmt.Fprintln(&log, i, dump(t.Codec), t.Language)
			hold.add("codec of a track", func() string { return dump(t.Codec) + t.Language })
			tsSubscribe(rd, t, func(pts, dts int64, units [][]byte) error {
				fmt.Fprintf(&log, "%d %d %d %x\n", i, pts, dts, units)
				if scrib {
					for _, u := range units {
						scribble(u)
					}
					for k := range units {
						units[k] = nil
					}
				} else {
					hold.add(fmt.Sprintf("unit %d, of track %d (%T)", len(hold.l), i, t.Codec), func() string { return fmt.Sprintf("%x", units) })
				}
				if len(hold.l) < 30 && !scrib {
					hold.check(c, "while reading")
				}
				c.Count("delivered", 1)
				return nil
			})
		}
		rd.OnDecodeError(func(err error) { fmt.Fprintln(&log, err) })
		for {
			if err := rd.Read(); err != nil {
				c.Check(errors.Is(err, io.EOF), "the reader ended with %v", err)
				break
			}
		}
		hold.check(c, "by the end of the stream")
		c.Check(bytes.Equal(src, keep), "the reader modified the buffer of its source")
		return log.String(), o
	}
	a, _ := read(false)
	b, _ := read(true)
	c.Check(a == b, "writing in delivered units changes what is delivered next: %s", firstDiff(a, b))
	c.Sample("%d tracks, %d writes", len(h.tracks), len(h.writes))
}

// scribbler is a destination that keeps nothing of what it is given, and that
// checks that it is not modified while it is being written.
type scribbler struct{ w io.Writer }

func (s *scribbler) Write(p []byte) (int, error) { return s.w.Write(p) }

// c28MP4: values that are written, several times and next to others.
func c28MP4(c *Case) {
	r := c.R
	var g guards
	var h holder
	// fragments
	ps := genParts(r, false)
	for _, p := range ps {
		for _, t := range p.Tracks {
			for _, s := range t.Samples {
				s.Payload = g.bytes(s.Payload)
			}
		}
	}
	i, _ := genInit(r, c.Idx%codecKinds)
	i.UserData = genUserData(r)
	for _, t := range i.Tracks {
		guardFields(&g, reflect.ValueOf(t.Codec))
	}
	pr := genPresentation(r, r.IntN(codecKinds))
	for k, t := range pr.p.Tracks {
		guardFields(&g, reflect.ValueOf(t.Codec))
		for n, s := range t.Samples {
			pl := g.bytes(pr.payloads[k][n])
			s.GetPayload = func() ([]byte, error) { return pl, nil }
		}
	}
	h.add("Parts", func() string { return dump(ps) })
	h.add("Init", func() string { return dump(i) })
	h.add("Presentation", func() string { return presDump(pr.p) })
	outs := map[int][]byte{}
	var bufs [3][]byte
	for range 6 + r.IntN(6) {
		k := r.IntN(3)
		var b []byte
		var err error
		name := []string{"Parts", "Init", "Presentation"}[k]
		c.Protect(name+".Marshal", func() {
			switch k {
			case 0:
				var m memFile
				err = ps.Marshal(&m)
				b = m.b
			case 1:
				b, err = marshalInit(*i, flip(r))
			default:
				var o bytes.Buffer
				err = pr.p.Marshal(&o)
				b = o.Bytes()
			}
		})
		c.NoErr(err, name+".Marshal")
		g.check(c, name+".Marshal")
		h.check(c, "after "+name+".Marshal")
		if prev, ok := outs[k]; ok {
			c.Check(bytes.Equal(prev, b), "%s.Marshal gives different bytes the second time", name)
			c.Count("marshalled_again", 1)
		}
		outs[k] = clone(b)
		bufs[k] = b
		c.Distinct(name, b)
		c.Count("marshalled", 1)
	}
	// reading
	var got []*pmp4.Presentation
	for range 3 + r.IntN(5) {
		switch k := r.IntN(4); k {
		case 0:
			if bufs[0] == nil {
				continue
			}
			in := g.bytes(bufs[0])
			var q fmp4.Parts
			c.NoErr(q.Unmarshal(in), "Parts.Unmarshal")
			h.add("Parts that were read", func() string { return dump(q) })
			g.check(c, "Parts.Unmarshal")
			var m memFile
			c.NoErr(q.Marshal(&m), "Parts.Marshal")
			g.check(c, "Parts.Marshal")
			scribble(m.b)
		case 1:
			if bufs[1] == nil {
				continue
			}
			var q fmp4.Init
			c.NoErr(q.Unmarshal(bytes.NewReader(g.bytes(bufs[1]))), "Init.Unmarshal")
			h.add("Init that was read", func() string { return dump(q) })
			b, err := marshalInit(q, true)
			c.NoErr(err, "Init.Marshal")
			scribble(b)
		case 2:
			if bufs[2] == nil {
				continue
			}
			var q pmp4.Presentation
			c.NoErr(q.Unmarshal(bytes.NewReader(g.bytes(bufs[2]))), "Presentation.Unmarshal")
			h.add("Presentation that was read", func() string { return presDump(&q) })
			got = append(got, &q)
		default:
			if len(got) == 0 {
				continue
			}
			q := got[r.IntN(len(got))]
			for range 10 {
				t := q.Tracks[r.IntN(len(q.Tracks))]
				if len(t.Samples) == 0 {
					continue
				}
				n := r.IntN(len(t.Samples))
				a, err := t.Samples[n].GetPayload()
				c.NoErr(err, "GetPayload")
				b, err := t.Samples[n].GetPayload()
				c.NoErr(err, "GetPayload")
				c.Check(bytes.Equal(a, b), "GetPayload gives %s, then %s", hexShort(a), hexShort(b))
				h.bytes("payload that was fetched", a)
				scribble(b)
				c.Count("fetched", 1)
			}
			var o bytes.Buffer
			c.NoErr(q.Marshal(&o), "Presentation.Marshal")
			c.Check(bytes.Equal(o.Bytes(), bufs[2]), "the presentation that was read is written with different bytes")
		}
		g.check(c, "reading")
		h.check(c, "after other operations")
	}
	c.Sample("%d parts, %d tracks, presentation of %d tracks", len(ps), len(i.Tracks), len(pr.p.Tracks))
}

func presDump(p *pmp4.Presentation) string {
	var b strings.Builder
	for _, t := range p.Tracks {
		fmt.Fprintf(&b, "%d %d %d %s\n", t.ID, t.TimeScale, t.TimeOffset, dump(t.Codec))
		for _, s := range t.Samples {
			fmt.Fprintln(&b, s.Duration, s.PTSOffset, s.IsNonSyncSample, s.PayloadSize)
		}
	}
	return b.String()
}

// guardFields replaces byte slices that are reachable from a codec with guarded ones.
func guardFields(g *guards, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			guardFields(g, v.Elem())
		}
	case reflect.Struct:
		for i := range v.NumField() {
			guardFields(g, v.Field(i))
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.CanSet() && v.Len() > 0 {
			v.SetBytes(g.bytes(v.Bytes()))
		}
	}
}

// reusable are the structures whose parser sets every field it documents (optional parts of parameter sets are
// looked at through pointers and accessors only: the flags in front of absent parts say whether they count).
var reusable = map[string]func() any{
	"ac3.SyncInfo":                     func() any { return &ac3.SyncInfo{} },
	"ac3.BSI":                          func() any { return &ac3.BSI{} },
	"av1.OBUHeader":                    func() any { return &av1.OBUHeader{} },
	"av1.SequenceHeader":               func() any { return &av1.SequenceHeader{} },
	"flac.StreamInfo":                  func() any { return &flac.StreamInfo{} },
	"h264.AnnexB":                      func() any { return &h264.AnnexB{} },
	"h264.AVCC":                        func() any { return &h264.AVCC{} },
	"h264.SPS":                         func() any { return &h264.SPS{} },
	"h265.SPS":                         func() any { return &h265.SPS{} },
	"h265.PPS":                         func() any { return &h265.PPS{} },
	"jpeg.DefineRestartInterval":       func() any { return &jpeg.DefineRestartInterval{} },
	"jpeg.StartOfFrame1":               func() any { return &jpeg.StartOfFrame1{} },
	"mpeg1audio.FrameHeader":           func() any { return &mpeg1audio.FrameHeader{} },
	"opus.IDHeader":                    func() any { return &opus.IDHeader{} },
	"substructs.MetadataSTDDescriptor": func() any { return &substructs.MetadataSTDDescriptor{} },
}

// reuseView is what is compared between a new and a used object.
func reuseView(v any) string {
	acc := ""
	switch s := v.(type) {
	case *h264.SPS:
		acc = fmt.Sprint(s.Width(), s.Height(), s.FPS())
		d := *s
		d.ScalingList4x4, d.ScalingList8x8, d.UseDefaultScalingMatrix4x4Flag, d.UseDefaultScalingMatrix8x8Flag = nil, nil, nil, nil
		v = &d
	case *h265.SPS:
		acc = fmt.Sprint(s.Width(), s.Height(), s.FPS())
		d := *s
		d.Log2MinPcmLumaCodingBlockSizeMinus3, d.Log2DiffMaxMinPcmLumaCodingBlockSize, d.PcmLoopFilterDisabledFlag = 0, 0, false
		d.PcmSampleBitDepthLumaMinus1, d.PcmSampleBitDepthChromaMinus1 = 0, 0
		d.ProfileTierLevel, d.ScalingListData, d.SeparateColourPlaneFlag = h265.SPS_ProfileTierLevel{}, nil, false
		v = &d
	case *av1.SequenceHeader:
		acc = fmt.Sprint(s.Width(), s.Height())
		d := *s
		d.AdditionalFrameIDLengthMinus1, d.DeltaFrameIDLengthMinus2, d.ColorConfig = 0, 0, av1.SequenceHeader_ColorConfig{}
		d.EnableJntComp, d.EnableRefFrameMvs, d.InitialDisplayDelayMinus1, d.OrderHintBitsMinus1 = false, false, nil, 0
		d.SeqChooseIntegerMv, d.SeqChooseScreenContentTools = false, false
		v = &d
	}
	return acc + dump(v)
}

// c28Reuse: parsing with a used object.
func c28Reuse(c *Case) {
	r := c.R
	var names []string
	for k := range reusable {
		names = append(names, k)
	}
	slices.Sort(names)
	name := names[c.Idx%len(names)]
	var p *totalParser
	for _, q := range totalParsers {
		if q.name == name {
			p = q
		}
	}
	unmarshal := func(v any, b []byte) (err error) {
		c.Protect(name, func() {
			if u, ok := v.(interface{ Unmarshal([]byte) error }); ok {
				err = u.Unmarshal(clone(b))
			} else {
				c.Failf("%s has no Unmarshal", name)
			}
		})
		return err
	}
	used := reusable[name]()
	for range 2 + r.IntN(3) {
		b := p.seed(r)
		if r.IntN(8) == 0 { // something invalid comes in between
			unmarshal(used, bitSplice(r, clone(b))) //nolint:errcheck
		}
		c.Distinct(name, b)
		fresh := reusable[name]()
		e1, e2 := unmarshal(fresh, b), unmarshal(used, b)
		c.Input(name, b)
		c.Check((e1 == nil) == (e2 == nil), "%s: a new object gives error %v, a used one %v", name, e1, e2)
		if e1 != nil {
			continue
		}
		v1, v2 := reuseView(fresh), reuseView(used)
		c.Check(v1 == v2, "%s: a used object gives\n%s\ninstead of\n%s", name, v2, v1)
		c.Count("parsed_with_used", 1)
	}
	c.Sample("%s parsed repeatedly with one object", name)
}

func init() {
	n := len(totalParsers)
	register(&Property{
		ID: "C28",
		Rule: "buffers given to parsers, encoders and writers are surrounded by guard bytes and compared after each call; parsed values, marshalled outputs, delivered units and fetched payloads are recorded " +
			"when they are received and compared again after histories of other operations; outputs are overwritten by the caller; values are marshalled repeatedly; structures are parsed again in used objects and compared with new ones",
		Require: []string{"parsed", "marshalled", "marshalled_again", "buffers_checked", "contents_rechecked", "encoded", "extracted", "delivered", "fetched", "receiver_reused", "parsed_with_used"},
		Families: []Family{
			{Name: "parsers", Quick: n * 200, Thorough: n * 20000, Run: c28Parsers},
			{Name: "units", Quick: 2000, Thorough: 200000, Run: c28Units},
			{Name: "ts", Quick: 1500, Thorough: 60000, Run: c28TS},
			{Name: "mp4", Quick: 1500, Thorough: 100000, Run: c28MP4},
			{Name: "reuse", Quick: len(reusable) * 150, Thorough: len(reusable) * 20000, Run: c28Reuse},
		},
	})
}
