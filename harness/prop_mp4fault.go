package main

import (
	"bytes"
	"errors"
	"io"
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// C13: MP4 writers and readers report I/O failures.

// faultFile is a file whose calls fail.
type faultFile struct {
	memFile
	at    int // index of the call that fails, -1 never
	err   error
	part  func(n int) int
	once  bool
	chop  func(n int) int // short reads
	calls int
	fired int
	kinds []byte // kind of each call: r, w, s
	eof   bool   // the file ends at the failing read
}

func (f *faultFile) hit(kind byte) bool {
	f.kinds = append(f.kinds, kind)
	i := f.calls
	f.calls++
	if f.calls > 5000000 {
		panic(failure{msg: "too many calls"})
	}
	if f.at < 0 {
		return false
	}
	if i == f.at || f.fired > 0 && !f.once {
		f.fired++
		return true
	}
	return false
}

// failed returns the kind of the call that failed first.
func (f *faultFile) failed() string {
	if f.at < 0 || f.at >= len(f.kinds) {
		return "none"
	}
	return map[byte]string{'r': "read", 'w': "write", 's': "seek"}[f.kinds[f.at]]
}

func (f *faultFile) Write(p []byte) (int, error) {
	if f.hit('w') {
		n := 0
		if f.part != nil && f.fired == 1 {
			n = f.part(len(p))
		}
		f.memFile.Write(p[:n]) //nolint:errcheck
		return n, f.err
	}
	return f.memFile.Write(p)
}

func (f *faultFile) Read(p []byte) (int, error) {
	if f.hit('r') {
		n := 0
		if f.part != nil && f.fired == 1 {
			n = f.part(len(p))
			n, _ = f.memFile.Read(p[:n])
			if f.eof && n > 0 {
				f.fired-- // the next call fails with no data
				f.at++
				return n, nil
			}
		}
		return n, f.err
	}
	if f.chop != nil && len(p) > 0 {
		p = p[:f.chop(len(p))]
		if len(p) == 0 {
			return 0, nil
		}
	}
	return f.memFile.Read(p)
}

func (f *faultFile) Seek(off int64, whence int) (int64, error) {
	if f.hit('s') {
		return 0, f.err
	}
	return f.memFile.Seek(off, whence)
}

// points returns the indexes of the calls to fail: all of them, or a sample.
func faultPoints(r *rand.Rand, n, limit int) []int {
	if n <= limit {
		l := make([]int, n)
		for i := range l {
			l[i] = i
		}
		return l
	}
	var l []int
	for range limit {
		l = append(l, r.IntN(n))
	}
	return append(l, 0, n-1)
}

func partOf(r *rand.Rand) func(n int) int {
	switch r.IntN(3) {
	case 0:
		return nil
	case 1:
		return func(n int) int {
			if n == 0 {
				return 0
			}
			return r.IntN(n)
		}
	default:
		return func(n int) int { return max(0, n-1) }
	}
}

// partWritten is like partOf; besides, everything may have been written before the error.
func partWritten(r *rand.Rand) func(n int) int {
	if r.IntN(4) == 0 {
		return func(n int) int { return n }
	}
	return partOf(r)
}

// c13Write: every write and seek of the destination of Init and Parts.
func c13Write(c *Case) {
	r := c.R
	var marshal func(w io.WriteSeeker) error
	name := "Init"
	switch c.Idx % 3 {
	case 0:
		i, _ := genInit(r, r.IntN(codecKinds))
		i.UserData = genUserData(r)
		marshal = i.Marshal
	case 1:
		name = "Part"
		marshal = genParts(r, false)[0].Marshal
	default:
		name = "Parts"
		marshal = genParts(r, false).Marshal
	}
	ref := &faultFile{at: -1}
	c.NoErr(marshal(ref), name+".Marshal")
	c.Input(name, ref.b)
	c.Distinct(name, ref.b)
	for _, at := range faultPoints(r, ref.calls, 250) {
		err, kind := faultError(r)
		f := &faultFile{at: at, err: err, part: partWritten(r), once: flip(r)}
		var got error
		c.Protect(name+".Marshal", func() { got = marshal(f) })
		c.Eval(1)
		call := f.failed()
		c.Check(got != nil, "%s.Marshal succeeded although call %d of %d (%s) failed (%s, once: %v)", name, at, ref.calls, call, kind, f.once)
		c.Check(errors.Is(got, err), "%s.Marshal returned %q, want the error of the destination %q", name, got, err)
		c.Count("failed_"+call, 1)
	}
	// the value can be marshalled afterwards
	var again memFile
	c.NoErr(marshal(&again), name+".Marshal after failures")
	c.Check(bytes.Equal(again.b, ref.b), "%s.Marshal gives different bytes after failures", name)
	c.Max("calls", int64(ref.calls))
	c.Sample("%s, %d bytes, %d calls", name, len(ref.b), ref.calls)
}

// c13PresWrite: every write of the destination and every payload of a presentation.
func c13PresWrite(c *Case) {
	r := c.R
	g := genPresentation(r, c.Idx%codecKinds)
	ref := &faultWriter{at: -1}
	c.NoErr(g.p.Marshal(ref), "Presentation.Marshal")
	c.Input("presentation", ref.buf)
	c.Distinct("pres", ref.buf)
	for _, at := range faultPoints(r, ref.calls, 200) {
		err, kind := faultError(r)
		f := &faultWriter{at: at, err: err, part: partWritten(r), once: flip(r)}
		var got error
		c.Protect("Presentation.Marshal", func() { got = g.p.Marshal(f) })
		c.Eval(1)
		c.Check(got != nil, "Presentation.Marshal succeeded although write %d of %d failed (%s)", at, ref.calls, kind)
		c.Check(errors.Is(got, err), "Presentation.Marshal returned %q, want the error of the destination %q", got, err)
		c.Check(bytes.HasPrefix(ref.buf, f.buf), "what was written before the failure of write %d is not the beginning of the presentation", at)
		c.Count("failed_write", 1)
	}
	// payloads
	total := 0
	for _, t := range g.p.Tracks {
		total += len(t.Samples)
	}
	for _, at := range faultPoints(r, total, 200) {
		err, kind := faultError(r)
		n := at
		var s *pmp4.Sample
		for _, t := range g.p.Tracks {
			if n < len(t.Samples) {
				s = t.Samples[n]
				break
			}
			n -= len(t.Samples)
		}
		if s == nil {
			break
		}
		good := s.GetPayload
		some := randBytes(r, r.IntN(5))
		s.GetPayload = func() ([]byte, error) { return some, err }
		if flip(r) {
			s.GetPayload = func() ([]byte, error) { return nil, err }
		}
		f := &faultWriter{at: -1}
		var got error
		c.Protect("Presentation.Marshal", func() { got = g.p.Marshal(f) })
		s.GetPayload = good
		c.Eval(1)
		c.Check(got != nil, "Presentation.Marshal succeeded although the payload of sample %d of %d is not available (%s)", at, total, kind)
		c.Check(errors.Is(got, err), "Presentation.Marshal returned %q, want the error of GetPayload %q", got, err)
		c.Check(bytes.HasPrefix(ref.buf, f.buf), "what was written before the failure of payload %d is not the beginning of the presentation", at)
		c.Count("failed_payload", 1)
	}
	var out bytes.Buffer
	c.NoErr(g.p.Marshal(&out), "Presentation.Marshal after failures")
	c.Check(bytes.Equal(out.Bytes(), ref.buf), "Presentation.Marshal gives different bytes after failures")
	c.Max("calls", int64(ref.calls))
	c.Sample("presentation, %d bytes, %d writes, %d samples", len(ref.buf), ref.calls, total)
}

func presEqual(c *Case, got, want *pmp4.Presentation) string {
	if len(got.Tracks) != len(want.Tracks) {
		return "tracks are missing"
	}
	for k, t := range want.Tracks {
		q := got.Tracks[k]
		if q.ID != t.ID || q.TimeScale != t.TimeScale || q.TimeOffset != t.TimeOffset || !deepEq(q.Codec, t.Codec) || len(q.Samples) != len(t.Samples) {
			return "a track is different"
		}
		for i, s := range t.Samples {
			x := q.Samples[i]
			if x.Duration != s.Duration || x.PTSOffset != s.PTSOffset || x.IsNonSyncSample != s.IsNonSyncSample || x.PayloadSize != s.PayloadSize {
				return "a sample is different"
			}
		}
	}
	return ""
}

// readFault picks a failure of a reader.
func readFault(r *rand.Rand, b []byte, at int) (*faultFile, string) {
	f := &faultFile{memFile: memFile{b: b}, at: at, part: partOf(r), once: flip(r)}
	if r.IntN(3) == 0 {
		f.err, f.eof, f.once = io.EOF, true, false
		return f, "end of file"
	}
	var kind string
	f.err, kind = faultError(r)
	return f, kind
}

func chopper(r *rand.Rand) func(n int) int {
	if r.IntN(3) == 0 {
		return func(int) int { return 1 }
	}
	return func(n int) int { return 1 + r.IntN(n) }
}

// c13InitRead: every read and seek of the source of Init.
func c13InitRead(c *Case) {
	r := c.R
	i, _ := genInit(r, c.Idx%codecKinds)
	buf, err := marshalInit(*i, false)
	c.NoErr(err, "Init.Marshal")
	if r.IntN(3) == 0 { // other boxes follow
		var sb memFile
		c.NoErr(genParts(r, false).Marshal(&sb), "Parts.Marshal")
		buf = append(buf, sb.b...)
	}
	c.Input("init", buf)
	c.Distinct("init", buf)
	ref := &faultFile{memFile: memFile{b: buf}, at: -1}
	var want fmp4.Init
	c.NoErr(want.Unmarshal(ref), "Init.Unmarshal")
	// short reads
	{
		f := &faultFile{memFile: memFile{b: buf}, at: -1, chop: chopper(r)}
		var got fmp4.Init
		c.NoErr(got.Unmarshal(f), "Init.Unmarshal with short reads")
		c.Check(deepEq(got, want), "Init.Unmarshal with short reads gives a different result")
		c.Count("short_reads", 1)
	}
	for _, at := range faultPoints(r, ref.calls, 300) {
		f, kind := readFault(r, buf, at)
		var got fmp4.Init
		var e error
		c.Protect("Init.Unmarshal", func() { e = got.Unmarshal(f) })
		c.Eval(1)
		c13Verdict(c, "Init.Unmarshal", f, kind, e, at, ref.calls, func() bool { return deepEq(got, want) })
	}
	c.Max("calls", int64(ref.calls))
	c.Sample("init, %d bytes, %d calls", len(buf), ref.calls)
}

func c13Verdict(c *Case, name string, f *faultFile, kind string, err error, at, n int, same func() bool) {
	call := f.failed()
	c.Count("failed_"+call, 1)
	if f.eof && call == "read" {
		if err == nil {
			c.Check(same(), "%s succeeded with a different result although the file ended at call %d of %d", name, at, n)
			c.Count("end_tolerated", 1)
		}
		return
	}
	if call == "seek" { // a seek that measures the file may fail
		if err == nil {
			c.Check(same(), "%s succeeded with a different result although call %d of %d (seek) failed (%s, once: %v)", name, at, n, kind, f.once)
			c.Count("seek_tolerated", 1)
		}
		return
	}
	c.Check(err != nil, "%s succeeded although call %d of %d (%s) failed (%s, once: %v)", name, at, n, call, kind, f.once)
}

// c13PresRead: every read and seek while a presentation is opened, then while payloads are fetched.
func c13PresRead(c *Case) {
	r := c.R
	g := genPresentation(r, c.Idx%codecKinds)
	var out bytes.Buffer
	c.NoErr(g.p.Marshal(&out), "Presentation.Marshal")
	buf := out.Bytes()
	c.Input("presentation", buf)
	c.Distinct("pres", buf)
	ref := &faultFile{memFile: memFile{b: buf}, at: -1}
	var want pmp4.Presentation
	c.NoErr(want.Unmarshal(ref), "Presentation.Unmarshal")
	n := ref.calls
	{
		f := &faultFile{memFile: memFile{b: buf}, at: -1, chop: chopper(r)}
		var got pmp4.Presentation
		c.NoErr(got.Unmarshal(f), "Presentation.Unmarshal with short reads")
		checkPresRead(c, g, &got, nil, &f.memFile)
		c.Count("short_reads", 1)
	}
	for _, at := range faultPoints(r, n, 250) {
		f, kind := readFault(r, buf, at)
		var got pmp4.Presentation
		var e error
		c.Protect("Presentation.Unmarshal", func() { e = got.Unmarshal(f) })
		c.Eval(1)
		c13Verdict(c, "Presentation.Unmarshal", f, kind, e, at, n, func() bool { return presEqual(c, &got, &want) == "" })
	}
	c.Max("calls", int64(n))

	// payloads: an history of fetches in which any call can fail
	f := &faultFile{memFile: memFile{b: append([]byte(nil), buf...)}, at: -1}
	if flip(r) {
		f.chop = chopper(r)
	}
	var p pmp4.Presentation
	c.NoErr(p.Unmarshal(f), "Presentation.Unmarshal")
	type pos struct{ k, i int }
	var all []pos
	for k, t := range p.Tracks {
		for i := range t.Samples {
			all = append(all, pos{k, i})
		}
	}
	if len(all) == 0 {
		return
	}
	whole := f.memFile.b
	for range min(len(all)*2, 150) {
		s := all[r.IntN(len(all))]
		x := p.Tracks[s.k].Samples[s.i]
		pl := g.payloads[s.k][s.i]
		f.memFile.b = whole
		f.at, f.fired, f.calls, f.kinds = -1, 0, 0, nil
		mode := r.IntN(5)
		kind := ""
		switch mode {
		case 0: // no failure
		case 1: // a call fails
			f.err, kind = faultError(r)
			f.at, f.part, f.once, f.eof = r.IntN(3), partOf(r), flip(r), false
		case 2: // a seek fails
			f.err, kind = faultError(r)
			f.at, f.once, f.eof = 0, true, false
		case 3: // the file has been truncated
			f.memFile.b = whole[:r.IntN(len(whole)+1)]
		case 4: // the file has been truncated near to the payload
			if o := bytes.LastIndex(whole, pl); o >= 0 && len(pl) > 0 {
				f.memFile.b = whole[:o+r.IntN(len(pl))]
			}
		}
		var got []byte
		var err error
		c.Protect("GetPayload", func() { got, err = x.GetPayload() })
		c.Eval(1)
		if err == nil {
			c.Check(f.fired == 0, "GetPayload of track %d sample %d succeeded although call %d (%s) failed (%s)", s.k, s.i, f.at, f.failed(), kind)
			c.Check(bytes.Equal(got, pl), "GetPayload of track %d sample %d returned %s, want %s (mode %d)", s.k, s.i, hexShort(got), hexShort(pl), mode)
			c.Count("fetched", 1)
		} else {
			c.Check(mode != 0, "GetPayload of track %d sample %d failed without failures: %v", s.k, s.i, err)
			c.Check(f.fired > 0 || len(f.memFile.b) < len(whole), "GetPayload of track %d sample %d failed without failures: %v", s.k, s.i, err)
			if f.fired > 0 && mode <= 2 {
				c.Check(errors.Is(err, f.err), "GetPayload returned %q, want the error of the source %q", err, f.err)
			}
			c.Count("fetch_failed", 1)
			if f.fired > 0 {
				c.Count("fetch_failed_"+f.failed(), 1)
			}
		}
	}
	f.at, f.memFile.b = -1, whole
	// transmuxing from a source that fails
	ref2 := &faultFile{memFile: memFile{b: whole}, at: -1}
	var q pmp4.Presentation
	c.NoErr(q.Unmarshal(ref2), "Presentation.Unmarshal")
	opened := ref2.calls
	c.NoErr(q.Marshal(io.Discard), "Marshal of what was read")
	for range 10 {
		if ref2.calls == opened {
			break
		}
		f, kind := readFault(r, whole, opened+r.IntN(ref2.calls-opened))
		var q pmp4.Presentation
		c.NoErr(q.Unmarshal(f), "Presentation.Unmarshal")
		var o bytes.Buffer
		var err error
		c.Protect("Presentation.Marshal", func() { err = q.Marshal(&o) })
		c.Eval(1)
		c.Check(err != nil || f.fired == 0, "Presentation.Marshal succeeded although call %d (%s) of the source of payloads failed (%s)", f.at, f.failed(), kind)
		c.Check(bytes.HasPrefix(buf, o.Bytes()), "what was written before the failure of the source is not the beginning of the presentation")
		c.Count("transmux_failed", 1)
	}
	c.Sample("presentation, %d bytes, %d calls to open", len(buf), n)
}

func init() {
	register(&Property{
		ID: "C13",
		Rule: "every write and seek of the destination of fMP4 and MP4 writers, every payload and every read and seek of the source of readers fails, one at a time (a sample of 200-300 of them in big files), " +
			"with errors of several kinds, once or forever, after partial transfers; files end early, reads are short: errors have to come back, unless the result is the right one",
		Require: []string{"failed_write", "failed_seek", "failed_read", "failed_payload", "short_reads", "fetched", "fetch_failed", "fetch_failed_seek", "fetch_failed_read", "transmux_failed"},
		Families: []Family{
			{Name: "write", Quick: 1200, Thorough: 40000, Run: c13Write},
			{Name: "preswrite", Quick: 500, Thorough: 15000, Run: c13PresWrite},
			{Name: "initread", Quick: 1200, Thorough: 40000, Run: c13InitRead},
			{Name: "presread", Quick: 700, Thorough: 20000, Run: c13PresRead},
		},
	})
}
