package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/bits"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/rewindablereader"
)

func toBits(b []byte) []byte {
	out := make([]byte, 0, len(b)*8)
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			out = append(out, (x>>uint(i))&1)
		}
	}
	return out
}

func bitsVal(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<1 | uint64(x)
	}
	return v
}

func randWidth(r *rand.Rand) int {
	switch r.IntN(5) {
	case 0:
		return r.IntN(9)
	case 1:
		return 8 * (1 + r.IntN(8))
	case 2:
		return 57 + r.IntN(8)
	default:
		return r.IntN(65)
	}
}

// modelGolomb decodes ue(v); status: 0 ok, 1 not enough bits, 2 invalid (does not fit 32 bits).
func modelGolomb(b []byte, pos int) (uint64, int, int) {
	z := 0
	p := pos
	for {
		if p >= len(b) {
			return 0, p, 1
		}
		if b[p] == 1 {
			p++
			break
		}
		p++
		z++
		if z > 32 {
			return 0, p, 2
		}
	}
	if len(b)-p < z {
		return 0, p, 1
	}
	v := uint64(1)<<uint(z) - 1 + bitsVal(b[p:p+z])
	if v>>32 != 0 {
		return 0, p, 2
	}
	return v, p + z, 0
}

func c22Read(c *Case) {
	r := c.R
	n := r.IntN(40)
	var buf []byte
	switch r.IntN(3) {
	case 0:
		buf = randBytes(r, n)
	case 1:
		buf = sparseBytes(r, n)
	default:
		// exp-golomb codes
		w := &bitWriter{}
		for range r.IntN(12) {
			v := uint32(r.Uint64() >> uint(32+r.IntN(32)))
			if r.IntN(4) == 0 {
				v = pick(r, uint32(0), 1, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFD, 0xFFFFFFFE)
			}
			if v == 0xFFFFFFFF || r.IntN(16) == 0 { // 32 leading zeros: only the first one of these codes fits
				w.u(32, 0)
				w.u(1, 1)
				w.u(32, pick(r, uint64(0), 0, 1, 0xFFFFFFFF, r.Uint64()>>uint(32+r.IntN(32))))
				continue
			}
			w.ue(v)
		}
		buf = w.out()
	}
	orig := clone(buf)
	c.Input("buf", orig)
	model := toBits(buf)
	pos := 0
	if r.IntN(2) == 0 && len(model) > 0 {
		pos = r.IntN(len(model) + 1)
	}
	ops := 0
	for range 1 + r.IntN(30) {
		remain := len(model) - pos
		before := pos
		kind := r.IntN(8)
		switch kind {
		case 0, 1, 2:
			w := randWidth(r)
			if r.IntN(4) == 0 {
				w = max(0, min(64, remain+r.IntN(3)-1))
			}
			v, err := bits.ReadBits(buf, &pos, w)
			if w > remain {
				c.Check(err != nil, "ReadBits(%d) at %d of %d bits: no error", w, before, len(model))
				c.Check(pos >= before && pos <= len(model), "ReadBits error moved position to %d", pos)
				pos = before
				c.Count("not_enough", 1)
				continue
			}
			c.NoErr(err, fmt.Sprintf("ReadBits(%d) at %d of %d", w, before, len(model)))
			c.Check(v == bitsVal(model[before:before+w]) && pos == before+w,
				"ReadBits(%d) at %d = %x pos %d, want %x pos %d", w, before, v, pos, bitsVal(model[before:before+w]), before+w)
		case 3:
			w := randWidth(r)
			err := bits.HasSpace(buf, pos, w)
			c.Check((err == nil) == (w <= remain), "HasSpace(%d) with %d remaining: %v", w, remain, err)
			if err == nil {
				v := bits.ReadBitsUnsafe(buf, &pos, w)
				c.Check(v == bitsVal(model[before:before+w]) && pos == before+w,
					"ReadBitsUnsafe(%d) at %d = %x pos %d", w, before, v, pos)
			}
		case 4:
			v, err := bits.ReadFlag(buf, &pos)
			if remain < 1 {
				c.Check(err != nil, "ReadFlag at the end: no error")
				pos = before
				continue
			}
			c.NoErr(err, "ReadFlag")
			c.Check(v == (model[before] == 1) && pos == before+1, "ReadFlag at %d = %v pos %d", before, v, pos)
			if r.IntN(2) == 0 {
				p2 := before
				v2 := bits.ReadFlagUnsafe(buf, &p2)
				c.Check(v2 == v && p2 == pos, "ReadFlagUnsafe at %d", before)
			}
		case 5, 6:
			want, wp, st := modelGolomb(model, pos)
			v, err := bits.ReadGolombUnsigned(buf, &pos)
			c.Check(pos >= before && pos <= len(model), "ReadGolombUnsigned moved position to %d", pos)
			switch st {
			case 0:
				c.NoErr(err, fmt.Sprintf("ReadGolombUnsigned at %d", before))
				c.Check(uint64(v) == want && pos == wp, "ReadGolombUnsigned at %d = %d pos %d, want %d pos %d", before, v, pos, want, wp)
				c.Count("golomb_ok", 1)
			case 1, 2:
				c.Check(err != nil, "ReadGolombUnsigned at %d: no error (want %d)", before, st)
				pos = before
			}
		case 7:
			want, wp, st := modelGolomb(model, pos)
			v, err := bits.ReadGolombSigned(buf, &pos)
			if st == 0 && want == 1<<32-1 { // 2^31 is not an int32
				st = 2
			}
			switch st {
			case 0:
				c.NoErr(err, fmt.Sprintf("ReadGolombSigned at %d", before))
				var s int64
				if want&1 == 1 {
					s = int64(want+1) / 2
				} else {
					s = -int64(want / 2)
				}
				c.Check(int64(v) == s && pos == wp, "ReadGolombSigned at %d = %d pos %d, want %d pos %d", before, v, pos, s, wp)
				c.Count("golomb_signed_ok", 1)
			case 1, 2:
				c.Check(err != nil, "ReadGolombSigned at %d: no error", before)
				if st == 2 {
					c.Count("golomb_overflow", 1)
				}
				pos = before
			}
		}
		ops++
	}
	c.Check(bytes.Equal(buf, orig), "buffer modified by reads")
	c.Count("reads", ops)
	if ops > 1 {
		c.Distinct("read", orig, pos, ops)
	}
	c.Sample("buf=%s final pos=%d ops=%d", hexShort(orig), pos, ops)
}

func c22Write(c *Case) {
	r := c.R
	type op struct {
		v    uint64
		n    int
		flag bool
	}
	var ops []op
	start := r.IntN(24)
	total := start
	for range 1 + r.IntN(20) {
		o := op{v: r.Uint64(), n: randWidth(r)}
		if r.IntN(5) == 0 {
			o.flag = true
			o.n = 1
		}
		// values fit their width: callers pass values within the field
		if o.n < 64 {
			o.v &= 1<<uint(o.n) - 1
		}
		ops = append(ops, o)
		total += o.n
	}
	size := (total+7)/8 + 1 + r.IntN(3)
	buf := make([]byte, size)
	w := &bitWriter{}
	pos := start
	w.u(start, 0)
	for _, o := range ops {
		before := pos
		if o.flag {
			bits.WriteFlagUnsafe(buf, &pos, o.v == 1)
		} else {
			bits.WriteBitsUnsafe(buf, &pos, o.v, o.n)
		}
		w.u(o.n, o.v)
		c.Check(pos == before+o.n, "write of %d bits at %d moved position to %d", o.n, before, pos)
	}
	want := make([]byte, size)
	copy(want, w.out())
	c.Check(bytes.Equal(buf, want), "written bits differ: got %x want %x (start %d ops %v)", buf, want, start, ops)
	pos = start
	for _, o := range ops {
		v, err := bits.ReadBits(buf, &pos, o.n)
		c.NoErr(err, "read back")
		c.Check(v == o.v, "read back %x, want %x", v, o.v)
	}
	c.Count("writes", len(ops))
	c.Distinct("write", buf, start)
	c.Sample("start=%d ops=%d buf=%s", start, len(ops), hexShort(buf))
}

// enumerates all positions and widths within a fixed-size buffer.
func c22Enum(c *Case) {
	buf := randBytes(c.R, 1+c.Idx%18)
	orig := clone(buf)
	c.Input("buf", orig)
	model := toBits(buf)
	for p := 0; p <= len(model); p++ {
		for w := 0; w <= 64; w++ {
			pos := p
			v, err := bits.ReadBits(buf, &pos, w)
			if w > len(model)-p {
				c.Check(err != nil, "ReadBits(%d) at %d of %d: no error", w, p, len(model))
				continue
			}
			c.Check(err == nil && v == bitsVal(model[p:p+w]) && pos == p+w, "ReadBits(%d) at %d of %d = %x, %v, pos %d", w, p, len(model), v, err, pos)
			c.Count("enum_reads", 1)
		}
	}
	c.Distinct("enum", buf)
}

func c23(c *Case) {
	r := c.R
	const period = int64(1) << 33
	var d *mpegts.TimeDecoder
	if r.IntN(2) == 0 {
		d = &mpegts.TimeDecoder{}
		d.Initialize()
	} else {
		d = mpegts.NewTimeDecoder()
	}
	var cur int64
	switch r.IntN(4) {
	case 0:
		cur = 0
	case 1:
		cur = period - 1 - int64(r.IntN(5))
	default:
		cur = r.Int64N(period)
	}
	base := cur
	steps := 1 + r.IntN(200)
	wraps := 0
	dir := int64(1)
	style := r.IntN(4)
	for i := range steps {
		if i > 0 {
			var step int64
			switch style {
			case 0: // small media steps
				step = r.Int64N(90000) - 20000
			case 1: // large steps in one direction
				step = dir * r.Int64N(period/2)
			case 2:
				step = r.Int64N(period-1) - (period/2 - 1)
			default:
				step = pick(r, 0, 1, -1, 90, 3000, period/2-1, -(period/2 - 1), period/2-2, -(period/2 - 2))
			}
			if r.IntN(50) == 0 {
				dir = -dir
			}
			before := floorDiv(cur, period)
			cur += step
			if floorDiv(cur, period) != before {
				wraps++
			}
		}
		ts := cur & (period - 1)
		got := d.Decode(ts)
		c.Check(got == cur-base, "step %d: Decode(%d) = %d, want %d (base %d)", i, ts, got, cur-base, base)
	}
	c.Count("timestamps", steps)
	c.Count("wraps", wraps)
	c.Distinct(base, cur, steps)
	c.Sample("base=%d steps=%d wraps=%d final=%d", base, steps, wraps, cur-base)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && a < 0 {
		q--
	}
	return q
}

var errSource = errors.New("source failure")

func c24Rewind(c *Case) {
	r := c.R
	const limit = 1024 * 1024
	size := r.IntN(5000)
	if r.IntN(12) == 0 {
		size = limit + r.IntN(200000) - 60000
	}
	if r.IntN(40) == 0 {
		size = limit + pick(r, -1, 0, 1)
	}
	slow := c.Idx%200 == 0 // almost a million of reads
	if slow {
		size = limit - r.IntN(100000)
	}
	data := randBytes(r, size)
	maxChunk := pick(r, 1, 7, 100, 1500, 70000)
	if slow {
		maxChunk = 1
	} else if size > 50000 && maxChunk < 1500 {
		maxChunk = 1500
	}
	src := &chunkReader{b: clone(data), next: func() int { return r.IntN(maxChunk + 1) }, errWith: r.IntN(2) == 0}
	if r.IntN(3) == 0 {
		src.err = errSource
	}
	wantErr := src.err
	if wantErr == nil {
		wantErr = io.EOF
	}
	rr := &rewindablereader.Reader{R: src}
	var first []byte
	want := r.IntN(size + 1)
	if r.IntN(4) == 0 {
		want = size + 1
	}
	ended := false
	over := false
	buf := make([]byte, 100000)
	nreads := 0
	for len(first) < want && !ended {
		k := r.IntN(maxChunk + 1)
		if size > 50000 {
			k = maxChunk
		}
		consumed := size - len(src.b)
		n, err := rr.Read(buf[:k])
		nreads++
		taken := size - len(src.b) - consumed
		if len(first)+taken > limit {
			c.Check(err != nil && n == 0, "recorded %d bytes beyond the limit without error", len(first)+taken)
			over = true
			break
		}
		c.Check(n == taken, "read returned %d bytes, source delivered %d", n, taken)
		c.Check(n <= k, "read returned more than asked")
		first = append(first, buf[:n]...)
		if err != nil {
			c.Check(errors.Is(err, wantErr), "read error %v, want %v", err, wantErr)
			c.Check(len(src.b) == 0, "error before the end: %v", err)
			ended = true
		}
		if nreads > 3000000 {
			break
		}
	}
	c.Check(bytes.Equal(first, data[:len(first)]), "bytes before rewind differ from the source")
	c.Count("reads_before", nreads)
	if over {
		c.Count("over_limit", 1)
		c.Distinct("over", size, maxChunk)
		return
	}
	rr.Rewind()
	var all []byte
	ended = false
	empties := 0
	for !ended {
		k := 1 + r.IntN(maxChunk)
		if size > 50000 {
			k = maxChunk
		}
		n, err := rr.Read(buf[:k])
		c.Check(n <= k, "read returned more than asked")
		all = append(all, buf[:n]...)
		if n == 0 && err == nil {
			empties++
			c.Check(empties < nreads+20*size+1000, "reader keeps returning nothing")
		}
		if err != nil {
			c.Check(errors.Is(err, wantErr), "error after rewind %v, want %v", err, wantErr)
			ended = true
		}
		c.Check(len(all) <= size, "more bytes than the source has")
	}
	c.Check(bytes.Equal(all, data), "bytes after rewind differ from the source: got %d, want %d", len(all), size)
	c.Count("rewinds", 1)
	c.Count("bytes", len(all))
	c.Distinct("rw", data, nreads, maxChunk)
	c.Sample("size=%d read-before=%d in %d reads", size, len(first), nreads)
}

type dgramReader struct {
	list    [][]byte
	errWith bool
	err     error
	i       int
}

var errTemp = errors.New("temporary failure of the source")

func (d *dgramReader) Read(p []byte) (int, error) {
	if d.i >= len(d.list) {
		return 0, d.err
	}
	n := copy(p, d.list[d.i])
	d.i++
	if d.errWith && d.i == len(d.list) {
		return n, d.err
	}
	return n, nil
}

// recovering returns a temporary error with the last byte of some items, and then goes on.
type recovering struct {
	list    [][]byte
	tempErr map[int]bool
	i       int
}

func (d *recovering) Read(p []byte) (int, error) {
	if d.i >= len(d.list) {
		return 0, io.EOF
	}
	n := copy(p, d.list[d.i])
	d.list[d.i] = d.list[d.i][n:]
	if len(d.list[d.i]) != 0 {
		return n, nil
	}
	d.i++
	if d.tempErr[d.i-1] {
		return n, errTemp
	}
	return n, nil
}

// c24Temporary: sources that fail and then recover, like a connection with a deadline. Nothing is lost.
func c24Temporary(c *Case) {
	r := c.R
	src := &recovering{tempErr: map[int]bool{}}
	buffered := c.Idx%2 == 0
	var want []byte
	n := 2 + r.IntN(15)
	for i := range n {
		var b []byte
		if buffered {
			b = randBytes(r, 188*(1+r.IntN(7)))
		} else {
			b = randBytes(r, 1+r.IntN(1500))
		}
		if r.IntN(3) == 0 {
			if r.IntN(3) == 0 {
				b = nil
			}
			src.tempErr[i] = true
		}
		src.list = append(src.list, b)
		want = append(want, b...)
	}
	read := func(rd io.Reader, stop int) (got []byte, temps int) {
		buf := make([]byte, 2000)
		for range 10 * (len(want) + n + 10) {
			k := pick(r, 188, 1500, 2000, 1+r.IntN(400))
			if !buffered && len(got) >= stop {
				return got, temps
			}
			m, err := rd.Read(buf[:k])
			got = append(got, buf[:m]...)
			c.Check(len(got) <= len(want), "delivered more bytes than received")
			switch {
			case err == nil:
			case errors.Is(err, errTemp):
				temps++
				c.Check(temps <= len(src.tempErr), "the temporary failures of the source (%d) are reported more than once each", len(src.tempErr))
			case errors.Is(err, io.EOF):
				return got, temps
			default:
				c.Failf("error %v, which is not of the source", err)
			}
		}
		c.Failf("reading does not end: %d bytes of %d after %d temporary failures", len(got), len(want), temps)
		return nil, 0
	}
	if buffered {
		got, temps := read(mpegts.NewBufferedReader(src), 1<<30)
		c.Check(bytes.Equal(got, want), "got %d bytes, want %d", len(got), len(want))
		c.Check(temps == len(src.tempErr), "%d failures reported, the source failed %d times", temps, len(src.tempErr))
	} else {
		rr := &rewindablereader.Reader{R: src}
		first, t1 := read(rr, r.IntN(len(want)+1))
		c.Check(bytes.HasPrefix(want, first), "bytes before rewind differ from the source")
		rr.Rewind()
		buf := make([]byte, 2000)
		var got []byte
		t2, ended := 0, false
		for range 10 * (len(want) + n + 10) {
			m, err := rr.Read(buf[:1+r.IntN(2000)])
			got = append(got, buf[:m]...)
			if err != nil && !errors.Is(err, errTemp) {
				c.Check(errors.Is(err, io.EOF), "error %v after rewind", err)
				ended = true
				break
			}
			if err != nil {
				t2++
			}
		}
		c.Check(ended, "reading does not end after rewind")
		c.Check(bytes.Equal(got, want), "bytes after rewind differ from the source: got %d, want %d", len(got), len(want))
		c.Check(t1+t2 >= len(src.tempErr), "%d+%d failures reported, the source failed %d times", t1, t2, len(src.tempErr))
	}
	c.Count("temporary_failures", len(src.tempErr))
	c.Distinct("temp", want, len(src.tempErr))
}

func c24Buffered(c *Case) {
	r := c.R
	src := &dgramReader{err: pick(r, io.EOF, errSource), errWith: r.IntN(3) == 0}
	var want []byte
	badAt := -1
	for i := range r.IntN(20) {
		n := 188 * (1 + r.IntN(7))
		if badAt < 0 && r.IntN(15) == 0 {
			n += 1 + r.IntN(187)
			if n > 1500 {
				n = 187
			}
			badAt = i
		}
		b := randBytes(r, n)
		src.list = append(src.list, b)
		if badAt < 0 {
			want = append(want, b...)
		}
	}
	br := mpegts.NewBufferedReader(src)
	var got []byte
	buf := make([]byte, 2000)
	for {
		k := 1 + r.IntN(400)
		if r.IntN(3) == 0 {
			k = pick(r, 188, 1316, 1500, 2000)
		}
		n, err := br.Read(buf[:k])
		got = append(got, buf[:n]...)
		c.Check(len(got) <= len(want), "delivered more bytes than received")
		if err != nil {
			if badAt >= 0 {
				c.Count("bad_datagrams", 1)
			} else {
				c.Check(errors.Is(err, src.err), "error %v, want %v", err, src.err)
			}
			break
		}
	}
	c.Check(bytes.Equal(got, want), "got %d bytes, want %d (error returned with data: %v)", len(got), len(want), src.errWith)
	c.Count("datagrams", len(src.list))
	c.Distinct("buf", want)
}

// seqReader delivers bytes in pieces, then an error.
type seqReader struct {
	b    []byte
	err  error
	with bool // the error is returned with the last bytes
	next func() int
}

func (s *seqReader) Read(p []byte) (int, error) {
	n := copy(p[:min(len(p), s.next())], s.b)
	s.b = s.b[n:]
	if len(s.b) == 0 && (s.with || n == 0) {
		return n, s.err
	}
	return n, nil
}

func c25(c *Case) {
	r := c.R
	b := &seekablebuffer.Buffer{}
	var model []byte
	var pos int64
	var log []string
	nops := 1 + r.IntN(40)
	grew, over := 0, 0
	maxLen := pick(r, 8, 64, 1000, 5000)
	for range nops {
		switch k := r.IntN(10); {
		case k < 5:
			p := randBytes(r, r.IntN(maxLen))
			orig := clone(p)
			var n int
			var err error
			switch way := r.IntN(10); way {
			case 0:
				n, err = b.WriteString(string(p))
				log = append(log, fmt.Sprintf("ws%d", len(p)))
				c.Count("write_string", 1)
			case 1:
				p = randBytes(r, 1)
				orig = p
				err = b.WriteByte(p[0])
				n = 1
				log = append(log, "wb")
				c.Count("write_byte", 1)
			case 2:
				ch := rune(pick(r, r.IntN(0x80), r.IntN(0x800), r.IntN(0xD800), 0x10000+r.IntN(0x100000)))
				p = []byte(string(ch))
				orig = p
				n, err = b.WriteRune(ch)
				log = append(log, fmt.Sprintf("wr%d", len(p)))
				c.Count("write_rune", 1)
			case 3, 4:
				var src io.Reader = bytes.NewReader(p)
				var nn int64
				var fails error
				if r.IntN(3) == 0 { // a source that fails at its end, with or after its last bytes
					fails = errSource
					l := &seqReader{b: p, err: errSource, with: flip(r)}
					l.next = func() int { return 1 + r.IntN(len(p)+1) }
					src = l
					c.Count("failing_sources", 1)
				}
				switch r.IntN(4) {
				case 0:
					nn, err = b.ReadFrom(src)
				case 1: // uses WriteTo of the source
					nn, err = io.Copy(b, src)
				case 2: // uses ReadFrom of the destination
					nn, err = io.Copy(b, struct{ io.Reader }{src})
				default:
					k := r.IntN(len(p) + 1)
					nn, err = io.CopyN(b, struct{ io.Reader }{src}, int64(k))
					p, orig = p[:k], orig[:k]
					if err == nil { // the end has not been reached
						fails = nil
					}
				}
				if fails != nil {
					c.Check(errors.Is(err, fails), "%v: error of the source not returned: %v", log, err)
					err = nil
				}
				n = int(nn)
				log = append(log, fmt.Sprintf("rf%d", len(p)))
				c.Count("read_from", 1)
			default:
				n, err = b.Write(p)
				log = append(log, fmt.Sprintf("w%d", len(p)))
			}
			c.Check(err == nil && n == len(p), "%v: Write(%d) = %d, %v", log, len(p), n, err)
			c.Check(bytes.Equal(p, orig), "Write modified its input")
			end := pos + int64(len(p))
			if int64(len(model)) < end {
				if pos < int64(len(model)) && len(p) > 0 {
					over++
				}
				model = append(model, make([]byte, end-int64(len(model)))...)
				grew++
			}
			copy(model[pos:], p)
			pos = end
		case k < 9:
			whence := pick(r, io.SeekStart, io.SeekCurrent, io.SeekEnd)
			off := int64(r.IntN(2*maxLen)) - int64(maxLen)
			if r.IntN(3) == 0 {
				off = pick(r, 0, -pos, -int64(len(model)), int64(len(model)), 1, -1)
			}
			var np int64
			switch whence {
			case io.SeekStart:
				np = off
			case io.SeekCurrent:
				np = pos + off
			default:
				np = int64(len(model)) + off
			}
			log = append(log, fmt.Sprintf("s%d,%d", whence, off))
			got, err := b.Seek(off, whence)
			if np < 0 {
				c.Check(err != nil, "%v: seek to %d accepted", log, np)
				// position is unchanged
				c.Count("negative_seeks", 1)
				continue
			}
			c.Check(err == nil && got == np, "%v: Seek = %d, %v, want %d", log, got, err, np)
			pos = np
			// this buffer materialises gaps at seek time or at write time; both are
			// equivalent after the next write, and are compared at that point.
			if pos > int64(len(model)) {
				gap := make([]byte, pos-int64(len(model)))
				model = append(model, gap...)
				c.Count("seeks_beyond_end", 1)
			}
		default:
			if r.IntN(3) == 0 {
				b.Reset()
				model = nil
				pos = 0
				log = append(log, "reset")
				c.Count("resets", 1)
			}
		}
		c.Check(bytes.Equal(b.Bytes(), model), "%v: content differs: %d bytes, want %d", log, b.Len(), len(model))
		c.Check(b.Len() == len(model), "Len = %d want %d", b.Len(), len(model))
	}
	c.Count("ops", nops)
	c.Count("overlapping_writes", over)
	c.Distinct(model, len(log), pos)
	c.Sample("%v -> %d bytes", log, len(model))
}

func alawRef(e byte) int16 {
	// ITU-T G.711: toggle even bits, sign, exponent, mantissa; 13-bit value scaled to 16 bits.
	v := e ^ 0x55
	m := int(v & 15)
	ex := int(v>>4) & 7
	var x int
	if ex == 0 {
		x = m*16 + 8
	} else {
		x = (m*16 + 8 + 256) * (1 << (ex - 1))
	}
	if v&0x80 == 0 {
		x = -x
	}
	return int16(x)
}

func mulawRef(e byte) int16 {
	v := ^e
	m := int(v & 15)
	ex := int(v>>4) & 7
	x := (m*8+132)*(1<<ex) - 132
	if v&0x80 != 0 {
		x = -x
	}
	return int16(x)
}

type g711Codec struct {
	name   string
	ref    func(byte) int16
	dec    func([]byte) []byte
	dec2   func([]byte) []byte
	enc    func([]byte) ([]byte, error)
	maxErr int
}

var g711Codecs = []g711Codec{
	{"alaw", alawRef, func(b []byte) []byte { var l g711.Alaw; l.Unmarshal(b); return l },
		g711.DecodeAlaw, func(b []byte) ([]byte, error) { return g711.Alaw(b).Marshal() }, 0},
	{"mulaw", mulawRef, func(b []byte) []byte { var l g711.Mulaw; l.Unmarshal(b); return l },
		g711.DecodeMulaw, func(b []byte) ([]byte, error) { return g711.Mulaw(b).Marshal() }, 0},
}

func s16(b []byte) int16 { return int16(uint16(b[0])<<8 | uint16(b[1])) }

func c29Enum(c *Case) {
	cd := g711Codecs[c.Idx%2]
	var all []byte
	for i := range 256 {
		all = append(all, byte(i))
	}
	lp := cd.dec(all)
	c.Check(len(lp) == 512, "%s: decoded length %d", cd.name, len(lp))
	c.Check(bytes.Equal(cd.dec2(all), lp), "%s: deprecated decoder differs", cd.name)
	values := map[int16]bool{}
	var sorted []int
	for i := range 256 {
		v := s16(lp[2*i:])
		c.Check(v == cd.ref(byte(i)), "%s: octet %#x decodes to %d, want %d", cd.name, i, v, cd.ref(byte(i)))
		if !values[v] {
			sorted = append(sorted, int(v))
		}
		values[v] = true
		c.Count("octets", 1)
	}
	back, err := cd.enc(lp)
	c.NoErr(err, "encode")
	for i := range 256 {
		if back[i] != byte(i) {
			c.Check(cd.ref(back[i]) == cd.ref(byte(i)) && cd.ref(back[i]) == 0,
				"%s: decode-encode of %#x gives %#x", cd.name, i, back[i])
		}
	}
	// every sample value in one list
	in := make([]byte, 0, 131072)
	for s := -32768; s <= 32767; s++ {
		in = append(in, byte(uint16(s)>>8), byte(s))
	}
	orig := clone(in)
	enc, err := cd.enc(in)
	c.NoErr(err, "encode all")
	c.Check(len(enc) == 65536, "encoded length %d", len(enc))
	c.Check(bytes.Equal(in, orig), "input modified")
	worst := 0
	for i, e := range enc {
		s := i - 32768
		got := int(cd.ref(e))
		best := 1 << 30
		for _, v := range sorted {
			if d := abs(v - s); d < best {
				best = d
			}
		}
		d := abs(got - s)
		if d-best > worst {
			worst = d - best
		}
		c.Check(d-best <= g711Slack, "%s: sample %d encodes to %#x = %d, off by %d, nearest is off by %d", cd.name, s, e, got, d, best)
		// the samples of a group of 4 (14 bits) are encoded in the same way
		c.Check(e == enc[i&^3], "%s: samples %d and %d, equal at 14 bits, encode to %#x and %#x", cd.name, s, s&^3, e, enc[i&^3])
		if i > 0 {
			c.Check(int(cd.ref(enc[i-1])) <= got, "%s: encoding not monotonic at %d", cd.name, s)
		}
		c.Count("samples", 1)
	}
	c.Max("excess_error_"+cd.name, int64(worst))
	c.Distinct(cd.name)
	c.Sample("%s: 256 octets, 65536 samples, max excess over the nearest code value %d", cd.name, worst)
}

// g711Slack: samples are quantised to 14 bits before the table lookup, hence the
// chosen code is a nearest one for some sample within 3 units, which makes its error
// exceed the smallest one by at most 6.
const g711Slack = 6

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func c29Lists(c *Case) {
	r := c.R
	cd := g711Codecs[r.IntN(2)]
	b := randBytes(r, r.IntN(2000))
	orig := clone(b)
	c.Input("in", orig)
	lp := cd.dec(b)
	c.Check(len(lp) == 2*len(b), "%s: %d octets decode to %d bytes", cd.name, len(b), len(lp))
	for i := range b {
		c.Check(s16(lp[2*i:]) == cd.ref(b[i]), "%s: octet %d wrong", cd.name, i)
	}
	enc, err := cd.enc(b)
	if len(b)%2 == 1 {
		c.Check(err != nil, "%s: odd length %d accepted", cd.name, len(b))
		c.Count("odd", 1)
	} else {
		c.NoErr(err, "encode")
		c.Check(len(enc) == len(b)/2, "%s: %d bytes encode to %d octets", cd.name, len(b), len(enc))
		for i := range enc {
			one, err := cd.enc(b[2*i : 2*i+2])
			c.Check(err == nil && len(one) == 1 && one[0] == enc[i], "%s: sample %d of list encodes differently alone", cd.name, i)
		}
	}
	c.Check(bytes.Equal(b, orig), "input modified")
	c.Count("lists", 1)
	c.Distinct(cd.name, b)
}

func c30(c *Case) {
	r := c.R
	raw := sparseBytes(r, r.IntN(60))
	if r.IntN(10) == 0 {
		raw = payload(r, r.IntN(5000))
	}
	c30Check(c, raw)
}

func c30Check(c *Case, raw []byte) {
	esc := escape(raw)
	// a NAL unit which ends with two zeros is terminated by 0x03 (cabac_zero_words)
	in := clone(esc)
	c.Input("escaped", in)
	got := h264.EmulationPreventionRemove(in)
	c.Check(bytes.Equal(got, raw), "unescape(%x) = %x, want %x", esc, got, raw)
	c.Check(bytes.Equal(in, esc), "input modified")
	// no aliasing
	g2 := clone(got)
	for i := range in {
		in[i] ^= 0xFF
	}
	c.Check(bytes.Equal(got, g2), "result aliases the input")
	if len(raw) >= 2 {
		tail := append(clone(esc), 3)
		if n := len(esc); esc[n-1] == 0 && esc[n-2] == 0 {
			got = h264.EmulationPreventionRemove(tail)
			c.Check(bytes.Equal(got, raw), "unescape with final escape (%x) = %x, want %x", tail, got, raw)
			c.Count("final_escapes", 1)
		}
	}
	if len(esc) == len(raw) {
		c.Count("without_escapes", 1)
	} else {
		c.Count("with_escapes", 1)
		c.Count("escapes", len(esc)-len(raw))
		c.Distinct(raw)
	}
	c.Sample("raw=%s escaped=%s", hexShort(raw), hexShort(esc))
}

// all byte strings over {0,1,3,4} up to length 8.
func c30Enum(c *Case) {
	alpha := []byte{0, 1, 2, 3, 4}
	n := c.Idx + 1
	total := 1
	for range n {
		total *= 5
	}
	for v := range total {
		raw := make([]byte, n)
		x := v
		for i := range raw {
			raw[i] = alpha[x%5]
			x /= 5
		}
		c30Check(c, raw)
	}
	c.Eval(total)
}

func init() {
	register(&Property{
		ID:   "C22",
		Rule: "random op sequences (bits/flags/Exp-Golomb at any position, widths 0..64, boundary widths) and full (position,width) enumeration over buffers of 1..18 bytes, each compared with a bit-array model; non-trivial: a sequence with at least two successful operations, identified by buffer and final position",
		Families: []Family{
			{"read", 60000, 3000000, c22Read},
			{"write", 30000, 2000000, c22Write},
			{"enum", 90, 3000, c22Enum},
		},
		Require: []string{"reads", "writes", "golomb_ok", "golomb_signed_ok", "golomb_overflow", "not_enough", "enum_reads"},
	})
	register(&Property{
		ID:       "C23",
		Rule:     "sequences of up to 200 timestamps with steps up to half the 33-bit period in both directions, compared with an unbounded counter; distinct by (base, final value, length)",
		Families: []Family{{"steps", 20000, 1000000, c23}},
		Require:  []string{"timestamps", "wraps"},
	})
	register(&Property{
		ID:   "C24",
		Rule: "random read sizes, short and empty reads, errors with and after data, sizes around the 1 MiB record limit; distinct by content and read pattern",
		Families: []Family{
			{"rewind", 4000, 200000, c24Rewind},
			{"buffered", 4000, 200000, c24Buffered},
			{"temporary", 4000, 200000, c24Temporary},
		},
		Require: []string{"rewinds", "over_limit", "datagrams", "bad_datagrams", "temporary_failures"},
	})
	register(&Property{
		ID:       "C25",
		Rule:     "random write/seek/reset sequences compared with a byte-slice file model after every operation; distinct by final content and history length",
		Families: []Family{{"ops", 30000, 2000000, c25}},
		Require:  []string{"ops", "overlapping_writes", "seeks_beyond_end", "negative_seeks", "resets", "write_string", "write_byte", "write_rune", "read_from"},
	})
	register(&Property{
		ID:   "C29",
		Rule: "all 256 octets and all 65536 samples of both laws (complete enumeration) plus random lists; distinct by content",
		Families: []Family{
			{"enum", 2, 2, c29Enum},
			{"lists", 2000, 100000, c29Lists},
		},
		Require: []string{"octets", "samples", "odd"},
	})
	register(&Property{
		ID:   "C30",
		Rule: "all strings over {0,1,2,3,4} up to length 7 (thorough: 9) plus random zero-dense strings, escaped by a reference escaper; non-trivial: at least one escape inserted",
		Families: []Family{
			{"enum", 7, 9, c30Enum},
			{"random", 60000, 5000000, c30},
		},
		Require: []string{"with_escapes", "without_escapes", "final_escapes"},
	})
}
