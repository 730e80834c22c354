package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// C27: independent objects can be used from different goroutines.
//
// The jobs are the cases of the other properties: each of them is a deterministic use of
// some objects of the library. They are run alone, then many at a time under the race
// detector, and have to end in the same way.

type raceJob struct {
	p   *Property
	f   *Family
	idx int
}

// families that measure the memory of the process, that take too much time or memory
// under the race detector.
var raceExcluded = map[string]bool{
	"C04/codec": true, "C04/codec-large": true, "C04/mp4": true, "C04/amplify": true, "C04/limits": true,
	"C12/huge": true, "C11/big": true, "C01/large": true, "C02/large": true, "C03/large": true, "C05/large": true, "C05/long": true,
	"C05/cells": true, "C07/cells": true, "C12/long": true,
	"C10/wide": true, "C11/wide": true, "C12/wide": true,
	"C05/unbounded": true, "C07/long": true, "C01/short": true, "C29/enum": true, "C30/enum": true, "C09/writer": true, "C09/reader": true,
	"C13/write": true, "C13/preswrite": true, "C13/initread": true, "C13/presread": true,
}

func raceFamilies() []raceJob {
	var l []raceJob
	for _, id := range propertyIDs() {
		if id == "C27" {
			continue
		}
		p := properties[id]
		for i := range p.Families {
			f := &p.Families[i]
			if !raceExcluded[id+"/"+f.Name] {
				l = append(l, raceJob{p: p, f: f})
			}
		}
	}
	return l
}

func (j raceJob) run(seed int64) string {
	s := newShard(j.p, "quick", seed, nil)
	v := s.runCase(j.f, j.idx)
	h := fnv.New64a()
	var l []string
	for k, n := range s.counters {
		l = append(l, fmt.Sprintf("%s=%d", k, n))
	}
	for k, n := range s.maxima {
		l = append(l, fmt.Sprintf("%s<%d", k, n))
	}
	for k := range s.distinct {
		l = append(l, fmt.Sprintf("%x", k))
	}
	sort.Strings(l)
	fmt.Fprint(h, l, s.samples, s.evals)
	if v != nil {
		return fmt.Sprintf("violation %s %.200s", v.Key, strings.SplitN(v.Message, "\n", 2)[0])
	}
	return fmt.Sprintf("%x", h.Sum64())
}

// together runs functions at the same time, in the given number of goroutines.
func together(r *rand.Rand, workers int, jobs []func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	next := make(chan int, len(jobs))
	for _, k := range r.Perm(len(jobs)) {
		next <- k
	}
	close(next)
	for range workers {
		yields := r.IntN(3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := range next {
				for range yields {
					runtime.Gosched()
				}
				jobs[k]()
			}
		}()
	}
	close(start)
	wg.Wait()
}

func raceRun(c *Case, jobs []raceJob) {
	r := c.R
	seed := int64(r.Uint64() >> 1)
	got := make([]string, len(jobs))
	var fs []func()
	for k, j := range jobs {
		fs = append(fs, func() { got[k] = j.run(seed) })
	}
	workers := 2 + r.IntN(15)
	// together first: what is initialized by the first use must not be so before.
	together(r, workers, fs)
	want := make([]string, len(jobs))
	for k, j := range jobs {
		want[k] = j.run(seed)
	}
	for k, j := range jobs {
		c.Eval(1)
		c.Distinct(j.p.ID, j.f.Name, j.idx, seed)
		if got[k] != want[k] {
			if again := j.run(seed); again != want[k] {
				c.Count("not_repeatable", 1)
				continue
			}
			c.Failf("%s %s:%d (seed %d) ends with %q alone and with %q next to others", j.p.ID, j.f.Name, j.idx, seed, want[k], got[k])
		}
		c.Count("jobs:"+j.p.ID, 1)
	}
	c.Count("jobs", len(jobs))
	c.Max("workers", int64(workers))
}

// c27Mixed: jobs of any kind next to each other.
func c27Mixed(c *Case) {
	fams := raceFamilies()
	var jobs []raceJob
	for range 24 {
		j := fams[c.R.IntN(len(fams))]
		j.idx = c.R.IntN(max(1, j.f.Quick))
		jobs = append(jobs, j)
	}
	raceRun(c, jobs)
	c.Sample("%d jobs, the first is %s/%s:%d", len(jobs), jobs[0].p.ID, jobs[0].f.Name, jobs[0].idx)
}

// c27Cold: one job of each kind, run by three goroutines at the same time, each in its
// own copy, before the process has done anything else: whatever is initialized by its first
// use is then used for the first time by more than one goroutine.
func c27Cold(c *Case) {
	fams := raceFamilies()
	seed := int64(c.R.Uint64() >> 1)
	for _, k := range c.R.Perm(len(fams)) {
		j := fams[k]
		j.idx = c.R.IntN(max(1, j.f.Quick))
		got := make([]string, 3)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[g] = j.run(seed)
			}()
		}
		close(start)
		wg.Wait()
		want := j.run(seed)
		c.Eval(1)
		for _, x := range got {
			if x != want {
				if again := j.run(seed); again != want {
					c.Count("not_repeatable", 1)
					continue
				}
				c.Failf("%s %s:%d (seed %d) ends with %q alone and with %q next to others", j.p.ID, j.f.Name, j.idx, seed, want, x)
			}
		}
		c.Count("cold", 1)
	}
}

// c27Same: jobs that do the same things, with different data or with the same data.
func c27Same(c *Case) {
	fams := raceFamilies()
	fam := fams[c.Idx%len(fams)]
	var jobs []raceJob
	for range 12 {
		j := fam
		j.idx = c.R.IntN(max(1, j.f.Quick))
		jobs = append(jobs, j)
		if flip(c.R) {
			jobs = append(jobs, j)
		}
	}
	raceRun(c, jobs)
	c.Sample("%d jobs of %s/%s", len(jobs), fam.p.ID, fam.f.Name)
}

// c27Parsers: parsers that read the same bytes, then use and write back what they got.
func c27Parsers(c *Case) {
	r := c.R
	ps := []*totalParser{totalParsers[c.Idx%len(totalParsers)]}
	for range r.IntN(4) {
		ps = append(ps, totalParsers[r.IntN(len(totalParsers))])
	}
	var fs []func()
	var jobs []func() string
	for _, p := range ps {
		b := p.seed(r)
		if r.IntN(4) == 0 {
			b = bitSplice(r, b)
		}
		c.Distinct(p.name, b)
		for range 2 + r.IntN(5) {
			jobs = append(jobs, func() string {
				v, err := p.parse(b)
				if err != nil {
					return fmt.Sprint("error ", err)
				}
				if p.use != nil {
					p.use(v)
				}
				out := fmt.Sprintf("%+v", deref(v))
				if p.marshal != nil {
					m, err := p.marshal(v)
					out += fmt.Sprintf("%x %v", m, err)
				}
				return scrubPointers(out)
			})
		}
	}
	want := make([]string, len(jobs))
	got := make([]string, len(jobs))
	for k, j := range jobs {
		fs = append(fs, func() {
			defer func() {
				if e := recover(); e != nil {
					got[k] = fmt.Sprint("panic ", e)
				}
			}()
			got[k] = j()
		})
	}
	together(r, 2+r.IntN(7), fs)
	for k, j := range jobs {
		c.Protect("parser", func() { want[k] = j() })
		c.Eval(1)
		c.Check(got[k] == want[k], "the result is %.300s alone and %.300s next to others", want[k], got[k])
	}
	c.Count("parsers", len(jobs))
}

// scrubPointers removes addresses printed by %+v.
func scrubPointers(s string) string {
	for {
		i := strings.Index(s, "0xc0")
		if i < 0 {
			return s
		}
		e := i + 2
		for e < len(s) && strings.IndexByte("0123456789abcdef", s[e]) >= 0 {
			e++
		}
		s = s[:i] + "&" + s[e:]
	}
}

// c27Shared: readers of the same bytes and writers of the same payloads, with distinct objects.
func c27Shared(c *Case) {
	r := c.R
	h := &tsHistory{}
	n := 1 + r.IntN(4)
	for range n {
		h.tracks = append(h.tracks, genTSTrack(r, tsKinds[r.IntN(len(tsKinds))]))
	}
	g := genPresentation(r, r.IntN(codecKinds))
	var pres bytes.Buffer
	c.NoErr(g.p.Marshal(&pres), "Presentation.Marshal")
	i, _ := genInit(r, r.IntN(codecKinds))
	initBuf, err := marshalInit(*i, true)
	c.NoErr(err, "Init.Marshal")
	ps := genParts(r, false)
	var parts memFile
	c.NoErr(ps.Marshal(&parts), "Parts.Marshal")
	type unit struct {
		trk   int
		units [][]byte
		pts   int64
	}
	var units []unit
	pts := int64(r.Uint64() >> 35)
	for k := range n + r.IntN(20) {
		trk := k
		if k >= n {
			trk = r.IntN(n)
		}
		pts += 1 + r.Int64N(10000)
		units = append(units, unit{trk, h.tracks[trk].gen(r, 1+r.IntN(1000)), pts})
	}
	ts := func() ([]byte, error) {
		var out bytes.Buffer
		var trs []*mpegts.Track
		for _, t := range h.tracks { // the codec and the units are shared
			trs = append(trs, &mpegts.Track{PID: t.track.PID, Language: t.track.Language, Codec: t.track.Codec})
		}
		w := &mpegts.Writer{W: &out, Tracks: trs}
		if err := w.Initialize(); err != nil {
			return nil, err
		}
		for _, u := range units {
			t := &tsTrack{kind: h.tracks[u.trk].kind, track: trs[u.trk]}
			if err := t.write(w, &tsWrite{trk: u.trk, pts: u.pts, dts: u.pts, units: u.units}); err != nil {
				return nil, err
			}
		}
		return out.Bytes(), nil
	}
	stream, err := ts()
	c.NoErr(err, "mpegts.Writer")
	c.Distinct(stream, pres.Bytes(), initBuf, parts.b)
	jobs := []func() string{
		func() string { b, err := ts(); return fmt.Sprintf("%x %v", b, err) },
		func() string {
			rd := &mpegts.Reader{R: bytes.NewReader(stream)}
			if err := rd.Initialize(); err != nil {
				return err.Error()
			}
			o := ""
			for k, t := range rd.Tracks() {
				tsSubscribe(rd, t, func(pts, dts int64, l [][]byte) error {
					o += fmt.Sprintf("%d %d %d %x\n", k, pts, dts, l)
					return nil
				})
			}
			rd.OnDecodeError(func(err error) { o += err.Error() })
			for {
				if err := rd.Read(); err != nil {
					return o + err.Error()
				}
			}
		},
		func() string {
			var j fmp4.Init
			if err := j.Unmarshal(bytes.NewReader(initBuf)); err != nil {
				return err.Error()
			}
			b, err := marshalInit(j, true)
			return fmt.Sprintf("%x %v", b, err)
		},
		func() string { // tracks are distinct, codecs are shared
			j := fmp4.Init{UserData: i.UserData}
			for _, t := range i.Tracks {
				q := *t
				j.Tracks = append(j.Tracks, &q)
			}
			b, err := marshalInit(j, true)
			return fmt.Sprintf("%x %v", b, err)
		},
		func() string {
			var p fmp4.Parts
			if err := p.Unmarshal(parts.b); err != nil {
				return err.Error()
			}
			var m memFile
			err := p.Marshal(&m)
			return fmt.Sprintf("%x %v", m.b, err)
		},
		func() string { // payloads are shared
			var q fmp4.Parts
			for _, p := range ps {
				y := &fmp4.Part{SequenceNumber: p.SequenceNumber}
				for _, t := range p.Tracks {
					z := &fmp4.PartTrack{ID: t.ID, BaseTime: t.BaseTime}
					for _, s := range t.Samples {
						x := *s
						z.Samples = append(z.Samples, &x)
					}
					y.Tracks = append(y.Tracks, z)
				}
				q = append(q, y)
			}
			var m memFile
			err := q.Marshal(&m)
			return fmt.Sprintf("%x %v", m.b, err)
		},
		func() string {
			var p pmp4.Presentation
			if err := p.Unmarshal(bytes.NewReader(pres.Bytes())); err != nil {
				return err.Error()
			}
			var o bytes.Buffer
			err := p.Marshal(&o)
			return fmt.Sprintf("%x %v", o.Bytes(), err)
		},
		func() string { // payloads and codecs are shared
			var p pmp4.Presentation
			for k, t := range g.p.Tracks {
				q := &pmp4.Track{ID: t.ID, TimeScale: t.TimeScale, TimeOffset: t.TimeOffset, Codec: t.Codec}
				for i, s := range t.Samples {
					pl := g.payloads[k][i]
					q.Samples = append(q.Samples, &pmp4.Sample{
						Duration: s.Duration, PTSOffset: s.PTSOffset, IsNonSyncSample: s.IsNonSyncSample, PayloadSize: s.PayloadSize,
						GetPayload: func() ([]byte, error) { return pl, nil },
					})
				}
				p.Tracks = append(p.Tracks, q)
			}
			var o bytes.Buffer
			err := p.Marshal(&o)
			return fmt.Sprintf("%x %v", o.Bytes(), err)
		},
	}
	var fs []func()
	copies := 2 + r.IntN(3)
	got := make([]string, len(jobs)*copies)
	for x := range got {
		fs = append(fs, func() {
			defer func() {
				if e := recover(); e != nil {
					got[x] = fmt.Sprint("panic ", e)
				}
			}()
			got[x] = jobs[x%len(jobs)]()
		})
	}
	together(r, 2+r.IntN(15), fs)
	want := make([]string, len(jobs))
	for k, j := range jobs {
		c.Protect("job", func() { want[k] = j() })
	}
	for x := range got {
		c.Eval(1)
		c.Check(got[x] == want[x%len(jobs)], "job %d gives %.300s alone and %.300s next to others", x%len(jobs), want[x%len(jobs)], got[x])
	}
	c.Count("shared", len(got))
}

func init() {
	n := len(totalParsers)
	register(&Property{
		ID: "C27",
		Rule: "cases of the other properties, which create and use objects of every package, are run many at a time (2-16 goroutines) under the race detector, and then alone, and have to end in the same way; " +
			"parsers, readers and writers do the same with shared read-only inputs",
		Require: []string{"jobs", "cold", "parsers", "shared", "race_detector"},
		Families: []Family{
			{Name: "detector", Quick: 8, Thorough: 8, Run: func(c *Case) {
				c.Check(raceEnabled, "the harness has been built without race detector")
				c.Count("race_detector", 1)
			}},
			{Name: "cold", Quick: 8, Thorough: 200, Run: c27Cold},
			{Name: "same", Quick: 400, Thorough: 12000, Run: c27Same},
			{Name: "parsers", Quick: n * 40, Thorough: n * 2000, Run: c27Parsers},
			{Name: "shared", Quick: 300, Thorough: 12000, Run: c27Shared},
			{Name: "mixed", Quick: 150, Thorough: 8000, Run: c27Mixed},
		},
	})
}
