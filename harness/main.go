package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	maxDistinct = 400000

	// a single case normally takes milliseconds of CPU time; CPU time of the process
	// (not wall-clock) is what decides that a call does not terminate.
	cpuLimitPerCase = 60 * time.Second
	// heap in use above which a case is considered to exhaust memory; no workload of
	// this harness needs more than a few hundred megabytes.
	heapLimit = 2500 << 20
	// generous wall-clock watchdog: firing is inconclusive.
	wallLimit = 800 * time.Second
)

// Shard is the state of a worker process.
type Shard struct {
	prop        *Property
	tier        string
	seed        int64
	counters    map[string]int64
	maxima      map[string]int64
	evals       int64
	distinct    map[uint64]struct{}
	samples     []string
	sampleCount map[string]int
	violations  []*Violation
	known       map[string]string
}

type shardResult struct {
	Counters   map[string]int64
	Maxima     map[string]int64
	Evals      int64
	Distinct   []uint64
	Samples    []string
	Violations []*Violation
}

func familySize(f *Family, tier string) int {
	if tier == "thorough" {
		return f.Thorough
	}
	return f.Quick
}

func caseRand(seed int64, prop, fam string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, fam, idx)
	a := h.Sum64()
	h.Write([]byte{1})
	return rand.New(rand.NewPCG(a, h.Sum64()))
}

func (s *Shard) runCase(f *Family, idx int) (v *Violation) {
	c := &Case{
		R: caseRand(s.seed, s.prop.ID, f.Name, idx), Fam: f.Name, Idx: idx,
		N: familySize(f, s.tier), Tier: s.tier, shard: s,
	}
	s.evals++
	defer func() {
		if r := recover(); r != nil {
			v = &Violation{
				Property: s.prop.ID, Family: f.Name, Index: idx, Seed: s.seed, Tier: s.tier,
				Inputs: map[string]string{},
			}
			for k, b := range c.inputs {
				if len(b) > 1<<20 {
					b = b[:1<<20]
				}
				v.Inputs[k] = hex.EncodeToString(b)
			}
			if fl, ok := r.(failure); ok {
				v.Key = fl.key
				v.Message = fl.msg
			} else {
				v.Message = fmt.Sprintf("panic: %v", r)
				v.Stack = string(debug.Stack())
			}
			for _, n := range c.notes {
				v.Message += "\nnote: " + n
			}
		}
	}()
	f.Run(c)
	return nil
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru) //nolint:errcheck
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (s *Shard) result() *shardResult {
	r := &shardResult{
		Counters: s.counters, Maxima: s.maxima, Evals: s.evals, Samples: s.samples,
		Violations: s.violations,
	}
	for h := range s.distinct {
		r.Distinct = append(r.Distinct, h)
	}
	return r
}

func newShard(p *Property, tier string, seed int64, known map[string]string) *Shard {
	return &Shard{
		prop: p, tier: tier, seed: seed,
		counters: map[string]int64{}, maxima: map[string]int64{},
		distinct: map[uint64]struct{}{}, sampleCount: map[string]int{}, known: known,
	}
}

func childMain(p *Property, tier string, seed int64, shard, shards int, outPath, curPath string,
	known map[string]string,
) {
	s := newShard(p, tier, seed, known)
	cur, err := os.OpenFile(curPath, os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(7)
	}

	var caseNo atomic.Int64
	var curFam atomic.Value
	curFam.Store("")
	var curIdx atomic.Int64

	writeOut := func(res *shardResult) {
		b, _ := json.Marshal(res)
		os.WriteFile(outPath, b, 0o600) //nolint:errcheck
	}

	go func() {
		last := int64(-1)
		start := cpuTime()
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(25 * time.Millisecond)
			n := caseNo.Load()
			if n != last {
				last = n
				start = cpuTime()
			}
			report := func(msg string) {
				writeOut(&shardResult{Violations: []*Violation{{
					Property: p.ID, Family: curFam.Load().(string), Index: int(curIdx.Load()),
					Seed: seed, Tier: tier, Message: msg,
				}}})
				os.Exit(9)
			}
			limit := cpuLimitPerCase
			if p.ID == "C27" { // many cases at once, under the race detector
				limit *= 10
			}
			if d := cpuTime() - start; d > limit {
				report(fmt.Sprintf("a single case consumed %v of CPU time without returning", d))
			}
			metrics.Read(sample)
			if h := sample[0].Value.Uint64(); h > heapLimit {
				report(fmt.Sprintf("heap grew to %d bytes during a single case", h))
			}
		}
	}()

	knownSeen := map[string]int{}
	var buf [128]byte
	for fi := range p.Families {
		f := &p.Families[fi]
		n := familySize(f, tier)
		failed := 0
		for i := shard; i < n; i += shards {
			m := copy(buf[8:], f.Name)
			binary.BigEndian.PutUint32(buf[0:], uint32(i))
			binary.BigEndian.PutUint32(buf[4:], uint32(m))
			cur.WriteAt(buf[:], 0) //nolint:errcheck
			curFam.Store(f.Name)
			curIdx.Store(int64(i))
			caseNo.Add(1)
			if v := s.runCase(f, i); v != nil {
				// listed findings do not end a family, or they would hide other violations.
				if _, ok := known[v.Key]; ok && v.Key != "" {
					knownSeen[v.Key]++
					if knownSeen[v.Key] <= 20 {
						s.violations = append(s.violations, v)
					}
					continue
				}
				s.violations = append(s.violations, v)
				failed++
				if failed >= 20 {
					break
				}
			}
		}
	}
	writeOut(s.result())
	os.Exit(0)
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func loadKnown(root string) knownFile {
	var kf knownFile
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(3)
		}
	}
	return kf
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func main() {
	var (
		propID  = flag.String("prop", "", "property")
		tier    = flag.String("tier", "quick", "tier")
		seed    = flag.Int64("seed", 1, "seed")
		root    = flag.String("root", "/verif", "root")
		shards  = flag.Int("shards", 8, "worker processes")
		child   = flag.Int("child", -1, "shard index (internal)")
		out     = flag.String("out", "", "result file (internal)")
		curp    = flag.String("cur", "", "current case file (internal)")
		replay  = flag.String("case", "", "replay a single case, family:index")
		list    = flag.Bool("list", false, "list properties")
		only    = flag.String("only", "", "run a single family (for development)")
		raceLog = flag.String("racelog", "", "prefix of race detector logs")
	)
	flag.Parse()

	if *list {
		for _, id := range propertyIDs() {
			fmt.Println(id)
		}
		return
	}

	p := properties[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(3)
	}

	if *only != "" {
		var l []Family
		for _, f := range p.Families {
			if f.Name == *only {
				l = append(l, f)
			}
		}
		p.Families = l
		p.Require = nil
		os.Setenv("VERIF_ONLY", *only) //nolint:errcheck
	} else if o := os.Getenv("VERIF_ONLY"); o != "" && *child >= 0 {
		for _, f := range p.Families {
			if f.Name == o {
				p.Families = []Family{f}
				break
			}
		}
	}

	kf := loadKnown(*root)
	knownKeys := map[string]string{}
	for _, k := range kf.Findings {
		if k.Property == p.ID {
			knownKeys[k.Key] = k.What
		}
	}

	if *child >= 0 {
		childMain(p, *tier, *seed, *child, *shards, *out, *curp, knownKeys)
		return
	}

	if *replay != "" {
		i := strings.LastIndex(*replay, ":")
		var idx int
		fmt.Sscanf((*replay)[i+1:], "%d", &idx) //nolint:errcheck
		for fi := range p.Families {
			if p.Families[fi].Name == (*replay)[:i] {
				s := newShard(p, *tier, *seed, nil)
				if v := s.runCase(&p.Families[fi], idx); v != nil {
					fmt.Printf("REPRODUCED key=%q\n%s\n%s\n", v.Key, v.Message, v.Stack)
					for k, x := range v.Inputs {
						fmt.Printf("input %s = %.4000s\n", k, x)
					}
					os.Exit(1)
				}
				fmt.Println("no violation", s.counters)
				return
			}
		}
		fmt.Fprintln(os.Stderr, "unknown family")
		os.Exit(3)
	}

	os.Exit(parentMain(p, *tier, *seed, *root, *shards, knownKeys, *raceLog))
}

func parentMain(p *Property, tier string, seed int64, root string, shards int,
	knownKeys map[string]string, raceLog string,
) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)

	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}

	results := make([]*shardResult, shards)
	crash := make([]*Violation, shards)
	inconclusive := make([]string, shards)
	var wg sync.WaitGroup

	for k := range shards {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outPath := filepath.Join(tmp, fmt.Sprintf("out%d.json", k))
			curPath := filepath.Join(tmp, fmt.Sprintf("cur%d", k))
			cmd := exec.Command(self, "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
				"-root", root, "-shards", fmt.Sprint(shards), "-child", fmt.Sprint(k), "-out", outPath, "-cur", curPath)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
			if p.ID == "C27" {
				cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
			}
			if raceLog != "" {
				cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog)
			}
			stderr := &tailBuffer{}
			cmd.Stderr = stderr
			cmd.Stdout = io.Discard
			if err := cmd.Start(); err != nil {
				inconclusive[k] = err.Error()
				return
			}
			var killed atomic.Bool
			limit := wallLimit
			if tier == "thorough" {
				limit *= 20
			}
			timer := time.AfterFunc(limit, func() {
				killed.Store(true)
				cmd.Process.Kill() //nolint:errcheck
			})
			err := cmd.Wait()
			timer.Stop()

			b, rerr := os.ReadFile(outPath)
			if rerr == nil {
				var r shardResult
				if json.Unmarshal(b, &r) == nil {
					results[k] = &r
					return
				}
			}
			if killed.Load() {
				inconclusive[k] = "wall-clock watchdog fired (inconclusive)"
				return
			}
			fam, idx := readCur(curPath)
			msg := stderr.String()
			if fam == "" {
				inconclusive[k] = fmt.Sprintf("worker failed to start: %v: %s", err, msg)
				return
			}
			if strings.Contains(err.Error(), "killed") {
				// ended from outside: memory is watched by the worker itself, which is
				// faster; do not turn an external kill into a verdict.
				inconclusive[k] = fmt.Sprintf("worker killed from outside in %s:%d", fam, idx)
				return
			}
			crash[k] = &Violation{
				Property: p.ID, Family: fam, Index: idx, Seed: seed, Tier: tier,
				Message: fmt.Sprintf("worker process crashed (%v): %s", err, msg),
			}
		}()
	}
	wg.Wait()

	counters := map[string]int64{}
	maxima := map[string]int64{}
	distinct := map[uint64]struct{}{}
	var evals int64
	var samples []any
	var violations []*Violation

	for k := range shards {
		if crash[k] != nil {
			violations = append(violations, crash[k])
		}
		r := results[k]
		if r == nil {
			continue
		}
		for n, v := range r.Counters {
			counters[n] += v
		}
		for n, v := range r.Maxima {
			if v > maxima[n] {
				maxima[n] = v
			}
		}
		evals += r.Evals
		for _, h := range r.Distinct {
			distinct[h] = struct{}{}
		}
		for _, s := range r.Samples {
			if len(samples) < 12 {
				samples = append(samples, s)
			}
		}
		violations = append(violations, r.Violations...)
	}

	if raceLog != "" {
		logs, _ := filepath.Glob(raceLog + ".*")
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			n := bytes.Count(b, []byte("WARNING: DATA RACE"))
			counters["race_reports"] += int64(n)
			if n > 0 {
				txt := string(b)
				if len(txt) > 6000 {
					txt = txt[:6000]
				}
				violations = append(violations, &Violation{
					Property: p.ID, Family: "race", Seed: seed, Tier: tier,
					Message: "data race detected:\n" + txt,
				})
			}
		}
	}

	replayDir := filepath.Join(root, "evidence", "replays")
	os.MkdirAll(replayDir, 0o755) //nolint:errcheck

	seenKnown := map[string]bool{}
	nviol := 0
	printed := map[string]bool{}
	for _, v := range violations {
		if v.Key != "" {
			if what, ok := knownKeys[v.Key]; ok {
				if !seenKnown[v.Key] {
					seenKnown[v.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
				}
				continue
			}
		}
		nviol++
		if nviol > 10 {
			continue
		}
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", p.ID, sanitize(v.Family), v.Index))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0o644) //nolint:errcheck
		if printed[path] {
			continue
		}
		printed[path] = true
		first := v.Message
		if i := strings.IndexByte(first, '\n'); i >= 0 {
			first = first[:i]
		}
		if len(first) > 400 {
			first = first[:400]
		}
		fmt.Printf("%s:%d: %s\n", v.Family, v.Index, first)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}

	fams := map[string]int{}
	for i := range p.Families {
		fams[p.Families[i].Name] = familySize(&p.Families[i], tier)
	}

	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             samples,
		"families":            fams,
		"events":              counters,
	}
	if len(maxima) > 0 {
		cov["maxima"] = maxima
	}
	if p.Exhaustive {
		cov["exhaustive"] = true
	}
	if samples == nil {
		cov["samples"] = []any{}
	}

	ev := evidence{
		Property: p.ID, Tier: tier, Seed: seed, Level: p.Level, Coverage: cov,
		Assumptions: p.Assumptions, WallS: time.Since(start).Seconds(), Violations: nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}

	if nviol > 0 {
		return 1
	}

	for k := range shards {
		if inconclusive[k] != "" {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE shard %d: %s\n", k, inconclusive[k])
			return 2
		}
	}
	for _, ev := range p.Require {
		if counters[ev] == 0 {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE: event %q was never observed\n", ev)
			return 2
		}
	}

	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n",
		p.ID, tier, evals, len(distinct), time.Since(start).Seconds())
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func readCur(path string) (string, int) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return "", 0
	}
	idx := int(binary.BigEndian.Uint32(b))
	n := int(binary.BigEndian.Uint32(b[4:]))
	if 8+n > len(b) {
		return "", 0
	}
	return string(b[8 : 8+n]), idx
}

// tailBuffer keeps the first 4 KiB and drops the rest.
type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if len(t.b) < 4096 {
		t.b = append(t.b, p[:min(len(p), 4096-len(t.b))]...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string { return string(t.b) }
