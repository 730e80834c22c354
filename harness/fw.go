// Package main is the runtime-monitoring harness: it drives the real mediacommon
// code (the current tree of /repo) with generated workloads while monitors watch
// what it does. See /verif/DESIGN.md.
package main

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime/debug"
	"sort"
	"strings"
)

// Family is a deterministic, indexable list of cases.
type Family struct {
	Name     string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Run      func(c *Case)
}

// Property groups the families which decide one property.
type Property struct {
	ID          string
	Level       string
	Rule        string
	Families    []Family
	Assumptions []string
	// Require lists the event counters which must be non-zero, otherwise the run
	// observed nothing and is inconclusive.
	Require    []string
	Exhaustive bool
}

var properties = map[string]*Property{}

func register(p *Property) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	properties[p.ID] = p
}

func propertyIDs() []string {
	var ids []string
	for id := range properties {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Violation is what a failed oracle reports.
type Violation struct {
	Property string            `json:"property"`
	Family   string            `json:"family"`
	Index    int               `json:"index"`
	Seed     int64             `json:"seed"`
	Tier     string            `json:"tier"`
	Key      string            `json:"key,omitempty"`
	Message  string            `json:"message"`
	Inputs   map[string]string `json:"inputs,omitempty"`
	Stack    string            `json:"stack,omitempty"`
}

type failure struct {
	key string
	msg string
}

type known struct {
	key string
	msg string
}

// Case is one execution of the code under test plus its oracle.
type Case struct {
	R    *rand.Rand
	Fam  string
	Idx  int
	N    int // number of cases in the family
	Tier string

	shard  *Shard
	inputs map[string][]byte
	notes  []string
}

// Failf reports a violation and stops the case.
func (c *Case) Failf(format string, args ...any) {
	panic(failure{msg: fmt.Sprintf(format, args...)})
}

// FailKeyf reports a violation identified by a specific key (input or call site).
// If the key is listed in known_findings.json, the violation is a known finding.
func (c *Case) FailKeyf(key string, format string, args ...any) {
	panic(failure{key: key, msg: fmt.Sprintf(format, args...)})
}

// Check fails the case if cond is false.
func (c *Case) Check(cond bool, format string, args ...any) {
	if !cond {
		c.Failf(format, args...)
	}
}

// NoErr fails the case if err is not nil.
func (c *Case) NoErr(err error, what string) {
	if err != nil {
		c.Failf("%s: unexpected error: %v", what, err)
	}
}

// Input attaches bytes to the case; they are written in the replay file.
func (c *Case) Input(name string, b []byte) {
	if c.inputs == nil {
		c.inputs = map[string][]byte{}
	}
	c.inputs[name] = b
}

// Notef attaches a note, written in the replay file and in samples.
func (c *Case) Notef(format string, args ...any) {
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
}

// Count adds to an event counter.
func (c *Case) Count(event string, n int) {
	c.shard.counters[event] += int64(n)
}

// Max keeps the maximum of a gauge.
func (c *Case) Max(gauge string, n int64) {
	if c.shard.maxima[gauge] < n {
		c.shard.maxima[gauge] = n
	}
}

// Eval adds to the number of evaluated cases (the case itself counts one).
func (c *Case) Eval(n int) {
	c.shard.evals += int64(n)
}

// Distinct records a non-trivial case, identified by parts.
func (c *Case) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			fmt.Fprintf(h, "%d:", len(v))
			h.Write(v)
		case [][]byte:
			fmt.Fprintf(h, "[%d:", len(v))
			for _, x := range v {
				fmt.Fprintf(h, "%d:", len(x))
				h.Write(x)
			}
		case string:
			fmt.Fprintf(h, "%d:%s", len(v), v)
		default:
			fmt.Fprintf(h, "%v|", v)
		}
	}
	if len(c.shard.distinct) < maxDistinct {
		c.shard.distinct[h.Sum64()] = struct{}{}
	}
}

// Sample records a readable description of the case (a few are kept).
func (c *Case) Sample(format string, args ...any) {
	if c.shard.sampleCount[c.Fam] < 2 {
		c.shard.sampleCount[c.Fam]++
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.shard.samples = append(c.shard.samples, fmt.Sprintf("%s[%d]: %s", c.Fam, c.Idx, s))
	}
}

// Protect runs f and converts a panic of the code under test into a violation message.
func (c *Case) Protect(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failure); ok {
				panic(r)
			}
			panic(failure{msg: fmt.Sprintf("%s panicked: %v\n%s", what, r, trimStack(debug.Stack()))})
		}
	}()
	f()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "mediacommon") ||
			strings.Contains(l, "go-mp4") || strings.Contains(l, "astits") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func hexShort(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:48]), len(b))
	}
	return hex.EncodeToString(b)
}

func hexList(l [][]byte) string {
	var s []string
	for i, b := range l {
		if i > 8 {
			s = append(s, fmt.Sprintf("...(%d)", len(l)))
			break
		}
		s = append(s, hexShort(b))
	}
	return "[" + strings.Join(s, " ") + "]"
}
