package zzverif

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
)

// Violation is a broken property: Sig names the kind of failure (stable, used
// for the known-findings list), Msg describes this very case.
type Violation struct {
	Sig string
	Msg string
}

func violf(sig, format string, args ...any) *Violation {
	return &Violation{Sig: sig, Msg: fmt.Sprintf(format, args...)}
}

// Ctx collects what a case did.
type Ctx struct {
	T          *testing.T
	nontrivial bool
	labels     []string
	atEnd      []func()
}

// AtEnd runs f after the case, once everything in the background is done.
func (c *Ctx) AtEnd(f func()) { c.atEnd = append(c.atEnd, f) }

func (c *Ctx) end() {
	for _, f := range c.atEnd {
		f()
	}
}

func (c *Ctx) NonTrivial()              { c.nontrivial = true }
func (c *Ctx) NonTrivialIf(b bool)      { c.nontrivial = c.nontrivial || b }
func (c *Ctx) Label(f string, a ...any) { c.labels = append(c.labels, fmt.Sprintf(f, a...)) }
func (c *Ctx) LabelIf(b bool, f string, a ...any) {
	if b {
		c.Label(f, a...)
	}
}

// Sub is one generated check belonging to a property.
type Sub struct {
	Prop     string
	Name     string
	Quick    int // cases in the quick tier (over all shards)
	Thorough int
	Bubble   bool
	Rule     string
	gen      func(*rapid.T) []byte
	exec     func(c *Ctx, plan []byte) *Violation
}

var registry []*Sub

// reg registers a check: gen draws a plan (pure data), exec runs it against
// the library and judges the outcome.
func reg[P any](
	prop, name string, quick, thorough int, rule string, gen func(*rapid.T) P, exec func(c *Ctx, p P) *Violation,
) *Sub {
	s := &Sub{
		Prop: prop, Name: name, Quick: quick, Thorough: thorough, Rule: rule,
		gen: func(t *rapid.T) []byte {
			p := gen(t)
			b, err := json.Marshal(p)
			if err != nil {
				panic(harnessErr{fmt.Sprintf("plan not serialisable: %v", err)})
			}
			return b
		},
		exec: func(c *Ctx, plan []byte) *Violation {
			var p P
			if err := json.Unmarshal(plan, &p); err != nil {
				panic(harnessErr{fmt.Sprintf("plan not deserialisable: %v", err)})
			}
			return exec(c, p)
		},
	}
	registry = append(registry, s)
	return s
}

// bubble makes the cases of the check run under a virtual clock.
func (s *Sub) bubble() *Sub { s.Bubble = true; return s }

type harnessErr struct{ msg string }

// skipCase is thrown when the library refuses an input this property needs but
// is not about; the property that is about it judges the refusal.
type skipCase struct{ why string }

type subResult struct {
	Name        string            `json:"name"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"distinct_nontrivial"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Known       map[string]int    `json:"known"`
	Violation   *violResult       `json:"violation,omitempty"`
	WallS       float64           `json:"wall_s"`
}
type violResult struct {
	Sig    string `json:"sig"`
	Msg    string `json:"msg"`
	Replay string `json:"replay"`
}
type runResult struct {
	Property string       `json:"property"`
	Subs     []*subResult `json:"subs"`
	Error    string       `json:"error,omitempty"`
}

type replayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Sig      string          `json:"sig,omitempty"`
	Msg      string          `json:"msg,omitempty"`
	Plan     json.RawMessage `json:"plan"`
}

var outDir = os.Getenv("VERIF_OUT")

func writeReplay(path string, s *Sub, plan []byte, v *Violation) {
	r := replayFile{Property: s.Prop, Sub: s.Name, Plan: plan}
	if v != nil {
		r.Sig, r.Msg = v.Sig, v.Msg
	}
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		panic(harnessErr{err.Error()})
	}
	if err = os.WriteFile(path, b, 0o644); err != nil {
		panic(harnessErr{err.Error()})
	}
}

// runCase executes one plan, with panics of the library turned into violations.
// A bubble counts as deadlocked also when it only waits for a mutex that is
// held by a goroutine outside of it, for instance the janitor of the built-in
// cache; if so, the mutex is free shortly after, and the case is run again.
func (s *Sub) runCase(t *testing.T, c *Ctx, plan []byte) (v *Violation) {
	for try := 1; ; try++ {
		v = s.tryCase(t, c, plan)
		if v == nil || v.Sig != "hang" || try == 4 {
			return v
		}
		time.Sleep(200 * time.Millisecond)
		if lockedForever() {
			return v
		}
		*c = Ctx{}
	}
}

// lockedForever says if a goroutine in a bubble waits for a mutex.
func lockedForever() bool {
	buf := make([]byte, 8<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "synctest bubble") && strings.Contains(head, "[sync.") && strings.Contains(head, "Mutex") {
			return true
		}
	}
	return false
}

func (s *Sub) tryCase(t *testing.T, c *Ctx, plan []byte) (v *Violation) {
	// every eighth case runs with debug logging
	if h := sha256.Sum256(plan); (h[0]%8 == 0) != logging {
		if logging = !logging; logging {
			oidfed.EnableDebugLogging()
		} else {
			oidfed.DisableDebugLogging()
		}
	}
	run := func(tt *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				if sk, ok := r.(skipCase); ok {
					c.nontrivial, v = false, nil
					c.Label("skipped: %s", sk.why)
					return
				}
				if he, ok := r.(harnessErr); ok {
					harnessFailure = "harness: " + he.msg + "\n" + string(debug.Stack())
					v = nil
					return
				}
				stack := string(debug.Stack())
				if !panicInLibrary(stack) {
					harnessFailure = fmt.Sprintf("panic in harness: %v\n%s", r, stack)
					return
				}
				v = violf("panic:"+panicSite(stack), "panic: %v\n%s", r, trimStack(stack))
			}
		}()
		c.T = tt
		v = s.exec(c, plan)
	}
	if s.Bubble {
		defer func() {
			// nothing in the bubble can ever go on
			if r := recover(); r != nil {
				if !strings.Contains(fmt.Sprint(r), "deadlock") {
					panic(r)
				}
				if v == nil && harnessFailure == "" {
					v = violf("hang", "%v", r)
				}
			}
		}()
		synctest.Test(
			t, func(tt *testing.T) {
				run(tt)
				time.Sleep(5 * time.Minute) // requests in the background
				synctest.Wait()
				c.end()
			},
		)
	} else {
		run(t)
		c.end()
	}
	return v
}

var harnessFailure string

var logging bool

func init() { log.SetOutput(io.Discard) }

func panicInLibrary(stack string) bool {
	// frames below the panic call, innermost first
	i := strings.Index(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "go-oidfed/lib/zzverif") {
			return false
		}
		if strings.HasPrefix(l, "github.com/go-oidfed/lib") {
			return true
		}
	}
	return false
}

func panicSite(stack string) string {
	i := strings.Index(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/go-oidfed/lib") && !strings.Contains(l, "zzverif") {
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return strings.TrimPrefix(l, "github.com/go-oidfed/lib")
		}
	}
	return "?"
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

func knownSigs() map[string]bool {
	m := map[string]bool{}
	for _, s := range strings.Split(os.Getenv("VERIF_KNOWN"), "\n") {
		if s = strings.TrimSpace(s); s != "" {
			m[s] = true
		}
	}
	return m
}

func TestVerif(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP not set")
	}
	if outDir == "" {
		t.Fatal("VERIF_OUT not set")
	}
	tier := os.Getenv("VERIF_TIER")
	shards, shard := 1, 0
	fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &shard, &shards)
	var seed uint64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	known := knownSigs()
	res := &runResult{Property: prop}
	defer func() {
		res.Error = harnessFailure
		b, _ := json.MarshalIndent(res, "", " ")
		if err := os.WriteFile(filepath.Join(outDir, "result.json"), b, 0o644); err != nil {
			t.Fatal(err)
		}
	}()
	// saved inputs first
	type saved struct {
		file string
		r    replayFile
	}
	var files []string
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		files = []string{rp}
	} else if shard == 0 {
		files, _ = filepath.Glob(filepath.Join(os.Getenv("VERIF_REGRESS"), prop, "*.json"))
		sort.Strings(files)
	}
	bySub := map[string][]saved{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var r replayFile
		if err = json.Unmarshal(b, &r); err != nil {
			t.Fatal(err)
		}
		bySub[r.Sub] = append(bySub[r.Sub], saved{f, r})
	}
	only := os.Getenv("VERIF_SUB")
	for _, s := range registry {
		if s.Prop != prop || (only != "" && s.Name != only) {
			continue
		}
		start := time.Now()
		sr := &subResult{Name: s.Name, Rule: s.Rule, Labels: map[string]int{}, Known: map[string]int{}}
		res.Subs = append(res.Subs, sr)
		distinct := map[[32]byte]bool{}
		current := filepath.Join(outDir, "current.json")
		one := func(tt *testing.T, plan []byte) *Violation {
			c := &Ctx{}
			writeReplay(current, s, plan, nil)
			v := s.runCase(tt, c, plan)
			sr.Evaluations++
			for _, l := range c.labels {
				sr.Labels[l]++
			}
			if c.nontrivial {
				h := sha256.Sum256(plan)
				if !distinct[h] {
					distinct[h] = true
					if len(sr.Samples) < 3 || (len(sr.Samples) < 6 && len(distinct)%97 == 0) {
						if len(plan) < 20000 {
							sr.Samples = append(sr.Samples, json.RawMessage(append([]byte{}, plan...)))
						}
					}
				}
			}
			if v != nil && known[v.Sig] {
				sr.Known[v.Sig]++
				v = nil
			}
			return v
		}
		report := func(plan []byte, v *Violation) {
			path := filepath.Join(outDir, s.Name+".replay.json")
			writeReplay(path, s, plan, v)
			sr.Violation = &violResult{Sig: v.Sig, Msg: v.Msg, Replay: path}
		}
		for _, sv := range bySub[s.Name] {
			if v := one(t, sv.r.Plan); v != nil {
				report(sv.r.Plan, v)
				break
			}
			if harnessFailure != "" {
				return
			}
		}
		if os.Getenv("VERIF_REPLAY") == "" && sr.Violation == nil {
			n := s.Quick
			if tier == "thorough" {
				n = s.Thorough
			}
			n = (n + shards - 1) / shards
			if f := os.Getenv("VERIF_CASES"); f != "" {
				fmt.Sscan(f, &n)
			}
			h := sha256.Sum256([]byte(fmt.Sprintf("%d/%d/%s/%s", seed, shard, s.Prop, s.Name)))
			rs := uint64(1)
			for _, b := range h[:7] {
				rs = rs<<8 | uint64(b)
			}
			must(flag.Set("rapid.checks", fmt.Sprint(n)))
			must(flag.Set("rapid.seed", fmt.Sprint(rs)))
			must(flag.Set("rapid.nofailfile", "true"))
			must(flag.Set("rapid.shrinktime", "15s"))
			t.Run(
				s.Name, func(tt *testing.T) {
					rapid.Check(
						tt, func(rt *rapid.T) {
							plan := s.gen(rt)
							if v := one(tt, plan); v != nil {
								report(plan, v)
								rt.Fatalf("%s", v.Sig)
							}
							if harnessFailure != "" {
								rt.Fatalf("harness failure")
							}
						},
					)
				},
			)
		}
		sr.Nontrivial = len(distinct)
		sr.WallS = time.Since(start).Seconds()
		if harnessFailure != "" {
			return
		}
	}
}

func must(err error) {
	if err != nil {
		panic(harnessErr{err.Error()})
	}
}
func must1[T any](v T, err error) T {
	must(err)
	return v
}
func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("<%v>", err)
	}
	return string(b)
}
