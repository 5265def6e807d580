// Package prop runs properties: it drives generated cases through rapid, counts
// what was generated, shrinks a failing case and writes it as a replay file.
//
// It is controlled by the environment:
//
//	VERIF_PROP    the property
//	VERIF_SEED    the seed, VERIF_SHARD and VERIF_SHARDS: part of the work
//	VERIF_TIER    quick or thorough
//	VERIF_STATS   where statistics are written
//	VERIF_REPLAY  a replay file to run instead of generating cases
//	VERIF_REPLAY_OUT where the replay of a failure is written
//	VERIF_SCALE   multiplies the numbers of cases
package prop

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx is what a check of one case may use.
type Ctx struct {
	dir        string
	nontrivial bool
	classes    []string
	sample     string
	subEvals   int64
	Notes      []string
}

// Nontrivial marks the case as such.
func (c *Ctx) Nontrivial(b bool) { c.nontrivial = c.nontrivial || b }

// Class counts the case in the class of cases.
func (c *Ctx) Class(format string, a ...any) {
	c.classes = append(c.classes, fmt.Sprintf(format, a...))
}

// ClassIf counts the case if the condition holds.
func (c *Ctx) ClassIf(cond bool, name string) {
	if cond {
		c.classes = append(c.classes, name)
	}
}

// Sample describes the case.
func (c *Ctx) Sample(format string, a ...any) { c.sample = fmt.Sprintf(format, a...) }

// Executions adds executions of the code under test made inside of the case.
func (c *Ctx) Executions(n int) { c.subEvals += int64(n) }

var (
	scratchOnce sync.Once
	scratchRoot string
)

// Scratch is the directory of the process for all its files.
func Scratch() string {
	scratchOnce.Do(func() {
		base := os.Getenv("VERIF_SCRATCH")
		if base == "" {
			Broken("VERIF_SCRATCH is not set")
		}
		d, err := os.MkdirTemp(base, "case-")
		if err != nil {
			Broken("%v", err)
		}
		scratchRoot = d
	})
	return scratchRoot
}

// Dir is an empty directory for the case.
func (c *Ctx) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(Scratch(), "d")
		if err != nil {
			Broken("%v", err)
		}
		c.dir = d
	}
	return c.dir
}

func (c *Ctx) clean() {
	if c.dir != "" {
		os.RemoveAll(c.dir)
	}
}

// Broken reports that the check itself can not work and stops.
func Broken(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "CHECK-BROKEN: "+format+"\n%s\n", append(a, debug.Stack())...)
	os.Exit(3)
}

// Must stops the check on an error of its own.
func Must(err error) {
	if err != nil {
		Broken("%v", err)
	}
}

type sub struct {
	prop, name      string
	quick, thorough int
	run             func(t *testing.T, s *sub, seed uint64, n int)
	replay          func(raw json.RawMessage) error
}

var subs []*sub

// Deadline is when generating stops if the machine is too slow.
var Deadline time.Time

// Stats of one subcheck.
type Stats struct {
	Evaluations int64            `json:"evaluations"`
	Executions  int64            `json:"executions"`
	Skipped     int64            `json:"skipped"`
	Nontrivial  []uint64         `json:"nontrivial"`
	Classes     map[string]int64 `json:"classes"`
	Samples     []string         `json:"samples"`
	Violation   string           `json:"violation,omitempty"`
	Replay      string           `json:"replay,omitempty"`
	Known       []string         `json:"known,omitempty"`
	seen        map[uint64]bool
}

var stats = map[string]*Stats{}

type replayFile struct {
	Property string          `json:"property"`
	Subcheck string          `json:"subcheck"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

// Hang is the error of a case whose run does not end. Such cases are not shrunk.
type Hang struct{ What string }

func (h Hang) Error() string { return h.What }

// Once is the error of a case that may not repeat. Such cases are not shrunk.
type Once struct{ What string }

func (h Once) Error() string { return h.What }

// Known is the error of a case that is a listed finding.
type Known struct{ What string }

func (k Known) Error() string { return k.What }

// Add registers a subcheck of the property, with numbers of cases per run (all
// shards together) in both tiers.
func Add[T any](property, name string, quick, thorough int, gen func(t *rapid.T) T, check func(c *Ctx, x T) error) {
	s := &sub{prop: property, name: name, quick: quick, thorough: thorough}
	s.run = func(t *testing.T, s *sub, seed uint64, n int) {
		st := &Stats{Classes: map[string]int64{}, seen: map[uint64]bool{}}
		stats[s.name] = st
		var last *replayFile
		failed := false
		fail := func(x T, err error) {
			raw, merr := json.Marshal(x)
			Must(merr)
			last = &replayFile{property, name, err.Error(), raw}
			st.Violation = err.Error()
			st.Replay = writeReplay(last)
		}
		Must(flag.Set("rapid.checks", strconv.Itoa(n)))
		Must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
		Must(flag.Set("rapid.nofailfile", "true"))
		Must(flag.Set("rapid.shrinktime", "15s"))
		t.Run(s.name, func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				if !failed && time.Now().After(Deadline) {
					st.Skipped++
					return
				}
				x := gen(rt)
				c := &Ctx{}
				err := check(c, x)
				c.clean()
				if !failed {
					st.count(c, x)
				}
				if k, ok := err.(Known); ok {
					st.Known = append(st.Known, k.What)
					return
				}
				if err != nil {
					failed = true
					fail(x, err)
					switch err.(type) {
					case Hang, Once:
						finish()
						os.Exit(1)
					}
					rt.Fatalf("%v", err)
				}
			})
		})
		if t.Failed() && last == nil {
			Broken("rapid failed without a failing case in %s", name)
		}
	}
	s.replay = func(raw json.RawMessage) error {
		var x T
		Must(json.Unmarshal(raw, &x))
		c := &Ctx{}
		defer c.clean()
		return check(c, x)
	}
	subs = append(subs, s)
}

func writeReplay(r *replayFile) string {
	out := os.Getenv("VERIF_REPLAY_OUT")
	if out == "" {
		return ""
	}
	b, err := json.Marshal(r)
	Must(err)
	Must(os.MkdirAll(filepath.Dir(out), 0o755))
	Must(os.WriteFile(out, b, 0o644))
	return out
}

func (st *Stats) count(c *Ctx, x any) {
	st.Evaluations++
	st.Executions += c.subEvals
	once := map[string]bool{}
	for _, k := range c.classes {
		if !once[k] {
			st.Classes[k]++
		}
		once[k] = true
	}
	if !c.nontrivial {
		return
	}
	raw, err := json.Marshal(x)
	Must(err)
	h := fnv.New64a()
	h.Write(raw)
	k := h.Sum64()
	if st.seen[k] {
		return
	}
	st.seen[k] = true
	n := len(st.seen)
	if n <= 2 || n&(n-1) == 0 && len(st.Samples) < 6 {
		sample := c.sample
		if sample == "" {
			sample = string(raw)
		}
		if len(sample) > 1500 {
			sample = sample[:1500] + "..."
		}
		st.Samples = append(st.Samples, sample)
	}
}

func finish() {
	for _, st := range stats {
		st.Nontrivial = st.Nontrivial[:0]
		for k := range st.seen {
			st.Nontrivial = append(st.Nontrivial, k)
		}
		sort.Slice(st.Nontrivial, func(i, j int) bool { return st.Nontrivial[i] < st.Nontrivial[j] })
	}
	if out := os.Getenv("VERIF_STATS"); out != "" {
		b, err := json.Marshal(stats)
		Must(err)
		Must(os.WriteFile(out, b, 0o644))
	}
	if scratchRoot != "" {
		os.RemoveAll(scratchRoot)
	}
}

func envInt(name string, def int) int {
	if s := os.Getenv(name); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			Broken("%s=%s", name, s)
		}
		return n
	}
	return def
}

// Tier is quick or thorough.
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Main is called by the test function of a test binary.
func Main(t *testing.T) {
	if p := os.Getenv("VERIF_LIST"); p != "" {
		fmt.Println(Names(p))
		os.Exit(0)
	}
	property := os.Getenv("VERIF_PROP")
	if r := os.Getenv("VERIF_REPLAY"); r != "" {
		replay(r)
		return
	}
	Deadline = time.Now().Add(time.Duration(envInt("VERIF_TIME", 300)) * time.Second)
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		Must(err)
		scale = f
	}
	only := os.Getenv("VERIF_SUB")
	found := false
	for i, s := range subs {
		if s.prop != property || only != "" && only != s.name {
			continue
		}
		n := s.quick
		if Tier() == "thorough" {
			n = s.thorough
		}
		n = int(float64(n) * scale)
		if n < 1 {
			n = 1
		}
		part := n / shards
		if shard < n%shards {
			part++
		}
		found = true
		if part == 0 {
			continue
		}
		seed := uint64(envInt("VERIF_SEED", 1))*1_000_003 + uint64(shard)*1009 + uint64(i) + 1
		s.run(t, s, seed, part)
		if t.Failed() {
			break
		}
	}
	if !found && only == "" {
		Broken("no property %q", property)
	}
	finish()
	if t.Failed() {
		os.Exit(1)
	}
	os.Exit(0)
}

func replay(file string) {
	b, err := os.ReadFile(file)
	Must(err)
	var r replayFile
	Must(json.Unmarshal(b, &r))
	for _, s := range subs {
		if s.prop == r.Property && s.name == r.Subcheck {
			err := s.replay(r.Case)
			finish()
			if err != nil {
				fmt.Println("FAILS:", err)
				os.Exit(1)
			}
			fmt.Println("HOLDS")
			os.Exit(0)
		}
	}
	Broken("no subcheck %s of %s", r.Subcheck, r.Property)
}

// Names lists subchecks of the property.
func Names(property string) string {
	var out []string
	for _, s := range subs {
		if s.prop == property {
			out = append(out, s.name)
		}
	}
	return strings.Join(out, ", ")
}

// Journal keeps the case that is about to run in this process, so that it is
// known if the process dies of it.
func Journal(property, name string, x any) {
	out := os.Getenv("VERIF_REPLAY_OUT")
	if out == "" {
		return
	}
	raw, err := json.Marshal(x)
	Must(err)
	b, err := json.Marshal(&replayFile{property, name, "the process died", raw})
	Must(err)
	Must(os.WriteFile(out+".cur", b, 0o644))
}

// Timed runs f and gives Hang if it takes too long: the limit passed, and the
// process used much of it (or it is four times over), so that a busy machine is
// not a reason.
func Timed(limit time.Duration, f func() error) error {
	used := func() time.Duration {
		var u syscall.Rusage
		Must(syscall.Getrusage(syscall.RUSAGE_SELF, &u))
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	start, cpu := time.Now(), used()
	done := make(chan error, 1)
	go func() { done <- f() }()
	for {
		select {
		case err := <-done:
			return err
		case <-time.After(limit / 4):
			if d := time.Since(start); d > 4*limit || d > limit && used()-cpu > limit/2 {
				return Hang{fmt.Sprintf("did not finish in %v", d)}
			}
		}
	}
}
