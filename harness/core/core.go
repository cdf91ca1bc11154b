// Package core drives the generated-input checks: it shards them over child
// processes, shrinks and saves failures, and writes the evidence.
package core

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Opts describe a sub-check.
type Opts struct {
	Rule            string // how cases are made, and what makes one non-trivial
	Quick, Thorough int    // how many cases, over all shards
	Serial          bool   // one shard only
	// HangAfter overrides how long one case may take.
	HangAfter time.Duration
}

// Sub is a generated-input check of one aspect of a property.
type Sub struct {
	ID, Name string
	Opts
	run    func(r *runner)
	replay func(raw json.RawMessage) error
}

var subs []*Sub

// Subs returns the sub-checks of a property.
func Subs(id string) []*Sub {
	var out []*Sub
	for _, s := range subs {
		if s.ID == id {
			out = append(out, s)
		}
	}
	return out
}

// IDs returns every registered property.
func IDs() []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range subs {
		if !seen[s.ID] {
			seen[s.ID] = true
			out = append(out, s.ID)
		}
	}
	sort.Strings(out)
	return out
}

// Ctx is given to a check, along with a case.
type Ctx struct {
	classes    []string
	nontrivial bool
	dir        string
	cleanups   []func()
}

// Class counts the case under a name.
func (c *Ctx) Class(format string, args ...interface{}) {
	c.classes = append(c.classes, fmt.Sprintf(format, args...))
}

// NonTrivial marks the case as non-trivial by the rule.
func (c *Ctx) NonTrivial(cond bool) { c.nontrivial = c.nontrivial || cond }

// Dir is a scratch directory, removed after the case.
func (c *Ctx) Dir() string {
	if c.dir == "" {
		dir, err := os.MkdirTemp(ScratchRoot(), "case-")
		if err != nil {
			Fatal("scratch: %s", err)
		}
		c.dir = dir
	}
	return c.dir
}

// Cleanup registers a function to run after the case.
func (c *Ctx) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

func (c *Ctx) done() {
	for i := len(c.cleanups) - 1; i >= 0; i-- {
		c.cleanups[i]()
	}
	if c.dir != "" {
		_ = os.RemoveAll(c.dir)
	}
}

// ScratchRoot is where this run keeps its files.
func ScratchRoot() string {
	if d := os.Getenv("VH_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// Fatal ends the process with an error exit, which is not a verdict.
func Fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "vh: "+format+"\n", args...)
	os.Exit(3)
}

// Register adds a sub-check. The case must survive a round trip through JSON.
func Register[C any](id, name string, opts Opts, gen func(*rapid.T) C, check func(*Ctx, C) error) {
	eval := func(ctx *Ctx, c C) (err error) {
		defer ctx.done()
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
			}
		}()
		return check(ctx, c)
	}
	s := &Sub{ID: id, Name: name, Opts: opts}
	s.run = func(r *runner) {
		rapid.Check(r.tb, func(t *rapid.T) {
			c := gen(t)
			raw, err := json.Marshal(c)
			if err != nil {
				Fatal("case: %s", err)
			}
			var back C
			if err := json.Unmarshal(raw, &back); err != nil {
				Fatal("case: %s", err)
			}
			r.before(raw)
			ctx := &Ctx{}
			err = eval(ctx, back)
			r.after(raw, ctx, err)
			if err != nil {
				t.Fatalf("property violated")
			}
		})
	}
	s.replay = func(raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			Fatal("replay: %s", err)
		}
		return eval(&Ctx{}, c)
	}
	subs = append(subs, s)
}

func trimStack(s []byte) string {
	lines := strings.Split(string(s), "\n")
	if len(lines) > 40 {
		lines = append(lines[:40], "...")
	}
	return strings.Join(lines, "\n")
}

// Failure is a failed case.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

// SubResult is what a shard explored of a sub-check.
type SubResult struct {
	Sub         string
	Evaluations int
	Hashes      []uint64
	Classes     map[string]int
	Samples     []json.RawMessage
	Failure     *Failure
	Millis      int64
}

type runner struct {
	sub     *Sub
	tb      *tb
	curFile string
	res     *SubResult
	seen    map[uint64]bool
	first   *Failure
	started atomic.Int64
	failing bool
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

func (r *runner) before(raw []byte) {
	b, _ := json.Marshal(Failure{Property: r.sub.ID, Sub: r.sub.Name, Case: raw})
	if err := os.WriteFile(r.curFile, b, 0o644); err != nil {
		Fatal("current case: %s", err)
	}
	r.started.Store(time.Now().UnixNano())
}

func (r *runner) after(raw []byte, ctx *Ctx, err error) {
	r.started.Store(0)
	if err != nil {
		f := &Failure{Property: r.sub.ID, Sub: r.sub.Name, Message: err.Error(), Case: append([]byte{}, raw...)}
		if r.first == nil {
			r.first = f
		}
		r.res.Failure = f // the last failing case is the most shrunk
		r.failing = true
	}
	if r.failing {
		return // shrinking: not part of the exploration
	}
	r.res.Evaluations++
	for _, c := range ctx.classes {
		r.res.Classes[c]++
	}
	if ctx.nontrivial {
		h := hash64(raw)
		if !r.seen[h] {
			r.seen[h] = true
			if len(r.res.Samples) < 3 && len(raw) < 4000 {
				r.res.Samples = append(r.res.Samples, append([]byte{}, raw...))
			}
		}
	}
}

// SeedFor derives a generator seed.
func SeedFor(parts ...interface{}) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintln(parts...)))
	s := binary.LittleEndian.Uint64(h[:8]) >> 1
	if s == 0 {
		s = 1
	}
	return s
}

type tb struct {
	name   string
	failed bool
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.name }
func (t *tb) Logf(string, ...any)       {}
func (t *tb) Log(...any)                {}
func (t *tb) Skipf(string, ...any)      { runtime.Goexit() }
func (t *tb) Skip(...any)               { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.note(fmt.Sprintf(f, a...)) }
func (t *tb) Error(a ...any)            { t.failed = true; t.note(fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...any) {
	t.failed = true
	t.note(fmt.Sprintf(f, a...))
	runtime.Goexit()
}
func (t *tb) Fatal(a ...any) { t.failed = true; t.note(fmt.Sprint(a...)); runtime.Goexit() }
func (t *tb) FailNow()       { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()          { t.failed = true }
func (t *tb) Failed() bool   { return t.failed }
func (t *tb) note(s string)  { lastNote = s }

var lastNote string

// Raw is a string which may not be valid UTF-8, and survives JSON.
type Raw string

// MarshalJSON quotes the string as a Go string literal.
func (r Raw) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(r))) }

// UnmarshalJSON is the inverse of MarshalJSON.
func (r *Raw) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	*r = Raw(s)
	return err
}

// childResult is what a child process reports.
type childResult struct {
	Subs []*SubResult
}

const (
	exitHang = 97
)

// hangLimit is how long a single case may take before it is suspected to hang.
func hangLimit(s *Sub) time.Duration {
	if s.HangAfter > 0 {
		return s.HangAfter
	}
	return 60 * time.Second
}

// ReplayDir is where failing cases are saved.
func ReplayDir(verif string) string { return filepath.Join(verif, "replays") }
