package core

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

func setRapid(name, val string) {
	if err := flag.Set(name, val); err != nil {
		Fatal("%s", err)
	}
}

// Main is the entry point of a harness binary.
func Main() {
	debug.SetMaxStack(256 << 20)
	args := os.Args[1:]
	testing.Init()
	os.Args = os.Args[:1]
	flag.Parse()
	if len(args) == 0 {
		Fatal("usage: vh check ID | replay FILE | list")
	}
	switch args[0] {
	case "list":
		for _, id := range IDs() {
			fmt.Println(id)
		}
	case "check":
		parentMain(args[1])
	case "child":
		childMain(args[1:])
	case "replay":
		replayMain(args[1], false)
	case "replay1":
		replayMain(args[1], true)
	default:
		Fatal("unknown command %s", args[0])
	}
}

func envSeed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// child: ID SHARD SHARDS SEED TIER OUTFILE CURFILE
func childMain(a []string) {
	id, out, cur := a[0], a[5], a[6]
	shard, _ := strconv.Atoi(a[1])
	shards, _ := strconv.Atoi(a[2])
	seed, _ := strconv.Atoi(a[3])
	tier := a[4]

	setRapid("rapid.nofailfile", "true")
	setRapid("rapid.shrinktime", "15s")

	result := childResult{}
	for _, s := range Subs(id) {
		if only := os.Getenv("VH_SUB"); only != "" && only != s.Name {
			continue
		}
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		if x, err := strconv.ParseFloat(os.Getenv("VH_SCALE"), 64); err == nil {
			n = int(float64(n)*x) + 1
		}
		k := shards
		if s.Serial {
			k = 1
		}
		if shard >= k {
			continue
		}
		per := n / k
		if shard < n%k {
			per++
		}
		if per == 0 {
			continue
		}
		setRapid("rapid.checks", strconv.Itoa(per))
		setRapid("rapid.seed", strconv.FormatUint(SeedFor(seed, id, s.Name, shard), 10))

		r := &runner{
			sub: s, curFile: cur, seen: map[uint64]bool{},
			tb:  &tb{name: id + "/" + s.Name},
			res: &SubResult{Sub: s.Name, Classes: map[string]int{}},
		}
		stop := make(chan struct{})
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(500 * time.Millisecond):
				}
				st := r.started.Load()
				if st != 0 && time.Since(time.Unix(0, st)) > hangLimit(s) {
					buf := make([]byte, 64<<10)
					buf = buf[:runtime.Stack(buf, true)]
					fmt.Fprintf(os.Stderr, "case does not terminate\n%s\n", buf)
					os.Exit(exitHang)
				}
			}
		}()
		start := time.Now()
		done := make(chan struct{})
		go func() {
			defer close(done)
			s.run(r)
		}()
		<-done
		close(stop)
		r.res.Millis = time.Since(start).Milliseconds()
		if r.res.Failure == nil && (r.tb.failed || r.res.Evaluations < per) {
			Fatal("%s/%s: %d of %d cases: %s", id, s.Name, r.res.Evaluations, per, lastNote)
		}
		for h := range r.seen {
			r.res.Hashes = append(r.res.Hashes, h)
		}
		sort.Slice(r.res.Hashes, func(i, j int) bool { return r.res.Hashes[i] < r.res.Hashes[j] })
		result.Subs = append(result.Subs, r.res)
		if r.res.Failure != nil {
			break
		}
	}
	b, err := json.Marshal(result)
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		Fatal("result: %s", err)
	}
}

func replayMain(file string, child bool) {
	b, err := os.ReadFile(file)
	if err != nil {
		Fatal("%s", err)
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		Fatal("%s", err)
	}
	if !child && os.Getenv("VH_SCRATCH") == "" {
		dir, err := os.MkdirTemp("", "vh-replay-")
		if err != nil {
			Fatal("%s", err)
		}
		os.Setenv("VH_SCRATCH", dir)
		defer os.RemoveAll(dir)
	}
	for _, s := range Subs(f.Property) {
		if s.Name != f.Sub {
			continue
		}
		if err := s.replay(f.Case); err != nil {
			fmt.Printf("%s/%s: %s\n", f.Property, f.Sub, err)
			if !child {
				fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
				_ = os.RemoveAll(os.Getenv("VH_SCRATCH"))
			}
			os.Exit(1)
		}
		fmt.Printf("%s/%s: ok\n", f.Property, f.Sub)
		return
	}
	Fatal("no such check: %s/%s", f.Property, f.Sub)
}

type shardOutcome struct {
	shard  int
	res    *childResult
	code   int
	signal bool
	stderr string
	cur    string
}

func parentMain(id string) {
	start := time.Now()
	if len(Subs(id)) == 0 {
		Fatal("no such property: %s", id)
	}
	seed, tier := envSeed(), envTier()
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	base := os.TempDir()
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		if f, err := os.CreateTemp("/dev/shm", "vh-probe"); err == nil {
			f.Close()
			os.Remove(f.Name())
			base = "/dev/shm"
		}
	}
	scratch, err := os.MkdirTemp(base, "vh-"+id+"-")
	if err != nil {
		Fatal("%s", err)
	}
	exit := func(code int) {
		_ = os.RemoveAll(scratch)
		os.Exit(code)
	}

	self, err := os.Executable()
	if err != nil {
		Fatal("%s", err)
	}

	var mu sync.Mutex
	procs := map[int]*exec.Cmd{}
	stopped := false
	outcomes := make(chan shardOutcome, shards)
	for i := 0; i < shards; i++ {
		i := i
		dir := filepath.Join(scratch, fmt.Sprint("shard", i))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			Fatal("%s", err)
		}
		out, cur := filepath.Join(scratch, fmt.Sprint("out", i)), filepath.Join(scratch, fmt.Sprint("cur", i))
		cmd := exec.Command(self, "child", id, fmt.Sprint(i), fmt.Sprint(shards), fmt.Sprint(seed), tier, out, cur)
		cmd.Env = append(os.Environ(), "VH_SCRATCH="+dir, "GOMAXPROCS=2", "GOGC=200", "GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+dir)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		var stderr bytes.Buffer
		cmd.Stdout = nil
		cmd.Stderr = &stderr
		runtime.LockOSThread()
		if err := cmd.Start(); err != nil {
			Fatal("%s", err)
		}
		mu.Lock()
		procs[i] = cmd
		mu.Unlock()
		go func() {
			err := cmd.Wait()
			o := shardOutcome{shard: i, stderr: stderr.String(), cur: cur}
			if ee, ok := err.(*exec.ExitError); ok {
				o.code = ee.ExitCode()
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
					o.signal = true
				}
			} else if err != nil {
				o.code = 3
				o.stderr += err.Error()
			} else if b, err := os.ReadFile(out); err == nil {
				r := &childResult{}
				if err := json.Unmarshal(b, r); err == nil {
					o.res = r
				}
			}
			outcomes <- o
		}()
	}

	merged := map[string]*SubResult{}
	var failure *Failure
	hard := ""
	for n := 0; n < shards; n++ {
		o := <-outcomes
		mu.Lock()
		wasStopped := stopped
		mu.Unlock()
		if o.res != nil {
			for _, s := range o.res.Subs {
				m := merged[s.Sub]
				if m == nil {
					m = &SubResult{Sub: s.Sub, Classes: map[string]int{}}
					merged[s.Sub] = m
				}
				m.Evaluations += s.Evaluations
				m.Hashes = append(m.Hashes, s.Hashes...)
				for k, v := range s.Classes {
					m.Classes[k] += v
				}
				if s.Millis > m.Millis {
					m.Millis = s.Millis
				}
				if o.shard == 0 || len(m.Samples) == 0 {
					m.Samples = s.Samples
				}
				if s.Failure != nil && failure == nil {
					failure = s.Failure
				}
			}
		} else if !wasStopped {
			f, h := o.diagnose(self, scratch)
			if f != nil && failure == nil {
				failure = f
			}
			if h != "" && hard == "" {
				hard = h
			}
		}
		if failure != nil && !wasStopped {
			mu.Lock()
			stopped = true
			for _, c := range procs {
				_ = syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			}
			mu.Unlock()
		}
	}

	violations := 0
	if failure != nil {
		violations = 1
	}
	writeEvidence(id, tier, seed, merged, violations, time.Since(start))

	for _, s := range Subs(id) {
		if m := merged[s.Name]; m != nil {
			fmt.Printf("%s/%s: %d cases, %d distinct non-trivial (%d ms)\n", id, s.Name, m.Evaluations, distinct(m.Hashes), m.Millis)
			if os.Getenv("VH_CLASSES") != "" {
				ks := []string{}
				for k := range m.Classes {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					fmt.Printf("    %7d %s\n", m.Classes[k], k)
				}
			}
		}
	}

	if failure != nil {
		dir := ReplayDir(verifDir())
		if err := os.MkdirAll(dir, 0o755); err != nil {
			dir = os.TempDir()
		}
		b, _ := json.MarshalIndent(failure, "", " ")
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", failure.Property, failure.Sub, hash64(failure.Case)))
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(3)
		}
		msg := failure.Message
		if len(msg) > 6000 {
			msg = msg[:6000] + "..."
		}
		fmt.Printf("%s/%s failed: %s\n", failure.Property, failure.Sub, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		exit(1)
	}
	if hard != "" {
		fmt.Fprintln(os.Stderr, "vh: "+hard)
		exit(3)
	}
	exit(0)
}

func distinct(h []uint64) int {
	m := map[uint64]bool{}
	for _, x := range h {
		m[x] = true
	}
	return len(m)
}

// diagnose decides what a child that reported no result means.
func (o *shardOutcome) diagnose(self, scratch string) (*Failure, string) {
	tail := o.stderr
	if len(tail) > 4000 {
		tail = tail[:4000] + "..."
	}
	b, err := os.ReadFile(o.cur)
	f := &Failure{}
	if err != nil || json.Unmarshal(b, f) != nil || o.code == 3 {
		return nil, fmt.Sprintf("shard %d failed (exit %d): %s", o.shard, o.code, tail)
	}
	if o.signal {
		return nil, fmt.Sprintf("shard %d was killed: %s", o.shard, tail)
	}

	// replay the case by itself
	dir := filepath.Join(scratch, fmt.Sprint("replay", o.shard))
	_ = os.MkdirAll(dir, 0o755)
	cmd := exec.Command(self, "replay1", o.cur)
	cmd.Env = append(os.Environ(), "VH_SCRATCH="+dir, "TMPDIR="+dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hung := false
	select {
	case err = <-done:
	case <-time.After(150 * time.Second):
		hung = true
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	switch {
	case o.code == exitHang && hung:
		f.Message = "the case does not terminate\n" + tail
		return f, ""
	case o.code == exitHang:
		return nil, fmt.Sprintf("shard %d took too long on a case which completes by itself: inconclusive", o.shard)
	}
	fatal := strings.Contains(o.stderr, "fatal error:") || strings.Contains(o.stderr, "DATA RACE") || strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "goroutine stack exceeds")
	if strings.Contains(o.stderr, "out of memory") || strings.Contains(o.stderr, "cannot allocate") {
		return nil, fmt.Sprintf("shard %d ran out of memory: %s", o.shard, tail)
	}
	if ee, ok := err.(*exec.ExitError); (ok && ee.ExitCode() != 3) || fatal {
		f.Message = "the process crashed: " + tail
		return f, ""
	}
	return nil, fmt.Sprintf("shard %d failed (exit %d): %s", o.shard, o.code, tail)
}

func writeEvidence(id, tier string, seed int, merged map[string]*SubResult, violations int, wall time.Duration) {
	evals, nontriv := 0, 0
	rules := []string{}
	samples := []interface{}{}
	perSub := map[string]interface{}{}
	for _, s := range Subs(id) {
		m := merged[s.Name]
		if m == nil {
			continue
		}
		evals += m.Evaluations
		d := distinct(m.Hashes)
		nontriv += d
		rules = append(rules, s.Name+": "+s.Rule)
		for i, x := range m.Samples {
			if i < 2 {
				samples = append(samples, map[string]interface{}{"sub": s.Name, "case": x})
			}
		}
		perSub[s.Name] = map[string]interface{}{"cases": m.Evaluations, "nontrivial_cases": d, "classes": m.Classes}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         evals,
			"distinct_nontrivial": nontriv,
			"rule":                strings.Join(rules, " | "),
			"samples":             samples,
			"sub_checks":          perSub,
		},
		"wall_s":     wall.Seconds(),
		"violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		Fatal("%s", err)
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), b, 0o644); err != nil {
		Fatal("%s", err)
	}
}
