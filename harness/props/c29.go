package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

// slowCall is a call which waits until it is reported as slow.
type slowCall struct {
	Where, Fn string
}

// slowLog has the reports of slow calls.
type slowLog struct {
	mu        sync.Mutex
	changed   *sync.Cond
	dir       string
	threshold time.Duration
	running   map[slowCall]int
	finished  map[slowCall]int
	waited    map[slowCall]int
	odd       error
}

var slow = func() *slowLog {
	l := &slowLog{}
	l.changed = sync.NewCond(&l.mu)
	logrus.AddHook(l)
	return l
}()

func (l *slowLog) reset(dir string, threshold time.Duration) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.dir, l.threshold, l.odd = dir, threshold, nil
	l.running, l.finished, l.waited = map[slowCall]int{}, map[slowCall]int{}, map[slowCall]int{}
}

// Levels is for logrus.
func (l *slowLog) Levels() []logrus.Level {
	return []logrus.Level{logrus.WarnLevel, logrus.InfoLevel}
}

// Fire is for logrus.
func (l *slowLog) Fire(e *logrus.Entry) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.dir == "" || !strings.HasPrefix(e.Message, l.dir) {
		return nil
	}
	where, msg, _ := strings.Cut(e.Message, ": ")
	i := strings.Index(msg, "\\")
	if i < 0 {
		l.odd = fmt.Errorf("report of no call: %s", e.Message)
		return nil
	}
	c := slowCall{Where: where, Fn: strings.TrimSpace(strings.SplitN(msg[i+1:]+" ", " ", 2)[0])}
	if e.Level == logrus.WarnLevel {
		l.running[c]++
	} else {
		l.finished[c]++
	}
	took := false
	for _, v := range e.Data {
		if d, ok := v.(time.Duration); ok {
			took = true
			if d < l.threshold {
				l.odd = fmt.Errorf("%s is reported after %s, with a threshold of %s", e.Message, d, l.threshold)
			}
		}
	}
	if !took {
		l.odd = fmt.Errorf("a report does not tell the time: %s", e.Message)
	}
	l.changed.Broadcast()
	return nil
}

// slowMissed is set once a report has been waited for in vain.
var slowMissed atomic.Bool

// wait waits until the call is reported.
func (l *slowLog) wait(s *booklit.Section, fn string) error {
	c := slowCall{Where: fmt.Sprintf("%s:%d", s.FilePath(), s.InvokeLocation.Line), Fn: fn}
	late := false
	patience := 30 * time.Second
	if slowMissed.Load() {
		// there is a failure, which is being shrunk
		patience = 3 * time.Second
	}
	t := time.AfterFunc(patience, func() {
		l.mu.Lock()
		defer l.mu.Unlock()
		late = true
		l.changed.Broadcast()
	})
	defer t.Stop()
	l.mu.Lock()
	defer l.mu.Unlock()
	l.waited[c]++
	if l.threshold <= 0 || l.odd != nil {
		return nil
	}
	for l.running[c] < l.waited[c] && !late {
		l.changed.Wait()
	}
	if late {
		slowMissed.Store(true)
		l.odd = fmt.Errorf("\\%s at %s is not reported while it runs", c.Fn, c.Where)
	}
	return nil
}

// SlowPlugin has calls which are slow.
type SlowPlugin struct{ section *booklit.Section }

// ZzWait waits for its report.
func (p SlowPlugin) ZzWait(c booklit.Content) (booklit.Content, error) {
	return c, slow.wait(p.section, "zz-wait")
}

// ZzInner waits within another call, whose report is not to be taken for its
// own.
func (p SlowPlugin) ZzInner(c booklit.Content) (booklit.Content, error) {
	return c, slow.wait(p.section, "zz-inner")
}

// ZzPass does not wait.
func (p SlowPlugin) ZzPass(c booklit.Content) booklit.Content { return c }

// ZzFail waits for its report, and fails.
func (p SlowPlugin) ZzFail(msg string) error {
	_ = slow.wait(p.section, "zz-fail")
	return errors.New(msg)
}

// SlowCase is documents with slow calls.
type SlowCase struct {
	Site      SiteCase
	Threshold time.Duration
}

func genSlow(r gen.R) SlowCase {
	p := gen.Base()
	p.Plugin, p.UsePlug, p.PlugInl, p.PlugBlk, p.Exotic = "zz", 100, 6, 6, 0
	p.MaxSecs, p.MaxBlocks = 5, 4
	pass := func(g *gen.G) gen.Inline { return gen.Call("zz-pass", gen.T(g.Words())) }
	wait := func(g *gen.G) gen.Inline {
		in := []gen.Inline{gen.Text("slow")}
		if g.Chance(20) {
			in = append(in, gen.Text(" "), gen.Call("zz-inner", gen.T("inner")))
		}
		if g.Chance(20) {
			return gen.Call(gen.Pick(g.R, "bold", "zz-pass"), gen.Line(gen.Call("zz-wait", gen.Line(in...))))
		}
		return gen.Call("zz-wait", gen.Line(in...))
	}
	p.Inl, p.Blk = append(p.Inl, pass, wait), append(p.Blk, wait, pass)
	if r.Chance(15) {
		p.Inl = append(p.Inl, func(g *gen.G) gen.Inline { return gen.Call("zz-fail", gen.T("it fails")) })
	}
	g, in := gen.Site(r, p)
	c := SlowCase{Site: SiteCase{Files: g.Files, In: in}, Threshold: gen.Pick(r, 2*time.Millisecond, 4*time.Millisecond, time.Millisecond, 0, -1)}
	return c
}

func runSlow(ctx *core.Ctx, c SlowCase) error {
	in, site, err := c.Site.Open(ctx)
	if err != nil {
		return err
	}
	root, rerr := site.Load(in)

	// the snippets
	errs, err := os.Create(filepath.Join(ctx.Dir(), "stderr"))
	if err != nil {
		core.Fatal("%s", err)
	}
	defer errs.Close()
	slow.reset(filepath.Dir(in), c.Threshold)
	defer slow.reset("", 0)
	was := os.Stderr
	os.Stderr = errs
	sec, goErr := (&load.Processor{SlowInvokeThreshold: c.Threshold}).LoadFile(in, impl.Base())
	// reports which are just about to be made
	for i := 0; i < 2000; i++ {
		slow.mu.Lock()
		total := 0
		for _, n := range slow.running {
			total += n
		}
		b, _ := os.ReadFile(errs.Name())
		same := fmt.Sprint(slow.running) == fmt.Sprint(slow.finished) && bytes.Count(b, []byte("^\x1b[0m\n")) == total
		slow.mu.Unlock()
		if same {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	os.Stderr = was
	slow.mu.Lock()
	defer slow.mu.Unlock()
	if slow.odd != nil {
		return slow.odd
	}
	if err := impl.SameErr(rerr, goErr); err != nil {
		return err
	}
	if rerr == nil {
		// the same result
		if err := eachSection(root, sec, func(a *ref.Section, b *booklit.Section) error {
			return sameNames("title and body", []string{ref.Summary(a.Title), ref.Summary(a.Body)}, []string{b.Title.String(), b.Body.String()})
		}); err != nil {
			return err
		}
	}
	if fmt.Sprint(slow.running) != fmt.Sprint(slow.finished) {
		return fmt.Errorf("reported as running: %v; as finished: %v", slow.running, slow.finished)
	}
	if c.Threshold <= 0 {
		ctx.Class("no threshold")
		ctx.NonTrivial(len(slow.waited) > 0)
		if len(slow.running)+len(slow.finished) > 0 {
			return fmt.Errorf("slow calls are reported with no threshold: %v", slow.running)
		}
		return nil
	}
	b, err := os.ReadFile(errs.Name())
	if err != nil {
		core.Fatal("%s", err)
	}
	snippets := string(b)
	for call, n := range slow.waited {
		if slow.running[call] != n {
			return fmt.Errorf("%v: %d slow calls, %d reported", call, n, slow.running[call])
		}
	}
	total := 0
	for call, n := range slow.running {
		total += n
		path, line, _ := strings.Cut(call.Where, ":")
		src, ok := c.Site.Files[strings.TrimPrefix(path, filepath.Dir(in)+"/")]
		var num int
		if _, err := fmt.Sscan(line, &num); err != nil || !ok {
			return fmt.Errorf("report for no place: %s", call.Where)
		}
		lines := strings.Split(src, "\n")
		if num < 1 || num > len(lines) || !strings.Contains(lines[num-1], "\\"+call.Fn) {
			return fmt.Errorf("there is no \\%s at %s", call.Fn, call.Where)
		}
		if want := fmt.Sprintf("%d| %s\n", num, strings.TrimSuffix(lines[num-1], "\r")); !strings.Contains(snippets, want) {
			return fmt.Errorf("the report does not show %q: %s", want, snippets)
		}
	}
	if got := strings.Count(snippets, "^\x1b[0m\n"); got != total {
		return fmt.Errorf("%d snippets for %d reports: %s", got, total, snippets)
	}
	ctx.Class("%v waited", len(slow.waited) > 0)
	ctx.NonTrivial(len(slow.waited) > 0)
	return nil
}

func init() {
	booklit.RegisterPlugin("zz", func(s *booklit.Section) booklit.Plugin { return SlowPlugin{s} })
	pass := ref.Method{Params: []ref.Kind{ref.KContent}, Do: func(c *ref.Call) (ref.Content, *ref.Err) { return c.Args[0], nil }}
	registry["zz"] = &ref.Plugin{Name: "zz", Methods: map[string]ref.Method{
		"ZzWait": pass, "ZzInner": pass, "ZzPass": pass,
		"ZzFail": {Params: []ref.Kind{ref.KString}, Do: func(c *ref.Call) (ref.Content, *ref.Err) {
			return nil, &ref.Err{Kind: "plain", Msg: c.Args[0].(string)}
		}},
	}}
	core.Register("C29", "reports", core.Opts{
		Rule:  "documents with calls that wait until they are reported as slow, by themselves and within others, some of which fail, with a threshold or none: each such call is reported once while it runs and once when it has finished, with its place and line, any other only if it took as long, and the result is as without; non-trivial when a call waits",
		Quick: 8000, Thorough: 300000,
	}, gen.Of(genSlow), runSlow)
	core.Register("C29", "command", core.Opts{
		Rule:  "runs of the command, which builds or serves such documents, with --slow-invoke-threshold, or with none or a long one: what it says of the calls that wait, and what it gives; non-trivial when a call waits",
		Quick: 600, Thorough: 15000,
	}, gen.Of(genSlowRun), runSlowRun)
}

// Booklit is the command, with the plugins for these checks built in.
func Booklit(args []string) {
	logrus.SetOutput(os.Stderr)
	slow.reset("", 0)
	if dir := os.Getenv("VH_SLOW"); dir != "" {
		slow.reset(dir, 1)
		slowMissed.Store(os.Getenv("VH_SLOW_MISSED") != "")
	}
	os.Args = append([]string{"booklit"}, args...)
	booklitcmd.Main()
}

// SlowRun is a run of the command.
type SlowRun struct {
	Site SiteCase
	// Flag is the threshold given, if any.
	Flag string
	// Waits is whether calls wait until they are reported.
	Waits bool
	Port  int `json:",omitempty"`
	Gets  int `json:",omitempty"`
}

func genSlowRun(r gen.R) SlowRun {
	s := genSlow(r)
	c := SlowRun{Site: s.Site, Waits: r.Chance(70)}
	if c.Waits {
		c.Flag = gen.Pick(r, "--slow-invoke-threshold=2ms", "--slow-invoke-threshold=5ms", "--slow-invoke-threshold=1500us")
	} else {
		c.Flag = gen.Pick(r, "", "--slow-invoke-threshold=1h", "--slow-invoke-threshold=0", "--slow-invoke-threshold=0s")
	}
	if r.Chance(40) {
		c.Port, c.Gets = r.Range(20000, 29000), r.Range(1, 2)
	}
	return c
}

func runSlowRun(ctx *core.Ctx, c SlowRun) error {
	in, site, err := c.Site.Open(ctx)
	if err != nil {
		return err
	}
	// what it has to be
	want := map[string]int{}
	site.Registry = map[string]*ref.Plugin{}
	for n, p := range registry {
		site.Registry[n] = p
	}
	zz := &ref.Plugin{Name: "zz", Methods: map[string]ref.Method{}}
	for n, m := range registry["zz"].Methods {
		n, do := n, m.Do
		m.Do = func(c *ref.Call) (ref.Content, *ref.Err) {
			if n != "ZzPass" {
				want[map[string]string{"ZzWait": "zz-wait", "ZzInner": "zz-inner", "ZzFail": "zz-fail"}[n]]++
			}
			return do(c)
		}
		zz.Methods[n] = m
	}
	site.Registry["zz"] = zz
	root, rerr := site.Load(in)
	var page string
	if rerr == nil {
		page, rerr = (&ref.HTML{}).Page(root)
	}
	exe, err := os.Executable()
	if err != nil {
		core.Fatal("%s", err)
	}
	args := []string{"booklit", "-i", in}
	if c.Flag != "" {
		args = append(args, c.Flag)
	}
	var so, se bytes.Buffer
	start := func(args ...string) (*exec.Cmd, func()) {
		bg, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		cmd := exec.CommandContext(bg, exe, args...)
		cmd.Dir = ctx.Dir()
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		so.Reset()
		se.Reset()
		cmd.Stdout, cmd.Stderr = &so, &se
		if c.Waits {
			cmd.Env = append(os.Environ(), "VH_SLOW="+filepath.Dir(in))
			if slowMissed.Load() {
				cmd.Env = append(cmd.Env, "VH_SLOW_MISSED=1")
			}
		}
		return cmd, cancel
	}
	times := 1
	if c.Gets == 0 {
		ctx.Class("build")
		cmd, cancel := start(args...)
		defer cancel()
		err := cmd.Run()
		if rerr == nil {
			if err != nil {
				return fmt.Errorf("it fails: %s\n%s", err, se.String())
			}
			if err := impl.Same("pages", impl.HTML(page), impl.HTML(so.String())); err != nil {
				return err
			}
		} else if cmd.ProcessState == nil || cmd.ProcessState.ExitCode() != 1 {
			return fmt.Errorf("it should fail: %v (%v)", rerr, err)
		}
	} else {
		ctx.Class("serve")
		times = c.Gets
		base, stop, err := serving(c.Port, func(port int) (*exec.Cmd, func()) {
			return start(append(args, "--serve", fmt.Sprint(port))...)
		})
		if err != nil {
			return err
		}
		for i := 0; i < c.Gets; i++ {
			name := "index"
			if root != nil {
				name = root.Primary.Name
			}
			code, body, err := getURL(base + "/" + name + ".html")
			if err != nil {
				stop()
				return fmt.Errorf("get: %s", err)
			}
			err = nil
			if rerr != nil && code != 500 || rerr == nil && code != 200 {
				err = fmt.Errorf("status %d: %v", code, rerr)
			} else if rerr == nil {
				err = impl.Same("pages", impl.HTML(page), impl.HTML(body))
			}
			if err != nil {
				stop()
				return err
			}
		}
		stop()
	}
	says := se.String()
	if !c.Waits {
		ctx.Class("not asked for")
		ctx.NonTrivial(len(want) > 0)
		if strings.Contains(says, "slow invoke") {
			return fmt.Errorf("calls are reported as slow: %s", says)
		}
		return nil
	}
	ctx.NonTrivial(len(want) > 0)
	for _, fn := range []string{"zz-wait", "zz-inner", "zz-fail"} {
		for _, when := range []string{"still running", "finished"} {
			if n := strings.Count(says, "slow invoke: \\\\"+fn+" ("+when+")"); n != want[fn]*times {
				slowMissed.Store(true)
				return fmt.Errorf("%d slow calls of \\%s, %d reported as %s: %s", want[fn]*times, fn, n, when, says)
			}
		}
	}
	return nil
}
