package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

// home is the directory of the harness, a module where plugins are found.
var home, _ = os.Getwd()

var plugPkgs = map[string]string{
	"xp":      "verif/harness/extplug/xp",
	"yp":      "verif/harness/extplug/yp",
	"zp":      "verif/harness/extplug/other/xp", // whose package is called xp too
	"vt":      "verif/harness/impl",
	"broken":  "verif/harness/extplug/testdata/broken",
	"missing": "verif/harness/extplug/nowhere",
}

// PlugCase is a run of the command with plugins.
type PlugCase struct {
	Site    SiteCase
	Plugins []string
	Out     bool
	Index   bool
	Tag     string `json:",omitempty"`
	NoGo    bool   `json:",omitempty"` // there is no Go
	Env     string
	GoBin   bool     `json:",omitempty"` // GOBIN is set
	Extra   []string `json:",omitempty"`
	// End is the call which ends it, if any.
	End string `json:",omitempty"`
	// Print is what the plugin prints.
	Print string `json:",omitempty"`
	// Full is whether nothing can be written to the standard output.
	Full bool `json:",omitempty"`
}

func genPlug(r gen.R) PlugCase {
	c := PlugCase{Out: r.Chance(70), Index: r.Chance(30), GoBin: r.Chance(30), Env: gen.Pick(r, "", "v 1", "é")}
	c.Plugins = gen.Pick(r, []string{"xp"}, []string{"xp", "yp"}, []string{"yp", "xp"}, []string{"vt", "xp"}, []string{"yp"}, []string{"xp", "xp"}, []string{"vt"}, []string{"xp", "zp"}, []string{"zp", "xp"}, []string{"yp", "xp", "zp"})
	switch r.Intn(14) {
	case 0:
		c.Plugins = append(c.Plugins, gen.Pick(r, "broken", "missing"))
	case 1:
		c.NoGo = true
	}
	p := gen.Base()
	p.Plugin, p.UsePlug, p.PlugInl, p.PlugBlk, p.Exotic = gen.Pick(r, c.Plugins[0], c.Plugins[0], "xp"), gen.Pick(r, 100, 100, 40), 12, 6, 0
	p.MaxSecs, p.MaxBlocks, p.Split, p.SplitRoot = 5, 4, 30, 50
	hello := func(g *gen.G) gen.Inline { return gen.Call("xp-hello", gen.T(g.Words())) }
	if p.Plugin == "vt" {
		p.Inl = append(p.Inl, func(g *gen.G) gen.Inline { return gen.Call("v-str", gen.T(g.Words())) },
			func(g *gen.G) gen.Inline { return gen.Call("v-two", gen.T("x"), gen.T(g.Words())) })
	} else {
		p.Inl = append(p.Inl, hello)
	}
	if p.Plugin == "yp" {
		p.Inl = append(p.Inl, func(g *gen.G) gen.Inline { return gen.Call("yp-only", gen.T(g.Words())) })
	}
	for _, n := range c.Plugins {
		if n == "zp" && r.Chance(80) {
			p.Plugin = "zp"
			p.Inl = append(p.Inl, func(g *gen.G) gen.Inline { return gen.Call("zp-only", gen.T(g.Words())) })
		}
	}
	p.Blk = p.Inl
	g, in := gen.Site(r, p)
	c.Site = SiteCase{Files: g.Files, In: in}
	if r.Chance(60) {
		src := c.Site.Files[in]
		src += "\n\n\\use-plugin{xp}\n\n\\xp-env{VH_PLUG}, \\xp-environ, \\xp-args, \\xp-cwd, \\xp-hello{end}\n"
		if r.Chance(40) {
			c.Print = gen.Pick(r, "a", "b c", "%d")
			src += "\n\n\\xp-print{" + c.Print + "}\n"
		}
		if r.Chance(40) {
			c.End = gen.Pick(r, "\\xp-exit{0}", "\\xp-exit{2}", "\\xp-exit{3}", "\\xp-exit{255}", "\\xp-exit{1}", "\\xp-kill", "\\xp-panic", "\\xp-fail{it fails}", "\\nope", "\\reference{nowhere}")
			src += "\n\n" + c.End + "\n"
		}
		c.Site.Files[in] = src
	}
	if r.Chance(20) && len(g.Tags) > 0 {
		c.Tag = g.Tags[r.Intn(len(g.Tags))]
	}
	c.Extra = gen.Pick(r, nil, nil, []string{"--debug"}, []string{"--slow-invoke-threshold=1ns"}, []string{"--debug", "--"}, []string{"--"})
	c.Full = c.Print == "" && r.Chance(15)
	return c
}

// exits is how the process ends while evaluating.
type exits struct{ code int }

func plugRegistry(names []string, cwd, env string, environ, args []string) map[string]*ref.Plugin {
	text := func(s string) ref.Content { return ref.Text(s) }
	str := func(c *ref.Call, i int) string { return c.Args[i].(string) }
	hello := func(from string) ref.Method {
		return ref.Method{Params: []ref.Kind{ref.KString}, Do: func(c *ref.Call) (ref.Content, *ref.Err) {
			return text("hello " + str(c, 0) + " from " + from), nil
		}}
	}
	end := func(code int) func(*ref.Call) (ref.Content, *ref.Err) {
		return func(*ref.Call) (ref.Content, *ref.Err) { panic(exits{code}) }
	}
	all := map[string]*ref.Plugin{
		"vt": registry["vt"],
		"yp": {Name: "yp", Methods: map[string]ref.Method{
			"XpHello": hello("yp"),
			"YpOnly": {Params: []ref.Kind{ref.KContent}, Do: func(c *ref.Call) (ref.Content, *ref.Err) {
				return ref.Styled{Style: "italic", Content: c.Args[0]}, nil
			}},
		}},
		"zp": {Name: "zp", Methods: map[string]ref.Method{
			"XpHello": hello("zp"),
			"ZpOnly": {Params: []ref.Kind{ref.KContent}, Do: func(c *ref.Call) (ref.Content, *ref.Err) {
				return ref.Styled{Style: "bold", Content: c.Args[0]}, nil
			}},
		}},
		"xp": {Name: "xp", Methods: map[string]ref.Method{
			"XpHello": hello("xp"),
			"XpEnv": {Params: []ref.Kind{ref.KString}, Do: func(c *ref.Call) (ref.Content, *ref.Err) {
				return text("=" + env), nil
			}},
			"XpEnviron": {Do: func(c *ref.Call) (ref.Content, *ref.Err) {
				last := map[string]string{}
				for _, v := range environ {
					k, _, _ := strings.Cut(v, "=")
					last[k] = fmt.Sprintf("%q", v)
				}
				var out []string
				for _, v := range last {
					out = append(out, v)
				}
				sort.Strings(out)
				return text(strings.Join(out, " ")), nil
			}},
			"XpArgs":  {Do: func(c *ref.Call) (ref.Content, *ref.Err) { return text(strings.Join(args, "|")), nil }},
			"XpCwd":   {Do: func(c *ref.Call) (ref.Content, *ref.Err) { return text(cwd), nil }},
			"XpPrint": {Params: []ref.Kind{ref.KString}, Do: func(c *ref.Call) (ref.Content, *ref.Err) { return nil, nil }},
			"XpFail": {Params: []ref.Kind{ref.KString}, Do: func(c *ref.Call) (ref.Content, *ref.Err) {
				return nil, &ref.Err{Kind: "plain", Msg: str(c, 0)}
			}},
			"XpExit": {Params: []ref.Kind{ref.KString}, Do: func(c *ref.Call) (ref.Content, *ref.Err) {
				n, _ := strconv.Atoi(str(c, 0))
				return end(n)(c)
			}},
			"XpKill":  {Do: end(-1)},
			"XpPanic": {Do: end(2)},
		}},
	}
	out := map[string]*ref.Plugin{}
	for _, n := range names {
		if p, ok := all[n]; ok {
			out[n] = p
		}
	}
	return out
}

// loadEnds loads, unless a plugin ends the process.
func loadEnds(site *ref.Site, in string) (root *ref.Section, err *ref.Err, ended *exits) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(exits)
			if !ok {
				panic(x)
			}
			ended = &e
		}
	}()
	root, err = site.Load(in)
	return root, err, nil
}

func runPlug(ctx *core.Ctx, c PlugCase) error {
	in, site, err := c.Site.Open(ctx)
	if err != nil {
		return err
	}
	out, tmp := filepath.Join(ctx.Dir(), "out"), filepath.Join(ctx.Dir(), "tmp")
	if err := os.MkdirAll(tmp, 0o755); err != nil {
		core.Fatal("%s", err)
	}
	environ := append(os.Environ(), "PWD="+home, "TMPDIR="+tmp, "VH_PLUG="+c.Env)
	if c.GoBin {
		environ = append(environ, "GOBIN="+filepath.Join(ctx.Dir(), "bin"))
	}
	if c.NoGo {
		environ = append(environ, "PATH=/nonexistent")
	}
	var args []string
	bad := c.NoGo
	for i, p := range c.Plugins {
		if p == "broken" || p == "missing" {
			bad = true
		}
		if i%2 == 0 {
			args = append(args, "--plugin", plugPkgs[p])
		} else {
			args = append(args, "-p", plugPkgs[p])
		}
	}
	args = append(args, "--in", in)
	if c.Out {
		args = append(args, "--out", out)
		if c.Index {
			args = append(args, "--save-search-index")
		}
	}
	if c.Tag != "" {
		args = append(args, "--section-tag", c.Tag)
	}
	args = append(args, c.Extra...)
	site.Registry = plugRegistry(c.Plugins, home, c.Env, environ, args)

	// what it should do
	var root *ref.Section
	var rerr *ref.Err
	var ended *exits
	pages := map[string]string{}
	if !bad {
		root, rerr, ended = loadEnds(site, in)
		if ended == nil && rerr == nil && c.Tag != "" {
			ts := root.FindTag(c.Tag)
			if len(ts) == 0 {
				rerr = &ref.Err{Kind: "plain"}
			} else {
				root = ts[0].Section
			}
		}
		if ended == nil && rerr == nil {
			if c.Out {
				// the pages of the section and those below it
				var each func(s *ref.Section)
				each = func(s *ref.Section) {
					if rerr != nil {
						return
					}
					if s.Parent == nil || s.Parent.Split {
						pages[s.Primary.Name+".html"], rerr = (&ref.HTML{}).Page(s)
					}
					for _, k := range s.Children {
						each(k)
					}
				}
				each(root)
			} else {
				pages[""], rerr = (&ref.HTML{}).Page(root)
			}
		}
	}
	want := 0
	switch {
	case bad || rerr != nil:
		want = 1
	case ended != nil:
		want = ended.code
	case c.Full && !c.Out:
		want = 1
	}

	bg, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(bg, binary(), args...)
	cmd.Dir = home
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Env = environ
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if c.Full {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			core.Fatal("%s", err)
		}
		defer full.Close()
		cmd.Stdout = full
	}
	runErr := cmd.Run()
	if bg.Err() != nil {
		core.Fatal("the command takes too long: %q", args)
	}
	if _, ok := runErr.(*exec.ExitError); runErr != nil && !ok {
		core.Fatal("%s", runErr)
	}
	r := ran{Code: cmd.ProcessState.ExitCode(), Out: so.String(), Stderr: se.String()}
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%q: %s\nexit status %d\nstdout: %.600s\nstderr: %.2500s", args, fmt.Sprintf(format, a...), r.Code, r.Out, r.Stderr)
	}
	if !bad && strings.Contains(r.Stderr, "build failed") {
		core.Fatal("plugins do not build: %s", r.Stderr)
	}
	left, _ := filepath.Glob(filepath.Join(tmp, "*"))
	if len(left) > 0 {
		return fail("it leaves files behind: %q", left)
	}
	if r.Code != want && !(want < 0 && r.Code != 0) {
		return fail("the exit status should be %d (%v)", want, rerr)
	}
	ctx.NonTrivial(true)
	if bad {
		ctx.Class("plugins do not build")
		if !strings.Contains(r.told(), "build failed") && !c.NoGo || strings.TrimSpace(r.told()) == "" {
			return fail("it should tell that the plugins cannot be built")
		}
		if len(tree(out)) > 0 || r.Out != "" {
			return fail("there is output")
		}
		return nil
	}
	printed := ""
	if c.Print != "" && (ended != nil || rerr == nil || strings.Contains(r.Stderr, "err:")) {
		printed = "out:" + c.Print + "\n"
		if !strings.Contains(r.Stderr, "err:"+c.Print+"\n") {
			return fail("what the plugin prints is missing on the standard error")
		}
	}
	if !strings.HasPrefix(r.Out, printed) {
		return fail("what the plugin prints is missing")
	}
	stdout := strings.TrimPrefix(r.Out, printed)
	switch {
	case rerr != nil:
		ctx.Class("fails: %s", rerr.Kind)
		if rerr.Kind != "plain" {
			if head := fmt.Sprintf("%s:%d: ", rerr.File, rerr.Pos.Line); !strings.Contains(r.told(), head) {
				return fail("expected the location %q", head)
			}
		} else if !strings.Contains(r.told(), rerr.Msg) || strings.TrimSpace(r.told()) == "" {
			return fail("expected it to tell %q", rerr.Msg)
		}
	case ended != nil:
		ctx.Class("ended with %d", ended.code)
		if stdout != "" || len(tree(out)) > 0 {
			return fail("there is output")
		}
		if strings.Contains(c.End, "panic") != strings.Contains(r.Stderr, "xp panics") {
			return fail("what the plugin says is lost")
		}
	case !c.Out && c.Full:
		ctx.Class("full standard output")
		if strings.TrimSpace(r.told()) == "" {
			return fail("it should tell what failed")
		}
	case !c.Out:
		ctx.Class("standard output")
		if err := impl.Same("the standard output", impl.HTML(pages[""]), impl.HTML(stdout)); err != nil {
			return fail("%s", err)
		}
	default:
		ctx.Class("files")
		if stdout != "" {
			return fail("there is output")
		}
		got := tree(out)
		if c.Index {
			if got["search_index.json"] == "" {
				return fail("there is no search index")
			}
			delete(got, "search_index.json")
		}
		if !reflect.DeepEqual(impl.Keys(got), impl.Keys(pages)) {
			return fail("files %q, expected %q", impl.Keys(got), impl.Keys(pages))
		}
		for n := range pages {
			if err := impl.Same(n, impl.HTML(pages[n]), impl.HTML(got[n])); err != nil {
				return fail("%s", err)
			}
		}
	}
	return nil
}

func init() {
	core.Register("C26", "plugins", core.Opts{
		Rule:  "runs of the command with 1 to 3 plugins (one of them may not exist or not compile, or there is no Go) over documents which use them, where a plugin may print, fail, end or kill the process, and the standard output may be full: status, output, messages and files must be as a model has them with just these plugins, and nothing may be left behind; all are non-trivial",
		Quick: 240, Thorough: 4000,
	}, gen.Of(genPlug), runPlug)
}
