package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/render"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

// AgainCase is documents which are built several times.
type AgainCase struct {
	Site SiteCase
	Tmpl map[string]string `json:",omitempty"`
	Ext  string            `json:",omitempty"`
	Runs []AgainRun
}

// AgainRun is how they are built.
type AgainRun struct {
	Debug bool          `json:",omitempty"`
	Slow  time.Duration `json:",omitempty"`
	Stale string        `json:",omitempty"` // what is in the files beforehand; = for something as long
	// Age is how much older than now these are said to be.
	Age     time.Duration `json:",omitempty"`
	Moved   bool          `json:",omitempty"` // the documents are copied elsewhere
	Process bool          `json:",omitempty"`
	Env     []string      `json:",omitempty"`
}

func genAgain(r gen.R) AgainCase {
	p := gen.Base()
	p.Partial, p.Target, p.ExtraTags, p.Ref = 20, 15, 40, 10
	p.Split, p.SplitRoot = 30, 70
	process := r.Chance(12) // where the probe plugin is not linked in
	if !process {
		p.Plugin, p.UsePlug, p.PlugInl = "vt", 100, 6
	}
	p.Inl = append(p.Inl,
		func(g *gen.G) gen.Inline { return gen.Call("v-lazy", gen.T("lazy")) },
		func(g *gen.G) gen.Inline { return gen.Call("v-count") },
		func(g *gen.G) gen.Inline {
			return gen.Call("v-part", gen.T("c"), gen.Line(gen.Call("target", gen.T(g.DefTag(true)))), gen.Line(gen.Call("target", gen.T(g.DefTag(true)))))
		},
		func(g *gen.G) gen.Inline {
			return gen.Call("set-partial", gen.T(gen.Pick(g.R, "A", "B", "C", "D", "E")), gen.Line(gen.Call("target", gen.T(g.DefTag(true)), gen.T("in a partial"))))
		})
	if r.Chance(25) {
		p.Err, p.Unknown, p.Dup, p.Syntax = gen.Pick(r, 0, 1), gen.Pick(r, 0, 5), gen.Pick(r, 0, 10), gen.Pick(r, 0, 0, 40)
	}
	c := AgainCase{Site: siteGen(p)(r)}
	if r.Chance(25) {
		c.Ext = gen.Pick(r, "txt", "md")
	} else if r.Chance(30) {
		c.Tmpl = map[string]string{"section.tmpl": "<section>{{.Title | render}}{{.Body | render}}{{range $k, $p := .Partials}}<p title=\"{{$k}}\">{{$p | render}}</p>{{end}}{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}}</section>"}
	}
	for n := r.Range(1, 3); n > 0; n-- {
		proc := process && len(c.Runs) == 0
		slow := gen.Pick(r, 0, 0, time.Nanosecond, time.Hour)
		if proc && slow == time.Nanosecond {
			slow = 0 // reports of slow calls may come in the middle of the error
		}
		c.Runs = append(c.Runs, AgainRun{
			Debug: r.Chance(20), Slow: slow, Stale: gen.Pick(r, "", "", "x", "=", strings.Repeat("stale ", 5000)),
			Age:   gen.Pick(r, 0, 0, 50*time.Hour, -50*time.Hour),
			Moved: r.Chance(30), Process: proc,
			Env: gen.Pick(r, nil, []string{"GOMAXPROCS=1"}, []string{"TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8"}, []string{"HOME=/", "GOGC=1"}),
		})
	}
	return c
}

func (c AgainCase) command(in, out, tmpl string, a AgainRun) *booklitcmd.Command {
	cmd := &booklitcmd.Command{In: in, Out: out, SaveSearchIndex: true, Debug: a.Debug, SlowInvokeThreshold: a.Slow}
	cmd.HTMLEngine.Templates = tmpl
	cmd.TextEngine.FileExtension = c.Ext
	return cmd
}

// tell is what is told about an error.
func tell(err error) string {
	var pe booklit.PrettyError
	if !errors.As(err, &pe) {
		return err.Error()
	}
	var b bytes.Buffer
	pe.PrettyPrint(&b)
	return b.String()
}

func runAgain(ctx *core.Ctx, c AgainCase) error {
	dir := ctx.Dir()
	src := filepath.Join(dir, "src")
	if err := impl.WriteFiles(src, c.Site.Files); err != nil {
		core.Fatal("%s", err)
	}
	in, tmpl := filepath.Join(src, c.Site.In), ""
	if len(c.Tmpl) > 0 {
		tmpl = filepath.Join(dir, "tmpl")
		if err := impl.WriteFiles(tmpl, c.Tmpl); err != nil {
			core.Fatal("%s", err)
		}
	}
	result := func(out string, err error) map[string]string {
		if err != nil {
			// the files which were written before it failed may be there
			return map[string]string{"error": tell(err)}
		}
		return tree(out)
	}
	first := filepath.Join(dir, "first")
	want := result(first, impl.Build(c.command(in, first, tmpl, AgainRun{})))
	ctx.NonTrivial(want["error"] != "" || len(want) > 2)
	if want["error"] != "" {
		ctx.Class("fails")
	}
	same := func(what string, got map[string]string) error {
		if err := sameNames("files, "+what, impl.Keys(want), impl.Keys(got)); err != nil {
			return fmt.Errorf("%w: %.300s %.300s", err, want["error"], got["error"])
		}
		for _, n := range impl.Keys(want) {
			if err := impl.Same(n+", "+what, want[n], got[n]); err != nil {
				return err
			}
		}
		return nil
	}
	for i, a := range c.Runs {
		what := fmt.Sprintf("in run %d (%+v)", i, a)
		if len(what) > 300 {
			what = what[:300]
		}
		out := filepath.Join(dir, fmt.Sprint("out", i))
		if a.Stale != "" && want["error"] == "" {
			stale := map[string]string{}
			for n := range want {
				stale[n] = a.Stale
				if a.Stale == "=" {
					stale[n] = altered(want[n])
				}
			}
			if err := impl.WriteFiles(out, stale); err != nil {
				core.Fatal("%s", err)
			}
			for n := range stale {
				if a.Age != 0 {
					at := time.Now().Add(-a.Age)
					if err := os.Chtimes(filepath.Join(out, n), at, at); err != nil {
						core.Fatal("%s", err)
					}
				}
			}
		}
		in := in
		undo := func(s string) string { return s }
		if a.Moved {
			moved := filepath.Join(dir, "else", "where")
			if err := impl.WriteFiles(moved, c.Site.Files); err != nil {
				core.Fatal("%s", err)
			}
			in = filepath.Join(moved, c.Site.In)
			undo = func(s string) string { return strings.ReplaceAll(s, moved, src) }
			ctx.Class("moved")
		}
		var got map[string]string
		if a.Process {
			ctx.Class("process")
			args := []string{"-i", in, "-o", out, "--save-search-index", "--slow-invoke-threshold", a.Slow.String()}
			if a.Debug {
				args = append(args, "--debug")
			}
			if tmpl != "" {
				args = append(args, "--html-templates", tmpl)
			}
			if c.Ext != "" {
				args = append(args, "--text-file-extension", c.Ext)
			}
			r := run(dir, nil, a.Env, args...)
			if (r.Code != 0) != (want["error"] != "") {
				return fmt.Errorf("%s: exit status %d: %s", what, r.Code, r.Stderr)
			}
			if r.Code != 0 {
				if !strings.Contains(undo(r.Stderr), want["error"]) {
					return fmt.Errorf("%s: expected the error %q, got %q", what, want["error"], r.Stderr)
				}
				continue
			}
			got = tree(out)
		} else {
			level := logrus.GetLevel()
			stderr := os.Stderr
			if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
				os.Stderr = null // slow calls are reported there
				defer null.Close()
			}
			err := impl.Build(c.command(in, out, tmpl, a))
			os.Stderr = stderr
			logrus.SetLevel(level)
			got = result(out, err)
		}
		if e, ok := got["error"]; ok {
			got["error"] = undo(e)
		}
		if err := same(what, got); err != nil {
			return err
		}
	}
	if want["error"] != "" || c.Ext != "" {
		return nil
	}
	// pages do not depend on what is rendered before, or along with them
	sec, err := impl.Load(in)
	if err != nil {
		return fmt.Errorf("it loads only once: %w", err)
	}
	eng := render.NewHTMLEngine()
	if tmpl != "" {
		if err := eng.LoadTemplates(tmpl); err != nil {
			return err
		}
	}
	var pages []*booklit.Section
	var walk func(s *booklit.Section)
	walk = func(s *booklit.Section) {
		if s.Parent == nil || s.Parent.SplitSections {
			pages = append(pages, s)
		}
		for _, k := range s.Children {
			walk(k)
		}
	}
	walk(sec)
	for round := 0; round < 2; round++ {
		for i := len(pages) - 1; i >= 0; i-- {
			name := pages[i].PrimaryTag.Name + ".html"
			got, err := impl.RenderPage(eng, pages[i])
			if err != nil {
				return fmt.Errorf("%s: %w", name, err)
			}
			if dup(pages, name) {
				continue
			}
			if err := impl.Same(fmt.Sprintf("%s, rendered by itself (%d)", name, round), want[name], got); err != nil {
				return err
			}
		}
	}
	return nil
}

// altered is another text of the same length.
func altered(s string) string {
	b := []byte(s)
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] ^= 1 << 5
			break
		}
	}
	return string(b)
}

// dup tells whether several pages have a name.
func dup(pages []*booklit.Section, name string) bool {
	n := 0
	for _, p := range pages {
		if p.PrimaryTag.Name+".html" == name {
			n++
		}
	}
	return n > 1
}

func init() {
	core.Register("C20", "again", core.Opts{
		Rule:  "documents of a bit of everything, with tags in partials and some mistakes, built several times: with other flags for logging, over older files, from elsewhere, in another process and environment, and page by page in another order: everything must be the same to the byte, including the report of an error; non-trivial with at least two files, or a failure",
		Quick: 3000, Thorough: 80000,
	}, gen.Of(genAgain), runAgain)
}
