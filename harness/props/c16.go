package props

import (
	"fmt"
	"html"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

// Edit is a step of a history.
type Edit struct {
	// Op is write, remove, touch, get or load (with a processor alone).
	Op   string
	Path string `json:",omitempty"` // src/... or tmpl/...
	// Text to write.
	Text string `json:",omitempty"`
	// Time is when it was last modified, in units of which there are many.
	Time int64 `json:",omitempty"`
	// Back is the time instead, if what was before has been loaded.
	Back int64 `json:",omitempty"`
}

// HistoryCase is documents and templates which change.
type HistoryCase struct {
	Files map[string]string
	Edits []Edit
	Gets  []string
	// Process tells to compare with another process in the end.
	Process bool `json:",omitempty"`
}

var tmplVariants = map[string][]string{
	"page.tmpl":       {"<html>{{.Title.String}}|{{. | render}}</html>", "<html>PAGE {{. | render}}</html>", "{{"},
	"section.tmpl":    {"<section>{{.Title | render}} {{.Body | render}}{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}}</section>", "<div>{{.Body | render}}</div>", "{{.Nope}}"},
	"paragraph.tmpl":  {"<p class=\"x\">{{range .}}{{. | render}} {{end}}</p>", "<P>{{range .}}{{. | render}}{{end}}</P>", "{{end}}"},
	"bold.tmpl":       {"<b>{{.Content | render}}</b>", "<b class=\"y\">{{.Content | render}}</b>", "{{nope .}}"},
	"string.tmpl":     {"<i>{{.String}}</i>", "{{.String}}"},
	"toc.tmpl":        {"<nav>{{range .Children}}{{.Title | stripAux | render}}{{template \"toc.tmpl\" .}}{{end}}</nav>"},
	"odd.tmpl":        {"odd", "even"},
	"fancy.tmpl":      {"<div class=\"fancy\">{{.Body | render}}</div>", "<div class=\"fancier\">{{.Body | render}}</div>"},
	"index-page.tmpl": {"x"},
}

func genHistory(r gen.R, templates bool) HistoryCase {
	p := gen.Base()
	p.MaxSecs, p.MaxBlocks, p.Include, p.Split, p.SplitRoot, p.Target, p.Ref = 6, 3, 25, 15, 30, 4, 5
	p.Index = 92
	if templates {
		p.Styles, p.Styled = []string{"fancy"}, 15
	}
	g, _ := gen.Site(r, p)
	c := HistoryCase{Files: g.Files}
	cur := map[string]string{}
	names := impl.Keys(g.Files)
	for n, s := range g.Files {
		cur["src/"+n] = s
	}
	orig := map[string]string{}
	for k, v := range cur {
		orig[k] = v
	}
	used := map[string]map[int64]bool{}
	clock := int64(0)
	tick := func(path string) int64 {
		if used[path] == nil {
			used[path] = map[int64]bool{}
		}
		for {
			d := gen.Pick(r, int64(1), 1, 1000, 1e6, 1e9, 3600e9)
			if r.Chance(30) {
				d = -d
			}
			clock += d
			if t := clock; !used[path][t] && t != 0 {
				used[path][t] = true
				return t
			}
		}
	}
	c.Gets = append(c.Gets, "/", "/index.html")
	for _, t := range g.Tags {
		if len(c.Gets) < 5 {
			c.Gets = append(c.Gets, "/"+t+".html")
		}
	}
	c.Gets = append(c.Gets, "/new-1.html")
	c.Process = r.Chance(10)
	n := 0
	for i := r.Range(2, 10); i > 0; i-- {
		if r.Chance(35) {
			c.Edits = append(c.Edits, Edit{Op: "get", Path: gen.Pick(r, c.Gets...)})
			continue
		}
		if old := used["src/index.lit"]; len(old) > 0 && r.Chance(12) {
			// an edit after which the time is that of an earlier version, but not
			// of the one which was there before
			var back []int64
			for t := range old {
				back = append(back, t)
			}
			sort.Slice(back, func(i, j int) bool { return back[i] < back[j] })
			t := gen.Pick(r, back...)
			path := "src/index.lit"
			n += 2
			cur[path] = orig[path] + fmt.Sprintf("\n\nMore %d.\n", n)
			c.Edits = append(c.Edits,
				Edit{Op: "write", Path: path, Text: orig[path] + fmt.Sprintf("\n\nMore %d.\n", n-1), Time: tick(path)},
				Edit{Op: "get", Path: "/"},
				Edit{Op: "load"},
				Edit{Op: "write", Path: path, Text: cur[path], Time: tick(path), Back: t},
				Edit{Op: "get", Path: "/"},
				Edit{Op: "load"})
			continue
		}
		if templates && r.Chance(60) {
			name := gen.Pick(r, impl.Keys(tmplVariants)...)
			path := "tmpl/" + name
			if r.Chance(20) {
				// it is broken for a while, and then as it was, other than its time
				old, ok := cur[path]
				c.Edits = append(c.Edits, Edit{Op: "get", Path: "/"},
					Edit{Op: "write", Path: path, Text: gen.Pick(r, "{{", "{{end}}", "{{nope}}", "x{{if}}"), Time: tick(path)}, Edit{Op: "get", Path: gen.Pick(r, c.Gets...)})
				if ok {
					c.Edits = append(c.Edits, Edit{Op: "write", Path: path, Text: old, Time: tick(path)})
				} else {
					c.Edits = append(c.Edits, Edit{Op: "remove", Path: path})
				}
				c.Edits = append(c.Edits, Edit{Op: "get", Path: "/"})
				continue
			}
			if r.Chance(35) {
				// replaced, or taken away for another one, while it is in use
				text := gen.Pick(r, tmplVariants[name]...)
				cur[path] = text
				c.Edits = append(c.Edits, Edit{Op: "write", Path: path, Text: text, Time: tick(path)}, Edit{Op: "get", Path: "/"})
				to := path
				if r.Chance(30) {
					delete(cur, path)
					c.Edits = append(c.Edits, Edit{Op: "remove", Path: path})
					to = "tmpl/" + gen.Pick(r, impl.Keys(tmplVariants)...)
				}
				cur[to] = gen.Pick(r, tmplVariants[strings.TrimPrefix(to, "tmpl/")]...)
				c.Edits = append(c.Edits, Edit{Op: "write", Path: to, Text: cur[to], Time: tick(to)}, Edit{Op: "get", Path: "/"})
				continue
			}
			if _, ok := cur[path]; ok && r.Chance(40) {
				delete(cur, path)
				c.Edits = append(c.Edits, Edit{Op: "remove", Path: path})
				continue
			}
			cur[path] = gen.Pick(r, tmplVariants[name]...)
			c.Edits = append(c.Edits, Edit{Op: "write", Path: path, Text: cur[path], Time: tick(path)})
			continue
		}
		path := "src/" + gen.Pick(r, names...)
		old, ok := cur[path]
		n++
		switch r.Intn(8) {
		case 0:
			if ok {
				delete(cur, path)
				c.Edits = append(c.Edits, Edit{Op: "remove", Path: path})
				continue
			}
			old = orig[path]
		case 1, 2:
			old = orig[path]
		case 3:
			if ok {
				c.Edits = append(c.Edits, Edit{Op: "touch", Path: path, Time: tick(path)})
				continue
			}
		case 4:
			old += gen.Pick(r, "\n\n\\nope\n", "\n\n\\bold{\n", "\n\n\\reference{nowhere}\n", "\n\n\\bold\n", "\n\n}")
		case 5:
			if r.Chance(50) {
				// which sections have pages changes
				if strings.Contains(old, "\n\n\\split-sections\n") {
					old = strings.Replace(old, "\n\n\\split-sections\n", "", 1)
				} else {
					old += gen.Pick(r, "\n\n\\split-sections\n", "\n\n\\split-sections\n", "\n\n\\single-page\n")
				}
				if r.Chance(60) {
					old += fmt.Sprintf("\n\\section{\n\\title{Aim %d}{aim-%d}\n\n\\reference{aim-%d}\n}\n", n, n, n)
				}
				break
			}
			old += fmt.Sprintf("\n\n\\section{\n\\title{New %d}{new-%d}\n\nNew.\n}\n", n, n)
		default:
			old += fmt.Sprintf("\n\nMore %d.\n", n)
		}
		if old == "" {
			old = "x\n"
		}
		cur[path] = old
		c.Edits = append(c.Edits, Edit{Op: "write", Path: path, Text: old, Time: tick(path)})
	}
	return c
}

// browser asks as browsers do: it has what it was sent before, and asks whether
// that has been modified.
type browser map[string]cached

type cached struct {
	code int
	body string
	head http.Header
}

func (b browser) get(h http.Handler, path string) (int, string) {
	old, ok := b[path]
	r := httptest.NewRequest("GET", (&url.URL{Path: path}).String(), nil)
	for k, v := range map[string]string{"Last-Modified": "If-Modified-Since", "Etag": "If-None-Match"} {
		if x := old.head.Get(k); x != "" {
			r.Header.Set(v, x)
		}
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	if ok && w.Code == http.StatusNotModified {
		return old.code, old.body
	}
	if w.Code == http.StatusOK {
		b[path] = cached{w.Code, w.Body.String(), w.Header()}
	}
	return w.Code, w.Body.String()
}

// apply makes an edit.
func (e Edit) apply(dir string) {
	p := filepath.Join(dir, e.Path)
	at := time.Unix(1700000000, e.Time)
	var err error
	switch e.Op {
	case "write":
		if err = os.MkdirAll(filepath.Dir(p), 0o755); err == nil {
			err = os.WriteFile(p, []byte(e.Text), 0o644)
		}
		if err == nil {
			err = os.Chtimes(p, at, at)
		}
	case "touch":
		err = os.Chtimes(p, at, at)
	case "remove":
		err = os.Remove(p)
	}
	if err != nil {
		core.Fatal("edit: %s", err)
	}
}

func runHistory(ctx *core.Ctx, c HistoryCase, templates bool) error {
	dir := ctx.Dir()
	src, tmpl := filepath.Join(dir, "src"), ""
	if err := impl.WriteFiles(src, c.Files); err != nil {
		core.Fatal("%s", err)
	}
	for n := range c.Files {
		Edit{Op: "touch", Path: "src/" + n}.apply(dir)
	}
	if templates {
		tmpl = filepath.Join(dir, "tmpl")
		_ = os.MkdirAll(tmpl, 0o755)
	}
	in := filepath.Join(src, "index.lit")
	srv := impl.NewServer(in, dir, tmpl)
	// the processor alone
	proc := &load.Processor{}
	edits, failed := 0, 0
	answered, loaded := false, false
	client := browser{}
	check := func(path string, step int) error {
		fresh := impl.NewServer(in, dir, tmpl)
		wc, wb, _ := impl.Get(fresh, path)
		gc, gb := client.get(srv, path)
		if wc == 500 {
			failed++
			if !strings.Contains(wb, "</html>") {
				return fmt.Errorf("the answer for %s is an error without a page: %q", path, wb)
			}
			if e := render.NewHTMLEngine().LoadTemplates(tmpl); templates && e != nil {
				if _, lerr := impl.Load(in); lerr == nil && !strings.Contains(wb, html.EscapeString(e.Error())) && !strings.Contains(html.UnescapeString(wb), e.Error()) {
					return fmt.Errorf("the answer for %s does not tell that %v: %q", path, e, wb)
				}
			}
		}
		answered = wc == 200
		if templates && wc != 500 && render.NewHTMLEngine().LoadTemplates(tmpl) != nil {
			name := strings.TrimSuffix(strings.TrimPrefix(path, "/"), ".html")
			if path == "/" {
				name = "index"
			}
			if s, err := impl.Load(in); err != nil || len(s.FindTag(name)) > 0 {
				return fmt.Errorf("the answer for %s is %d, with broken templates: %v", path, wc, err)
			}
			ctx.Class("broken templates, no such tag")
		}
		if err := impl.Same(fmt.Sprintf("answers for %s after step %d", path, step), fmt.Sprintf("%d\n%s", wc, wb), fmt.Sprintf("%d\n%s", gc, gb)); err != nil {
			return err
		}
		return nil
	}
	for i, e := range c.Edits {
		if e.Op == "get" {
			if err := check(e.Path, i); err != nil {
				return err
			}
			continue
		}
		if e.Op != "load" {
			edits++
			if e.Back != 0 && answered && loaded {
				e.Time = e.Back
				ctx.Class("time of an earlier version")
			}
			e.apply(dir)
		}
		if e.Op == "load" || strings.HasPrefix(e.Path, "src/") && i%2 == 0 {
			s, err := proc.LoadFile(in, impl.Base())
			f, ferr := impl.Load(in)
			loaded = ferr == nil
			if fmt.Sprint(err) != fmt.Sprint(ferr) {
				return fmt.Errorf("after step %d: want %v, got %v", i, ferr, err)
			}
			if err == nil {
				if err := impl.Same(fmt.Sprintf("sections after step %d", i), impl.DumpSection(f), impl.DumpSection(s)); err != nil {
					return err
				}
				a, aerr := impl.RenderPage(render.NewHTMLEngine(), f)
				b, berr := impl.RenderPage(render.NewHTMLEngine(), s)
				if fmt.Sprint(aerr) != fmt.Sprint(berr) || a != b {
					return fmt.Errorf("pages differ after step %d: %v, %v %s", i, aerr, berr, impl.Diff(a, b))
				}
			}
		}
	}
	ctx.NonTrivial(edits >= 2)
	for _, p := range c.Gets {
		if err := check(p, len(c.Edits)); err != nil {
			return err
		}
	}
	if c.Process {
		// no process has less to remember than one which has just been started
		out := filepath.Join(dir, "out")
		args := []string{"-i", in, "-o", out}
		if templates {
			args = append(args, "--html-templates", tmpl)
		}
		res := run(dir, nil, nil, args...)
		ctx.Class("process with %d", res.Code)
		for _, p := range c.Gets {
			code, body, _ := impl.Get(srv, p)
			if p == "/" {
				p = "/index.html"
			}
			built, err := os.ReadFile(filepath.Join(out, p))
			if res.Code != 0 || err != nil {
				continue
			}
			if code != 200 {
				return fmt.Errorf("the server answers %d for %s, of which there is a page", code, p)
			}
			if err := impl.Same("what a new process builds for "+p, string(built), body); err != nil {
				return err
			}
		}
		if code, _, _ := impl.Get(srv, "/"); res.Code == 0 && code != 200 {
			return fmt.Errorf("a new process builds it, but the server answers %d", code)
		} else if res.Code != 0 && code == 200 {
			// it may fail for another page, but not for want of the document
			if _, err := impl.Load(in); err != nil {
				return fmt.Errorf("a new process fails, and the server does not: %s", res.Stderr)
			}
		}
	}
	if failed > 0 {
		ctx.Class("with failures")
	}
	ctx.Class("edits %d", edits)
	return nil
}

func init() {
	core.Register("C16", "documents", core.Opts{
		Rule:  "histories of up to 10 edits (text, sections, errors, repairs, removals, touches) of documents over several files, with modification times which jump in both directions by a nanosecond up to hours, and requests in between: each answer must be that of a new server; non-trivial with at least two edits",
		Quick: 2500, Thorough: 100000,
	}, gen.Of(func(r gen.R) HistoryCase { return genHistory(r, false) }), func(ctx *core.Ctx, c HistoryCase) error {
		return runHistory(ctx, c, false)
	})
	core.Register("C16", "templates", core.Opts{
		Rule:  "the same, where templates are also added, replaced, broken and removed; non-trivial with at least two edits",
		Quick: 1500, Thorough: 60000,
	}, gen.Of(func(r gen.R) HistoryCase { return genHistory(r, true) }), func(ctx *core.Ctx, c HistoryCase) error {
		return runHistory(ctx, c, true)
	})
}
