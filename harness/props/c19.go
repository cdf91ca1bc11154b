package props

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

// CLICase is a run of the command.
type CLICase struct {
	Site SiteCase
	// Relative runs it in the directory of the documents.
	Relative bool
	Out      string            // none, for the standard output
	Pre      map[string]string // files already in there
	// PreLike is whether the pages are there with another text of the same length.
	PreLike bool `json:",omitempty"`
	// Here is how the output directory is called within it, if it runs there.
	Here    string `json:",omitempty"`
	Tag     string `json:",omitempty"`
	Path    string `json:",omitempty"`
	HasTag  bool   `json:",omitempty"`
	Index   bool
	Ext     string            `json:",omitempty"` // of the text renderer
	Tmpl    map[string]string `json:",omitempty"`
	TmplDir string            `json:",omitempty"` // rather than tmpl
	Extra   []string          `json:",omitempty"`
	Fault   string            `json:",omitempty"`
	Profile string            `json:",omitempty"` // with a profile
	Eq      bool              // --a=b rather than --a b
}

func genCLI(r gen.R) CLICase {
	p := gen.Base()
	p.MaxSecs, p.MaxBlocks, p.Split, p.SplitRoot, p.Include, p.ExtraTags = 7, 3, 30, 50, 15, 30
	if r.Chance(20) {
		p.Err, p.Unknown, p.Dup, p.Syntax = gen.Pick(r, 0, 1), gen.Pick(r, 0, 3), gen.Pick(r, 0, 3), gen.Pick(r, 0, 0, 40)
	}
	g, in := gen.Site(r, p)
	c := CLICase{Site: SiteCase{Files: g.Files, In: in}, Relative: r.Chance(40), Pre: map[string]string{}, Eq: r.Chance(30)}
	c.Out = gen.Pick(r, "", "out", "out", "new/deep/out", "out dir", "out[1]")
	for n := r.Intn(4); n > 0 && c.Out != ""; n-- {
		c.Pre[gen.Pick(r, "index.html", "style.css", "search_index.json", "sub/x.html", "index.txt", "old.html")] = gen.Pick(r, "", "old", strings.Repeat("long old content ", 2000))
	}
	c.PreLike = r.Chance(15) && c.Out != ""
	if c.Out != "" && !c.Relative && r.Chance(20) {
		c.Here = gen.Pick(r, ".", "./", "../BASE", ".//", "x/..")
	}
	if r.Chance(30) {
		c.HasTag = true
		c.Tag = "nowhere"
		if len(g.Tags) > 0 && r.Chance(85) {
			c.Tag = g.Tags[r.Intn(len(g.Tags))]
		}
	}
	if r.Chance(25) {
		c.Path = "extra.lit"
		pp := gen.Base()
		pp.MaxSecs, pp.MaxBlocks, pp.Split, pp.Unknown = 3, 3, 50, gen.Pick(r, 0, 3)
		e, ein := gen.Site(r, pp)
		src := e.Files[ein]
		for n, s := range e.Files {
			if n != ein {
				if _, ok := c.Site.Files[n]; !ok {
					c.Site.Files[n] = s
				}
			}
		}
		c.Site.Files[c.Path] = src
		if r.Chance(10) {
			c.Path = "missing.lit"
		}
	}
	c.Index = r.Chance(40)
	c.Site.Allow = r.Chance(12)
	if r.Chance(25) {
		c.Ext = gen.Pick(r, "txt", "md", "html")
	}
	if r.Chance(25) {
		c.Tmpl = map[string]string{"bold.tmpl": gen.Pick(r, "<b>{{.Content | render}}</b>", "BOLD")}
		if r.Chance(20) {
			c.Tmpl["page.tmpl"] = gen.Pick(r, "{{", "page {{.Title.String}}")
		}
	}
	if r.Chance(8) {
		c.TmplDir = gen.Pick(r, "t[1]", "t[a-z]", "t?", "t*", "a b", "{t}", "t\\1", "t.tmpl", "missing", "missing", "a file")
	}
	c.Extra = gen.Pick(r, nil, nil, []string{"--debug"}, []string{"--slow-invoke-threshold", "1ns"}, []string{"-d", "--slow-invoke-threshold", "0"})
	if r.Chance(25) {
		c.Fault = gen.Pick(r, "full", "full", "directory", "file", "stdout", "index full")
	} else if r.Chance(4) {
		c.Profile = gen.Pick(r, "cpu", "cpu unwritable", "port in use")
	}
	return c
}

// wanted is what the command should do.
type wanted struct {
	err   *ref.Err
	plain string // what the error should tell
	pages map[string]string
	page  string // on the standard output
	index map[string]map[string]interface{}
}

func (c CLICase) expect(in, dir string, site *ref.Site, tmpl string) (w wanted, err error) {
	booklit.AllowBrokenReferences = c.Site.Allow
	defer func() { booklit.AllowBrokenReferences = false }()
	var eng render.Engine = render.NewHTMLEngine()
	if tmpl != "" && c.Ext == "" {
		if err := eng.(*render.HTMLEngine).LoadTemplates(tmpl); err != nil {
			w.err = &ref.Err{Kind: "plain"}
			return w, nil
		}
	}
	if c.Ext != "" {
		eng = render.NewTextEngine(c.Ext)
		if tmpl != "" {
			if err := eng.(*render.TextEngine).LoadTemplates(tmpl); err != nil {
				w.err = &ref.Err{Kind: "plain"}
				return w, nil
			}
		}
	}
	root, rerr := site.Load(in)
	if rerr != nil {
		w.err = rerr
		return w, nil
	}
	proc := &load.Processor{}
	sec, goErr := proc.LoadFile(in, impl.Base())
	if goErr != nil {
		return w, goErr
	}
	switch {
	case c.HasTag && c.Tag != "":
		ts := root.FindTag(c.Tag)
		if len(ts) == 0 {
			w.err, w.plain = &ref.Err{Kind: "plain"}, c.Tag
			return w, nil
		}
		m := ts[0].Section
		if err := eachSection(root, sec, func(a *ref.Section, b *booklit.Section) error {
			if a == m {
				sec = b
			}
			return nil
		}); err != nil {
			return w, err
		}
		root = m
	case c.Path != "":
		p := filepath.Join(dir, c.Path)
		sub, rerr := site.LoadIn(root, p)
		if rerr != nil {
			w.err = rerr
			return w, nil
		}
		s, goErr := proc.LoadFileIn(sec, p, impl.Base())
		if goErr != nil {
			return w, goErr
		}
		root, sec = sub, s
	}
	if c.Out == "" {
		// the model tells how it fails
		if c.Ext == "" && len(c.Tmpl) == 0 {
			if _, w.err = (&ref.HTML{}).Page(root); w.err != nil {
				return w, nil
			}
		}
		w.page, goErr = impl.RenderPage(eng, sec)
		if goErr != nil {
			w.err = impl.Err(goErr)
		}
		return w, nil
	}
	w.pages = map[string]string{}
	if err := eachSection(root, sec, func(a *ref.Section, b *booklit.Section) error {
		if w.err != nil || a.Parent != nil && !a.Parent.Split {
			return nil
		}
		ext := c.Ext
		if ext == "" {
			ext = "html"
		}
		w.pages[a.Primary.Name+"."+ext] = "" // even if it fails
		if c.Ext == "" && len(c.Tmpl) == 0 {
			if _, w.err = (&ref.HTML{}).Page(a); w.err != nil {
				return nil
			}
		}
		page, err := impl.RenderPage(eng, b)
		if err != nil {
			w.err = impl.Err(err)
		}
		w.pages[a.Primary.Name+"."+ext] = page
		return nil
	}); err != nil {
		return w, err
	}
	return w, nil
}

func init() {
	core.Register("C19", "runs", core.Opts{
		Rule:  "runs of the command over random documents, with and without mistakes, an output directory (new, or with older files), a selected section or additional file, a search index, templates, the text renderer and other flags, where some files cannot be written: the exit status, the standard output, the messages and every file afterwards must be as expected; non-trivial when it writes or prints a page, or fails",
		Quick: 4000, Thorough: 60000,
	}, gen.Of(genCLI), runCLI)
	core.Register("C19", "flags", core.Opts{
		Rule:  "unknown, missing and malformed flags, --help and --version: the exit status and the message; all are non-trivial",
		Quick: 200, Thorough: 2000,
	}, gen.Of(genFlags), runFlags)
	core.Register("C19", "serve", core.Opts{
		Rule:  "the command as a server on the loopback network: it must answer as the server does in-process; all are non-trivial",
		Quick: 120, Thorough: 2000,
	}, gen.Of(func(r gen.R) ServeRun {
		p := gen.Base()
		p.MaxSecs, p.MaxBlocks, p.Split, p.SplitRoot, p.Unknown = 5, 3, 30, 50, gen.Pick(r, 0, 0, 3)
		g, in := gen.Site(r, p)
		c := ServeRun{Site: SiteCase{Files: g.Files, In: in}, Tmpl: map[string]string{}, Paths: []string{"/", "/index.html", "/nope.html", "/style.css"}, Port: 20000 + r.Intn(10000)}
		for _, t := range g.Tags {
			if p := "/" + t + ".html"; path.Clean(p) == p {
				c.Paths = append(c.Paths, p)
			}
		}
		if r.Chance(40) {
			c.Tmpl["paragraph.tmpl"] = "<p class=\"x\">{{range .}}{{. | render}}{{end}}</p>"
		}
		return c
	}), runServe)
}

func runCLI(ctx *core.Ctx, c CLICase) error {
	abs, site, err := c.Site.Open(ctx)
	if err != nil {
		return err
	}
	dir := filepath.Dir(abs)
	work := ctx.Dir()
	in, base := abs, dir
	if c.Relative {
		in, base, work = c.Site.In, "", dir
		site.Files = c.Site.Files
	}
	tmpl := ""
	if len(c.Tmpl) > 0 {
		tmpl = filepath.Join(ctx.Dir(), "tmpl")
		_ = os.MkdirAll(tmpl, 0o755)
		if err := impl.WriteFiles(tmpl, c.Tmpl); err != nil {
			core.Fatal("%s", err)
		}
	}
	if c.Relative {
		// for the in-process run
		was, err := os.Getwd()
		if err == nil {
			err = os.Chdir(dir)
		}
		if err != nil {
			core.Fatal("%s", err)
		}
		defer os.Chdir(was) // nolint:errcheck
	}
	w, err := c.expect(in, base, site, tmpl)
	if c.TmplDir != "" && (len(c.Tmpl) > 0 || c.TmplDir == "missing" || c.TmplDir == "a file") {
		// with the same in it, and others in those it could be taken for
		tmpl = filepath.Join(ctx.Dir(), "tt", c.TmplDir)
		_ = os.MkdirAll(filepath.Dir(tmpl), 0o755)
		switch c.TmplDir {
		case "missing":
			w = wanted{err: &ref.Err{Kind: "plain"}, plain: "missing"}
		case "a file":
			w = wanted{err: &ref.Err{Kind: "plain"}, plain: "a file"}
			if err := os.WriteFile(tmpl, []byte("x"), 0o644); err != nil {
				core.Fatal("%s", err)
			}
		default:
			for d, files := range map[string]map[string]string{c.TmplDir: c.Tmpl, "t1": {"page.tmpl": "another"}, "tx": {"page.tmpl": "another"}, "t": {"page.tmpl": "another"}} {
				if err := impl.WriteFiles(filepath.Join(ctx.Dir(), "tt", d), files); err != nil {
					core.Fatal("%s", err)
				}
			}
		}
		ctx.Class("templates in %s", c.TmplDir)
	}
	if err != nil {
		return fmt.Errorf("in-process: %w", err)
	}
	out := filepath.Join(ctx.Dir(), "o", c.Out)
	before := map[string]string{}
	if c.Out != "" && len(c.Pre) > 0 {
		if err := impl.WriteFiles(out, c.Pre); err != nil {
			core.Fatal("%s", err)
		}
	}
	if c.PreLike {
		old := map[string]string{}
		for n, s := range w.pages {
			old[n] = altered(s)
		}
		if err := impl.WriteFiles(out, old); err != nil {
			core.Fatal("%s", err)
		}
	}
	if c.Here != "" && c.Fault != "file" {
		work = out
		_ = os.MkdirAll(out, 0o755)
		if strings.HasPrefix(c.Here, "x/") {
			_ = os.MkdirAll(filepath.Join(out, "x"), 0o755)
		}
		ctx.Class("runs in the output directory")
	}
	var stdout *os.File
	faulty := false
	full := func(name string) {
		_ = os.MkdirAll(out, 0o755)
		_ = os.Remove(filepath.Join(out, name))
		if err := os.Symlink("/dev/full", filepath.Join(out, name)); err != nil {
			core.Fatal("%s", err)
		}
	}
	if c.Fault != "" && w.err == nil {
		names := impl.Keys(w.pages)
		switch {
		case c.Fault == "stdout" && c.Out == "" && w.page != "":
			if stdout, err = os.OpenFile("/dev/full", os.O_WRONLY, 0); err != nil {
				core.Fatal("%s", err)
			}
			defer stdout.Close()
			faulty = true
		case c.Fault == "full" && len(names) > 0 && w.pages[names[len(names)-1]] != "":
			full(names[len(names)-1])
			faulty = true
		case c.Fault == "index full" && c.Index && c.Out != "":
			full("search_index.json")
			faulty = true
		case c.Fault == "directory" && len(names) > 0:
			_ = os.Remove(filepath.Join(out, names[0]))
			if err := os.MkdirAll(filepath.Join(out, names[0]), 0o755); err != nil {
				core.Fatal("%s", err)
			}
			faulty = true
		case c.Fault == "file" && c.Out != "":
			_ = os.RemoveAll(out)
			_ = os.MkdirAll(filepath.Dir(out), 0o755)
			if err := os.WriteFile(out, []byte("a file"), 0o644); err != nil {
				core.Fatal("%s", err)
			}
			faulty = true
		}
	}
	before = tree(filepath.Join(ctx.Dir(), "o"))
	srcs := tree(dir)

	var args []string
	flag := func(name, val string) {
		if c.Eq || strings.HasPrefix(val, "-") {
			args = append(args, name+"="+val)
			return
		}
		args = append(args, name, val)
	}
	flag("--in", in)
	if c.Out != "" {
		if work == out {
			flag("--out", strings.Replace(c.Here, "BASE", filepath.Base(out), 1))
		} else {
			flag("--out", out)
		}
	}
	if c.HasTag {
		flag("--section-tag", c.Tag)
	}
	if c.Site.Allow {
		args = append(args, "--allow-broken-references")
	}
	if c.Path != "" {
		flag("--section-path", filepath.Join(base, c.Path))
	}
	if c.Index {
		args = append(args, "--save-search-index")
	}
	if c.Ext != "" {
		flag("--text-file-extension", c.Ext)
		if tmpl != "" {
			flag("--text-templates", tmpl)
		}
	} else if tmpl != "" {
		flag("--html-templates", tmpl)
	}
	args = append(args, c.Extra...)
	profile := filepath.Join(ctx.Dir(), "cpu.prof")
	if w.err != nil && c.Profile != "" && c.Profile != "cpu" {
		// either of the failures may be told
		w.err, w.plain = &ref.Err{Kind: "plain"}, ""
	}
	switch c.Profile {
	case "cpu":
		flag("--cpu-profile", profile)
	case "cpu unwritable":
		profile = filepath.Join(ctx.Dir(), "missing", "cpu.prof")
		flag("--cpu-profile", profile)
		if w.err == nil {
			w.err = &ref.Err{Kind: "plain"}
			w.plain = profile
		}
	case "port in use":
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			core.Fatal("%s", err)
		}
		defer l.Close()
		port := fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
		flag("--http-profile", port)
		if w.err == nil {
			w.err = &ref.Err{Kind: "plain"}
			w.plain = port
		}
	}
	if c.Profile != "" {
		ctx.Class("profile: %s", c.Profile)
	}
	r := run(work, stdout, nil, args...)
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%q: %s\nexit status %d\nstdout: %.600s\nstderr: %.1500s", args, fmt.Sprintf(format, a...), r.Code, r.Out, r.Stderr)
	}
	if strings.Contains(r.Stderr, "goroutine ") {
		return fail("it crashes")
	}
	if got := tree(dir); !reflect.DeepEqual(got, srcs) {
		return fail("the documents have changed")
	}
	after := tree(filepath.Join(ctx.Dir(), "o"))
	switch {
	case w.err != nil || faulty:
		ctx.NonTrivial(true)
		if r.Code != 1 {
			return fail("expected a failure: %v", w.err)
		}
		told := r.told()
		if strings.TrimSpace(told) == "" {
			return fail("the failure is not told")
		}
		if w.err != nil && w.err.Kind != "plain" {
			ctx.Class("fails with a location")
			if head := fmt.Sprintf("%s:%d: ", w.err.File, w.err.Pos.Line); !strings.Contains(told, head) {
				return fail("expected the location %q", head)
			}
		} else {
			ctx.Class("fails")
		}
		if !strings.Contains(told, w.plain) {
			return fail("expected it to tell %q", w.plain)
		}
		if c.Out != "" && r.Out != "" {
			return fail("there is output")
		}
		// whatever it has written, other files are left alone
		for n, s := range before {
			rel, err := filepath.Rel(c.Out, n)
			if _, page := w.pages[rel]; err == nil && page || rel == "search_index.json" {
				continue
			}
			if g, ok := after[n]; !ok || g != s {
				return fail("%s has changed", n)
			}
		}
		return nil
	case r.Code != 0:
		return fail("expected success")
	}
	if c.Profile == "cpu" {
		if info, err := os.Stat(profile); err != nil || info.Size() == 0 {
			return fail("there is no profile: %v", err)
		}
	}
	if c.Out == "" {
		ctx.NonTrivial(true)
		ctx.Class("standard output")
		if err := impl.Same("the standard outputs", w.page, r.Out); err != nil {
			return fail("%s", err)
		}
		if !reflect.DeepEqual(before, after) {
			return fail("files have changed: %q", impl.Keys(after))
		}
		return nil
	}
	if r.Out != "" {
		return fail("there is output")
	}
	ctx.NonTrivial(len(w.pages) > 0)
	ctx.Class("files")
	want := before
	for _, d := range []string{"new", "new/deep", c.Out} {
		if strings.HasPrefix(c.Out+"/", d+"/") {
			want[d+"/"] = ""
		}
	}
	for n, s := range w.pages {
		want[filepath.Join(c.Out, n)] = s
	}
	if c.Index {
		n := filepath.Join(c.Out, "search_index.json")
		idx := map[string]map[string]interface{}{}
		if err := json.Unmarshal([]byte(after[n]), &idx); err != nil {
			return fail("the search index: %s", err)
		}
		root, _ := site.Load(in)
		ext := c.Ext
		if ext == "" {
			ext = "html"
		}
		// the index is always that of the whole site
		if err := sameIndex(modelIndex(root, ext), idx); err != nil {
			return fail("the search index: %s", err)
		}
		want[n] = after[n]
	}
	if err := sameNames("the files", impl.Keys(want), impl.Keys(after)); err != nil {
		return fail("%s", err)
	}
	for _, n := range impl.Keys(want) {
		if err := impl.Same(n, want[n], after[n]); err != nil {
			return fail("%s", err)
		}
	}
	return nil
}

// FlagCase is a run with flags alone.
type FlagCase struct {
	Args []string
	Ok   bool
	Tell []string
}

func genFlags(r gen.R) FlagCase {
	switch r.Intn(6) {
	case 0:
		return FlagCase{Args: []string{gen.Pick(r, "--help", "-h")}, Ok: true, Tell: []string{"--in", "--out", "--section-tag", "--section-path", "--save-search-index", "--serve", "--plugin", "--debug", "--allow-broken-references", "--html-templates", "--text-file-extension", "--text-templates"}}
	case 1:
		return FlagCase{Args: append([]string{gen.Pick(r, "--version", "-v")}, gen.Pick(r, nil, []string{"-i", "missing.lit"})...), Ok: true, Tell: []string{booklit.Version}}
	case 2:
		return FlagCase{Args: gen.Pick(r, nil, []string{"-o", "out"}, []string{"--save-search-index"}), Tell: []string{"in"}}
	case 3:
		return FlagCase{Args: []string{"-i", "x.lit", gen.Pick(r, "--nope", "--outt=x", "-Z")}, Tell: []string{"unknown flag"}}
	case 4:
		return FlagCase{Args: []string{"-i", "x.lit", gen.Pick(r, "--serve=abc", "--slow-invoke-threshold=fast", "--http-profile=x")}, Tell: []string{"invalid"}}
	}
	return FlagCase{Args: []string{"-i", gen.Pick(r, "missing.lit", "no/such/dir.lit", ".")}}
}

func runFlags(ctx *core.Ctx, c FlagCase) error {
	dir := ctx.Dir()
	if err := os.WriteFile(filepath.Join(dir, "x.lit"), []byte("\\title{X}\n"), 0o644); err != nil {
		core.Fatal("%s", err)
	}
	before := tree(dir)
	r := run(dir, nil, nil, c.Args...)
	ctx.NonTrivial(true)
	fail := func(what string) error {
		return fmt.Errorf("%q: %s\nexit status %d\nstdout: %.600s\nstderr: %.600s", c.Args, what, r.Code, r.Out, r.Stderr)
	}
	if (r.Code == 0) != c.Ok {
		return fail("wrong exit status")
	}
	told := r.Out
	if !c.Ok {
		told += r.told()
		if strings.TrimSpace(r.told()) == "" {
			return fail("the failure is not told")
		}
	}
	for _, s := range c.Tell {
		if !strings.Contains(told, s) {
			return fail("expected it to tell " + s)
		}
	}
	if !reflect.DeepEqual(before, tree(dir)) {
		return fail("it writes files")
	}
	return nil
}

// ServeRun is a run of the command as a server.
type ServeRun struct {
	Site  SiteCase
	Tmpl  map[string]string
	Paths []string
	Port  int
}

func runServe(ctx *core.Ctx, c ServeRun) error {
	in, _, err := c.Site.Open(ctx)
	if err != nil {
		return err
	}
	assets, tmpl := filepath.Join(ctx.Dir(), "assets"), ""
	if err := impl.WriteFiles(assets, map[string]string{"style.css": "p {}"}); err != nil {
		core.Fatal("%s", err)
	}
	args := []string{"-i", in, "-o", assets}
	if len(c.Tmpl) > 0 {
		tmpl = filepath.Join(ctx.Dir(), "tmpl")
		if err := impl.WriteFiles(tmpl, c.Tmpl); err != nil {
			core.Fatal("%s", err)
		}
		args = append(args, "--html-templates", tmpl)
	}
	ctx.NonTrivial(true)
	base, stop, err := serving(c.Port, func(port int) (*exec.Cmd, func()) {
		bg, cancel := context.WithCancel(context.Background())
		return command(bg, ctx.Dir(), append(args, "--serve", fmt.Sprint(port))...), cancel
	})
	if err != nil {
		return err
	}
	defer stop()
	want := impl.NewServer(in, assets, tmpl)
	for _, p := range c.Paths {
		wantCode, wb, _ := impl.Get(want, p)
		code, body, err := getURL(base + (&url.URL{Path: p}).EscapedPath())
		if err != nil {
			return fmt.Errorf("get %s: %s", p, err)
		}
		if code != wantCode {
			return fmt.Errorf("%s: status %d, expected %d", p, code, wantCode)
		}
		if err := impl.Same("answers for "+p, wb, body); err != nil {
			return err
		}
	}
	return nil
}

// getURL asks a server.
func getURL(u string) (int, string, error) {
	client := &http.Client{
		Timeout:       60 * time.Second,
		Transport:     &http.Transport{DisableKeepAlives: true},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	}
	resp, err := client.Get(u)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(body), err
}

// serving starts a server, and waits until it listens.
func serving(first int, start func(port int) (*exec.Cmd, func())) (string, func(), error) {
	for try := 0; ; try++ {
		// a free port
		port := first + try*101
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err != nil {
			if try > 50 {
				core.Fatal("no free port: %s", err)
			}
			continue
		}
		l.Close()
		cmd, cancel := start(port)
		stop, err, retry := serveAt(cmd, cancel, port)
		if !retry {
			return fmt.Sprintf("http://127.0.0.1:%d", port), stop, err
		}
		if try > 50 {
			core.Fatal("the server does not listen: %s", err)
		}
	}
}

func serveAt(cmd *exec.Cmd, cancel func(), port int) (func(), error, bool) {
	if err := cmd.Start(); err != nil {
		core.Fatal("%s", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	stop := func() { cancel(); <-done }
	for i := 0; i < 600; i++ {
		select {
		case err := <-done:
			cancel()
			// someone else has the port by now, or it does not work at all
			l, lerr := net.Listen("tcp", fmt.Sprintf(":%d", port))
			if lerr != nil {
				return nil, err, true
			}
			l.Close()
			return nil, fmt.Errorf("the server ends at once: %v", err), false
		default:
		}
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			conn.Close()
			return stop, nil, false
		}
		time.Sleep(50 * time.Millisecond)
	}
	stop()
	core.Fatal("the server does not listen on port %d", port)
	return nil, nil, false
}
