// Package props has the checks of each property.
package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/render"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

// SiteCase is a set of source files.
type SiteCase struct {
	Files map[string]string
	In    string
	// Allow broken references.
	Allow bool `json:",omitempty"`
	// SameTime gives all files the same modification time.
	SameTime bool `json:",omitempty"`
}

// Open writes the files, and gives the path of the main one and the model.
func (c SiteCase) Open(ctx *core.Ctx) (string, *ref.Site, error) {
	dir := filepath.Join(ctx.Dir(), "src")
	if err := impl.WriteFiles(dir, c.Files); err != nil {
		core.Fatal("write: %s", err)
	}
	if c.SameTime {
		at := time.Now().Add(-time.Hour)
		for n := range c.Files {
			if err := os.Chtimes(filepath.Join(dir, n), at, at); err != nil {
				core.Fatal("%s", err)
			}
		}
	}
	site := &ref.Site{Files: map[string]string{}, AllowBroken: c.Allow, Registry: registry}
	for n, s := range c.Files {
		site.Files[filepath.Join(dir, n)] = s
	}
	return filepath.Join(dir, c.In), site, nil
}

// registry has the model of each plugin.
var registry = ref.Plugins()

// modelPages renders all pages with the model.
func modelPages(root *ref.Section, h *ref.HTML) (map[string]string, []string, *ref.Err) {
	out := map[string]string{}
	var order []string
	for _, s := range root.Pages() {
		html, err := h.Page(s)
		if err != nil {
			return out, order, err
		}
		name := s.Primary.Name + ".html"
		out[name] = html
		order = append(order, name)
	}
	return out, order, nil
}

// buildBoth builds with the model and for real, and compares: whether it
// fails and how, the names of the files, and the content of each.
type buildOpts struct {
	Index     bool
	Templates string
	HTML      *ref.HTML
	// SkipContent only compares names.
	SkipContent bool
}

type built struct {
	Out   map[string]string
	Model *ref.Section
	Err   *ref.Err
	GoErr error
	Dir   string
}

func buildBoth(ctx *core.Ctx, c SiteCase, o buildOpts) (*built, error) {
	in, site, err := c.Open(ctx)
	if err != nil {
		return nil, err
	}
	out := filepath.Join(ctx.Dir(), "out")
	cmd := &booklitcmd.Command{In: in, Out: out, SaveSearchIndex: o.Index, AllowBrokenReferences: c.Allow}
	cmd.HTMLEngine.Templates = o.Templates
	goErr := impl.Build(cmd)

	h := o.HTML
	if h == nil {
		h = &ref.HTML{}
	}
	root, rerr := site.Load(in)
	var pages map[string]string
	if rerr == nil {
		pages, _, rerr = modelPages(root, h)
	}
	b := &built{Model: root, Err: rerr, GoErr: goErr, Dir: out}
	if rerr != nil {
		root = nil
	}
	if err := impl.SameErr(rerr, goErr); err != nil {
		return b, err
	}
	if rerr != nil {
		return b, nil
	}
	got, err := impl.ReadOut(out)
	if err != nil {
		return b, err
	}
	b.Out = got
	if o.Index {
		pages["search_index.json"] = ""
	}
	if err := sameNames("output files", impl.Keys(pages), impl.Keys(got)); err != nil {
		return b, err
	}
	if o.SkipContent {
		return b, nil
	}
	for _, n := range impl.Keys(pages) {
		if !strings.HasSuffix(n, ".html") {
			continue
		}
		if err := impl.Same(n, impl.HTML(pages[n]), impl.HTML(got[n])); err != nil {
			return b, err
		}
	}
	return b, nil
}

func sameNames(what string, want, got []string) error {
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		return fmt.Errorf("%s: want %q, got %q", what, want, got)
	}
	return nil
}

// loadBoth evaluates with the model and for real, and compares the sections.
func loadBoth(ctx *core.Ctx, c SiteCase) (*ref.Section, *booklit.Section, *ref.Err, error) {
	in, site, err := c.Open(ctx)
	if err != nil {
		return nil, nil, nil, err
	}
	booklit.AllowBrokenReferences = c.Allow
	sec, goErr := impl.Load(in)
	root, rerr := site.Load(in)
	if err := impl.SameErr(rerr, goErr); err != nil {
		return nil, nil, rerr, err
	}
	if rerr != nil {
		return nil, nil, rerr, nil
	}
	return root, sec, nil, impl.Same("sections", ref.DumpSection(root), impl.DumpSection(sec))
}

func siteGen(p gen.Profile) func(gen.R) SiteCase {
	return func(r gen.R) SiteCase {
		p := p
		if r.Chance(8) {
			// deep rather than wide
			p.MaxDepth, p.MaxBlocks = 9, 3
			p.Section *= 4
		}
		g, in := gen.Site(r, p)
		return SiteCase{Files: g.Files, In: in}
	}
}

// pageOf renders one page.
func pageOf(s *booklit.Section) (string, error) {
	return impl.RenderPage(render.NewHTMLEngine(), s)
}

// eachSection walks real sections along with model ones.
func eachSection(m *ref.Section, s *booklit.Section, f func(*ref.Section, *booklit.Section) error) error {
	if err := f(m, s); err != nil {
		return err
	}
	if len(m.Children) != len(s.Children) {
		return fmt.Errorf("section %q: want %d children, got %d", m.Primary.Name, len(m.Children), len(s.Children))
	}
	for i := range m.Children {
		if err := eachSection(m.Children[i], s.Children[i], f); err != nil {
			return err
		}
	}
	return nil
}

func count(m *ref.Section) int {
	n := 0
	m.Walk(func(*ref.Section) { n++ })
	return n
}
