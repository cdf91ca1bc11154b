package props

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/vito/booklit/booklitcmd"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

// TmplCase is a site with templates.
type TmplCase struct {
	SiteCase
	Ext   string // "" for HTML
	Tmpl  map[string]ref.Template
	Noise map[string]string // other files among the templates
	End   map[string]string // how template files end
	Other bool              `json:",omitempty"` // with templates for the other format as well
}

// tmplData is what may be in a template, by name.
var tmplData = map[string]string{
	"page": "SP", "section": "SB", "note": "SB", "tip": "SB", "note-page": "SP", "tip-page": "SP", "lone-page": "SP", "toc": "C", "paragraph": "Q", "preformatted": "Qq",
	"link": "L", "image": "I", "list": "l", "table": "t", "definitions": "d", "target": "g", "reference": "r",
	"bold": "Y", "italic": "Y", "inset": "Y", "verbatim": "Y", "raw-html": "Y", "aside": "Y", "fancy": "Y", "plain": "Y", "larger": "Y", "smaller": "Y", "strike": "Y", "superscript": "Y", "subscript": "Y",
}

func genTemplate(r gen.R, kinds string, html, raw bool, depth int) ref.Template {
	all := ref.Ops(kinds, html)
	var out ref.Template
	for n := r.Range(1, 4); n > 0; n-- {
		switch r.Weighted(6, 2, 2) {
		case 0:
			op := gen.Pick(r, all...)
			if !raw && strings.HasPrefix(op, "raw") {
				op = "content"
			}
			out = append(out, ref.Item{Op: op})
		case 1:
			out = append(out, ref.Item{Op: "lit", Text: gen.Pick(r, "lit ", " x", "- ", "=", "é")})
		case 2:
			if html && depth > 0 {
				out = append(out, ref.Item{Op: "in", Text: gen.Pick(r, "x-flow", "div", "em", "section"), Kids: genTemplate(r, kinds, html, raw, depth-1)})
			} else {
				out = append(out, ref.Item{Op: "lit", Text: gen.Pick(r, "> ", "* ", "\n", "\n\n", "`")})
			}
		}
	}
	return out
}

func genTmpl(r gen.R, ext string) TmplCase {
	html := ext == ""
	p := gen.Base()
	p.Plugin, p.UsePlug, p.PlugInl, p.PlugBlk, p.Exotic = "vt", 100, 8, 3, 0
	p.MaxSecs, p.MaxBlocks = 7, 4
	raw := r.Chance(50)
	if raw {
		p.Special, p.Unicode = 0, 5
	}
	c := TmplCase{Ext: ext, Tmpl: map[string]ref.Template{}, Noise: map[string]string{}, End: map[string]string{}}
	names := impl.Keys(tmplData)
	chance := gen.Pick(r, 10, 30, 60)
	for _, n := range names {
		pct := chance
		if !html && tmplData[n] != "Q" {
			pct = 95
		}
		if !html && n == "preformatted" {
			pct = 60
		}
		if n == "fancy" || n == "plain" || n == "note" || n == "tip" {
			pct = 96
		}
		if r.Chance(pct) {
			c.Tmpl[n] = genTemplate(r, tmplData[n], html, raw, 2)
			c.End[n] = gen.Pick(r, "", "\n", "\n", "\n\n")
		}
	}
	p.Styles, p.Styled = []string{"note", "tip"}, 35
	if r.Chance(8) {
		p.Styles = append(p.Styles, "lone")
	}
	p.Inl = append(p.Inl, func(g *gen.G) gen.Inline {
		return gen.Call("v-styled", gen.T(gen.Pick(g.R, "fancy", "plain", "fancy", "bold", "inset")), gen.Line(g.Inlines(gen.Ctx{Depth: 2, NoRef: true})...), gen.Line(g.Inlines(gen.Ctx{Depth: 2, NoRef: true})...))
	})
	p.Blk = append(p.Blk, func(g *gen.G) gen.Inline {
		return gen.Call("v-styled", gen.T(gen.Pick(g.R, "fancy", "plain")), gen.Arg{Kind: gen.ABlocks, Blocks: g.Blocks(gen.Ctx{Depth: 1}, 2)}, gen.T("x"))
	}, func(g *gen.G) gen.Inline {
		return gen.Call("v-block", gen.Line(g.Inlines(gen.Ctx{Depth: 2})...))
	})
	c.SiteCase = siteGen(p)(r)
	if r.Chance(30) {
		c.Noise = map[string]string{"bold.tmpl.orig": "{{nope", "readme.txt": "{{", "sub/bold.tmpl": "not this", "odd.tmpl": "{{.Nope}}"}
	}
	c.Other = r.Chance(8)
	return c
}

// textOf is text output, other than for how many blank lines there
// are, and spaces at the end of lines.
func textOf(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimRight(l, " \t")
		if l == "" && (len(out) == 0 || out[len(out)-1] == "") {
			continue
		}
		out = append(out, l)
	}
	for len(out) > 0 && out[len(out)-1] == "" {
		out = out[:len(out)-1]
	}
	return strings.Join(out, "\n")
}

func runTmpl(ctx *core.Ctx, c TmplCase) error {
	in, site, err := c.Open(ctx)
	if err != nil {
		return err
	}
	dir := filepath.Join(ctx.Dir(), "tmpl")
	files := map[string]string{}
	for n, s := range c.Noise {
		files[n] = s
	}
	for n, t := range c.Tmpl {
		files[n+".tmpl"] = t.Source() + c.End[n]
		if strings.HasSuffix(t.Source(), "\n") {
			// which would not count
			files[n+".tmpl"] = t.Source() + "{{\"\"}}" + c.End[n]
		}
		if t.Source() == "" {
			files[n+".tmpl"] = "{{\"\"}}"
		}
	}
	if c.Ext == "" {
		files["nav.tmpl"] = ref.Nav
	}
	if err := impl.WriteFiles(dir, files); err != nil {
		core.Fatal("%s", err)
	}
	out := filepath.Join(ctx.Dir(), "out")
	cmd := &booklitcmd.Command{In: in, Out: out}
	var page func(*ref.Section) (string, *ref.Err)
	norm := impl.HTML
	ext := "html"
	if c.Ext == "" {
		cmd.HTMLEngine.Templates = dir
		page = (&ref.HTML{Tmpl: c.Tmpl}).Page
	} else {
		cmd.TextEngine.Templates = dir
		cmd.TextEngine.FileExtension = c.Ext
		page = (&ref.Plain{Tmpl: c.Tmpl, Ext: c.Ext}).Page
		norm, ext = textOf, c.Ext
	}
	if c.Other {
		// which make no difference
		other := filepath.Join(ctx.Dir(), "other")
		if err := impl.WriteFiles(other, map[string]string{"page.tmpl": "other", "section.tmpl": "{{.Nope}}", "bold.tmpl": "{{end}}"}); err != nil {
			core.Fatal("%s", err)
		}
		if c.Ext == "" {
			cmd.TextEngine.Templates = other
		} else {
			cmd.HTMLEngine.Templates = other
		}
	}
	goErr := impl.Build(cmd)
	root, rerr := site.Load(in)
	want := map[string]string{}
	if rerr == nil {
		for _, s := range root.Pages() {
			var text string
			text, rerr = page(s)
			if rerr != nil {
				break
			}
			want[s.Primary.Name+"."+ext] = text
		}
	}
	if errors.Is(rerr, ref.ErrVague) {
		ctx.Class("vague")
		return nil
	}
	if err := impl.SameErr(rerr, goErr); err != nil {
		return err
	}
	if rerr != nil {
		ctx.Class("error %s", rerr.Kind)
		if rerr.Kind == "plain" && strings.Contains(rerr.Msg, "not found") && !strings.Contains(goErr.Error(), rerr.Msg) {
			return fmt.Errorf("the error does not tell that %s: %s", rerr.Msg, goErr)
		}
		return nil
	}
	got, err := impl.ReadOut(out)
	if err != nil {
		return err
	}
	if err := sameNames("output files", impl.Keys(want), impl.Keys(got)); err != nil {
		return err
	}
	used := 0
	for n := range c.Tmpl {
		if n == "section" || n == "page" || n == "toc" || strings.Contains(joinFiles(c.SiteCase), n) {
			used++
		}
	}
	ctx.NonTrivial(used >= 2)
	for _, n := range impl.Keys(want) {
		if err := impl.Same(n, norm(want[n]), norm(got[n])); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	core.Register("C23", "templates", core.Opts{
		Rule:  "documents with styled sections and content, and generated templates for some of the styles and kinds of content, which use all that templates are given: the pages must be what a model of the templates gives; non-trivial when built and at least two of the templates are for what is in the documents",
		Quick: 12000, Thorough: 400000,
	}, gen.Of(func(r gen.R) TmplCase { return genTmpl(r, "") }), runTmpl)
}
