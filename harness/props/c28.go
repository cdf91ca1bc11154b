package props

import (
	"fmt"
	"path"
	"path/filepath"
	"strings"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

// InlineCase is a site, and the same in one file.
type InlineCase struct {
	Files map[string]string
	One   string
	In    string
}

// inlined puts files which are included where they are included.
func inlined(docs map[string]gen.Doc, name string, n *int) gen.Doc {
	dir := path.Dir(name)
	var block func(b gen.Block) gen.Block
	var arg func(a gen.Arg) gen.Arg
	inls := func(xs []gen.Inline) []gen.Inline {
		var out []gen.Inline
		for _, x := range xs {
			if v, ok := x.(gen.Interp); ok {
				x = v.In
				if i, ok := x.(*gen.Inv); ok {
					as := []gen.Arg{}
					for _, a := range i.Args {
						as = append(as, arg(a))
					}
					x = &gen.Inv{Fn: i.Fn, Args: as}
				}
				out = append(out, gen.Interp{In: x})
				continue
			}
			if i, ok := x.(*gen.Inv); ok {
				if i.Fn == "include-section" {
					*n++
					rel := fmt.Sprint(i.Args[0].Line[0])
					out = append(out, gen.Call("section", gen.Arg{Kind: gen.ABlocks, Blocks: inlined(docs, path.Join(dir, rel), n)}))
					continue
				}
				as := []gen.Arg{}
				for _, a := range i.Args {
					as = append(as, arg(a))
				}
				x = &gen.Inv{Fn: i.Fn, Args: as}
			}
			out = append(out, x)
		}
		return out
	}
	block = func(b gen.Block) gen.Block {
		var out gen.Block
		for _, l := range b.Lines {
			out.Lines = append(out.Lines, inls(l))
		}
		return out
	}
	arg = func(a gen.Arg) gen.Arg {
		o := a
		o.Line, o.Blocks = inls(a.Line), nil
		for _, b := range a.Blocks {
			o.Blocks = append(o.Blocks, block(b))
		}
		return o
	}
	var out gen.Doc
	for _, b := range docs[name] {
		out = append(out, block(b))
	}
	return out
}

func genInline(r gen.R) InlineCase {
	p := gen.Base()
	p.Include, p.Section, p.MaxSecs, p.Split, p.SplitRoot, p.TOC = 25, 10, 9, 20, 40, 4
	p.Layout = gen.Printer{}
	if r.Chance(50) {
		p.Plugin, p.UsePlug, p.PlugInl = "vt", 100, 8
		p.Inl = append(p.Inl, func(g *gen.G) gen.Inline { return gen.Call("v-str", gen.T(g.Words())) },
			func(g *gen.G) gen.Inline { return gen.Call("v-count") })
	}
	if r.Chance(20) {
		p.Unknown, p.Dup = 3, 3
	}
	g, in := gen.Site(r, p)
	n := 0
	pr := gen.Printer{}
	return InlineCase{Files: g.Files, One: pr.Print(inlined(g.Docs, in, &n)), In: in}
}

// IncludeCase is files which include each other.
type IncludeCase struct {
	Site SiteCase
}

func genIncludes(r gen.R) IncludeCase {
	c := IncludeCase{Site: SiteCase{Files: map[string]string{}, In: "a.lit", SameTime: r.Chance(70)}}
	if r.Chance(6) {
		// a long chain of files
		names := []string{"a.lit"}
		for i := r.Range(10, 70); i > 0; i-- {
			names = append(names, gen.Pick(r, "", "d/", "d/e/")+fmt.Sprintf("c%d.lit", i))
		}
		for i, n := range names {
			to := gen.Pick(r, "", "", "", "nowhere.lit", "a.lit", names[r.Intn(len(names))])
			if i+1 < len(names) {
				to = names[i+1]
			}
			src := fmt.Sprintf("\\title{File %s}{t-%d}\n\n", n, i)
			if to != "" {
				src += "\\include-section{" + spell(r, path.Dir(n), to) + "}\n\n"
			}
			c.Site.Files[n] = src + "Text of " + n + ".\n"
		}
		return c
	}
	dirs := []string{"", "d/", "d/e/", "f/"}
	bases := []string{"a.lit", "b.lit", "c"}
	if r.Chance(30) {
		bases = append(bases, gen.Pick(r, " lead.lit", "trail.lit ", "g h.lit", ".hidden.lit", "x.md", "..lit", "é.lit", "A.LIT", "-i", "t\u00a0.lit", "p%20q.lit", "~.lit", "*.lit"))
	}
	var names []string
	for _, d := range dirs {
		for _, b := range bases {
			if d+b == "a.lit" || r.Chance(50) {
				names = append(names, d+b)
			}
		}
	}
	wild := r.Chance(35) // any includes, also around in circles
	for i, n := range names {
		src := fmt.Sprintf("\\title{File %s}{t-%d}\n\n", n, i)
		if r.Chance(15) {
			src += "\\split-sections\n\n"
		}
		for k := r.Weighted(2, 3, 2, 1); k > 0; k-- {
			var to string
			switch {
			case wild:
				to = names[r.Intn(len(names))]
				if r.Chance(10) {
					to = gen.Pick(r, "nowhere.lit", "d/nowhere.lit", "d", "a.lit/x")
				}
			case i+1 < len(names):
				to = names[r.Range(i+1, len(names)-1)]
			default:
				continue
			}
			call := "\\include-section{" + spell(r, path.Dir(n), to) + "}"
			if r.Chance(30) {
				call = "\\section{\n  \\title{Within}\n\n  " + call + "\n}"
			}
			src += call + "\n\n"
		}
		c.Site.Files[n] = src + "Text of " + n + ".\n"
	}
	return c
}

// spell is a relative path from a directory.
func spell(r gen.R, dir, to string) string {
	rel, err := filepath.Rel(dir, to)
	if err != nil {
		core.Fatal("%s", err)
	}
	switch r.Intn(7) {
	case 0:
		rel = "./" + rel
	case 6:
		if r.Chance(40) {
			// relative all the same
			rel = "/" + rel
		}
	case 1:
		if i := strings.LastIndex(rel, "/"); i > 0 && !strings.HasSuffix(rel[:i], "..") {
			rel = rel[:i] + "//" + rel[i+1:]
		}
	case 2:
		if i := strings.LastIndex(rel, "/"); i > 0 && !strings.HasSuffix(rel[:i], "..") {
			rel = rel[:i] + "/../" + path.Base(rel[:i]) + rel[i:]
		}
	case 3:
		if dir != "." {
			rel = "../" + path.Base(dir) + "/" + rel
		}
	}
	return rel
}

func init() {
	core.Register("C28", "inlined", core.Opts{
		Rule:  "a site of several files, and the same with the text of each included file as a section in place of the call which includes it: same pages and search index, or both fail for the same kind of reason; non-trivial when files are included and it builds",
		Quick: 6000, Thorough: 120000,
	}, gen.Of(genInline), func(ctx *core.Ctx, c InlineCase) error {
		a, aerr, err := buildIn(ctx, "a", c.Files, c.In, true)
		if err != nil {
			return err
		}
		b, berr, err := buildIn(ctx, "b", map[string]string{c.In: c.One}, c.In, true)
		if err != nil {
			return err
		}
		if (aerr == nil) != (berr == nil) || aerr != nil && errClass(aerr) != errClass(berr) {
			return fmt.Errorf("several files: %v; one: %v", aerr, berr)
		}
		if aerr != nil {
			ctx.Class("fails")
			return nil
		}
		ctx.Class("%d files", len(c.Files))
		ctx.NonTrivial(len(c.Files) > 1)
		if err := sameNames("output files", impl.Keys(a), impl.Keys(b)); err != nil {
			return err
		}
		for _, n := range impl.Keys(a) {
			if err := impl.Same(n, a[n], b[n]); err != nil {
				return err
			}
		}
		return nil
	})
	core.Register("C28", "paths", core.Opts{
		Rule:  "up to 12 files in 4 directories, with the same names and often the same modification times, which include each other by paths spelled in many ways, once or several times, or around in circles, or files which do not exist: pages as the model has them, or the error; non-trivial when three files are read",
		Quick: 6000, Thorough: 120000,
	}, gen.Of(genIncludes), func(ctx *core.Ctx, c IncludeCase) error {
		b, err := buildBoth(ctx, c.Site, buildOpts{Index: true})
		if err != nil {
			return err
		}
		if b.Err != nil {
			ctx.Class("error %s", b.Err.Kind)
			if strings.Contains(b.GoErr.Error(), "includes itself") {
				ctx.Class("around in circles")
			}
			ctx.NonTrivial(true)
			return nil
		}
		ctx.NonTrivial(count(b.Model) > 2)
		return nil
	})
}
