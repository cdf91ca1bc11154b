package props

import (
	"errors"
	"path/filepath"
	"strings"

	"github.com/vito/booklit/booklitcmd"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

func init() {
	core.Register("C24", "templates", core.Opts{
		Rule:  "documents rendered as text, with generated templates for most of the styles and kinds of content: the pages must be what a model of the templates gives, unescaped, up to blank lines; non-trivial when built and at least two of the templates are for what is in the documents",
		Quick: 8000, Thorough: 300000,
	}, gen.Of(func(r gen.R) TmplCase {
		c := genTmpl(r, gen.Pick(r, "txt", "md", "html", "x.y"))
		return c
	}), runTmpl)
	core.Register("C24", "bundled", core.Opts{
		Rule:  "documents of the content which there are bundled text templates for, and now and then others, rendered as text with no templates: the pages must be as a model of the bundled templates gives up to blank lines, with all of the text, and fail for anything else; non-trivial when built with at least two sections or preformatted content",
		Quick: 6000, Thorough: 200000,
	}, gen.Of(func(r gen.R) TmplCase {
		p := gen.Base()
		p.Style, p.Link, p.Image, p.Ref, p.Target, p.Code, p.List, p.Table, p.Defs, p.CodeBlock, p.PreBlock, p.Quote = 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
		p.Exotic = 10
		p.Section, p.TOC, p.Plugin, p.UsePlug, p.PlugInl, p.PlugBlk = 25, 8, "vt", 100, 3, 12
		if r.Chance(15) {
			p.Style, p.Link, p.List = 1, 1, 1
		}
		p.Inl = append(p.Inl, func(g *gen.G) gen.Inline { return gen.Call("v-lazy", gen.T(g.Words())) })
		p.Blk = append(p.Blk,
			func(g *gen.G) gen.Inline {
				return gen.Call("inset", gen.Arg{Kind: gen.ABlocks, Blocks: g.Blocks(gen.Ctx{Depth: 1}, 3)})
			},
			func(g *gen.G) gen.Inline {
				var ls []gen.BLine
				for n := g.Range(1, 4); n > 0; n-- {
					ls = append(ls, gen.BLine{Indent: gen.Pick(g.R, "", "", "  ", "\t"), Words: []gen.Inline{gen.Text(g.Words())}})
				}
				return gen.Call(gen.Pick(g.R, "inset", "v-lazy"), gen.Arg{Kind: gen.APre, Lines: ls})
			})
		return TmplCase{SiteCase: siteGen(p)(r), Ext: gen.Pick(r, "txt", "md")}
	}), func(ctx *core.Ctx, c TmplCase) error {
		in, site, err := c.Open(ctx)
		if err != nil {
			return err
		}
		out := filepath.Join(ctx.Dir(), "out")
		cmd := &booklitcmd.Command{In: in, Out: out, SaveSearchIndex: true}
		cmd.TextEngine.FileExtension = c.Ext
		goErr := impl.Build(cmd)
		root, rerr := site.Load(in)
		want := map[string]string{}
		if rerr == nil {
			p := &ref.Plain{Ext: c.Ext}
			for _, s := range root.Pages() {
				var text string
				text, rerr = p.Page(s)
				if rerr != nil {
					break
				}
				want[s.Primary.Name+"."+c.Ext] = text
			}
		}
		if errors.Is(rerr, ref.ErrVague) {
			return nil
		}
		if err := impl.SameErr(rerr, goErr); err != nil {
			return err
		}
		if rerr != nil {
			ctx.Class("error %s", rerr.Kind)
			return nil
		}
		got, err := impl.ReadOut(out)
		if err != nil {
			return err
		}
		idx, err := impl.LoadIndex(filepath.Join(out, "search_index.json"))
		if err != nil {
			return err
		}
		if err := sameIndex(modelIndex(root, c.Ext), idx); err != nil {
			return err
		}
		delete(got, "search_index.json")
		if err := sameNames("output files", impl.Keys(want), impl.Keys(got)); err != nil {
			return err
		}
		ctx.NonTrivial(count(root) > 1 || strings.Contains(ref.DumpSection(root), "(pre"))
		for _, n := range impl.Keys(want) {
			if err := impl.Same(n, textOf(want[n]), textOf(got[n])); err != nil {
				return err
			}
		}
		return nil
	})
}
