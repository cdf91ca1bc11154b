package props

import (
	"fmt"
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register("C04", "pages", core.Opts{
		Rule:  "documents of a bit of everything, built and compared with the reference model; non-trivial when the build succeeds and uses at least three base functions",
		Quick: 4000, Thorough: 100000,
	}, gen.Of(siteGen(gen.Base())), func(ctx *core.Ctx, c SiteCase) error {
		b, err := buildBoth(ctx, c, buildOpts{})
		if b != nil && b.Err != nil {
			ctx.Class("error %s", b.Err.Kind)
		} else if b != nil && b.Model != nil {
			ctx.Class("pages %d", len(b.Model.Pages()))
			ctx.Class("sections %d", count(b.Model))
		}
		ctx.NonTrivial(b != nil && b.Err == nil && strings.Count(joinFiles(c), "\\") >= 3)
		return err
	})
}

func init() {
	core.Register("C04", "calls", core.Opts{
		Rule:  "calls of base functions other than references with any number and kind of arguments, anywhere, built and compared with the reference model, including how it fails; non-trivial with at least three calls",
		Quick: 6000, Thorough: 200000,
	}, gen.Of(func(r gen.R) SiteCase {
		c := SiteCase{Files: map[string]string{}, In: "index.lit"}
		strs := map[string][]string{"styled": {""}, "use-plugin": {"baselit"}, "include-section": {"other.lit", "sub/third.lit"}}
		if r.Chance(30) {
			strs = map[string][]string{"styled": {"", "nope"}}
		}
		for n, s := range wildFiles(r, false, gen.BaseFns, strs) {
			c.Files[n] = string(s)
		}
		return c
	}), func(ctx *core.Ctx, c SiteCase) error {
		ctx.NonTrivial(strings.Count(joinFiles(c), "\\") >= 6)
		b, err := buildBoth(ctx, c, buildOpts{})
		if b != nil && b.Err != nil {
			ctx.Class("error %s", b.Err.Kind)
		} else {
			ctx.Class("built")
		}
		return err
	})
}

func init() {
	p := gen.Base()
	p.Partial, p.Untitled = 25, 6
	core.Register("C04", "sections", core.Opts{
		Rule:  "documents of a bit of everything, partials above all, evaluated and compared with the reference model section by section: titles, bodies, tags, partials, flags and locations; non-trivial when a section of a document has two partials",
		Quick: 3000, Thorough: 60000,
	}, gen.Of(siteGen(p)), func(ctx *core.Ctx, c SiteCase) error {
		m, _, rerr, err := loadBoth(ctx, c)
		if err != nil {
			return err
		}
		if rerr != nil {
			ctx.Class("error %s", rerr.Kind)
			return nil
		}
		most := 0
		m.Walk(func(s *ref.Section) {
			most = max(most, len(s.Partials))
		})
		ctx.Class("partials %d", most)
		ctx.NonTrivial(most >= 2)
		return nil
	})
}

func joinFiles(c SiteCase) string {
	s := ""
	for _, f := range c.Files {
		s += f
	}
	return s
}

// LargeCase is a document with a lot of something.
type LargeCase struct {
	Parts []LargePart
	Split bool
}

// LargePart is a part of it.
type LargePart struct {
	Kind, N int
}

func (c LargeCase) source() string {
	var b strings.Builder
	b.WriteString("\\title{Large}{index}\n\n")
	if c.Split {
		b.WriteString("\\split-sections\n\n")
	}
	b.WriteString("\\table-of-contents\n\n")
	for i, p := range c.Parts {
		each := func(n int, pre, item, sep, end string) {
			b.WriteString(pre)
			for k := 0; k < n; k++ {
				if k > 0 {
					b.WriteString(sep)
				}
				b.WriteString(strings.ReplaceAll(strings.ReplaceAll(item, "%K", fmt.Sprint(k)), "%I", fmt.Sprint(i)))
			}
			b.WriteString(end + "\n\n")
		}
		switch p.Kind {
		case 0:
			each(p.N*4, "", "word \\italic{x%K}", " ", "")
		case 1:
			each(p.N*2, "", "Paragraph \\bold{%K} & <more>.", "\n\n", "")
		case 2:
			each(p.N*3, "\\list", "{item \\code{%K}}", "", "")
		case 3:
			each(p.N, "\\table", "{\\table-row{a %K}{\\bold{b}}{c}{d}}", "", "")
		case 4:
			each(p.N*2, "\\definitions", "{\\definition{term %K}{meaning \\italic{%K}}}", "", "")
		case 5:
			each(p.N, "", "\\section{\n\\title{Part %I %K}{s-%I-%K}\n\ntext \\reference{s-%I-%K}\n}", "\n\n", "")
		case 6:
			each(p.N, "", "\\target{t-%I-%K}{Target %K} \\reference{t-%I-%K}", "\n", "")
		case 7:
			each(p.N*5, "\\code{{{\n", "  line %K", "\n", "\n}}}")
		case 8:
			each(p.N*3, "\\ordered-list", "{\n one %K\n\n two\n}", "", "")
		case 9:
			each(p.N/10+1, "", "\\section{\n\\title{Deep %I %K}\n", "\n", "x"+strings.Repeat("\n}", p.N/10+1))
		case 10:
			each(p.N*2, "\\inset{", "line %K", "\n", "}")
		}
	}
	return b.String()
}

func init() {
	core.Register("C04", "large", core.Opts{
		Rule:  "documents with up to thousands of words, paragraphs, items, rows, sections or targets, built and compared with the reference model; all are non-trivial",
		Quick: 60, Thorough: 2000, HangAfter: 120 * time.Second,
	}, gen.Of(func(r gen.R) LargeCase {
		c := LargeCase{Split: r.Chance(40)}
		for n := r.Range(1, 3); n > 0; n-- {
			c.Parts = append(c.Parts, LargePart{Kind: r.Intn(11), N: gen.Pick(r, r.Range(1, 30), r.Range(30, 150), r.Range(150, 400))})
		}
		return c
	}), func(ctx *core.Ctx, c LargeCase) error {
		ctx.NonTrivial(true)
		for _, p := range c.Parts {
			ctx.Class("kind %d", p.Kind)
		}
		b, err := buildBoth(ctx, SiteCase{Files: map[string]string{"index.lit": c.source()}, In: "index.lit"}, buildOpts{Index: true})
		if err == nil && b.Err != nil {
			return fmt.Errorf("it does not build: %v", b.Err)
		}
		return err
	})
}
