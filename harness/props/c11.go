package props

import (
	"fmt"
	"strings"

	"golang.org/x/net/html"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

// navs lists the tables of contents on a page, as nested lists.
func navs(src string) []string {
	var out []string
	z := html.NewTokenizer(strings.NewReader(src))
	depth := 0
	cur := ""
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			return out
		}
		t := z.Token()
		switch {
		case t.Data == "nav" && tt == html.StartTagToken:
			if depth == 0 {
				cur = ""
			}
			depth++
			cur += "("
		case t.Data == "nav" && tt == html.EndTagToken:
			depth--
			cur += ")"
			if depth == 0 {
				out = append(out, cur)
			}
		case depth == 0:
		case t.Data == "li" && tt == html.StartTagToken:
			cur += "<"
		case t.Data == "li" && tt == html.EndTagToken:
			cur += ">"
		case t.Data == "a" && tt == html.StartTagToken:
			for _, a := range t.Attr {
				if a.Key == "href" {
					cur += a.Val + " "
				}
			}
		case tt == html.TextToken:
			cur += strings.TrimSpace(t.Data)
		}
	}
}

func (s *TreeSec) toc() string {
	if len(s.Kids) == 0 || s.Omit > 0 {
		return ""
	}
	out := "("
	for _, k := range s.Kids {
		u := k.pageOwner().Tag + ".html"
		if k.pageOwner() != k {
			u += "#" + k.Tag
		}
		out += "<" + u + " " + k.num + " Title " + k.Tag + k.toc() + ">"
	}
	return out + ")"
}

func init() {
	core.Register("C11", "trees", core.Opts{
		Rule:  "trees of up to 16 inline and included sections with flags anywhere, and tables of contents in some: each must list the sections below it, nested, in order, with number, title and link, leaving out the children of those which omit them; non-trivial when some table of contents has at least two entries",
		Quick: 4000, Thorough: 150000,
	}, gen.Of(func(r gen.R) TreeCase {
		t := genTree(r, 16, 4)
		if t.TOC == 0 && r.Chance(60) {
			t.TOC = 1 + r.Intn(4)
		}
		return TreeCase{Root: t}
	}), func(ctx *core.Ctx, c TreeCase) error {
		out, err := buildFiles(ctx.Dir(), "a", "o", c.sources())
		if err != nil {
			return err
		}
		want := map[string][]string{}
		omits := false
		c.Root.walk(func(s *TreeSec) {
			n := s.pageOwner().Tag + ".html"
			if _, ok := want[n]; !ok {
				want[n] = nil
			}
			omits = omits || s.Omit > 0
			if s.TOC > 0 {
				if t := s.toc(); t != "" {
					want[n] = append(want[n], t)
					ctx.NonTrivial(strings.Count(t, "<") > 1)
					ctx.Class("entries %d", strings.Count(t, "<"))
				}
			}
		})
		if omits {
			ctx.Class("omits children")
		}
		for n := range want {
			if err := sameNames(fmt.Sprintf("tables of contents on %s", n), want[n], navs(out[n])); err != nil {
				return err
			}
		}
		_, err = integrity(out, nil)
		return err
	})

	core.Register("C11", "titles", core.Opts{
		Rule:  "documents with rich titles (styles, auxiliary content, references) and tables of contents, compared with the reference model; non-trivial with a table of contents and two sections",
		Quick: 2500, Thorough: 80000,
	}, gen.Of(siteGen(func() gen.Profile {
		p := gen.Base()
		p.RichTitles, p.RefTitles, p.TOC, p.Section, p.Aux, p.Omit = 90, 20, 20, 30, 12, 15
		p.Split, p.MaxSecs = 25, 10
		return p
	}())), func(ctx *core.Ctx, c SiteCase) error {
		b, err := buildBoth(ctx, c, buildOpts{})
		if b != nil && b.Err == nil && b.Model != nil {
			n := 0
			for _, k := range impl.Keys(b.Out) {
				n += len(navs(b.Out[k]))
			}
			ctx.Class("tables %d", n)
			ctx.NonTrivial(n > 0 && count(b.Model) > 1)
		}
		return err
	})
}
