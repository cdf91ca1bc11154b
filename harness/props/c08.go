package props

import (
	"fmt"
	"net/url"
	"strings"

	"golang.org/x/net/html"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

func refProfile() gen.Profile {
	p := gen.Base()
	p.Link, p.Image = 0, 0
	p.Ref, p.Target = 18, 12
	p.Split, p.SplitRoot, p.Single = 25, 40, 6
	p.Exotic, p.ExtraTags, p.RefTitles = 25, 30, 15
	p.Section, p.Include, p.TOC = 22, 8, 3
	p.Partial = 0 // partials are not rendered by default
	p.MaxSecs = 9
	return p
}

// page is the links and ids of a page.
type page struct {
	hrefs []string
	ids   map[string]int
}

func scan(src string) page {
	p := page{ids: map[string]int{}}
	z := html.NewTokenizer(strings.NewReader(src))
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			return p
		}
		if tt != html.StartTagToken && tt != html.SelfClosingTagToken {
			continue
		}
		for _, a := range z.Token().Attr {
			switch a.Key {
			case "href":
				p.hrefs = append(p.hrefs, a.Val)
			case "id":
				p.ids[a.Val]++
			}
		}
	}
}

// integrity checks that each link leads somewhere, as a browser would follow
// it. Links for which skip is true are not checked.
func integrity(out map[string]string, skip func(string) bool) (int, error) {
	pages := map[string]page{}
	for n, s := range out {
		if strings.HasSuffix(n, ".html") {
			pages[n] = scan(s)
		}
	}
	links := 0
	for _, n := range impl.Keys(pages) {
		base := &url.URL{Scheme: "https", Host: "site.example", Path: "/docs/" + n}
		for _, h := range pages[n].hrefs {
			if skip != nil && skip(h) {
				continue
			}
			links++
			u, err := base.Parse(h)
			if err != nil {
				return links, fmt.Errorf("%s: link %q: %v", n, h, err)
			}
			name := strings.TrimPrefix(u.Path, "/docs/")
			to, ok := pages[name]
			if u.Host != base.Host || u.Scheme != base.Scheme || u.RawQuery != "" || !ok {
				return links, fmt.Errorf("%s: link %q leads to %q, which is not one of %q", n, h, u, impl.Keys(pages))
			}
			if f := u.Fragment; f != "" && to.ids[f] == 0 {
				return links, fmt.Errorf("%s: link %q: %s has no %q", n, h, name, f)
			}
		}
	}
	return links, nil
}

func init() {
	core.Register("C08", "links", core.Opts{
		Rule:  "documents over several files, with references to sections and targets anywhere, split in any way, with tags of any characters: each link must lead to an existing page and anchor, and be the one the reference model expects; non-trivial with at least three links and a target or two pages",
		Quick: 3000, Thorough: 120000,
	}, gen.Of(siteGen(refProfile())), func(ctx *core.Ctx, c SiteCase) error {
		b, err := buildBoth(ctx, c, buildOpts{})
		if err != nil {
			return err
		}
		if b.Err != nil {
			ctx.Class("error %s", b.Err.Kind)
			return nil
		}
		n, err := integrity(b.Out, nil)
		if n > 9 {
			n = 9
		}
		ctx.Class("links %d", n)
		ctx.NonTrivial(n >= 3)
		return err
	})

	core.Register("C08", "errors", core.Opts{
		Rule:  "the same, with tags which are not defined, or defined several times: the build must fail if and only if a reference to one is rendered, and tell which; non-trivial when it fails",
		Quick: 3000, Thorough: 120000,
	}, gen.Of(func(r gen.R) SiteCase {
		p := refProfile()
		p.Unknown, p.Dup = gen.Pick(r, 0, 4, 8), gen.Pick(r, 0, 5, 20)
		return siteGen(p)(r)
	}), func(ctx *core.Ctx, c SiteCase) error {
		b, err := buildBoth(ctx, c, buildOpts{})
		if b != nil && b.Err != nil {
			ctx.NonTrivial(b.Err.Kind == "unknown-tag" || b.Err.Kind == "ambiguous")
			ctx.Class("error %s", b.Err.Kind)
		}
		if err != nil || b.Err == nil {
			return err
		}
		// the model compares kinds and places
		return mentions(b.GoErr.Error(), b.Err.Tag)
	})
}

func mentions(msg, s string) error {
	if !strings.Contains(msg, s) {
		return fmt.Errorf("%q does not mention %q", msg, s)
	}
	return nil
}
