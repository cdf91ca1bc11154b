package props

import (
	"encoding/json"
	"fmt"
	"net/url"
	"path/filepath"
	"strings"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

// indexDoc is an entry of the search index.
func indexDoc(ext string, t ref.Tag) map[string]interface{} {
	c := t.Content
	if c == nil {
		c = t.Section.Body
	}
	return map[string]interface{}{
		"location":    impl.NormURL(ref.URL(ext, t)),
		"title":       ref.Summary(t.Title),
		"text":        ref.Summary(c),
		"depth":       float64(t.Section.Depth()),
		"section_tag": t.Section.Primary.Name,
	}
}

func modelIndex(root *ref.Section, ext string) map[string]map[string]interface{} {
	out := map[string]map[string]interface{}{}
	root.Walk(func(s *ref.Section) {
		for _, t := range s.Tags {
			out[t.Name] = indexDoc(ext, t)
		}
	})
	return out
}

func sameIndex(want, got map[string]map[string]interface{}) error {
	if err := sameNames("indexed tags", impl.Keys(want), impl.Keys(got)); err != nil {
		return err
	}
	for _, k := range impl.Keys(want) {
		if l, ok := got[k]["location"].(string); ok {
			got[k]["location"] = impl.NormURL(l)
		}
		w, _ := json.Marshal(want[k])
		g, _ := json.Marshal(got[k])
		if err := impl.Same("index entry "+k, string(w), string(g)); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	core.Register("C14", "index", core.Opts{
		Rule:  "documents of a bit of everything over several pages, with targets with and without contents, built with a search index: it must have an entry for each tag, with the location, title, text, depth and section of the tag in the reference model, and the location must lead to an existing page and anchor; non-trivial with at least three tags",
		Quick: 5000, Thorough: 150000,
	}, gen.Of(func(r gen.R) SiteCase {
		p := gen.Base()
		p.Target, p.Ref, p.ExtraTags, p.Exotic = 14, 5, 40, 20
		p.Split, p.SplitRoot, p.Section, p.List, p.Table, p.Defs = 25, 40, 22, 8, 6, 6
		p.Partial = 0
		p.Dup, p.Unknown = gen.Pick(r, 0, 0, 5), gen.Pick(r, 0, 0, 0, 2)
		c := siteGen(p)(r)
		if r.Chance(12) {
			// one whose tag has no letters
			c.Files[c.In] += gen.Pick(r, "\n\n\\section{\n\\title{!?}\n\nSymbols.\n}\n", "\n\n\\section{\n\\title{Some}{}\n\nSymbols.\n}\n", "\n\n\\target{}{None}{Symbols}\n")
		}
		if r.Chance(4) {
			// a long one
			w := gen.Pick(r, "word ", "é ", "long \\bold{er} ", "日本語 ", "words\n")
			c.Files[c.In] += gen.Pick(r, "\n\n", "\n\n\\section{\n\\title{Long}\n\n") + strings.Repeat(w, r.Range(300, 6000)) + "x\n"
			if strings.Contains(c.Files[c.In], "\\title{Long}") {
				c.Files[c.In] += "}\n"
			}
		}
		return c
	}), func(ctx *core.Ctx, c SiteCase) error {
		b, err := buildBoth(ctx, c, buildOpts{Index: true})
		if err != nil {
			return err
		}
		if b.Err != nil {
			ctx.Class("error %s", b.Err.Kind)
			return nil
		}
		got, err := impl.LoadIndex(filepath.Join(b.Dir, "search_index.json"))
		if err != nil {
			return err
		}
		want := modelIndex(b.Model, "html")
		ctx.NonTrivial(len(want) >= 3)
		ctx.Class("tags %d", min(len(want), 12))
		if err := sameIndex(want, got); err != nil {
			return err
		}
		pages := map[string]page{}
		for n, s := range b.Out {
			if strings.HasSuffix(n, ".html") {
				pages[n] = scan(s)
			}
		}
		owners := map[string]int{}
		for _, s := range b.Model.Pages() {
			owners[s.Primary.Name+".html"]++
		}
		for _, k := range impl.Keys(got) {
			u, err := url.Parse(got[k]["location"].(string))
			if err != nil {
				return err
			}
			to, ok := pages[u.Path]
			if !ok {
				return fmt.Errorf("tag %q is at %q, which is not one of %q", k, u, impl.Keys(pages))
			}
			if n := owners[u.Path]; n > 1 {
				continue // several sections have the name of the page, one of which is written
			}
			if u.Fragment != "" && to.ids[u.Fragment] == 0 {
				return fmt.Errorf("tag %q is at %q, which has no such anchor", k, u)
			}
		}
		return nil
	})
}
