package props

import (
	"fmt"
	"strings"

	"github.com/vito/booklit"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

// editDistance is the Levenshtein distance.
func editDistance(a, b []rune) int {
	prev := make([]int, len(b)+1)
	for j := range prev {
		prev[j] = j
	}
	for i := range a {
		cur := make([]int, len(b)+1)
		cur[0] = i + 1
		for j := range b {
			d := prev[j]
			if a[i] != b[j] {
				d++
			}
			if x := prev[j+1] + 1; x < d {
				d = x
			}
			if x := cur[j] + 1; x < d {
				d = x
			}
			cur[j+1] = d
		}
		prev = cur
	}
	return prev[len(b)]
}

// similar tells whether two names are more alike than not.
func similar(a, b string) bool {
	x, y := []rune(a), []rune(b)
	n := len(x)
	if len(y) > n {
		n = len(y)
	}
	if n == 0 {
		return true
	}
	return 2*(n-editDistance(x, y)) > n
}

func tagList(ts []ref.Tag) string {
	s := []string{}
	for _, t := range ts {
		s = append(s, fmt.Sprintf("%s#%s@%s", t.Name, t.Anchor, t.Section.Primary.Name))
	}
	return strings.Join(s, " ")
}

func realTags(ts []booklit.Tag) string {
	s := []string{}
	for _, t := range ts {
		s = append(s, fmt.Sprintf("%s#%s@%s", t.Name, t.Anchor, t.Section.PrimaryTag.Name))
	}
	return strings.Join(s, " ")
}

func init() {
	core.Register("C10", "queries", core.Opts{
		Rule:  "trees of sections over several files with tags, targets, flags and partials: each query on each section, or pair of sections, must answer as defined on the tree; non-trivial with at least three sections",
		Quick: 3000, Thorough: 100000,
	}, gen.Of(func(r gen.R) SiteCase {
		p := gen.Base()
		p.Section, p.Include, p.Target, p.ExtraTags, p.Partial = 40, 10, 12, 40, 6
		p.Split, p.MaxSecs, p.Dup, p.Exotic = 25, 14, gen.Pick(r, 0, 10), 10
		p.MaxBlocks, p.Untitled = 6, gen.Pick(r, 0, 0, 15)
		c := siteGen(p)(r)
		if r.Chance(8) {
			// more than ten in a row
			for i, n := 0, r.Range(11, 24); i < n; i++ {
				c.Files[c.In] += fmt.Sprintf("\n\n\\section{\n\\title{Row %d}{row-%d}\n}\n", i, i)
			}
		}
		return c
	}), func(ctx *core.Ctx, c SiteCase) error {
		m, s, rerr, err := loadBoth(ctx, c)
		if err != nil || rerr != nil {
			return err
		}
		ctx.Class("sections %d", count(m))
		ctx.NonTrivial(count(m) >= 3)
		var ms []*ref.Section
		var ss []*booklit.Section
		if err := eachSection(m, s, func(a *ref.Section, b *booklit.Section) error {
			ms, ss = append(ms, a), append(ss, b)
			return nil
		}); err != nil {
			return err
		}
		index := map[*booklit.Section]int{}
		mindex := map[*ref.Section]int{}
		for i := range ss {
			index[ss[i]], mindex[ms[i]] = i, i
		}
		at := func(x *booklit.Section) int {
			if x == nil {
				return -1
			}
			i, ok := index[x]
			if !ok {
				return -2
			}
			return i
		}
		mat := func(x *ref.Section) int {
			if x == nil {
				return -1
			}
			return mindex[x]
		}
		names := map[string]bool{"nowhere": true, "": true, "tag-1x": true, "S-1": true}
		for _, t := range m.AllTags() {
			names[t.Name] = true
		}
		bad := func(i int, what string, want, got interface{}) error {
			return fmt.Errorf("section %q (%d): %s: want %v, got %v", ms[i].Primary.Name, i, what, want, got)
		}
		for i := range ms {
			a, b := ms[i], ss[i]
			// siblings
			var prev, sib *ref.Section
			if a.Parent != nil {
				prev = a.Parent
				kids := a.Parent.Children
				for j, k := range kids {
					if k == a && j > 0 {
						prev = kids[j-1]
					}
				}
				for x := a; x.Parent != nil && sib == nil; x = x.Parent {
					kids := x.Parent.Children
					for j, k := range kids {
						if k == x && j+1 < len(kids) {
							sib = kids[j+1]
						}
					}
				}
			}
			next := sib
			if a.Split && len(a.Children) > 0 {
				next = a.Children[0]
			}
			anchors := []ref.Tag{}
			for _, t := range a.Tags {
				if t.Anchor != "" {
					anchors = append(anchors, t)
				}
			}
			var has func(x *ref.Section) bool
			has = func(x *ref.Section) bool {
				for _, t := range x.Tags {
					if t.Anchor != "" {
						return true
					}
				}
				for _, k := range x.Children {
					if !x.Split && has(k) {
						return true
					}
				}
				return false
			}
			for _, q := range []struct {
				what      string
				want, got interface{}
			}{
				{"number", a.Number(), b.Number()},
				{"depth", a.Depth(), b.Depth()},
				{"page depth", a.PageDepth(), b.PageDepth()},
				{"top", 0, at(b.Top())},
				{"previous", mat(prev), at(b.Prev())},
				{"next", mat(next), at(b.Next())},
				{"next sibling", mat(sib), at(b.NextSibling())},
				{"anchors", tagList(anchors), realTags(b.AnchorTags())},
				{"has anchors", has(a), b.HasAnchors()},
				{"file", a.FilePath(), b.FilePath()},
			} {
				if q.want != q.got {
					return bad(i, q.what, q.want, q.got)
				}
			}
			for j := range ms {
				in := false
				for x := ms[j]; x != nil; x = x.Parent {
					in = in || x == a
				}
				if got := b.Contains(ss[j]); got != in {
					return bad(i, fmt.Sprint("contains ", j), in, got)
				}
				child := ms[j] == a || ms[j].Parent == a
				if got := b.IsOrHasChild(ss[j]); got != child {
					return bad(i, fmt.Sprint("is or has child ", j), child, got)
				}
			}
			all := a.AllTags()
			for n := range names {
				var exact, close []ref.Tag
				for _, t := range all {
					if t.Name == n {
						exact = append(exact, t)
					}
					if similar(n, t.Name) {
						close = append(close, t)
					}
				}
				if w, g := tagList(exact), realTags(b.FindTag(n)); w != g {
					return bad(i, fmt.Sprintf("find tag %q", n), w, g)
				}
				if w, g := tagList(close), realTags(b.SimilarTags(n)); w != g {
					return bad(i, fmt.Sprintf("similar tags to %q", n), w, g)
				}
			}
			for _, p := range []string{"Alpha", "Beta", "Gamma", "Delta", "Eps", "Nope"} {
				w, g := a.Partials[p], b.Partial(p)
				if (w == nil) != (g == nil) {
					return bad(i, "partial "+p, w, g)
				}
			}
		}
		return nil
	})
}
