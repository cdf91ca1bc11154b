package props

import (
	"fmt"
	"path"
	"strings"

	"golang.org/x/net/html"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

// TreeSec is a section of a tree.
type TreeSec struct {
	Tag           string
	Split, Single int // where in the section: 0 for not at all
	Omit          int
	TOC           int
	File          string // if included
	Bare          bool   // has no title, where that's possible
	Kids          []*TreeSec

	parent *TreeSec
	num    string
}

// TreeCase is a tree of sections.
type TreeCase struct {
	Root *TreeSec
	Vary []int // not significant
}

func genTree(r gen.R, max, depth int) *TreeSec {
	n := 0
	var mk func(d int) *TreeSec
	flag := func(pct int) int {
		if r.Chance(pct) {
			return 1 + r.Intn(4)
		}
		return 0
	}
	splitty := gen.Pick(r, 15, 40, 70)
	shape := r.Weighted(8, 2, 1)
	if shape == 1 {
		// deep rather than wide
		depth += 5
		splitty = gen.Pick(r, 0, 5, 15)
	}
	mk = func(d int) *TreeSec {
		s := &TreeSec{Tag: fmt.Sprintf("s%d", n), Split: flag(splitty), Single: flag(8), Omit: flag(10), TOC: flag(25)}
		if d > 0 && r.Chance(25) {
			s.File = gen.Pick(r, "", "", "d/", "d/e/") + s.Tag + ".lit"
		}
		s.Bare = d > 0 && r.Chance(8)
		n++
		if d < depth {
			k := r.Weighted(3, 3, 3, 2, 1)
			switch {
			case shape == 1:
				k = r.Weighted(1, 12, 3)
			case shape == 2 && d == 0:
				k = r.Range(9, 12)
			}
			for ; k > 0 && n < max; k-- {
				s.Kids = append(s.Kids, mk(d+1))
			}
		}
		return s
	}
	return mk(0)
}

// link sets parents and numbers.
func (s *TreeSec) link() {
	for i, k := range s.Kids {
		k.parent = s
		k.num = fmt.Sprint(i + 1)
		if s.num != "" {
			k.num = s.num + "." + k.num
		}
		k.link()
	}
}

func (s *TreeSec) walk(f func(*TreeSec)) {
	f(s)
	for _, k := range s.Kids {
		k.walk(f)
	}
}

// bare tells whether the section has no title: one which nothing links to.
func (s *TreeSec) bare() bool {
	if !s.Bare || len(s.Kids) > 0 || s.parent == nil || s.parent.splits() || s.TOC > 0 {
		return false
	}
	for x := s.parent; x != nil; x = x.parent {
		if x.Omit > 0 {
			return true
		}
		if x.TOC > 0 {
			return false
		}
	}
	return true
}

// splits tells whether the children have their own pages.
func (s *TreeSec) splits() bool {
	for x := s; x != nil; x = x.parent {
		if x.Single > 0 {
			return false
		}
	}
	return s.Split > 0
}

func (s *TreeSec) pageOwner() *TreeSec {
	for s.parent != nil && !s.parent.splits() {
		s = s.parent
	}
	return s
}

func (s *TreeSec) level() int {
	n := 1
	for x := s; x.parent != nil && x.parent.Split == 0; x = x.parent {
		n++
	}
	if n > 6 {
		n = 6
	}
	return n
}

// files prints the sources. Flags at 1 precede the title, at 2 follow it, at 3
// are between children, and at 4 are at the end.
func (s *TreeSec) files(file string, out map[string]string) string {
	var b strings.Builder
	flags := func(at int) {
		for _, f := range []struct {
			n  int
			fn string
		}{{s.Split, "split-sections"}, {s.Single, "single-page"}, {s.Omit, "omit-children-from-table-of-contents"}, {s.TOC, "table-of-contents"}} {
			if f.n == at {
				fmt.Fprintf(&b, "\\%s\n\n", f.fn)
			}
		}
	}
	flags(1)
	if !s.bare() {
		fmt.Fprintf(&b, "\\title{Title %s}{%s}\n\n", s.Tag, s.Tag)
	}
	flags(2)
	fmt.Fprintf(&b, "Body of %s.\n\n", s.Tag)
	for i, k := range s.Kids {
		if i == len(s.Kids)/2 {
			flags(3)
		}
		if k.File != "" {
			k.files(path.Join(path.Dir(file), k.File), out)
			fmt.Fprintf(&b, "\\include-section{%s}\n\n", k.File)
		} else {
			fmt.Fprintf(&b, "\\section{\n%s}\n\n", k.files(file, out))
		}
	}
	if len(s.Kids) == 0 {
		flags(3)
	}
	flags(4)
	if s.File != "" || s.parent == nil {
		out[file] = b.String()
	}
	return b.String()
}

func (c TreeCase) sources() map[string]string {
	c.Root.link()
	files := map[string]string{}
	c.Root.files("index.lit", files)
	return files
}

// texts lists the tags and text of a page.
func headings(src string) (heads []string, bodies []string) {
	z := html.NewTokenizer(strings.NewReader(src))
	lvl, text := "", ""
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			return
		}
		t := z.Token()
		switch tt {
		case html.StartTagToken:
			if len(t.Data) == 2 && t.Data[0] == 'h' {
				lvl, text = t.Data, ""
			}
		case html.EndTagToken:
			if t.Data == lvl {
				heads = append(heads, lvl+" "+strings.TrimSpace(text))
				lvl = ""
			}
		case html.TextToken:
			if lvl != "" {
				text += t.Data
			} else if s := strings.TrimSpace(t.Data); strings.HasPrefix(s, "Body of ") {
				bodies = append(bodies, s)
			}
		}
	}
}

func init() {
	core.Register("C09", "pages", core.Opts{
		Rule:  "trees of up to 14 inline and included sections, each with \\split-sections and \\single-page anywhere or not: each section must be on the page the flags call for, once, in order, with its number and heading level, and there must be no other pages; non-trivial with at least two pages, or a prevented split",
		Quick: 4000, Thorough: 150000,
	}, gen.Of(func(r gen.R) TreeCase { return TreeCase{Root: genTree(r, 14, 4)} }), func(ctx *core.Ctx, c TreeCase) error {
		out, err := buildFiles(ctx.Dir(), "a", "o", c.sources())
		if err != nil {
			return err
		}
		want := map[string][]string{}
		wantBodies := map[string][]string{}
		prevented, bare := false, false
		c.Root.walk(func(s *TreeSec) {
			n := s.pageOwner().Tag + ".html"
			h := fmt.Sprintf("h%d Title %s", s.level(), s.Tag)
			if s.parent != nil {
				h = fmt.Sprintf("h%d %s Title %s", s.level(), s.num, s.Tag)
			}
			if s.bare() {
				h = fmt.Sprintf("h%d %s", s.level(), s.num)
				bare = true
			}
			want[n] = append(want[n], h)
			wantBodies[n] = append(wantBodies[n], "Body of "+s.Tag+".")
			prevented = prevented || s.Split > 0 && !s.splits() && len(s.Kids) > 0
		})
		ctx.Class("pages %d", len(want))
		if prevented {
			ctx.Class("prevented split")
		}
		if bare {
			ctx.Class("sections without title")
		}
		ctx.NonTrivial(len(want) > 1 || prevented)
		if err := sameNames("pages", impl.Keys(want), impl.Keys(out)); err != nil {
			return err
		}
		for _, n := range impl.Keys(want) {
			h, b := headings(out[n])
			if err := sameNames(n+" headings", want[n], h); err != nil {
				return err
			}
			if err := sameNames(n+" text", wantBodies[n], b); err != nil {
				return err
			}
		}
		_, err = integrity(out, nil)
		return err
	})
	core.Register("C09", "documents", core.Opts{
		Rule:  "documents of a bit of everything over several files with flags anywhere, compared with the reference model; non-trivial with at least two pages",
		Quick: 2500, Thorough: 80000,
	}, gen.Of(siteGen(func() gen.Profile {
		p := gen.Base()
		p.Split, p.SplitRoot, p.Single, p.Section, p.Include = 40, 50, 10, 30, 10
		p.MaxSecs = 14
		return p
	}())), func(ctx *core.Ctx, c SiteCase) error {
		b, err := buildBoth(ctx, c, buildOpts{})
		if b != nil && b.Err == nil && b.Model != nil {
			ctx.Class("pages %d", len(b.Model.Pages()))
			ctx.NonTrivial(len(b.Model.Pages()) > 1)
		}
		return err
	})
}
