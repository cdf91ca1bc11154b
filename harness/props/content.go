package props

import (
	"errors"
	"fmt"
	"runtime"
	"sync"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"

	"verif/harness/gen"
	"verif/harness/ref"
)

// Tree is a piece of content, which can be made for real and for the model.
type Tree struct {
	K    string `json:"k"`
	S    string `json:"s,omitempty"`
	B    bool   `json:"b,omitempty"`
	ID   int    `json:"id,omitempty"`
	Kids []Tree `json:"c,omitempty"`
}

// treeKinds and how many children they have (or -1).
var treeKinds = []struct {
	k    string
	n, w int
}{
	{"text", 0, 10}, {"seq", -1, 8}, {"para", -1, 5}, {"pre", -1, 4}, {"link", 1, 3}, {"aux", 1, 6}, {"styled", 1, 4}, {"part", 3, 3},
	{"target", 2, 3}, {"targetp", 2, 2}, {"image", 0, 2}, {"list", -1, 4}, {"table", -1, 3}, {"defs", -1, 3}, {"ref", 1, 2}, {"refto", 0, 2}, {"lazy", 1, 4},
	{"lazyerr", 0, 1}, {"toc", 0, 1},
}

type treeGen struct {
	gen.R
	n    int
	lazy int // extra weight
	noK  map[string]bool
}

var treeTexts = []string{"a", "b ", "", " c", "d\ne", "<f>", "&", "é", "x\n\ny", "\n", "  "}

func (g *treeGen) tree(depth int) Tree {
	ws := make([]int, len(treeKinds))
	for i, k := range treeKinds {
		if g.noK[k.k] || depth <= 0 && k.n != 0 {
			continue
		}
		ws[i] = k.w
		if k.k == "lazy" {
			ws[i] += g.lazy
		}
	}
	k := treeKinds[g.Weighted(ws...)]
	t := Tree{K: k.k}
	n := k.n
	if n < 0 {
		n = g.Weighted(1, 3, 4, 2)
	}
	switch k.k {
	case "text":
		t.S = gen.Pick(g.R, treeTexts...)
	case "link":
		t.S = gen.Pick(g.R, "https://x.y", "rel.html")
	case "styled":
		t.S, t.B = gen.Pick(g.R, "bold", "italic", "verbatim", "inset", "aside"), g.Chance(25)
	case "part":
		t.S = gen.Pick(g.R, "bold", "superscript")
	case "target", "targetp":
		g.n++
		t.S = fmt.Sprint("t", g.n)
	case "image":
		t.S, t.B = "i.png", g.Chance(50)
	case "list":
		t.B = g.Chance(40)
	case "lazy", "lazyerr":
		g.n++
		t.ID, t.B = g.n, g.Chance(40)
	case "defs":
		n *= 2
	}
	for i := 0; i < n; i++ {
		t.Kids = append(t.Kids, g.tree(depth-1))
	}
	return t
}

// doc is a real and a model section, where content is made.
type doc struct {
	sec  *booklit.Section
	msec *ref.Section

	mu   sync.Mutex
	log  []int // lazy content, in the order it ran
	mlog []int
	spin bool
}

func newDoc() *doc {
	s := &booklit.Section{Path: "x.lit", Title: booklit.Empty, Body: booklit.Empty}
	s.SetTitle(booklit.Sequence{booklit.String("Title"), booklit.Aux{Content: booklit.String(" aux")}}, ast.Location{Line: 1, Col: 1}, "t")
	return &doc{sec: s, msec: (&ref.Site{}).Doc("x.lit", ref.Sequence{ref.Text("Title"), ref.Aux{Content: ref.Text(" aux")}}, ref.Pos{Line: 1, Col: 1}, "t")}
}

func (d *doc) html() *ref.HTML {
	return &ref.HTML{OnForce: func(l *ref.Lazy) {
		if !l.Forced {
			l.Forced = true
			d.mlog = append(d.mlog, l.ID)
		}
	}}
}

func (d *doc) ran(id int) int {
	if d.spin {
		// let the others in
		for i := 0; i < 50; i++ {
			runtime.Gosched()
		}
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.log = append(d.log, id)
	n := 0
	for _, x := range d.log {
		if x == id {
			n++
		}
	}
	return n
}

func (d *doc) make(t Tree) (booklit.Content, ref.Content) {
	var cs []booklit.Content
	var ms []ref.Content
	for _, k := range t.Kids {
		c, m := d.make(k)
		cs, ms = append(cs, c), append(ms, m)
	}
	switch t.K {
	case "text":
		return booklit.String(t.S), ref.Text(t.S)
	case "seq":
		// with room to grow in, as if it came from elsewhere
		return booklit.Sequence(append(make([]booklit.Content, 0, len(cs)+2), cs...)), ref.Sequence(ms)
	case "para":
		return booklit.Paragraph(cs), ref.Paragraph(ms)
	case "pre":
		return booklit.Preformatted(cs), ref.Preformatted(ms)
	case "link":
		return booklit.Link{Content: cs[0], Target: t.S}, ref.Link{Content: ms[0], Target: t.S}
	case "aux":
		return booklit.Aux{Content: cs[0]}, ref.Aux{Content: ms[0]}
	case "styled":
		return booklit.Styled{Style: booklit.Style(t.S), Block: t.B, Content: cs[0]}, ref.Styled{Style: t.S, Block: t.B, Content: ms[0]}
	case "part":
		return booklit.Styled{Style: booklit.Style(t.S), Content: cs[0], Partials: booklit.Partials{"A": cs[1], "B": cs[2], "N": nil}},
			ref.Styled{Style: t.S, Content: ms[0], Partials: map[string]ref.Content{"A": ms[1], "B": ms[2], "N": nil}}
	case "target", "targetp":
		c := booklit.Target{TagName: t.S, Title: cs[0], Content: cs[1], Location: ast.Location{Line: 3}}
		m := ref.Target{TagName: t.S, Title: ms[0], Content: ms[1], Pos: ref.Pos{Line: 3}}
		if t.K == "targetp" {
			return &c, m
		}
		return c, m
	case "image":
		c, m := booklit.Image{Path: t.S}, ref.Image{Path: t.S}
		if t.B {
			c.Description, m.Description = "what", "what"
		}
		return c, m
	case "list":
		return booklit.List{Items: cs, Ordered: t.B}, ref.List{Items: ms, Ordered: t.B}
	case "table":
		c, m := booklit.Table{}, ref.Table{}
		for i := range cs {
			// rows of growing length
			c.Rows = append(c.Rows, cs[:i+1:i+1])
			m.Rows = append(m.Rows, ms[:i+1:i+1])
		}
		return c, m
	case "defs":
		c, m := booklit.Definitions{}, ref.Definitions{}
		for i := 0; i+1 < len(cs); i += 2 {
			c = append(c, booklit.Definition{Subject: cs[i], Definition: cs[i+1]})
			m = append(m, ref.Definition{Subject: ms[i], Definition: ms[i+1]})
		}
		return c, m
	case "ref":
		return &booklit.Reference{Section: d.sec, TagName: "t", Content: cs[0]}, &ref.Reference{Section: d.msec, TagName: "t", Content: ms[0]}
	case "refto":
		return &booklit.Reference{Section: d.sec, TagName: "t"}, &ref.Reference{Section: d.msec, TagName: "t"}
	case "toc":
		return booklit.TableOfContents{Section: d.sec}, ref.TOC{Section: d.msec}
	case "lazy":
		id, c := t.ID, cs[0]
		fn := func() (booklit.Content, error) {
			return booklit.Sequence{booklit.String(fmt.Sprintf("(run %d)", d.ran(id))), c}, nil
		}
		m := &ref.Lazy{ID: id, Block: t.B, Content: ref.Sequence{ref.Text("(run 1)"), ms[0]}}
		if t.B {
			return booklit.LazyBlock(fn), m
		}
		return booklit.LazyFlow(fn), m
	case "lazyerr":
		id := t.ID
		fn := func() (booklit.Content, error) {
			return nil, errors.New(fmt.Sprintf("failed %d, run %d", id, d.ran(id)))
		}
		m := &ref.Lazy{ID: id, Block: t.B, Err: fmt.Sprintf("failed %d, run 1", id)}
		if t.B {
			return booklit.LazyBlock(fn), m
		}
		return booklit.LazyFlow(fn), m
	}
	panic("unknown kind " + t.K)
}

func treeHas(t Tree, k string) bool {
	if t.K == k {
		return true
	}
	for _, x := range t.Kids {
		if treeHas(x, k) {
			return true
		}
	}
	return false
}
