package props

import (
	"fmt"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/stages"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

// ContentCase is content, and what is done with it.
type ContentCase struct {
	Pool []Tree
	Ops  []ContentOp
}

// ContentOp makes new content of the content in the pool (-1 is nil).
type ContentOp struct {
	Op   string
	Args []int `json:",omitempty"`
}

func genContent(r gen.R) ContentCase {
	g := &treeGen{R: r}
	c := ContentCase{}
	for n := r.Range(1, 4); n > 0; n-- {
		if r.Chance(50) {
			c.Pool = append(c.Pool, Tree{K: "seq", Kids: []Tree{g.tree(3), g.tree(2)}})
			continue
		}
		c.Pool = append(c.Pool, g.tree(r.Range(0, 5)))
	}
	n := len(c.Pool)
	for k := r.Range(1, 12); k > 0; k-- {
		op := ContentOp{Op: gen.Pick(r, "append", "append", "append", "append", "strip", "strip", "sequence", "bold", "list", "html", "collect")}
		args := 1
		switch op.Op {
		case "append":
			args = r.Range(1, 4)
		case "sequence", "list":
			args = r.Range(0, 3)
		}
		for ; args > 0; args-- {
			i := n - 1 - r.Weighted(4, 3, 2, 2, 1, 1, 1, 1)
			if i < 0 {
				i = r.Intn(n)
			}
			if op.Op == "append" && r.Chance(12) {
				i = -1
			}
			op.Args = append(op.Args, i)
		}
		switch op.Op {
		case "html", "collect":
		default:
			n++
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runContent(ctx *core.Ctx, c ContentCase) error {
	d := newDoc()
	var cs []booklit.Content
	var ms []ref.Content
	for _, t := range c.Pool {
		x, m := d.make(t)
		cs, ms = append(cs, x), append(ms, m)
	}
	check := func() error {
		for i, x := range cs {
			if x == nil {
				if ms[i] != nil {
					return fmt.Errorf("content %d is nil", i)
				}
				continue
			}
			if err := impl.Same(fmt.Sprintf("content %d", i), ref.Dump(ms[i]), impl.Dump(x)); err != nil {
				return err
			}
			if err := impl.Same(fmt.Sprintf("summary of content %d", i), ref.Summary(ms[i]), x.String()); err != nil {
				return err
			}
			if w := ref.IsFlow(ms[i]); w != x.IsFlow() {
				return fmt.Errorf("content %d: IsFlow is %v: %s", i, !w, impl.Dump(x))
			}
		}
		return nil
	}
	if err := check(); err != nil {
		return err
	}
	joined := map[int]int{}
	for i, op := range c.Ops {
		var as []booklit.Content
		var bs []ref.Content
		for _, a := range op.Args {
			if a < 0 {
				as, bs = append(as, nil), append(bs, nil)
				continue
			}
			as, bs = append(as, cs[a%len(cs)]), append(bs, ms[a%len(ms)])
			if op.Op == "append" {
				joined[a%len(cs)]++
			}
		}
		if op.Op != "append" {
			for k := range as {
				if as[k] == nil {
					as[k], bs[k] = booklit.Empty, ref.Text("")
				}
			}
		}
		var x booklit.Content
		var m ref.Content
		switch op.Op {
		case "append":
			x, m = booklit.Append(as[0], as[1:]...), ref.Append(bs[0], bs[1:]...)
			text := ""
			for _, a := range as {
				if a != nil {
					text += a.String()
				}
			}
			if x != nil && x.String() != text {
				return fmt.Errorf("operation %d: %q when joined is %q", i, text, x.String())
			}
		case "strip":
			x, m = booklit.StripAux(as[0]), ref.StripAux(bs[0])
			if strings.Contains(impl.Dump(x), "(aux") {
				return fmt.Errorf("operation %d: auxiliary content is left: %s", i, impl.Dump(x))
			}
		case "sequence":
			x, m = booklit.Sequence(as), ref.Sequence(bs)
		case "bold":
			x, m = booklit.Styled{Style: booklit.StyleBold, Content: as[0]}, ref.Styled{Style: "bold", Content: bs[0]}
		case "list":
			x, m = booklit.List{Items: as}, ref.List{Items: bs}
		case "html":
			want, got, werr, err := d.render(as[0], bs[0], pageOf)
			if err := sameRendering(want, got, werr, err); err != nil {
				return fmt.Errorf("operation %d: %v", i, err)
			}
		case "collect":
			s := &booklit.Section{Path: "y.lit"}
			if err := as[0].Visit(&stages.Collect{Section: s}); err != nil {
				return fmt.Errorf("operation %d: %v", i, err)
			}
			got := ""
			for _, t := range s.Tags {
				got += fmt.Sprintf("%q %q %s %s\n", t.Name, t.Anchor, impl.Dump(t.Title), impl.Dump(t.Content))
			}
			want := ""
			for _, t := range ref.Targets(bs[0]) {
				want += fmt.Sprintf("%q %q %s %s\n", t.Name, t.Anchor, ref.Dump(t.Title), ref.Dump(t.Content))
			}
			if err := impl.Same("tags", want, got); err != nil {
				return fmt.Errorf("operation %d: %v", i, err)
			}
		}
		if op.Op != "html" && op.Op != "collect" {
			cs, ms = append(cs, x), append(ms, m)
		}
		if err := check(); err != nil {
			return fmt.Errorf("after operation %d (%s %v): %v", i, op.Op, op.Args, err)
		}
	}
	for _, n := range joined {
		if n > 1 {
			ctx.NonTrivial(true)
		}
	}
	for _, t := range c.Pool {
		if treeHas(t, "aux") {
			ctx.Class("auxiliary")
			break
		}
	}
	return nil
}

func init() {
	core.Register("C22", "values", core.Opts{
		Rule:  "content of every kind and a history of up to 12 operations which join it, strip it, put it in other content, render it or collect its tags; after each one, the text, kind and structure of all content so far must be that of a model of immutable values; non-trivial when some content is used for joining twice",
		Quick: 40000, Thorough: 800000,
	}, gen.Of(genContent), runContent)
}
