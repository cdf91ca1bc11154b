package props

import (
	"fmt"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/stages"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

// LazyCase is content with deferred parts, and what is done with it.
type LazyCase struct {
	Pool []Tree
	Ops  []LazyOp
}

// LazyOp is done to content I (and J) of the pool.
type LazyOp struct {
	Op      string
	I, J, N int `json:",omitempty"`
}

func genLazy(r gen.R) LazyCase {
	g := &treeGen{R: r, lazy: 14}
	c := LazyCase{}
	for n := r.Range(1, 3); n > 0; n-- {
		t := Tree{K: gen.Pick(r, "seq", "seq", "para", "list")}
		for m := r.Range(1, 4); m > 0; m-- {
			t.Kids = append(t.Kids, g.tree(r.Range(1, 4)))
		}
		c.Pool = append(c.Pool, t)
	}
	for n := r.Range(1, 8); n > 0; n-- {
		op := LazyOp{Op: gen.Pick(r, "html", "html", "html", "at once", "at once", "text", "string", "flow", "strip", "append", "collect", "dump"), I: r.Intn(8), J: r.Intn(8)}
		if op.Op == "at once" {
			op.N = r.Range(2, 6)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func (d *doc) render(c booklit.Content, m ref.Content, page func(*booklit.Section) (string, error)) (string, string, *ref.Err, error) {
	s := *d.sec
	s.Body = c
	ms := *d.msec
	ms.Body = m
	want, werr := d.html().Page(&ms)
	got, err := page(&s)
	return want, got, werr, err
}

func sameRendering(want, got string, werr *ref.Err, err error) error {
	if werr != nil || err != nil {
		if werr == nil || err == nil || !strings.Contains(err.Error(), werr.Msg) {
			return fmt.Errorf("rendering: expected %v, got %v", werr, err)
		}
		return nil
	}
	return impl.Same("page", impl.HTML(want), impl.HTML(got))
}

func runLazy(ctx *core.Ctx, c LazyCase) error {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	d := newDoc()
	type pair struct {
		c     booklit.Content
		m     ref.Content
		plain bool
	}
	var pool []pair
	for _, t := range c.Pool {
		x, m := d.make(t)
		pool = append(pool, pair{x, m, plainTree(t)})
	}
	renders := 0
	for i, op := range c.Ops {
		p, q := pool[op.I%len(pool)], pool[op.J%len(pool)]
		fail := func(err error) error {
			if err == nil {
				return nil
			}
			return fmt.Errorf("operation %d (%s): %v", i, op.Op, err)
		}
		inOrder := true
		switch op.Op {
		case "html":
			renders++
			want, got, werr, err := d.render(p.c, p.m, pageOf)
			if err := fail(sameRendering(want, got, werr, err)); err != nil {
				return err
			}
		case "at once":
			// resolving references is not what this is about
			if treeHas(Tree{Kids: c.Pool}, "ref") || treeHas(Tree{Kids: c.Pool}, "refto") {
				continue
			}
			renders++
			inOrder = false
			ctx.Class("concurrent")
			ms := *d.msec
			ms.Body = p.m
			want, werr := d.html().Page(&ms)
			d.spin = true
			var wg sync.WaitGroup
			fails := make([]error, op.N)
			start := make(chan struct{})
			for k := range fails {
				s := *d.sec
				s.Body = p.c
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							fails[k] = fmt.Errorf("panic: %v", p)
						}
					}()
					<-start
					got, err := impl.RenderPage(render.NewHTMLEngine(), &s)
					fails[k] = sameRendering(want, got, werr, err)
				}(k)
			}
			close(start)
			wg.Wait()
			d.spin = false
			for _, err := range fails {
				if fail(err) != nil {
					return fail(err)
				}
			}
		case "text":
			s := *d.sec
			s.Body = p.c
			ms := *d.msec
			ms.Body = p.m
			if p.plain {
				// as for HTML
				_, werr := d.html().Page(&ms)
				_, err := impl.RenderPage(render.NewTextEngine("txt"), &s)
				if (werr == nil) != (err == nil) {
					return fail(fmt.Errorf("rendering as text: want %v, got %v", werr, err))
				}
			}
		case "string":
			if err := fail(impl.Same("summary", ref.Summary(p.m), p.c.String())); err != nil {
				return err
			}
		case "flow":
			if ref.IsFlow(p.m) != p.c.IsFlow() {
				return fail(fmt.Errorf("IsFlow is %v", p.c.IsFlow()))
			}
		case "strip":
			pool = append(pool, pair{booklit.StripAux(p.c), ref.StripAux(p.m), p.plain})
		case "append":
			pool = append(pool, pair{booklit.Append(p.c, q.c), ref.Append(p.m, q.m), p.plain && q.plain})
		case "collect":
			s := *d.sec
			if err := p.c.Visit(&stages.Collect{Section: &s}); err != nil {
				return fail(err)
			}
		case "dump":
			if err := fail(impl.Same("content", ref.Dump(p.m), impl.Dump(p.c))); err != nil {
				return err
			}
		}
		want, got := fmt.Sprint(d.mlog), fmt.Sprint(d.log)
		if !inOrder {
			want, got = fmt.Sprint(sorted(d.mlog)), fmt.Sprint(sorted(d.log))
			d.mlog = append([]int{}, d.log...)
		}
		if want != got {
			return fail(fmt.Errorf("lazy content ran: want %v, got %v", want, got))
		}
	}
	ctx.NonTrivial(len(d.log) > 0 && renders > 1)
	ctx.Class("ran %d", len(d.log))
	return nil
}

// plainTree tells whether there is nothing but what can be rendered as text.
func plainTree(t Tree) bool {
	for _, k := range []string{"link", "styled", "part", "target", "targetp", "image", "list", "table", "defs", "ref", "refto", "toc"} {
		if treeHas(t, k) {
			return false
		}
	}
	return true
}

func sorted(xs []int) []int {
	out := append([]int{}, xs...)
	sort.Ints(out)
	return out
}

func init() {
	core.Register("C21", "ops", core.Opts{
		Rule:  "content with lazy content anywhere, some of it failing, and a history of up to 8 operations on it: rendered, rendered by up to 6 at once, summarized, asked whether it is flow, stripped of auxiliary content, appended and searched for tags: lazy content must run when it is rendered first and at no other time, in the order of the content, and always give its first result; non-trivial when some ran and there are at least two renderings",
		Quick: 4000, Thorough: 300000,
	}, gen.Of(genLazy), runLazy)
	core.Register("C21", "documents", core.Opts{
		Rule:  "documents with lazy content in titles and bodies, which are rendered in headings, tables of contents, references and pages, built with and without a search index: the pages must be as the model says, and what ran must have run once; non-trivial when some ran",
		Quick: 3000, Thorough: 150000,
	}, gen.Of(func(r gen.R) SiteCase {
		p := gen.Base()
		p.Plugin, p.UsePlug, p.PlugInl, p.PlugBlk = "vt", 100, 14, 6
		p.RichTitles, p.TOC, p.Ref = 70, 8, 10
		p.Inl = append(p.Inl,
			func(g *gen.G) gen.Inline { return gen.Call("v-once", gen.T(g.Words())) },
			func(g *gen.G) gen.Inline {
				return gen.Call("v-once", gen.Line(gen.Call("v-once", gen.T("inner")), gen.Text(" "), gen.Call("bold", gen.T("x"))))
			},
			func(g *gen.G) gen.Inline { return gen.Call("aux", gen.Line(gen.Call("v-once", gen.T("aux")))) })
		p.Blk = append(p.Blk, func(g *gen.G) gen.Inline {
			return gen.Call("v-once-block", gen.Arg{Kind: gen.ABlocks, Blocks: gen.Doc{gen.Alone(gen.Text("some")), gen.Alone(gen.Call("v-once", gen.T("more")))}})
		})
		if r.Chance(10) {
			p.Inl = append(p.Inl, func(g *gen.G) gen.Inline { return gen.Call("v-lazy-err", gen.T("sorry")) })
		}
		c := siteGen(p)(r)
		return c
	}), func(ctx *core.Ctx, c SiteCase) error {
		in, site, err := c.Open(ctx)
		if err != nil {
			return err
		}
		for _, index := range []bool{false, true} {
			impl.Lazies.Reset()
			out := filepath.Join(ctx.Dir(), fmt.Sprint("out", index))
			goErr := impl.Build(&booklitcmd.Command{In: in, Out: out, SaveSearchIndex: index})
			site.Lazies = nil
			root, rerr := site.Load(in)
			want := map[string]string{}
			var forced []int
			if rerr == nil {
				want, _, rerr = modelPages(root, &ref.HTML{OnForce: func(l *ref.Lazy) {
					if !l.Forced {
						l.Forced = true
						forced = append(forced, l.ID)
					}
				}})
			}
			if err := impl.SameErr(rerr, goErr); err != nil {
				return err
			}
			for id, n := range impl.Lazies.Runs() {
				if n > 1 {
					return fmt.Errorf("lazy content %d ran %d times", id, n)
				}
			}
			if rerr != nil {
				ctx.Class("error %s", rerr.Kind)
				return nil
			}
			ran := []int{}
			for id := range impl.Lazies.Runs() {
				ran = append(ran, id)
			}
			if w, g := fmt.Sprint(sorted(forced)), fmt.Sprint(sorted(ran)); w != g {
				return fmt.Errorf("lazy content ran: want %s, got %s", w, g)
			}
			ctx.NonTrivial(len(ran) > 0)
			if len(ran) > 0 && len(ran) < len(site.Lazies) {
				ctx.Class("some not rendered")
			}
			got, err := impl.ReadOut(out)
			if err != nil {
				return err
			}
			for _, n := range impl.Keys(want) {
				if err := impl.Same(n, impl.HTML(want[n]), impl.HTML(got[n])); err != nil {
					return err
				}
			}
		}
		return nil
	})
}
