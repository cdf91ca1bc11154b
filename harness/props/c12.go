package props

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/net/html"

	"github.com/vito/booklit"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

var auxWord, keepWord = regexp.MustCompile(`QQ[0-9]+q`), regexp.MustCompile(`W[0-9]+w`)

// displayedAux is auxiliary text of what references display.
var displayedAux = regexp.MustCompile(`QQ[12][0-9]{3}q`)

// auxGen makes content where auxiliary text is QQ<n> and other text is W<n>w.
type auxGen struct {
	gen.R
	n     int
	plug  bool
	lazy  bool
	noRef bool
}

func (a *auxGen) word(aux bool) string {
	a.n++
	if aux {
		return fmt.Sprintf("QQ%dq", a.n)
	}
	return fmt.Sprintf("W%dw", a.n)
}

func (a *auxGen) line(depth int, aux bool) []gen.Inline {
	var out []gen.Inline
	for n := a.Range(1, 3); n > 0; n-- {
		out = append(out, a.inline(depth, aux))
		if a.Chance(50) {
			out = append(out, gen.Text(" "))
		}
	}
	return out
}

func (a *auxGen) arg(depth int, aux bool) gen.Arg {
	switch a.Weighted(6, 2, 1) {
	case 1:
		return gen.Arg{Kind: gen.ABlocks, Blocks: a.blocks(depth, aux)}
	case 2:
		var ls []gen.BLine
		for n := a.Range(1, 3); n > 0; n-- {
			ls = append(ls, gen.BLine{Indent: gen.Pick(a.R, "", "  "), Words: a.line(depth, aux)})
		}
		return gen.Arg{Kind: gen.APre, Lines: ls}
	}
	return gen.Line(a.line(depth, aux)...)
}

func (a *auxGen) blocks(depth int, aux bool) []gen.Block {
	var out []gen.Block
	for n := a.Range(1, 3); n > 0; n-- {
		b := gen.Block{}
		for m := a.Range(1, 2); m > 0; m-- {
			b.Lines = append(b.Lines, a.line(depth, aux))
		}
		out = append(out, b)
	}
	return out
}

func (a *auxGen) inline(depth int, aux bool) gen.Inline {
	if depth <= 0 || a.Chance(35) {
		return gen.Text(a.word(aux))
	}
	depth--
	args := func(n int) []gen.Arg {
		var out []gen.Arg
		for ; n > 0; n-- {
			out = append(out, a.arg(depth, aux))
		}
		return out
	}
	if a.lazy && a.Chance(12) {
		return gen.Call(gen.Pick(a.R, "v-lazy", "v-lazy", "v-later"), a.arg(depth, aux))
	}
	switch a.Intn(12) {
	case 0, 1, 2, 3:
		return gen.Call("aux", a.arg(depth, true))
	case 4:
		return gen.Call(gen.Pick(a.R, "bold", "italic", "code", "inset", "larger"), a.arg(depth, aux))
	case 5:
		return gen.Call(gen.Pick(a.R, "list", "ordered-list"), args(a.Intn(3))...)
	case 6:
		var rows []gen.Arg
		for n := a.Intn(3); n > 0; n-- {
			rows = append(rows, gen.Line(gen.Call("table-row", args(a.Intn(3))...)))
		}
		return gen.Call("table", rows...)
	case 7:
		var rows []gen.Arg
		for n := a.Intn(3); n > 0; n-- {
			rows = append(rows, gen.Line(gen.Call("definition", args(2)...)))
		}
		return gen.Call("definitions", rows...)
	case 8:
		return gen.Call("link", a.arg(depth, aux), gen.T("https://x.y"))
	case 9:
		if a.noRef {
			break
		}
		if a.plug && a.Chance(40) {
			return gen.Call("v-opt", gen.T(gen.Pick(a.R, "t", "nowhere")), a.arg(depth, aux))
		}
		return gen.Call("reference", gen.T("t"), a.arg(depth, aux))
	case 10:
		if a.plug {
			return gen.Call("v-part", args(3)...)
		}
	case 11:
		if a.plug && a.Chance(50) {
			return gen.Call("v-block", a.arg(depth, aux))
		}
	}
	return gen.Text(a.word(aux))
}

func init() {
	core.Register("C12", "content", core.Opts{
		Rule:  "content of every kind, with auxiliary parts anywhere: stripping must remove all of them and nothing else, must not change the original, and must not change what is stripped already; non-trivial with some auxiliary and other text",
		Quick: 5000, Thorough: 300000,
	}, gen.Of(func(r gen.R) SiteCase {
		a := &auxGen{R: r, plug: true}
		d := gen.Doc{gen.Alone(gen.Call("use-plugin", gen.T("vt"))), gen.Alone(gen.Call("title", gen.Line(a.line(3, false)...), gen.T("t")))}
		for n := r.Intn(3); n > 0; n-- {
			d = append(d, gen.Alone(gen.Call("target", gen.T(fmt.Sprint("u", n)), a.arg(2, false), a.arg(2, false))))
		}
		d = append(d, a.blocks(3, false)...)
		p := gen.Printer{}
		return SiteCase{In: "index.lit", Files: map[string]string{"index.lit": p.Print(d)}}
	}), func(ctx *core.Ctx, c SiteCase) error {
		m, s, rerr, err := loadBoth(ctx, c)
		if err != nil || rerr != nil {
			return err
		}
		type pair struct {
			m ref.Content
			s booklit.Content
		}
		ps := []pair{{m.Title, s.Title}, {m.Body, s.Body}}
		for i, t := range s.Tags {
			ps = append(ps, pair{m.Tags[i].Title, t.Title}, pair{m.Tags[i].Content, t.Content})
		}
		for _, p := range ps {
			if p.s == nil {
				continue
			}
			before, text := impl.Dump(p.s), p.s.String()
			out := booklit.StripAux(p.s)
			if impl.Dump(p.s) != before {
				return impl.Same("the original", before, impl.Dump(p.s))
			}
			got := impl.Dump(out)
			if i := strings.Index(got, "QQ"); i >= 0 || strings.Contains(got, "(aux") {
				return fmt.Errorf("auxiliary content is left in %s", got)
			}
			if again := impl.Dump(booklit.StripAux(out)); again != got {
				return impl.Same("stripped twice", got, again)
			}
			if err := impl.Same("stripped", ref.Dump(ref.StripAux(p.m)), got); err != nil {
				return err
			}
			want, have := keepWord.FindAllString(before, -1), keepWord.FindAllString(got, -1)
			want = without(want, keepWord.FindAllString(auxParts(before), -1))
			if err := sameNames("text left", want, have); err != nil {
				return err
			}
			ctx.NonTrivial(strings.Contains(before, "QQ") && len(want) > 0)
			if auxWord.MatchString(text) {
				ctx.Class("auxiliary text")
			}
		}
		return nil
	})

	core.Register("C12", "titles", core.Opts{
		Rule:  "sections whose titles have auxiliary parts anywhere, with references and tables of contents: the parts must be in the heading, and not in links, default tags or tables of contents; non-trivial with auxiliary text in a title and a reference to it",
		Quick: 3000, Thorough: 100000,
	}, gen.Of(func(r gen.R) SiteCase {
		a := &auxGen{R: r, noRef: true, lazy: r.Chance(50)}
		d := gen.Doc{gen.Alone(gen.Call("title", gen.T("Top"), gen.T("t"))), gen.Alone(gen.Call("use-plugin", gen.T("vt"))), gen.Alone(gen.Call("table-of-contents"))}
		refs := []gen.Inline{gen.Text("see ")}
		for i := r.Range(1, 3); i > 0; i-- {
			args := []gen.Arg{gen.Line(append([]gen.Inline{gen.Text(fmt.Sprintf("K%d ", i))}, a.line(3, false)...)...)}
			tag := fmt.Sprint("s", i)
			if r.Chance(70) {
				args = append(args, gen.T(tag))
				refs = append(refs, gen.Call("reference", gen.T(tag)), gen.Text(" "))
			}
			d = append(d, gen.Alone(gen.Call("section", gen.Arg{Kind: gen.ABlocks, Blocks: gen.Doc{gen.Alone(gen.Call("title", args...)), gen.Alone(gen.Text("x"))}})))
		}
		for n := r.Intn(3); n > 0; n-- {
			// displayed by themselves, also when there is no link
			x := &auxGen{R: r, noRef: true, lazy: a.lazy, n: 1000 * n}
			refs = append(refs, gen.Call(gen.Pick(r, "v-opt", "v-opt", "reference"), gen.T("t"), x.arg(2, false)), gen.Text(" "))
			x.n += 500
			refs = append(refs, gen.Call("v-opt", gen.T("nowhere"), x.arg(2, false)), gen.Text(" "))
		}
		d = append(d, gen.Alone(append(refs, gen.Text("."))...))
		p := gen.Printer{}
		return SiteCase{In: "index.lit", Files: map[string]string{"index.lit": p.Print(d)}}
	}), func(ctx *core.Ctx, c SiteCase) error {
		b, err := buildBoth(ctx, c, buildOpts{})
		if err != nil || b.Err != nil {
			return err
		}
		src := b.Out["t.html"]
		z := html.NewTokenizer(strings.NewReader(src))
		inA, inHead := false, 0
		heads, links := "", navText(src)
		for {
			tt := z.Next()
			if tt == html.ErrorToken {
				break
			}
			t := z.Token()
			for _, at := range t.Attr {
				if strings.Contains(strings.ToUpper(at.Val), "QQ") {
					return fmt.Errorf("auxiliary text in %s", t)
				}
				if at.Key == "href" && tt == html.StartTagToken && at.Val != "https://x.y" && inHead == 0 {
					inA = true
				}
			}
			switch {
			case len(t.Data) == 2 && t.Data[0] == 'h' && tt == html.StartTagToken:
				inHead++
			case len(t.Data) == 2 && t.Data[0] == 'h' && tt == html.EndTagToken:
				inHead--
			case t.Data == "a" && tt == html.EndTagToken:
				inA = false
			case tt == html.TextToken && inHead > 0:
				heads += t.Data
			case tt == html.TextToken && inA:
				links += t.Data
			}
		}
		if q := displayedAux.FindString(src); q != "" {
			return fmt.Errorf("%s of a reference is displayed", q)
		}
		if q := auxWord.FindString(links); q != "" {
			return fmt.Errorf("%s is in a link", q)
		}
		for _, s := range booklitTitles(b.Model) {
			for _, q := range auxWord.FindAllString(s, -1) {
				if !strings.Contains(heads, q) {
					return fmt.Errorf("%s is not in a heading", q)
				}
				ctx.NonTrivial(true)
			}
		}
		return nil
	})
}

func booklitTitles(m *ref.Section) []string {
	var out []string
	m.Walk(func(s *ref.Section) { out = append(out, ref.Summary(s.Title)) })
	return out
}

// navText is the text of tables of contents.
func navText(src string) string { return strings.Join(navs(src), "\n") }

// auxParts is the auxiliary parts of dumped content.
func auxParts(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if strings.HasPrefix(s[i:], "(aux ") {
			// up to the matching parenthesis; words have none
			d := 0
			j := i
			for ; j < len(s); j++ {
				if s[j] == '(' {
					d++
				} else if s[j] == ')' {
					d--
					if d == 0 {
						break
					}
				}
			}
			out += s[i:j]
			i = j
		}
	}
	return out
}

func without(xs, ys []string) []string {
	drop := map[string]bool{}
	for _, y := range ys {
		drop[y] = true
	}
	out := []string{}
	for _, x := range xs {
		if !drop[x] {
			out = append(out, x)
		}
	}
	return out
}
