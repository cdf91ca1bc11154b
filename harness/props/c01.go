package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/vito/booklit/ast"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

// SrcCase is a source text.
type SrcCase struct{ Src core.Raw }

var soup = []string{
	"\\", "{", "}", "{{", "}}", "{{{", "}}}", "{-", "-}", "\n", "\r\n", "\n", " ", "\t", "a", "foo", "\\b", "\\foo-bar", "\\b{", "\\b{{\n", "\\b{{{", "\\b{{{\n", "}\n\n", "\n\n", "-",
	"\\\\", "\\{", "\\}", "é", "日", "\\A", "\\1", "x y", "  ", "{x}", "{}", "\\s{\n", "{- c -}", "\n  ", "\n\t", "\\-", "\\section{", "\r", "\x00", "\u2028", "\ufeff", "\ufffd", "}}\n", "}}}\n",
}

// anyRune is any of them (but not a control character).
func anyRune(r gen.R) string {
	for {
		lo, hi := 0xa0, 0xffff
		if r.Chance(20) {
			lo, hi = 0x10000, utf8.MaxRune
		}
		if c := rune(r.Range(lo, hi)); utf8.ValidRune(c) {
			return string(c)
		}
	}
}

func soupGen(bad int) func(gen.R) SrcCase {
	return func(r gen.R) SrcCase {
		n := r.Intn(25)
		depth := 0
		var b strings.Builder
		for i := 0; i < n; i++ {
			t := gen.Pick(r, soup...)
			if r.Chance(4) {
				t = string(rune(r.Range(0, 0x7f)))
			}
			if r.Chance(3) {
				t = anyRune(r)
			}
			if r.Chance(bad) {
				t = gen.Pick(r, "\xff", "\xc3", "\xe6\x97", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80")
			}
			depth += strings.Count(t, "{") - strings.Count(t, "}")
			if depth > 12 {
				// deep nesting without ends takes exponential time to reject
				break
			}
			if depth < 0 {
				depth = 0
			}
			b.WriteString(t)
		}
		return SrcCase{core.Raw(b.String())}
	}
}

// balancedSoup nests properly, so that most of it is accepted.
func balancedSoup(r gen.R) SrcCase {
	var b strings.Builder
	var words, line, paras, arg func(d int)
	word := func(d int) {
		switch r.Weighted(8, 3, 2, 5, 2, 1) {
		case 0:
			b.WriteString(gen.Pick(r, "a", "foo", "x y", "é", " ", "\t", "-", "--", "b-c", "日本", "-a", "a-", "\ufffd", anyRune(r)))
		case 1:
			b.WriteString(gen.Pick(r, "\\\\", "\\{", "\\}"))
		case 2:
			b.WriteString("{")
			if d < 3 && r.Chance(60) {
				word0 := gen.Pick(r, "a", "\\\\", "x y", "\\f", "")
				b.WriteString(word0)
			}
			b.WriteString("}")
		case 3:
			b.WriteString("\\" + gen.Pick(r, "f", "foo", "foo-bar", "b", "-", "a-"))
			for n := r.Weighted(2, 4, 2, 1); n > 0 && d < 4; n-- {
				arg(d + 1)
			}
		case 4:
			b.WriteString(gen.Pick(r, "{- c -}", "{-c-}", "{- {- n -} -}", "{- \n -}", " {- \\b{x -}", "{--}", "{- } -}", "{- { -}"))
		case 5:
			b.WriteString(gen.Pick(r, "{{", "}", "{", "\\"))
		}
	}
	words = func(d int) {
		for n := 1 + r.Intn(4); n > 0; n-- {
			word(d)
		}
	}
	nl := func() { b.WriteString(gen.Pick(r, "\n", "\n", "\n", "\r\n")) }
	line = func(d int) {
		if r.Chance(30) {
			b.WriteString(gen.Pick(r, " ", "  ", "\t", " \t "))
		}
		words(d)
	}
	paras = func(d int) {
		for n := 1 + r.Intn(3); n > 0; n-- {
			for m := 1 + r.Intn(3); m > 0; m-- {
				line(d)
				nl()
			}
			if n > 1 || r.Chance(20) {
				nl()
			}
		}
	}
	block := func(content func()) {
		nl()
		for n := r.Intn(4); n > 0; n-- {
			b.WriteString(gen.Pick(r, "", " ", "  ", "    ", "\t", " \t"))
			if r.Chance(85) {
				content()
			}
			nl()
		}
		b.WriteString(gen.Pick(r, "", "  ", "\t"))
	}
	verb := func() {
		for n := 1 + r.Intn(3); n > 0; n-- {
			b.WriteString(gen.Pick(r, "a", " ", "}", "}}", "{", "\\", "{{", "\\b{x}", "é", "  x", "{- c -}", "x", "y"))
		}
	}
	arg = func(d int) {
		switch r.Weighted(6, 2, 3, 2, 2, 2, 1) {
		case 0:
			b.WriteString("{")
			words(d)
			for r.Chance(20) {
				nl()
				if r.Chance(50) {
					b.WriteString("  ")
				}
				words(d)
			}
			b.WriteString("}")
		case 1:
			b.WriteString("{}")
		case 2:
			b.WriteString("{")
			nl()
			paras(d)
			b.WriteString(gen.Pick(r, "", "  ", "\t"))
			b.WriteString("}")
		case 3:
			b.WriteString("{{")
			block(func() { words(d) })
			b.WriteString("}}")
		case 4:
			b.WriteString("{{{")
			block(verb)
			b.WriteString("}}}")
		case 5:
			b.WriteString("{{{")
			verb()
			b.WriteString("}}}")
		case 6:
			b.WriteString("{")
			nl()
			b.WriteString("}")
		}
	}
	if r.Chance(20) {
		nl()
	}
	paras(0)
	s := b.String()
	if r.Chance(30) {
		s = strings.TrimRight(s, "\r\n")
	}
	return SrcCase{core.Raw(s)}
}

// checkParse compares the parser with the model.
func checkParse(ctx *core.Ctx, c SrcCase, pos bool) error {
	src := string(c.Src)
	if !utf8.ValidString(src) {
		ctx.Class("invalid UTF-8")
	}
	want := ref.Parse(src)
	got, err := ast.ParseReader("x.lit", strings.NewReader(src))
	if want.OK != (err == nil) {
		return fmt.Errorf("%q: want accepted=%v, got error %v", src, want.OK, err)
	}
	if err != nil {
		ctx.Class("rejected")
		ctx.NonTrivial(len(src) > 3)
		e, ok := ast.UnpackError(err)
		if !ok {
			return fmt.Errorf("%q: the error has no location: %v", src, err)
		}
		if pos && utf8.ValidString(src) && impl.Pos(e.Location) != want.Fail {
			return fmt.Errorf("%q: want the error at %v, got %v (%v)", src, want.Fail, impl.Pos(e.Location), err)
		}
		return nil
	}
	ctx.Class("accepted")
	d := ref.DumpNode(want.Node, true)
	ctx.NonTrivial(strings.Contains(d, "(\\"))
	for _, k := range []string{"(pre", "{-", "}}}", "\r\n"} {
		if strings.Contains(d, k) || strings.Contains(src, k) {
			ctx.Class("accepted with %q", k)
		}
	}
	return impl.Same(fmt.Sprintf("%q: trees", src), d, impl.DumpNode(got.(ast.Node)))
}

func init() {
	conform := func(ctx *core.Ctx, c SrcCase) error { return checkParse(ctx, c, false) }
	core.Register("C01", "soup", core.Opts{
		Rule:  "sequences of delimiters, words, linebreaks and invalid bytes, parsed for real and by the model; non-trivial when rejected (of more than 3 bytes) or accepted with a call",
		Quick: 100000, Thorough: 4000000,
	}, gen.Of(soupGen(1)), conform)
	core.Register("C01", "nested", core.Opts{
		Rule:  "mostly balanced nesting of calls, every kind of argument, comments and escapes; non-trivial when rejected or accepted with a call",
		Quick: 100000, Thorough: 4000000,
	}, gen.Of(balancedSoup), conform)
	p := gen.Base()
	p.Special, p.Layout.Comments = 40, 20
	core.Register("C01", "documents", core.Opts{
		Rule:  "well-formed documents, and parts of those of booklit's own documentation, with up to three random edits in a third of them; non-trivial when rejected or accepted with a call",
		Quick: 20000, Thorough: 600000,
	}, gen.Of(func(r gen.R) SrcCase {
		g, in := gen.Site(r, p)
		src := g.Files[in]
		if r.Chance(15) {
			// some of one which people wrote
			src = gen.Pick(r, gen.Corpus...)
			if ps := strings.Split(src, "\n\n"); r.Chance(80) {
				i := r.Intn(len(ps))
				src = strings.Join(ps[i:min(len(ps), i+r.Range(1, 12))], "\n\n")
			}
			src = strings.ReplaceAll(src, "\n", gen.Pick(r, "\n", "\n", "\r\n"))
		}
		if r.Chance(33) {
			src = g.Mutate(src)
		}
		return SrcCase{core.Raw(src)}
	}), conform)
	core.Register("C01", "files", core.Opts{
		Rule:  "the nesting texts again, as files which are loaded, with calls of functions which exist, and with what editors may put around them (byte order marks, blank lines, NUL): what is evaluated must be as the model has it; non-trivial when rejected or when the section has content",
		Quick: 20000, Thorough: 600000,
	}, gen.Of(genSrcFile), runSrcFile)
}

// genSrcFile generates text of a file.
func genSrcFile(r gen.R) SrcCase {
	s := string(balancedSoup(r).Src)
	names := map[string]string{"f": "v-strs", "foo": "v-var{x}", "foo-bar": "v-nodes{y}", "b": "v-node"}
	if r.Chance(40) {
		names = map[string]string{"f": "bold", "foo": "list", "foo-bar": "code", "b": "table-row"}
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteByte(s[i])
		if s[i] != '\\' || i+1 == len(s) {
			continue
		}
		if strings.IndexByte("\\{}", s[i+1]) >= 0 {
			i++
			b.WriteByte(s[i])
			continue
		}
		n := i + 1
		for n < len(s) && (s[n] == '-' || s[n] >= 'a' && s[n] <= 'z') {
			n++
		}
		if to, ok := names[s[i+1:n]]; ok {
			b.WriteString(to)
			i = n - 1
		}
	}
	s = b.String()
	if names["f"] == "v-strs" {
		s = "\\use-plugin{vt}" + gen.Pick(r, "\n\n", "\r\n\r\n", "\n\n\n") + s
	}
	odd := func() string {
		return gen.Pick(r, "", "", "\ufeff", "\n", "\r\n", "\n\n", " ", "\x00", "\u2028", "\u00a0", "\ufeff\n\n", "\x1a", "---\n", "#!/x\n", "\f", "\v", "\u200b", "\u0085", "\xef\xbb\xbf\xef\xbb\xbf")
	}
	return SrcCase{core.Raw(odd() + s + odd())}
}

func runSrcFile(ctx *core.Ctx, c SrcCase) error {
	src := string(c.Src)
	site := SiteCase{Files: map[string]string{"index.lit": src}, In: "index.lit"}
	if want := ref.Parse(src); !want.OK {
		ctx.Class("rejected")
		ctx.NonTrivial(len(src) > 3)
		in, _, err := site.Open(ctx)
		if err != nil {
			return err
		}
		_, err = impl.Load(in)
		if e := impl.Err(err); e == nil || e.Kind != "parse" {
			return fmt.Errorf("%q: want a syntax error, got %v", src, err)
		}
		return nil
	}
	m, _, rerr, err := loadBoth(ctx, site)
	if err != nil {
		return fmt.Errorf("%q: %w", src, err)
	}
	if rerr != nil {
		ctx.Class("fails: %s", rerr.Kind)
		return nil
	}
	ctx.Class("accepted")
	ctx.NonTrivial(m.Body != nil && ref.Summary(m.Body) != "")
	return nil
}
