package props

import (
	"fmt"
	"html"
	"regexp"
	"strings"
	"unicode/utf8"

	chromalib "github.com/alecthomas/chroma"
	chromahtml "github.com/alecthomas/chroma/formatters/html"
	"github.com/alecthomas/chroma/lexers"
	"github.com/alecthomas/chroma/styles"
	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/chroma"
	_ "github.com/vito/booklit/chroma/plugin"

	nethtml "golang.org/x/net/html"

	"path/filepath"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

func init() {
	registry["chroma"] = &ref.Plugin{Name: "chroma", Methods: map[string]ref.Method{
		"Syntax": ref.Highlight(),
	}}
}

// SyntaxCase is code, as content.
type SyntaxCase struct {
	Lang, Style string
	Code        Tree
	// Styles is how many style names are given.
	Styles int
	// Default replaces the style used when none is known.
	Default string
}

var codeLangs = []string{"booklit", "go", "html", "bash", "json", "python", "text", "nope", "", "Go", "HTML", "main.go", "x.lit", "yaml", "diff"}

var codeTexts = []string{
	"x := 1", "func main() {", "}", "  return \"a < b & c\"", "<div class=\"x\">é</div>", "</code></pre>", "<!-- c -->", "<script>alert(1)</script>",
	"# comment", "'quoted'", "\ttab", "{\"k\": [1, 2]}", "\\title{Hello}", "{- hidden -}", "{{{verbatim}}}", "}}", "", "  ", "&amp;", "&lt;", "a&b", "日本", "'", "\"", "$HOME `x`", "if x:",
	"+ added", "- removed", "key: value", "/* open", "\"open", "`open", "x\\", "\u2028", "\u0085",
}

func codeText(r gen.R) string {
	if r.Chance(15) {
		var b strings.Builder
		for n := r.Range(1, 8); n > 0; n-- {
			b.WriteString(gen.Pick(r, "<", ">", "&", "\"", "'", "{", "}", "\\", "x", " ", "é", "\t", "-", "a1", ";"))
		}
		return b.String()
	}
	return gen.Pick(r, codeTexts...)
}

func genCode(r gen.R) Tree {
	text := func() Tree {
		t := Tree{K: "text", S: codeText(r)}
		if r.Chance(10) {
			t.S += gen.Pick(r, "\n", "\r\n", "\n\n") + codeText(r)
		}
		return t
	}
	part := func() Tree {
		switch r.Weighted(8, 1, 1, 1) {
		case 1:
			return Tree{K: "styled", S: "bold", Kids: []Tree{text()}}
		case 2:
			return Tree{K: "aux", Kids: []Tree{text()}}
		case 3:
			return Tree{K: "link", S: "https://x.y", Kids: []Tree{text()}}
		}
		return text()
	}
	seq := func() Tree {
		t := Tree{K: "seq"}
		for n := r.Range(0, 3); n > 0; n-- {
			t.Kids = append(t.Kids, part())
		}
		return t
	}
	switch r.Weighted(4, 4, 8, 1) {
	case 0:
		return text()
	case 1:
		return seq()
	case 2:
		t := Tree{K: "pre"}
		for n := r.Range(0, 5); n > 0; n-- {
			t.Kids = append(t.Kids, seq())
		}
		return t
	}
	return Tree{K: "para", Kids: []Tree{seq(), seq()}}
}

func genSyntax(r gen.R) SyntaxCase {
	return SyntaxCase{Lang: gen.Pick(r, codeLangs...), Style: gen.Pick(r, "monokai", "github", "nope", ""), Styles: gen.Pick(r, 0, 0, 1, 1, 2), Default: gen.Pick(r, "", "", "", "vim", "algol"), Code: genCode(r)}
}

// sameCode compares code, other than line endings and how many there are
// after it.
func sameCode(want, got string) error {
	norm := func(s string) string {
		return strings.TrimRight(strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n"), "\n")
	}
	if w, g := norm(want), norm(got); w != g {
		return fmt.Errorf("highlighted code has other text: want %q, got %q", w, g)
	}
	return nil
}

// plainHTML is the text of HTML and the names of its elements.
func plainHTML(src string) (string, map[string]int, error) {
	z := nethtml.NewTokenizer(strings.NewReader(src))
	els := map[string]int{}
	var text strings.Builder
	var open []string
	for {
		switch z.Next() {
		case nethtml.ErrorToken:
			if len(open) > 0 {
				return "", nil, fmt.Errorf("elements are left open: %q in %s", open, src)
			}
			return text.String(), els, nil
		case nethtml.TextToken:
			raw := string(z.Raw())
			if strings.ContainsAny(raw, "<>") {
				return "", nil, fmt.Errorf("text is not escaped: %q", raw)
			}
			text.WriteString(html.UnescapeString(raw))
		case nethtml.StartTagToken:
			n, _ := z.TagName()
			open = append(open, string(n))
			els[string(n)]++
		case nethtml.EndTagToken:
			n, _ := z.TagName()
			if len(open) == 0 || open[len(open)-1] != string(n) {
				return "", nil, fmt.Errorf("</%s> does not close an element: %s", n, src)
			}
			open = open[:len(open)-1]
		default:
			return "", nil, fmt.Errorf("odd HTML: %s", src)
		}
	}
}

func checkSyntax(src string, block bool, code string) error {
	text, els, err := plainHTML(src)
	if err != nil {
		return err
	}
	for n := range els {
		if n != "pre" && n != "code" && n != "span" {
			return fmt.Errorf("highlighted code has a <%s>: %s", n, src)
		}
	}
	if block != (els["pre"] == 1) || els["pre"] > 1 {
		return fmt.Errorf("%d pre elements, for block %v", els["pre"], block)
	}
	return sameCode(code, text)
}

// painted is the text of HTML with the style of each character.
func painted(src string) ([]string, error) {
	z := nethtml.NewTokenizer(strings.NewReader(src))
	var style, out []string
	for {
		switch tt := z.Next(); tt {
		case nethtml.ErrorToken:
			for len(out) > 0 && strings.HasPrefix(out[len(out)-1], "\n") {
				out = out[:len(out)-1]
			}
			return out, nil
		case nethtml.TextToken:
			s := ""
			if len(style) > 0 {
				s = style[len(style)-1]
			}
			for _, c := range z.Token().Data {
				out = append(out, string(c)+" "+s)
			}
		case nethtml.StartTagToken:
			s := ""
			if len(style) > 0 {
				s = style[len(style)-1]
			}
			for _, a := range z.Token().Attr {
				if a.Key == "style" {
					s = a.Val
				}
			}
			style = append(style, s)
		case nethtml.EndTagToken:
			if len(style) == 0 {
				return nil, fmt.Errorf("odd HTML: %s", src)
			}
			style = style[:len(style)-1]
		}
	}
}

// samePaint compares highlighted code with how its language and style are
// highlighted by chroma itself.
func samePaint(lang, code string, style *chromalib.Style, flow bool, got string) (int, error) {
	lexer := lexers.Get(lang)
	if lexer == nil {
		lexer = lexers.Fallback
	}
	it, err := lexer.Tokenise(nil, code)
	if err != nil {
		core.Fatal("%s", err)
	}
	var b strings.Builder
	if err := chromahtml.New(chromahtml.PreventSurroundingPre(flow)).Format(&b, style, it); err != nil {
		core.Fatal("%s", err)
	}
	w, err := painted(b.String())
	if err != nil {
		core.Fatal("%s", err)
	}
	g, err := painted(got)
	if err != nil {
		return 0, err
	}
	kinds := map[string]bool{}
	for _, x := range w {
		_, n := utf8.DecodeRuneInString(x)
		kinds[x[n:]] = true
	}
	if err := sameNames(fmt.Sprintf("characters and styles of %q in %s, %s", code, lang, style.Name), w, g); err != nil {
		return 0, err
	}
	return len(kinds), nil
}

func runSyntax(ctx *core.Ctx, c SyntaxCase) error {
	if c.Default != "" {
		was := styles.Fallback
		styles.Fallback = styles.Get(c.Default)
		defer func() { styles.Fallback = was }()
	}
	d := newDoc()
	code, mcode := d.make(c.Code)
	p, ok := chroma.NewPlugin(d.sec).(chroma.Plugin)
	if !ok {
		return fmt.Errorf("not the plugin")
	}
	var names []string
	for i := 0; i < c.Styles; i++ {
		names = append(names, c.Style)
	}
	got, err := p.Syntax(c.Lang, code, names...)
	if err != nil {
		return fmt.Errorf("highlighting failed: %s", err)
	}
	st, ok := got.(booklit.Styled)
	if !ok {
		return fmt.Errorf("not styled: %T", got)
	}
	block := !ref.IsFlow(mcode)
	want := "code-flow"
	if block {
		want = "code-block"
	}
	if string(st.Style) != want || st.Block != block {
		return fmt.Errorf("style %q, block %v; want %s", st.Style, st.Block, want)
	}
	if l, ok := st.Partials["Language"]; !ok || l.String() != c.Lang || len(st.Partials) != 1 {
		return fmt.Errorf("partials %v, for language %q", st.Partials, c.Lang)
	}
	var b strings.Builder
	for _, part := range flat(st.Content) {
		h, ok := part.(booklit.Styled)
		if !ok || h.Style != "raw-html" {
			return fmt.Errorf("%s in highlighted code", impl.Dump(part))
		}
		b.WriteString(h.String())
	}
	text := ref.Summary(mcode)
	if err := checkSyntax(b.String(), block, text); err != nil {
		return err
	}
	// a style is just colors
	again, err := p.SyntaxTransform(c.Lang, code, styles.Get("bw"))
	if err != nil {
		return err
	}
	if err := checkSyntax(again.String(), block, text); err != nil {
		return err
	}
	style := styles.Fallback
	if c.Styles > 0 {
		style = styles.Get(c.Style)
	}
	kinds, err := samePaint(c.Lang, code.String(), style, !block, b.String())
	if err != nil {
		return err
	}
	ctx.Class("in several styles: %t", kinds > 1)
	if _, err := samePaint(c.Lang, code.String(), styles.Get("bw"), !block, again.String()); err != nil {
		return err
	}
	if c.Styles > 0 && styleKnown(c.Style) {
		direct, err := p.SyntaxTransform(c.Lang, code, styles.Get(c.Style))
		if err != nil || direct.String() != got.String() {
			return fmt.Errorf("%s is not used: %s and %s", c.Style, got, direct)
		}
	}
	ctx.Class("%s", want)
	ctx.NonTrivial(strings.Contains(b.String(), "<span") && len(text) > 8)
	return nil
}

func styleKnown(s string) bool { return s == "monokai" || s == "github" }

func flat(c booklit.Content) []booklit.Content {
	if seq, ok := c.(booklit.Sequence); ok {
		var out []booklit.Content
		for _, x := range seq {
			out = append(out, flat(x)...)
		}
		return out
	}
	return []booklit.Content{c}
}

// SyntaxDoc is a document with code.
type SyntaxDoc struct {
	SiteCase
	Calls int
}

func genSyntaxDoc(r gen.R) SyntaxDoc {
	c := SyntaxDoc{}
	p := gen.Base()
	p.Plugin, p.UsePlug, p.PlugInl, p.PlugBlk, p.Exotic = "chroma", 100, 8, 14, 0
	p.MaxSecs, p.MaxBlocks, p.RichTitles = 5, 4, 0
	simple := func(g *gen.G) []gen.Inline {
		out := []gen.Inline{gen.Text(gen.Pick(r, "x := 1", "<b>", "a & b", "if", "func f", "\"s\"", "'t", "é"))}
		if r.Chance(30) {
			out = append(out, gen.Text(" "), gen.Call(gen.Pick(r, "bold", "italic", "code"), gen.T(g.Words())))
		}
		return out
	}
	style := func(args ...gen.Arg) []gen.Arg {
		if r.Chance(30) {
			args = append(args, gen.T(gen.Pick(r, "monokai", "github", "nope")))
		}
		return args
	}
	inl := func(g *gen.G) gen.Inline {
		c.Calls++
		return gen.Call("syntax", style(gen.T(gen.Pick(r, "go", "booklit", "html", "nope", "bash")), gen.Line(simple(g)...))...)
	}
	blk := func(g *gen.G) gen.Inline {
		c.Calls++
		a := gen.Arg{Kind: gen.APre}
		if r.Chance(60) {
			a.Kind = gen.AVerb
		}
		for n := r.Range(1, 5); n > 0; n-- {
			if a.Kind == gen.AVerb {
				s := gen.Pick(r, codeTexts...)
				if strings.Contains(s, "}}}") || strings.ContainsAny(s, "\u2028\u0085") || strings.HasSuffix(s, "}") {
					s = "\tx <y> & \"z\""
				}
				a.Lines = append(a.Lines, gen.BLine{Text: s, Indent: gen.Pick(r, "", "  ")})
			} else {
				a.Lines = append(a.Lines, gen.BLine{Words: simple(g), Indent: gen.Pick(r, "", "  ")})
			}
		}
		return gen.Call("syntax", style(gen.T(gen.Pick(r, "go", "booklit", "html", "nope", "bash")), a)...)
	}
	p.Inl = append(p.Inl, inl)
	p.Blk = append(p.Blk, blk, blk, inl)
	c.SiteCase = siteGen(p)(r)
	return c
}

var kbd = regexp.MustCompile(`(?s)<kbd>\[([^\]]*)\](.*?)</kbd>`)

// codeOf is the code in a page, and the page with none.
func codeOf(page string) (rest string, langs, code []string) {
	for _, m := range kbd.FindAllStringSubmatch(page, -1) {
		langs, code = append(langs, m[1]), append(code, m[2])
	}
	return kbd.ReplaceAllString(page, "<kbd></kbd>"), langs, code
}

func runSyntaxDoc(ctx *core.Ctx, c SyntaxDoc) error {
	tmpl := func(block string) ref.Template {
		return ref.Template{{Op: "lit", Text: block}, {Op: "in", Text: "kbd", Kids: []ref.Item{{Op: "lit", Text: "["}, {Op: "language"}, {Op: "lit", Text: "]"}, {Op: "content"}}}}
	}
	h := &ref.HTML{Tmpl: map[string]ref.Template{"code-flow": tmpl("flow"), "code-block": tmpl("block")}}
	dir := filepath.Join(ctx.Dir(), "tmpl")
	files := map[string]string{}
	for n, t := range h.Tmpl {
		files[n+".tmpl"] = t.Source()
	}
	if err := impl.WriteFiles(dir, files); err != nil {
		core.Fatal("%s", err)
	}
	in, site, err := c.Open(ctx)
	if err != nil {
		return err
	}
	out := filepath.Join(ctx.Dir(), "out")
	cmd := &booklitcmd.Command{In: in, Out: out}
	cmd.HTMLEngine.Templates = dir
	goErr := impl.Build(cmd)
	root, rerr := site.Load(in)
	want := map[string]string{}
	if rerr == nil {
		want, _, rerr = modelPages(root, h)
	}
	if err := impl.SameErr(rerr, goErr); err != nil {
		return err
	}
	if rerr != nil {
		ctx.Class("error %s", rerr.Kind)
		return nil
	}
	got, err := impl.ReadOut(out)
	if err != nil {
		return err
	}
	if err := sameNames("output files", impl.Keys(want), impl.Keys(got)); err != nil {
		return err
	}
	n := 0
	for _, name := range impl.Keys(want) {
		wrest, wlangs, wcode := codeOf(want[name])
		grest, glangs, gcode := codeOf(got[name])
		if err := impl.Same(name, impl.HTML(wrest), impl.HTML(grest)); err != nil {
			return err
		}
		if err := sameNames("languages in "+name, wlangs, glangs); err != nil {
			return err
		}
		n += len(wcode)
		blocks := regexp.MustCompile("(flow|block)<kbd></kbd>").FindAllStringSubmatch(grest, -1)
		for i := range wcode {
			if err := checkSyntax(gcode[i], blocks[i][1] == "block", html.UnescapeString(wcode[i])); err != nil {
				return fmt.Errorf("%s: %s", name, err)
			}
		}
	}
	ctx.Class("built")
	ctx.NonTrivial(n >= 2)
	return nil
}

// TransformCase is text, and transformations of it.
type TransformCase struct {
	Text  string
	Lang  string
	Block bool
	Steps []TransformStep
}

// TransformStep is a pattern and what its matches become.
type TransformStep struct {
	Pattern string
	Out     string // which kind of content
}

func genTransform(r gen.R) TransformCase {
	c := TransformCase{Lang: gen.Pick(r, "nope", "go", "booklit"), Block: r.Chance(50)}
	for n := r.Range(0, 8); n > 0; n-- {
		c.Text += gen.Pick(r, "a", "aa", "b", " ", "<", "&", "é", "foo", "12", "\n", "}", "日本")
	}
	for n := r.Range(0, 3); n > 0; n-- {
		c.Steps = append(c.Steps, TransformStep{
			Pattern: gen.Pick(r, "a", "a*", "a+", "b|a", "[0-9]+", "^", "$", "é", ".", "foo", "nomatch", "&[a-z]+;", "x*", "(a)(b)?", `\b`, "(?m)^.", "<[^>]*>"),
			Out:     gen.Pick(r, "styled", "link", "sequence", "raw"),
		})
	}
	return c
}

func (s TransformStep) apply(m string) booklit.Content {
	switch s.Out {
	case "link":
		return booklit.Link{Content: booklit.String(m), Target: "#"}
	case "sequence":
		return booklit.Sequence{booklit.Styled{Style: "bold", Content: booklit.String(m)}, booklit.Aux{Content: booklit.String("+")}}
	case "raw":
		return booklit.Styled{Style: "raw-html", Content: booklit.String("<i>" + m + "</i>")}
	}
	return booklit.Styled{Style: "italic", Content: booklit.String(m)}
}

// pieces transforms text as regexp.ReplaceAllStringFunc would.
func (s TransformStep) pieces(re *regexp.Regexp, text string) []string {
	var out []string
	var b strings.Builder
	marked := re.ReplaceAllStringFunc(text, func(m string) string { return "\x01" + m + "\x02" })
	flush := func() {
		if b.Len() > 0 {
			out = append(out, b.String())
		}
		b.Reset()
	}
	for _, c := range marked {
		switch c {
		case '\x01':
			flush()
		case '\x02':
			out = append(out, impl.Dump(s.apply(b.String())))
			b.Reset()
		default:
			b.WriteRune(c)
		}
	}
	flush()
	return out
}

func runTransform(ctx *core.Ctx, c TransformCase) error {
	type piece struct {
		text string
		done bool
	}
	p := chroma.NewPlugin(&booklit.Section{}).(chroma.Plugin)
	var code booklit.Content = booklit.String(c.Text)
	if c.Block {
		code = booklit.Preformatted{code}
	}
	style := styles.Get("bw")
	plain, err := p.SyntaxTransform(c.Lang, code, style)
	if err != nil {
		return err
	}
	want := []piece{{plain.String(), false}}
	var trs []chroma.Transformer
	for _, s := range c.Steps {
		s := s
		re := regexp.MustCompile(s.Pattern)
		tr := chroma.Transformer{Pattern: re, Transform: s.apply}
		trs = append(trs, tr)

		// by itself, on the text
		parts := []string{}
		for _, x := range tr.TransformAll(c.Text) {
			if str, ok := x.(booklit.String); ok {
				parts = append(parts, string(str))
			} else {
				parts = append(parts, impl.Dump(x))
			}
		}
		// once for each match
		n, at := 0, 0
		counting := chroma.Transformer{Pattern: re, Transform: func(string) booklit.Content {
			n++
			return booklit.String(fmt.Sprintf("\x01%d\x02", n))
		}}
		numbered := re.ReplaceAllStringFunc(c.Text, func(string) string {
			at++
			return fmt.Sprintf("\x01%d\x02", at)
		})
		if got := counting.TransformAll(c.Text).String(); got != numbered {
			return impl.Same("numbered matches of "+s.Pattern, numbered, got)
		}
		if err := sameNames("parts of "+c.Text, s.pieces(re, c.Text), parts); err != nil {
			return err
		}

		var next []piece
		for _, x := range want {
			if x.done {
				next = append(next, x)
				continue
			}
			last := 0
			for _, m := range re.FindAllStringIndex(x.text, -1) {
				if m[0] > last {
					next = append(next, piece{x.text[last:m[0]], false})
				}
				next = append(next, piece{impl.Dump(s.apply(x.text[m[0]:m[1]])), true})
				last = m[1]
			}
			if last < len(x.text) {
				next = append(next, piece{x.text[last:], false})
			}
		}
		want = next
	}
	got, err := p.SyntaxTransform(c.Lang, code, style, trs...)
	if err != nil {
		return err
	}
	st, ok := got.(booklit.Styled)
	if !ok {
		return fmt.Errorf("not styled: %T", got)
	}
	if st.Block != c.Block || c.Lang != st.Partials["Language"].String() {
		return fmt.Errorf("block %v, partials %v", st.Block, st.Partials)
	}
	seq, ok := st.Content.(booklit.Sequence)
	if !ok {
		return fmt.Errorf("content is %T", st.Content)
	}
	var ws, gs []string
	done := 0
	for _, x := range want {
		if x.done {
			done++
			ws = append(ws, x.text)
		} else {
			ws = append(ws, impl.Dump(booklit.Styled{Style: "raw-html", Content: booklit.String(x.text)}))
		}
	}
	for _, x := range seq {
		gs = append(gs, impl.Dump(x))
	}
	ctx.NonTrivial(done > 0 && len(c.Steps) > 1)
	return sameNames("transformed code", ws, gs)
}

// LexCase is Booklit code in pieces of one kind each.
type LexCase struct{ Pieces [][2]string }

func genLex(r gen.R) LexCase {
	c := LexCase{}
	last := ""
	for n := r.Range(1, 12); n > 0; n-- {
		kind := gen.Pick(r, "text", "text", "call", "brace", "comment", "verbatim", "escape")
		if kind == last || last == "call" && kind == "text" || last == "escape" && kind == "call" || (last == "brace" || last == "escape") && kind != "text" || last == "call" && kind == "escape" {
			if last == "text" {
				kind = "call"
			} else {
				kind = "text"
			}
		}
		s := ""
		switch kind {
		case "text":
			s = gen.Pick(r, " hello", " a-b\n", "\n\n  x", " é & <", " 1", " Big-}"[:5])
		case "call":
			s = "\\" + gen.Pick(r, "bold", "use-plugin", "a", "include-section")
		case "brace":
			s = gen.Pick(r, "{", "}", "{{", "}}", "}{", "}}}")
		case "comment":
			s = gen.Pick(r, "{- x -}", "{--}", "{- a {- b -} c -}", "{- {x} - \\bold{y} -}", "{- \n\n -}", "{- {{{ -}", "{- } -}")
		case "verbatim":
			s = gen.Pick(r, "{{{x}}}", "{{{a } b}}}", "{{{\n  \\bold{x}\n}}}", "{{{ {- x -} }}}", "{{{ {x} }}}", "{{{ {{{ }}}", "{{{}}}", "{{{ a} }}}")
		case "escape":
			s = gen.Pick(r, `\\\\`, `\\{`, `\\}`)
		}
		last = kind
		c.Pieces = append(c.Pieces, [2]string{kind, s})
	}
	return c
}

var lexKinds = map[string]string{"text": "Text", "escape": "Text", "call": "Keyword", "brace": "NameBuiltin", "comment": "CommentMultiline", "verbatim": "LiteralStringDouble"}

func runLex(ctx *core.Ctx, c LexCase) error {
	join := func(ps [][2]string) []string {
		var out []string
		last := ""
		for _, p := range ps {
			if p[1] == "" {
				continue
			}
			if p[0] == last {
				out[len(out)-1] += p[1]
				continue
			}
			out = append(out, p[0]+" "+p[1])
			last = p[0]
		}
		return out
	}
	src := ""
	var want, got [][2]string
	kinds := map[string]bool{}
	for _, p := range c.Pieces {
		src += p[1]
		want = append(want, [2]string{lexKinds[p[0]], p[1]})
		kinds[p[0]] = true
	}
	lexer := lexers.Get("booklit")
	if lexer == nil {
		return fmt.Errorf("there is no lexer for Booklit")
	}
	for _, n := range []string{"x/y.lit", "Booklit"} {
		l := lexers.Match(n)
		if n == "Booklit" {
			l = lexers.Get(n)
		}
		if l == nil || l.Config().Name != "Booklit" {
			return fmt.Errorf("%s is not for the lexer of Booklit", n)
		}
	}
	it, err := lexer.Tokenise(nil, src)
	if err != nil {
		return err
	}
	for _, t := range it.Tokens() {
		got = append(got, [2]string{t.Type.String(), t.Value})
	}
	ctx.NonTrivial(len(kinds) >= 3)
	return sameNames("tokens of "+src, join(want), join(got))
}

func init() {
	core.Register("C25", "syntax", core.Opts{
		Rule:  "code as text, preformatted or any other content, in known and unknown languages and styles: the HTML has just pre, code and span elements, all closed, with the text of the code escaped, each character in the style which chroma gives it in that language and style, and is a block or flow as the code is; non-trivial when something is highlighted in more than 8 bytes",
		Quick: 10000, Thorough: 400000,
	}, gen.Of(genSyntax), runSyntax)
	core.Register("C25", "documents", core.Opts{
		Rule:  "documents with highlighted code: pages as the model has them, and in each place the text of the code; non-trivial when there is code twice",
		Quick: 3000, Thorough: 80000,
	}, gen.Of(genSyntaxDoc), runSyntaxDoc)
	core.Register("C25", "transform", core.Opts{
		Rule:  "text, patterns and transformations: each match is replaced as regexp does, the rest is kept as it is, and what is transformed is left alone by later transformations; non-trivial with two patterns and a match",
		Quick: 10000, Thorough: 500000,
	}, gen.Of(genTransform), runTransform)
	core.Register("C25", "lexer", core.Opts{
		Rule:  "Booklit code of pieces of known kinds: each is highlighted as what it is; non-trivial with three kinds",
		Quick: 12000, Thorough: 500000,
	}, gen.Of(genLex), runLex)
}
