package gen

import (
	"fmt"
	"path"
	"strings"
)

// Profile weighs what is generated.
type Profile struct {
	// text
	Special, Unicode int // chances

	// inline content
	Text, Style, Link, Image, Ref, Target, Aux, Code, Interp, PlugInl int

	// blocks
	Para, List, Table, Defs, CodeBlock, PreBlock, Quote, Section, Include, TOC, Partial, PlugBlk int

	// flags, as chances per section
	Split, Single, Omit, UsePlug, Styled int
	SplitRoot                            int

	MaxDepth   int // of sections
	MaxBlocks  int // per section
	MaxSecs    int // in total
	InlDepth   int
	Untitled   int // chance
	ExtraTags  int
	Exotic     int // chance of exotic tag names
	RefTitles  int // chance of references in titles
	TitleAny   int // chance of the title being elsewhere than first
	RichTitles int
	// Index is the chance that the tag of the first section is index, if more than usual.
	Index int

	Unknown, Dup, Err, Syntax int // chances of errors

	Layout Printer
	// Hook makes up the text of each kind: text, link, image, verb or tag.
	// All titles have tags then.
	Hook func(g *G, kind string) string
	// Styles are section styles which have templates.
	Styles []string
	// Calls generates plugin calls.
	Inl, Blk []func(*G) Inline
	Plugin   string
}

// Base is a bit of everything.
func Base() Profile {
	return Profile{
		Special: 15, Unicode: 15,
		Text: 40, Style: 8, Link: 3, Image: 1, Ref: 4, Target: 3, Aux: 3, Code: 3, Interp: 3,
		Para: 30, List: 4, Table: 3, Defs: 3, CodeBlock: 4, PreBlock: 3, Quote: 3, Section: 14, Include: 4, TOC: 2, Partial: 2,
		Split: 15, Single: 4, Omit: 5, SplitRoot: 20,
		MaxDepth: 4, MaxBlocks: 5, MaxSecs: 10, InlDepth: 3, ExtraTags: 15, Exotic: 10, RefTitles: 8, TitleAny: 15, RichTitles: 30,
		Layout: Printer{CRLF: 0, Comments: 6, Rewrap: 10},
	}
}

// G generates a site.
type G struct {
	R
	P     Profile
	Files map[string]string
	Docs  map[string]Doc

	Tags     []string // defined so far
	TagKinds map[string]string
	wanted   []string // referenced, to be defined
	plain    []string // plain targets
	plainUse map[string]bool
	n        int
	secs     int
	errs     int
	HasErr   bool
	layout   Printer
}

// Site generates files; the main one is returned.
func Site(r R, p Profile) (*G, string) {
	g := &G{R: r, P: p, Files: map[string]string{}, Docs: map[string]Doc{}, TagKinds: map[string]string{}, plainUse: map[string]bool{}}
	g.layout = p.Layout
	g.layout.Vary = &r
	if r.Chance(15) {
		g.layout.CRLF = Pick(r, 100, 50)
	}
	for i := 0; i < 2; i++ {
		g.plain = append(g.plain, fmt.Sprintf("plain-%d", i))
	}
	main := "index.lit"
	g.file(main, 0, nil)
	return g, main
}

func (g *G) file(name string, depth int, extra Doc) {
	d := g.section(depth, path.Dir(name))
	if depth == 0 {
		d = append(d, g.loose()...)
	}
	g.Docs[name] = d
	src := g.layout.Print(d)
	if g.Chance(g.P.Syntax) {
		src = g.Mutate(src)
		g.HasErr = true
	}
	g.Files[name] = src
}

// loose defines the tags which are referenced but not defined.
func (g *G) loose() Doc {
	var d Doc
	def := map[string]bool{}
	for _, t := range g.Tags {
		def[t] = true
	}
	var line []Inline
	for _, t := range g.wanted {
		if !def[t] {
			def[t] = true
			line = append(line, Call("target", T(t), Line(g.text(false)...)), Text(" "))
		}
	}
	for _, t := range g.plain {
		if g.plainUse[t] {
			line = append(line, Call("target", T(t)), Text(" "))
		}
	}
	if len(line) > 0 {
		d = append(d, Alone(append(line, Text("."))...))
	}
	return d
}

var plainWords = []string{"alpha", "beta", "gamma", "delta", "one two", "x", "Some words", "lorem ipsum dolor", "A", "42", "end.", "foo-bar", "it is", "a b c", "(paren)"}

var specialWords = []string{
	"<b>", "&amp;", `"quoted"`, "it's", "a & b", "<script>alert(1)</script>", "-->", "<!--", "</p>", "</title>", "&lt;", "100%", "#hash",
	"`tick`", "$x", "a=b", "x<y>z", "{", "}", "\\", "{{", "}}", "}}}", "{-", "-}", "{{.}}", "a  b", "tab\there", "...", "--", "~", "@", "|", "*", "_", "&", " & ", "/", "\\bold", "\x0c", "&#34;", "<", ">", "'",
}

var uniWords = []string{"héllo", "日本語", "🎉", "e\u0301", "\u00a0", "ß", "İx", "Ωmega", "\u200b", "\u2028", "Ünï", "é", "naïve café", "\u202ertl", "𝒳", "Ａ"}

// Words makes plain text.
func (g *G) Words() string {
	if g.P.Hook != nil {
		return g.P.Hook(g, "text")
	}
	n := 1 + g.Weighted(6, 3, 1)
	var ws []string
	for i := 0; i < n; i++ {
		switch {
		case g.Chance(g.P.Special):
			ws = append(ws, Pick(g.R, specialWords...))
		case g.Chance(g.P.Unicode):
			ws = append(ws, Pick(g.R, uniWords...))
		default:
			ws = append(ws, Pick(g.R, plainWords...))
		}
	}
	return strings.Join(ws, Pick(g.R, " ", " ", " ", "", "  "))
}

func (g *G) text(_ bool) []Inline { return []Inline{Text(g.Words())} }

// Ctx limits inline content.
type Ctx struct {
	Depth    int
	NoRef    bool // nothing which is resolved
	NoTarget bool
	Title    bool
	Flow     bool // no block content
}

var styleFns = []string{"bold", "italic", "larger", "smaller", "strike", "superscript", "subscript", "code", "inset", "aside"}

// Inlines makes inline content.
func (g *G) Inlines(c Ctx) []Inline {
	n := 1 + g.Weighted(5, 4, 3, 1)
	var out []Inline
	for i := 0; i < n; i++ {
		out = append(out, g.Inline(c))
		if i < n-1 && g.Chance(60) {
			out = append(out, Text(" "))
		}
	}
	return out
}

// Inline makes one piece of inline content.
func (g *G) Inline(c Ctx) Inline {
	p := g.P
	if c.Depth >= p.InlDepth {
		return Text(g.Words())
	}
	d := c
	d.Depth++
	ref, target, plug := p.Ref, p.Target, p.PlugInl
	if c.NoRef || c.Title && !g.Chance(p.RefTitles*2) {
		ref = 0
	}
	if c.NoTarget || c.NoRef || c.Title && g.Chance(70) {
		target = 0
	}
	if c.NoRef || len(p.Inl) == 0 {
		plug = 0
	}
	if g.Chance(p.Err) && !c.Title {
		return g.errCall(d)
	}
	switch g.Weighted(p.Text, p.Style, p.Link, p.Image, ref, target, p.Aux, p.Code, p.Interp, plug) {
	case 1:
		fn := Pick(g.R, styleFns...)
		if !c.Flow && !c.Title && g.Chance(8) {
			return Call(fn, Arg{Kind: ABlocks, Blocks: g.Blocks(d, 2)})
		}
		return Call(fn, Line(g.Inlines(d)...))
	case 2:
		return Call("link", Line(g.Inlines(d)...), T(g.LinkTarget()))
	case 3:
		if g.Chance(50) {
			return Call("image", T(g.ImagePath()))
		}
		return Call("image", T(g.ImagePath()), T(g.Words()))
	case 4:
		return g.Ref(d)
	case 5:
		return g.Target(d)
	case 6:
		return Call("aux", Line(g.Inlines(d)...))
	case 7:
		if g.Chance(50) {
			return Call("code", Line(g.Inlines(d)...))
		}
		return Call("code", Arg{Kind: AVerbIn, Text: g.VerbText()})
	case 8:
		if g.Chance(70) {
			return Interp{Text(Pick(g.R, "x", "word", "a b", "é"))}
		}
		if g.Chance(50) {
			return Interp{}
		}
		return Interp{Call("bold", Line(g.Inlines(d)...))}
	case 9:
		return Pick(g.R, p.Inl...)(g)
	}
	return Text(g.Words())
}

// LinkTarget makes a safe link target.
func (g *G) LinkTarget() string {
	if g.P.Hook != nil {
		return g.P.Hook(g, "link")
	}
	return Pick(g.R, "https://example.com", "http://a.b/c?d=e&f=g#h", "mailto:x@y.z", "/abs/path.html", "rel.html#frag", "#frag", "a b", "q?x=1&y=2", "https://x.y/é", "x%20y", "?a='b'", "https://x/(y)")
}

// ImagePath makes an image path.
func (g *G) ImagePath() string {
	if g.P.Hook != nil {
		return g.P.Hook(g, "image")
	}
	return Pick(g.R, "img.png", "dir/a b.jpg", "https://x.y/z.svg?a=1&b=2", "é.gif", "../up.png")
}

// VerbText is text which can be in a verbatim argument.
func (g *G) VerbText() string {
	if g.P.Hook != nil {
		return g.P.Hook(g, "verb")
	}
	s := Pick(g.R, "code", "x := 1", "\\not{a}{call}", "{a}", "a {- b -} c", "<tag>", "  two  ", "\\", "}x", "{{ }} .", "a\\\\b", "日本", "{", "func() { return }.") + Pick(g.R, "", "", ";", " y")
	s = strings.TrimRight(s, "}")
	return strings.ReplaceAll(s, "}}}", "} } }")
}

// Ref makes a reference.
func (g *G) Ref(c Ctx) Inline {
	c.NoTarget = true
	if c.Title {
		if g.Chance(40) {
			t := Pick(g.R, g.plain...)
			g.plainUse[t] = true
			return Call("reference", T(t))
		}
		c.NoRef = true
		return Call("reference", T(g.WantTag()), Line(g.Inlines(c)...))
	}
	name := g.WantTag()
	if g.Chance(g.P.Unknown) {
		g.HasErr = true
		name = Pick(g.R, "nowhere", "tag-0x", "TAG-1", "", "plain", "s-01")
		if len(g.Tags) > 0 && g.Chance(50) {
			// much like one which is known
			t := g.Tags[g.Intn(len(g.Tags))]
			name = Pick(g.R, strings.ToUpper(t), t+"-", "#"+t, t+".html", strings.Replace(t, "-", "", 1), strings.Replace(t, "-", "_", 1))
		}
	}
	switch g.Weighted(5, 3, 1) {
	case 0:
		return Call("reference", T(name))
	case 1:
		c.NoRef = true
		return Call("reference", T(name), Line(g.Inlines(c)...))
	}
	return Call("reference", T(name), Line(g.text(false)...), T("ignored"))
}

// WantTag names a tag which is or will be defined.
func (g *G) WantTag() string {
	if len(g.Tags) > 0 && g.Chance(60) {
		return g.Tags[g.Intn(len(g.Tags))]
	}
	if len(g.wanted) > 0 && g.Chance(60) {
		return g.wanted[g.Intn(len(g.wanted))]
	}
	t := g.freshTag(g.Chance(g.P.Exotic), true)
	g.wanted = append(g.wanted, t)
	return t
}

var exotic = []string{"a b", "é", "x%y", "h#i", "q?r", "s&t", "c:d", "p+q", "l<m>", `n"o`, "semi;", "100%25", "v'w", "日本", "e=mc", "a..b", "@at", "UPPER", "~t", "br[0]", "(x)", "a,b", "x!", "star*"}
var exoticTarget = []string{"a/b", "./x", "..", "", "x/../y"}

func (g *G) freshTag(ex, target bool) string {
	g.n++
	if g.P.Hook != nil {
		return g.P.Hook(g, "tag")
	}
	if ex {
		if target && g.Chance(30) {
			return Pick(g.R, exoticTarget...) + fmt.Sprint("-", g.n)
		}
		return Pick(g.R, exotic...) + fmt.Sprint("-", g.n)
	}
	if g.Chance(20) {
		return fmt.Sprintf(Pick(g.R, "%d-html", "n%dm", "%dt", "h%d.html", "%dl", "%d.m", "%d-index", "T%dL"), g.n)
	}
	if g.Chance(8) && len(g.Tags) > 0 {
		// in another case
		t := Pick(g.R, g.Tags...)
		if u := Pick(g.R, strings.ToUpper(t), strings.Title(t)); !g.known(u) && (target || !strings.Contains(u, "/")) { // nolint
			return u
		}
	}
	return fmt.Sprintf("%s-%d", Pick(g.R, "tag", "s", "x", "some-tag"), g.n)
}

func (g *G) known(tag string) bool {
	for _, t := range append(append([]string{}, g.Tags...), g.wanted...) {
		if t == tag {
			return true
		}
	}
	return false
}

// DefTag names a tag to define.
func (g *G) DefTag(target bool) string {
	if len(g.Tags) > 0 && g.Chance(g.P.Dup) {
		if t := g.Tags[g.Intn(len(g.Tags))]; target || !strings.Contains(t, "/") {
			g.HasErr = true
			return t
		}
	}
	def := map[string]bool{}
	for _, t := range g.Tags {
		def[t] = true
	}
	if g.Chance(50) {
		for _, w := range g.wanted {
			if !def[w] && (target || !strings.Contains(w, "/")) {
				g.Tags = append(g.Tags, w)
				return w
			}
		}
	}
	t := g.freshTag(g.Chance(g.P.Exotic), target)
	g.Tags = append(g.Tags, t)
	return t
}

// Target makes a target.
func (g *G) Target(c Ctx) Inline {
	t := g.DefTag(true)
	c.NoTarget, c.Title = true, true // titles do not have references to others
	switch g.Weighted(3, 3, 3, 1) {
	case 0:
		return Call("target", T(t))
	case 1:
		return Call("target", T(t), Line(g.Inlines(c)...))
	case 2:
		if g.Chance(30) {
			return Call("target", T(t), Line(g.Inlines(c)...), Arg{Kind: ABlocks, Blocks: g.Blocks(c, 2)})
		}
		return Call("target", T(t), Line(g.Inlines(c)...), Line(g.Inlines(c)...))
	}
	return Call("target", T(t), Line(g.text(false)...))
}

// Blocks makes plain paragraphs.
func (g *G) Blocks(c Ctx, max int) []Block {
	n := g.Range(1, max)
	var out []Block
	for i := 0; i < n; i++ {
		out = append(out, g.para(c))
	}
	return out
}

func (g *G) para(c Ctx) Block {
	n := 1 + g.Weighted(5, 3, 1)
	b := Block{}
	for i := 0; i < n; i++ {
		b.Lines = append(b.Lines, g.Inlines(c))
	}
	return b
}

func (g *G) item(c Ctx) Arg {
	if c.Depth < g.P.InlDepth && g.Chance(15) {
		return Arg{Kind: ABlocks, Blocks: g.Blocks(c, 2)}
	}
	if c.Depth < g.P.InlDepth && g.Chance(8) {
		return Line(g.listCall(c))
	}
	return Line(g.Inlines(c)...)
}

func (g *G) items(c Ctx, max int) []Arg {
	n := g.Intn(max + 1)
	var out []Arg
	for i := 0; i < n; i++ {
		out = append(out, g.item(c))
	}
	return out
}

func (g *G) listCall(c Ctx) Inline {
	c.Depth++
	return Call(Pick(g.R, "list", "ordered-list"), g.items(c, 3)...)
}

func (g *G) preLines(c Ctx, verb bool) []BLine {
	n := g.Intn(5)
	var out []BLine
	for i := 0; i < n; i++ {
		l := BLine{}
		if g.Chance(50) {
			l.Indent = Pick(g.R, "  ", "    ", "\t", " ", "\t ")
		}
		if i > 0 && g.Chance(15) {
			l.Indent = Pick(g.R, "", "", "  ")
		} else if verb {
			l.Text = g.VerbText()
		} else {
			l.Words = g.Inlines(c)
		}
		out = append(out, l)
	}
	return out
}

// errCall makes a call which fails.
func (g *G) errCall(c Ctx) Inline {
	g.HasErr = true
	switch g.Intn(9) {
	case 0:
		return Call(Pick(g.R, "nope", "bolder", "b", "-", "bold-", "title-x"), Line(g.Inlines(c)...))
	case 1:
		return Call("bold")
	case 2:
		return Call("bold", T("a"), T("b"))
	case 3:
		return Call("table", Line(Call("table-row", T("a"))), T("not a row"))
	case 4:
		return Call("definitions", Line(Call("table-row", T("a"), T("b"), T("c"))))
	case 5:
		return Call("use-plugin", T("no-such-plugin"))
	case 6:
		return Call("include-section", T("missing.lit"))
	case 7:
		return Call("title", T("again"), T("again"))
	}
	return Call("link", T("x"))
}

// Mutate breaks (or not) the syntax.
func (g *G) Mutate(src string) string {
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		at := g.Intn(len(src) + 1)
		tok := Pick(g.R, "\\", "{", "}", "{{", "}}", "{{{", "}}}", "{-", "-}", "\n", "\r", "\r\n", " ", "\\x", "\\1", "\t")
		if g.Chance(50) && at < len(src) {
			end := at + 1 + g.Intn(3)
			if end > len(src) {
				end = len(src)
			}
			src = src[:at] + src[end:]
		} else {
			src = src[:at] + tok + src[at:]
		}
	}
	return strings.ToValidUTF8(src, "?")
}

// section makes the content of a section.
func (g *G) section(depth int, dir string) Doc {
	g.secs++
	p := g.P
	var d Doc
	var early []Block
	if p.Plugin != "" && p.UsePlug >= 100 {
		d = append(d, Alone(Call("use-plugin", T(p.Plugin)))) // before any use
	} else if p.Plugin != "" && g.Chance(p.UsePlug) {
		early = append(early, Alone(Call("use-plugin", T(p.Plugin))))
	}
	split := p.Split
	if depth == 0 {
		split = p.SplitRoot
	}
	if g.Chance(split) {
		early = append(early, Alone(Call("split-sections")))
	}
	if g.Chance(p.Single) {
		early = append(early, Alone(Call("single-page")))
	}
	if g.Chance(p.Omit) {
		early = append(early, Alone(Call("omit-children-from-table-of-contents")))
	}
	if len(p.Styles) > 0 && g.Chance(p.Styled) {
		early = append(early, Alone(Call("styled", T(Pick(g.R, p.Styles...)))))
	}
	var title []Block
	if !g.Chance(p.Untitled) {
		title = append(title, Alone(g.title(depth)))
	}
	body := g.body(depth, dir)
	if len(body) == 0 && len(title) == 0 && len(early) == 0 {
		body = append(body, Alone(Text("empty")))
	}
	if g.Chance(p.TitleAny) {
		// anything goes
		all := append(append([]Block{}, early...), body...)
		at := g.Intn(len(all) + 1)
		d = append(d, all[:at]...)
		d = append(d, title...)
		d = append(d, all[at:]...)
		return d
	}
	d = append(d, title...)
	if g.Chance(25) {
		// the flags come last
		d = append(d, body...)
		return append(d, early...)
	}
	d = append(d, early...)
	return append(d, body...)
}

func (g *G) title(depth int) Inline {
	var in []Inline
	bare := false
	g.n++
	if g.Chance(g.P.RichTitles) {
		in = g.Inlines(Ctx{Title: true, Depth: 1, Flow: true})
		bare = hasRef(in)
		in = append(in, Text(fmt.Sprintf(" %d", g.n)))
	} else {
		in = []Inline{Text(fmt.Sprintf("%s %d", g.Words(), g.n))}
	}
	args := []Arg{Line(in...)}
	if depth == 0 && !bare && g.Chance(max(40, g.P.Index)) {
		return Call("title", append(args, T("index"))...)
	}
	if bare || g.P.Hook != nil || g.Chance(50) {
		args = append(args, T(g.DefTag(false)))
		for g.Chance(g.P.ExtraTags) {
			args = append(args, T(g.DefTag(true)))
		}
	}
	return Call("title", args...)
}

// hasRef tells whether there are references without a display.
func hasRef(in []Inline) bool {
	for _, x := range in {
		if i, ok := x.(Interp); ok {
			x = i.In
		}
		v, ok := x.(*Inv)
		if !ok {
			continue
		}
		if v.Fn == "reference" || v.Fn == "target" {
			return true
		}
		for _, a := range v.Args {
			if hasRef(a.Line) {
				return true
			}
		}
	}
	return false
}

func (g *G) body(depth int, dir string) []Block {
	p := g.P
	n := g.Intn(p.MaxBlocks + 1)
	if depth == 0 && n == 0 {
		n = 1 + g.Intn(p.MaxBlocks)
	}
	var out []Block
	for i := 0; i < n; i++ {
		sec, inc := p.Section, p.Include
		if depth >= p.MaxDepth || g.secs >= p.MaxSecs {
			sec, inc = 0, 0
		}
		plug := p.PlugBlk
		if len(p.Blk) == 0 {
			plug = 0
		}
		c := Ctx{}
		var b Block
		switch g.Weighted(p.Para, p.List, p.Table, p.Defs, p.CodeBlock, p.PreBlock, p.Quote, sec, inc, p.TOC, p.Partial, plug) {
		case 0:
			b = g.para(c)
		case 1:
			b = Alone(g.listCall(c))
		case 2:
			b = Alone(g.table(c))
		case 3:
			b = Alone(g.defs(c))
		case 4:
			b = Alone(Call("code", Arg{Kind: AVerb, Lines: g.preLines(c, true)}))
		case 5:
			b = Alone(Call(Pick(g.R, "code", "inset", "aside", "bold"), Arg{Kind: APre, Lines: g.preLines(c, false)}))
		case 6:
			b = Alone(Call(Pick(g.R, "inset", "aside"), Arg{Kind: ABlocks, Blocks: g.Blocks(Ctx{Depth: 1}, 3)}))
		case 7:
			b = Alone(Call("section", Arg{Kind: ABlocks, Blocks: g.section(depth+1, dir)}))
		case 8:
			g.n++
			rel := Pick(g.R, "", "", "sub/", "d/e/") + fmt.Sprintf("inc%d.lit", g.n)
			g.file(path.Join(dir, rel), depth+1, nil)
			b = Alone(Call("include-section", T(rel)))
		case 9:
			b = Alone(Call("table-of-contents"))
		case 10:
			b = Alone(Call("set-partial", T(Pick(g.R, "Alpha", "Beta", "Gamma", "Delta", "Eps")), Line(g.Inlines(c)...)))
		case 11:
			b = Alone(Pick(g.R, p.Blk...)(g))
		}
		out = append(out, b)
	}
	return out
}

func (g *G) table(c Ctx) Inline {
	c.Depth++
	n := g.Intn(4)
	var rows []Arg
	for i := 0; i < n; i++ {
		rows = append(rows, Line(Call("table-row", g.items(c, 3)...)))
	}
	return Call("table", rows...)
}

func (g *G) defs(c Ctx) Inline {
	c.Depth++
	n := g.Intn(4)
	var rows []Arg
	for i := 0; i < n; i++ {
		rows = append(rows, Line(Call("definition", g.item(c), g.item(c))))
	}
	return Call("definitions", rows...)
}
