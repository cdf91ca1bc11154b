package props

import (
	"bytes"
	"errors"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"golang.org/x/net/html"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var snippetStart = regexp.MustCompile(`^ *[0-9]+\| `)

// spot is a location which an error report should show.
type spot struct {
	file string
	line int
	text string // the line, without its linebreak
	from int    // in characters, -1 for the linebreak before it
	n    int
}

// spotAt finds the line of a location in a source.
func spotAt(file, src string, pos ref.Pos, n int) spot {
	lines := strings.Split(src, "\n")
	s := spot{file: file, line: pos.Line, from: pos.Col - 1, n: n}
	if pos.Line <= len(lines) {
		s.text = lines[pos.Line-1]
		// the reported line comes without its linebreak
		s.text = strings.TrimSuffix(s.text, "\r")
	}
	return s
}

// mark is the marked part, as far as it is within the line.
func (s spot) mark() string {
	rs := []rune(s.text)
	from, to := s.from, s.from+s.n
	if from < 0 {
		from = 0
		to = s.n
	}
	if from > len(rs) {
		from = len(rs)
	}
	if to > len(rs) {
		to = len(rs)
	}
	if to < from {
		to = from
	}
	return string(rs[from:to])
}

// inText checks a plain text report for the snippets, in order.
func inText(report string, spots []spot) error {
	lines := strings.Split(ansi.ReplaceAllString(report, ""), "\n")
	for _, s := range spots {
		head := fmt.Sprintf("%d| ", s.line)
		found := false
		for len(lines) > 1 && !found {
			// ambiguous locations are indented
			l := strings.TrimLeft(lines[0], " ")
			ind := len(lines[0]) - len(l)
			if strings.HasPrefix(l, head) && snippetStart.MatchString(lines[0]) {
				if got := l[len(head):]; got != s.text {
					return fmt.Errorf("line %d of %s is %q, shown as %q", s.line, s.file, s.text, got)
				}
				want := strings.Repeat(" ", ind+len(head)+s.from) + strings.Repeat("^", s.n)
				if lines[1] != want {
					return fmt.Errorf("line %d of %s: expected the marker %q below %q, got %q", s.line, s.file, want, lines[0], lines[1])
				}
				found = true
			}
			lines = lines[1:]
		}
		if !found {
			return fmt.Errorf("line %d of %s is not shown in %q", s.line, s.file, report)
		}
	}
	for _, l := range lines {
		if snippetStart.MatchString(l) {
			return fmt.Errorf("unexpected snippet: %q", l)
		}
	}
	return nil
}

var errorTags = map[string]bool{
	"html": true, "head": true, "meta": true, "title": true, "style": true, "body": true, "div": true, "h1": true,
	"pre": true, "span": true, "p": true, "code": true, "ul": true, "li": true,
}
var errorAttrs = map[string]bool{"class": true, "http-equiv": true, "content": true, "name": true, "type": true}

// asHTML is text as it reads back from a page.
func asHTML(s string) string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
	return strings.ReplaceAll(string([]rune(s)), "\x00", "\ufffd")
}

// inPage checks an HTML report for the snippets, and gives the text of the rest.
func inPage(page string, spots []spot) (string, error) {
	var rest strings.Builder
	z := html.NewTokenizer(strings.NewReader(page))
	var stack []string
	within := func(class string) bool {
		for _, c := range stack {
			if c == class {
				return true
			}
		}
		return false
	}
	type shown struct{ path, no, line, mark, eof string }
	var got []shown
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		t := z.Token()
		switch tt {
		case html.StartTagToken, html.SelfClosingTagToken:
			if !errorTags[t.Data] {
				return "", fmt.Errorf("unexpected element <%s>", t.Data)
			}
			class := ""
			for _, a := range t.Attr {
				if !errorAttrs[a.Key] {
					return "", fmt.Errorf("unexpected attribute %s of <%s>", a.Key, t.Data)
				}
				if a.Key == "class" {
					class = a.Val
				}
			}
			if class == "file-snippet" {
				got = append(got, shown{})
			}
			if t.Data != "meta" {
				stack = append(stack, class)
			}
		case html.EndTagToken:
			if len(stack) == 0 {
				return "", fmt.Errorf("unexpected </%s>", t.Data)
			}
			stack = stack[:len(stack)-1]
		case html.CommentToken:
			return "", fmt.Errorf("unexpected comment")
		case html.TextToken:
			if !within("file-snippet") {
				rest.WriteString(t.Data)
				continue
			}
			g := &got[len(got)-1]
			switch {
			case within("file-path"):
				g.path += t.Data
			case within("lineno"):
				g.no += t.Data
			case within("eof"):
				g.eof += t.Data
			case within("line"):
				g.line += t.Data
				if within("annotated") {
					g.mark += t.Data
				}
			}
		}
	}
	if len(stack) != 0 {
		return "", fmt.Errorf("unclosed elements: %q", stack)
	}
	if len(got) != len(spots) {
		return "", fmt.Errorf("%d snippets, expected %d", len(got), len(spots))
	}
	for i, s := range spots {
		g := got[i]
		if g.path != asHTML(s.file)+":" || strings.TrimSpace(g.no) != strconv.Itoa(s.line) {
			return "", fmt.Errorf("snippet of %q line %q, expected %q line %d", g.path, g.no, s.file, s.line)
		}
		if s.text == "" {
			if g.eof == "" {
				return "", fmt.Errorf("line %d of %s is empty, shown as %q", s.line, s.file, g.line)
			}
			continue
		}
		if w := asHTML(s.text); g.line != w || g.eof != "" {
			return "", fmt.Errorf("line %d of %s is %q, shown as %q", s.line, s.file, w, g.line)
		}
		if w := asHTML(s.mark()); g.mark != w {
			return "", fmt.Errorf("line %d of %s: expected %q to be marked, got %q", s.line, s.file, w, g.mark)
		}
	}
	return rest.String(), nil
}

// reports checks what is told about an error.
func reports(e *ref.Err, goErr error, files map[string]string) (err error) {
	w := httptest.NewRecorder()
	booklit.ErrorResponse(w, goErr)
	page := w.Body.String()
	var pe booklit.PrettyError
	if !errors.As(goErr, &pe) {
		rest, err := inPage(page, nil)
		if err != nil {
			return fmt.Errorf("error page: %w\n%s", err, page)
		}
		if !strings.Contains(rest, asHTML(goErr.Error())) {
			return fmt.Errorf("the error page does not tell the error %q", goErr)
		}
		return nil
	}
	var spots []spot
	missing := false
	add := func(file string, pos ref.Pos, n int) {
		src, ok := files[file]
		if !ok {
			missing = true
			return
		}
		spots = append(spots, spotAt(file, src, pos, n))
	}
	add(e.File, e.Pos, e.Len)
	for _, a := range e.Also {
		n := 0
		if e.Kind == "title-twice" {
			n = len(`\title`)
		}
		if a.Pos.Line > 0 {
			add(a.File, a.Pos, n)
		}
	}
	if missing {
		return nil // of a plugin's own making
	}
	var out bytes.Buffer
	pe.PrettyPrint(&out)
	text := ansi.ReplaceAllString(out.String(), "")
	if head := fmt.Sprintf("%s:%d: ", e.File, e.Pos.Line); !strings.HasPrefix(text, head) {
		return fmt.Errorf("the report does not begin with %q: %q", head, text)
	}
	if err := inText(out.String(), spots); err != nil {
		return err
	}
	rest, err := inPage(page, spots)
	if err != nil {
		return fmt.Errorf("error page: %w", err)
	}
	tell := func(what, s string) error {
		if !strings.Contains(text, s) {
			return fmt.Errorf("the report does not tell the %s %q: %q", what, s, text)
		}
		if !strings.Contains(rest, asHTML(s)) {
			return fmt.Errorf("the error page does not tell the %s %q: %q", what, s, rest)
		}
		return nil
	}
	for x := e; x != nil; x = x.Inner {
		if x.Kind != "parse" {
			continue
		}
		src, ok := files[x.File]
		if !ok {
			continue
		}
		// as the parser has it
		_, perr := ast.Parse(x.File, []byte(src))
		if perr, ok := ast.UnpackError(perr); ok {
			if err := tell("mistake", perr.Inner.Error()); err != nil {
				return err
			}
		}
	}
	if e.Fn != "" {
		if err := tell("function", `\`+e.Fn); err != nil {
			return err
		}
	}
	if e.Kind == "unknown-tag" || e.Kind == "ambiguous" {
		if err := tell("tag", e.Tag); err != nil {
			return err
		}
	}
	if e.Inner != nil && e.Inner.Exact {
		if err := tell("cause", e.Inner.Msg); err != nil {
			return err
		}
	}
	if e.Kind == "unknown-tag" {
		list := ""
		for _, s := range e.Sim {
			list += "- " + s + "\n"
		}
		if !strings.Contains(text, list) || strings.Count("\n"+text, "\n- ") != strings.Count("\n"+list, "\n- ") {
			return fmt.Errorf("expected the suggestions %q, got %q", list, text)
		}
		if n := strings.Count(page, "<li>"); n != len(e.Sim) {
			return fmt.Errorf("%d suggestions on the error page, expected %q", n, e.Sim)
		}
		for _, s := range e.Sim {
			if err := tell("suggestion", s); err != nil {
				return err
			}
		}
	}
	return nil
}

// Spot is a location in a file.
type Spot struct {
	Lines []core.Raw // with linebreaks
	Line  int
	Col   int
	Len   int
}

func init() {
	core.Register("C18", "reports", core.Opts{
		Rule:  "documents over several files with a mistake: broken syntax, calls of unknown functions or with wrong arguments, failing plugins, second titles, unknown and ambiguous tags, in lines of any text; the error must be located as in the reference model, and both reports must show that line, with the right part marked, and tell what is wrong; non-trivial when it fails with a location",
		Quick: 6000, Thorough: 200000,
	}, gen.Of(func(r gen.R) SiteCase {
		p := gen.Base()
		p.MaxSecs, p.MaxBlocks, p.Ref, p.Target = 6, 4, 8, 6
		p.Special, p.Unicode = 30, 30
		p.Plugin, p.UsePlug, p.PlugInl = "vt", 100, 6
		fail := func(g *gen.G) gen.Inline {
			return gen.Call("v-err", gen.Line(gen.Text(gen.Pick(g.R, "oops", "<b>oh</b> no", "it's & broken", "日本 %s %d", "x"))))
		}
		p.Inl = append(p.Inl, func(g *gen.G) gen.Inline { return gen.Call("v-str", gen.T("s")) })
		switch r.Intn(6) {
		case 0:
			p.Syntax = 50
		case 1:
			p.Err = 5
		case 2:
			p.Unknown, p.Exotic, p.Ref = 60, 30, 20
		case 3:
			p.Dup, p.Exotic, p.Ref, p.Target = 50, 30, 20, 12
		case 4:
			p.Inl = append(p.Inl, fail)
			p.PlugInl = 12
		case 5:
			p.Err, p.Unknown, p.Dup, p.Syntax = 2, 10, 10, 10
			p.Inl = append(p.Inl, fail)
		}
		g, in := gen.Site(r, p)
		c := SiteCase{Files: g.Files, In: in}
		if r.Chance(25) {
			// a long or high document
			pad := gen.Pick(r, strings.Repeat("word ", 1000)+"\n\n", strings.Repeat("\n", 1200), strings.Repeat("é", 3000)+"\n\n", "{- "+strings.Repeat("\n x", 10000)+"-}\n")
			n := gen.Pick(r, impl.Keys(c.Files)...)
			c.Files[n] = pad + c.Files[n]
		}
		if r.Chance(6) {
			// many similar tags
			for i := r.Range(5, 40); i > 0; i-- {
				c.Files[in] += fmt.Sprintf("\n\n\\section{\n\\title{Many}{many-%d}\n}\n", i)
			}
			c.Files[in] += "\n\n" + gen.Pick(r, "\\reference{many-x}", "\\reference{many-}", "\\reference{manny-1}", "\\reference{any-9}") + "\n"
		}
		return c
	}), func(ctx *core.Ctx, c SiteCase) error {
		in, site, err := c.Open(ctx)
		if err != nil {
			return err
		}
		sec, goErr := impl.Load(in)
		root, rerr := site.Load(in)
		page, loaded := "", rerr == nil
		if rerr == nil && goErr == nil {
			for _, s := range root.Pages() {
				if _, rerr = (&ref.HTML{}).Page(s); rerr != nil {
					page = s.Primary.Name
					break
				}
			}
			var all func(s *booklit.Section) error
			all = func(s *booklit.Section) error {
				if s.Parent == nil || s.Parent.SplitSections {
					if _, err := pageOf(s); err != nil {
						return err
					}
				}
				for _, k := range s.Children {
					if err := all(k); err != nil {
						return err
					}
				}
				return nil
			}
			goErr = all(sec)
		}
		if err := impl.SameErr(rerr, goErr); err != nil {
			return err
		}
		if rerr == nil {
			return nil
		}
		ctx.Class("%s", rerr.Kind)
		ctx.NonTrivial(rerr.Kind != "plain")
		if rerr.Kind == "unknown-tag" {
			want := map[string]bool{}
			for _, t := range root.AllTags() {
				want[t.Name] = true
			}
			rerr.Sim = impl.Err(goErr).Sim
			for _, s := range rerr.Sim {
				if !want[s] {
					return fmt.Errorf("the suggested tag %q does not exist", s)
				}
			}
			for n := range want {
				if similar(rerr.Tag, n) != strings.Contains("\n"+strings.Join(rerr.Sim, "\n")+"\n", "\n"+n+"\n") {
					return fmt.Errorf("unknown tag %q, similar tag %q, but suggested are %q", rerr.Tag, n, rerr.Sim)
				}
			}
		}
		if err := reports(rerr, goErr, site.Files); err != nil {
			return err
		}
		// the server shows the same page
		if !loaded {
			page = "index"
		} else if s, ok := find(root, page); !ok || s != page {
			return nil
		}
		w := httptest.NewRecorder()
		booklit.ErrorResponse(w, goErr)
		code, body, _ := impl.Get(impl.NewServer(in, ctx.Dir(), ""), "/"+page+".html")
		if code != 500 {
			return fmt.Errorf("status %d for %s.html, whose page fails", code, page)
		}
		return impl.Same("error pages", w.Body.String(), body)
	})

	core.Register("C18", "snippets", core.Opts{
		Rule:  "files with lines of any length, text, bytes and linebreaks, and any location in them: both snippets must show the line of the location with the right part marked; all are non-trivial",
		Quick: 8000, Thorough: 300000,
	}, gen.Of(func(r gen.R) Spot {
		var c Spot
		n := r.Range(1, 6)
		if r.Chance(5) {
			n = r.Range(900, 1200)
		}
		for i := 0; i < n; i++ {
			l := ""
			for k := r.Intn(6); k > 0 && n < 10; k-- {
				l += gen.Pick(r, "word", " ", "\\call{x}", "é", "日本語", "🎉", "<b>", "&amp;", "\"", "\t", "\xff", "\x00", "'", "\r", "{{.}}", "%d%s", "</pre></div>", "\xe6\x97")
			}
			if n < 10 && r.Chance(8) {
				l += strings.Repeat(gen.Pick(r, "x", "é", "long "), r.Range(1000, 70000))
			}
			c.Lines = append(c.Lines, core.Raw(l+gen.Pick(r, "\n", "\n", "\r\n")))
		}
		if r.Chance(50) {
			c.Lines[n-1] = core.Raw(strings.TrimRight(string(c.Lines[n-1]), "\r\n"))
			c.Line = n
		}
		if c.Line == 0 || r.Chance(60) {
			c.Line = r.Range(1, n)
		}
		max := len([]rune(strings.TrimRight(string(c.Lines[c.Line-1]), "\r\n")))
		c.Col = r.Range(0, max+1)
		if r.Chance(30) {
			c.Col = max + r.Intn(3) - 1
			if c.Col < 0 {
				c.Col = 0
			}
		}
		c.Len = gen.Pick(r, 0, 1, 1, 2, r.Intn(20), r.Intn(200))
		return c
	}), func(ctx *core.Ctx, c Spot) error {
		src := ""
		for _, l := range c.Lines {
			src += string(l)
		}
		file := filepath.Join(ctx.Dir(), "some <file>.lit")
		if err := os.WriteFile(file, []byte(src), 0o644); err != nil {
			core.Fatal("%s", err)
		}
		ctx.NonTrivial(true)
		s := spotAt(file, src, ref.Pos{Line: c.Line, Col: c.Col}, c.Len)
		loc := booklit.ErrorLocation{FilePath: file, NodeLocation: ast.Location{Line: c.Line, Col: c.Col}, Length: c.Len}
		var b bytes.Buffer
		loc.AnnotateLocation(&b)
		if err := inText(b.String(), []spot{s}); err != nil {
			return err
		}
		if want, got := fmt.Sprintf("%s:%d: some error", file, c.Line), loc.Annotate("some %s", "error"); want != got {
			return fmt.Errorf("expected %q, got %q", want, got)
		}
		var h bytes.Buffer
		if err := loc.AnnotatedHTML(&h); err != nil {
			return err
		}
		_, err := inPage(h.String(), []spot{s})
		return err
	})
}

// Made is an error of a plugin's own making.
type Made struct {
	Kind  string
	Name  string // of the function or tag
	Msg   string
	Spot  MadeSpot
	Also  []MadeSpot
	Sim   []string
	Inner *Made
}

// MadeSpot is a location, with File -1 for a missing file and Line 0 for an
// unknown place.
type MadeSpot struct{ File, Line, Col, Len int }

// MadeCase is an error about some files.
type MadeCase struct {
	Files []string
	Err   *Made
}

var madeNames = []string{"some-tag", "a b", "<b>tag</b>", "it's", "日本", "%d", "x"}

func madeGen(r gen.R) MadeCase {
	var c MadeCase
	for i := r.Range(1, 3); i > 0; i-- {
		var ls []string
		for k := r.Range(1, 12); k > 0; k-- {
			ls = append(ls, gen.Pick(r, "some text", "\\call{x}", "é日本 \\title{x}", "<b>&amp;", "\tindented", "x", "  y  ", "'quoted' \"text\""))
		}
		c.Files = append(c.Files, strings.Join(ls, "\n")+"\n")
	}
	at := func() MadeSpot {
		s := MadeSpot{File: r.Intn(len(c.Files))}
		if r.Chance(15) {
			return s
		}
		ls := strings.Split(strings.TrimSuffix(c.Files[s.File], "\n"), "\n")
		s.Line = r.Range(1, len(ls))
		n := len([]rune(ls[s.Line-1]))
		s.Col = r.Range(1, n)
		s.Len = r.Range(1, n-s.Col+1)
		if r.Chance(5) {
			s.File = -1
		}
		return s
	}
	var make func(d int) *Made
	make = func(d int) *Made {
		m := &Made{Spot: at(), Name: gen.Pick(r, madeNames...), Msg: gen.Pick(r, "oh no", "<i>oh</i> no", "it's broken", "日本 %s %d", "two\nlines", "x: y: z")}
		m.Kind = gen.Pick(r, "function", "function", "function", "parse", "unknown", "ambiguous", "undefined", "twice", "plain", "wrapped")
		if d == 0 && (m.Kind == "plain" || m.Kind == "wrapped") {
			m.Kind = "function"
		}
		switch m.Kind {
		case "function":
			m.Name = gen.Pick(r, "fun", "some-fun", "x")
			if d < 4 {
				m.Inner = make(d + 1)
			} else {
				m.Inner = &Made{Kind: "plain", Msg: m.Msg}
			}
		case "undefined":
			m.Name = gen.Pick(r, "fun", "some-fun", "x")
		case "twice":
			m.Also = []MadeSpot{at()}
		case "ambiguous":
			for i := r.Range(2, 5); i > 0; i-- {
				m.Also = append(m.Also, at())
			}
		case "unknown":
			for i := r.Intn(4); i > 0; i-- {
				m.Sim = append(m.Sim, gen.Pick(r, madeNames...))
			}
		}
		return m
	}
	c.Err = make(0)
	return c
}

// check checks the reports of the error.
func (c MadeCase) check(ctx *core.Ctx) error {
	var paths []string
	for i, s := range c.Files {
		paths = append(paths, filepath.Join(ctx.Dir(), fmt.Sprintf("file <%d>.lit", i)))
		if err := os.WriteFile(paths[i], []byte(s), 0o644); err != nil {
			core.Fatal("%s", err)
		}
	}
	gone := filepath.Join(ctx.Dir(), "gone.lit")
	var spots []spot
	var tell []string
	var heads []string // of the text, in order
	missing, unknown := 0, 0
	loc := func(m MadeSpot) booklit.ErrorLocation {
		l := booklit.ErrorLocation{FilePath: gone, NodeLocation: ast.Location{Line: m.Line, Col: m.Col}, Length: m.Len}
		if m.File >= 0 {
			l.FilePath = paths[m.File]
		}
		switch {
		case m.Line == 0:
			unknown++
		case m.File < 0:
			missing++
		default:
			spots = append(spots, spotAt(l.FilePath, c.Files[m.File], ref.Pos{Line: m.Line, Col: m.Col}, m.Len))
		}
		return l
	}
	depth := 0
	var build func(m *Made) error
	build = func(m *Made) error {
		if m.Kind == "plain" {
			tell = append(tell, m.Msg)
			return errors.New(m.Msg)
		}
		if m.Kind == "wrapped" {
			// told as text
			tell = append(tell, "wrapped: "+m.Msg)
			return fmt.Errorf("wrapped: %w", errors.New(m.Msg))
		}
		l := loc(m.Spot)
		head := strings.Repeat("  ", depth) + l.FilePath
		if m.Spot.Line > 0 {
			head += fmt.Sprintf(":%d", m.Spot.Line)
		}
		heads = append(heads, head+": ")
		switch m.Kind {
		case "function":
			tell = append(tell, `\`+m.Name)
			depth++
			return booklit.FailedFunctionError{Function: m.Name, Err: build(m.Inner), ErrorLocation: l}
		case "undefined":
			tell = append(tell, `\`+m.Name)
			return booklit.UndefinedFunctionError{Function: m.Name, ErrorLocation: l}
		case "parse":
			tell = append(tell, m.Msg)
			return booklit.ParseError{Err: errors.New(m.Msg), ErrorLocation: l}
		case "twice":
			return booklit.TitleTwiceError{TitleLocation: loc(m.Also[0]), ErrorLocation: l}
		case "ambiguous":
			tell = append(tell, m.Name)
			e := booklit.AmbiguousReferenceError{TagName: m.Name, ErrorLocation: l}
			for _, a := range m.Also {
				e.DefinedLocations = append(e.DefinedLocations, loc(a))
			}
			return e
		default:
			tell = append(tell, m.Name)
			e := booklit.UnknownTagError{TagName: m.Name, ErrorLocation: l}
			for _, s := range m.Sim {
				tell = append(tell, s)
				e.SimilarTags = append(e.SimilarTags, booklit.Tag{Name: s})
			}
			return e
		}
	}
	made := build(c.Err)
	ctx.Class("depth %d", depth)
	ctx.Class("unknown places: %t", unknown > 0)
	ctx.NonTrivial(true)
	pe, ok := made.(booklit.PrettyError)
	if !ok {
		return fmt.Errorf("%T is not a PrettyError", made)
	}
	var b bytes.Buffer
	pe.PrettyPrint(&b)
	text := ansi.ReplaceAllString(b.String(), "")
	if err := inText(b.String(), spots); err != nil {
		return fmt.Errorf("%w\n%s", err, text)
	}
	shown := 0
	ls := strings.Split(text, "\n")
	for _, l := range ls {
		if snippetStart.MatchString(l) {
			shown++
		}
	}
	if shown != len(spots) {
		return fmt.Errorf("%d snippets, expected %d:\n%s", shown, len(spots), text)
	}
	for _, h := range heads {
		for len(ls) > 0 && !strings.HasPrefix(ls[0], h) {
			ls = ls[1:]
		}
		if len(ls) == 0 {
			return fmt.Errorf("the report has no line %q (in order):\n%s", h, text)
		}
		ls = ls[1:]
	}
	// lines of nested errors are indented
	flat := regexp.MustCompile(`\n +`).ReplaceAllString(text, "\n")
	for _, t := range tell {
		if !strings.Contains(flat, t) {
			return fmt.Errorf("the report does not tell %q:\n%s", t, text)
		}
	}
	if n := strings.Count(text, gone); n < missing {
		return fmt.Errorf("the report does not tell what is wrong with the missing file:\n%s", text)
	}
	w := httptest.NewRecorder()
	booklit.ErrorResponse(w, made)
	page := w.Body.String()
	if missing > 0 {
		ctx.Class("missing files")
		if !strings.Contains(page, "gone.lit") {
			return fmt.Errorf("the error page does not tell about the missing file:\n%s", page)
		}
		return nil
	}
	rest, err := inPage(page, spots)
	if err != nil {
		return fmt.Errorf("error page: %w\n%s", err, page)
	}
	for _, t := range tell {
		if !strings.Contains(rest, asHTML(t)) {
			return fmt.Errorf("the error page does not tell %q:\n%s", t, page)
		}
	}
	if n := strings.Count(page, "<h1"); n != 1 {
		return fmt.Errorf("%d error pages in one:\n%s", n, page)
	}
	return nil
}

func init() {
	core.Register("C18", "made", core.Opts{
		Rule:  "errors as plugins make them: every kind of error, nested in failing functions up to five deep, about places in several files, unknown places, and missing files; both reports must show just the known places, in order and well marked, begin each error with its place, and tell what is wrong; all are non-trivial",
		Quick: 4000, Thorough: 150000,
	}, gen.Of(madeGen), func(ctx *core.Ctx, c MadeCase) error {
		return c.check(ctx)
	})
}

// find gives the primary tag of the section which a tag leads to.
func find(root *ref.Section, tag string) (string, bool) {
	ts := root.FindTag(tag)
	if len(ts) != 1 {
		return "", false // another one may be served
	}
	return ts[0].Section.Primary.Name, true
}
