// Package ref is an independent reference model of Booklit: a parser, an
// evaluator, a section model, and an HTML/plain-text renderer, all written
// from the documentation and working from document source text. It shares no
// code with github.com/vito/booklit.
package ref

import (
	"strings"
	"unicode/utf8"
)

// Node is a syntax tree node.
type Node interface{}

// Str is literal text.
type Str string

// Invoke is a function call.
type Invoke struct {
	Fn   string
	Args []Node
	Pos  Pos
}

// Seq is adjacent nodes.
type Seq []Node

// Para is a paragraph of lines.
type Para []Seq

// Pre is a preformatted or verbatim block of lines.
type Pre []Seq

// Pos is a location in a document.
type Pos struct {
	Line, Col, Off int
}

type parser struct {
	src     string
	lineAt  []int // line number per byte offset
	colAt   []int
	maxFail int
}

// ParseResult is the outcome of parsing a document.
type ParseResult struct {
	Node Node
	OK   bool
	// for a failure: where
	Fail Pos
}

// Parse parses a document.
func Parse(src string) ParseResult {
	p := &parser{src: src}
	p.index()

	if i := invalidUTF8(src); i >= 0 {
		return ParseResult{Fail: p.pos(i)}
	}

	node, end, ok := p.paragraphs(0)
	if ok {
		if end != len(src) {
			p.fail(end)
			ok = false
		}
	}
	if !ok {
		return ParseResult{Fail: p.pos(p.maxFail)}
	}
	return ParseResult{Node: node, OK: true}
}

func invalidUTF8(s string) int {
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			return i
		}
		i += n
	}
	return -1
}

func (p *parser) index() {
	p.lineAt = make([]int, len(p.src)+1)
	p.colAt = make([]int, len(p.src)+1)
	line, col := 1, 0
	i := 0
	for i <= len(p.src) {
		var r rune
		n := 1
		if i < len(p.src) {
			r, n = utf8.DecodeRuneInString(p.src[i:])
		}
		col++
		if i < len(p.src) && r == '\n' {
			line++
			col = 0
		}
		for j := i; j < i+n && j <= len(p.src); j++ {
			p.lineAt[j] = line
			p.colAt[j] = col
		}
		i += n
	}
}

func (p *parser) pos(i int) Pos {
	return Pos{Line: p.lineAt[i], Col: p.colAt[i], Off: i}
}

func (p *parser) fail(i int) {
	if i > p.maxFail {
		p.maxFail = i
	}
}

func (p *parser) lit(i int, s string) (int, bool) {
	if strings.HasPrefix(p.src[i:], s) {
		return i + len(s), true
	}
	p.fail(i)
	return i, false
}

// notLit is a negative lookahead.
func (p *parser) notLit(i int, s string) bool {
	if strings.HasPrefix(p.src[i:], s) {
		p.fail(i)
		return false
	}
	return true
}

func (p *parser) blanks(i int) int {
	for i < len(p.src) && (p.src[i] == ' ' || p.src[i] == '\t') {
		i++
	}
	p.fail(i)
	return i
}

func (p *parser) lineBreak(i int) (int, bool) {
	if j, ok := p.lit(i, "\n"); ok {
		return j, true
	}
	return p.lit(i, "\r\n")
}

func (p *parser) comment(i int) (int, bool) {
	j := p.blanks(i)
	j, ok := p.lit(j, "{-")
	if !ok {
		return i, false
	}
	for {
		if k, ok := p.comment(j); ok {
			j = k
			continue
		}
		if !p.notLit(j, "-}") {
			break
		}
		if j >= len(p.src) {
			p.fail(j)
			break
		}
		_, n := utf8.DecodeRuneInString(p.src[j:])
		j += n
	}
	j, ok = p.lit(j, "-}")
	if !ok {
		return i, false
	}
	return j, true
}

func (p *parser) optComment(i int) int {
	if j, ok := p.comment(i); ok {
		return j
	}
	return i
}

func (p *parser) commentSpacing(i int) (int, bool) {
	if j, ok := p.lineBreak(i); ok {
		return j, true
	}
	return p.comment(i)
}

func (p *parser) spacings(i int) int {
	for {
		j, ok := p.commentSpacing(i)
		if !ok {
			return i
		}
		i = j
	}
}

func (p *parser) paragraphs(i int) (Node, int, bool) {
	j := p.spacings(i)
	var out Seq
	for {
		para, k, ok := p.paragraph(j)
		if !ok {
			break
		}
		out = append(out, para)
		j = p.spacings(k)
	}
	if len(out) == 0 {
		return nil, i, false
	}
	return out, j, true
}

func (p *parser) paragraph(i int) (Node, int, bool) {
	var out Para
	j := i
	for {
		line, k, ok := p.line(j)
		if !ok {
			break
		}
		out = append(out, line)
		j = k
		if k, ok := p.lineBreak(j); ok {
			j = k
		}
	}
	if len(out) == 0 {
		return nil, i, false
	}
	return out, j, true
}

func (p *parser) line(i int) (Seq, int, bool) {
	j := p.blanks(i)
	words, j := p.words(j)
	if len(words) == 0 {
		return nil, i, false
	}
	return words, j, true
}

func (p *parser) words(i int) (Seq, int) {
	var out Seq
	for {
		w, j, ok := p.word(i)
		if !ok {
			return out, i
		}
		out = append(out, w)
		i = j
	}
}

func (p *parser) word(i int) (Node, int, bool) {
	j := p.optComment(i)
	n, j, ok := p.wordVal(j)
	if !ok {
		return nil, i, false
	}
	return n, p.optComment(j), true
}

func (p *parser) wordVal(i int) (Node, int, bool) {
	if n, j, ok := p.str(i); ok {
		return n, j, true
	}
	if n, j, ok := p.invoke(i); ok {
		return n, j, true
	}
	return p.interpolated(i)
}

func (p *parser) interpolated(i int) (Node, int, bool) {
	j, ok := p.lit(i, "{")
	if !ok {
		return nil, i, false
	}
	var n Node = Seq{}
	if w, k, ok := p.word(j); ok {
		n, j = w, k
	}
	j, ok = p.lit(j, "}")
	if !ok {
		return nil, i, false
	}
	return n, j, true
}

func (p *parser) str(i int) (Node, int, bool) {
	j := i
	for j < len(p.src) && !strings.ContainsRune("\\{}\r\n", rune(p.src[j])) {
		j++
	}
	p.fail(j)
	if j > i {
		return Str(p.src[i:j]), j, true
	}
	if i+1 <= len(p.src) && i < len(p.src) && p.src[i] == '\\' {
		if i+1 < len(p.src) && strings.ContainsRune("\\{}", rune(p.src[i+1])) {
			return Str(p.src[i+1 : i+2]), i + 2, true
		}
		p.fail(i + 1)
	}
	return nil, i, false
}

func (p *parser) verbatimStr(i int) (Node, int, bool) {
	j := i
	for j < len(p.src) && !strings.ContainsRune("\r\n}", rune(p.src[j])) {
		j++
	}
	p.fail(j)
	if j > i {
		return Str(p.src[i:j]), j, true
	}
	if j, ok := p.lit(i, "}"); ok && p.notLit(j, "}}") {
		return Str("}"), j, true
	}
	return nil, i, false
}

func (p *parser) verbatimStrs(i int) (Seq, int) {
	var out Seq
	for {
		s, j, ok := p.verbatimStr(i)
		if !ok {
			return out, i
		}
		out = append(out, s)
		i = j
	}
}

func (p *parser) invoke(i int) (Node, int, bool) {
	j, ok := p.lit(i, "\\")
	if !ok {
		return nil, i, false
	}
	k := j
	for k < len(p.src) && (p.src[k] >= 'a' && p.src[k] <= 'z' || p.src[k] == '-') {
		k++
	}
	p.fail(k)
	if k == j {
		return nil, i, false
	}
	inv := Invoke{Fn: p.src[j:k], Pos: p.pos(i)}
	for {
		arg, n, ok := p.argument(k)
		if !ok {
			break
		}
		inv.Args = append(inv.Args, arg)
		k = n
	}
	return inv, k, true
}

func (p *parser) argument(i int) (Node, int, bool) {
	if j, ok := p.lit(i, "{{{"); ok {
		var n Node
		n, j, ok := p.block(j, p.verbatimStrs)
		if !ok {
			n, j = p.verbatimStrs(j)
		}
		if j, ok := p.lit(j, "}}}"); ok {
			return n, j, true
		}
	}
	if j, ok := p.lit(i, "{{"); ok {
		if n, j, ok := p.block(j, p.words); ok {
			if j, ok := p.lit(j, "}}"); ok {
				return n, j, true
			}
		}
	}
	return p.arg(i)
}

func (p *parser) block(i int, content func(int) (Seq, int)) (Node, int, bool) {
	j, ok := p.lineBreak(i)
	if !ok {
		return nil, i, false
	}
	out := Pre{}
	first := -1
	for {
		k := p.blanks(j)
		indent := p.src[j:k]
		words, k := content(k)
		k, ok := p.lineBreak(k)
		if !ok {
			break
		}
		if first < 0 {
			first = len(indent)
		}
		rest := ""
		if len(indent) >= first {
			rest = indent[first:]
		}
		out = append(out, append(Seq{Str(rest)}, words...))
		j = k
	}
	return out, p.blanks(j), true
}

func (p *parser) arg(i int) (Node, int, bool) {
	j, ok := p.lit(i, "{")
	if !ok {
		return nil, i, false
	}
	var n Node
	if w, k, ok := p.wrappedLine(j); ok {
		n, j = w, k
	} else if w, k, ok := p.paragraphs(j); ok {
		n, j = w, p.blanks(k)
	} else {
		j = p.spacings(j)
	}
	j, ok = p.lit(j, "}")
	if !ok {
		return nil, i, false
	}
	if n == nil {
		n = Str("")
	}
	return n, j, true
}

func (p *parser) wrappedLine(i int) (Node, int, bool) {
	w, j, ok := p.word(i)
	if !ok {
		return nil, i, false
	}
	out := Seq{w}
	for {
		if w, k, ok := p.word(j); ok {
			out = append(out, w)
			j = k
			continue
		}
		if k, ok := p.lineBreak(j); ok {
			j = p.blanks(k)
			out = append(out, Str(" "))
			continue
		}
		return out, j, true
	}
}
