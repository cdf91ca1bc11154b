package gen

import (
	"strings"
)

// Inline is part of a line: a Text, an *Inv or an Interp.
type Inline interface{}

// Text is literal text, without linebreaks.
type Text string

// Interp is {x}.
type Interp struct{ In Inline }

// Inv is a function call.
type Inv struct {
	Fn   string
	Args []Arg
}

// Kinds of arguments.
const (
	ALine   = iota // {inline content}
	ABlocks        // {\n paragraphs \n}
	APre           // {{\n lines \n}}
	AVerb          // {{{\n lines \n}}}
	AVerbIn        // {{{text}}}
	AEmpty         // {}
)

// Arg is an argument of a call.
type Arg struct {
	Kind   int
	Line   []Inline
	Blocks []Block
	Lines  []BLine // for APre and AVerb
	Text   string  // for AVerbIn
}

// BLine is a line of a preformatted or verbatim block.
type BLine struct {
	Indent string
	Words  []Inline // for APre
	Text   string   // for AVerb
}

// Block is a paragraph: lines of inline content.
type Block struct{ Lines [][]Inline }

// Doc is a document, or the content of an ABlocks argument.
type Doc []Block

// Line makes an ALine argument.
func Line(in ...Inline) Arg {
	if len(in) == 0 {
		return Arg{Kind: AEmpty}
	}
	return Arg{Kind: ALine, Line: in}
}

// T makes a text argument.
func T(s string) Arg {
	if s == "" {
		return Arg{Kind: AEmpty}
	}
	return Line(Text(s))
}

// Call makes a call.
func Call(fn string, args ...Arg) *Inv { return &Inv{fn, args} }

// Alone is a paragraph with one item.
func Alone(in ...Inline) Block { return Block{Lines: [][]Inline{in}} }

// Escape escapes literal text.
func Escape(s string) string {
	return strings.NewReplacer(`\`, `\\`, `{`, `\{`, `}`, `\}`).Replace(s)
}

// Printer prints documents. Its layout choices do not change the meaning.
type Printer struct {
	// Vary makes the choices; if nil, the plainest layout is used.
	Vary *R
	// CRLF is the chance of \r\n linebreaks.
	CRLF int
	// Comments is the chance of a comment, where one could be.
	Comments int
	// Rewrap is the chance of joining and splitting lines.
	Rewrap int

	b strings.Builder
}

func (p *Printer) chance(pct int) bool { return p.Vary != nil && p.Vary.Chance(pct) }

func (p *Printer) w(s string) { p.b.WriteString(s) }

func (p *Printer) nl() {
	if p.chance(p.CRLF) {
		p.w("\r\n")
		return
	}
	p.w("\n")
}

func (p *Printer) nls(min int) {
	n := min
	for i := 0; i < 2 && p.chance(15); i++ {
		n++
	}
	for i := 0; i < n; i++ {
		p.nl()
	}
}

func (p *Printer) indent(ind string) string {
	if p.chance(25) {
		return ind + Pick(*p.Vary, " ", "  ", "\t", "      ", " \t")
	}
	return ind
}

func (p *Printer) comment(depth int) string {
	s := "{-"
	n := p.Vary.Intn(3)
	for i := 0; i < n; i++ {
		switch {
		case depth < 2 && p.chance(20):
			s += p.comment(depth + 1)
		default:
			s += Pick(*p.Vary, " c ", "x", "\\bold{y}", "}", "{", " \\ ", "\n", "\r\n", "-", "é", "{{{", "}}", "\\section{", "- ", " -")
		}
	}
	// the text must not run into a delimiter
	s = strings.ReplaceAll(s, "--}", "- -}")
	if strings.HasSuffix(s, "-") && !strings.HasSuffix(s, "{-") {
		s += " "
	}
	if strings.HasSuffix(s, "{") {
		s += " "
	}
	return s + "-}"
}

// balanced tells whether a comment has balanced delimiters.
func balanced(s string) bool {
	d := 0
	for i := 0; i+1 < len(s); i++ {
		switch s[i : i+2] {
		case "{-":
			d++
			i++
		case "-}":
			d--
			i++
			if d < 0 || d == 0 && i != len(s)-1 {
				return false
			}
		}
	}
	return d == 0
}

func (p *Printer) aComment() string {
	c := p.comment(0)
	if !balanced(c) {
		return "{- c -}"
	}
	return c
}

// Print prints the document.
func (p *Printer) Print(d Doc) string {
	p.b.Reset()
	if p.chance(10) {
		p.nls(1)
	}
	p.doc(d, "")
	s := p.b.String()
	switch {
	case p.chance(20):
		// no trailing linebreak
		s = strings.TrimRight(s, "\r\n")
	case p.chance(10):
		s += "\n\n"
	}
	return s
}

func (p *Printer) doc(d Doc, ind string) {
	for i, blk := range d {
		if i > 0 {
			p.nls(1)
		}
		if p.chance(p.Comments / 2) {
			p.w(p.aComment())
			p.nls(1)
		}
		p.block(blk, ind)
	}
}

func (p *Printer) block(b Block, ind string) {
	lines := b.Lines
	for i, l := range lines {
		p.w(p.indent(ind))
		if len(trimLead(l)) == 0 {
			p.w("{}")
		}
		p.inline(trimLead(l), ind, true, false)
		if i < len(lines)-1 && p.chance(p.Rewrap) && joinable(l, lines[i+1]) {
			p.w(" ")
			l2 := trimLead(lines[i+1])
			p.inline(l2, ind, false, false)
			if i+1 == len(lines)-1 {
				p.nl()
				return
			}
			// continue after the joined line
			rest := Block{Lines: lines[i+2:]}
			p.nl()
			p.block(rest, ind)
			return
		}
		p.nl()
	}
}

// joinable tells whether two lines mean the same, rendered, on one line.
func joinable(a, b []Inline) bool {
	flow := func(l []Inline) bool {
		if len(l) == 0 {
			return false
		}
		for _, x := range l {
			switch v := x.(type) {
			case Text:
			case Interp:
				if _, ok := v.In.(Text); !ok {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if !flow(a) || !flow(b) {
		return false
	}
	t, ok := a[len(a)-1].(Text)
	return ok && !strings.HasSuffix(string(t), " ")
}

// trimLead removes blanks which would be taken as indentation.
func trimLead(l []Inline) []Inline {
	for len(l) > 0 {
		t, ok := l[0].(Text)
		if !ok {
			return l
		}
		s := strings.TrimLeft(string(t), " \t")
		if s != "" {
			return append([]Inline{Text(s)}, l[1:]...)
		}
		l = l[1:]
	}
	return l
}

// inline prints inline content. If wrap is set, single spaces may become
// linebreaks.
func (p *Printer) inline(l []Inline, ind string, start, wrap bool) {
	afterInv := false
	for i, x := range l {
		switch v := x.(type) {
		case Text:
			if v == "" {
				continue
			}
			if out := p.b.String(); !afterInv && swallows(out) {
				// a comment would take the preceding blanks with it
			} else if p.chance(p.Comments) {
				if afterInv {
					p.w(" ")
				}
				if !(afterInv && start) {
					p.w(p.aComment())
				}
			} else if afterInv && (v[0] == '-' || v[0] >= 'a' && v[0] <= 'z') && noArgs(l[i-1]) {
				p.w(" {- -}")
			}
			p.text(string(v), ind, wrap)
			afterInv = false
			if p.chance(p.Comments / 2) {
				p.w("{}")
			}
		case Interp:
			if afterInv {
				// it would be an argument
				p.w(" ")
			}
			p.w("{")
			if v.In != nil {
				c := p.Comments
				p.Comments = 0
				p.inline([]Inline{v.In}, ind, true, false)
				p.Comments = c
			}
			p.w("}")
			afterInv = false
		case *Inv:
			if afterInv && p.chance(p.Comments) {
				p.w(" " + p.aComment())
			}
			p.w(`\` + v.Fn)
			for _, a := range v.Args {
				p.arg(a, ind)
			}
			afterInv = true
		}
		start = false
	}
	if afterInv && p.chance(p.Comments) {
		p.w(" " + p.aComment())
	}
}

// swallows tells whether the output ends with blanks which are not part of a
// longer text.
func swallows(out string) bool {
	t := strings.TrimRight(out, " \t")
	return len(t) < len(out) && (t == "" || strings.IndexByte("}{\\", t[len(t)-1]) >= 0)
}

func noArgs(x Inline) bool {
	v, ok := x.(*Inv)
	return ok && len(v.Args) == 0
}

func (p *Printer) text(s, ind string, wrap bool) {
	if !wrap || p.Vary == nil {
		p.w(Escape(s))
		return
	}
	words := strings.Split(s, " ")
	for i, w := range words {
		if i > 0 {
			prev, next := words[i-1], w
			if prev != "" && next != "" && strings.Trim(prev, "\t") != "" && !strings.HasPrefix(next, "\t") && p.chance(p.Rewrap) {
				p.nl()
				p.w(p.indent(ind))
			} else {
				p.w(" ")
			}
		}
		p.w(Escape(w))
	}
}

func (p *Printer) arg(a Arg, ind string) {
	switch a.Kind {
	case AEmpty:
		p.w("{}")
	case ALine:
		p.w("{")
		p.inline(a.Line, ind, true, true)
		p.w("}")
	case ABlocks:
		p.w("{")
		p.nls(1)
		p.doc(a.Blocks, ind+"  ")
		if p.chance(20) {
			p.nls(1)
		}
		p.w(p.indent(ind))
		p.w("}")
	case APre, AVerb:
		o, c := "{{", "}}"
		if a.Kind == AVerb {
			o, c = "{{{", "}}}"
		}
		p.w(o)
		p.nl()
		base := ""
		if len(a.Lines) > 0 {
			base = p.indent(ind)
		}
		for _, l := range a.Lines {
			p.w(base + l.Indent)
			if a.Kind == APre {
				p.inline(trimLead(l.Words), ind, false, false)
			} else {
				p.w(l.Text)
			}
			p.nl()
		}
		p.w(p.indent(ind))
		p.w(c)
	case AVerbIn:
		p.w("{{{" + a.Text + "}}}")
	}
}
