package ref

import (
	"fmt"
	"strings"
)

// Content is evaluated content.
type Content interface{}

type (
	// Text is plain text.
	Text string
	// Sequence is concatenated content.
	Sequence []Content
	// Paragraph is lines joined by a space.
	Paragraph []Content
	// Preformatted is lines joined by a linebreak.
	Preformatted []Content
	// Link is an external link.
	Link struct {
		Content Content
		Target  string
	}
	// Reference is a link to a tag.
	Reference struct {
		Section  *Section
		TagName  string
		Content  Content
		Optional bool
		Pos      Pos

		tag *Tag
	}
	// TOC is a table of contents.
	TOC struct{ Section *Section }
	// Styled is content with a template.
	Styled struct {
		Style    string
		Block    bool
		Content  Content
		Partials map[string]Content
	}
	// Target is an anchor.
	Target struct {
		TagName string
		Title   Content
		Content Content
		Pos     Pos
	}
	// Image is an image.
	Image struct{ Path, Description string }
	// List is a list.
	List struct {
		Items   []Content
		Ordered bool
	}
	// Table is a table.
	Table struct{ Rows [][]Content }
	// Definitions is a definition list.
	Definitions []Definition
	// Definition is a subject and its definition.
	Definition struct{ Subject, Definition Content }
	// Aux is auxiliary content.
	Aux struct{ Content Content }
	// Lazy is deferred content.
	Lazy struct {
		Block   bool
		Content Content
		Err     string
		ID      int
		Forced  bool
		// Of is the lazy content this was stripped from.
		Of *Lazy
	}
)

// Append joins content.
func Append(first Content, rest ...Content) Content {
	var all Sequence
	n := 0
	var only Content
	for _, c := range append([]Content{first}, rest...) {
		if c == nil {
			continue
		}
		n++
		only = c
		if s, ok := c.(Sequence); ok && len(all) == 0 && n == 1 {
			all = append(all, s...)
		} else {
			all = append(all, c)
		}
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return only
	}
	return all
}

// IsFlow tells whether content is flow (fits in a sentence) or block content.
func IsFlow(c Content) bool {
	switch v := c.(type) {
	case Text, *Reference, Target, Image:
		return true
	case Sequence:
		for _, x := range v {
			if !IsFlow(x) {
				return false
			}
		}
		return true
	case Link:
		return IsFlow(v.Content)
	case Aux:
		return IsFlow(v.Content)
	case Styled:
		return !v.Block && IsFlow(v.Content)
	case *Lazy:
		return !v.Block
	}
	return false
}

// Summary is the plain-text summary of content.
func Summary(c Content) string {
	switch v := c.(type) {
	case nil:
		return ""
	case Text:
		return string(v)
	case Sequence:
		s := ""
		for _, x := range v {
			s += Summary(x)
		}
		return s
	case Paragraph:
		s := ""
		for _, x := range v {
			if s != "" {
				s += " "
			}
			s += Summary(x)
		}
		if s != "" {
			s += "\n\n"
		}
		return s
	case Preformatted:
		s := ""
		for _, x := range v {
			s += Summary(x) + "\n"
		}
		return s
	case Link:
		return Summary(v.Content)
	case Aux:
		return Summary(v.Content)
	case Styled:
		return Summary(v.Content)
	case Target, TOC:
		return ""
	case Image:
		return "{image: " + v.Path + "}"
	case List:
		s := ""
		for i, item := range v.Items {
			lines := strings.Split(strings.TrimRight(Summary(item), "\n"), "\n")
			t := ""
			for _, l := range lines {
				switch {
				case t == "":
					t = l
				case l == "":
					t += "\n"
				default:
					t += "\n  " + l
				}
			}
			if v.Ordered {
				s += fmt.Sprintf("%d. %s\n\n", i+1, t)
			} else {
				s += "* " + t + "\n\n"
			}
		}
		return s
	case Table:
		s := ""
		for _, row := range v.Rows {
			s += "|"
			for _, col := range row {
				s += " " + Summary(col) + " |"
			}
			s += "\n"
		}
		return s + "\n"
	case Definitions:
		s := ""
		for _, d := range v {
			s += Summary(d.Subject) + ": " + Summary(d.Definition) + "\n"
		}
		return s + "\n"
	case *Lazy:
		if v.Block {
			return "<lazy block>"
		}
		return "<lazy flow>"
	case *Reference:
		if v.Content != nil {
			return Summary(v.Content)
		}
		tag, err := v.Resolve()
		if err != nil {
			return fmt.Sprintf("{broken reference: %s: %s}", v.TagName, err.Msg)
		}
		if tag == nil {
			return ""
		}
		return Summary(tag.Title)
	}
	panic(fmt.Sprintf("ref: Summary of %T", c))
}

// StripAux removes auxiliary content.
func StripAux(c Content) Content {
	seq := func(in []Content) []Content {
		out := []Content{}
		for _, x := range in {
			if _, aux := x.(Aux); !aux {
				out = append(out, StripAux(x))
			}
		}
		return out
	}
	switch v := c.(type) {
	case Aux:
		return Text("")
	case Sequence:
		return Sequence(seq(v))
	case Paragraph:
		return Paragraph(seq(v))
	case Preformatted:
		return Preformatted(seq(v))
	case Link:
		v.Content = StripAux(v.Content)
		return v
	case Styled:
		v.Content = StripAux(v.Content)
		if v.Partials != nil {
			p := map[string]Content{}
			for k, x := range v.Partials {
				if x != nil {
					p[k] = StripAux(x)
				}
			}
			v.Partials = p
		}
		return v
	case Target:
		v.Title = StripAux(v.Title)
		v.Content = StripAux(v.Content)
		return v
	case List:
		v.Items = seq(v.Items)
		return v
	case Table:
		t := Table{}
		for _, row := range v.Rows {
			t.Rows = append(t.Rows, seq(row))
		}
		return t
	case Definitions:
		d := Definitions{}
		for _, x := range v {
			d = append(d, Definition{StripAux(x.Subject), StripAux(x.Definition)})
		}
		return d
	case *Reference:
		cp := *v
		cp.Content = StripAux(v.Content)
		return &cp
	case *Lazy:
		return &Lazy{Block: v.Block, Content: StripAux(v.Content), Err: v.Err, Of: v}
	}
	return c
}
