package ref

import (
	"errors"
	"fmt"
	"sort"
	"strings"
)

// Item is a part of a template.
type Item struct {
	Op   string
	Text string `json:",omitempty"`
	Kids []Item `json:",omitempty"`
}

// Template is a template which has a model.
type Template []Item

// Renderer is what templates are given.
type Renderer interface {
	Render(Content) (string, *Err)
	Escape(string) string
	Address(Tag) string
}

// ErrVague is the error for content of which it is not defined whether it
// counts as empty.
var ErrVague = &Err{Kind: "vague"}

type op struct {
	kinds string
	src   string
	do    func(r Renderer, data interface{}) (string, *Err)
	// where it can be used: h for HTML only
	html bool
}

func secOp(f func(r Renderer, s *Section) (string, *Err)) func(Renderer, interface{}) (string, *Err) {
	return func(r Renderer, d interface{}) (string, *Err) { return f(r, d.(*Section)) }
}

func secText(f func(s *Section) string) func(Renderer, interface{}) (string, *Err) {
	return func(r Renderer, d interface{}) (string, *Err) { return r.Escape(f(d.(*Section))), nil }
}

func eachOf(pre, sep, stop string) func(Renderer, interface{}) (string, *Err) {
	return func(r Renderer, d interface{}) (string, *Err) {
		var cs []Content
		switch v := d.(type) {
		case Paragraph:
			cs = v
		case Preformatted:
			cs = v
		case List:
			cs = v.Items
		}
		out := ""
		for i, c := range cs {
			s, err := r.Render(c)
			if err != nil {
				return "", err
			}
			if i > 0 {
				out += sep
			}
			out += pre + s + stop
		}
		return out, nil
	}
}

// with is {{with}}.
func with(c Content, r Renderer, otherwise string) (string, *Err) {
	if c == nil {
		return otherwise, nil
	}
	switch c.(type) {
	case Text, Sequence, Paragraph, Preformatted, Definitions:
		if Dump(c) == "[]" || Dump(c) == "(para)" || Dump(c) == "(pre)" || Dump(c) == "(defs)" {
			return "", ErrVague
		}
	}
	s, err := r.Render(c)
	return "[" + s + "]", err
}

func (s *Section) next() *Section {
	if s.Split && len(s.Children) > 0 {
		return s.Children[0]
	}
	for x := s; x.Parent != nil; x = x.Parent {
		for i, c := range x.Parent.Children {
			if c == x && i+1 < len(x.Parent.Children) {
				return x.Parent.Children[i+1]
			}
		}
	}
	return nil
}

func (s *Section) prev() *Section {
	if s.Parent == nil {
		return nil
	}
	for i, c := range s.Parent.Children {
		if c == s && i > 0 {
			return s.Parent.Children[i-1]
		}
	}
	return s.Parent
}

func hasAnchors(s *Section) bool {
	for _, t := range s.Tags {
		if t.Anchor != "" {
			return true
		}
	}
	for _, c := range s.Children {
		if !s.Split && hasAnchors(c) {
			return true
		}
	}
	return false
}

func contains(s, sub *Section) bool {
	for ; sub != nil; sub = sub.Parent {
		if sub == s {
			return true
		}
	}
	return false
}

// walk is what Nav renders.
func walk(cur, s *Section) string {
	out := "["
	if cur == s {
		out += "*"
	}
	if contains(s, cur) {
		out += "+"
	}
	if s == cur || cur.Parent == s {
		out += "!"
	}
	out += s.Primary.Name
	for _, c := range s.Children {
		out += walk(cur, c)
	}
	return out + "]"
}

// Nav is the template nav.tmpl, which some operations need.
const Nav = `[{{if eq .Current .Section}}*{{end}}{{if .Section.Contains .Current}}+{{end}}{{if .Section.IsOrHasChild .Current}}!{{end}}{{.Section.PrimaryTag.Name}}{{range .Section.Children}}{{template "nav.tmpl" (walkContext $.Current .)}}{{end}}]`

var ops = map[string]op{}

func init() {
	link := func(r Renderer, t Tag, html bool, text string) string {
		return `<a href="` + r.Escape(r.Address(t)) + `">` + text + "</a>"
	}
	ops = map[string]op{
		// sections
		"title": {"S", "{{.Title | render}}", secOp(func(r Renderer, s *Section) (string, *Err) { return r.Render(s.Title) }), false},
		"title, stripped": {"S", "{{.Title | stripAux | render}}", secOp(func(r Renderer, s *Section) (string, *Err) {
			return r.Render(StripAux(s.Title))
		}), false},
		"title, summarized": {"S", "{{.Title.String}}", secText(func(s *Section) string { return Summary(s.Title) }), false},
		"body":              {"B", "{{.Body | render}}", secOp(func(r Renderer, s *Section) (string, *Err) { return r.Render(s.Body) }), false},
		"number":            {"S", "{{.Number}}", secText((*Section).Number), false},
		"tag":               {"S", "{{.PrimaryTag.Name}}", secText(func(s *Section) string { return s.Primary.Name }), false},
		"address, as text":  {"S", "{{.PrimaryTag | url}}", secOp(func(r Renderer, s *Section) (string, *Err) { return r.Escape(r.Address(s.Primary)), nil }), false},
		"address":           {"S", `<a href="{{.PrimaryTag | url}}">here</a>`, secOp(func(r Renderer, s *Section) (string, *Err) { return link(r, s.Primary, true, "here"), nil }), true},
		"address in HTML": {"ST", `{{.PrimaryTag | htmlURL}}`, secOp(func(r Renderer, s *Section) (string, *Err) {
			return URL("html", s.Primary), nil
		}), false},
		"children": {"B", "{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}}", secOp(func(r Renderer, s *Section) (string, *Err) {
			out := ""
			if s.Split {
				return "", nil
			}
			for _, c := range s.Children {
				x, err := r.Render(c)
				if err != nil {
					return "", err
				}
				out += x
			}
			return out, nil
		}), false},
		"depths": {"S", "{{.Depth}}/{{.PageDepth}}", secText(func(s *Section) string { return fmt.Sprintf("%d/%d", s.Depth(), s.PageDepth()) }), false},
		"header depth": {"S", "{{headerDepth .}}", secText(func(s *Section) string {
			if d := s.PageDepth() + 1; d < 6 {
				return fmt.Sprint(d)
			}
			return "6"
		}), true},
		"partial": {"S", `{{with .Partial "Alpha"}}[{{. | render}}]{{else}}none{{end}}`, secOp(func(r Renderer, s *Section) (string, *Err) {
			return with(s.Partials["Alpha"], r, "none")
		}), false},
		"next": {"S", `{{with .Next}}{{.PrimaryTag.Name}}>{{end}}`, secOp(func(r Renderer, s *Section) (string, *Err) {
			if n := s.next(); n != nil {
				return r.Escape(n.Primary.Name) + ">", nil
			}
			return "", nil
		}), false},
		"previous": {"S", `{{with .Prev}}{{.PrimaryTag | url}}{{else}}first{{end}}`, secOp(func(r Renderer, s *Section) (string, *Err) {
			if n := s.prev(); n != nil {
				return r.Escape(r.Address(n.Primary)), nil
			}
			return "first", nil
		}), false},
		"next sibling": {"S", `{{with .NextSibling}}{{.Number}}{{else}}last{{end}}`, secText(func(s *Section) string {
			for ; s.Parent != nil; s = s.Parent {
				cs := s.Parent.Children
				for i, c := range cs {
					if c == s && i+1 < len(cs) {
						return cs[i+1].Number()
					}
				}
			}
			return "last"
		}), false},
		"tags": {"S", "{{range .Tags}}{{.Name}}{{with .Anchor}}#{{.}}{{end}},{{end}}{{if .HasAnchors}}@{{end}}", secText(func(s *Section) string {
			out := ""
			for _, t := range s.Tags {
				out += t.Name
				if t.Anchor != "" {
					out += "#" + t.Anchor
				}
				out += ","
			}
			if hasAnchors(s) {
				out += "@"
			}
			return out
		}), false},
		"style of section": {"S", "{{.Style}}{{if .SplitSections}}/{{end}}{{if .PreventSplitSections}}1{{end}}", secText(func(s *Section) string {
			out := s.Style
			if s.Split {
				out += "/"
			}
			if s.Prevent {
				out += "1"
			}
			return out
		}), false},
		"top":     {"S", "{{.Top.Title | render}}", secOp(func(r Renderer, s *Section) (string, *Err) { return r.Render(s.Top().Title) }), false},
		"parent":  {"S", "{{if .Parent}}in {{.Parent.PrimaryTag.Name}}{{end}}", secText(func(s *Section) string { return parentName(s) }), false},
		"omitted": {"S", "{{if .OmitChildrenFromTableOfContents}}omit{{end}}", secText(func(s *Section) string { return map[bool]string{true: "omit"}[s.OmitTOC] }), false},
		"toc":     {"S", `{{template "toc.tmpl" .}}`, secOp(func(r Renderer, s *Section) (string, *Err) { return r.Render(TOC{s}) }), false},
		"anchors": {"S", `{{range .AnchorTags}}{{.Anchor}}={{.Title | render}};{{end}}`, secOp(func(r Renderer, s *Section) (string, *Err) {
			out := ""
			for _, t := range s.Tags {
				if t.Anchor != "" {
					x, err := r.Render(t.Title)
					if err != nil {
						return "", err
					}
					out += r.Escape(t.Anchor) + "=" + x + ";"
				}
			}
			return out, nil
		}), false},
		"tree": {"S", `{{template "nav.tmpl" (walkContext . .Top)}}`, secText(func(s *Section) string { return walk(s, s.Top()) }), true},
		"itself": {"P", "{{. | render}}", secOp(func(r Renderer, s *Section) (string, *Err) {
			return r.Render(s)
		}), false},
		// tables of contents
		"toc entries": {"C", `{{if not .OmitChildrenFromTableOfContents}}{{range .Children}}({{.Number}} {{.Title | stripAux | render}} {{.PrimaryTag | url}}{{template "toc.tmpl" .}}){{end}}{{end}}`, secOp(func(r Renderer, s *Section) (string, *Err) {
			out := ""
			for _, c := range s.Children {
				if s.OmitTOC {
					break
				}
				x, err := r.Render(StripAux(c.Title))
				if err != nil {
					return "", err
				}
				y, err := r.Render(TOC{c})
				if err != nil {
					return "", err
				}
				out += "(" + c.Number() + " " + x + " " + r.Escape(r.Address(c.Primary)) + y + ")"
			}
			return out, nil
		}), false},
		// styled content
		"content": {"YL", "{{.Content | render}}", func(r Renderer, d interface{}) (string, *Err) {
			switch v := d.(type) {
			case Styled:
				return r.Render(v.Content)
			case Link:
				return r.Render(v.Content)
			}
			panic("content")
		}, false},
		"content, stripped": {"Y", "{{.Content | stripAux | render}}", func(r Renderer, d interface{}) (string, *Err) {
			return r.Render(StripAux(d.(Styled).Content))
		}, false},
		"content, summarized": {"Y", "{{.Content.String}}", func(r Renderer, d interface{}) (string, *Err) {
			return r.Escape(Summary(d.(Styled).Content)), nil
		}, false},
		"flow": {"Y", "{{if .IsFlow}}F{{else}}B{{end}}{{if .Content.IsFlow}}f{{else}}b{{end}}", func(r Renderer, d interface{}) (string, *Err) {
			return map[bool]string{true: "F", false: "B"}[IsFlow(d.(Styled))] + map[bool]string{true: "f", false: "b"}[IsFlow(d.(Styled).Content)], nil
		}, false},
		"partial X": {"Y", `{{with .Partial "X"}}[{{. | render}}]{{else}}none{{end}}`, func(r Renderer, d interface{}) (string, *Err) {
			return with(d.(Styled).Partials["X"], r, "none")
		}, false},
		"partial Z": {"Y", `{{with .Partial "Z"}}[{{. | render}}]{{else}}none{{end}}`, func(r Renderer, d interface{}) (string, *Err) {
			return with(d.(Styled).Partials["Z"], r, "none")
		}, false},
		"language": {"", `{{.Partial "Language" | render}}`, func(r Renderer, d interface{}) (string, *Err) {
			return r.Render(d.(Styled).Partials["Language"])
		}, false},
		"style": {"Y", "{{.Style}}", func(r Renderer, d interface{}) (string, *Err) { return r.Escape(d.(Styled).Style), nil }, false},
		"raw":   {"Y", "{{.Content | rawHTML}}", func(r Renderer, d interface{}) (string, *Err) { return Summary(d.(Styled).Content), nil }, true},
		"raw link": {"Y", `<a href="{{.Content | rawURL}}">raw</a>`, func(r Renderer, d interface{}) (string, *Err) {
			return `<a href="` + r.Escape(Summary(d.(Styled).Content)) + `">raw</a>`, nil
		}, true},
		// lines
		"lines": {"Q", `{{range $i, $l := .}}{{if $i}}; {{end}}{{$l | render}}{{end}}`, eachOf("", "; ", ""), false},
		"line":  {"Q", `{{range .}}{{. | render}},{{end}}`, eachOf("", "", ","), false},
		"count": {"Q", `{{len .}}`, func(r Renderer, d interface{}) (string, *Err) {
			return fmt.Sprint(strings.Count(dumpLines(d), "\n")), nil
		}, false},
		"indent": {"q", "{{range .}}  {{. | render | joinLines \"  \"}}\n{{end}}", func(r Renderer, d interface{}) (string, *Err) { return indented(r, d) }, false},
		// other content
		"target": {"L", "{{.Target}}", func(r Renderer, d interface{}) (string, *Err) { return r.Escape(d.(Link).Target), nil }, false},
		"goto": {"L", `<a href="{{.Target}}">go</a>`, func(r Renderer, d interface{}) (string, *Err) {
			return `<a href="` + r.Escape(SafeURL(d.(Link).Target)) + `">go</a>`, nil
		}, true},
		"path": {"I", "{{.Path}}: {{.Description}}", func(r Renderer, d interface{}) (string, *Err) {
			v := d.(Image)
			return r.Escape(v.Path + ": " + v.Description), nil
		}, false},
		"items": {"l", "{{range .Items}}- {{. | render}}\n{{end}}", eachOf("- ", "", "\n"), false},
		"ordered": {"l", "{{if .Ordered}}1{{else}}*{{end}}", func(r Renderer, d interface{}) (string, *Err) {
			return map[bool]string{true: "1", false: "*"}[d.(List).Ordered], nil
		}, false},
		"rows": {"t", "{{range .Rows}}/{{range .}}{{. | render}}|{{end}}{{end}}", func(r Renderer, d interface{}) (string, *Err) {
			out := ""
			for _, row := range d.(Table).Rows {
				out += "/"
				for _, c := range row {
					s, err := r.Render(c)
					if err != nil {
						return "", err
					}
					out += s + "|"
				}
			}
			return out, nil
		}, false},
		"definitions": {"d", "{{range .}}{{.Subject | render}}: {{.Definition | render}};{{end}}", func(r Renderer, d interface{}) (string, *Err) {
			out := ""
			for _, x := range d.(Definitions) {
				s, err := r.Render(x.Subject)
				if err != nil {
					return "", err
				}
				t, err := r.Render(x.Definition)
				if err != nil {
					return "", err
				}
				out += s + ": " + t + ";"
			}
			return out, nil
		}, false},
		"anchor": {"g", "#{{.TagName}} {{.Title | render}}", func(r Renderer, d interface{}) (string, *Err) {
			v := d.(Target)
			s, err := r.Render(v.Title)
			return "#" + r.Escape(v.TagName) + " " + s, err
		}, false},
		"reference": {"r", "{{if .Tag}}({{.Tag | url}} {{.Display | stripAux | render}}){{else}}-{{.Content | stripAux | render}}-{{end}}", func(r Renderer, d interface{}) (string, *Err) {
			v := d.(*Reference)
			tag, err := v.Resolve()
			if err != nil {
				return "", err
			}
			if tag == nil {
				s, err := r.Render(StripAux(v.Content))
				return "-" + s + "-", err
			}
			c := v.Content
			if c == nil {
				c = tag.Title
			}
			s, err := r.Render(StripAux(c))
			return "(" + r.Escape(r.Address(*tag)) + " " + s + ")", err
		}, false},
		"reference to": {"r", "{{.TagName}}{{if .Optional}}?{{end}}", func(r Renderer, d interface{}) (string, *Err) {
			v := d.(*Reference)
			return r.Escape(v.TagName + map[bool]string{true: "?"}[v.Optional]), nil
		}, false},
	}
}

func parentName(s *Section) string {
	if s.Parent == nil {
		return ""
	}
	return "in " + s.Parent.Primary.Name
}

func dumpLines(d interface{}) string {
	switch v := d.(type) {
	case Paragraph:
		return strings.Repeat("\n", len(v))
	case Preformatted:
		return strings.Repeat("\n", len(v))
	}
	return ""
}

func indented(r Renderer, d interface{}) (string, *Err) {
	var cs []Content
	switch v := d.(type) {
	case Paragraph:
		cs = v
	case Preformatted:
		cs = v
	}
	out := ""
	for _, c := range cs {
		s, err := r.Render(c)
		if err != nil {
			return "", err
		}
		out += "  " + strings.ReplaceAll(s, "\n", "\n  ") + "\n"
	}
	return out, nil
}

// Ops are the names of what templates for a kind of data can do: S sections (B
// their content, P as pages, C as tables of contents), Y styled content, Q paragraphs and preformatted, L links, I
// images, l lists, t tables, d definitions, g targets and r references.
func Ops(kinds string, html bool) []string {
	var out []string
	for n, o := range ops {
		if strings.ContainsAny(o.kinds, kinds) && (html || !o.html) && !(html && strings.ContainsAny(o.kinds, "Tq")) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// Source is the text of the template.
func (t Template) Source() string {
	out := ""
	for _, i := range t {
		switch i.Op {
		case "lit":
			out += i.Text
		case "in":
			out += "<" + i.Text + ">" + Template(i.Kids).Source() + "</" + i.Text + ">"
		default:
			out += ops[i.Op].src
		}
	}
	return out
}

// Eval evaluates the template.
func (t Template) Eval(r Renderer, data interface{}) (string, *Err) {
	out := ""
	for _, i := range t {
		var s string
		var err *Err
		switch i.Op {
		case "lit":
			s = i.Text
		case "in":
			s, err = Template(i.Kids).Eval(r, data)
			s = "<" + i.Text + ">" + s + "</" + i.Text + ">"
		default:
			o, ok := ops[i.Op]
			if !ok {
				panic(errors.New("unknown operation " + i.Op))
			}
			s, err = o.do(r, data)
		}
		if err != nil {
			return "", err
		}
		out += s
	}
	return out, nil
}

// kind names the template of content which is not styled.
func kind(c Content) string {
	switch c.(type) {
	case Text:
		return "string"
	case Sequence:
		return "sequence"
	case Paragraph:
		return "paragraph"
	case Preformatted:
		return "preformatted"
	case Link:
		return "link"
	case *Reference:
		return "reference"
	case Target:
		return "target"
	case Image:
		return "image"
	case TOC:
		return "toc"
	case List:
		return "list"
	case Table:
		return "table"
	case Definitions:
		return "definitions"
	}
	return ""
}
