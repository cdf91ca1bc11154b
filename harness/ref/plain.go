package ref

import "strings"

// Plain renders pages as text.
type Plain struct {
	Ext  string
	Tmpl map[string]Template
}

// Escape is nothing.
func (p *Plain) Escape(s string) string { return s }

// Address is the URL of a tag.
func (p *Plain) Address(t Tag) string { return URL(p.Ext, t) }

// Template renders with a template.
func (p *Plain) Template(name string, data interface{}) (string, *Err) {
	if t, ok := p.Tmpl[name]; ok {
		return t.Eval(p, data)
	}
	var out string
	all := func(cs []Content, sep string) *Err {
		for i, c := range cs {
			s, err := p.Render(c)
			if err != nil {
				return err
			}
			if i > 0 {
				out += sep
			}
			out += s
		}
		return nil
	}
	switch name {
	case "string":
		return string(data.(Text)), nil
	case "sequence":
		return out, ifOK(all(data.(Sequence), ""), &out)
	case "paragraph":
		err := all(data.(Paragraph), " ")
		out += "\n\n"
		return out, ifOK(err, &out)
	case "preformatted":
		return out, ifOK(all(data.(Preformatted), "\n"), &out)
	case "inset":
		s, err := p.Render(data.(Styled).Content)
		return "    " + strings.ReplaceAll(s, "\n", "\n    "), err
	case "page":
		s, err := p.Render(data)
		return Summary(data.(*Section).Title) + "\n\n" + s, err
	case "section":
		s := data.(*Section)
		if s.Parent != nil {
			out = s.Number() + " "
		}
		for i, c := range []Content{s.Title, s.Body} {
			x, err := p.Render(c)
			if err != nil {
				return "", err
			}
			if i > 0 {
				out += "\n\n"
			}
			out += x
		}
		out += "\n\n"
		if !s.Split {
			out += "\n"
			for _, c := range s.Children {
				x, err := p.Render(c)
				if err != nil {
					return "", err
				}
				out += "\n" + x + "\n"
			}
			out += "\n"
		}
		return out, nil
	case "toc":
		s := data.(*Section)
		if s.OmitTOC || len(s.Children) == 0 {
			return "", nil
		}
		out = "\n"
		for _, c := range s.Children {
			t, err := p.Render(StripAux(c.Title))
			if err != nil {
				return "", err
			}
			sub, err := p.Render(TOC{c})
			if err != nil {
				return "", err
			}
			out += "\n" + c.Number() + " " + t + "\n\n" + sub + "\n"
		}
		out += "\n"
		return out, nil
	}
	return "", plain("template '%s.tmpl' not found", name)
}

func ifOK(err *Err, out *string) *Err {
	if err != nil {
		*out = ""
	}
	return err
}

// Page renders the section's page.
func (p *Plain) Page(s *Section) (string, *Err) {
	if _, ok := p.Tmpl[s.Style+"-page"]; ok && s.Style != "" {
		return p.Template(s.Style+"-page", s)
	}
	return p.Template("page", s)
}

// Render renders content.
func (p *Plain) Render(c Content) (string, *Err) {
	switch v := c.(type) {
	case *Section:
		if v.Style != "" {
			return p.Template(v.Style, v)
		}
		return p.Template("section", v)
	case Aux:
		return p.Render(v.Content)
	case *Lazy:
		if v.Err != "" {
			return "", plain("lazy render: %s", v.Err)
		}
		return p.Render(v.Content)
	case Styled:
		return p.Template(v.Style, v)
	case TOC:
		return p.Template("toc", v.Section)
	}
	return p.Template(kind(c), c)
}
