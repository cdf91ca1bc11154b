package ref

import (
	"fmt"
	"strings"
)

// HTML renders pages with the bundled templates.
type HTML struct {
	// Tmpl are templates, without .tmpl.
	Tmpl map[string]Template
	Ext  string
	// OnForce is told about lazy content which is rendered.
	OnForce func(*Lazy)
}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&#34;", "'", "&#39;", "\x00", "\uFFFD").Replace(s)
}

// Esc escapes text for HTML.
func Esc(s string) string { return esc(s) }

// Escape escapes text.
func (h *HTML) Escape(s string) string { return esc(s) }

// Address is the URL of a tag.
func (h *HTML) Address(t Tag) string {
	if h.Ext == "" {
		h.Ext = "html"
	}
	return URL(h.Ext, t)
}

// Page renders the section's page.
func (h *HTML) Page(s *Section) (string, *Err) {
	if h.Ext == "" {
		h.Ext = "html"
	}
	if s.Style != "" {
		if t, ok := h.Tmpl[s.Style+"-page"]; ok {
			return t.Eval(h, s)
		}
	}
	if t, ok := h.Tmpl["page"]; ok {
		return t.Eval(h, s)
	}
	body, err := h.Section(s)
	if err != nil {
		return "", err
	}
	return `<!DOCTYPE html><html><head><meta http-equiv="content-type" content="text/html; charset=utf-8" /><title>` +
		esc(Summary(s.Title)) + "</title></head><body>\n" + body + "\n</body></html>", nil
}

// Section renders the section.
func (h *HTML) Section(s *Section) (string, *Err) {
	if s.Style != "" {
		t, ok := h.Tmpl[s.Style]
		if !ok {
			return "", plain("template '%s.tmpl' not found", s.Style)
		}
		return t.Eval(h, s)
	}
	if t, ok := h.Tmpl["section"]; ok {
		return t.Eval(h, s)
	}
	d := s.PageDepth() + 1
	if d > 6 {
		d = 6
	}
	out := fmt.Sprintf(`<h%d class="section-header"><a id="%s"></a>`, d, esc(s.Primary.Name))
	if s.Parent != nil {
		out += `<span class="section-number">` + s.Number() + ` </span>`
	}
	t, err := h.Render(s.Title)
	if err != nil {
		return "", err
	}
	out += t + fmt.Sprintf("</h%d>\n", d)
	b, err := h.Render(s.Body)
	if err != nil {
		return "", err
	}
	out += b + "\n"
	if !s.Split {
		for _, c := range s.Children {
			x, err := h.Section(c)
			if err != nil {
				return "", err
			}
			out += x + "\n"
		}
	}
	return out, nil
}

func (h *HTML) toc(s *Section) (string, *Err) {
	if len(s.Children) == 0 || s.OmitTOC {
		return "", nil
	}
	out := "<nav><ul>"
	for _, c := range s.Children {
		t, err := h.Render(StripAux(c.Title))
		if err != nil {
			return "", err
		}
		if c.Primary.Section == nil {
			return "", plain("no tag")
		}
		sub, err := h.toc(c)
		if err != nil {
			return "", err
		}
		out += fmt.Sprintf(`<li><a href="%s">%s %s</a> %s</li>`, esc(URL(h.Ext, c.Primary)), c.Number(), t, sub)
	}
	return out + "</ul></nav>", nil
}

var styleTags = map[string][2]string{
	"bold":        {"<strong>", "</strong>"},
	"italic":      {"<em>", "</em>"},
	"larger":      {`<span style="font-size: 120%">`, "</span>"},
	"smaller":     {`<span style="font-size: 80%">`, "</span>"},
	"strike":      {`<span style="text-decoration: line-through">`, "</span>"},
	"superscript": {"<sup>", "</sup>"},
	"subscript":   {"<sub>", "</sub>"},
	"aside":       {`<blockquote class="aside">`, "</blockquote>"},
	"inset":       {`<div style="margin: 0 2em 1em" class="inset">`, "</div>"},
}

// Render renders content.
func (h *HTML) Render(c Content) (string, *Err) {
	all := func(cs []Content, pre, sep, post string) (string, *Err) {
		out := ""
		for i, x := range cs {
			r, err := h.Render(x)
			if err != nil {
				return "", err
			}
			if i > 0 {
				out += sep
			}
			out += pre + r + post
		}
		return out, nil
	}
	if t, ok := h.Tmpl[kind(c)]; ok {
		if toc, ok := c.(TOC); ok {
			return t.Eval(h, toc.Section)
		}
		return t.Eval(h, c)
	}
	switch v := c.(type) {
	case *Section:
		return h.Section(v)
	case Text:
		return esc(string(v)), nil
	case Sequence:
		return all(v, "", "", "")
	case Paragraph:
		s, err := all(v, "", " ", "")
		return "<p>" + s + "</p>", err
	case Preformatted:
		return all(v, "", "\n", "")
	case Aux:
		return h.Render(v.Content)
	case *Lazy:
		if h.OnForce != nil {
			of := v
			for of.Of != nil {
				of = of.Of
			}
			h.OnForce(of)
		}
		if v.Err != "" {
			return "", plain("lazy render: %s", v.Err)
		}
		return h.Render(v.Content)
	case Link:
		r, err := h.Render(v.Content)
		return `<a href="` + esc(SafeURL(v.Target)) + `">` + r + "</a>", err
	case *Reference:
		tag, err := v.Resolve()
		if err != nil {
			return "", err
		}
		if tag == nil {
			return h.Render(StripAux(v.Content))
		}
		d := v.Content
		if d == nil {
			d = tag.Title
		}
		r, err := h.Render(StripAux(d))
		return `<a href="` + esc(URL(h.Ext, *tag)) + `">` + r + "</a>", err
	case Target:
		return `<a id="` + esc(v.TagName) + `"></a>`, nil
	case Image:
		return `<img src="` + esc(SafeURL(v.Path)) + `" alt="` + esc(v.Description) + `" />`, nil
	case TOC:
		return h.toc(v.Section)
	case List:
		s, err := all(v.Items, "<li>", "\n", "</li>")
		el := "ul"
		if v.Ordered {
			el = "ol"
		}
		return "<" + el + ">\n" + s + "\n</" + el + ">", err
	case Table:
		out := "<table>"
		for _, row := range v.Rows {
			s, err := all(row, "<td>", "\n", "</td>")
			if err != nil {
				return "", err
			}
			out += "<tr>" + s + "</tr>\n"
		}
		return out + "</table>", nil
	case Definitions:
		out := "<dl>\n"
		for _, d := range v {
			s, err := h.Render(d.Subject)
			if err != nil {
				return "", err
			}
			t, err := h.Render(d.Definition)
			if err != nil {
				return "", err
			}
			out += "<dt>" + s + "</dt>\n<dd>" + t + "</dd>\n"
		}
		return out + "</dl>", nil
	case Styled:
		if t, ok := h.Tmpl[v.Style]; ok {
			return t.Eval(h, v)
		}
		if v.Style == "verbatim" {
			r, err := h.Render(v.Content)
			if IsFlow(v) {
				return "<code>" + r + "</code>", err
			}
			return "<pre>" + r + "</pre>", err
		}
		if v.Style == "raw-html" {
			return Summary(v.Content), nil
		}
		t, ok := styleTags[v.Style]
		if !ok {
			return "", plain("template '%s.tmpl' not found", v.Style)
		}
		r, err := h.Render(v.Content)
		return t[0] + r + t[1], err
	}
	panic(fmt.Sprintf("ref: Render of %T", c))
}

// SafeURL replaces URLs with schemes which may be harmful.
func SafeURL(u string) string {
	scheme, _, ok := strings.Cut(u, ":")
	if !ok || strings.Contains(scheme, "/") {
		return u
	}
	switch strings.ToLower(scheme) {
	case "http", "https", "mailto":
		return u
	}
	return "#ZgotmplZ"
}
