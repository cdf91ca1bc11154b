package ref

import (
	"path/filepath"
	"sort"
	"strings"
)

// Kind is the kind of a plugin method's parameter.
type Kind int

// Kinds of parameters.
const (
	KString Kind = iota
	KContent
	KNode
	KBad // an unsupported parameter type
)

// Call is a call of a plugin method.
type Call struct {
	Section *Section
	Pos     Pos
	Args    []interface{} // string, Content, or Node
}

func (c *Call) str(i int) string      { return c.Args[i].(string) }
func (c *Call) content(i int) Content { return c.Args[i] }
func (c *Call) contents(i int) []Content {
	out := []Content{}
	for _, a := range c.Args[i:] {
		out = append(out, a)
	}
	return out
}

// Method is a plugin method.
type Method struct {
	Params   []Kind // the last one repeats, if variadic
	Variadic bool
	Do       func(*Call) (Content, *Err)
}

// Plugin is a set of methods.
type Plugin struct {
	Name    string
	Methods map[string]Method
}

// MethodName maps a function name to a method name.
func MethodName(fn string) string {
	out := ""
	for _, w := range strings.Split(fn, "-") {
		if w != "" {
			out += strings.ToUpper(w[:1]) + w[1:]
		}
	}
	return out
}

func sortedKeys(m map[string]Content) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func evalNode(s *Section, n Node) (Content, *Err) {
	return evalInto(s, nil, n)
}

func evalInto(s *Section, acc Content, n Node) (Content, *Err) {
	switch v := n.(type) {
	case Str:
		return Append(acc, Text(v)), nil
	case Seq:
		for _, x := range v {
			var err *Err
			acc, err = evalInto(s, acc, x)
			if err != nil {
				return nil, err
			}
		}
		return acc, nil
	case Para:
		lines := []Content{}
		for _, l := range v {
			c, err := evalNode(s, l)
			if err != nil {
				return nil, err
			}
			if c != nil {
				lines = append(lines, c)
			}
		}
		switch {
		case len(lines) == 0:
			return acc, nil
		case len(lines) == 1 && !IsFlow(lines[0]):
			return Append(acc, lines[0]), nil
		}
		return Append(acc, Paragraph(lines)), nil
	case Pre:
		lines := []Content{}
		for _, l := range v {
			c, err := evalNode(s, l)
			if err != nil {
				return nil, err
			}
			if c != nil {
				lines = append(lines, c)
			}
		}
		return Append(acc, Preformatted(lines)), nil
	case Invoke:
		c, err := evalInvoke(s, v)
		if err != nil {
			return nil, err
		}
		return Append(acc, c), nil
	}
	panic("ref: unknown node")
}

func evalArg(s *Section, n Node) (Content, *Err) {
	c, err := evalNode(s, n)
	if err == nil && c == nil {
		c = Text("")
	}
	return c, err
}

func evalInvoke(s *Section, inv Invoke) (Content, *Err) {
	name := MethodName(inv.Fn)
	var m Method
	found := false
	for _, p := range s.plugins {
		if m, found = p.Methods[name]; found {
			break
		}
	}
	if !found {
		return nil, &Err{Kind: "undefined", Fn: inv.Fn, File: s.FilePath(), Pos: inv.Pos, Len: 1 + len(inv.Fn)}
	}
	need := len(m.Params)
	if m.Variadic {
		need--
		if len(inv.Args) < need {
			return nil, s.failed(inv, plain("argument count mismatch for %s: given %d, need at least %d", inv.Fn, len(inv.Args), need))
		}
	} else if len(inv.Args) != need {
		return nil, s.failed(inv, plain("argument count mismatch for %s: given %d, need %d", inv.Fn, len(inv.Args), need))
	}
	call := &Call{Section: s, Pos: inv.Pos}
	for i, a := range inv.Args {
		k := m.Params[len(m.Params)-1]
		if i < need {
			k = m.Params[i]
		}
		switch k {
		case KBad:
			return nil, plain("unsupported argument type")
		case KNode:
			call.Args = append(call.Args, a)
		default:
			c, err := evalArg(s, a)
			if err != nil {
				return nil, err
			}
			if k == KString {
				call.Args = append(call.Args, Summary(c))
			} else {
				call.Args = append(call.Args, c)
			}
		}
	}
	c, err := m.Do(call)
	if err != nil {
		if err.Wrapped {
			// no location of its own, whatever it's around
			return nil, s.failed(inv, err)
		}
		switch err.Kind {
		case "plain":
			return nil, s.failed(inv, err)
		case "bad-return":
			return nil, plain("bad return type")
		}
		return nil, err
	}
	return c, nil
}

func style(name string) Method {
	return Method{Params: []Kind{KContent}, Do: func(c *Call) (Content, *Err) {
		return Styled{Style: name, Content: c.content(0)}, nil
	}}
}

// Baselit is the plugin available in every section.
var Baselit *Plugin

func init() {
	Baselit = &Plugin{Name: "baselit", Methods: map[string]Method{
		"UsePlugin": {Params: []Kind{KString}, Do: func(c *Call) (Content, *Err) {
			p, ok := c.Section.site.Registry[c.str(0)]
			if !ok && c.str(0) == "baselit" {
				p, ok = Baselit, true
			}
			if !ok {
				return nil, plain("unknown plugin '%s'", c.str(0))
			}
			c.Section.use(p)
			return nil, nil
		}},
		"Styled": {Params: []Kind{KString}, Do: func(c *Call) (Content, *Err) {
			c.Section.Style = c.str(0)
			return nil, nil
		}},
		"Title": {Params: []Kind{KContent, KString}, Variadic: true, Do: func(c *Call) (Content, *Err) {
			s := c.Section
			if t, empty := s.Title.(Text); !empty || t != "" {
				return nil, &Err{
					Kind: "title-twice", Msg: "cannot set title twice", File: s.FilePath(), Pos: c.Pos, Len: len("\\title"),
					Also: []Loc{{s.FilePath(), s.TitlePos}},
				}
			}
			tags := []string{}
			for i := range c.Args[1:] {
				tags = append(tags, c.str(i+1))
			}
			s.setTitle(c.content(0), c.Pos, tags)
			return nil, nil
		}},
		"Aux": {Params: []Kind{KContent}, Do: func(c *Call) (Content, *Err) {
			return Aux{c.content(0)}, nil
		}},
		"Section": {Params: []Kind{KNode}, Do: func(c *Call) (Content, *Err) {
			p := c.Section
			s := &Section{Parent: p, site: p.site, Title: Text(""), Body: Text(""), Pos: c.Pos}
			s.plugins = append(s.plugins, p.plugins...)
			if err := s.eval(c.Args[0]); err != nil {
				return nil, err
			}
			p.Children = append(p.Children, s)
			return nil, nil
		}},
		"IncludeSection": {Params: []Kind{KString}, Do: func(c *Call) (Content, *Err) {
			p := c.Section
			path := join(p.FilePath(), c.str(0))
			for x := p; x != nil; x = x.Parent {
				if x.Path != "" && filepath.Clean(x.Path) == path {
					return nil, plain("section '%s' includes itself", path)
				}
			}
			s, err := p.site.evalFile(p, path)
			if err != nil {
				return nil, err
			}
			p.Children = append(p.Children, s)
			return nil, nil
		}},
		"SinglePage": {Do: func(c *Call) (Content, *Err) {
			c.Section.Prevent = true
			c.Section.unsplit()
			return nil, nil
		}},
		"SplitSections": {Do: func(c *Call) (Content, *Err) {
			c.Section.Reset = true
			if !c.Section.prevented() {
				c.Section.Split = true
			}
			return nil, nil
		}},
		"OmitChildrenFromTableOfContents": {Do: func(c *Call) (Content, *Err) {
			c.Section.OmitTOC = true
			return nil, nil
		}},
		"TableOfContents": {Do: func(c *Call) (Content, *Err) {
			return TOC{c.Section}, nil
		}},
		"Code":        style("verbatim"),
		"Italic":      style("italic"),
		"Bold":        style("bold"),
		"Larger":      style("larger"),
		"Smaller":     style("smaller"),
		"Strike":      style("strike"),
		"Superscript": style("superscript"),
		"Subscript":   style("subscript"),
		"Inset":       style("inset"),
		"Aside":       style("aside"),
		"Link": {Params: []Kind{KContent, KString}, Do: func(c *Call) (Content, *Err) {
			return Link{c.content(0), c.str(1)}, nil
		}},
		"Reference": {Params: []Kind{KString, KContent}, Variadic: true, Do: func(c *Call) (Content, *Err) {
			r := &Reference{Section: c.Section, TagName: c.str(0), Pos: c.Pos}
			if len(c.Args) > 1 {
				r.Content = c.content(1)
			}
			return r, nil
		}},
		"Target": {Params: []Kind{KString, KContent}, Variadic: true, Do: func(c *Call) (Content, *Err) {
			t := Target{TagName: c.str(0), Pos: c.Pos, Title: Text(c.str(0))}
			switch len(c.Args) {
			case 2:
				t.Title = c.content(1)
			case 3:
				t.Title = c.content(1)
				t.Content = c.content(2)
			}
			return t, nil
		}},
		"List": {Params: []Kind{KContent}, Variadic: true, Do: func(c *Call) (Content, *Err) {
			return List{Items: c.contents(0)}, nil
		}},
		"OrderedList": {Params: []Kind{KContent}, Variadic: true, Do: func(c *Call) (Content, *Err) {
			return List{Items: c.contents(0), Ordered: true}, nil
		}},
		"Image": {Params: []Kind{KString, KString}, Variadic: true, Do: func(c *Call) (Content, *Err) {
			i := Image{Path: c.str(0)}
			if len(c.Args) > 1 {
				i.Description = c.str(1)
			}
			return i, nil
		}},
		"SetPartial": {Params: []Kind{KString, KContent}, Do: func(c *Call) (Content, *Err) {
			if c.Section.Partials == nil {
				c.Section.Partials = map[string]Content{}
			}
			c.Section.Partials[c.str(0)] = c.content(1)
			return nil, nil
		}},
		"Table": {Params: []Kind{KContent}, Variadic: true, Do: func(c *Call) (Content, *Err) {
			t := Table{}
			for _, r := range c.contents(0) {
				l, ok := r.(List)
				if !ok {
					return nil, plain("table row is not a list: %s", Summary(r))
				}
				t.Rows = append(t.Rows, l.Items)
			}
			return t, nil
		}},
		"TableRow": {Params: []Kind{KContent}, Variadic: true, Do: func(c *Call) (Content, *Err) {
			return List{Items: c.contents(0)}, nil
		}},
		"Definitions": {Params: []Kind{KContent}, Variadic: true, Do: func(c *Call) (Content, *Err) {
			d := Definitions{}
			for _, r := range c.contents(0) {
				l, ok := r.(List)
				if !ok {
					return nil, plain("definition item is not a list: %s", Summary(r))
				}
				if len(l.Items) != 2 {
					return nil, plain("definition item must have two entries: %s", Summary(r))
				}
				d = append(d, Definition{l.Items[0], l.Items[1]})
			}
			return d, nil
		}},
		"Definition": {Params: []Kind{KContent, KContent}, Do: func(c *Call) (Content, *Err) {
			return List{Items: c.contents(0)}, nil
		}},
	}}
}

// failed is the error for a call of a function which fails.
func (s *Section) failed(inv Invoke, err *Err) *Err {
	return &Err{Kind: "failed", Fn: inv.Fn, Inner: err, File: s.FilePath(), Pos: inv.Pos, Len: 1 + len(inv.Fn)}
}
