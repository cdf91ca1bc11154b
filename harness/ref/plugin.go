package ref

import (
	"fmt"
	"strings"
)

func txt(format string, args ...interface{}) Content { return Text(fmt.Sprintf(format, args...)) }

func clean(s string) string { return strings.ReplaceAll(s, "\x01", "'") }

func fn(do func(*Call) (Content, *Err), params ...Kind) Method { return Method{Params: params, Do: do} }

func fnVar(do func(*Call) (Content, *Err), params ...Kind) Method {
	return Method{Params: params, Variadic: true, Do: do}
}

func badReturn(*Call) (Content, *Err) { return nil, &Err{Kind: "bad-return"} }

func (c *Call) bump() Content {
	if c.Section.count == nil {
		c.Section.count = new(int)
	}
	*c.Section.count++
	return txt("#%d", *c.Section.count)
}

func pretty(c *Call) (Content, *Err) {
	return nil, &Err{Kind: "undefined", Fn: c.str(0), File: "elsewhere.lit", Pos: Pos{3, 4, 5}, Len: 6}
}

func wrapped(c *Call) (Content, *Err) {
	_, err := pretty(c)
	err.Wrapped, err.Exact, err.Msg = true, true, "around: undefined function \\"+err.Fn
	return nil, err
}

func (c *Call) once(block bool) *Lazy {
	l := &Lazy{Block: block, Content: Sequence{Text("(1) "), c.content(0)}}
	site := c.Section.site
	site.Lazies = append(site.Lazies, l)
	l.ID = len(site.Lazies)
	return l
}

// Plugins are the models of the test plugins.
func Plugins() map[string]*Plugin {
	vt := &Plugin{Name: "vt", Methods: map[string]Method{
		"VStr": fn(func(c *Call) (Content, *Err) { return txt("[%s]", c.str(0)), nil }, KString),
		"VTwo": fn(func(c *Call) (Content, *Err) {
			return Sequence{Text(c.str(0) + ":"), c.content(1)}, nil
		}, KString, KContent),
		"VContent": fn(func(c *Call) (Content, *Err) { return Styled{Style: "bold", Content: c.content(0)}, nil }, KContent),
		"VVar": fnVar(func(c *Call) (Content, *Err) {
			out := Sequence{txt("%s/%d", c.str(0), len(c.Args)-1)}
			for _, x := range c.contents(1) {
				out = append(out, Text("<"), x, Text(">"))
			}
			return out, nil
		}, KString, KContent),
		"VStrs": fnVar(func(c *Call) (Content, *Err) {
			ss := []string{}
			for i := range c.Args {
				ss = append(ss, c.str(i))
			}
			return txt("%d %s", len(ss), strings.Join(ss, "|")), nil
		}, KString),
		"VNode": fn(func(c *Call) (Content, *Err) { return Text(clean(DumpNode(c.Args[0], true))), nil }, KNode),
		"VNodes": fnVar(func(c *Call) (Content, *Err) {
			out := Sequence{c.content(0)}
			for _, n := range c.Args[1:] {
				out = append(out, Text(clean(DumpNode(n, true))))
			}
			return out, nil
		}, KContent, KNode),
		"VNone":   fn(func(*Call) (Content, *Err) { return nil, nil }, KContent),
		"VNil":    fn(func(*Call) (Content, *Err) { return nil, nil }),
		"VNilErr": fn(func(*Call) (Content, *Err) { return nil, nil }, KString),
		"VErr": fn(func(c *Call) (Content, *Err) {
			if c.str(0) == "" {
				return nil, nil
			}
			return nil, exactly("%s", c.str(0))
		}, KString),
		"VMaybe": fn(func(c *Call) (Content, *Err) {
			if c.str(0) == "fail" {
				return nil, exactly("failed: %s", Summary(c.content(1)))
			}
			return c.content(1), nil
		}, KString, KContent),
		"VPretty":         fn(pretty, KString),
		"VWrapped":        fn(wrapped, KString),
		"VWrappedContent": fn(wrapped, KString),
		"VPrettyContent":  fn(pretty, KString),
		"VBadIn":          fn(badReturn, KString, KBad),
		"VBadNamed":       fn(badReturn, KBad),
		"VBadFace":        fn(badReturn, KBad),
		"VBadConcrete":    fn(badReturn, KBad),
		"VBadBytes":       fn(badReturn, KBad),
		"VBadVar":         fnVar(func(*Call) (Content, *Err) { return Text("no ints"), nil }, KBad),
		"VBadOut":         fn(badReturn),
		"VBadStr":         fn(badReturn),
		"VBadTwo":         fn(badReturn),
		"VBadThree":       fn(badReturn),
		"VLazyBlock":      fn(badReturn, KContent),
		"VCount":          fn(func(c *Call) (Content, *Err) { return c.bump(), nil }),
		"VCountWith":      fn(func(c *Call) (Content, *Err) { return Append(c.content(0), c.bump()), nil }, KContent),
		"VLoc": fnVar(func(c *Call) (Content, *Err) {
			return Append(txt("%v", c.Pos), c.contents(0)...), nil
		}, KContent),
		"VLazy":      fn(func(c *Call) (Content, *Err) { return &Lazy{Content: c.content(0)}, nil }, KContent),
		"VLater":     fn(func(c *Call) (Content, *Err) { return &Lazy{Block: true, Content: c.content(0)}, nil }, KContent),
		"VLazyErr":   fn(func(c *Call) (Content, *Err) { return &Lazy{Err: "x" + c.str(0)}, nil }, KString),
		"VOnce":      fn(func(c *Call) (Content, *Err) { return c.once(false), nil }, KContent),
		"VOnceBlock": fn(func(c *Call) (Content, *Err) { return c.once(true), nil }, KContent),
		"VOpt": fn(func(c *Call) (Content, *Err) {
			return &Reference{Section: c.Section, TagName: c.str(0), Content: c.content(1), Optional: true, Pos: c.Pos}, nil
		}, KString, KContent),
		"VRaw": fn(func(c *Call) (Content, *Err) {
			s := strings.Map(func(r rune) rune {
				if r >= 'a' && r <= 'z' {
					return r
				}
				return -1
			}, c.str(0))
			return Styled{Style: "raw-html", Content: txt("<x-flow title=\"%s\"></x-flow>", s)}, nil
		}, KString),
		"VBlock": fn(func(c *Call) (Content, *Err) {
			return Styled{Style: "verbatim", Block: true, Content: c.content(0)}, nil
		}, KContent),
		"VPart": fn(func(c *Call) (Content, *Err) {
			return Styled{Style: "italic", Content: c.content(0), Partials: map[string]Content{"X": c.content(1), "Y": c.content(2), "None": nil}}, nil
		}, KContent, KContent, KContent),
		"VStyled": fn(func(c *Call) (Content, *Err) {
			return Styled{Style: c.str(0), Content: c.content(1), Partials: map[string]Content{"X": c.content(2)}}, nil
		}, KString, KContent, KContent),
		"VTitle": fn(func(c *Call) (Content, *Err) {
			if t, ok := c.Section.Title.(Text); ok && t == "" {
				return Text("untitled"), nil
			}
			return c.Section.Title, nil
		}),
		"VGet": fn(func(c *Call) (Content, *Err) { return c.Section.Partials[c.str(0)], nil }, KString),
		"VTag": fn(func(c *Call) (Content, *Err) {
			t := Tag{Name: c.str(0), Title: c.content(1), Section: c.Section, Pos: c.Pos}
			if t.Name == "v2" || t.Name == "v3" {
				t.Anchor = "at-" + t.Name
			}
			c.Section.Tags = append(c.Section.Tags, t)
			return nil, nil
		}, KString, KContent),
		"VAnchor": fn(func(c *Call) (Content, *Err) {
			c.Section.Tags = append(c.Section.Tags, Tag{Name: c.str(0), Title: c.content(1), Section: c.Section, Pos: c.Pos, Anchor: "anchor-" + c.str(0), Content: c.content(2)})
			return nil, nil
		}, KString, KContent, KContent),
	}}
	say := func(s string, params ...Kind) Method {
		return fn(func(c *Call) (Content, *Err) {
			out := "(" + s
			for i := range c.Args {
				out += " " + c.str(i)
			}
			return Text(out + ")"), nil
		}, params...)
	}
	sayAll := func(s string, params ...Kind) Method {
		m := say(s, params...)
		m.Variadic = true
		return m
	}
	return map[string]*Plugin{
		"vt": vt,
		"va": {Name: "va", Methods: map[string]Method{"VWho": say("a"), "VOnlyA": say("only a"), "VPair": say("pair a", KString), "VSum": sayAll("sum a", KString)}},
		"vb": {Name: "vb", Methods: map[string]Method{"VWho": say("b"), "VOnlyB": say("only b", KString), "VSum": say("sum b", KString), "Italic": fn(func(*Call) (Content, *Err) { return Text("(not italic)"), nil }, KContent, KContent), "Bold": fn(func(*Call) (Content, *Err) { return Text("(not bold)"), nil }, KContent)}},
		"vc": {Name: "vc", Methods: map[string]Method{"VWho": say("c"), "VPair": say("pair c", KString, KString), "VSum": sayAll("sum c", KString, KString, KString)}},
	}
}

// Highlight is \syntax, which gives the code with no colors.
func Highlight() Method {
	return fnVar(func(c *Call) (Content, *Err) {
		style := "code-flow"
		if !IsFlow(c.content(1)) {
			style = "code-block"
		}
		return Styled{Style: style, Block: style == "code-block", Content: Text(Summary(c.content(1))), Partials: map[string]Content{"Language": Text(c.str(0))}}, nil
	}, KString, KContent, KString)
}
