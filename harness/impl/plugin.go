package impl

import (
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
)

// Plugin is the test plugin. Package ref has its model.
type Plugin struct {
	section *booklit.Section
	count   int
}

func init() {
	booklit.RegisterPlugin("vt", func(s *booklit.Section) booklit.Plugin { return &Plugin{section: s} })
	booklit.RegisterPlugin("va", func(s *booklit.Section) booklit.Plugin { return PluginA{} })
	booklit.RegisterPlugin("vb", func(s *booklit.Section) booklit.Plugin { return PluginB{} })
	booklit.RegisterPlugin("vc", func(s *booklit.Section) booklit.Plugin { return PluginC{} })
}

// VStr takes and gives text.
func (p *Plugin) VStr(s string) booklit.Content { return booklit.String("[" + s + "]") }

// VTwo takes text and content.
func (p *Plugin) VTwo(s string, c booklit.Content) booklit.Content {
	return booklit.Sequence{booklit.String(s + ":"), c}
}

// VContent takes content.
func (p *Plugin) VContent(c booklit.Content) (booklit.Content, error) {
	return booklit.Styled{Style: booklit.StyleBold, Content: c}, nil
}

// VVar takes any number of content, after text.
func (p *Plugin) VVar(s string, cs ...booklit.Content) booklit.Content {
	out := booklit.Sequence{booklit.String(fmt.Sprintf("%s/%d", s, len(cs)))}
	for _, c := range cs {
		out = append(out, booklit.String("<"), c, booklit.String(">"))
	}
	return out
}

// VStrs takes any number of text.
func (p *Plugin) VStrs(ss ...string) booklit.Content {
	return booklit.String(fmt.Sprintf("%d %s", len(ss), strings.Join(ss, "|")))
}

// VNode takes syntax.
func (p *Plugin) VNode(n ast.Node) booklit.Content { return booklit.String(clean(DumpNode(n))) }

// VNodes takes any number of syntax.
func (p *Plugin) VNodes(c booklit.Content, ns ...ast.Node) booklit.Content {
	out := booklit.Sequence{c}
	for _, n := range ns {
		out = append(out, booklit.String(clean(DumpNode(n))))
	}
	return out
}

func clean(s string) string { return strings.ReplaceAll(s, "\x01", "'") }

// VNone returns nothing.
func (p *Plugin) VNone(booklit.Content) {}

// VNil returns no content.
func (p *Plugin) VNil() booklit.Content { return nil }

// VNilErr returns no content and no error.
func (p *Plugin) VNilErr(string) (booklit.Content, error) { return nil, nil }

// VErr fails, unless there is no message.
func (p *Plugin) VErr(msg string) error {
	if msg == "" {
		return nil
	}
	return errors.New(msg)
}

// VMaybe fails or not.
func (p *Plugin) VMaybe(msg string, c booklit.Content) (booklit.Content, error) {
	if msg == "fail" {
		return c, errors.New("failed: " + c.String())
	}
	return c, nil
}

// VPretty fails with an error of its own.
func (p *Plugin) VPretty(where string) error {
	return booklit.UndefinedFunctionError{Function: where, ErrorLocation: booklit.ErrorLocation{FilePath: "elsewhere.lit", NodeLocation: ast.Location{Line: 3, Col: 4, Offset: 5}, Length: 6}}
}

// VWrapped fails with an error around that.
func (p *Plugin) VWrapped(where string) error {
	return fmt.Errorf("around: %w", p.VPretty(where))
}

// VWrappedContent does so too.
func (p *Plugin) VWrappedContent(where string) (booklit.Content, error) {
	return booklit.Empty, p.VWrapped(where)
}

// VPrettyContent does so too.
func (p *Plugin) VPrettyContent(where string) (booklit.Content, error) {
	return booklit.Empty, p.VPretty(where)
}

// VBadIn takes something unsupported.
func (p *Plugin) VBadIn(s string, n int) booklit.Content { return booklit.Empty }

// VBadNamed takes something unsupported, which is much like a string.
func (p *Plugin) VBadNamed(s booklit.Style) booklit.Content { return booklit.String(s) }

// VBadFace takes something unsupported, which all content is.
func (p *Plugin) VBadFace(s fmt.Stringer) booklit.Content { return booklit.String(s.String()) }

// VBadConcrete takes something unsupported, which some content is.
func (p *Plugin) VBadConcrete(s booklit.String) booklit.Content { return s }

// VBadBytes takes something unsupported.
func (p *Plugin) VBadBytes(s []byte) booklit.Content { return booklit.String(s) }

// VBadVar takes any number of something unsupported.
func (p *Plugin) VBadVar(n ...int) booklit.Content { return booklit.String("no ints") }

// VBadOut returns something unsupported.
func (p *Plugin) VBadOut() int { return 1 }

// VBadStr returns something unsupported.
func (p *Plugin) VBadStr() (string, error) { return "x", nil }

// VBadTwo returns something unsupported.
func (p *Plugin) VBadTwo() (booklit.Content, string) { return booklit.Empty, "x" }

// VBadThree returns too much.
func (p *Plugin) VBadThree() (booklit.Content, int, error) { return booklit.Empty, 1, nil }

// VCount counts its calls in the section.
func (p *Plugin) VCount() booklit.Content {
	p.count++
	return booklit.String(fmt.Sprintf("#%d", p.count))
}

// VCountWith counts after its argument.
func (p *Plugin) VCountWith(c booklit.Content) booklit.Content {
	return booklit.Append(c, p.VCount())
}

// VLoc is the location of the call.
func (p *Plugin) VLoc(cs ...booklit.Content) booklit.Content {
	return booklit.Append(booklit.String(fmt.Sprint(Pos(p.section.InvokeLocation))), cs...)
}

// VLazy defers content.
func (p *Plugin) VLazy(c booklit.Content) booklit.Content {
	return booklit.LazyFlow(func() (booklit.Content, error) { return c, nil })
}

// VLazyBlock defers block content.
func (p *Plugin) VLazyBlock(c booklit.Content) *booklit.Lazy {
	return booklit.LazyBlock(func() (booklit.Content, error) { return c, nil })
}

// VLater defers block content.
func (p *Plugin) VLater(c booklit.Content) booklit.Content { return p.VLazyBlock(c) }

// VLazyErr fails later.
func (p *Plugin) VLazyErr(msg string) booklit.Content {
	return booklit.LazyFlow(func() (booklit.Content, error) { return nil, errors.New(msg) })
}

// Lazies counts how often lazy content ran.
var Lazies lazies

type lazies struct {
	mu   sync.Mutex
	made int
	runs map[int]int
}

// Reset forgets everything.
func (l *lazies) Reset() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.made, l.runs = 0, map[int]int{}
}

// Runs tells how often each ran which ran at all.
func (l *lazies) Runs() map[int]int {
	l.mu.Lock()
	defer l.mu.Unlock()
	out := map[int]int{}
	for k, v := range l.runs {
		out[k] = v
	}
	return out
}

func (l *lazies) lazy(c booklit.Content) func() (booklit.Content, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.made++
	id := l.made
	return func() (booklit.Content, error) {
		l.mu.Lock()
		defer l.mu.Unlock()
		if l.runs == nil {
			l.runs = map[int]int{}
		}
		l.runs[id]++
		return booklit.Sequence{booklit.String(fmt.Sprintf("(%d) ", l.runs[id])), c}, nil
	}
}

// VOnce is deferred content which tells how often it ran.
func (p *Plugin) VOnce(c booklit.Content) booklit.Content {
	return booklit.LazyFlow(Lazies.lazy(c))
}

// VOnceBlock is VOnce for block content.
func (p *Plugin) VOnceBlock(c booklit.Content) booklit.Content {
	return booklit.LazyBlock(Lazies.lazy(c))
}

// VOpt is an optional reference.
func (p *Plugin) VOpt(tag string, c booklit.Content) booklit.Content {
	return &booklit.Reference{Section: p.section, TagName: tag, Content: c, Optional: true, Location: p.section.InvokeLocation}
}

// VRaw is raw HTML.
func (p *Plugin) VRaw(s string) booklit.Content {
	return booklit.Styled{Style: "raw-html", Content: booklit.String("<x-flow title=\"" + strings.Map(letters, s) + "\"></x-flow>")}
}

func letters(r rune) rune {
	if r >= 'a' && r <= 'z' {
		return r
	}
	return -1
}

// VBlock is content which is forced to be a block.
func (p *Plugin) VBlock(c booklit.Content) booklit.Content {
	return booklit.Styled{Style: booklit.StyleVerbatim, Block: true, Content: c}
}

// VPart is content with partials.
func (p *Plugin) VPart(c, x, y booklit.Content) booklit.Content {
	return booklit.Styled{Style: booklit.StyleItalic, Content: c, Partials: booklit.Partials{"X": x, "Y": y, "None": nil}}
}

// VStyled is content of any style, with a partial.
func (p *Plugin) VStyled(style string, c, x booklit.Content) booklit.Content {
	return booklit.Styled{Style: booklit.Style(style), Content: c, Partials: booklit.Partials{"X": x}}
}

// VTitle is the title of the section so far.
func (p *Plugin) VTitle() booklit.Content {
	if p.section.Title == booklit.Empty {
		return booklit.String("untitled")
	}
	return p.section.Title
}

// VGet gets a partial.
func (p *Plugin) VGet(name string) booklit.Content { return p.section.Partial(name) }

// VTag adds a tag to the section, some of them with an anchor.
func (p *Plugin) VTag(name string, title booklit.Content) {
	if name == "v2" || name == "v3" {
		p.section.SetTag(name, title, p.section.InvokeLocation, "at-"+name)
		return
	}
	p.section.SetTag(name, title, p.section.InvokeLocation)
}

// VAnchor adds an anchored tag to the section.
func (p *Plugin) VAnchor(name string, title, content booklit.Content) {
	p.section.SetTagAnchored(name, title, p.section.InvokeLocation, content, "anchor-"+name)
}

// PluginA to PluginC share some functions.
type (
	PluginA struct{}
	PluginB struct{}
	PluginC struct{}
)

// VWho tells which plugin it is.
func (PluginA) VWho() booklit.Content { return booklit.String("(a)") }

// VWho tells which plugin it is.
func (PluginB) VWho() booklit.Content { return booklit.String("(b)") }

// VWho tells which plugin it is.
func (PluginC) VWho() booklit.Content { return booklit.String("(c)") }

// VOnlyA is in one plugin.
func (PluginA) VOnlyA() booklit.Content { return booklit.String("(only a)") }

// VOnlyB is in one plugin.
func (PluginB) VOnlyB(s string) booklit.Content { return booklit.String("(only b " + s + ")") }

// VPair differs.
func (PluginA) VPair(s string) booklit.Content { return booklit.String("(pair a " + s + ")") }

// VPair differs.
func (PluginC) VPair(s, t string) booklit.Content {
	return booklit.String("(pair c " + s + " " + t + ")")
}

// Bold is also a base function.
func (PluginB) Bold(c booklit.Content) booklit.Content { return booklit.String("(not bold)") }

// Italic takes other arguments than the base function.
func (PluginB) Italic(c, d booklit.Content) booklit.Content { return booklit.String("(not italic)") }

// VSum differs.
func (PluginA) VSum(ss ...string) booklit.Content {
	return booklit.String(strings.TrimSuffix("(sum a "+strings.Join(ss, " "), " ") + ")")
}

// VSum differs.
func (PluginB) VSum(s string) booklit.Content { return booklit.String("(sum b " + s + ")") }

// VSum differs.
func (PluginC) VSum(s, t string, u ...string) booklit.Content {
	return booklit.String("(sum c " + strings.Join(append([]string{s, t}, u...), " ") + ")")
}
