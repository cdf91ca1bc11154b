package ref

import (
	"fmt"
	"path/filepath"
	"strings"
)

// Tag is something which can be referenced.
type Tag struct {
	Name    string
	Title   Content
	Section *Section
	Anchor  string
	Content Content
	Pos     Pos
}

// Section is a section of a document.
type Section struct {
	Path     string
	Title    Content
	TitlePos Pos
	Body     Content
	Primary  Tag
	Tags     []Tag
	Parent   *Section
	Children []*Section
	Style    string
	Partials map[string]Content
	Pos      Pos

	Split, Prevent, Reset, OmitTOC bool

	plugins []*Plugin
	count   *int
	site    *Site
}

// Err is an expected error.
type Err struct {
	Kind  string // parse, unknown-tag, ambiguous, undefined, failed, title-twice, plain
	Msg   string // not always exact
	Exact bool   // the message is exact
	// Wrapped is whether this is within an error which has no location.
	Wrapped bool
	File    string
	Pos     Pos
	Len     int
	Fn      string
	Tag     string
	Inner   *Err
	Also    []Loc // definition locations or the first title's location
	Sim     []string
}

// Loc is a location in a file.
type Loc struct {
	File string
	Pos  Pos
}

func (e *Err) Error() string { return e.Kind + ": " + e.Msg }

func plain(format string, args ...interface{}) *Err {
	return &Err{Kind: "plain", Msg: fmt.Sprintf(format, args...)}
}

func exactly(format string, args ...interface{}) *Err {
	return &Err{Kind: "plain", Msg: fmt.Sprintf(format, args...), Exact: true}
}

// Site is a set of source files.
type Site struct {
	Files map[string]string // path -> source
	// AllowBroken is the --allow-broken-references mode.
	AllowBroken bool
	// Plugins by registered name.
	Registry map[string]*Plugin

	// Lazies are the lazy content of some plugins.
	Lazies []*Lazy

	parsed map[string]ParseResult
}

// Load evaluates the file and collects its tags.
func (s *Site) Load(path string) (*Section, *Err) {
	return s.LoadIn(nil, path)
}

// LoadIn is Load, with a parent section.
func (s *Site) LoadIn(parent *Section, path string) (*Section, *Err) {
	sec, err := s.evalFile(parent, path)
	if err != nil {
		return nil, err
	}
	sec.collect()
	return sec, nil
}

// Doc is an empty section.
func (s *Site) Doc(path string, title Content, pos Pos, tags ...string) *Section {
	sec := &Section{Path: path, site: s, Title: Text(""), Body: Text("")}
	sec.setTitle(title, pos, tags)
	return sec
}

func (s *Site) evalFile(parent *Section, path string) (*Section, *Err) {
	src, ok := s.Files[path]
	if !ok {
		return nil, plain("no such file: %s", path)
	}
	if s.parsed == nil {
		s.parsed = map[string]ParseResult{}
	}
	res, ok := s.parsed[path]
	if !ok {
		res = Parse(src)
		s.parsed[path] = res
	}
	if !res.OK {
		return nil, &Err{Kind: "parse", File: path, Pos: res.Fail, Len: 1}
	}
	sec := &Section{Path: path, Parent: parent, site: s, Title: Text(""), Body: Text("")}
	sec.use(Baselit)
	return sec, sec.eval(res.Node)
}

func (s *Section) use(p *Plugin) { s.plugins = append(s.plugins, p) }

func (s *Section) eval(n Node) *Err {
	c, err := evalNode(s, n)
	if err != nil {
		return err
	}
	if c != nil {
		s.Body = c
	}
	return nil
}

// FilePath is the file the section is in.
func (s *Section) FilePath() string {
	if s.Path != "" || s.Parent == nil {
		return s.Path
	}
	return s.Parent.FilePath()
}

func (s *Section) setTitle(title Content, pos Pos, tags []string) {
	if len(tags) == 0 {
		tags = []string{DefaultTag(Summary(StripAux(title)))}
	}
	s.Tags = nil
	for _, t := range tags {
		s.Tags = append(s.Tags, Tag{Name: t, Title: title, Section: s, Pos: pos})
	}
	s.Title = title
	s.TitlePos = pos
	s.Primary = s.Tags[0]
}

// DefaultTag derives a tag from a title.
func DefaultTag(title string) string {
	title = strings.ReplaceAll(title, " & ", " and ")
	out := ""
	space := false
	for _, r := range title {
		if r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\f' {
			if !space {
				out += "-"
			}
			space = true
			continue
		}
		space = false
		switch {
		case r >= 'A' && r <= 'Z':
			out += string(r + 32)
		case r >= 'a' && r <= 'z', r >= '0' && r <= '9', r == '_', r == '-':
			out += string(r)
		}
	}
	return out
}

func (s *Section) prevented() bool {
	for x := s; x != nil; x = x.Parent {
		if x.Prevent {
			return true
		}
	}
	return false
}

func (s *Section) unsplit() {
	s.Split = false
	for _, c := range s.Children {
		c.unsplit()
	}
}

// Walk visits the section and its descendants, in document order.
func (s *Section) Walk(f func(*Section)) {
	f(s)
	for _, c := range s.Children {
		c.Walk(f)
	}
}

// Top is the root section.
func (s *Section) Top() *Section {
	for s.Parent != nil {
		s = s.Parent
	}
	return s
}

// PageOwner is the section whose page the section is on.
func (s *Section) PageOwner() *Section {
	for s.Parent != nil && !s.Parent.Split {
		s = s.Parent
	}
	return s
}

// Depth is the number of ancestors.
func (s *Section) Depth() int {
	n := 0
	for x := s.Parent; x != nil; x = x.Parent {
		n++
	}
	return n
}

// PageDepth is the depth on the page.
func (s *Section) PageDepth() int {
	n := 0
	for x := s; x.Parent != nil && !x.Parent.Reset; x = x.Parent {
		n++
	}
	return n
}

// Number is e.g. "3.2".
func (s *Section) Number() string {
	if s.Parent == nil {
		return ""
	}
	i := 1
	for _, c := range s.Parent.Children {
		if c == s {
			break
		}
		i++
	}
	if p := s.Parent.Number(); p != "" {
		return fmt.Sprintf("%s.%d", p, i)
	}
	return fmt.Sprint(i)
}

func (s *Section) below(name string, exclude *Section, out []Tag) []Tag {
	for _, t := range s.Tags {
		if t.Name == name {
			out = append(out, t)
		}
	}
	for _, c := range s.Children {
		if c != exclude {
			out = c.below(name, nil, out)
		}
	}
	return out
}

// FindTag finds tags by name, in the whole tree.
func (s *Section) FindTag(name string) []Tag {
	out := s.below(name, nil, nil)
	for prev, x := s, s.Parent; x != nil; prev, x = x, x.Parent {
		out = x.below(name, prev, out)
	}
	return out
}

// AllTags are the tags of the whole tree in the order of FindTag.
func (s *Section) AllTags() []Tag {
	var out []Tag
	var below func(x, ex *Section)
	below = func(x, ex *Section) {
		out = append(out, x.Tags...)
		for _, c := range x.Children {
			if c != ex {
				below(c, nil)
			}
		}
	}
	below(s, nil)
	for prev, x := s, s.Parent; x != nil; prev, x = x, x.Parent {
		below(x, prev)
	}
	return out
}

// Resolve resolves the reference.
func (r *Reference) Resolve() (*Tag, *Err) {
	if r.tag != nil {
		return r.tag, nil
	}
	tags := r.Section.FindTag(r.TagName)
	if len(tags) == 1 {
		r.tag = &tags[0]
		return r.tag, nil
	}
	if len(tags) == 0 && r.Optional {
		return nil, nil
	}
	if r.Section.site.AllowBroken {
		return &Tag{
			Name: r.TagName, Anchor: "broken", Section: r.Section, Pos: r.Pos,
			Title: Text("{broken reference: " + r.TagName + "}"),
		}, nil
	}
	if len(tags) == 0 {
		return nil, &Err{
			Kind: "unknown-tag", Msg: fmt.Sprintf("unknown tag '%s'", r.TagName), Tag: r.TagName,
			File: r.Section.FilePath(), Pos: r.Pos, Len: len("\\reference"),
		}
	}
	e := &Err{
		Kind: "ambiguous", Msg: fmt.Sprintf("ambiguous target for tag '%s'", r.TagName), Tag: r.TagName,
		File: r.Section.FilePath(), Pos: r.Pos, Len: len("\\reference"),
	}
	for _, t := range tags {
		e.Also = append(e.Also, Loc{t.Section.FilePath(), t.Pos})
	}
	return nil, e
}

// collect gathers the tags of targets.
func (s *Section) collect() {
	s.gather(s.Title)
	s.gather(s.Body)
	s.gatherPartials(s.Partials)
	for _, c := range s.Children {
		c.collect()
	}
}

func (s *Section) gatherPartials(p map[string]Content) {
	for _, k := range sortedKeys(p) {
		if p[k] != nil {
			s.gather(p[k])
		}
	}
}

func (s *Section) gather(c Content) {
	all := func(cs []Content) {
		for _, x := range cs {
			s.gather(x)
		}
	}
	switch v := c.(type) {
	case Sequence:
		all(v)
	case Paragraph:
		all(v)
	case Preformatted:
		all(v)
	case Link:
		s.gather(v.Content)
	case Aux:
		s.gather(v.Content)
	case Styled:
		s.gather(v.Content)
		s.gatherPartials(v.Partials)
	case Target:
		s.Tags = append(s.Tags, Tag{
			Name: v.TagName, Title: v.Title, Section: s, Anchor: v.TagName, Content: v.Content, Pos: v.Pos,
		})
	case List:
		all(v.Items)
	case Table:
		for _, r := range v.Rows {
			all(r)
		}
	case Definitions:
		for _, d := range v {
			s.gather(d.Subject)
			s.gather(d.Definition)
		}
	}
}

// Pages are the sections with their own page, in the order they are written.
func (s *Section) Pages() []*Section {
	var out []*Section
	s.Walk(func(x *Section) {
		if x.Parent == nil || x.Parent.Split {
			out = append(out, x)
		}
	})
	return out
}

// URL is the location of a tag.
func URL(ext string, t Tag) string {
	owner := t.Section.PageOwner()
	anchor := t.Anchor
	if owner != t.Section && anchor == "" {
		anchor = t.Section.Primary.Name
	}
	u := EscapeURL(owner.Primary.Name) + "." + ext
	if anchor != "" {
		u += "#" + EscapeURL(anchor)
	}
	return u
}

// EscapeURL percent-encodes everything but what is certainly safe.
func EscapeURL(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', strings.IndexByte("-_.~", c) >= 0:
			out += string(rune(c))
		default:
			out += fmt.Sprintf("%%%02X", c)
		}
	}
	return out
}

func join(base, rel string) string { return filepath.Join(filepath.Dir(base), rel) }

// Targets are the tags of the targets in the content.
func Targets(c Content) []Tag {
	s := &Section{}
	s.gather(c)
	return s.Tags
}
