package ref

import (
	"fmt"
	"strings"
)

// Dump writes content in a canonical form: nested sequences are flattened,
// adjacent text is joined, and empty text is dropped.
func Dump(c Content) string {
	switch v := c.(type) {
	case nil:
		return "nil"
	case Text, Sequence:
		parts := flatten(v, nil)
		return "[" + strings.Join(parts, " ") + "]"
	case Paragraph:
		return "(para" + dumpAll(v) + ")"
	case Preformatted:
		return "(pre" + dumpAll(v) + ")"
	case Link:
		return fmt.Sprintf("(link %q %s)", v.Target, Dump(v.Content))
	case Aux:
		return "(aux " + Dump(v.Content) + ")"
	case *Lazy:
		return fmt.Sprintf("(lazy %v)", v.Block)
	case *Reference:
		return fmt.Sprintf("(ref %q %v %v %s)", v.TagName, v.Optional, v.Pos, Dump(v.Content))
	case Target:
		return fmt.Sprintf("(target %q %v %s %s)", v.TagName, v.Pos, Dump(v.Title), Dump(v.Content))
	case Image:
		return fmt.Sprintf("(image %q %q)", v.Path, v.Description)
	case TOC:
		return "(toc)"
	case List:
		return fmt.Sprintf("(list %v%s)", v.Ordered, dumpAll(v.Items))
	case Table:
		s := "(table"
		for _, r := range v.Rows {
			s += " (row" + dumpAll(r) + ")"
		}
		return s + ")"
	case Definitions:
		s := "(defs"
		for _, d := range v {
			s += " (def " + Dump(d.Subject) + " " + Dump(d.Definition) + ")"
		}
		return s + ")"
	case Styled:
		s := fmt.Sprintf("(styled %q %v %s", v.Style, v.Block, Dump(v.Content))
		for _, k := range sortedKeys(v.Partials) {
			s += fmt.Sprintf(" %q=%s", k, Dump(v.Partials[k]))
		}
		return s + ")"
	}
	return fmt.Sprintf("(unknown %T)", c)
}

func dumpAll(cs []Content) string {
	s := ""
	for _, c := range cs {
		s += " " + Dump(c)
	}
	return s
}

func flatten(c Content, parts []string) []string {
	switch v := c.(type) {
	case Text:
		return AddText(parts, string(v))
	case Sequence:
		for _, x := range v {
			parts = flatten(x, parts)
		}
		return parts
	}
	return append(parts, Dump(c))
}

// AddText adds text to a list of dumped parts, joining it to a preceding text.
func AddText(parts []string, s string) []string {
	if s == "" {
		return parts
	}
	if n := len(parts); n > 0 && strings.HasPrefix(parts[n-1], "\x01") {
		parts[n-1] += s
		return parts
	}
	return append(parts, "\x01"+s)
}

// DumpSection dumps the section and its descendants.
func DumpSection(s *Section) string {
	var b strings.Builder
	dumpSection(&b, s, "")
	return b.String()
}

func dumpSection(b *strings.Builder, s *Section, ind string) {
	fmt.Fprintf(b, "%ssection path=%q loc=%v titleloc=%v style=%q split=%v prevent=%v reset=%v omit=%v number=%q\n",
		ind, s.Path, s.Pos, s.TitlePos, s.Style, s.Split, s.Prevent, s.Reset, s.OmitTOC, s.Number())
	fmt.Fprintf(b, "%s title %s\n%s body %s\n", ind, Dump(s.Title), ind, Dump(s.Body))
	fmt.Fprintf(b, "%s primary %q\n", ind, s.Primary.Name)
	for _, t := range s.Tags {
		fmt.Fprintf(b, "%s tag %q %q %v %s %s\n", ind, t.Name, t.Anchor, t.Pos, Dump(t.Title), Dump(t.Content))
	}
	for _, k := range sortedKeys(s.Partials) {
		fmt.Fprintf(b, "%s partial %q %s\n", ind, k, Dump(s.Partials[k]))
	}
	for _, c := range s.Children {
		dumpSection(b, c, ind+"  ")
	}
}
