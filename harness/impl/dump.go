// Package impl runs the real Booklit and puts what it does in the same
// canonical forms as package ref.
package impl

import (
	"fmt"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"

	"verif/harness/ref"
)

// Pos converts a location.
func Pos(l ast.Location) ref.Pos { return ref.Pos{Line: l.Line, Col: l.Col, Off: l.Offset} }

// Dump is ref.Dump for real content.
func Dump(c booklit.Content) string {
	switch v := c.(type) {
	case nil:
		return "nil"
	case booklit.String, booklit.Sequence:
		return "[" + strings.Join(flatten(v, nil), " ") + "]"
	case booklit.Paragraph:
		return "(para" + dumpAll(v) + ")"
	case booklit.Preformatted:
		return "(pre" + dumpAll(v) + ")"
	case booklit.Link:
		return fmt.Sprintf("(link %q %s)", v.Target, Dump(v.Content))
	case booklit.Aux:
		return "(aux " + Dump(v.Content) + ")"
	case *booklit.Lazy:
		return fmt.Sprintf("(lazy %v)", v.Block)
	case *booklit.Reference:
		return fmt.Sprintf("(ref %q %v %v %s)", v.TagName, v.Optional, Pos(v.Location), Dump(v.Content))
	case booklit.Target:
		return fmt.Sprintf("(target %q %v %s %s)", v.TagName, Pos(v.Location), Dump(v.Title), Dump(v.Content))
	case *booklit.Target:
		return Dump(*v)
	case booklit.Image:
		return fmt.Sprintf("(image %q %q)", v.Path, v.Description)
	case booklit.TableOfContents:
		return "(toc)"
	case booklit.List:
		return fmt.Sprintf("(list %v%s)", v.Ordered, dumpAll(v.Items))
	case booklit.Table:
		s := "(table"
		for _, r := range v.Rows {
			s += " (row" + dumpAll(r) + ")"
		}
		return s + ")"
	case booklit.Definitions:
		s := "(defs"
		for _, d := range v {
			s += " (def " + Dump(d.Subject) + " " + Dump(d.Definition) + ")"
		}
		return s + ")"
	case booklit.Styled:
		s := fmt.Sprintf("(styled %q %v %s", string(v.Style), v.Block, Dump(v.Content))
		ks := []string{}
		for k := range v.Partials {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += fmt.Sprintf(" %q=%s", k, Dump(v.Partials[k]))
		}
		return s + ")"
	}
	return fmt.Sprintf("(unknown %T)", c)
}

func dumpAll(cs []booklit.Content) string {
	s := ""
	for _, c := range cs {
		s += " " + Dump(c)
	}
	return s
}

func flatten(c booklit.Content, parts []string) []string {
	switch v := c.(type) {
	case booklit.String:
		return ref.AddText(parts, string(v))
	case booklit.Sequence:
		for _, x := range v {
			parts = flatten(x, parts)
		}
		return parts
	}
	return append(parts, Dump(c))
}

// DumpSection is ref.DumpSection for a real section.
func DumpSection(s *booklit.Section) string {
	var b strings.Builder
	dumpSection(&b, s, "")
	return b.String()
}

func dumpSection(b *strings.Builder, s *booklit.Section, ind string) {
	fmt.Fprintf(b, "%ssection path=%q loc=%v titleloc=%v style=%q split=%v prevent=%v reset=%v omit=%v number=%q\n",
		ind, s.Path, Pos(s.Location), Pos(s.TitleLocation), s.Style, s.SplitSections, s.PreventSplitSections, s.ResetDepth,
		s.OmitChildrenFromTableOfContents, s.Number())
	fmt.Fprintf(b, "%s title %s\n%s body %s\n", ind, Dump(s.Title), ind, Dump(s.Body))
	fmt.Fprintf(b, "%s primary %q\n", ind, s.PrimaryTag.Name)
	for _, t := range s.Tags {
		fmt.Fprintf(b, "%s tag %q %q %v %s %s\n", ind, t.Name, t.Anchor, Pos(t.Location), Dump(t.Title), Dump(t.Content))
	}
	ks := []string{}
	for k := range s.Partials {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(b, "%s partial %q %s\n", ind, k, Dump(s.Partials[k]))
	}
	for _, c := range s.Children {
		dumpSection(b, c, ind+"  ")
	}
}

// DumpNode dumps a syntax tree; nested sequences are flattened and adjacent
// text is joined.
func DumpNode(n ast.Node) string {
	switch v := n.(type) {
	case nil:
		return "nil"
	case ast.String, ast.Sequence:
		return "[" + strings.Join(flattenNode(v, nil), " ") + "]"
	case ast.Paragraph:
		s := "(para"
		for _, l := range v {
			s += " " + DumpNode(l)
		}
		return s + ")"
	case ast.Preformatted:
		s := "(pre"
		for _, l := range v {
			s += " " + DumpNode(l)
		}
		return s + ")"
	case ast.Invoke:
		s := fmt.Sprintf("(\\%s@%v", v.Function, Pos(v.Location))
		for _, a := range v.Arguments {
			s += " " + DumpNode(a)
		}
		return s + ")"
	}
	return fmt.Sprintf("(unknown %T)", n)
}

func flattenNode(n ast.Node, parts []string) []string {
	switch v := n.(type) {
	case ast.String:
		return ref.AddText(parts, string(v))
	case ast.Sequence:
		for _, x := range v {
			parts = flattenNode(x, parts)
		}
		return parts
	}
	return append(parts, DumpNode(n))
}
