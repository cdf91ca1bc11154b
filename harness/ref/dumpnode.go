package ref

import (
	"fmt"
	"strings"
)

// DumpNode dumps a syntax tree; nested sequences are flattened and adjacent
// text is joined. Positions are left out if pos is false.
func DumpNode(n Node, pos bool) string {
	switch v := n.(type) {
	case nil:
		return "nil"
	case Str, Seq:
		return "[" + strings.Join(flattenNode(v, nil, pos), " ") + "]"
	case Para:
		s := "(para"
		for _, l := range v {
			s += " " + DumpNode(l, pos)
		}
		return s + ")"
	case Pre:
		s := "(pre"
		for _, l := range v {
			s += " " + DumpNode(l, pos)
		}
		return s + ")"
	case Invoke:
		s := "(\\" + v.Fn
		if pos {
			s += fmt.Sprintf("@%v", v.Pos)
		}
		for _, a := range v.Args {
			s += " " + DumpNode(a, pos)
		}
		return s + ")"
	}
	return fmt.Sprintf("(unknown %T)", n)
}

func flattenNode(n Node, parts []string, pos bool) []string {
	switch v := n.(type) {
	case Str:
		return AddText(parts, string(v))
	case Seq:
		for _, x := range v {
			parts = flattenNode(x, parts, pos)
		}
		return parts
	}
	return append(parts, DumpNode(n, pos))
}
