package gen

import "fmt"

// Fn is a function, with how many arguments it takes.
type Fn struct {
	Name     string
	Min, Max int
	Str      []int // arguments which are strings
}

// BaseFns are the functions available everywhere.
var BaseFns = []Fn{
	{"bold", 1, 1, nil}, {"italic", 1, 1, nil}, {"code", 1, 1, nil}, {"larger", 1, 1, nil}, {"smaller", 1, 1, nil}, {"strike", 1, 1, nil},
	{"superscript", 1, 1, nil}, {"subscript", 1, 1, nil}, {"inset", 1, 1, nil}, {"aside", 1, 1, nil}, {"aux", 1, 1, nil},
	{"link", 2, 2, []int{1}}, {"reference", 1, 3, []int{0}}, {"target", 1, 3, []int{0}}, {"list", 0, 3, nil}, {"ordered-list", 0, 3, nil},
	{"image", 1, 3, []int{0, 1, 2}}, {"table", 0, 3, nil}, {"table-row", 0, 3, nil}, {"definitions", 0, 2, nil}, {"definition", 2, 2, nil},
	{"set-partial", 2, 2, []int{0}}, {"section", 1, 1, nil}, {"title", 1, 3, []int{1, 2}}, {"split-sections", 0, 0, nil}, {"single-page", 0, 0, nil},
	{"omit-children-from-table-of-contents", 0, 0, nil}, {"table-of-contents", 0, 0, nil}, {"styled", 1, 1, []int{0}}, {"use-plugin", 1, 1, []int{0}},
	{"include-section", 1, 1, []int{0}},
}

// Wild makes calls of any function anywhere.
type Wild struct {
	R
	// Refs allows references, which may be circular.
	Refs bool
	// Fns are the functions to call.
	Fns []Fn
	// Strs are string arguments by function.
	Strs map[string][]string
	n    int
	// Budget limits the number of calls.
	Budget int
}

// Inline makes an inline item.
func (w *Wild) Inline(depth int) Inline {
	if depth <= 0 || w.Budget <= 0 || w.Chance(45) {
		return Text(Pick(w.R, "a", "b c", "x", "<&>", "é", "-", "\\", "{", "1"))
	}
	if w.Chance(5) {
		return Interp{Text("i")}
	}
	w.Budget--
	fn := w.Fns[w.Intn(len(w.Fns))]
	if !w.Refs {
		for fn.Name == "reference" {
			fn = w.Fns[w.Intn(len(w.Fns))]
		}
	}
	n := w.Range(fn.Min, fn.Max)
	if w.Chance(4) {
		n = w.Intn(4)
	}
	inv := &Inv{Fn: fn.Name}
	for i := 0; i < n; i++ {
		str := false
		for _, s := range fn.Str {
			str = str || s == i
		}
		if str && w.Chance(85) {
			inv.Args = append(inv.Args, T(w.str(fn.Name)))
			continue
		}
		inv.Args = append(inv.Args, w.Arg(depth-1))
	}
	return inv
}

func (w *Wild) str(fn string) string {
	if s, ok := w.Strs[fn]; ok {
		return Pick(w.R, s...)
	}
	switch fn {
	case "reference", "target", "title":
		w.n++
		return Pick(w.R, "t1", "t2", "t3", fmt.Sprint("u", w.n), fmt.Sprint("u", w.n), "a")
	case "use-plugin":
		return Pick(w.R, "baselit", "baselit", "nope", "")
	case "styled":
		return Pick(w.R, "bold", "nope", "section", "list", "toc", "")
	case "include-section":
		return Pick(w.R, "other.lit", "other.lit", "index.lit", "missing.lit", "", ".", "sub/third.lit")
	case "set-partial":
		return Pick(w.R, "A", "B", "")
	}
	return Pick(w.R, "", "x", "a b")
}

// Line makes inline items.
func (w *Wild) Line(depth int) []Inline {
	n := 1 + w.Weighted(5, 3, 1)
	var out []Inline
	for i := 0; i < n; i++ {
		out = append(out, w.Inline(depth))
	}
	return out
}

// Arg makes an argument of any kind.
func (w *Wild) Arg(depth int) Arg {
	switch w.Weighted(10, 4, 2, 1, 1, 1) {
	case 1:
		return Arg{Kind: ABlocks, Blocks: w.Doc(depth, 3)}
	case 2:
		a := Arg{Kind: APre}
		for n := w.Intn(3); n > 0; n-- {
			a.Lines = append(a.Lines, BLine{Indent: Pick(w.R, "", "  ", "\t"), Words: w.Line(depth)})
		}
		return a
	case 3:
		a := Arg{Kind: AVerb}
		for n := w.Intn(3); n > 0; n-- {
			a.Lines = append(a.Lines, BLine{Indent: Pick(w.R, "", "  ", "\t"), Text: Pick(w.R, "v", "\\x", "{", "")})
		}
		return a
	case 4:
		return Arg{Kind: AVerbIn, Text: Pick(w.R, "v", "", "\\x{y} ", "{")}
	case 5:
		return Arg{Kind: AEmpty}
	}
	return Line(w.Line(depth)...)
}

// Doc makes paragraphs.
func (w *Wild) Doc(depth, max int) Doc {
	var d Doc
	for n := w.Range(1, max); n > 0; n-- {
		b := Block{}
		for m := 1 + w.Weighted(5, 2); m > 0; m-- {
			b.Lines = append(b.Lines, w.Line(depth))
		}
		d = append(d, b)
	}
	return d
}
