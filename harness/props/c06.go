package props

import (
	"fmt"
	"path"
	"strings"

	"verif/harness/core"
	"verif/harness/gen"
)

type scope struct {
	gen.R
	files map[string]string
	n     int
	calls int
	slip  int
}

// doc makes a section where some plugins are available already.
func (s *scope) doc(avail []string, depth int, dir string) gen.Doc {
	s.n++
	d := gen.Doc{gen.Alone(gen.Call("title", gen.T(fmt.Sprint("T", s.n)), gen.T(fmt.Sprint("t", s.n))))}
	avail = append([]string{}, avail...)
	for k := s.Range(1, 5); k > 0; k-- {
		switch s.Weighted(6, 4, 3, 2) {
		case 0:
			d = append(d, s.call(avail))
		case 1:
			p := gen.Pick(s.R, "va", "vb", "vc", "vt", "baselit")
			if s.Chance(s.slip) {
				p = gen.Pick(s.R, "VA", "Vb", "v-c", "v", "va vb", "base", "Baselit")
			}
			avail = append(avail, p)
			d = append(d, gen.Alone(gen.Call("use-plugin", gen.T(p))))
		case 2:
			if depth < 4 && s.n < 12 {
				d = append(d, gen.Alone(gen.Call("section", gen.Arg{Kind: gen.ABlocks, Blocks: s.doc(avail, depth+1, dir)})))
			}
		case 3:
			if depth < 4 && s.n < 12 {
				rel := gen.Pick(s.R, "", "sub/") + fmt.Sprintf("f%d.lit", s.n)
				s.file(path.Join(dir, rel), depth+1)
				d = append(d, gen.Alone(gen.Call("include-section", gen.T(rel))))
			}
		}
	}
	return append(d, s.call(avail))
}

func (s *scope) file(name string, depth int) {
	d := s.doc([]string{"baselit"}, depth, path.Dir(name))
	p := gen.Printer{Vary: &s.R, Rewrap: 5}
	s.files[name] = p.Print(d)
}

// call calls a function, which is usually available.
func (s *scope) call(avail []string) gen.Block {
	s.calls++
	has := func(p string) bool {
		for _, a := range avail {
			if a == p {
				return true
			}
		}
		return s.Chance(s.slip)
	}
	fs := []gen.Inline{gen.Call("bold", gen.T("x"))}
	if has("va") || has("vb") || has("vc") {
		fs = append(fs, gen.Call("v-who"), gen.Call("v-who"))
	}
	if has("va") {
		fs = append(fs, gen.Call("v-only-a"), gen.Call("v-only-a"))
	}
	if has("vb") {
		fs = append(fs, gen.Call("v-only-b", gen.T("x")))
	}
	if has("vt") {
		fs = append(fs, gen.Call("v-count"), gen.Call("v-count"))
	}
	for _, a := range avail {
		if a == "va" {
			fs = append(fs, gen.Call("v-pair", gen.T("p")))
			break
		}
		if a == "vc" {
			fs = append(fs, gen.Call("v-pair", gen.T("p"), gen.T("q")))
			break
		}
	}
	for _, a := range avail {
		// each of them takes other arguments
		if n, ok := map[string]int{"va": s.Intn(4), "vb": 1, "vc": 3}[a]; ok {
			if s.Chance(20) {
				n = s.Intn(5)
			}
			args := []gen.Arg{}
			for i := 0; i < n; i++ {
				args = append(args, gen.T(fmt.Sprint(i)))
			}
			fs = append(fs, gen.Call("v-sum", args...), gen.Call("v-sum", args...))
			break
		}
	}
	if has("vb") {
		fs = append(fs, gen.Call("italic", gen.T("i")))
		if s.Chance(20) {
			fs = append(fs, gen.Call("italic", gen.T("i"), gen.T("j"))) // which is a function of vb only
		}
	}
	x := gen.Pick(s.R, fs...)
	if s.Chance(20) {
		x = gen.Call("italic", gen.Line(x))
	}
	return gen.Alone(gen.Text("call "), x, gen.Text("."))
}

func init() {
	core.Register("C06", "scoping", core.Opts{
		Rule:  "sections and included files nested up to 5 deep, each using some of 5 plugins at any point, 3 of which define the same functions, with other numbers of arguments, and calling functions throughout; compared with a model of which plugin is called, or that it is undefined; non-trivial with at least two files or sections",
		Quick: 4000, Thorough: 200000,
	}, gen.Of(func(r gen.R) SiteCase {
		s := &scope{R: r, files: map[string]string{}, slip: gen.Pick(r, 0, 0, 0, 0, 2, 6)}
		s.file("index.lit", 0)
		return SiteCase{Files: s.files, In: "index.lit"}
	}), func(ctx *core.Ctx, c SiteCase) error {
		src := joinFiles(c)
		ctx.NonTrivial(strings.Contains(src, "\\use-plugin") && (len(c.Files) > 1 || strings.Contains(src, "\\section")))
		_, _, rerr, err := loadBoth(ctx, c)
		if rerr != nil {
			ctx.Class("error %s", rerr.Kind)
		}
		if err != nil || rerr != nil {
			return err
		}
		ctx.Class("files %d", len(c.Files))
		_, err = buildBoth(ctx, c, buildOpts{})
		return err
	})
}
