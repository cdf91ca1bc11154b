package props

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

// LayoutCase is the same documents, laid out in two ways.
type LayoutCase struct {
	A, B map[string]string
	In   string
}

// buildIn builds files in a fixed place, so that paths are the same.
func buildIn(ctx *core.Ctx, name string, files map[string]string, in string, index bool) (map[string]string, error, error) {
	dir := filepath.Join(ctx.Dir(), name)
	if err := impl.WriteFiles(filepath.Join(dir, "src"), files); err != nil {
		core.Fatal("write: %s", err)
	}
	goErr := impl.Build(&booklitcmd.Command{In: filepath.Join(dir, "src", in), Out: filepath.Join(dir, "out"), SaveSearchIndex: index})
	out, err := impl.ReadOut(filepath.Join(dir, "out"))
	return out, goErr, err
}

// errClass is an error without its location.
func errClass(err error) string {
	if err == nil {
		return "success"
	}
	e := impl.Err(err)
	s := e.Kind + " " + e.Fn + " " + e.Tag
	if e.Inner != nil {
		s += " " + e.Inner.Kind
	}
	return s
}

func init() {
	p := gen.Base()
	p.Special, p.TOC, p.Section = 20, 4, 16
	core.Register("C02", "layout", core.Opts{
		Rule: "the same document tree printed plainly and with a varied layout (linebreak style, blank lines, indentation, nested comments, rewrapped lines, redundant braces, shifted blocks); " +
			"non-trivial when the sources differ in at least 5% of their length or 10 bytes, and the build succeeds",
		Quick: 4000, Thorough: 100000,
	}, gen.Of(func(r gen.R) LayoutCase {
		q := p
		q.Layout = gen.Printer{}
		if r.Chance(10) {
			q.Err, q.Unknown = 2, 3
		}
		g, in := gen.Site(r, q)
		c := LayoutCase{A: map[string]string{}, B: map[string]string{}, In: in}
		for _, n := range impl.Keys(g.Docs) {
			plain := gen.Printer{}
			c.A[n] = plain.Print(g.Docs[n])
			vary := gen.Printer{Vary: &r, CRLF: gen.Pick(r, 0, 0, 100, 50), Comments: gen.Pick(r, 0, 15, 40), Rewrap: gen.Pick(r, 0, 20, 50)}
			c.B[n] = vary.Print(g.Docs[n])
		}
		return c
	}), func(ctx *core.Ctx, c LayoutCase) error {
		outA, errA, err := buildIn(ctx, "a", c.A, c.In, true)
		if err != nil {
			return err
		}
		outB, errB, err := buildIn(ctx, "b", c.B, c.In, true)
		if err != nil {
			return err
		}
		if a, b := errClass(errA), errClass(errB); a != b {
			return fmt.Errorf("plain layout: %s (%v)\nvaried layout: %s (%v)", a, errA, b, errB)
		}
		if errA != nil {
			ctx.Class("error")
			var pe booklit.ParseError
			if errors.As(errA, &pe) {
				return fmt.Errorf("the generated document does not parse: %v", errA)
			}
			return nil
		}
		d := 0
		for n := range c.A {
			x, y := c.A[n], c.B[n]
			if x != y {
				d += 5
			}
			if len(y) > len(x) {
				d += len(y) - len(x)
			}
		}
		ctx.NonTrivial(d >= 10)
		if err := sameNames("output files", impl.Keys(outA), impl.Keys(outB)); err != nil {
			return err
		}
		for _, n := range impl.Keys(outA) {
			if !strings.HasSuffix(n, ".html") {
				if err := impl.Same(n, outA[n], outB[n]); err != nil {
					return err
				}
				continue
			}
			if err := impl.Same(n, impl.HTML(outA[n]), impl.HTML(outB[n])); err != nil {
				return err
			}
		}
		return nil
	})
}
