package props

import (
	"bytes"
	"errors"
	"fmt"
	"net/http/httptest"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

// WildCase is documents which may be anything.
type WildCase struct {
	Files map[string]core.Raw
	Allow bool
}

func wildFiles(r gen.R, refs bool, fns []gen.Fn, strs map[string][]string) map[string]core.Raw {
	files := map[string]core.Raw{}
	for i, n := range []string{"index.lit", "other.lit", "sub/third.lit"} {
		w := &gen.Wild{R: r, Refs: refs, Fns: fns, Strs: strs, Budget: 40}
		d := w.Doc(4, 5)
		if r.Chance(90) {
			d = append(gen.Doc{gen.Alone(gen.Call("title", gen.T(fmt.Sprint("Title ", i)), gen.T(fmt.Sprint("t", i+1))))}, d...)
		}
		p := gen.Printer{Vary: &r, CRLF: gen.Pick(r, 0, 0, 0, 100), Comments: gen.Pick(r, 0, 0, 10), Rewrap: 10}
		files[n] = core.Raw(p.Print(d))
	}
	return files
}

// everything runs all which can be done with a document; any outcome but a
// crash is fine, but no failure may be silent.
func everything(ctx *core.Ctx, files map[string]core.Raw, allow bool) error {
	fs := map[string]string{}
	for n, s := range files {
		fs[n] = string(s)
	}
	src := filepath.Join(ctx.Dir(), "src")
	if err := impl.WriteFiles(src, fs); err != nil {
		core.Fatal("%s", err)
	}
	in, out := filepath.Join(src, "index.lit"), filepath.Join(ctx.Dir(), "out")
	start := time.Now()
	buildErr := impl.Build(&booklitcmd.Command{In: in, Out: out, SaveSearchIndex: true, AllowBrokenReferences: allow})
	if buildErr != nil {
		e := impl.Err(buildErr)
		ctx.Class("error %s", e.Kind)
		var pe booklit.PrettyError
		if errors.As(buildErr, &pe) {
			var b bytes.Buffer
			pe.PrettyPrint(&b)
			if b.Len() == 0 {
				return fmt.Errorf("nothing is printed for %v", buildErr)
			}
			b.Reset()
			if err := pe.PrettyHTML(&b); err != nil {
				return fmt.Errorf("rendering the error page for %v: %v", buildErr, err)
			}
		}
		w := httptest.NewRecorder()
		booklit.ErrorResponse(w, buildErr)
		if w.Body.Len() == 0 || strings.Contains(w.Body.String(), "failed to render error page") {
			return fmt.Errorf("error page for %v: %s", buildErr, w.Body.String())
		}
	} else {
		ctx.Class("built")
		got, err := impl.ReadOut(out)
		if err != nil {
			return err
		}
		for n, s := range got {
			if strings.HasSuffix(n, ".html") && !strings.Contains(s, "</html>") {
				return fmt.Errorf("%s is not complete, but the build succeeded", n)
			}
		}
		if len(got) < 2 {
			return fmt.Errorf("the build succeeded, but only wrote %v", impl.Keys(got))
		}
	}
	txt := &booklitcmd.Command{In: in, Out: filepath.Join(ctx.Dir(), "txt"), AllowBrokenReferences: allow}
	txt.TextEngine.FileExtension = "txt"
	_ = impl.Build(txt)

	srv := impl.NewServer(in, out, "")
	for _, p := range []string{"/", "/t1.html", "/t2.html", "/nope.html", "/.html"} {
		code, body, _ := impl.Get(srv, p)
		if code != 200 && code != 404 && code != 500 && code != 301 {
			return fmt.Errorf("GET %s: %d %s", p, code, body)
		}
	}
	if d := time.Since(start); d > 30*time.Second {
		ctx.Class("slow")
	}
	booklit.AllowBrokenReferences = false
	return nil
}

func init() {
	core.Register("C03", "bytes", core.Opts{
		Rule:  "documents which are arbitrary sequences of delimiters, words and bytes; non-trivial when not empty",
		Quick: 1500, Thorough: 60000,
	}, gen.Of(func(r gen.R) WildCase {
		s := soupGen(4)(r).Src
		if r.Chance(50) {
			s = balancedSoup(r).Src
		}
		if r.Chance(6) {
			s = core.Raw((&gen.G{R: r}).Mutate(gen.Pick(r, gen.Corpus...)))
		}
		return WildCase{Files: map[string]core.Raw{"index.lit": s, "other.lit": soupGen(0)(r).Src}, Allow: r.Chance(20)}
	}), func(ctx *core.Ctx, c WildCase) error {
		ctx.NonTrivial(len(c.Files["index.lit"]) > 0)
		if !utf8.ValidString(string(c.Files["index.lit"])) {
			ctx.Class("invalid UTF-8")
		}
		return everything(ctx, c.Files, c.Allow)
	})
	core.Register("C03", "calls", core.Opts{
		Rule:  "calls of every base function with any number and kind of arguments, anywhere, including references from titles and to themselves, and cyclic includes; non-trivial with at least three calls",
		Quick: 2500, Thorough: 100000,
	}, gen.Of(func(r gen.R) WildCase {
		return WildCase{Files: wildFiles(r, true, gen.BaseFns, nil), Allow: r.Chance(25)}
	}), func(ctx *core.Ctx, c WildCase) error {
		n := 0
		for _, s := range c.Files {
			n += strings.Count(string(s), "\\")
		}
		ctx.NonTrivial(n >= 6)
		return everything(ctx, c.Files, c.Allow)
	})
	core.Register("C03", "large", core.Opts{
		Rule:  "deeply nested calls, sections, lists and comments, long lines, and many sections; all are non-trivial",
		Quick: 40, Thorough: 1500, HangAfter: 120 * time.Second,
	}, gen.Of(func(r gen.R) WildCase {
		var b strings.Builder
		b.WriteString("\\title{T}{t1}\n\n")
		n := 1 + r.Intn(300)
		switch r.Intn(8) {
		case 0:
			b.WriteString(strings.Repeat("\\bold{", n) + "x" + strings.Repeat("}", n))
		case 1:
			n = 20 + n/2
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "\\section{\n\\title{S%d}\n\n\\target{a%d}\n\n", i, i)
			}
			b.WriteString(strings.Repeat("\n}\n", n))
		case 2:
			b.WriteString(strings.Repeat("word \\bold{x} ", n*20))
		case 3:
			b.WriteString("\\table-of-contents\n\n\\split-sections\n\n")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "\\section{\n\\title{S%d}\n\n\\reference{s%d}\n}\n\n", i, (i*7)%n)
			}
		case 4:
			b.WriteString("x" + strings.Repeat("{-", n) + "c" + strings.Repeat("-}", n) + "y")
		case 5:
			b.WriteString(strings.Repeat("\\list{", n/2) + "x" + strings.Repeat("}", n/2))
		case 6:
			b.WriteString("\\code{{{\n" + strings.Repeat("  long line \\{}\n", n*10) + "}}}\n")
		case 7:
			for i := 0; i < n/4; i++ {
				fmt.Fprintf(&b, "\\section{\n\\title{\\reference{c%d}}{c%d}\n}\n\n", (i+1)%(n/4), i)
			}
			b.WriteString("x")
		}
		return WildCase{Files: map[string]core.Raw{"index.lit": core.Raw(b.String())}}
	}), func(ctx *core.Ctx, c WildCase) error {
		ctx.NonTrivial(true)
		return everything(ctx, c.Files, c.Allow)
	})
}
