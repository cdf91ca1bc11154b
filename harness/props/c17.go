package props

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

// ConcCase is documents which are requested at the same time.
type ConcCase struct {
	Files    map[string]string
	Tmpl     map[string]string
	Gets     [][]string // by client
	Changing string     `json:",omitempty"` // src/... or tmpl/...
	Versions []string   `json:",omitempty"`
	Swaps    int
	Loaders  int // clients of the processor only
}

// letters are some which nobody has used yet.
func letters(r gen.R) string {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(r.Range('a', 'z'))
	}
	return string(b)
}

func genConc(r gen.R) ConcCase {
	p := gen.Base()
	p.MaxSecs, p.MaxBlocks, p.Include, p.Split, p.SplitRoot, p.Target, p.Ref = 7, 4, 20, 20, 40, 5, 8
	p.Index = 92
	p.Plugin, p.UsePlug = "vt", 60
	p.Inl = append(p.Inl,
		func(g *gen.G) gen.Inline { return gen.Call("v-lazy", gen.T("lazy")) },
		func(g *gen.G) gen.Inline { return gen.Call("v-count") },
		func(g *gen.G) gen.Inline { return gen.Call("v-loc", gen.Line(gen.Call("bold", gen.T("x")))) },
		func(g *gen.G) gen.Inline { return gen.Call("v-str", gen.T("s")) })
	p.PlugInl = 6
	if r.Chance(10) {
		p.Err = 1
	}
	g, _ := gen.Site(r, p)
	c := ConcCase{Files: g.Files, Tmpl: map[string]string{}}
	if r.Chance(50) {
		for n := r.Range(1, 3); n > 0; n-- {
			name := gen.Pick(r, impl.Keys(tmplVariants)...)
			c.Tmpl[name] = tmplVariants[name][0]
		}
	}
	paths := []string{"/", "/index.html", "/nope.html", "/file.txt"}
	for _, t := range g.Tags {
		paths = append(paths, "/"+t+".html")
	}
	for n := r.Range(2, 6); n > 0; n-- {
		var gets []string
		for m := r.Range(1, 5); m > 0; m-- {
			gets = append(gets, gen.Pick(r, paths...))
		}
		c.Gets = append(c.Gets, gets)
	}
	c.Loaders = r.Intn(3)
	if r.Chance(60) {
		c.Swaps = r.Range(1, 6)
		if len(c.Tmpl) > 0 && r.Chance(40) {
			n := gen.Pick(r, impl.Keys(c.Tmpl)...)
			c.Changing = "tmpl/" + n
			c.Versions = []string{c.Tmpl[n], gen.Pick(r, tmplVariants[n]...)}
		} else {
			n := gen.Pick(r, impl.Keys(c.Files)...)
			c.Changing = "src/" + n
			c.Versions = []string{c.Files[n], c.Files[n] + gen.Pick(r, "\n\nMore.\n", "\n\n\\nope\n", "\n\n\\bold{", "\n\n\\nope-"+letters(r)+"\n", "\n\n\\section{\n\\title{New}{new}\n}\n")}
		}
	}
	return c
}

func runConc(ctx *core.Ctx, c ConcCase) error {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	dir := ctx.Dir()
	src, tmpl := filepath.Join(dir, "src"), filepath.Join(dir, "tmpl")
	if err := impl.WriteFiles(src, c.Files); err != nil {
		core.Fatal("%s", err)
	}
	_ = os.MkdirAll(tmpl, 0o755)
	if err := impl.WriteFiles(tmpl, c.Tmpl); err != nil {
		core.Fatal("%s", err)
	}
	if err := impl.WriteFiles(filepath.Join(dir, "static"), map[string]string{"file.txt": "a file"}); err != nil {
		core.Fatal("%s", err)
	}
	if len(c.Tmpl) == 0 {
		tmpl = ""
	}
	in := filepath.Join(src, "index.lit")
	clock := int64(0)
	put := func(v string) {
		clock++
		p := filepath.Join(dir, c.Changing)
		tmp := filepath.Join(dir, fmt.Sprint("swap", clock))
		at := time.Unix(1600000000+clock, clock)
		err := os.WriteFile(tmp, []byte(v), 0o644)
		if err == nil {
			err = os.Chtimes(tmp, at, at)
		}
		if err == nil {
			err = os.Rename(tmp, p)
		}
		if err != nil {
			core.Fatal("%s", err)
		}
	}
	newServer := func() http.Handler { return impl.NewServer(in, filepath.Join(dir, "static"), tmpl) }
	ask := func(h http.Handler, p string) string {
		code, body, _ := impl.Get(h, p)
		return fmt.Sprintf("%d\n%s", code, body)
	}
	dump := func(proc *load.Processor) string {
		s, err := proc.LoadFile(in, impl.Base())
		if err != nil {
			return err.Error()
		}
		html, err := impl.RenderPage(render.NewHTMLEngine(), s)
		return fmt.Sprint(impl.DumpSection(s), html, err)
	}

	// what the answers may be
	versions := c.Versions
	if c.Changing == "" {
		versions = []string{""}
	}
	want := map[string][]string{}
	var wantLoad []string
	answers := func() {
		for _, v := range versions {
			if c.Changing != "" {
				put(v)
			}
			for _, gets := range c.Gets {
				for _, p := range gets {
					want[p] = append(want[p], ask(newServer(), p))
				}
			}
			wantLoad = append(wantLoad, dump(&load.Processor{}))
		}
	}
	among := func(what, got string, want []string) error {
		for _, w := range want {
			if got == w {
				return nil
			}
			// the page shows the source of the error as it is by then
			if c.Changing != "" && strings.HasPrefix(got, "500\n") && strings.HasPrefix(w, "500\n") {
				return nil
			}
		}
		return impl.Same(what, want[0], got)
	}

	srv := newServer()
	proc := &load.Processor{}
	var (
		wg   sync.WaitGroup
		mu   sync.Mutex
		fail error
	)
	note := func(err error) {
		if err != nil {
			mu.Lock()
			defer mu.Unlock()
			if fail == nil {
				fail = err
			}
		}
	}
	start := make(chan struct{})
	client := func(f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					note(fmt.Errorf("panic: %v", p))
				}
			}()
			<-start
			note(f())
		}()
	}
	// the answers are compared later: to know them before would be to have used
	// everything once, by one client
	got := make([][]string, len(c.Gets))
	for i, gets := range c.Gets {
		i, gets := i, gets
		client(func() error {
			for _, p := range gets {
				got[i] = append(got[i], ask(srv, p))
			}
			return nil
		})
	}
	gotLoad := make([][]string, c.Loaders)
	for i := 0; i < c.Loaders; i++ {
		i := i
		client(func() error {
			for j := 0; j < 2; j++ {
				gotLoad[i] = append(gotLoad[i], dump(proc))
			}
			return nil
		})
	}
	if c.Changing != "" {
		client(func() error {
			for i := 0; i < c.Swaps; i++ {
				put(versions[i%len(versions)])
				runtime.Gosched()
			}
			return nil
		})
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(45 * time.Second):
		return fmt.Errorf("there is no answer to some request")
	}
	if fail != nil {
		return fail
	}
	// when everything is quiet, everything is up to date
	for _, gets := range c.Gets {
		for _, p := range gets {
			if err := impl.Same("the last answers for "+p, ask(newServer(), p), ask(srv, p)); err != nil {
				return err
			}
		}
	}
	answers()
	for i, gets := range c.Gets {
		for j, p := range gets {
			if err := among("answers for "+p, got[i][j], want[p]); err != nil {
				return err
			}
		}
	}
	for _, g := range gotLoad {
		for _, s := range g {
			if err := among("sections", s, wantLoad); err != nil {
				return err
			}
		}
	}
	ctx.NonTrivial(len(c.Gets) >= 2)
	if c.Changing != "" {
		ctx.Class("changing %s", c.Changing[:3])
	}
	ctx.Class("clients %d", len(c.Gets)+c.Loaders)
	return nil
}

func init() {
	core.Register("C17", "clients", core.Opts{
		Rule:  "up to 6 clients which each request up to 5 pages at the same time, others which load the documents at the same time, and a file or template which is replaced meanwhile: each answer must be that for one of its versions (for an error while a file is replaced: the status), with no data race and no deadlock, and the last answers must be up to date; non-trivial with at least two clients",
		Quick: 700, Thorough: 40000, HangAfter: 150 * time.Second,
	}, gen.Of(genConc), runConc)
}
