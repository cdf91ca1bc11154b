package props

import (
	"strings"

	"verif/harness/core"
	"verif/harness/gen"
)

// pluginFns are the functions of the test plugin vt.
var pluginFns = []gen.Fn{
	{Name: "v-str", Min: 1, Max: 1, Str: []int{0}}, {Name: "v-str", Min: 1, Max: 1}, {Name: "v-two", Min: 2, Max: 2}, {Name: "v-content", Min: 1, Max: 1},
	{Name: "v-var", Min: 1, Max: 4}, {Name: "v-strs", Min: 0, Max: 4}, {Name: "v-node", Min: 1, Max: 1}, {Name: "v-nodes", Min: 1, Max: 3},
	{Name: "v-none", Min: 1, Max: 1}, {Name: "v-nil"}, {Name: "v-nil-err", Min: 1, Max: 1}, {Name: "v-err", Min: 1, Max: 1, Str: []int{0}},
	{Name: "v-maybe", Min: 2, Max: 2, Str: []int{0}}, {Name: "v-bad-var"},
	{Name: "v-count"}, {Name: "v-count"}, {Name: "v-count-with", Min: 1, Max: 1}, {Name: "v-loc", Min: 0, Max: 3}, {Name: "v-lazy", Min: 1, Max: 1}, {Name: "v-later", Min: 1, Max: 1},
	{Name: "v-opt", Min: 2, Max: 2, Str: []int{0}}, {Name: "v-raw", Min: 1, Max: 1}, {Name: "v-block", Min: 1, Max: 1},
	{Name: "v-part", Min: 3, Max: 3}, {Name: "v-title"}, {Name: "v-get", Min: 1, Max: 1, Str: []int{0}},
	{Name: "v-tag", Min: 2, Max: 2, Str: []int{0}}, {Name: "v-anchor", Min: 3, Max: 3, Str: []int{0}},
}

// failFns fail.
var failFns = []gen.Fn{
	{Name: "v-pretty", Min: 1, Max: 1}, {Name: "v-pretty-content", Min: 1, Max: 1}, {Name: "v-wrapped", Min: 1, Max: 1}, {Name: "v-wrapped-content", Min: 1, Max: 1}, {Name: "v-bad-in", Min: 2, Max: 2}, {Name: "v-bad-var", Min: 1, Max: 1},
	{Name: "v-bad-named", Min: 1, Max: 1}, {Name: "v-bad-face", Min: 1, Max: 1}, {Name: "v-bad-concrete", Min: 1, Max: 1}, {Name: "v-bad-bytes", Min: 1, Max: 1},
	{Name: "v-bad-out"}, {Name: "v-bad-str"}, {Name: "v-bad-two"}, {Name: "v-bad-three"}, {Name: "v-lazy-block", Min: 1, Max: 1}, {Name: "v-lazy-err", Min: 1, Max: 1},
	{Name: "v-err", Min: 1, Max: 1}, {Name: "v-nope", Min: 0, Max: 2}, {Name: "v-Str", Min: 1, Max: 1}, {Name: "vstr", Min: 1, Max: 1}, {Name: "v-str-", Min: 1, Max: 1},
}

var flowFns = []gen.Fn{
	{Name: "bold", Min: 1, Max: 1}, {Name: "code", Min: 1, Max: 1}, {Name: "list", Min: 0, Max: 2}, {Name: "aux", Min: 1, Max: 1}, {Name: "inset", Min: 1, Max: 1},
	{Name: "set-partial", Min: 2, Max: 2, Str: []int{0}}, {Name: "section", Min: 1, Max: 1}, {Name: "link", Min: 2, Max: 2, Str: []int{1}}, {Name: "image", Min: 1, Max: 1, Str: []int{0}},
}

// pluginSite makes calls of a plugin anywhere.
func pluginSite(r gen.R) SiteCase {
	c := SiteCase{Files: map[string]string{}, In: "index.lit", Allow: r.Chance(10)}
	fns := append(append([]gen.Fn{}, pluginFns...), flowFns...)
	if r.Chance(25) {
		fns = append(fns, failFns...)
	}
	strs := map[string][]string{
		"v-err": {"", "", "", "", "oops"}, "v-maybe": {"ok", "ok", "ok", "ok", "ok", "", "fail"},
		"v-opt": {"t1", "v1", "v2", "v3", "v2", "nowhere", "a"}, "reference": {"t1", "v1", "v2", "v3", "a"}, "v-get": {"A", "B", ""}, "v-tag": {"v1", "v2", "v3"}, "v-anchor": {"v1", "v4"},
	}
	use := gen.Alone(gen.Call("use-plugin", gen.T("vt")))
	for i, n := range []string{"index.lit", "other.lit"} {
		w := &gen.Wild{R: r, Fns: fns, Strs: strs, Budget: 30}
		d := w.Doc(4, 4)
		d = append(gen.Doc{gen.Alone(gen.Call("title", gen.T("T"), gen.T([]string{"t1", "t2"}[i])))}, d...)
		at := 0
		if r.Chance(10) {
			at = r.Intn(len(d) + 1)
		}
		if !r.Chance(3) {
			d = append(d[:at:at], append(gen.Doc{use}, d[at:]...)...)
		}
		if i == 0 && r.Chance(30) {
			d = append(d, gen.Alone(gen.Call("include-section", gen.T("other.lit"))))
		}
		p := gen.Printer{Vary: &r, Comments: gen.Pick(r, 0, 0, 10), Rewrap: 10}
		c.Files[n] = p.Print(d)
	}
	return c
}

func init() {
	core.Register("C05", "calls", core.Opts{
		Rule:  "calls of a plugin with methods of many signatures, with any arguments, nested anywhere, compared with a model of the plugin: the evaluated sections, and the rendered pages; non-trivial with at least three calls of the plugin",
		Quick: 6000, Thorough: 200000,
	}, gen.Of(pluginSite), func(ctx *core.Ctx, c SiteCase) error {
		ctx.NonTrivial(strings.Count(joinFiles(c), "\\v-") >= 3)
		_, _, rerr, err := loadBoth(ctx, c)
		if err != nil {
			return err
		}
		if rerr != nil {
			ctx.Class("error %s", rerr.Kind)
			return nil
		}
		b, err := buildBoth(ctx, c, buildOpts{})
		if b != nil && b.Err != nil {
			ctx.Class("render error %s", b.Err.Kind)
		} else {
			ctx.Class("built")
		}
		return err
	})
}
