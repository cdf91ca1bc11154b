package props

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

func genBroken(r gen.R) SiteCase {
	p := gen.Base()
	p.Ref, p.Unknown, p.Dup, p.RefTitles, p.TOC, p.Split, p.SplitRoot = 14, gen.Pick(r, 0, 15, 40), gen.Pick(r, 0, 15, 40), 12, 4, 25, 40
	if r.Chance(15) {
		p.Err, p.Syntax = gen.Pick(r, 0, 2), gen.Pick(r, 0, 30)
	}
	if r.Chance(30) {
		p.Plugin, p.UsePlug, p.PlugInl = "vt", 100, 8
		p.Inl = append(p.Inl, func(g *gen.G) gen.Inline {
			return gen.Call("v-opt", gen.T(gen.Pick(g.R, "nowhere", "plain-0", "tag-1")), gen.T(g.Words()))
		})
	}
	c := siteGen(p)(r)
	c.Allow = true
	return c
}

func init() {
	core.Register("C27", "broken", core.Opts{
		Rule:  "sites with references to unknown and ambiguous tags, in text, titles and listings, and now and then with other mistakes, built with --allow-broken-references and a search index: pages as the model has them, with the display, or a note, for each broken reference, and failure for other mistakes only; non-trivial when a build without the flag fails for a reference",
		Quick: 4000, Thorough: 120000,
	}, gen.Of(genBroken), func(ctx *core.Ctx, c SiteCase) error {
		b, err := buildBoth(ctx, c, buildOpts{Index: true})
		if err != nil {
			return err
		}
		in := filepath.Join(ctx.Dir(), "src", c.In)
		// naming an unknown section is another kind of mistake
		if len(joinFiles(c))%8 == 0 {
			unknown := &booklitcmd.Command{In: in, Out: filepath.Join(ctx.Dir(), "unknown"), SectionTag: "not-a-tag-of-any", AllowBrokenReferences: true}
			if impl.Build(unknown) == nil {
				return fmt.Errorf("an unknown tag given with --section-tag is allowed")
			}
		}
		booklit.AllowBrokenReferences = false
		defer func() { booklit.AllowBrokenReferences = false }()
		out := filepath.Join(ctx.Dir(), "strict")
		goErr := impl.Build(&booklitcmd.Command{In: in, Out: out, SaveSearchIndex: true})
		kind := ""
		if goErr != nil {
			kind = impl.Err(goErr).Kind
		}
		if goErr != nil && (kind == "unknown-tag" || kind == "ambiguous") {
			ctx.NonTrivial(true)
			ctx.Class("%s, %v with the flag", kind, b.Err == nil)
			return nil
		}
		// the flag changes nothing else
		ctx.Class("as without the flag")
		if (goErr == nil) != (b.GoErr == nil) {
			return fmt.Errorf("without the flag: %v; with it: %v", goErr, b.GoErr)
		}
		if goErr != nil {
			var a, d booklit.PrettyError
			if errors.As(goErr, &a) != errors.As(b.GoErr, &d) {
				return fmt.Errorf("without the flag: %v; with it: %v", goErr, b.GoErr)
			}
			return nil
		}
		plain, err := impl.ReadOut(out)
		if err != nil {
			return err
		}
		// a reference which became text before its tag was defined
		for n, s := range plain {
			if strings.Contains(n+s, "{broken reference: ") {
				ctx.Class("a reference as text")
				return nil
			}
		}
		if err := sameNames("output files", impl.Keys(plain), impl.Keys(b.Out)); err != nil {
			return err
		}
		for _, n := range impl.Keys(plain) {
			if err := impl.Same(n+" with the flag", plain[n], b.Out[n]); err != nil {
				return err
			}
		}
		return nil
	})
	core.Register("C27", "text", core.Opts{
		Rule:  "broken references by themselves, with and without displays, optional ones, to tags of any name, resolved with and without the flag: what Tag, String and Content give is as documented; all are non-trivial",
		Quick: 4000, Thorough: 100000,
	}, gen.Of(func(r gen.R) BrokenRef {
		c := BrokenRef{Tag: gen.Pick(r, "x", "", "a b", "<t>", "é", "dup", "known", "Known"), Optional: r.Chance(30), Allow: r.Chance(60)}
		if r.Chance(50) {
			c.Display = gen.Pick(r, "shown", "", "<d>")
			c.HasDisplay = true
		}
		return c
	}), runBrokenRef)
}

// BrokenRef is a reference.
type BrokenRef struct {
	Tag, Display         string
	HasDisplay, Optional bool
	Allow                bool
}

func runBrokenRef(ctx *core.Ctx, c BrokenRef) error {
	src := "\\title{Top}{top}\n\n\\target{known}{Known title}\n\n\\section{\n  \\title{One}{dup}\n}\n\n\\section{\n  \\title{Two}{dup}\n}\n"
	site := SiteCase{Files: map[string]string{"index.lit": src}, In: "index.lit", Allow: c.Allow}
	defer func() { booklit.AllowBrokenReferences = false }()
	_, sec, _, err := loadBoth(ctx, site)
	if err != nil {
		return err
	}
	ctx.NonTrivial(true)
	var display booklit.Content
	if c.HasDisplay {
		display = booklit.String(c.Display)
	}
	if c.Optional && !c.HasDisplay {
		display = booklit.String("optional")
	}
	r := &booklit.Reference{Section: sec, TagName: c.Tag, Content: display, Optional: c.Optional}
	name := c.Tag
	found := map[string]int{"known": 1, "dup": 2}[name]
	ctx.Class("found %d, optional %v, allowed %v", found, c.Optional, c.Allow)
	for again := 0; again < 2; again++ {
		tag, err := r.Tag()
		switch {
		case found == 1:
			if err != nil || tag == nil || tag.Name != "known" || tag.Anchor != "known" {
				return fmt.Errorf("known tag: %v, %v", tag, err)
			}
		case c.Optional && found == 0:
			if err != nil || tag != nil {
				return fmt.Errorf("optional reference: %v, %v", tag, err)
			}
		case c.Allow:
			if err != nil || tag == nil {
				return fmt.Errorf("broken reference: %v, %v", tag, err)
			}
			if tag.Name != name || tag.Anchor != "broken" || tag.Section != sec || !strings.Contains(tag.Title.String(), name) || tag.Title.String() == name {
				return fmt.Errorf("broken reference: made-up tag %+v", tag)
			}
		default:
			if err == nil {
				return fmt.Errorf("broken reference: %v and no error", tag)
			}
			if k := impl.Err(err).Kind; k != map[int]string{0: "unknown-tag", 2: "ambiguous"}[found] {
				return fmt.Errorf("broken reference: error %s: %s", k, err)
			}
			continue
		}
		d, err := r.Display()
		if err != nil {
			return err
		}
		want := c.Display
		if !c.HasDisplay {
			want = "optional"
			if !c.Optional {
				want = "Known title"
				if found != 1 {
					want = "{broken reference: " + name + "}"
				}
			}
		}
		if got := d.String(); got != want {
			return fmt.Errorf("displayed as %q, want %q", got, want)
		}
	}
	return nil
}
