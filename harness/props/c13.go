package props

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/vito/booklit"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

var defaultTag = regexp.MustCompile(`^[a-z0-9_-]*$`)

var titleBits = []string{
	" & ", "&", " &", "& ", " and ", "A", "b", "Z9", "0", "_", "-", "--", " ", "  ", "\t", "\u00a0", "é", "É", "ß", "İ", "ſ", "K", "日本", "🎉", "e\u0301",
	".", ",", "!", "?", "/", "'", "\"", "<", ">", "{", "}", "\\", "#", "%", "(", ")", "Foo", "bar BAZ", "hello, world", "1.2.3", "C++", "\x0c", "\v", "\u2028", "\x00",
}

func init() {
	core.Register("C13", "default", core.Opts{
		Rule:  "sections with no tag of their own, titled with letters of any case, digits, punctuation, symbols and whitespace of any kind, in plain text or styled: each must get the tag derived from its title; non-trivial when some title is not a tag as it is",
		Quick: 6000, Thorough: 300000,
	}, gen.Of(func(r gen.R) SiteCase {
		title := func() gen.Inline {
			var in []gen.Inline
			for n := r.Range(1, 6); n > 0; n-- {
				t := gen.Text(gen.Pick(r, titleBits...))
				switch r.Weighted(8, 1, 1) {
				case 1:
					in = append(in, gen.Call(gen.Pick(r, "bold", "code", "aux", "italic"), gen.Line(t)))
				case 2:
					in = append(in, gen.Call("aux", gen.Line(gen.Text("Aux ")), gen.Line(t)))
					in[len(in)-1].(*gen.Inv).Args = in[len(in)-1].(*gen.Inv).Args[:1]
				default:
					in = append(in, t)
				}
			}
			args := []gen.Arg{gen.Line(in...)}
			if r.Chance(5) {
				args[0] = gen.Arg{Kind: gen.ABlocks, Blocks: []gen.Block{gen.Alone(append(in, gen.Text("x"))...)}}
			}
			if r.Chance(6) {
				// a tag of its own, which is no name
				args = append(args, gen.T(""))
			}
			return gen.Call("title", args...)
		}
		var d gen.Doc
		d = append(d, gen.Alone(title()))
		for n := r.Range(0, 3); n > 0; n-- {
			d = append(d, gen.Alone(gen.Call("section", gen.Arg{Kind: gen.ABlocks, Blocks: gen.Doc{gen.Alone(title())}})))
		}
		p := gen.Printer{}
		return SiteCase{In: "index.lit", Files: map[string]string{"index.lit": p.Print(d)}}
	}), func(ctx *core.Ctx, c SiteCase) error {
		m, s, rerr, err := loadBoth(ctx, c)
		if err != nil || rerr != nil {
			return err
		}
		return eachSection(m, s, func(m *ref.Section, s *booklit.Section) error {
			got := s.PrimaryTag.Name
			if !defaultTag.MatchString(got) {
				return fmt.Errorf("%q is the tag of %q", got, s.Title)
			}
			if len(s.Tags) != 1 || s.Tags[0].Name != got {
				return fmt.Errorf("%q has tags %v", s.Title, s.Tags)
			}
			ctx.NonTrivial(s.Title.String() != got)
			if strings.Contains(got, "-and-") {
				ctx.Class("and")
			}
			// the section is found by it
			found := s.FindTag(got)
			for _, t := range found {
				if t.Section == s {
					return nil
				}
			}
			return fmt.Errorf("%q is not found by its tag %q", s.Title, got)
		})
	})

	core.Register("C13", "tags", core.Opts{
		Rule:  "documents with titles, with any number of tags, at any point of a section or several times, and targets with and without titles and contents in any kind of content: which tags there are, of which section and with which anchors, titles and contents, and what is displayed for each, must be as in the reference model; non-trivial with at least three tags",
		Quick: 4000, Thorough: 150000,
	}, gen.Of(func(r gen.R) SiteCase {
		p := gen.Base()
		p.Target, p.Ref, p.ExtraTags, p.Untitled, p.TitleAny = 25, 4, 50, gen.Pick(r, 0, 0, 10), 30
		p.Exotic, p.Section, p.Partial, p.RichTitles = 20, 25, 6, 40
		p.Split, p.Single = 15, 3
		c := siteGen(p)(r)
		if r.Chance(25) {
			// another title somewhere
			f := c.Files["index.lit"]
			at := strings.Index(f[r.Intn(len(f)):], "\n\n")
			if at >= 0 {
				c.Files["index.lit"] = f[:at] + "\n\n\\title{Another}{another}\n\n" + f[at:]
			}
		}
		return c
	}), func(ctx *core.Ctx, c SiteCase) error {
		m, s, rerr, err := loadBoth(ctx, c)
		if err != nil {
			return err
		}
		if rerr != nil {
			ctx.Class("error %s", rerr.Kind)
			ctx.NonTrivial(rerr.Kind == "title-twice")
			return nil
		}
		all := m.AllTags()
		ctx.NonTrivial(len(all) >= 3)
		for _, t := range all {
			want, werr := (&ref.Reference{Section: m, TagName: t.Name}).Resolve()
			r := &booklit.Reference{Section: s, TagName: t.Name}
			got, gerr := r.Tag()
			if err := impl.SameErr(stripLoc(werr), stripLocErr(gerr)); err != nil {
				return fmt.Errorf("reference to %q: %v", t.Name, err)
			}
			if werr != nil {
				continue
			}
			d, err := r.Display()
			if err != nil {
				return err
			}
			w := fmt.Sprintf("%s %q %q %s %s", want.Section.Primary.Name, want.Name, want.Anchor, ref.Dump(want.Title), ref.Dump(want.Content))
			g := fmt.Sprintf("%s %q %q %s %s", got.Section.PrimaryTag.Name, got.Name, got.Anchor, impl.Dump(d), impl.Dump(got.Content))
			if err := impl.Same("tag "+t.Name, w, g); err != nil {
				return err
			}
			if t.Anchor != "" {
				ctx.Class("target")
			}
		}
		return nil
	})
}

// stripLoc drops where a reference is.
func stripLoc(e *ref.Err) *ref.Err {
	if e == nil {
		return nil
	}
	return &ref.Err{Kind: "plain"}
}

func stripLocErr(err error) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("%s", err)
}
