package props

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/vito/booklit/booklitcmd"
	"golang.org/x/net/html"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
)

// EscapeCase is documents where each text is a marker, and what to replace the
// markers with.
type EscapeCase struct {
	Files map[string]string
	Subs  map[string]string
}

var hostile = []string{
	"<", ">", "&", `"`, "'", "`", "=", "/", "<script>", "</script>", "</title>", "</a>", "</p>", "<b>", "<img src=x onerror=y>", "amp;", "&amp;", "&lt;", "&#34;", "&#x3c;",
	"<!--", "-->", "<![CDATA[", "]]>", "{{", "}}", "{{.Title}}", "{", "}", "\\", "\\bold{x}", " ", "  ", "a", "é", "日本", "\u2028", "\u00a0", "\ufeff", "%", "%41", "%zz", "#", "?", "+", ":", "javascript:",
	"on=", "style=", "\x0b", "\x7f", "\u0085", "{-", "-}", "--", "</", "/>", "<?", "<!", "&", "&;", "$", "ZgotmplZ", "\x01",
}

func hostileText(r gen.R, ban string) string {
	s := ""
	for n := r.Range(1, 4); n > 0; n-- {
		w := gen.Pick(r, hostile...)
		if ban != "" && strings.ContainsAny(w, ban) {
			continue
		}
		s += w
	}
	return s
}

var tagMarker = regexp.MustCompile(`Zt[0-9]+z`)

var marker = regexp.MustCompile(`Z[a-z][0-9]+z`)

func escapeGen(r gen.R) EscapeCase {
	c := EscapeCase{Subs: map[string]string{}}
	p := gen.Base()
	p.Link, p.Image, p.Code, p.PreBlock, p.CodeBlock = 8, 5, 6, 6, 6
	p.Ref, p.Target, p.Split = 8, 6, 25
	p.MaxSecs = 6
	p.Hook = func(g *gen.G, kind string) string {
		k := fmt.Sprintf("Z%c%dz", kind[0], len(c.Subs))
		ban := ""
		switch kind {
		case "tag":
			ban = "/"
		case "verb":
			ban = "{}"
		case "link", "image":
			ban = ":"
		}
		c.Subs[k] = fmt.Sprintf("Z%s_%dz", hostileText(r, ban), len(c.Subs))
		if kind == "link" || kind == "image" {
			return gen.Pick(g.R, "https://example.com/", "", "/", "x?q=", "#", "mailto:") + k
		}
		return k
	}
	g, _ := gen.Site(r, p)
	c.Files = g.Files
	return c
}

// source substitutes in a document.
func (c EscapeCase) source(s string) string {
	return marker.ReplaceAllStringFunc(s, func(m string) string {
		if m[1] == 'v' {
			return c.Subs[m]
		}
		return gen.Escape(c.Subs[m])
	})
}

// expect substitutes in the result.
func (c EscapeCase) expect(s string) string {
	return marker.ReplaceAllStringFunc(s, func(m string) string { return c.Subs[m] })
}

// tokens lists tags, attributes and texts, with all escapes decoded.
func tokens(src string, sub func(string) string) []string {
	var out []string
	z := html.NewTokenizer(strings.NewReader(src))
	text := ""
	flush := func() {
		if text != "" {
			out = append(out, fmt.Sprintf("text %q", sub(text)))
		}
		text = ""
	}
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			flush()
			return out
		}
		t := z.Token()
		if tt == html.TextToken {
			text += t.Data
			continue
		}
		flush()
		s := fmt.Sprintf("%v <%s", tt, t.Data)
		sort.SliceStable(t.Attr, func(i, j int) bool { return t.Attr[i].Key < t.Attr[j].Key })
		for _, a := range t.Attr {
			v := a.Val
			switch {
			case a.Key != "href" && a.Key != "src":
				v = sub(v)
			case tagMarker.MatchString(v):
				v = sub(decodeURL(v))
			default:
				v = decodeURL(sub(v))
			}
			s += fmt.Sprintf(" %s=%q", a.Key, v)
		}
		out = append(out, s+">")
	}
}

// decodeURL decodes what is percent-encoded.
func decodeURL(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			var n int
			if _, err := fmt.Sscanf(s[i+1:i+3], "%02x", &n); err == nil && isHex(s[i+1]) && isHex(s[i+2]) {
				b.WriteByte(byte(n))
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func buildFiles(dir, in, out string, files map[string]string) (map[string]string, error) {
	src := filepath.Join(dir, in)
	if err := impl.WriteFiles(src, files); err != nil {
		core.Fatal("%s", err)
	}
	out = filepath.Join(dir, out)
	if err := impl.Build(&booklitcmd.Command{In: filepath.Join(src, "index.lit"), Out: out}); err != nil {
		return nil, err
	}
	return impl.ReadOut(out)
}

func init() {
	core.Register("C07", "text", core.Opts{
		Rule:  "documents of a bit of everything, once with a harmless word for each text, title, URL, image, tag and verbatim text, and once with text full of markup in their place: both must have the same tags and attributes, and the text as written; non-trivial when the build succeeds and some text has markup",
		Quick: 3000, Thorough: 120000,
	}, gen.Of(escapeGen), func(ctx *core.Ctx, c EscapeCase) error {
		plain, err := buildFiles(ctx.Dir(), "a", "ao", c.Files)
		if err != nil {
			ctx.Class("fails")
			return nil
		}
		subbed := map[string]string{}
		for n, s := range c.Files {
			subbed[n] = c.source(s)
		}
		got, err := buildFiles(ctx.Dir(), "b", "bo", subbed)
		if err != nil {
			return fmt.Errorf("it only fails with special characters: %v", err)
		}
		want := map[string]string{}
		for n, s := range plain {
			want[c.expect(n)] = s
		}
		if len(want) != len(plain) {
			return nil // same names
		}
		if err := sameNames("output files", impl.Keys(want), impl.Keys(got)); err != nil {
			return err
		}
		ctx.NonTrivial(len(c.Subs) > 2)
		for n := range want {
			a := tokens(want[n], c.expect)
			b := tokens(got[n], func(s string) string { return s })
			if err := sameTokens(n, a, b); err != nil {
				return err
			}
		}
		return nil
	})

	core.Register("C07", "urls", core.Opts{
		Rule:  "links and images with URLs of any scheme, in any spelling; non-trivial when it has a scheme which is not allowed, as is",
		Quick: 4000, Thorough: 120000,
	}, gen.Of(func(r gen.R) SiteCase {
		u := ""
		if r.Chance(20) {
			u += gen.Pick(r, " ", "\t", "\x01", "\u00a0", "\x1f ", "\x0c")
		}
		sch := gen.Pick(r, "javascript", "data", "vbscript", "http", "https", "mailto", "ftp", "file", "java", "x-y.z", "tel", "blob", "view-source", "feed", "JAVASCRIPT", "hTTps", "")
		for _, ch := range sch {
			if r.Chance(15) {
				ch = []rune(strings.ToUpper(string(ch)))[0]
			}
			u += string(ch)
			if r.Chance(3) {
				u += gen.Pick(r, "\t", "\x0c", "\x01", " ", "\u00ad", "%0a", "&#58;", "&colon;")
			}
		}
		u += gen.Pick(r, ":", ":", ":", ":", "%3a", "&#58;", "\uff1a", " :", "")
		u += gen.Pick(r, "alert(1)", "//x.y/z", "text/html,<b>", "", "x@y", "/a:b", "a#b:c")
		fn := gen.Call("link", gen.T("x"), gen.T(u))
		switch r.Intn(4) {
		case 0:
			fn = gen.Call("image", gen.T(u))
		case 1:
			fn = gen.Call("link", gen.Line(gen.Call("bold", gen.T("x"))), gen.Line(gen.Text(u[:len(u)/3]), gen.Call("italic", gen.Line(gen.Text(u[len(u)/3:])))))
			if strings.HasPrefix(strings.TrimLeft(u[len(u)/3:], " \t"), "-") || strings.HasSuffix(u[:len(u)/3], " ") || strings.HasPrefix(u[len(u)/3:], " ") || !isASCII(u) {
				fn = gen.Call("link", gen.T("x"), gen.T(u))
			}
		}
		p := gen.Printer{}
		return SiteCase{In: "index.lit", Files: map[string]string{"index.lit": p.Print(gen.Doc{gen.Alone(gen.Call("title", gen.T("T"), gen.T("index"))), gen.Alone(fn)})}}
	}), func(ctx *core.Ctx, c SiteCase) error {
		out, err := buildFiles(ctx.Dir(), "a", "ao", c.Files)
		if err != nil {
			return nil
		}
		for _, s := range []string{"javascript", "data:", "vbscript", "ftp", "file", "java:", "x-y.z", "tel", "blob", "view-source", "feed"} {
			ctx.NonTrivial(strings.Contains(strings.ToLower(c.Files["index.lit"]), s))
		}
		n := 0
		z := html.NewTokenizer(strings.NewReader(out["index.html"]))
		for {
			tt := z.Next()
			if tt == html.ErrorToken {
				break
			}
			for _, a := range z.Token().Attr {
				if a.Key != "href" && a.Key != "src" {
					continue
				}
				n++
				// as browsers do
				u := strings.TrimFunc(a.Val, func(r rune) bool { return r <= ' ' })
				u = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(u)
				m := scheme.FindStringSubmatch(u)
				if m == nil {
					ctx.Class("no scheme")
					continue
				}
				s := strings.ToLower(m[1])
				ctx.Class("%s", s)
				if s != "http" && s != "https" && s != "mailto" {
					return fmt.Errorf("%s=%q", a.Key, a.Val)
				}
			}
		}
		if n != 1 {
			return fmt.Errorf("%d URLs:\n%s", n, out["index.html"])
		}
		return nil
	})
}

var scheme = regexp.MustCompile(`^([a-zA-Z][a-zA-Z0-9+.-]*):`)

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func sameTokens(what string, a, b []string) error {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(end)", "(end)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Errorf("%s: want %s\n got %s", what, x, y)
		}
	}
	return nil
}
