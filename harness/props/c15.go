package props

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path/filepath"
	"strings"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/impl"
	"verif/harness/ref"
)

// ServeCase is documents, and files which are not documents.
type ServeCase struct {
	Site   SiteCase
	Static map[string]string
	Paths  []string
	// Order is in which order the pages are requested.
	Order []int
	// Query is appended to what is requested, which makes no difference.
	Query string `json:",omitempty"`
	// Header is sent along, which makes no difference either.
	Header string `json:",omitempty"`
	// Method is another way to ask.
	Method string `json:",omitempty"`
}

func init() {
	core.Register("C15", "pages", core.Opts{
		Rule:  "documents of a bit of everything, some with errors, built and served along with other files: the server must answer with what the build wrote for each page, with the page of the section for any other tag, and with the files for anything else, and fail if and only if it does for the build; non-trivial with at least two sections, or failing",
		Quick: 1200, Thorough: 60000,
	}, gen.Of(func(r gen.R) ServeCase {
		p := gen.Base()
		p.Split, p.SplitRoot, p.Section, p.Include, p.Exotic = 30, 50, 20, 8, 15
		p.Target, p.ExtraTags = 8, 30
		if r.Chance(15) {
			p.Err, p.Unknown, p.Dup, p.Syntax = gen.Pick(r, 0, 1), gen.Pick(r, 0, 2), gen.Pick(r, 0, 3), gen.Pick(r, 0, 0, 40)
		}
		c := ServeCase{Site: siteGen(p)(r), Static: map[string]string{}}
		if r.Chance(4) {
			// a file is missing
			delete(c.Site.Files, gen.Pick(r, impl.Keys(c.Site.Files)...))
		}
		for n := r.Intn(4); n > 0; n-- {
			c.Static[gen.Pick(r, "style.css", "index.HTML", "img/a.png", "no-such-tag.html", "notes.txt", "sub/index.html", "a b.txt", "s-1.html", "deep/er/x.js")] = gen.Pick(r, "", "static", "<b>&x</b>")
		}
		for n := r.Intn(4); n > 0; n-- {
			c.Paths = append(c.Paths, gen.Pick(r, "/nope", "/nope.html", "/", "/index.html", "/index", "/x.css", "/style.css", "/img/a.png", "/no-such-tag.html", "/sub/", "/a b.txt", "/.html", "//index.html", "/sub/index.html", "/s-1.html", "/index.htm", "/index.html.html", "/INDEX.html", "/indexhtml", "/tag-1.htm", "/inde.html", "/index.HTML", "/index.Html", "/index.html/", "/index.html.", "/index.htmlx"))
		}
		for i := 0; i < 8; i++ {
			c.Order = append(c.Order, r.Intn(64))
		}
		if r.Chance(40) {
			c.Query = gen.Pick(r, "v=2", "section=index", "%zz", "tag=s-1&x", "/nope.html", "a=b.html")
		}
		if r.Chance(25) {
			c.Header = gen.Pick(r, "Accept: application/json", "Accept-Language: nl", "Cookie: tag=index", "User-Agent: curl/8.0", "Referer: http://x/index.html", "X-Forwarded-For: 1.2.3.4", "Cache-Control: max-age=3600", "Purpose: prefetch")
		}
		if r.Chance(20) {
			c.Method = "HEAD"
		}
		return c
	}), func(ctx *core.Ctx, c ServeCase) error {
		b, err := buildBoth(ctx, c.Site, buildOpts{})
		if err != nil {
			return err
		}
		assets := filepath.Join(ctx.Dir(), "assets")
		if err := impl.WriteFiles(assets, c.Static); err != nil {
			core.Fatal("%s", err)
		}
		in := filepath.Join(ctx.Dir(), "src", c.Site.In)
		srv := impl.NewServer(in, assets, "")
		files := http.FileServer(http.Dir(assets))
		if b.Err != nil && (b.Model == nil) {
			// it does not load
			ctx.NonTrivial(true)
			ctx.Class("does not load")
			code, body, _ := impl.Get(srv, "/index.html")
			if code != 500 || len(body) == 0 {
				return fmt.Errorf("status %d (%d bytes) for a document which does not load: %v", code, len(body), b.Err)
			}
			// other files are served all the same
			for _, p := range c.Paths {
				if !strings.HasSuffix(p, ".html") && p != "/" {
					if err := sameAnswer(p, files, srv); err != nil {
						return err
					}
				}
			}
			return nil
		}
		ctx.NonTrivial(count(b.Model) > 1)
		var reqs []string
		first := map[string]ref.Tag{}
		owners := map[string]int{}
		for _, s := range b.Model.Pages() {
			owners[s.Primary.Name]++
		}
		for _, t := range b.Model.AllTags() {
			if _, ok := first[t.Name]; !ok {
				first[t.Name] = t
				reqs = append(reqs, t.Name)
			}
		}
		for i := range reqs {
			j := c.Order[i%len(c.Order)] % len(reqs)
			reqs[i], reqs[j] = reqs[j], reqs[i]
		}
		h := &ref.HTML{}
		failed := false
		for _, name := range reqs {
			t := first[name]
			code, body, head := impl.Get(srv, "/"+name+".html")
			if ct := head.Get("Content-Type"); ct != "" && !strings.HasPrefix(ct, "text/html") {
				return fmt.Errorf("%q is served as %q", name, ct)
			}
			if c.Query != "" {
				if a, b := answer(srv, "/"+name+".html"), answerAs(srv, "GET", "/"+name+".html", c.Query); a != b {
					return fmt.Errorf("the answer for %q is another with the query %q: %s", name, c.Query, impl.Diff(a, b))
				}
			}
			if c.Header != "" {
				k, v, _ := strings.Cut(c.Header, ": ")
				if a, b := answer(srv, "/"+name+".html"), answerTo(srv, "/"+name+".html", k, v); a != b {
					return fmt.Errorf("the answer for %q is another with %s: %s", name, c.Header, impl.Diff(a, b))
				}
			}
			if c.Method != "" {
				// with the same answer, or without its body
				a, b := answer(srv, "/"+name+".html"), answerAs(srv, c.Method, "/"+name+".html", "")
				if !strings.HasPrefix(a, b) || strings.Count(b, "\n") == 0 {
					return fmt.Errorf("the answer for %q with %s: %s", name, c.Method, impl.Diff(a, b))
				}
			}
			want, werr := h.Page(t.Section)
			if werr != nil {
				failed = true
				if code != 500 || len(body) == 0 {
					return fmt.Errorf("status %d for %q, want 500: %v", code, name, werr)
				}
				continue
			}
			if code != 200 {
				return fmt.Errorf("status %d for %q: %s", code, name, body)
			}
			if built, ok := b.Out[name+".html"]; ok && t.Section.PageOwner() == t.Section && t.Section.Primary.Name == name && owners[name] == 1 {
				if err := impl.Same("what is served for "+name, built, body); err != nil {
					return err
				}
				ctx.Class("page")
				continue
			}
			if err := impl.Same("what is served for "+name, impl.HTML(want), impl.HTML(body)); err != nil {
				return err
			}
			ctx.Class("other tag")
		}
		if b.Err != nil && !failed {
			return fmt.Errorf("the build fails but the server does not: %v", b.Err)
		}
		for i, name := range reqs {
			// which are much like the paths of tags
			p := []string{"/NAME.HTML", "/NAME.Html", "/NAME.htm", "/NAME", "/NAME.html/", "/NAME.txt", "/NAME.html.html", "//NAME.html", "/NAME .html", "/xNAME.html", "/NAME.xhtml", "/NAMEhtml"}[(i+c.Order[0])%12]
			c.Paths = append(c.Paths, strings.ReplaceAll(p, "NAME", name))
			if i == 3 {
				break
			}
		}
		for _, p := range c.Paths {
			name := strings.TrimPrefix(strings.TrimSuffix(p, ".html"), "/")
			if p == "/" {
				name = "index"
			}
			if _, ok := first[name]; ok && (p == "/" || strings.HasSuffix(p, ".html")) && !strings.HasPrefix(p, "//") {
				a, ab, _ := impl.Get(srv, p)
				x, xb, _ := impl.Get(srv, "/"+name+".html")
				if a != x || ab != xb {
					return fmt.Errorf("%q is not the same as %q", p, name)
				}
				ctx.Class("tag path")
				continue
			}
			if err := sameAnswer(p, files, srv); err != nil {
				return err
			}
			ctx.Class("file path")
		}
		return nil
	})
}

func answer(h http.Handler, p string) string { return answerAs(h, "GET", p, "") }

// answerTo is the answer for a request with a header.
func answerTo(h http.Handler, p, key, value string) string {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("GET", "http://x"+(&url.URL{Path: p}).EscapedPath(), nil)
	r.Header.Set(key, value)
	h.ServeHTTP(w, r)
	return fmt.Sprintf("%d %q\n%s", w.Code, w.Header().Get("Location"), w.Body.String())
}

func answerAs(h http.Handler, method, p, query string) string {
	w := httptest.NewRecorder()
	u := &url.URL{Path: p}
	r := httptest.NewRequest(method, "http://x"+u.EscapedPath(), nil)
	r.URL.RawQuery = query
	h.ServeHTTP(w, r)
	return fmt.Sprintf("%d %q\n%s", w.Code, w.Header().Get("Location"), w.Body.String())
}

func sameAnswer(p string, want, got http.Handler) error {
	return impl.Same("the answers for "+p, answer(want, p), answer(got, p))
}
