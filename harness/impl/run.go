package impl

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/sirupsen/logrus"
	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"

	"verif/harness/ref"
)

var _ = func() bool { logrus.SetOutput(io.Discard); return true }()

// Base is the factories given to every file.
func Base() []booklit.PluginFactory { return []booklit.PluginFactory{baselit.NewPlugin} }

// WriteFiles writes files under the directory.
func WriteFiles(dir string, files map[string]string) error {
	for name, src := range files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// Load loads a document with a fresh processor.
func Load(path string) (*booklit.Section, error) {
	return (&load.Processor{}).LoadFile(path, Base())
}

// Build runs the build command.
func Build(cmd *booklitcmd.Command) error { return cmd.Execute(nil) }

// ReadOut reads a flat output directory.
func ReadOut(dir string) (map[string]string, error) {
	out := map[string]string{}
	es, err := os.ReadDir(dir)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if e.IsDir() {
			out[e.Name()+"/"] = ""
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, err
		}
		out[e.Name()] = string(b)
	}
	return out, nil
}

// Keys lists sorted keys.
func Keys[V any](m map[string]V) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// RenderPage renders the page of a section.
func RenderPage(eng render.Engine, s *booklit.Section) (string, error) {
	var b bytes.Buffer
	err := eng.RenderSection(&b, s)
	return b.String(), err
}

// Doc is a paragraph-free section with the given body.
func Doc(body booklit.Content) *booklit.Section {
	s := &booklit.Section{Path: "x.lit", Body: body}
	s.SetTitle(booklit.String("t"), s.Location, "t")
	return s
}

// NewServer is a server as the command would start it.
func NewServer(in, out, templates string) *booklitcmd.Server {
	return &booklitcmd.Server{
		In: in, Processor: &load.Processor{}, Templates: templates,
		Engine: render.NewHTMLEngine(), FileServer: http.FileServer(http.Dir(out)),
	}
}

// Get requests a path (not escaped).
func Get(h http.Handler, path string) (int, string, http.Header) {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("GET", (&url.URL{Path: path}).String(), nil)
	h.ServeHTTP(w, r)
	return w.Code, w.Body.String(), w.Header()
}

// Err is an error in comparable form.
func Err(err error) *ref.Err {
	if err == nil {
		return nil
	}
	set := func(e *ref.Err, l booklit.ErrorLocation) *ref.Err {
		e.File, e.Pos, e.Len = l.FilePath, Pos(l.NodeLocation), l.Length
		e.Msg = err.Error()
		return e
	}
	loc := func(l booklit.ErrorLocation) ref.Loc { return ref.Loc{File: l.FilePath, Pos: Pos(l.NodeLocation)} }
	var (
		pe booklit.ParseError
		ut booklit.UnknownTagError
		am booklit.AmbiguousReferenceError
		uf booklit.UndefinedFunctionError
		ff booklit.FailedFunctionError
		tt booklit.TitleTwiceError
	)
	switch {
	case errors.As(err, &ff):
		return set(&ref.Err{Kind: "failed", Fn: ff.Function, Inner: Err(ff.Err)}, ff.ErrorLocation)
	case errors.As(err, &pe):
		return set(&ref.Err{Kind: "parse"}, pe.ErrorLocation)
	case errors.As(err, &ut):
		e := set(&ref.Err{Kind: "unknown-tag", Tag: ut.TagName}, ut.ErrorLocation)
		for _, t := range ut.SimilarTags {
			e.Sim = append(e.Sim, t.Name)
		}
		return e
	case errors.As(err, &am):
		e := set(&ref.Err{Kind: "ambiguous", Tag: am.TagName}, am.ErrorLocation)
		for _, d := range am.DefinedLocations {
			e.Also = append(e.Also, loc(d))
		}
		return e
	case errors.As(err, &uf):
		return set(&ref.Err{Kind: "undefined", Fn: uf.Function}, uf.ErrorLocation)
	case errors.As(err, &tt):
		return set(&ref.Err{Kind: "title-twice", Also: []ref.Loc{loc(tt.TitleLocation)}}, tt.ErrorLocation)
	}
	return &ref.Err{Kind: "plain", Msg: err.Error()}
}

// SameErr compares an expected and an actual error.
func SameErr(want *ref.Err, got error) error {
	g := Err(got)
	a, b := errKey(want), errKey(g)
	if a != b {
		msg := ""
		if got != nil {
			msg = fmt.Sprintf(" (%s)", got)
		}
		return fmt.Errorf("expected %s\n     got %s%s", a, b, msg)
	}
	for w := want; w != nil; w, g = w.Inner, g.Inner {
		if w.Exact && w.Msg != g.Msg {
			return fmt.Errorf("expected the error %q, got %q", w.Msg, g.Msg)
		}
	}
	return nil
}

// errKey: messages of plain errors are not compared.
func errKey(e *ref.Err) string {
	if e == nil {
		return "success"
	}
	s := e.Kind
	if e.Kind != "plain" {
		s += fmt.Sprintf(" file=%s pos=%v len=%d fn=%q tag=%q", e.File, e.Pos, e.Len, e.Fn, e.Tag)
	}
	for _, a := range e.Also {
		s += fmt.Sprintf(" also=%s%v", a.File, a.Pos)
	}
	if e.Inner != nil {
		s += " [" + errKey(e.Inner) + "]"
	}
	return s
}

// LoadIndex reads a search index.
func LoadIndex(path string) (map[string]map[string]interface{}, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	m := map[string]map[string]interface{}{}
	return m, json.Unmarshal(b, &m)
}

// Diff shows where two texts begin to differ.
func Diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+160
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return fmt.Sprintf("%q", s[lo:hi])
	}
	return fmt.Sprintf("at byte %d:\n want ...%s\n  got ...%s", i, cut(want), cut(got))
}

// Same compares two texts.
func Same(what, want, got string) error {
	if want == got {
		return nil
	}
	return fmt.Errorf("%s differ %s\n want: %s\n  got: %s", what, Diff(want, got), clip(want), clip(got))
}

func clip(s string) string {
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return strings.ReplaceAll(s, "\x01", "")
}
