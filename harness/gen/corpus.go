package gen

import (
	"embed"
	"sort"
)

//go:embed corpus/*.lit
var corpus embed.FS

// Corpus is documents which people wrote: those of booklit itself.
var Corpus = func() []string {
	es, err := corpus.ReadDir("corpus")
	if err != nil {
		panic(err)
	}
	var names []string
	for _, e := range es {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	var out []string
	for _, n := range names {
		b, err := corpus.ReadFile("corpus/" + n)
		if err != nil {
			panic(err)
		}
		out = append(out, string(b))
	}
	return out
}()
