// One-off: dumps locale names and some vocabulary of every language. Run with
// the file overlaid at /repo/zzsim/dump/main.go; the output is data/locales.json.
package main

import (
	"encoding/json"
	"os"
	"sort"

	"github.com/markusmobius/go-dateparser/internal/data"
)

type lang struct {
	Locales []string            `json:"locales"`
	Words   map[string][]string `json:"words"` // English meaning -> words
	Rel     []string            `json:"rel"`   // relative phrases
	Order   string              `json:"order"`
}

func main() {
	out := map[string]*lang{}
	for l, locs := range data.LanguageLocalesMap {
		ld, ok := data.GetLocaleData(l)
		if !ok {
			continue
		}
		x := &lang{Locales: locs, Words: map[string][]string{}, Order: ld.DateOrder}
		var ws []string
		for w := range ld.Translations {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		for _, w := range ws {
			for _, e := range ld.Translations[w] {
				if e != "" && len(x.Words[e]) < 3 {
					x.Words[e] = append(x.Words[e], w)
				}
			}
		}
		for r := range ld.RelativeType {
			x.Rel = append(x.Rel, r)
		}
		sort.Strings(x.Rel)
		if len(x.Rel) > 25 {
			x.Rel = x.Rel[:25]
		}
		out[l] = x
	}
	e := json.NewEncoder(os.Stdout)
	e.SetEscapeHTML(false)
	e.SetIndent("", "")
	e.Encode(out)
}
