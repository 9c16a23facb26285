package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/sim/plan"
)

type langInfo struct {
	Locales []string            `json:"locales"`
	Words   map[string][]string `json:"words"`
	Rel     []string            `json:"rel"`
	Order   string              `json:"order"`
}

type corpus struct {
	Parse  [][2]string `json:"parse"`
	Search [][2]string `json:"search"`
	Hijri  [][2]string `json:"hijri"`
	Jalali [][2]string `json:"jalali"`
	Junk   [][2]string `json:"junk"`

	langs  map[string]*langInfo
	names  []string // languages
	byLang map[string][]string

	amb      map[string][]string // words with several meanings
	ambNames []string
}

func loadCorpus(dir string) (*corpus, error) {
	c := &corpus{byLang: map[string][]string{}}
	b, err := os.ReadFile(filepath.Join(dir, "corpus.json"))
	if err != nil {
		return nil, err
	}
	var raw map[string][]json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return nil, err
	}
	conv := func(k string) (out [][2]string) {
		for _, m := range raw[k] {
			var p [2]string
			if json.Unmarshal(m, &p) != nil {
				var s string
				json.Unmarshal(m, &s)
				p = [2]string{"", s}
			}
			out = append(out, p)
		}
		return
	}
	c.Parse, c.Search, c.Hijri, c.Jalali, c.Junk = conv("parse"), conv("search"), conv("hijri"), conv("jalali"), conv("junk")
	if b, err = os.ReadFile(filepath.Join(dir, "locales.json")); err != nil {
		return nil, err
	}
	if err := json.Unmarshal(b, &c.langs); err != nil {
		return nil, err
	}
	for l := range c.langs {
		c.names = append(c.names, l)
	}
	sort.Strings(c.names)
	for _, p := range c.Parse {
		c.byLang[p[0]] = append(c.byLang[p[0]], p[1])
	}
	c.amb = c.ambiguous()
	for _, l := range c.names {
		if c.amb[l] != nil {
			c.ambNames = append(c.ambNames, l)
		}
	}
	if len(c.Parse) == 0 || len(c.names) == 0 || len(c.Search) == 0 {
		return nil, fmt.Errorf("empty corpus")
	}
	return c, nil
}

var popular = []string{"en", "fr", "de", "es", "ru", "zh", "ja", "pt", "it", "nl", "pl", "tr", "ar", "he", "vi", "hu", "fi", "sv", "hi", "th", "id", "cs", "ro", "uk", "be", "bg", "sr", "hr", "fa", "ko"}

// noNames are not names of languages or locales.
var noNames = []string{"xx", "qq", "klingon", "EN", "en-XX", "fr-ZZ", "", "zz-top", "english", "tlh"}

var months = []string{"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"}
var weekdays = []string{"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"}
var units = []string{"second", "minute", "hour", "day", "week", "month", "year"}
var abbrs = []string{"EST", "PST", "UTC", "GMT", "CET", "IST", "BST", "AEST", "MSK", "JST", "+0530", "-03:00", "UTC+3", "GMT-7", "Z", "CST", "EDT", "WIB", "ACDT", "+14:00"}
var zones = []string{"America/New_York", "Europe/Berlin", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "+20700", "-34200", "UTC", "Africa/Casablanca", "America/St_Johns"}

func (c *corpus) word(r *rng, li *langInfo, mean string) string {
	if w := li.Words[mean]; len(w) > 0 {
		return pick(r, w)
	}
	return mean
}

// phrase makes a date string in a language from its vocabulary.
func (c *corpus) phrase(r *rng, lang string) string {
	li := c.langs[lang]
	if li == nil {
		li = &langInfo{}
	}
	m, wd, u := c.word(r, li, pick(r, months)), c.word(r, li, pick(r, weekdays)), c.word(r, li, pick(r, units))
	d, y := r.in(1, 31), r.in(1950, 2049)
	switch r.n(14) {
	case 0:
		return fmt.Sprintf("%d %s %d", d, m, y)
	case 1:
		return fmt.Sprintf("%s %d", m, y)
	case 2:
		return fmt.Sprintf("%s %d, %d", m, d, y)
	case 3:
		return wd
	case 4:
		return fmt.Sprintf("%d %s", d, m)
	case 5:
		return fmt.Sprintf("%d %s %s", r.in(1, 40), u, c.word(r, li, "ago"))
	case 6:
		return fmt.Sprintf("%s %d %s", c.word(r, li, "in"), r.in(1, 40), u)
	case 7:
		if len(li.Rel) > 0 {
			return pick(r, li.Rel)
		}
		return "yesterday"
	case 8:
		return fmt.Sprintf("%02d.%02d.%d %02d:%02d", d, r.in(1, 12), y, r.n(24), r.n(60))
	case 9:
		return fmt.Sprintf("%d/%d/%02d", r.in(1, 12), r.in(1, 12), r.n(100))
	case 10:
		return fmt.Sprintf("%s %d %s %d %02d:%02d:%02d", wd, d, m, y, r.n(24), r.n(60), r.n(60))
	case 11:
		return fmt.Sprintf("%d %s", y, m)
	case 12:
		return fmt.Sprintf("%d:%02d", r.n(24), r.n(60))
	default:
		return fmt.Sprintf("%s, %d %s, %d %s %s", wd, r.in(1, 9), u, r.in(1, 9), c.word(r, li, pick(r, units)), c.word(r, li, "ago"))
	}
}

func numeric(r *rng) string {
	y, m, d := r.in(1960, 2039), r.in(1, 12), r.in(1, 31)
	switch r.n(10) {
	case 0:
		return fmt.Sprintf("%04d%02d%02d", y, m, d)
	case 1:
		return fmt.Sprintf("%d", r.in(1000000000, 1999999999))
	case 2:
		return fmt.Sprintf("%d%03d", r.in(1000000000, 1999999999), r.n(1000))
	case 3:
		return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", y, m, d, r.n(24), r.n(60), r.n(60))
	case 4:
		return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d.%06d", y, m, d, r.n(24), r.n(60), r.n(60), r.n(1000000))
	case 5:
		return fmt.Sprintf("%02d%02d%02d", r.n(32), r.n(13), r.n(100))
	case 6:
		return fmt.Sprintf("%02d/%02d/%04d %d:%02d pm", r.in(1, 12), r.in(1, 12), y, r.in(1, 12), r.n(60))
	case 7:
		return fmt.Sprintf("%04d%02d%02d%02d%02d", y, m, d, r.n(24), r.n(60))
	case 8:
		return fmt.Sprintf("-%d", r.in(1000000000, 1999999999))
	default:
		return fmt.Sprintf("%d.%d.%d", r.in(1, 31), r.in(1, 12), r.in(0, 99))
	}
}

func (c *corpus) mutate(r *rng, s string) string {
	switch r.n(9) {
	case 0:
		return s + " " + pick(r, abbrs)
	case 1:
		return strings.ToUpper(s)
	case 2:
		return "  " + strings.ReplaceAll(s, " ", "  ") + "\n"
	case 3:
		return s + " " + fmt.Sprintf("%d:%02d %s", r.in(1, 12), r.n(60), pick(r, []string{"am", "pm"}))
	case 4:
		x := []rune(s)
		if len(x) > 2 {
			i := r.n(len(x))
			x = append(x[:i:i], x[i+1:]...)
		}
		return string(x)
	case 5:
		return s + " " + pick(r, c.Parse)[1]
	case 6:
		return "[" + s + "]"
	case 7:
		x := []rune(s)
		if len(x) > 1 {
			i, j := r.n(len(x)), r.n(len(x))
			x[i], x[j] = x[j], x[i]
		}
		return string(x)
	default:
		return "t " + s
	}
}

// themed draws a string that exercises one part of the library, so that the
// calls of a universe meet in it.
func (c *corpus) themed(r *rng, theme int, lang string) string {
	y, m, d := r.in(1960, 2039), r.in(1, 12), r.in(1, 28)
	switch theme {
	case 0: // zones
		s := c.phrase(r, lang)
		if r.p(2, 3) {
			s = fmt.Sprintf("%d-%02d-%02d %02d:%02d", y, m, d, r.n(24), r.n(60))
		}
		return s + " " + pick(r, abbrs)
	case 1: // relative
		li := c.langs[lang]
		if li != nil && len(li.Rel) > 0 && r.p(1, 3) {
			return pick(r, li.Rel)
		}
		if r.p(1, 3) {
			return fmt.Sprintf("%d.%d %ss ago", r.n(5), r.in(1, 9), pick(r, units))
		}
		return fmt.Sprintf("%d %s %d %s %s", r.in(1, 40), pick(r, units), r.in(1, 20), pick(r, units), pick(r, []string{"ago", "later", ""}))
	case 2: // digits alone
		return numeric(r)
	case 3: // long strings with the same beginning
		return fmt.Sprintf("wednesday, the 12th of september 2018, 10:%02d:%02d.%06d %s", r.n(2), r.n(3), r.n(1000000), pick(r, append([]string{"", "pm"}, abbrs...)))
	case 4: // other writing of the same
		s := fmt.Sprintf("%d %s %d", d, c.word(r, or(c.langs[lang]), pick(r, months[:3])), 2015+r.n(3))
		return near(r, s)
	case 5: // incomplete
		return c.incomplete(r, lang)
	case 6: // words the locale knows nothing about, words it skips
		return fmt.Sprintf("%s %s %d %s %s", pick(r, []string{"foo", "t", "on", "le", "am", "x12"}), c.phrase(r, lang), r.in(1, 12), pick(r, []string{"", "bar", "/", "t", "of", ","}), pick(r, []string{"", "pm", "10:10", "foo"}))
	default: // year, month or day alone
		return pick(r, []string{fmt.Sprint(y), pick(r, months), pick(r, weekdays), fmt.Sprintf("%s %d", pick(r, months), d), fmt.Sprintf("%d/%d", m, d), fmt.Sprintf("%d:%02d", r.n(24), r.n(60))})
	}
}

const nThemes = 8

func or(li *langInfo) *langInfo {
	if li == nil {
		li = &langInfo{}
	}
	return li
}

// near makes a string that is almost s.
func near(r *rng, s string) string {
	for n := r.in(1, 2); n > 0; n-- {
		x := []rune(s)
		digit := func(from, to, step int) {
			for i := from; i != to; i += step {
				if x[i] >= '0' && x[i] <= '9' {
					x[i] = '1' + (x[i]-'0'+rune(r.n(8)))%9
					return
				}
			}
		}
		switch k := r.n(10); {
		case len(x) == 0:
		case k < 2: // the last number
			digit(len(x)-1, -1, -1)
		case k < 4:
			digit(0, len(x), 1)
		case k == 4:
			x = []rune(strings.ToUpper(s))
		case k == 5:
			x = []rune(strings.ReplaceAll(s, " ", pick(r, []string{"  ", "-", ", ", "\u00a0", "/"})))
		case k == 6:
			x = append(x, []rune(" "+pick(r, abbrs))...)
		case k == 7:
			x = append([]rune(pick(r, []string{" ", "on ", "t ", "1 ", "("})), x...)
		case k == 8: // one accent more or less
			i := r.n(len(x))
			switch x[i] {
			case 'e', 'a', 'o', 'u', 'i':
				x = append(x[:i+1:i+1], append([]rune{0x301}, x[i+1:]...)...)
			case 'é', 'è':
				x[i] = 'e'
			case 'á':
				x[i] = 'a'
			}
		default:
			x = x[:len(x)-1-r.n(min(len(x), 4))]
		}
		s = string(x)
	}
	return s
}

// str draws a date string and the language it is meant for ("" unknown).
func (c *corpus) str(r *rng) (string, string) {
	var lang, s string
	switch r.n(10) {
	case 0, 1, 2:
		p := pick(r, c.Parse)
		lang, s = p[0], p[1]
	case 3, 4:
		lang = pick(r, popular)
		if l := c.byLang[lang]; len(l) > 0 {
			s = pick(r, l)
		} else {
			s = c.phrase(r, lang)
		}
	case 5, 6:
		lang = pick(r, popular)
		s = c.phrase(r, lang)
	case 7:
		lang = pick(r, c.names)
		s = c.phrase(r, lang)
	case 8:
		s = numeric(r)
	default:
		lang = pick(r, []string{"en", "fr", "es", "ru"})
		s = c.phrase(r, lang)
	}
	if r.p(1, 7) {
		s = c.mutate(r, s)
	}
	if len(s) > 160 {
		s = strings.ToValidUTF8(s[:160], "")
	}
	return s, lang
}

func (c *corpus) langList(r *rng, lang string) []string {
	var l []string
	if lang != "" && c.langs[lang] != nil {
		l = append(l, lang)
	}
	n := r.n(3)
	if len(l) == 0 {
		n = r.in(1, 3)
	}
	for i := 0; i < n; i++ {
		if r.p(3, 4) {
			l = append(l, pick(r, popular))
		} else {
			l = append(l, pick(r, c.names))
		}
	}
	if r.p(1, 3) {
		for i := len(l) - 1; i > 0; i-- {
			j := r.n(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	if r.p(1, 4) && len(l) > 1 {
		l = append(l, l[0]) // duplicates are legal
	}
	return l
}

func (c *corpus) locale(r *rng, lang string) string {
	li := c.langs[lang]
	if li == nil {
		lang = pick(r, popular)
		li = c.langs[lang]
	}
	if li == nil || len(li.Locales) == 0 {
		return lang
	}
	return pick(r, li.Locales)
}

// clockEdges are instants around which calendar arithmetic is delicate.
func someClock(r *rng) time.Time {
	y := r.in(1971, 2099)
	if r.p(1, 2) {
		y = r.in(2000, 2032)
	}
	switch r.n(8) {
	case 0: // end of a month
		return time.Date(y, time.Month(r.in(1, 12)), 1, 0, 0, 0, 0, time.UTC).Add(-time.Duration(r.in(1, 100000)) * time.Millisecond)
	case 1: // end of a year
		return time.Date(y, 12, 31, r.n(24), r.n(60), 59, 999_000_000, time.UTC)
	case 2: // leap day or the day after February
		return time.Date(y, 2, 29, r.n(24), r.n(60), r.n(60), 0, time.UTC)
	case 3: // first day
		return time.Date(y, time.Month(r.in(1, 12)), 1, 0, 0, r.n(2), r.n(1000), time.UTC)
	case 4:
		return time.Date(y, time.Month(r.in(1, 12)), 31, 23, 59, 59, 999_999_999, time.UTC)
	default:
		return time.Date(y, time.Month(r.in(1, 12)), r.in(1, 28), r.n(24), r.n(60), r.n(60), r.n(1_000_000_000), time.UTC)
	}
}

// someNow draws the current time of a configuration, which need not be a time
// at which the simulated clock stands.
func someNow(r *rng) time.Time {
	t := someClock(r)
	switch r.n(20) {
	case 0, 1:
		t = t.AddDate(r.in(1900, 1970)-t.Year(), 0, 0)
	case 2:
		t = t.AddDate(r.in(2100, 2400)-t.Year(), 0, 0)
	case 3:
		t = t.AddDate(r.in(1, 1899)-t.Year(), 0, 0)
	case 4:
		t = time.Unix(int64(r.in(-2, 2)), int64(r.n(2))).UTC()
	case 5: // just after the zero time, which stands for "not set"
		t = time.Time{}.Add(time.Duration(1 + r.n(1<<r.in(1, 58))))
	}
	return t
}

// vary changes one aspect of a configuration.
func (c *corpus) vary(r *rng, g *plan.Cfg, lang string) { c.varyAspect(r, g, lang, r.n(nAspects)) }

const nAspects = 16

// sensitive are strings whose result depends on an aspect of the configuration.
var sensitive = map[int][]string{
	2:  {"10/11/12", "10.11.2012", "2/3/21"},
	5:  {"10/11/12", "10-11-2012", "2 3 21", "03.04.05 10:30"},
	7:  {"10:30", "yesterday", "friday", "10 december", "december", "in 2 weeks"},
	8:  {"10:30", "yesterday", "10 december 2021 10:30", "now"},
	9:  {"december 2021", "february", "june 2020"},
	10: {"2021", "1999"},
	11: {"friday", "10 december", "10:30", "monday 09:15", "3 days", "12 jan 30"},
	12: {"december 2021", "10:30", "10 december 2021", "friday", "2021"},
	13: {"10 december 2021 foo", "foo 10 december 2021", "10 Foo december 2021", "t 10 december 2021", "december 2021", "10 december", "10 december 2021 bar foo"},
	14: {"10:30", "10 december 2021 10:30", "yesterday 8 pm"},
	15: {"1 month ago", "in 3 months", "1 year 2 months ago"},
}

var aspects = []int{2, 5, 7, 8, 9, 10, 11, 12, 13, 13, 14, 15}

func (c *corpus) varyAspect(r *rng, g *plan.Cfg, lang string, aspect int) {
	switch aspect {
	case 0:
		g.Languages = c.langList(r, lang)
		g.Locales = nil
	case 1:
		g.Locales = []string{c.locale(r, lang)}
		if r.p(1, 3) {
			g.Locales = append(g.Locales, c.locale(r, ""))
		}
	case 2:
		g.Region = pick(r, []string{"US", "GB", "CA", "BE", "001", "MX", "IN", "CH"})
	case 3:
		g.Given = !g.Given
	case 4:
		g.DefLangs = []string{pick(r, popular)}
		if r.p(1, 2) {
			g.DefLangs = append(g.DefLangs, pick(r, popular))
		}
	case 5, 6:
		g.Order = pick(r, []string{"DMY", "MDY", "YMD", "YDM", "MYD", "DYM", "@default", "xyz", "ymd"})
	case 7:
		g.Now = someNow(r).Format(time.RFC3339Nano)
		if r.p(1, 3) {
			g.NowTZ = pick(r, zones)
		}
	case 8:
		g.TZ = pick(r, zones)
	case 9:
		g.PDOM = uint8(r.in(1, 2))
	case 10:
		g.PMOY = uint8(r.in(1, 2))
	case 11:
		g.PDS = uint8(r.in(1, 2))
	case 12:
		g.Strict = !g.Strict
	case 13:
		switch r.n(6) {
		case 0:
			g.Required = []string{"dy"}
		case 1:
			g.Required = pick(r, [][]string{{"Day"}, {"day"}, {"year", "month"}, {"month", "day", "year"}})
		default:
			g.Skip = pick(r, [][]string{{"t", "at"}, {"on"}, {"de", "le"}, {"t", "foo", "um"}, {"foo"}, {"Foo"}, {"FOO", "T"}, {" foo ", "bar"}, {"um", "foo", "at", "foo"}, {"bar"}, {"december"}, {""}})
		}
	case 14:
		g.TimePer = !g.TimePer
	case 15:
		g.EOM = !g.EOM
	}
	if r.p(1, 60) {
		g.PDOM = 9 // invalid configuration
	}
	if r.p(1, 25) { // errors have results, too
		for i := r.in(1, 4); i > 0; i-- {
			x := pick(r, noNames)
			switch r.n(4) {
			case 0:
				g.Locales = append(g.Locales[:len(g.Locales):len(g.Locales)], x, pick(r, noNames))
			case 1:
				g.DefLangs = append(g.DefLangs[:len(g.DefLangs):len(g.DefLangs)], x)
			default:
				g.Languages = append(g.Languages[:len(g.Languages):len(g.Languages)], x)
			}
		}
	}
}

func (c *corpus) searchText(r *rng, lang string) (string, string) {
	switch r.n(5) {
	case 4: // the dates after the timestamp are relative to it
		if lang == "" {
			lang = "en"
		}
		return fmt.Sprintf("%d. %s. %s", r.in(100_000_000, 410_244_480)*10+r.n(10), c.incomplete(r, lang), c.incomplete(r, lang)), lang
	case 0, 1:
		if lang == "" {
			p := pick(r, c.Search)
			return p[1], p[0]
		}
	case 2:
		return fmt.Sprintf("We met on %s and %s; %s.", c.phrase(r, "en"), c.phrase(r, "en"), c.phrase(r, "en")), "en"
	}
	if lang == "" {
		lang = pick(r, popular)
	}
	return fmt.Sprintf("%s. %s %s", c.phrase(r, lang), c.phrase(r, lang), c.phrase(r, lang)), lang
}

// incomplete makes a string that depends on the current time.
func (c *corpus) incomplete(r *rng, lang string) string {
	li := c.langs[lang]
	if li == nil {
		li = &langInfo{}
	}
	switch r.n(7) {
	case 0:
		return fmt.Sprintf("%02d:%02d", r.n(24), r.n(60))
	case 1:
		if len(li.Rel) > 0 {
			return pick(r, li.Rel)
		}
		return pick(r, []string{"yesterday", "tomorrow", "today"})
	case 2:
		return c.word(r, li, pick(r, weekdays))
	case 3:
		return c.word(r, li, pick(r, months))
	case 4:
		return fmt.Sprintf("%d %s", r.in(1, 31), c.word(r, li, pick(r, months)))
	case 5:
		return fmt.Sprintf("%d %s %s", r.in(1, 40), c.word(r, li, pick(r, units)), c.word(r, li, "ago"))
	default:
		return fmt.Sprintf("%s %d", c.word(r, li, pick(r, months)), r.in(1950, 2049))
	}
}

func hijriStr(r *rng, c *corpus) string {
	switch r.n(5) {
	case 0:
		return pick(r, c.Hijri)[1]
	case 1:
		return fmt.Sprintf("%d %s %d", r.in(1, 30), pick(r, []string{"محرم", "رمضان", "شوال", "ذو الحجة", "صفر"}), r.in(1360, 1490))
	case 2:
		return fmt.Sprintf("%02d/%02d/%d", r.in(1, 30), r.in(1, 12), r.in(1357, 1499))
	case 3:
		return fmt.Sprintf("%02d-%02d-%02d %02d:%02d PM", r.in(1, 30), r.in(1, 12), r.n(100), r.in(1, 12), r.n(60))
	default:
		return fmt.Sprintf("%d-%02d", r.in(1380, 1480), r.in(1, 12))
	}
}

func jalaliStr(r *rng, c *corpus) string {
	switch r.n(4) {
	case 0:
		return pick(r, c.Jalali)[1]
	case 1:
		return fmt.Sprintf("%d %s %d", r.in(1, 30), pick(r, []string{"فروردین", "خرداد", "آبان", "اسفند", "مهر"}), r.in(1340, 1420))
	case 2:
		return fmt.Sprintf("%02d/%02d/%d %02d:%02d", r.in(1, 31), r.in(1, 12), r.in(1340, 1420), r.n(24), r.n(60))
	default:
		return fmt.Sprintf("%02d/%02d", r.in(1, 30), r.in(1, 12))
	}
}

var fmtPool = [][]string{{"2006-01-02"}, {"02 January 2006"}, {"02/01/06", "January 2, 2006"}, {"15:04"}, {"2 Jan"}, {"January 2006"}, {"Monday 2 January"}}

// zoneFormats have a zone, which is read in the zone of the caller.
var zoneFormats = []string{"2006-01-02 15:04 MST", "02 Jan 2006 15:04:05 -0700", "2 January 2006 MST", "2006-01-02T15:04:05Z07:00", "Mon 2 Jan 15:04 MST 2006", "2006-01-02 (MST) 15h04"}

// formatted makes a string for a format list.
func formatted(r *rng) (string, []string) {
	if r.p(1, 5) {
		f := pick(r, zoneFormats)
		return someClock(r).In(loadZone(pick(r, gapZones))).Format(f), []string{f}
	}
	f := pick(r, fmtPool)
	return someClock(r).Format(pick(r, f)), f
}

func loadZone(name string) *time.Location {
	l, err := time.LoadLocation(name)
	if err != nil {
		return time.UTC
	}
	return l
}
