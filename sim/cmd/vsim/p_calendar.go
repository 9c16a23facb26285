package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"verif/sim/plan"
)

// C10: relative and incomplete dates against a calendar model of its own. The
// model counts days; it takes only the offsets of time zones from package time.

// civil is a wall clock reading: day number, seconds and nanoseconds of the day.
type civil struct {
	day, sec, nano int64
}

// dayNumber counts from 1970-01-01 in the proleptic Gregorian calendar. Months
// and days may overflow.
func dayNumber(y, m, d int64) int64 {
	y += floorDiv(m-1, 12)
	m = (m-1)%12 + 1
	if m < 1 {
		m += 12
	}
	if m <= 2 {
		y--
		m += 12
	}
	// March based: days before the month follow a fixed pattern
	return 365*y + floorDiv(y, 4) - floorDiv(y, 100) + floorDiv(y, 400) + (153*(m-3)+2)/5 + d - 1 - 719468
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// ymd is the inverse of dayNumber.
func ymd(n int64) (y, m, d int64) {
	y = 1970 + floorDiv(n*400, 146097)
	for dayNumber(y+1, 1, 1) <= n {
		y++
	}
	for dayNumber(y, 1, 1) > n {
		y--
	}
	for m = 12; dayNumber(y, m, 1) > n; m-- {
	}
	return y, m, n - dayNumber(y, m, 1) + 1
}

func monthLen(y, m int64) int64 { return dayNumber(y, m+1, 1) - dayNumber(y, m, 1) }

func leap(y int64) bool { return monthLen(y, 2) == 29 }

func civilOf(t time.Time) civil {
	_, off := t.Zone()
	u := t.Unix() + int64(off)
	d := floorDiv(u, 86400)
	return civil{d, u - d*86400, int64(t.Nanosecond())}
}

func (c civil) less(o civil) bool {
	if c.day != o.day {
		return c.day < o.day
	}
	if c.sec != o.sec {
		return c.sec < o.sec
	}
	return c.nano < o.nano
}

func (c civil) String() string {
	y, m, d := ymd(c.day)
	return fmt.Sprintf("%d-%02d-%02d %02d:%02d:%02d.%09d", y, m, d, c.sec/3600, c.sec/60%60, c.sec%60, c.nano)
}

// unix returns the instants a wall clock reading may be in a zone; ok is false
// unless there is exactly one.
func (c civil) unix(loc *time.Location) (int64, bool) {
	w := c.day*86400 + c.sec
	var got []int64
	seen := map[int]bool{}
	for _, probe := range []int64{w - 180000, w - 90000, w - 50400, w, w + 50400, w + 90000, w + 180000} {
		_, off := time.Unix(probe, 0).In(loc).Zone()
		if seen[off] {
			continue
		}
		seen[off] = true
		u := w - int64(off)
		if _, o := time.Unix(u, 0).In(loc).Zone(); o == off {
			got = append(got, u)
		}
	}
	if len(got) != 1 {
		return 0, false
	}
	return got[0], true
}

const (
	uSecond = iota
	uMinute
	uHour
	uDay
	uWeek
	uMonth
	uYear
	uDecade
)

var unitNames = []string{"second", "minute", "hour", "day", "week", "month", "year", "decade"}

// answer is what the model expects.
type answer struct {
	at   civil
	loc  *time.Location
	unix int64
	// judged is false where the wall clock of the zone does not determine the
	// instant (a reading that is skipped or repeated).
	judged bool
	// wraps is the instant that an overflow of time.Duration leads to.
	wraps *int64
}

// denote computes what an expression means at an instant.
func denote(op plan.Op, now time.Time) answer {
	m, g := op.Means, op.Cfg
	if g == nil {
		g = &plan.Cfg{}
	}
	loc := now.Location()
	if m.TZ != nil {
		loc = time.FixedZone("", *m.TZ)
	} else if g.TZ != "" {
		loc = zoneOf(g.TZ)
	}
	past, future := g.PDS == 1, g.PDS == 2
	c := civilOf(now.In(loc))
	if m.TZ != nil && m.Kind != "rel" && !past && !future {
		// without a preferred side the missing parts come from the current time as given
		c = civilOf(now)
	}
	var tod int64
	if m.Time != nil {
		tod = int64(m.Time[0]*3600 + m.Time[1]*60 + m.Time[2])
	}
	if m.Kind == "format" && m.TZ == nil && g.TZ == "" {
		loc = time.UTC
	}
	a := answer{loc: loc, judged: true}

	switch m.Kind {
	case "format": // parts that the layout lacks come from the clock and the preferences
		y, mo, d := ymd(c.day)
		switch {
		case m.Day != 0:
			d = int64(m.Day)
		case g.PDOM == 1:
			d = 1
		case g.PDOM == 2:
			d = 31
		}
		switch {
		case m.Month != 0:
			mo = int64(m.Month)
		case g.PMOY == 1:
			mo = 1
		case g.PMOY == 2:
			mo = 12
		}
		if m.Year != 0 {
			y = int64(m.Year)
		} else if m.Day == 29 && m.Month == 2 && !leap(y) {
			a.judged = false // left to the other parsers
			return a
		}
		a.at = civil{dayNumber(y, mo, min(d, monthLen(y, mo))), tod, 0}

	case "rel":
		sign := int64(m.Sign)
		if sign == 0 {
			sign = -1
			if future {
				sign = 1
			}
		}
		var months, days, secs, wrapped int64
		for _, p := range m.Parts {
			n := int64(p[1]) // tenths: 0 or 5
			if p[0] <= uHour {
				wrapped += n / 10 * []int64{1, 60, 3600}[p[0]] * int64(time.Second)
			}
			switch p[0] {
			case uSecond:
				secs += n / 10
			case uMinute:
				secs += n * 60 / 10
			case uHour:
				secs += n * 3600 / 10
			case uDay:
				days += n / 10
				secs += n % 10 * 86400 / 10
			case uWeek:
				days += n * 7 / 10
				secs += n * 7 % 10 * 86400 / 10
			case uMonth:
				months += n / 10
				days += n % 10 * 30 / 10
			case uYear:
				months += n / 10 * 12
				months += n % 10 * 12 / 10
			case uDecade:
				months += n * 12
			}
		}
		y, mo, d := ymd(c.day)
		mo += sign * months
		if g.EOM {
			first := dayNumber(y, mo, 1)
			yy, mm, _ := ymd(first)
			d = min(d, monthLen(yy, mm))
		}
		mid := civil{dayNumber(y, mo, d), c.sec, c.nano}
		if g.EOM {
			_, a.judged = mid.unix(loc)
		}
		mid.day += sign * days
		at, ok := mid.unix(loc)
		if months == 0 && days == 0 && !g.EOM {
			at, ok = now.Unix(), true // not moved on the calendar
			if y2 := floorDiv(now.Unix(), 1); y2 != at {
				ok = false
			}
			if _, only := c.unix(loc); !only {
				ok = false
			}
		}
		a.judged = a.judged && ok
		if secs > math.MaxInt64/int64(time.Second) && len(m.Parts) == 1 {
			w := time.Unix(at, c.nano).Add(time.Duration(sign * wrapped)).Unix()
			if m.Time != nil {
				x := civilOf(time.Unix(w, 0).In(loc))
				x.sec = tod
				w, _ = x.unix(loc)
			}
			a.wraps = &w
		}
		at += sign * secs
		a.unix = at
		a.at = civilOf(time.Unix(at, c.nano).In(loc))
		if m.Time != nil {
			a.at.sec, a.at.nano = tod, 0
			a.unix, ok = a.at.unix(loc)
			a.judged = a.judged && ok
		}
		return a

	case "weekday":
		wd := (c.day + 4) % 7 // 1970-01-01 was a Thursday
		if wd < 0 {
			wd += 7
		}
		diff := int64(m.WD) - wd // -6..6
		switch {
		case future && diff <= 0:
			diff += 7
		case past && diff >= 0:
			diff -= 7
		case !future && !past && diff > 0:
			diff -= 7
		}
		a.at = civil{c.day + diff, tod, 0}

	case "time":
		a.at = civil{c.day, tod, 0}
		if past && c.less(a.at) {
			a.at.day--
		}
		if future && a.at.less(c) {
			a.at.day++
		}

	case "date":
		y, mo, d := ymd(c.day)
		cy, cm, cd := y, mo, d
		if m.Month != 0 {
			mo = int64(m.Month)
		} else {
			switch g.PMOY {
			case 1:
				mo = 1
			case 2:
				mo = 12
			}
		}
		if m.Day != 0 {
			d = int64(m.Day)
		}
		if m.Year != 0 {
			y = int64(m.Year)
		}
		switch {
		case m.Day != 0 && m.Month != 0 && m.Year == 0:
			// the year that makes it the closest on the requested side
			at := func(y int64) civil {
				return civil{dayNumber(y, mo, min(d, monthLen(y, mo))), tod, 0}
			}
			exists := func(y int64) bool { return d != 29 || mo != 2 || leap(y) }
			switch {
			case past:
				for y = cy + 1; !exists(y) || c.less(at(y)); y-- {
				}
			case future:
				for y = cy - 1; !exists(y) || !c.less(at(y)); y++ {
				}
			default:
				if !exists(y) {
					back, ahead := y, y
					for ; !leap(back); back-- {
					}
					for ; !leap(ahead); ahead++ {
					}
					y = back
					if ahead-cy < cy-back {
						y = ahead
					}
				}
			}
			a.at = at(y)
		default:
			if m.Day == 0 {
				d = cd
				switch g.PDOM {
				case 1:
					d = 1
				case 2:
					d = 31
				}
			}
			if m.Month != 0 && m.Year == 0 {
				// a month alone: the current one counts as past
				if past && mo > cm {
					y--
				}
				if future && mo <= cm {
					y++
				}
			}
			a.at = civil{dayNumber(y, mo, min(d, monthLen(y, mo))), tod, 0}
			if m.YY {
				at := func(y int64) civil { return civil{dayNumber(y, mo, d), tod, 0} }
				if past && c.less(a.at) {
					a.at = at(y - 100)
				}
				if future && !c.less(a.at) {
					a.at = at(y + 100)
				}
				a.judged = cy >= 1969 && cy <= 2068 && d <= monthLen(y, mo) && (d != 29 || mo != 2 || (y != 2000 && y != 1900))
			}
		}
	}
	var ok bool
	a.unix, ok = a.at.unix(loc)
	a.judged = a.judged && ok
	if m.Kind == "time" && (past || future) || m.Kind == "date" && (past || future) {
		// near a change of the offset the order of wall clocks is not the order of instants
		if _, only := c.unix(loc); !only {
			a.judged = false
		}
	}
	return a
}

func zoneOf(s string) *time.Location {
	if s != "" && (s[0] == '+' || s[0] == '-') {
		n, _ := strconv.Atoi(s)
		return time.FixedZone("X", n)
	}
	l, err := time.LoadLocation(s)
	if err != nil {
		panic(err)
	}
	return l
}

// wallOf takes a canonical result apart.
func wallOf(s string) (unix int64, wall string, ok bool) {
	f := strings.Split(s, "|")
	if len(f) < 7 || f[0] != "ok" {
		return 0, "", false
	}
	u, _, _ := strings.Cut(f[3], ".")
	n, err := strconv.ParseInt(u, 10, 64)
	if err != nil {
		return 0, "", false
	}
	w, frac, _ := strings.Cut(f[4], ".")
	for len(frac) < 9 {
		frac += "0"
	}
	return n, w + "." + frac, true
}

func calendarOracle(v *vsim, run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error) {
	if x := failureViolation(res); x != nil {
		return x, nil
	}
	for c := range run.Clients {
		for k, op := range run.Clients[c] {
			if op.Means == nil {
				continue
			}
			o := res.Ops[c][k]
			if !o.Done {
				return &violation{"unfinished", fmt.Sprintf("client %d op %d %s never finished", c, k, opText(op))}, nil
			}
			v.count(op, o)
			var vals []time.Time
			if op.Cfg != nil && op.Cfg.Now != "" {
				t, err := time.Parse(time.RFC3339Nano, op.Cfg.Now)
				if err != nil {
					return nil, err
				}
				if op.Cfg.NowTZ != "" {
					t = t.In(zoneOf(op.Cfg.NowTZ))
				}
				vals = append(vals, t)
			} else {
				at := run.Clock
				for _, e := range res.Clock {
					if e.Seq <= o.Start {
						at = e.At
					}
				}
				for _, e := range res.Clock {
					if e.Seq > o.Start && e.Seq <= o.End {
						vals = append(vals, e.At.UTC())
					}
				}
				vals = append(vals, at.UTC())
			}
			unix, wall, parsed := wallOf(o.S)
			ok := false
			var wants []string
			for _, t := range vals {
				a := denote(op, t)
				if !a.judged {
					v.st.probe("not judged: the wall clock is skipped or repeated", 1)
					ok = true
					break
				}
				if parsed && a.unix == unix && a.at.String() == wall {
					ok = true
					break
				}
				if parsed && a.wraps != nil && *a.wraps == unix {
					x := &violation{"calendar overflow", fmt.Sprintf("client %d op %d %s\n    returned %s\n    it denotes %s: the duration doesn't fit in time.Duration and wrapped around", c, k, opText(op), o.S, a.at)}
					if !v.isKnown(x) {
						return x, nil
					}
					v.st.probe("known finding met again", 1)
					ok = true
					break
				}
				if len(wants) < 4 {
					wants = append(wants, fmt.Sprintf("at %s it denotes %s (%d)", t.Format(time.RFC3339Nano), a.at, a.unix))
				}
			}
			v.st.probe("judged "+op.Means.Kind, 1)
			if !ok {
				return &violation{"calendar " + op.Means.Kind, fmt.Sprintf("client %d op %d %s\n    returned %s\n    %s", c, k, opText(op), o.S, strings.Join(wants, "\n    "))}, nil
			}
		}
	}
	return nil, nil
}

// relWords of some languages: today, yesterday, tomorrow; then templates for
// the past and the future with unit words in the plural.
type relLang struct {
	days      [3]string
	past, fut string
	units     map[int]string
}

var relLangs = map[string]relLang{
	"fr": {[3]string{"aujourd'hui", "hier", "demain"}, "il y a %d %s", "dans %d %s", map[int]string{uDay: "jours", uMonth: "mois", uYear: "ans", uHour: "heures", uMinute: "minutes", uWeek: "semaines"}},
	"de": {[3]string{"heute", "gestern", "morgen"}, "vor %d %s", "in %d %s", map[int]string{uDay: "tagen", uMonth: "monaten", uYear: "jahren", uHour: "stunden", uMinute: "minuten", uWeek: "wochen"}},
	"es": {[3]string{"hoy", "ayer", "mañana"}, "hace %d %s", "en %d %s", map[int]string{uDay: "días", uMonth: "meses", uYear: "años", uHour: "horas", uMinute: "minutos", uWeek: "semanas"}},
	"it": {[3]string{"oggi", "ieri", "domani"}, "%d %s fa", "tra %d %s", map[int]string{uDay: "giorni", uMonth: "mesi", uYear: "anni", uHour: "ore", uMinute: "minuti", uWeek: "settimane"}},
	"pt": {[3]string{"hoje", "ontem", "amanhã"}, "há %d %s", "em %d %s", map[int]string{uDay: "dias", uMonth: "meses", uYear: "anos", uHour: "horas", uMinute: "minutos", uWeek: "semanas"}},
	"ru": {[3]string{"сегодня", "вчера", "завтра"}, "%d %s назад", "через %d %s", map[int]string{uDay: "дней", uMonth: "месяцев", uYear: "лет", uHour: "часов", uMinute: "минут", uWeek: "недель"}},
	"nl": {[3]string{"vandaag", "gisteren", "morgen"}, "%d %s geleden", "over %d %s", map[int]string{uDay: "dagen", uMonth: "maanden", uYear: "jaar", uHour: "uur", uMinute: "minuten", uWeek: "weken"}},
	"tr": {[3]string{"bugün", "dün", "yarın"}, "%d %s önce", "%d %s sonra", map[int]string{uDay: "gün", uMonth: "ay", uYear: "yıl", uHour: "saat", uMinute: "dakika", uWeek: "hafta"}},
}

var relPhrases = []struct {
	s             string
	unit, n, sign int
}{{"now", uSecond, 0, -1}, {"just now", uSecond, 0, -1}, {"last week", uWeek, 1, -1}, {"next week", uWeek, 1, 1}, {"last month", uMonth, 1, -1},
	{"next month", uMonth, 1, 1}, {"last year", uYear, 1, -1}, {"next year", uYear, 1, 1}, {"this week", uWeek, 0, -1}, {"this month", uMonth, 0, -1},
	{"this year", uYear, 0, -1}, {"this hour", uHour, 0, -1}, {"this minute", uMinute, 0, -1}, {"a week ago", uWeek, 1, -1}, {"an hour ago", uHour, 1, -1}, {"in a year", uYear, 1, 1}, {"in a day", uDay, 1, 1}, {"the day before yesterday", uDay, 2, -1}, {"day before yesterday", uDay, 2, -1}, {"the day after tomorrow", uDay, 2, 1}, {"last decade", uDecade, 1, -1}, {"next decade", uDecade, 1, 1}}

var relNames = []string{"fr", "de", "es", "it", "pt", "ru", "nl", "tr"}

var calZones = []string{"America/New_York", "Europe/Berlin", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "Pacific/Kiritimati", "+20700", "-34200", "America/St_Johns", "Africa/Casablanca", "America/Sao_Paulo", "Asia/Tehran", "Europe/London", "Pacific/Auckland"}

// calendarInstant draws an instant that is delicate in a zone.
func calendarInstant(r *rng, loc *time.Location) time.Time {
	y := r.in(1995, 2040)
	if r.p(1, 6) {
		y = r.in(1905, 2190)
	}
	eps := pick(r, []time.Duration{0, 1, -1, time.Millisecond, -time.Millisecond, time.Second, -time.Second, time.Minute, -time.Minute, time.Hour, -time.Hour, 11 * time.Hour, -5 * time.Hour})
	switch r.n(10) {
	case 0:
		return time.Date(y, time.Month(r.in(1, 12)), 1, 0, 0, 0, 0, loc).Add(eps)
	case 1:
		return time.Date(y, 1, 1, 0, 0, 0, 0, loc).Add(eps)
	case 2:
		return time.Date(y-y%4, 2, 29, r.n(24), r.n(60), r.n(60), r.n(1e9), loc)
	case 3:
		return time.Date(y, 3, 1, 0, 0, 0, 0, loc).Add(eps)
	case 4:
		return time.Date(y, time.Month(r.in(1, 12)), 1, 0, 0, 0, 0, loc).AddDate(0, 1, -1).Add(time.Duration(r.n(86400)) * time.Second)
	case 5:
		t := time.Date(y, time.Month(r.in(1, 12)), r.in(1, 28), 0, 0, 0, 0, loc)
		if _, end := t.ZoneBounds(); !end.IsZero() {
			return end.Add(eps)
		}
		return t
	case 6:
		return time.Date(y, time.Month(r.in(1, 12)), r.in(1, 31), 0, 0, 0, 0, loc).Add(eps)
	default:
		return time.Date(y, time.Month(r.in(1, 12)), r.in(1, 31), r.n(24), r.n(60), r.n(60), r.n(1e9), loc)
	}
}

func tenths(n int) string {
	if n%10 == 0 {
		return strconv.Itoa(n / 10)
	}
	return fmt.Sprintf("%d.%d", n/10, n%10)
}

// calendarOp draws an expression with its meaning.
func calendarOp(r *rng) plan.Op {
	op := plan.Op{Kind: "parse", Cfg: &plan.Cfg{Languages: []string{"en"}}, Means: &plan.Means{}}
	g, m := op.Cfg, op.Means
	g.PDS = uint8(r.n(3))
	g.EOM = r.p(1, 3)
	g.TimePer = r.p(1, 6)
	if r.p(1, 4) {
		g.PDOM = uint8(r.in(1, 2))
	}
	if r.p(1, 4) {
		g.PMOY = uint8(r.in(1, 2))
	}
	if r.p(1, 5) {
		g.Order = "DMY"
	}
	tod := func() string {
		h, mi, s := r.n(24), r.n(60), 0
		if r.p(1, 4) {
			h, mi = pick(r, []int{0, 23, 12}), pick(r, []int{0, 59, 1})
		}
		switch r.n(3) {
		case 0:
			s = r.n(60)
			m.Time = []int{h, mi, s}
			return fmt.Sprintf("%02d:%02d:%02d", h, mi, s)
		case 1:
			m.Time = []int{h, mi, 0}
			x, h12 := "am", h
			if h >= 12 {
				x, h12 = "pm", h-12
			}
			if h12 == 0 {
				h12 = 12
			}
			return fmt.Sprintf("%d:%02d %s", h12, mi, x)
		default:
			m.Time = []int{h, mi, 0}
			return fmt.Sprintf("%d:%02d", h, mi)
		}
	}
	zoned := true
	switch k := r.n(22); {
	case k >= 20:
		return formatOp(r, op)
	case k < 5: // English durations
		m.Kind = "rel"
		n := 1
		if r.p(1, 3) {
			n = r.in(2, 3)
		}
		var words []string
		u := uDecade
		for ; n > 0 && u >= 0; n-- {
			u = r.n(u + 1)
			q := 10 * pick(r, []int{1, 2, 3, r.in(1, 12), r.in(1, 12), r.in(0, 40), r.in(1, 70)})
			if u <= uSecond+1 {
				q = 10 * r.in(0, 200)
			}
			if n == 1 && len(words) == 0 && r.p(1, 10) { // a long way
				q = 10 * r.in(100, []int{900000000, 15000000, 250000, 400000, 60000, 15000, 1500, 100}[u])
				if u <= uHour && r.p(1, 3) {
					q = 10 * []int{r.in(10000000000, 19999999999), r.in(153000000, 500000000), r.in(2562000, 9000000)}[u]
				}
			} else if u >= uMinute && u != uDecade && r.p(1, 8) && len(words) == 0 && n == 1 {
				q += 5
			}
			name := unitNames[u]
			if q != 10 || r.p(1, 2) {
				name += "s"
			}
			words = append(words, tenths(q)+" "+name)
			m.Parts = append(m.Parts, [2]int{u, q})
			u--
		}
		s := strings.Join(words, pick(r, []string{" ", ", ", " and "}))
		switch r.n(5) {
		case 0, 1:
			m.Sign, s = -1, s+" ago"
		case 2, 3:
			m.Sign, s = 1, "in "+s
		}
		if r.p(1, 6) {
			s += " " + tod()
		}
		op.Str = s
	case k < 7: // other languages
		l := pick(r, relNames)
		t := relLangs[l]
		g.Languages = []string{l}
		m.Kind, m.Sign = "rel", -1
		f := t.past
		if r.p(1, 2) {
			f, m.Sign = t.fut, 1
		}
		var us []int
		for u := uSecond; u <= uDecade; u++ {
			if t.units[u] != "" {
				us = append(us, u)
			}
		}
		u, n := pick(r, us), r.in(5, 20)
		m.Parts = [][2]int{{u, n * 10}}
		op.Str = fmt.Sprintf(f, n, t.units[u])
		zoned = false
	case k < 10: // today, yesterday, tomorrow
		m.Kind = "rel"
		i := r.n(3)
		m.Parts = [][2]int{{uDay, []int{0, 10, 10}[i]}}
		m.Sign = []int{-1, -1, 1}[i]
		op.Str = []string{"today", "yesterday", "tomorrow"}[i]
		if r.p(1, 4) {
			w := pick(r, relPhrases)
			op.Str, m.Parts, m.Sign = w.s, [][2]int{{w.unit, 10 * w.n}}, w.sign
		} else if r.p(2, 5) {
			l := pick(r, relNames)
			g.Languages = []string{l}
			op.Str = relLangs[l].days[i]
			zoned = false
		} else if r.p(1, 3) {
			op.Str += " " + tod()
		}
	case k < 12:
		m.Kind = "weekday"
		m.WD = r.n(7)
		op.Str = pick(r, []string{time.Weekday(m.WD).String(), strings.ToLower(time.Weekday(m.WD).String()), time.Weekday(m.WD).String()[:3]})
		if r.p(1, 3) {
			op.Str += " " + tod()
		}
	case k < 16:
		m.Kind = "date"
		m.Month = r.in(1, 12)
		m.Day = r.in(1, int(monthLen(2004, int64(m.Month))))
		if r.p(1, 6) {
			m.Month, m.Day = 2, 29
		}
		n := time.Month(m.Month).String()
		if r.p(1, 3) {
			n = n[:3]
		}
		op.Str = fmt.Sprintf(pick(r, []string{"%[1]d %[2]s", "%[2]s %[1]d"}), m.Day, n)
		if r.p(1, 5) {
			m.Year, m.YY = r.in(1969, 2068), true
			op.Str += fmt.Sprintf(" %02d", m.Year%100)
		}
		if r.p(1, 3) {
			op.Str += " " + tod()
		}
	case k < 18:
		m.Kind = "time"
		op.Str = tod()
	default:
		m.Kind = "date"
		m.Month = r.in(1, 12)
		op.Str = time.Month(m.Month).String()
		if r.p(1, 2) {
			m.Year = r.in(1970, 2060)
			op.Str += fmt.Sprintf(" %d", m.Year)
		} else if r.p(1, 2) {
			m.Month, m.Year = 0, r.in(1970, 2060)
			op.Str = fmt.Sprintf("%d", m.Year)
		}
	}
	if zoned && r.p(1, 5) && (m.Kind != "date" || m.Day != 0) {
		z := pick(r, []struct {
			s string
			o int
		}{{"UTC", 0}, {"EST", -5 * 3600}, {"PST", -8 * 3600}, {"JST", 9 * 3600}, {"+05:30", 19800}, {"-09:30", -34200}, {"CET", 3600}, {"+14:00", 50400}, {"-11:00", -39600}})
		m.TZ = &z.o
		op.Str += " " + z.s
	}
	return op
}

// formatOp draws a string for a custom format.
func formatOp(r *rng, op plan.Op) plan.Op {
	g, m := op.Cfg, op.Means
	m.Kind = "format"
	t := time.Date(r.in(1970, 2060), time.Month(r.in(1, 12)), r.in(1, 31), r.n(24), r.n(60), r.n(60), 0, time.UTC)
	if r.p(1, 5) {
		t = time.Date(r.in(1970, 2060), 2, pick(r, []int{28, 29, 1}), r.n(24), r.n(60), r.n(60), 0, time.UTC)
	}
	var parts []string
	if r.p(2, 3) {
		f := pick(r, []string{"02", "2", "_2"})
		parts = append(parts, f)
		m.Day = t.Day()
	}
	if r.p(2, 3) {
		parts = append(parts, pick(r, []string{"01", "1", "Jan", "January"}))
		m.Month = int(t.Month())
	}
	if r.p(1, 2) {
		parts = append(parts, pick(r, []string{"2006", "2006", "06"}))
		m.Year = t.Year()
		if parts[len(parts)-1] == "06" && m.Year < 1969 {
			m.Year += 100
		}
		if parts[len(parts)-1] == "06" && m.Year >= 2069 {
			m.Year -= 100
		}
	}
	for i := len(parts) - 1; i > 0; i-- {
		j := r.n(i + 1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	f := strings.Join(parts, pick(r, []string{"-", "/", ".", " ", " of "}))
	if len(parts) == 0 {
		g.PDOM, g.PMOY = 0, 0
	}
	if len(parts) == 0 || r.p(1, 2) {
		h := pick(r, []string{"15:04", "15:04:05", "3:04 PM", "15h04"})
		m.Time = []int{t.Hour(), t.Minute(), 0}
		if h == "15:04:05" {
			m.Time[2] = t.Second()
		}
		if f != "" {
			h = f + pick(r, []string{" ", ", ", " at "}) + h
		}
		f = h
		if len(parts) == 3 && r.p(1, 3) {
			z := pick(r, []int{0, 19800, -34200, 50400, -39600, 3600})
			f += " -07:00"
			t = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.FixedZone("", z))
			m.TZ = &z
		}
	}
	op.Str, op.Formats = t.Format(f), []string{f}
	if r.p(1, 3) {
		op.Formats = []string{"no such layout 2006", f}
	}
	return op
}

func (v *vsim) calendarJob(id int) (*suspect, error) {
	r := newRng(v.seed, "C10", id)
	s := v.session(Boot{}, 400)
	defer s.close()
	for k := 0; k < 220 && !v.halted(); k++ {
		run := &plan.Run{ID: k, Seed: r.next(), Parsers: []plan.ParserSpec{{}, {}}}
		loc := time.UTC
		tz := ""
		if r.p(1, 2) {
			tz = pick(r, calZones)
			loc = zoneOf(tz)
		}
		run.Clock = calendarInstant(r, loc).UTC()
		n := r.in(1, 2)
		for c := 0; c < n; c++ {
			var ops []plan.Op
			for i := r.in(4, 16); i > 0; i-- {
				op := calendarOp(r)
				op.Parser = r.in(-1, 1)
				if r.p(2, 3) {
					op.Cfg.TZ = tz
				}
				if r.p(1, 2) {
					x := loc
					if op.Means.TZ != nil && r.p(1, 2) {
						x = time.FixedZone("", *op.Means.TZ)
					}
					op.Cfg.Now = calendarInstant(r, x).UTC().Format(time.RFC3339Nano)
					if r.p(1, 3) {
						op.Cfg.NowTZ = pick(r, calZones)
					}
				}
				if r.p(1, 15) && len(op.Cfg.Languages) == 1 && op.Cfg.Languages[0] == "en" {
					op.Cfg = nil
				}
				ops = append(ops, op)
			}
			run.Clients = append(run.Clients, ops)
		}
		// the clock moves between and during the calls
		if r.p(2, 3) {
			run.Tick = int64(pick(r, []time.Duration{time.Second, 59 * time.Minute, 5 * time.Hour, 11*time.Hour + 7*time.Minute, 24 * time.Hour, 5 * 24 * time.Hour, 29 * 24 * time.Hour, -7 * time.Hour}))
		}
		for i := r.n(4); i > 0; i-- {
			run.ClockEv = append(run.ClockEv, plan.ClockEvent{Task: r.n(n), Read: r.in(1, 20), At: calendarInstant(r, loc).UTC()})
		}
		if n > 1 {
			run.Gap = uint64(pick(r, []int{200, 2000, 20000}))
		}
		res, x, err := s.exec(run)
		if err != nil {
			return nil, err
		}
		if x == nil {
			if x, err = calendarOracle(v, run, res, nil); err != nil {
				return nil, err
			}
		}
		if x != nil {
			return s.suspect(x), nil
		}
	}
	return nil, nil
}

func init() {
	props["C10"] = &prop{
		quick:  96,
		rule:   "a run is 1-2 callers with 4-16 relative or incomplete dates each (durations in nine languages, days, weekdays, day and month, times, months and years; preferred side, day, month, end of month, time zones) on a clock that starts at a delicate instant, ticks and jumps; distinct: schedule hash and calls; every result compared with a calendar model that shares no code with the library",
		job:    func(v *vsim, id int) (*suspect, error) { return v.calendarJob(id) },
		oracle: caseOracle(calendarOracle),
		assume: []string{"the offsets of time zones are taken from Go's package time", "wall clocks that a zone skips or repeats are not judged"},
	}
}
