package main

import (
	"fmt"
	"strings"
	"sync"
	"time"
	_ "time/tzdata"

	"verif/sim/plan"
)

// gap is an interval of wall clocks that a zone skips. Code that passes through
// the host's zone shows itself in such intervals.
type gap struct {
	zone string
	at   time.Time // the first skipped wall clock, in UTC
	size time.Duration
}

var gapZones = []string{"America/Havana", "America/Asuncion", "America/Santiago", "America/Sao_Paulo", "Asia/Amman", "Asia/Damascus",
	"Asia/Beirut", "Asia/Gaza", "Asia/Tehran", "Africa/Cairo", "Atlantic/Azores", "America/Scoresbysund", "Asia/Baghdad", "Asia/Baku",
	"America/Guatemala", "America/Mexico_City", "Pacific/Apia", "Pacific/Fakaofo", "Pacific/Kwajalein", "Pacific/Kiritimati",
	"Pacific/Enderbury", "America/New_York", "Europe/London", "Europe/Moscow", "Australia/Lord_Howe", "Africa/Monrovia", "Asia/Pyongyang",
	"America/Caracas", "Africa/Casablanca", "Africa/Tripoli", "America/Bahia", "Asia/Dhaka", "Asia/Karachi", "America/Godthab",
	"Antarctica/Troll", "Antarctica/Casey", "Asia/Kathmandu", "Asia/Ulaanbaatar", "Asia/Hovd", "America/Campo_Grande"}

// allGaps lists the gaps of the zones from 1971 to 2049: those at midnight of the
// first of a month, those at midnight, those of half a day or more, and all.
var allGaps = sync.OnceValue(func() (g [4][]gap) {
	for _, n := range gapZones {
		l, err := time.LoadLocation(n)
		if err != nil {
			continue
		}
		end := time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC)
		for t := time.Date(1971, 1, 1, 0, 0, 0, 0, time.UTC); t.Before(end); {
			_, next := t.In(l).ZoneBounds()
			if next.IsZero() {
				break
			}
			if !next.After(t) {
				t = t.Add(time.Hour)
				continue
			}
			_, o1 := next.Add(-time.Second).In(l).Zone()
			_, o2 := next.In(l).Zone()
			t = next
			if o2 <= o1 {
				continue
			}
			x := gap{n, next.UTC().Add(time.Duration(o1) * time.Second), time.Duration(o2-o1) * time.Second}
			last := x.at.Add(x.size - time.Nanosecond)
			mid := x.at.Equal(x.at.Truncate(24*time.Hour)) || x.at.YearDay() != last.YearDay()
			g[3] = append(g[3], x)
			if mid {
				g[1] = append(g[1], x)
				if last.Day() == 1 {
					g[0] = append(g[0], x)
				}
			}
			if x.size >= 12*time.Hour {
				g[2] = append(g[2], x)
			}
		}
	}
	return
})

// aimGap puts the universe at a gap of a zone: the clock stands around it, and
// operations have results or intermediate values within it.
func aimGap(r *rng, u *universe) {
	all := allGaps()
	g := pick(r, all[3])
	switch k := r.n(8); {
	case k < 3:
		g = pick(r, all[0])
	case k < 6:
		g = pick(r, all[1])
	case k < 7:
		g = pick(r, all[2])
	}
	u.home = g.zone
	inGap := func() time.Time { return g.at.Add(time.Duration(r.n(int(g.size/time.Minute))) * time.Minute) }
	clock := func() time.Time {
		t := inGap()
		switch r.n(8) {
		case 0:
		case 1: // some day of the month
			t = time.Date(t.Year(), t.Month(), r.in(1, 28), r.n(24), r.n(60), 0, 0, time.UTC)
		case 2: // its end
			t = time.Date(t.Year(), t.Month()+1, 0, r.n(24), r.n(60), 0, 0, time.UTC)
		case 3:
			t = time.Date(t.Year(), t.Month(), pick(r, []int{29, 30, 31}), r.n(24), r.n(60), 0, 0, time.UTC)
		case 4:
			t = t.AddDate(0, 0, pick(r, []int{-7, -2, -1, 1, 2, 7}))
		case 5:
			t = t.AddDate(0, pick(r, []int{-2, -1, 1, 2}), 0)
		case 6:
			t = t.AddDate(r.in(-3, 3), 0, 0)
		default:
			t = t.Add(time.Duration(r.in(-3, 3)) * time.Hour)
		}
		return t
	}
	u.clock = clock()
	for i := range u.ops {
		op := &u.ops[i]
		if op.Kind != "parse" || !r.p(1, 2) {
			continue
		}
		w := &plan.Cfg{}
		if op.Cfg != nil {
			*w = *op.Cfg
		}
		t := inGap()
		if r.p(1, 4) {
			t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
		}
		op.Formats = nil
		switch r.n(14) {
		case 0:
			op.Str = t.Format("2006-01-02 15:04")
		case 1:
			op.Str = t.Format("2 January 2006")
		case 2:
			op.Str = t.Format("January 2006")
			w.PDOM = uint8(r.n(3))
		case 3:
			op.Str = t.Format("January")
			w.PDOM = uint8(r.n(3))
		case 4:
			op.Str = t.Format("2 January 15:04")
		case 5:
			op.Str = t.Format("15:04")
		case 6:
			op.Str = t.Format("200601021504")[:pick(r, []int{6, 8, 12})]
		case 7:
			op.Str = t.Format("2006")
			w.PMOY = uint8(r.n(3))
			w.PDOM = uint8(r.n(3))
		case 8:
			op.Str = pick(r, []string{"yesterday", "tomorrow", "today"}) + t.Format(" 15:04")
		case 9:
			op.Str = fmt.Sprintf(pick(r, []string{"in %d %s", "%d %s ago"}), r.in(1, 7), pick(r, units[2:]))
		case 10:
			op.Str = t.Format("Monday")
		case 11:
			f := pick(r, []string{"2006-01-02 15:04", "2006-01-02", "January 2006", "2 Jan", "15:04", "02.01.06 15h04", "Jan"})
			op.Str, op.Formats = t.Format(f), []string{f}
			if r.p(2, 3) { // as it is written there
				f = pick(r, zoneFormats)
				op.Str, op.Formats = t.In(loadZone(g.zone)).Format(f), []string{f}
			}
			w.PDOM = uint8(r.n(3))
		case 12:
			op.Str = t.Format("2006-01-02 15:04 ") + pick(r, abbrs)
		default:
			op.Str = t.Format("Jan 02 ") + strings.TrimPrefix(t.Format("2006")[2:], "'")
			w.PDS = uint8(r.n(3))
		}
		w.Languages, w.Locales, w.Region = []string{"en"}, nil, ""
		w.Given = false
		if w.Now != "" || r.p(1, 4) {
			w.Now = clock().Format(time.RFC3339Nano)
		}
		op.Cfg = w
	}
}
