package main

import (
	"fmt"
	"io/fs"
	"math"
	"slices"
	"sort"
	"strings"
	"time"
	_ "time/tzdata"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/zz_verif/simrt"
)

// C15 (relative times) and C16 (concurrent humanizers).

func init() {
	scenarios["C15"] = &scenario{genC15, runC15}
	scenarios["C16"] = &scenario{genC16, runC16}
}

var zoneNames = []string{"UTC", "Europe/Berlin", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "Pacific/Kiritimati",
	"America/Sao_Paulo", "Africa/Cairo", "Australia/Lord_Howe", "Asia/Tehran", "America/St_Johns", "Atlantic/Azores",
	"Asia/Beirut", "America/Havana", "Pacific/Chatham", "fixed-12", "fixed+14", "fixed odd"}

var zones []*time.Location

func initZones() {
	if zones != nil {
		return
	}
	for _, n := range zoneNames {
		var l *time.Location
		switch n {
		case "fixed-12":
			l = time.FixedZone("M12", -12*3600)
		case "fixed+14":
			l = time.FixedZone("P14", 14*3600)
		case "fixed odd":
			l = time.FixedZone("ODD", 20*60+13)
		default:
			var err error
			if l, err = time.LoadLocation(n); err != nil {
				panic(err)
			}
		}
		zones = append(zones, l)
	}
}

// ---- model of a locale ----

type hloc struct {
	tag  language.Tag
	msgs map[string]map[int]string
	rule *poplural.Rule
	pr   *message.Printer
	fm   humanize.FormatData
}

var enPrinter = message.NewPrinter(language.English)

var fallbackFm = humanize.FormatData{DateFormat: "N j, Y", TimeFormat: "P", DateTimeFormat: "N j, Y, P", YearMonthFormat: "F Y", MonthDayFormat: "F j", ShortDateFormat: "m/d/Y", ShortDatetimeFormat: "m/d/Y P"}

func fmFields(f *humanize.FormatData) []*string {
	return []*string{&f.DateFormat, &f.TimeFormat, &f.DateTimeFormat, &f.YearMonthFormat, &f.MonthDayFormat, &f.ShortDateFormat, &f.ShortDatetimeFormat}
}

// maskLoc is the model of a locale whose formats are not all given.
func maskLoc(l *hloc, mask int) *hloc {
	if mask == 0 || l.msgs == nil {
		return l
	}
	c := *l
	fb := fmFields(&fallbackFm)
	for i, x := range fmFields(&c.fm) {
		if mask>>i&1 == 1 || mask>>7&1 == 1 {
			*x = *fb[i]
		}
	}
	return &c
}

// maskData removes formats of a locale.
func maskData(d *humanize.LocaleData, mask int) *humanize.LocaleData {
	if mask == 0 || d.Format == nil {
		return d
	}
	f := *d.Format
	for i, x := range fmFields(&f) {
		if mask>>i&1 == 1 {
			*x = ""
		}
	}
	c := *d
	c.Format = &f
	if mask>>7&1 == 1 {
		c.Format = nil
	}
	return &c
}

var hlocs = map[string]*hloc{}

func modelLoc(name string) *hloc {
	if l, ok := hlocs[name]; ok {
		return l
	}
	l := &hloc{tag: language.English, fm: fallbackFm, pr: enPrinter}
	if mk, ok := realLocales[name]; ok {
		d := mk()
		data, err := fs.ReadFile(d.Fs, "django.po")
		if err != nil {
			panic(err)
		}
		f, err := po.Parse(data)
		if err != nil {
			panic(err)
		}
		l.tag = d.Lang
		l.pr = message.NewPrinter(d.Lang)
		l.rule, err = poplural.Parse(f.Header.PluralForms)
		if err != nil {
			panic(err)
		}
		l.msgs = map[string]map[int]string{}
		for ctx, m := range f.Messages {
			for id, msg := range m {
				if msg.Comment != nil && msg.Comment.HasFlag("fuzzy") {
					continue
				}
				l.msgs[ctx+"\x04"+id] = msg.Str
			}
		}
		if d.Format != nil {
			l.fm = *d.Format
			fb := fmFields(&fallbackFm)
			for i, x := range fmFields(&l.fm) {
				if *x == "" {
					*x = *fb[i]
				}
			}
		}
	}
	hlocs[name] = l
	return l
}

func (l *hloc) get(ctx, id string) string {
	if s := l.msgs[ctx+"\x04"+id][0]; s != "" {
		return s
	}
	return id
}

func (l *hloc) getf(ctx, id string, args ...any) string {
	if s := l.msgs[ctx+"\x04"+id][0]; s != "" {
		return l.pr.Sprintf(s, args...)
	}
	return enPrinter.Sprintf(id, args...)
}

func (l *hloc) ngetf(ctx, one, other string, n int64) string {
	if l.rule != nil {
		i, err := l.rule.Evaluate(n)
		if s := l.msgs[ctx+"\x04"+one][i]; s != "" && err == nil {
			return l.pr.Sprintf(s, n)
		}
	}
	if n == 1 {
		return enPrinter.Sprintf(one, n)
	}
	return enPrinter.Sprintf(other, n)
}

// date formats a time in the Django syntax.
func (l *hloc) date(t time.Time, format string) string {
	switch format {
	case humanize.DateFormat:
		format = l.fm.DateFormat
	case humanize.TimeFormat:
		format = l.fm.TimeFormat
	case humanize.DateTimeFormat:
		format = l.fm.DateTimeFormat
	case humanize.YearMonthFormat:
		format = l.fm.YearMonthFormat
	case humanize.MonthDayFormat:
		format = l.fm.MonthDayFormat
	case humanize.ShortDateFormat:
		format = l.fm.ShortDateFormat
	case humanize.ShortDatetimeFormat:
		format = l.fm.ShortDatetimeFormat
	}
	ampm := func() string {
		if t.Hour() >= 12 {
			return l.get("", "p.m.")
		}
		return l.get("", "a.m.")
	}
	h12 := (t.Hour()+11)%12 + 1
	short := func() string {
		if t.Minute() == 0 {
			return fmt.Sprint(h12)
		}
		return fmt.Sprintf("%d:%02d", h12, t.Minute())
	}
	var b strings.Builder
	rs := []rune(format)
	for i := 0; i < len(rs); i++ {
		switch rs[i] {
		case '\\':
			i++
			if i < len(rs) {
				b.WriteRune(rs[i])
			}
		case 'a':
			b.WriteString(ampm())
		case 'A':
			b.WriteString(l.get("", map[bool]string{true: "PM", false: "AM"}[t.Hour() >= 12]))
		case 'b':
			b.WriteString(l.get("", strings.ToLower(t.Month().String()[:3])))
		case 'd':
			fmt.Fprintf(&b, "%02d", t.Day())
		case 'D':
			b.WriteString(l.get("", t.Weekday().String()[:3]))
		case 'e':
			z, _ := t.Zone()
			b.WriteString(z)
		case 'E':
			b.WriteString(l.get("alt. month", t.Month().String()))
		case 'f':
			b.WriteString(short())
		case 'F':
			b.WriteString(l.get("", t.Month().String()))
		case 'g':
			fmt.Fprint(&b, h12)
		case 'G':
			fmt.Fprint(&b, t.Hour())
		case 'h':
			fmt.Fprintf(&b, "%02d", h12)
		case 'H':
			fmt.Fprintf(&b, "%02d", t.Hour())
		case 'i':
			fmt.Fprintf(&b, "%02d", t.Minute())
		case 'j':
			fmt.Fprint(&b, t.Day())
		case 'l':
			b.WriteString(l.get("", t.Weekday().String()))
		case 'm':
			fmt.Fprintf(&b, "%02d", int(t.Month()))
		case 'M':
			m := []rune(l.get("", strings.ToLower(t.Month().String()[:3])))
			b.WriteString(strings.ToUpper(string(m[:1])) + string(m[1:]))
		case 'n':
			fmt.Fprint(&b, int(t.Month()))
		case 'N':
			m := t.Month().String()
			switch {
			case m == "September":
				m = "Sept."
			case len(m) > 5:
				m = m[:3] + "."
			}
			b.WriteString(l.get("abbrev. month", m))
		case 'L':
			fmt.Fprint(&b, time.Date(t.Year(), 2, 29, 0, 0, 0, 0, time.UTC).Month() == 2)
		case 'o', 'W':
			y, w := isoWeek(t)
			fmt.Fprint(&b, map[rune]int{'o': y, 'W': w}[rs[i]])
		case 'O', 'r':
			_, off := t.Zone()
			sign := "+"
			if off < 0 {
				off, sign = -off, "-"
			}
			z := fmt.Sprintf("%s%02d%02d", sign, off/3600, off/60%60)
			if rs[i] == 'r' {
				z = fmt.Sprintf("%s, %02d %s %04d %02d:%02d:%02d %s", t.Weekday().String()[:3], t.Day(), t.Month().String()[:3], t.Year(), t.Hour(), t.Minute(), t.Second(), z)
			}
			b.WriteString(z)
		case 'S':
			switch d := t.Day(); {
			case d == 1 || d == 21 || d == 31:
				b.WriteString("st")
			case d == 2 || d == 22:
				b.WriteString("nd")
			case d == 3 || d == 23:
				b.WriteString("rd")
			default:
				b.WriteString("th")
			}
		case 't':
			fmt.Fprint(&b, time.Date(t.Year(), t.Month()+1, 0, 0, 0, 0, 0, time.UTC).Day())
		case 'T':
			b.WriteString(time.Local.String())
		case 'u':
			fmt.Fprintf(&b, "%06d", t.Nanosecond()/1000)
		case 'w':
			fmt.Fprint(&b, int(t.Weekday()))
		case 'z':
			fmt.Fprint(&b, yearDay(t))
		case 'P':
			switch {
			case t.Hour() == 0 && t.Minute() == 0:
				b.WriteString(l.get("", "midnight"))
			case t.Hour() == 12 && t.Minute() == 0:
				b.WriteString(l.get("", "noon"))
			default:
				b.WriteString(short() + " " + ampm())
			}
		case 's':
			fmt.Fprintf(&b, "%02d", t.Second())
		case 'U':
			fmt.Fprint(&b, t.Unix())
		case 'y':
			fmt.Fprintf(&b, "%02d", t.Year()%100)
		case 'Y':
			fmt.Fprintf(&b, "%04d", t.Year())
		case 'Z':
			_, off := t.Zone()
			fmt.Fprint(&b, off)
		default:
			b.WriteRune(rs[i])
		}
	}
	return b.String()
}

func yearDay(t time.Time) int {
	d := t.Day()
	for m := time.January; m < t.Month(); m++ {
		d += time.Date(t.Year(), m+1, 0, 0, 0, 0, 0, time.UTC).Day()
	}
	return d
}

// isoWeek follows the definition: a week belongs to the year its Thursday is in.
func isoWeek(t time.Time) (year, week int) {
	th := time.Date(t.Year(), t.Month(), t.Day()+3-(int(t.Weekday())+6)%7, 12, 0, 0, 0, time.UTC)
	return th.Year(), (yearDay(th)-1)/7 + 1
}

// ---- model of the relative times ----

func naturalDay(l *hloc, t, now time.Time) []string {
	now = now.In(t.Location())
	day := func(x time.Time) int64 { // days since the epoch, by calendar date
		return int64(math.Floor(float64(time.Date(x.Year(), x.Month(), x.Day(), 12, 0, 0, 0, time.UTC).Unix()) / 86400))
	}
	switch day(t) - day(now) {
	case 0:
		return []string{l.get("", "today")}
	case 1:
		return []string{l.get("", "tomorrow")}
	case -1:
		return []string{l.get("", "yesterday")}
	}
	return []string{l.date(t, humanize.DateFormat)}
}

type unit struct {
	name string
	secs int64
}

var units = []unit{{"year", 365 * 86400}, {"month", 30 * 86400}, {"week", 7 * 86400}, {"day", 86400}, {"hour", 3600}, {"minute", 60}}

func leapsBefore(y int) int { // leap years in [.., y)
	y--
	fl := func(a, b int) int { return int(math.Floor(float64(a) / float64(b))) }
	return fl(y, 4) - fl(y, 100) + fl(y, 400)
}

func isLeap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// sinceText writes an amount of seconds in the documented units. With fuzz a unit
// counts as complete when only one part in 2000 is missing.
func sinceText(l *hloc, ctx string, sec int64, depth int, adjacent, fuzz bool) string {
	count := func(u unit) int64 {
		if fuzz {
			return int64(math.Floor(math.Round(float64(sec)/float64(u.secs)*1000) / 1000))
		}
		if sec < 0 {
			return 0
		}
		return sec / u.secs
	}
	if depth <= 0 {
		depth = 2
	}
	var parts []string
	for _, u := range units {
		n := count(u)
		if n <= 0 {
			if adjacent && len(parts) > 0 {
				break
			}
			continue
		}
		parts = append(parts, l.ngetf(ctx, "%[1]v "+u.name, "%[1]v "+u.name+"s", n))
		sec -= n * u.secs
		if len(parts) == depth {
			break
		}
	}
	if sec0 := len(parts) == 0; sec0 {
		return l.ngetf(ctx, "%[1]v minute", "%[1]v minutes", 0)
	}
	return strings.Join(parts, l.get("", ", "))
}

// since returns the acceptable texts for the time from d to now.
func since(l *hloc, ctx string, d, now time.Time, depth int, adjacent bool) []string {
	var r []string
	for _, z := range [][2]int{{d.Year(), now.Year()}, {d.Year(), now.In(d.Location()).Year()}, {d.In(now.Location()).Year(), now.Year()}} {
		leap := leapsBefore(z[1]) - leapsBefore(z[0])
		if leap != 0 {
			if isLeap(z[0]) {
				leap--
			} else if isLeap(z[1]) {
				leap++
			}
		}
		sec := now.Unix() - d.Unix() - 86400*int64(leap)
		if sec < 0 {
			sec = 0
		}
		for _, fuzz := range []bool{true, false} {
			if s := sinceText(l, ctx, sec, depth, adjacent, fuzz); !slices.Contains(r, s) {
				r = append(r, s)
			}
		}
	}
	return r
}

func naturalTime(l *hloc, t, now time.Time) []string {
	past := t.Before(now)
	var r []string
	add := func(s ...string) {
		for _, x := range s {
			if !slices.Contains(r, x) {
				r = append(r, x)
			}
		}
	}
	dir, ctx, suffix := "ago", "naturaltime-past", "ago"
	a, b := t, now
	if !past {
		dir, ctx, suffix = "from now", "naturaltime-future", "from now"
		a, b = now, t
	}
	_ = dir
	ns := b.Unix()*1e9 + int64(b.Nanosecond()) - a.Unix()*1e9 - int64(a.Nanosecond())
	big := b.Unix()-a.Unix() > 200*365*86400
	text := func(sec int64) {
		switch {
		case sec == 0:
			add(l.get("", "now"))
		case sec < 60:
			add(l.ngetf("", "a second "+suffix, "%[1]v seconds "+suffix, sec))
		case sec < 3600:
			add(l.ngetf("", "a minute "+suffix, "%[1]v minutes "+suffix, sec/60))
		case sec < 86400:
			add(l.ngetf("", "an hour "+suffix, "%[1]v hours "+suffix, sec/3600))
		}
	}
	if !big {
		text(ns / 1e9)
		text((ns + 5e8) / 1e9)
	}
	if big || (ns+5e8)/1e9 >= 86400 {
		for _, s := range since(l, ctx, a, b, 2, true) {
			add(l.getf("", "%[1]v "+suffix, s))
		}
	}
	return r
}

// ---- calls ----

const (
	mNaturalDay = iota
	mNaturalTime
	mTimeSince
	mTimeUntil
	mTimeSinceFrom
	mTimeUntilFrom
	mNow
	mTime
	mDate
	mFormat
	mCount
)

// tcall is one call: A = slot, method, base, day shift, offset, zone, input kind,
// depth, flags, now offset, now zone, jump at, jump by.
type tcall struct {
	slot, meth, base, day, off, zone, in, depth, flags, noff, nzone, jat, jby int
}

func (c tcall) enc() []int {
	return []int{c.slot, c.meth, c.base, c.day, c.off, c.zone, c.in, c.depth, c.flags, c.noff, c.nzone, c.jat, c.jby}
}

func decTcall(a []int) tcall {
	for len(a) < 13 {
		a = append(a, 0)
	}
	return tcall{a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]}
}

const sec, minute, hour, day = 1_000_000_000, 60_000_000_000, 3600_000_000_000, 86400_000_000_000

// genOff draws an offset, often next to a boundary.
func genOff(r *simrt.Rand) int {
	b := pickI(r, 0, 0, sec, 30*sec, minute, 2*minute, 59*minute, hour, 2*hour, 23*hour, day, 2*day, 7*day, 8*day, 29*day, 30*day, 31*day, 60*day, 364*day, 365*day, 366*day, 730*day, 731*day, 1461*day, 3650*day, 20000*day)
	d := pickI(r, 0, 0, 1, 1000, sec/2-1, sec/2, sec/2+1, sec, 2*sec, 59*sec, minute, 50*minute, hour, 5*hour, 23*hour)
	if r.Chance(1, 3) {
		d = int(r.Next() % uint64(3*day))
	}
	o := b + d*pickI(r, -1, 1)
	if r.Chance(1, 2) {
		o = -o
	}
	return o
}

func genTcall(r *simrt.Rand, slots int) tcall {
	c := tcall{slot: r.Intn(slots), meth: r.Intn(mCount), zone: r.Intn(len(zoneNames) + 1), off: genOff(r), in: pickI(r, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10), nzone: r.Intn(len(zoneNames) + 1), noff: genOff(r)}
	if r.Chance(1, 2) {
		c.meth = r.Intn(2)
	}
	if c.meth == mNaturalDay && r.Chance(2, 3) || r.Chance(1, 6) { // around midnights
		c.base = 1
		c.day = pickI(r, -2, -1, -1, 0, 0, 1, 1, 2, 3)
		c.off = pickI(r, 0, -1, 1, -sec, sec, hour, -hour, 2*hour, 12*hour, 23*hour, 3*hour+30*minute)
	}
	if r.Chance(1, 12) {
		c.base = 2
		c.day = pickI(r, 2, 4, 100, 400, 1000, 1492, 1582, 1600, 1670, 1700, 1701, 1800, 1900, 2100, 2200, 2300, 2338, 2400, 3000, 5000, 9998)
	}
	if c.meth == mFormat && r.Chance(1, 2) || r.Chance(1, 16) { // around the ends of years and months
		c.base = 3
		c.day = pickI(r, 1999, 2000, 2004, 2008, 2010, 2015, 2016, 2019, 2020, 2021, 2023, 2024, 2025, 2026, 2027, 2028, 2030, 2100, r.Intn(3000), r.Intn(200)+1950)
		c.nzone = r.Intn(len(zoneNames) + 1)
		c.noff = pickI(r, 0, 0, 0, 0, 1, 2, 6, 9, 11, r.Intn(12))
	}
	if r.Chance(1, 3) {
		c.depth = pickI(r, 1, 2, 3, 4, 5, 6, 10, -1)
	}
	c.flags = pickI(r, 0, 0, 0, 1, 2, 3)
	if r.Chance(1, 3) {
		c.flags |= 4
		c.flags &^= 2
		c.depth = pickI(r, 1, 2, 3, -1)
	}
	if r.Chance(1, 8) {
		c.jat = 1 + r.Intn(3)
		c.jby = genOff(r)
	}
	return c
}

func (c tcall) zoneOf(i int) *time.Location {
	if i >= len(zones) {
		return time.Local
	}
	return zones[i]
}

// input returns the value passed to the method and a function that gives the time
// it stands for at a clock reading.
func (c tcall) input(clock time.Time) (any, func(now time.Time) time.Time) {
	z := c.zoneOf(c.zone)
	t := clock.Add(time.Duration(c.off)).In(z)
	if c.base == 1 {
		l := clock.In(z)
		t = time.Date(l.Year(), l.Month(), l.Day()+c.day, 0, 0, 0, 0, z).Add(time.Duration(c.off))
	}
	if c.base == 2 { // far away
		t = time.Date(c.day, time.Month(1+abs(c.noff)%12), 1+c.nzone*5%28, 0, 0, 0, 0, z).Add(time.Duration(c.off % day))
	}
	if c.base == 3 { // at the end of a month, or of a year of weeks
		d := int(time.Duration(c.off)%(6*24*time.Hour)) / hour * hour
		if c.flags&2 != 0 {
			d = d%(14*hour) - day*((int(time.Date(c.day, time.January, 4, 0, 0, 0, 0, time.UTC).Weekday())+6)%7-3)
			if abs(c.noff)%12 != 0 {
				d %= 14 * hour
			}
		}
		t = time.Date(c.day, time.Month(1+abs(c.noff)%12), 1, 0, 0, abs(c.off)%3, abs(c.off)%1e9, z).Add(time.Duration(d))
	}
	fix := func(x time.Time) func(time.Time) time.Time { return func(time.Time) time.Time { return x } }
	loc := func(s int64) func(time.Time) time.Time { return fix(time.Unix(s, 0)) }
	switch c.in {
	case 1:
		return &t, fix(t)
	case 2:
		d := t.Sub(clock)
		return d, func(now time.Time) time.Time { return now.Add(d) }
	case 3:
		return t.Unix(), loc(t.Unix())
	case 4:
		return float64(t.Unix()), loc(t.Unix())
	case 5:
		return fmt.Sprint(t.Unix()), loc(t.Unix())
	case 6:
		if u := t.Unix(); u >= 0 && u <= math.MaxUint32 {
			return uint32(u), loc(u)
		}
		return int(t.Unix()), loc(t.Unix())
	case 7:
		d := t.Sub(clock)
		return &d, func(now time.Time) time.Time { return now.Add(d) }
	case 8:
		return []any{nil, "not a time", "2020-01-01"}[abs(c.off)%3], nil
	case 9, 10:
		// Computed from an earlier reading of the clock, since when the two clocks went apart
		t = t.Local()
		x := simrt.ClockReading(t.Round(0), simrt.ClockMono()+int64(c.off/(1+abs(c.noff)%3))-int64(c.nzone)*hour)
		if c.in == 10 {
			return &x, fix(t)
		}
		return x, fix(t)
	}
	return t, fix(t)
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

var fmtList = []string{humanize.DateFormat, humanize.TimeFormat, humanize.DateTimeFormat, humanize.YearMonthFormat, humanize.MonthDayFormat, humanize.ShortDateFormat, humanize.ShortDatetimeFormat, `Y-m-d\TH:i:s e Z U`,
	"a A f g G h P|e O T Z|u s i H|b d D E F j l", "L m M n N o|r S t U w W y Y z", "L t W o z w S u r"}

// optPool holds slices of options the callers use for many calls, so whoever gets
// them must neither modify them nor what follows them in memory.
type optPool map[int][]humanize.TimeOption

func newOptPool() optPool {
	p := optPool{}
	for _, d := range []int{1, 2, 3, -1} {
		p[d] = append(make([]humanize.TimeOption, 0, 5), humanize.WithDepth(d), humanize.WithoutAdjacentCheck())
	}
	return p
}

// exec performs the call.
func (c tcall) exec(h *humanize.Humanizer, clock time.Time, pool optPool) string {
	in, _ := c.input(clock)
	var opts []humanize.TimeOption
	own := pool[c.depth]
	shared := c.flags&4 != 0 && own != nil
	if shared {
		opts = own[:1+c.flags&1]
	} else if c.depth != 0 {
		opts = append(opts, humanize.WithDepth(c.depth))
	}
	if c.flags&1 != 0 && !shared {
		opts = append(opts, humanize.WithoutAdjacentCheck())
	}
	if c.flags&6 == 2 && c.meth == mTimeSince {
		opts = append(opts, humanize.WithReverse(true))
	}
	from := clock.Add(time.Duration(c.noff)).In(c.zoneOf(c.nzone))
	switch c.meth {
	case mNaturalDay:
		return h.NaturalDay(in)
	case mNaturalTime:
		return h.NaturalTime(in)
	case mTimeSince:
		return h.TimeSince(in, opts...)
	case mTimeUntil:
		return h.TimeUntil(in, opts...)
	case mTimeSinceFrom:
		return h.TimeSinceFrom(in, from, opts...)
	case mTimeUntilFrom:
		return h.TimeUntilFrom(in, from, opts...)
	case mNow:
		return h.Now()
	case mTime:
		return h.Time()
	case mDate:
		return h.Date()
	}
	t, ok := in.(time.Time)
	if !ok {
		t = clock
	}
	return h.FormatTime(t, fmtList[abs(c.off)%len(fmtList)])
}

// want returns the acceptable answers if the clock showed the given readings.
func (c tcall) want(l *hloc, clock time.Time, readings []time.Time) []string {
	var r []string
	add := func(s []string) {
		for _, x := range s {
			if !slices.Contains(r, x) {
				r = append(r, x)
			}
		}
	}
	in, at := c.input(clock)
	from := clock.Add(time.Duration(c.noff)).In(c.zoneOf(c.nzone))
	if at == nil && c.meth <= mTimeUntilFrom {
		if in == nil {
			return []string{"<nil>"}
		}
		return []string{fmt.Sprintf("%%!(string=%v)", in)}
	}
	rel := c.in == 2 || c.in == 7
	for _, now := range readings {
		for _, now2 := range readings {
			if !rel && now2 != now {
				continue
			}
			var t time.Time
			if at != nil {
				t = at(now2)
			}
			switch c.meth {
			case mNaturalDay:
				add(naturalDay(l, t, now))
			case mNaturalTime:
				add(naturalTime(l, t, now))
			case mTimeSince:
				if c.flags&6 == 2 {
					add(since(l, "", now, t, c.depth, c.flags&1 == 0))
				} else {
					add(since(l, "", t, now, c.depth, c.flags&1 == 0))
				}
			case mTimeUntil:
				add(since(l, "", now, t, c.depth, c.flags&1 == 0))
			case mTimeSinceFrom:
				add(since(l, "", t, from, c.depth, c.flags&1 == 0))
			case mTimeUntilFrom:
				add(since(l, "", from, t, c.depth, c.flags&1 == 0))
			case mNow:
				add([]string{l.date(now, humanize.DateTimeFormat)})
			case mTime:
				add([]string{l.date(now, humanize.TimeFormat)})
			case mDate:
				add([]string{l.date(now, humanize.DateFormat)})
			case mFormat:
				x, ok := in.(time.Time)
				if !ok {
					x = clock
				}
				add([]string{l.date(x, fmtList[abs(c.off)%len(fmtList)])})
			}
		}
	}
	return r
}

// ---- C15 ----

var humTags = func() []string {
	var r []string
	for k := range realLocales {
		r = append(r, k)
	}
	sort.Strings(r)
	return append(r, "sw", "sw", "sw") // no locale: English texts
}()

// genClock draws an instant, often next to a zone transition or the turn of a year.
func genClock(r *simrt.Rand) time.Time {
	initZones()
	t := time.Date(1930+r.Intn(160), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), time.UTC)
	z := zones[r.Intn(len(zones))]
	switch r.Intn(6) {
	case 0, 1:
		if r.Chance(2, 3) {
			t = time.Date(1995+r.Intn(30), t.Month(), t.Day(), t.Hour(), 0, 0, 0, time.UTC)
		}
		if _, end := t.In(z).ZoneBounds(); !end.IsZero() {
			t = end.Add(time.Duration(int(r.Next()%uint64(72*hour)) - 36*hour))
		}
	case 2:
		t = time.Date(t.Year(), 12, 31, r.Intn(48), r.Intn(60), r.Intn(60), 0, z)
	case 3:
		y := t.Year() &^ 3
		t = time.Date(y, 2, 28, r.Intn(72), r.Intn(60), r.Intn(60), 0, z)
	case 4: // just around a midnight
		t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, z).Add(time.Duration(pickI(r, 0, -1, 1, -sec, sec, -minute, minute, 30*minute, -30*minute)))
	}
	return t
}

func genC15(r *simrt.Rand, tier string) *Plan {
	initZones()
	p := &Plan{MapSeed: r.Next(), N: map[string]int{}}
	p.N["clock"] = int(genClock(r).UnixNano())
	p.N["tick"] = pickI(r, 0, 0, 1, 1, 100, 1000, 1_000_000, 400_000_000, sec)
	p.N["local"] = r.Intn(len(zoneNames))
	if r.Chance(1, 8) {
		p.N["fmask"] = pickI(r, 1<<7, r.Intn(1<<7), 1<<r.Intn(7))
	}
	var langs []string
	for n := 1 + r.Intn(3); n > 0; n-- {
		langs = append(langs, humTags[r.Intn(len(humTags))])
	}
	var ops []Op
	id := 1
	slots := 0
	create := func() {
		ops = append(ops, Op{ID: id, K: "create", A: []int{slots}, S: []string{langs[r.Intn(len(langs))]}})
		id++
		slots++
	}
	create()
	var prev []tcall
	for n := 4 + r.Intn(16); n > 0; n-- {
		switch x := r.Intn(10); {
		case x == 0 && slots < 4:
			create()
		case x < 3:
			j := genOff(r)
			if r.Chance(1, 8) {
				j *= 3
			}
			ops = append(ops, Op{ID: id, K: "jump", A: []int{j, r.Intn(2)}})
			id++
		default:
			c := genTcall(r, slots)
			if len(prev) > 0 && r.Chance(1, 3) { // the same call again
				c = prev[r.Intn(len(prev))]
				c.slot = r.Intn(slots)
			}
			prev = append(prev, c)
			ops = append(ops, Op{ID: id, K: "call", A: c.enc()})
			id++
		}
	}
	p.Tasks = [][]Op{ops}
	p.Setup = []Op{{ID: 0, K: "langs", S: langs}}
	return p
}

func newColl(langs []string, mask int) (*humanize.Collection, error) {
	var o []humanize.Option
	for _, l := range langs {
		if mk, ok := realLocales[l]; ok {
			o = append(o, humanize.WithLocale(maskData(mk(), mask)))
		}
	}
	return humanize.New(o...)
}

// moveClock lets the wall clock jump or time pass, which moves the monotonic clock too.
func moveClock(op Op) {
	d := time.Duration(op.A[0])
	if d > 0 && len(op.A) > 1 && op.A[1] == 1 {
		simrt.ClockWait(d)
		return
	}
	simrt.ClockAdd(d)
}

func setLocal(p *Plan) func() {
	initZones()
	old := time.Local
	time.Local = zones[p.N["local"]%len(zones)]
	return func() { time.Local = old }
}

func runC15(p *Plan, o *Outcome) {
	defer setLocal(p)()
	simrt.ClockSet(time.Unix(0, int64(p.N["clock"])), time.Duration(p.N["tick"]))
	defer simrt.ClockOff()
	var langs []string
	for _, op := range p.Setup {
		langs = op.S
	}
	var c *humanize.Collection
	var err error
	pan, hung := solo(200_000_000, func() { c, err = newColl(langs, p.N["fmask"]) })
	if pan != "" || hung || err != nil {
		o.violate("setup", "creating a collection for %q: %s %v", langs, pan, err)
		return
	}
	pool := newOptPool()
	var hs []*humanize.Humanizer
	var ls []*hloc
	lo, hi := simrt.ClockPeek(), simrt.ClockPeek()
	jumps := 0
	for _, op := range p.Tasks[0] {
		switch op.K {
		case "create":
			pan, _ := solo(50_000_000, func() {
				l := op.S[0]
				h := c.CreateHumanizer(language.MustParse(l))
				hs = append(hs, h)
				ls = append(ls, maskLoc(modelLoc(h.Language().String()), p.N["fmask"])) // which language is chosen is not judged here
			})
			if pan != "" {
				o.violate("panic", "creating a humanizer for %q: %s", op.S, pan)
				return
			}
		case "jump":
			at := simrt.ClockPeek().Add(time.Duration(op.A[0]))
			if at.Year() > 1800 && at.Year() < 2200 {
				moveClock(op)
				o.Fired["clock-jump"]++
				jumps++
			}
		case "call":
			if len(hs) == 0 {
				continue
			}
			k := decTcall(op.A)
			k.slot %= len(hs)
			if at := simrt.ClockPeek().Add(time.Duration(k.off)); at.Year() < 1700 || at.Year() > 2250 {
				continue
			}
			clock := simrt.ClockPeek()
			simrt.ClockMark()
			if k.jat > 0 {
				simrt.ClockJump(k.jat-1, time.Duration(k.jby))
			}
			var got string
			pan, hung := solo(10_000_000, func() { got = k.exec(hs[k.slot], clock, pool) })
			if simrt.ClockJumpOff() {
				o.Fired["clock-jump-mid-call"]++
				jumps++
			}
			read := simrt.ClockHist()
			if pan != "" || hung {
				o.violate("panic", "call %d at %s: %s", op.ID, clock, pan)
				return
			}
			if len(read) == 0 {
				read = []time.Time{clock}
			}
			o.Evals++
			o.note(got)
			want := k.want(ls[k.slot], clock, read)
			if !slices.Contains(want, got) {
				in, _ := k.input(clock)
				var rd []string
				for _, x := range read {
					rd = append(rd, x.UTC().Format(time.RFC3339Nano))
				}
				o.violate("wrong-text", "%s(%v) [depth %d, flags %d, from %s] in %s at %s (readings %v, local zone %s): got %q, want %q", methNames[k.meth], in, k.depth, k.flags, clock.Add(time.Duration(k.noff)).In(k.zoneOf(k.nzone)), ls[k.slot].tag, clock, rd, time.Local, got, want)
				return
			}
		}
		if x := simrt.ClockPeek(); x.Before(lo) {
			lo = x
		} else if x.After(hi) {
			hi = x
		}
	}
	o.SimNs = int64(hi.Sub(lo))
	o.Key = o.Digest
	o.Nontrivial = o.Evals > 1 && (jumps > 0 || p.N["tick"] > 0)
}

var methNames = []string{"NaturalDay", "NaturalTime", "TimeSince", "TimeUntil", "TimeSinceFrom", "TimeUntilFrom", "Now", "Time", "Date", "FormatTime"}

// ---- C16 ----

func genC16(r *simrt.Rand, tier string) *Plan {
	initZones()
	p := &Plan{MapSeed: r.Next(), N: map[string]int{}, Sched: genSched(r)}
	p.N["clock"] = int(genClock(r).UnixNano())
	p.N["local"] = r.Intn(len(zoneNames))
	var langs []string
	for n := 1 + r.Intn(3); n > 0; n-- {
		langs = append(langs, humTags[r.Intn(len(humTags))])
	}
	nh := 1 + r.Intn(3)
	var askl []string
	for i := 0; i < nh; i++ {
		askl = append(askl, langs[r.Intn(len(langs))])
	}
	p.Setup = []Op{{ID: 0, K: "langs", S: langs}, {ID: 1, K: "hums", S: askl}}
	id := 2
	nt := 2 + r.Intn(4)
	same := r.Chance(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for n := 3 + r.Intn(8); n > 0; n-- {
			var op Op
			switch x := r.Intn(20); {
			case x == 0:
				op = Op{K: "jump", A: []int{genOff(r), r.Intn(2)}}
			case x < 3:
				op = Op{K: "newhum", S: []string{langs[r.Intn(len(langs))], pickS(r, langs[r.Intn(len(langs))], "sw", "de-AT")}, A: genTcall(r, 1).enc()}
			case x == 3 && r.Chance(2, 3):
				op = Op{K: "newcoll", S: []string{pickS(r, "fr", "ru", langs[r.Intn(len(langs))], langs[r.Intn(len(langs))]), pickS(r, "", "fresh", "fresh")}, A: genTcall(r, 1).enc()}
			case x < 10:
				op = Op{K: "num", A: []int{r.Intn(nh), r.Intn(9), pickI(r, 0, 1, 2, 3, 5, 9, 10, 11, 12, 21, 1000, 1024, 999_999, 1_000_000, 1_200_000, 2_000_000_000, -5, -2048, 1<<40, 1<<52, 1<<62, -1<<62, r.Intn(1<<50), r.Intn(12), r.Intn(12)), r.Intn(12)}}
			default:
				c := genTcall(r, nh)
				c.jat = 0
				op = Op{K: "call", A: c.enc()}
			}
			op.ID = id
			id++
			ops = append(ops, op)
		}
		if same && t > 0 {
			ops = nil
			for _, op := range p.Tasks[0] {
				op.ID = id
				id++
				ops = append(ops, op)
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func numArg(n, kind int) any {
	switch kind {
	case 1:
		return int64(n)
	case 2:
		return float64(n) + 0.25
	case 3:
		return fmt.Sprint(n)
	case 4:
		return uint64(n)
	case 5:
		return float32(n)
	case 6:
		return []byte("some bytes")[:abs(n)%10]
	case 7:
		return complex(float64(n), 1)
	case 8:
		return []int{n}
	case 9:
		return int8(n)
	case 10:
		if n%2 == 0 {
			return nil
		}
		return struct{ A int }{n}
	case 11:
		return []any{math.NaN(), math.Inf(1), math.Inf(-1), 1e30, -1e30, uint64(1<<64 - 1), int64(-1 << 63), "1e400", "NaN", math.MaxFloat64, float64(1 << 63), "-0"}[abs(n)%12]
	}
	return n
}

func numCall(h *humanize.Humanizer, a []int) string {
	v := numArg(a[2], a[3])
	switch a[1] {
	case 0:
		return h.Apnumber(v)
	case 1:
		return h.Intword(v)
	case 2:
		return h.Intcomma(v)
	case 3:
		return h.Ordinal(v)
	case 4:
		return h.FilesizeFormat(v)
	case 5:
		k := abs(a[2]) % 7
		return h.LanguageName([]string{"German", "French", "Klingon", "", "Arabic", "Polish", "Low German"}[k]) + "|" +
			h.LanguageNameByCode([]string{"fr", "de", "xx", "", "pt-br", "zh-hans", "en"}[k])
	case 7, 8:
		t := time.Unix(int64(a[2]%(1<<32)), int64(a[2]%1000)*1_000_001).In(zones[abs(a[2])%len(zones)])
		return h.FormatTime(t, fmtList[len(fmtList)-1-abs(a[3])%3])
	}
	return h.Language().String()
}

// c16env is one set of objects; the concurrent run and the reference run have their own.
type c16env struct {
	data  map[string]*humanize.LocaleData
	fresh map[string]*humanize.LocaleData // first used while the tasks run
	c     *humanize.Collection
	hs    []*humanize.Humanizer
	pool  optPool
}

func newC16env(langs, ask []string) (*c16env, error) {
	e := &c16env{data: map[string]*humanize.LocaleData{}, fresh: map[string]*humanize.LocaleData{}, pool: newOptPool()}
	var o []humanize.Option
	for i, l := range append(slices.Clone(langs), "fr", "ru") {
		mk, ok := realLocales[l]
		if !ok || e.fresh[l] != nil {
			continue
		}
		first := 0
		if i >= len(langs) {
			first = 1
		}
		for i := first; i < 2; i++ {
			d := mk()
			if l == "fr" || l == "ru" {
				d.Format = &humanize.FormatData{DateFormat: d.Format.DateFormat} // incomplete, defaults apply
			}
			if l == "de" {
				d.Format = nil
			}
			if i == 0 {
				e.data[l] = d
				o = append(o, humanize.WithLocale(d))
			} else {
				e.fresh[l] = d
			}
		}
	}
	var err error
	if e.c, err = humanize.New(o...); err != nil {
		return nil, err
	}
	for _, a := range ask {
		e.hs = append(e.hs, e.c.CreateHumanizer(language.MustParse(a)))
	}
	return e, nil
}

func (e *c16env) exec(op Op, clock time.Time, r *opRes) {
	switch op.K {
	case "call":
		k := decTcall(op.A)
		r.Vals = append(r.Vals, k.exec(e.hs[k.slot%len(e.hs)], clock, e.pool))
	case "num":
		r.Vals = append(r.Vals, numCall(e.hs[op.A[0]%len(e.hs)], op.A))
	case "newhum":
		h := e.c.CreateHumanizer(op.S[1], language.MustParse(op.S[0]))
		r.Vals = append(r.Vals, h.Language().String(), decTcall(op.A).exec(h, clock, e.pool))
	case "newcoll":
		var o []humanize.Option
		d := e.data[op.S[0]]
		if op.S[1] == "fresh" {
			d = e.fresh[op.S[0]]
		}
		if d != nil {
			o = append(o, humanize.WithLocale(d))
		}
		c, err := humanize.New(o...)
		if err != nil {
			r.Vals = append(r.Vals, "failed")
			return
		}
		h := c.CreateHumanizer(op.S[0])
		r.Vals = append(r.Vals, h.Language().String(), decTcall(op.A).exec(h, clock, e.pool), numCall(h, []int{0, 1, 1_200_000, 0}))
	}
}

type c16extra struct {
	start time.Time // the operation's idea of the clock
	a, b  int       // indexes of the clock values in effect
}

func runC16(p *Plan, o *Outcome) {
	defer setLocal(p)()
	base := time.Unix(0, int64(p.N["clock"]))
	simrt.ClockSet(base, 0)
	defer simrt.ClockOff()
	var langs, ask []string
	for _, op := range p.Setup {
		if op.K == "langs" {
			langs = op.S
		} else {
			ask = op.S
		}
	}
	if len(ask) == 0 {
		return
	}
	var env, twin *c16env
	var err error
	pan, hung := solo(500_000_000, func() { env, err = newC16env(langs, ask) })
	if pan != "" || hung || err != nil {
		o.violate("setup", "creating a collection for %q: %s %v", langs, pan, err)
		return
	}
	simrt.ClockMark()
	simrt.ClockAdd(0)
	q := *p
	if q.Sched.Max == 0 {
		q.Sched.Max = 100_000_000
	}
	ok := runTasks(&q, o, func(t *tstate, op Op) {
		if op.K == "jump" {
			t.do(p, op, func(r *opRes) {
				at := simrt.ClockPeek().Add(time.Duration(op.A[0]))
				if at.Year() > 1850 && at.Year() < 2150 && len(simrt.ClockHist()) < 60 {
					moveClock(op)
				}
			})
			return
		}
		t.do(p, op, func(r *opRes) {
			x := &c16extra{start: simrt.ClockPeek(), a: len(simrt.ClockHist()) - 1}
			r.Extra = x
			env.exec(op, x.start, r)
			x.b = len(simrt.ClockHist())
		})
	})
	if !ok {
		return
	}
	hist := simrt.ClockHist()
	o.Fired["clock-jump"] += len(hist) - 1
	pan, hung = solo(500_000_000, func() { twin, err = newC16env(langs, ask) })
	if pan != "" || hung || err != nil {
		o.violate("setup", "creating the second collection for %q: %s %v", langs, pan, err)
		return
	}
	res := resByID()
	for _, ops := range p.Tasks {
		for _, op := range ops {
			r := res[op.ID]
			if op.K == "jump" || r == nil {
				continue
			}
			if r.Panic != "" {
				o.violate("panic", "op %d (%s): %s", op.ID, op.K, r.Panic)
				return
			}
			o.note(r.Vals...)
			x := r.Extra.(*c16extra)
			var wants []string
			match := false
			for i := max(0, x.a); i < x.b && !match; i++ {
				simrt.ClockSet(hist[i], 0)
				w := &opRes{}
				pan, hung := solo(500_000_000, func() { twin.exec(op, x.start, w) })
				if pan != "" || hung {
					o.violate("panic", "op %d (%s) alone: %s", op.ID, op.K, pan)
					return
				}
				wants = append(wants, fmt.Sprintf("%q", w.Vals))
				match = slices.Equal(w.Vals, r.Vals)
			}
			o.Evals++
			if match {
				continue
			}
			if x.b-x.a > 1 && op.K != "num" { // several clock values during the call
				c := decTcall(op.A)
				if c.in == 2 || c.in == 7 || op.K != "call" {
					continue
				}
			}
			o.violate("differs", "op %d (%s %v %q): got %q, alone it returns %s", op.ID, op.K, op.A, op.S, r.Vals, strings.Join(wants, " or "))
			return
		}
	}
	o.SimNs = 0
	o.Nontrivial = o.Preempts > 0
}
