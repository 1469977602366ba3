package props

import (
	"fmt"
	"math"
	"strings"
	"time"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// valueSpace puts chunks of a value list of one type in a two-column table.
type valueSet struct {
	t    *Type
	name string
	n    int             // number of values
	at   func(i int) Val // i-th value
}

func list(t *Type, vs []Val) valueSet {
	return valueSet{t, t.Name, len(vs), func(i int) Val { return vs[i] }}
}

// valueSpace enumerates all values of all sets, chunk rows per execution, in the given formats.
func valueSpace(name, rule string, sets []valueSet, chunk int, both bool) *eng.Space {
	type job struct {
		s      valueSet
		lo, hi int
	}
	var jobs []job
	for _, s := range sets {
		for lo := 0; lo < s.n; lo += chunk {
			hi := lo + chunk
			if hi > s.n {
				hi = s.n
			}
			jobs = append(jobs, job{s, lo, hi})
		}
	}
	return &eng.Space{Name: name, Rule: rule, Body: func(c *eng.Chooser) *eng.Case {
		j := jobs[c.Pick(len(jobs))]
		red := false
		if both {
			red = c.Bool()
		}
		shape := c.Pick(2) // 0: value column last, NULL allowed; 1: value column before another column, NOT NULL
		rec := j.lo/chunk%2 == 1
		t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", j.s.t))
		if shape == 1 {
			t = tableOf("d", "t", 40, col("id", IntT(4, false)), col("v", j.s.t), ncol("w", VarcharUtf8(10)))
		}
		t.Redundant = red
		var rows []Row
		for i := j.lo; i < j.hi; i++ {
			r := Row{int64(i), j.s.at(i)}
			if shape == 1 {
				r = append(r, []byte("w"))
			}
			rows = append(rows, r)
			if shape == 0 && i == (j.lo+j.hi)/2 {
				rows = append(rows, Row{int64(-1), nil}) // a NULL in the middle: it must not inherit a value
			}
		}
		return rowsCase(t, rows, rec, fmt.Sprintf("%s values %d..%d", j.s.name, j.lo, j.hi))
	}}
}

func intVal(t *Type, bytes int, unsigned bool, u uint64) Val {
	if unsigned {
		return u
	}
	sh := uint(64 - 8*bytes)
	return int64(u<<sh) >> sh
}

// intSet: all byte patterns over an alphabet per byte.
func patternSet(t *Type, bytes int, unsigned bool, alpha []byte) valueSet {
	n := 1
	for i := 0; i < bytes; i++ {
		n *= len(alpha)
	}
	return valueSet{t, t.Name, n, func(i int) Val {
		var u uint64
		for k := 0; k < bytes; k++ {
			u = u<<8 | uint64(alpha[i%len(alpha)])
			i /= len(alpha)
		}
		return intVal(t, bytes, unsigned, u)
	}}
}

func allSet(t *Type, bytes int, unsigned bool) valueSet {
	return valueSet{t, t.Name, 1 << uint(8*bytes), func(i int) Val { return intVal(t, bytes, unsigned, uint64(i)) }}
}

// edgeSet: every power of two, +-1, complement, decimal powers.
func edgeSet(t *Type, bytes int, unsigned bool) valueSet {
	var vs []Val
	seen := map[uint64]bool{}
	mask := ^uint64(0) >> uint(64-8*bytes)
	add := func(u uint64) {
		u &= mask
		if !seen[u] {
			seen[u] = true
			vs = append(vs, intVal(t, bytes, unsigned, u))
		}
	}
	for b := 0; b < 8*bytes; b++ {
		p := uint64(1) << uint(b)
		for _, x := range []uint64{p, p - 1, p + 1, ^p, -p} {
			add(x)
		}
		for b2 := 0; b2 < b; b2++ {
			add(p | 1<<uint(b2))
			add(p - 1<<uint(b2))
		}
	}
	d := uint64(1)
	for i := 0; i < 20; i++ {
		add(d)
		add(d - 1)
		add(-d)
		add(1 - d)
		d *= 10
	}
	return list(t, vs)
}

func c05(th bool) []*eng.Space {
	var small, pat []valueSet
	for _, u := range []bool{false, true} {
		small = append(small, allSet(IntT(1, u), 1, u), allSet(IntT(2, u), 2, u))
		for _, b := range []int{3, 4, 8} {
			pat = append(pat, edgeSet(IntT(b, u), b, u))
		}
		pat = append(pat, patternSet(IntT(3, u), 3, u, []byte{0, 1, 0x0f, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xfe, 0xff}))
		pat = append(pat, patternSet(IntT(4, u), 4, u, []byte{0, 1, 0x7f, 0x80, 0xfe, 0xff}))
		pat = append(pat, patternSet(IntT(8, u), 8, u, []byte{0, 0x7f, 0xff}))
		if th {
			pat = append(pat, patternSet(IntT(8, u), 8, u, []byte{0, 0x7f, 0x80, 0xff}), patternSet(IntT(4, u), 4, u, []byte{0, 1, 2, 0x0f, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xfe, 0xff}))
		}
	}
	for b := 1; b <= 8; b++ {
		if b == 1 {
			small = append(small, allSet(EnumT(1), 1, true), allSet(BitT(1), 1, true))
		} else if b == 2 {
			small = append(small, allSet(EnumT(2), 2, true), allSet(BitT(2), 2, true))
		}
		pat = append(pat, edgeSet(EnumT(b), b, true), edgeSet(BitT(b), b, true))
		al := []byte{0, 1, 0x80, 0xff}
		if b > 4 {
			al = []byte{0, 0x81, 0xff}
		}
		pat = append(pat, patternSet(EnumT(b), b, true, al), patternSet(BitT(b), b, true, al))
	}
	var years []Val
	years = append(years, uint64(0))
	for y := 1901; y <= 2155; y++ {
		years = append(years, uint64(y))
	}
	small = append(small, list(YearT(), years))
	sp := []*eng.Space{
		valueSpace("small-domains", "every value of TINYINT, SMALLINT (signed, unsigned), ENUM/SET and BIT of 1 and 2 bytes, YEAR; COMPACT and REDUNDANT", small, 2048, true),
		valueSpace("wide-domains", "every power of two +-1, sum and difference of two powers, power of ten, and all byte patterns over boundary alphabets, for MEDIUMINT, INT, BIGINT (signed, unsigned), ENUM/SET and BIT of 1..8 bytes", pat, 2048, true),
	}
	if th {
		all3 := []valueSet{allSet(IntT(3, false), 3, false), allSet(IntT(3, true), 3, true)}
		sp = append(sp, valueSpace("medium-domain", "every value of MEDIUMINT and MEDIUMINT UNSIGNED", all3, 8192, false))
	}
	return sp
}

// ---- temporal types ----

// fracSets: temporal types with 1..6 decimals; fractions at the boundaries of every stored byte.
func fracSets(th bool) []valueSet {
	var o []valueSet
	for dec := 1; dec <= 6; dec++ {
		step := []int{0, 100000, 10000, 1000, 100, 10, 1}[dec]
		n := 1000000 / step
		var us []int
		seen := map[int]bool{}
		add := func(k int) {
			if k >= 0 && k < n && !seen[k] {
				seen[k] = true
				us = append(us, k*step)
			}
		}
		for k := 0; k < n && (n <= 100 || th && n <= 10000); k++ {
			add(k)
		}
		for b := uint(0); b < 20; b++ {
			add(1<<b - 1)
			add(1 << b)
			add(1<<b + 1)
			add(n - 1<<b)
		}
		for d := 1; d <= n; d *= 10 {
			for x := 1; x < 10; x++ {
				add(x * d)
				add(x*d - 1)
			}
		}
		var ts []Val
		for _, h := range []int{0, 1, 31, 32, 255, 256, 838} {
			for _, ms := range []int{0, 1, 0x1f, 59 << 8, 59<<8 | 59} {
				for _, u := range us {
					c := Clock{H: h, M: ms >> 8, S: ms & 0xff, U: u}
					ts = append(ts, c)
					if c != (Clock{}) {
						c.Neg = true
						ts = append(ts, c)
					}
				}
			}
		}
		var dts, st []Val
		for _, d := range []DateTime{{}, {Y: 1000, Mo: 1, D: 1}, {Y: 1999, Mo: 12, D: 31, H: 23, M: 59, S: 59}, {Y: 2021, Mo: 7, D: 15, H: 13, M: 1, S: 2}, {Y: 9999, Mo: 12, D: 31, H: 23, M: 59, S: 59}} {
			for _, u := range us {
				d.U = u
				dts = append(dts, d)
			}
		}
		for _, x := range []uint32{1, 86399, 1 << 24, 1600000000, math.MaxInt32} {
			for _, u := range us {
				st = append(st, StampU{x, u})
			}
		}
		st = append(st, StampU{})
		o = append(o, list(TimeT(dec), ts), list(DateTimeT(dec), dts), list(StampFT(dec), st))
	}
	return o
}

func c06(th bool) []*eng.Space {
	years := []int{}
	for y := 0; y <= 9999; y++ {
		if th || y <= 100 || y%100 == 0 || y%100 == 99 || y >= 1965 && y <= 2105 || y%512 <= 1 || y%512 == 511 || y > 9990 {
			years = append(years, y)
		}
	}
	ymd := func(i int) (int, int, int, int) { // i -> y, m 0..12, d 0..31, rest
		d := i % 32
		i /= 32
		m := i % 13
		i /= 13
		return years[i%len(years)], m, d, i / len(years)
	}
	nd := len(years) * 13 * 32
	dates := []valueSet{
		{DateT(true), "DATE", nd, func(i int) Val { y, m, d, _ := ymd(i); return Date{y, m, d} }},
	}
	var times []valueSet
	hs := []int{}
	for h := 0; h <= 838; h++ {
		if th || h <= 30 || h >= 830 || h%64 <= 1 || h%64 == 63 || h%100 == 0 {
			hs = append(hs, h)
		}
	}
	ms := []int{}
	for m := 0; m < 60; m++ {
		if th || m < 3 || m > 57 || m == 31 || m == 32 || m == 33 || m == 16 || m == 9 || m == 10 || m == 45 {
			ms = append(ms, m)
		}
	}
	times = append(times, valueSet{TimeT(), "TIME", len(hs) * len(ms) * len(ms) * 2, func(i int) Val {
		c := Clock{Neg: i%2 == 1}
		i /= 2
		c.S = ms[i%len(ms)]
		i /= len(ms)
		c.M = ms[i%len(ms)]
		c.H = hs[i/len(ms)]
		if c.H == 0 && c.M == 0 && c.S == 0 {
			c.Neg = false
		}
		return c
	}})
	hms := []DateTime{}
	for _, h := range []int{0, 1, 11, 12, 13, 15, 16, 23} {
		for _, m := range []int{0, 1, 31, 32, 59} {
			for _, s := range []int{0, 1, 32, 59} {
				if th || h == 0 || h == 13 || h == 23 || (m == 59 && s == 1) {
					hms = append(hms, DateTime{H: h, M: m, S: s})
				}
			}
		}
	}
	dy := []int{0, 1, 2, 12, 13, 99, 100, 999, 1000, 1582, 1900, 1969, 1970, 1990, 1991, 1992, 1999, 2000, 2001, 2015, 2019, 2037, 2038, 2039, 2098, 2099, 2100, 2101, 4999, 9998, 9999}
	dd := []int{0, 1, 2, 9, 10, 15, 16, 28, 29, 30, 31}
	dts := []valueSet{
		{DateTimeT(), "DATETIME", len(dy) * 13 * len(dd) * len(hms), func(i int) Val {
			x := hms[i%len(hms)]
			i /= len(hms)
			x.D = dd[i%len(dd)]
			i /= len(dd)
			x.Mo = i % 13
			x.Y = dy[i/13]
			return x
		}},
		// every time of day on two dates, one of them the zero date
		{DateTimeT(), "DATETIME (every time of day)", 86400 / 7 * 2, func(i int) Val {
			s := i / 2 * 7
			x := DateTime{H: s / 3600, M: s / 60 % 60, S: s % 60}
			if i%2 == 0 {
				x.Y, x.Mo, x.D = 2021, 7, 31
			}
			return x
		}},
	}
	var stamps []Val
	seen := map[uint32]bool{}
	add := func(v uint32) {
		if !seen[v] && v <= math.MaxInt32 {
			seen[v] = true
			stamps = append(stamps, Stamp(v))
		}
	}
	add(0)
	for h := uint32(0); h < 48; h++ { // every hour of two days, at several minutes
		for _, m := range []uint32{0, 1, 59*60 + 59, 30 * 60, 12 * 60} {
			add(1600000000/86400*86400 + h*3600 + m)
			add(86400*h*389 + h*3600 + m)
		}
	}
	for y := uint32(1970); y < 2038; y++ { // around every new year and leap day
		base := uint32(float64(y-1970) * 365.2425 * 86400)
		for d := uint32(0); d < 62; d++ {
			add(base + d*86400 + 43199 + d%2)
		}
	}
	for b := uint(0); b < 31; b++ {
		for _, x := range []uint32{1 << b, 1<<b - 1, 1<<b + 1, math.MaxInt32 - 1<<b} {
			add(x)
		}
	}
	if th {
		for d := uint32(0); d < 24855; d++ {
			for _, s := range []uint32{0, 1, 43199, 43200, 86399} {
				add(d*86400 + s)
			}
		}
	}
	retype := func(s valueSet, t *Type) valueSet { return valueSet{t, t.Name, s.n, s.at} }
	old := []valueSet{retype(times[0], OldTimeT()), retype(dts[0], OldDateTimeT()), retype(dts[1], OldDateTimeT()), list(OldStampT(), stamps)}
	chunk := 4096
	var frac []valueSet
	for _, f := range fracSets(false) {
		if strings.HasPrefix(f.name, "TIMESTAMP") {
			frac = append(frac, f)
		}
	}
	inZone := valueSpace("zones", "", append(frac, list(StampT(), stamps), list(OldStampT(), stamps)), chunk, true)
	inZone.Rule = "TIMESTAMP with and without decimals, and of before 5.6, of the spaces fractions and timestamp in 8 time zones: 12 h behind UTC to 14 h ahead, with minutes, with seconds; the zero TIMESTAMP is the same in all"
	body := inZone.Body
	inZone.Body = func(c *eng.Chooser) *eng.Case {
		z := []int{-12 * 3600, -3*3600 - 1800, -3600, -1, 53*60 + 28, 5*3600 + 1800, 9 * 3600, 14 * 3600}[c.Pick(8)]
		x := body(c)
		if x == nil {
			return nil
		}
		title, run := x.Title, x.Run
		x.Title = func() string { return fmt.Sprintf("%s, %d s ahead of UTC", title(), z) }
		x.Run = func(e *eng.Env) *eng.Fail {
			defer func(l *time.Location) { time.Local, Zone = l, 0 }(time.Local)
			time.Local, Zone = time.FixedZone("", z), int64(z)
			return run(e)
		}
		return x
	}
	// Zones whose clocks change: the instants around each change besides the ones above.
	near := func(sh []Shift) []Val {
		v := append([]Val{}, stamps...)
		for _, x := range sh {
			for _, d := range []int64{-86400, -7201, -7200, -3601, -3600, -3599, -1, 0, 1, 1800, 3599, 3600, 3601, 7200, 86400} {
				if t := x.At + d; t > 0 && t <= math.MaxInt32 {
					v = append(v, Stamp(uint32(t)))
				}
			}
		}
		return v
	}
	var shiftSpaces []*eng.Space
	for _, z := range shiftZones() {
		z := z
		sp := valueSpace("clock-changes-"+z.name, "TIMESTAMP, also of before 5.6, in "+z.what+": the instants of space timestamp and those around each change", []valueSet{list(StampT(), near(z.shifts)), list(OldStampT(), near(z.shifts))}, chunk, true)
		body := sp.Body
		sp.Body = func(c *eng.Chooser) *eng.Case {
			x := body(c)
			if x == nil {
				return nil
			}
			run := x.Run
			x.Run = func(e *eng.Env) *eng.Fail {
				defer func(l *time.Location) { time.Local, Zone, Shifts = l, 0, nil }(time.Local)
				time.Local, Zone, Shifts = zoneLocation(z.first, z.shifts), z.first, z.shifts
				return run(e)
			}
			return x
		}
		shiftSpaces = append(shiftSpaces, sp)
	}
	return append(shiftSpaces, []*eng.Space{
		valueSpace("before-5.6", "TIME, DATETIME and TIMESTAMP columns of tables created before 5.6 (decimal numbers), the values of the spaces time, datetime, timestamp", old, chunk, th),
		valueSpace("date", fmt.Sprintf("DATE: %d years (of 0..9999) x months 0..12 x days 0..31", len(years)), dates, chunk, th),
		valueSpace("time", fmt.Sprintf("TIME: both signs x %d hours of 0..838 x %d minutes x %d seconds", len(hs), len(ms), len(ms)), times, chunk, true),
		valueSpace("datetime", fmt.Sprintf("DATETIME: %d years x months 0..12 x %d days x %d times of day; every 7th second of the day on a normal and on the zero date", len(dy), len(dd), len(hms)), dts, chunk, true),
		valueSpace("fractions", "TIME, DATETIME, TIMESTAMP with 1..6 decimals: fractions 0, every digit, powers of two +-1 and the last values before a second (all fractions with 1, 2 decimals; thorough: 4), positive and negative times", fracSets(th), chunk, true),
		valueSpace("timestamp", fmt.Sprintf("TIMESTAMP: zero, and %d instants: every hour, days around every new year and leap day, powers of two", len(stamps)-1), []valueSet{list(StampT(), stamps)}, 1024, true),
		inZone,
	}...)
}

type shiftZone struct {
	name, what string
	first      int64
	shifts     []Shift
}

// shiftZones: zones whose clocks were changed.
func shiftZones() []shiftZone {
	day := func(y, m, d int) int64 { return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC).Unix() }
	lastSunday := func(y, m int) int64 {
		t := day(y, m+1, 1) - 86400
		for (t/86400+4)%7 != 0 {
			t -= 86400
		}
		return t
	}
	north := shiftZone{"north", "a zone with summer time in the north from 1970 on, 1 and 2 h ahead of UTC", 3600, nil}
	south := shiftZone{"south", "a zone with summer time in the south from 1970 on, 10:30 and 11 h ahead of UTC", 10*3600 + 1800, nil}
	west := shiftZone{"west", "a zone 5 h behind UTC with summer time until 1999, 4 h behind UTC from then on, 13 h ahead from 2011 on", -5 * 3600, nil}
	for y := 1970; y < 2038; y++ {
		north.shifts = append(north.shifts, Shift{lastSunday(y, 3) + 3600, 7200}, Shift{lastSunday(y, 10) + 3600, 3600})
		south.shifts = append(south.shifts, Shift{lastSunday(y, 3) + 15*3600, 10*3600 + 1800}, Shift{lastSunday(y, 9) + 15*3600 + 1800, 11 * 3600})
		if y < 1999 {
			west.shifts = append(west.shifts, Shift{lastSunday(y, 4) + 7*3600, -4 * 3600}, Shift{lastSunday(y, 9) + 6*3600, -5 * 3600})
		}
	}
	west.shifts = append(west.shifts, Shift{day(1999, 6, 1), -4 * 3600}, Shift{day(2011, 12, 30) + 4*3600, 13 * 3600})
	return []shiftZone{north, south, west}
}

// zoneLocation is the zone as the time zone files describe it.
func zoneLocation(first int64, shifts []Shift) *time.Location {
	be4 := func(v int64) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
	kind := map[int64]byte{first: 0}
	kinds := []int64{first}
	var at, which []byte
	for _, x := range shifts {
		if _, ok := kind[x.Ahead]; !ok {
			kind[x.Ahead] = byte(len(kinds))
			kinds = append(kinds, x.Ahead)
		}
		at = append(at, be4(x.At)...)
		which = append(which, kind[x.Ahead])
	}
	f := append([]byte("TZif"), make([]byte, 16)...)
	for _, n := range []int{0, 0, 0, len(shifts), len(kinds), 4} {
		f = append(f, be4(int64(n))...)
	}
	f = append(append(f, at...), which...)
	for _, k := range kinds {
		f = append(append(f, be4(k)...), 0, 0)
	}
	l, err := time.LoadLocationFromTZData("zone", append(f, "ZZZ\x00"...))
	if err != nil {
		panic(err)
	}
	return l
}

func init() {
	eng.Register(&eng.Check{ID: "C05", Title: "integer, ENUM/SET, BIT, YEAR values", Level: "model_checking", Spaces: c05})
	eng.Register(&eng.Check{ID: "C06", Title: "temporal values", Level: "model_checking", Spaces: c06})
}
