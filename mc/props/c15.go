package props

import (
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

func letters(n int) []byte {
	v := make([]byte, n)
	for i := range v {
		v[i] = byte('a' + i%26)
	}
	return v
}

// logImage lays the stream out; stale fills the unused part of the last block with old bytes.
func logImage(l *logb, per int, stale bool) [][]byte {
	fs := l.files(per)
	if !stale {
		return fs
	}
	// the last block with data
	for i := len(fs) - 1; i >= 0; i-- {
		f := fs[i]
		for at := len(f) - 512; at >= 2048; at -= 512 {
			n := int(f[at+4])<<8 | int(f[at+5])
			if n == 0 {
				continue
			}
			if n < 508 {
				copy(f[at+n:at+508], noise(508-n, 5))
			}
			return fs
		}
	}
	return fs
}

func padRec(n int) []byte { return Log(MWriteStr, 7, 300, b2(50), b2(n), noise(n, n)) }

func c15(th bool) []*eng.Space {
	st := sentinelTable()
	t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(2700)), ncol("w", VarcharUtf8(20)))
	tiny := tableOf("d", "u", 21, col("id", IntT(1, true)), ncol("v", IntT(1, true)))
	dict := dictOf(t, st, tiny)
	pers := []int{0, 1, 2, 3}
	sizes := []int{0, 40, 300, 700, 8000}
	if th {
		sizes = []int{0, 1, 40, 100, 126, 127, 128, 129, 300, 480, 496, 497, 700, 1000, 1500, 8000}
		pers = []int{0, 1, 2, 3, 4, 5, 7}
	}
	vs := oneOfEach(logVariants(false))
	var off = func(name string, per, shift, stale int, build func(l *logb) []Upd, title string) *eng.Case {
		return &eng.Case{Title: func() string {
			return fmt.Sprintf("%s, preceded by %d bytes; %d blocks per file (0: one file); stale bytes after the end=%v", title, shift, per, stale == 1)
		}, Run: func(e *eng.Env) *eng.Fail {
			l := newLog()
			l.add(padRec(shift))
			want := build(l)
			o := redoLogs(e, dict, logImage(l, per, stale == 1), "", "")
			e.Outcome(o.Text)
			return checkUpds(want, o)
		}}
	}
	shifts := 496
	if th {
		shifts = 996
	}
	return append([]*eng.Space{
		{
			Name: "update-offsets",
			Rule: fmt.Sprintf("an update record with an old value of %v bytes at every one of %d offsets (every position in the block; every end of the log), in one file and in files of %v blocks, with and without stale bytes in the last block", sizes, shifts, pers[1:]),
			Body: func(c *eng.Chooser) *eng.Case {
				sz := sizes[c.Pick(len(sizes))]
				shift := c.Pick(shifts)
				per := pers[c.Pick(len(pers))]
				stale := c.Pick(2)
				last := c.Bool()
				return off("", per, shift, stale, func(l *logb) []Upd {
					r := Row{int64(5), letters(sz), []byte("w")}
					l.add(undoUpd(t, r, 1, 2).LogRec(7, 300))
					w := []Upd{{T: t, Changed: []int{1, 2}, Old: r}}
					if !last {
						s, w1 := sentinel(st, 2)
						l.add(s.LogRec(7, 300))
						w = append(w, w1)
					}
					return w
				}, fmt.Sprintf("update with a value of %d bytes, last record=%v", sz, last))
			},
		},
		{
			Name: "shortest-updates",
			Rule: fmt.Sprintf("the shortest update records (a one byte key and column, small identifiers, NULL or one byte), alone or two in a row, at every one of %d offsets, as the end of the log or followed by another update", shifts),
			Body: func(c *eng.Chooser) *eng.Case {
				shift := c.Pick(shifts)
				n := 1 + c.Pick(2)
				null := c.Bool()
				last := c.Bool()
				per := c.Pick(2)
				return off("", per, shift, 0, func(l *logb) []Upd {
					var w []Upd
					for i := 0; i < n; i++ {
						r := Row{uint64(65 + i), uint64(66)}
						if null {
							r[1] = nil
						}
						u := undoUpd(tiny, r, 1)
						u.UndoNo, u.TrxID, u.RollPtr = 0, 5, 0x10
						l.add(u.LogRec(1, 3))
						w = append(w, Upd{T: tiny, Changed: []int{1}, Old: r})
					}
					if !last {
						s, w1 := sentinel(st, 2)
						l.add(s.LogRec(7, 300))
						w = append(w, w1)
					}
					return w
				}, fmt.Sprintf("%d shortest updates (NULL=%v), last=%v", n, null, last))
			},
		},
		{
			Name: "record-offsets",
			Rule: fmt.Sprintf("one record of each of %d types at every offset of the block, between two updates; in one file and in files of one block", len(vs)),
			Body: func(c *eng.Chooser) *eng.Case {
				v := vs[c.Pick(len(vs))]
				shift := c.Pick(496)
				per := c.Pick(2)
				return off("", per, shift, 0, func(l *logb) []Upd {
					s0, w0 := sentinel(st, 1)
					s1, w1 := sentinel(st, 2)
					l.add(s0.LogRec(7, 300)).add(v.bytes(true, 40, 4)).add(s1.LogRec(7, 300))
					return []Upd{w0, w1}
				}, v.name)
			},
		},
		{
			Name: "many-updates",
			Rule: "1..60 update records with values of 20..60 bytes, first record at 62 offsets, files of 0..8 blocks",
			Body: func(c *eng.Chooser) *eng.Case {
				n := 1 + c.Pick(60)
				shift := c.Pick(62) * 8
				per := c.Pick(9)
				if !th && (n%7 != 0 && n > 8 || shift%56 != 0) {
					return nil
				}
				return off("", per, shift, 1, func(l *logb) []Upd {
					var w []Upd
					for i := 0; i < n; i++ {
						r := Row{int64(i), letters(20 + i*7%41), []byte("w")}
						l.add(undoUpd(t, r, 1).LogRec(7, 300))
						w = append(w, Upd{T: t, Changed: []int{1}, Old: r})
					}
					return w
				}, fmt.Sprintf("%d updates", n))
			},
		},
	}, c15Large(th))
}

func c16(th bool) []*eng.Space {
	names := [][2]string{{"db", "t"}, {"db", "t2"}, {"db2", "t"}, {"other", "t2"}, {"d", "b"}, {"DB", "T"}}
	var ts []*Table
	for i, n := range names {
		ts = append(ts, tableOf(n[0], n[1], uint64(40+i*3), col("id", IntT(4, false)), ncol("v", VarcharUtf8(20))))
	}
	dict := dictOf(ts...)
	dbs := []string{"", "db", "db2", "other", "d", "DB", "none", "t"}
	tbs := []string{"", "t", "t2", "b", "T", "none", "db"}
	max := 2
	if th {
		max = 4
	}
	return []*eng.Space{{
		Name: "filters",
		Rule: fmt.Sprintf("every sequence of 1..%d updates of %d tables (same table name in several databases, names that are prefixes or differ in case) x %d database filters x %d table filters", max, len(ts), len(dbs), len(tbs)),
		Body: func(c *eng.Chooser) *eng.Case {
			n := 1 + c.Pick(max)
			var seq []int
			for i := 0; i < n; i++ {
				seq = append(seq, c.Pick(len(ts)))
			}
			db, tb := dbs[c.Pick(len(dbs))], tbs[c.Pick(len(tbs))]
			return &eng.Case{Title: func() string {
				s := ""
				for _, k := range seq {
					s += names[k][0] + "." + names[k][1] + " "
				}
				return fmt.Sprintf("updates of %swith --DBName=%q --TableName=%q", s, db, tb)
			}, Run: func(e *eng.Env) *eng.Fail {
				l := newLog()
				var want []Upd
				for i, k := range seq {
					t := ts[k]
					r := Row{int64(i), []byte(fmt.Sprintf("v%d", i))}
					l.add(undoUpd(t, r, 1).LogRec(uint64(t.Space), 4))
					if (db == "" || db == t.DB) && (tb == "" || tb == t.Name) {
						want = append(want, Upd{T: t, Changed: []int{1}, Old: r})
					}
				}
				o := redoLogs(e, dict, l.files(0), tb, db)
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}, c16Exact(th)}
}

// c16Exact: names and filters that mean something else in patterns, file names or SQL.
func c16Exact(th bool) *eng.Space {
	words := []string{"t", "T", "t%", "t_", "tt", "%", "_", "*", ".*", "^t$", "t.t", "`t`", "'t'", " t", "t ", "t,t", "t-t", "[t]", "(t)", "t|tt", "\\t", "d/t", "@0074", "0", "-", "NULL", "中t"}
	return &eng.Space{
		Name: "exact-names",
		Rule: fmt.Sprintf("one or two tables with each pair of %d names (in one database, or as the names of the databases), each name, and none, as the filter of the table, the database or both", len(words)),
		Body: func(c *eng.Chooser) *eng.Case {
			a, b := words[c.Pick(len(words))], words[c.Pick(len(words))]
			asDB := c.Bool()
			fl := c.Pick(3) // which filters are given
			w := "t"
			if fl == 0 {
				w = words[c.Pick(len(words))]
			} else {
				w = []string{a, b, "none"}[c.Pick(3)]
			}
			mk := func(i int, n string) *Table {
				t := tableOf("d", n, uint64(40+3*i), col("id", IntT(4, false)), ncol("v", VarcharUtf8(20)))
				if asDB {
					t.DB, t.Name = n, "u"
				}
				return t
			}
			ts := []*Table{mk(0, a)}
			if a != b {
				ts = append(ts, mk(1, b))
			}
			var db, tb string
			switch {
			case asDB:
				db = w
			default:
				tb = w
			}
			if fl == 1 {
				if asDB {
					tb = "u"
				} else {
					db = "d"
				}
			} else if fl == 2 {
				if asDB {
					tb = "d"
				} else {
					db = "u"
				}
			}
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("tables %q %q (names of the databases: %v), --DBName=%q --TableName=%q", a, b, asDB, db, tb)
			}, Run: func(e *eng.Env) *eng.Fail {
				l := newLog()
				var want []Upd
				for i, t := range ts {
					r := Row{int64(i), []byte("v")}
					l.add(undoUpd(t, r, 1).LogRec(uint64(t.Space), 4))
					if (db == "" || db == t.DB) && (tb == "" || tb == t.Name) {
						want = append(want, Upd{T: t, Changed: []int{1}, Old: r})
					}
				}
				o := redoLogs(e, dictOf(ts...), l.files(0), tb, db)
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}

func init() {
	eng.Register(&eng.Check{ID: "C15", Title: "log blocks and log files", Level: "model_checking", Spaces: c15})
	eng.Register(&eng.Check{ID: "C16", Title: "database and table filters", Level: "model_checking", Spaces: c16})
}
