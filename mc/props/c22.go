package props

import (
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// visUpd leaves the columns out that a statement cannot set.
func visUpd(t *Table, old Row, changed []int) Upd {
	u := Upd{T: t, Old: old}
	for _, c := range changed {
		if !t.Cols[c].Virtual && !t.Cols[c].Hidden {
			u.Changed = append(u.Changed, c)
		}
	}
	return u
}

func addHidden(t *Table) {
	t.Cols = append(t.Cols, Col{Name: "FTS_DOC_ID", T: DocIDT(), Hidden: true})
	t.Sec = append(t.Sec, SecIndex{Name: "FTS_DOC_ID_INDEX", Unique: true, Cols: []int{len(t.Cols) - 1}})
}

func c22Layouts(maxCols int) *eng.Space {
	type kind struct {
		name string
		c    Col
	}
	kinds := []kind{
		{"int", Col{T: IntT(4, false)}},
		{"varchar-null", Col{T: VarcharUtf8(20), Nullable: true}},
		{"virtual-null", Col{T: IntT(4, false), Nullable: true, Virtual: true}},
		{"virtual-varchar", Col{T: VarcharUtf8(100), Virtual: true}},
	}
	return &eng.Space{
		Name: "virtual-and-hidden",
		Rule: "all tables of 1 key column and up to N others out of {INT, VARCHAR NULL, virtual INT NULL, virtual VARCHAR NOT NULL}, the key column at every place, hidden FTS_DOC_ID / one that the user declared / none, keyed by PRIMARY / UNIQUE / none, both row formats; dump, recovery and the undo log of an update of everything",
		Body: func(c *eng.Chooser) *eng.Case {
			n := 1 + c.Pick(maxCols)
			keyAt := c.Pick(n + 1)
			var cs []Col
			what := ""
			for i := 0; i <= n; i++ {
				if i == keyAt {
					cs = append(cs, col("id", IntT(4, false)))
					what += " id"
					continue
				}
				k := kinds[c.Pick(len(kinds))]
				k.c.Name = fmt.Sprintf("c%d", i)
				cs = append(cs, k.c)
				what += " " + k.name
			}
			hidden := c.Pick(3)
			cl := Clustering(c.Pick(3))
			red := c.Bool()
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("columns%s, FTS_DOC_ID %d, clustering %d, redundant=%v", what, hidden, cl, red)
			}, Run: func(e *eng.Env) *eng.Fail {
				t := tableOf("d", "t", 40, cs...)
				t.Key, t.Cluster, t.Redundant = []int{keyAt}, cl, red
				for i, c := range cs {
					if c.Virtual {
						t.Sec = append(t.Sec, SecIndex{Name: fmt.Sprintf("v%d", i), Cols: []int{i}})
					}
				}
				switch hidden {
				case 1:
					addHidden(t)
				case 2:
					t.Cols = append(t.Cols, col("FTS_DOC_ID", IntT(8, true)))
				}
				var rows []Row
				for r := 0; r < 3; r++ {
					row := make(Row, len(t.Cols))
					for i, c := range t.Cols {
						switch {
						case c.Virtual || c.Nullable && (r+i)%3 == 0:
						case c.Name == "FTS_DOC_ID":
							row[i] = uint64(100 + r)
						case c.T.MType == DataInt:
							row[i] = int64(r*10 + i)
						default:
							row[i] = []byte(fmt.Sprintf("r%dc%d", r, i))
						}
					}
					rows = append(rows, row)
				}
				d := dictOf(t)
				o := dump(e, d, oneLeaf(t, rows), t.DB, t.Name, false)
				e.Outcome(o.Text)
				if f := checkRows(t, rows, o); f != nil {
					return f
				}
				if f := checkRows(t, rows, dump(e, d, deletedLeaf(t, rows, nil), t.DB, t.Name, true)); f != nil {
					f.Msg = "deleted rows: " + f.Msg
					return f
				}
				var ch []int
				for i := range t.Cols {
					if i != keyAt || cl == RowID {
						ch = append(ch, i)
					}
				}
				l := newLog()
				var want []Upd
				for _, r := range rows {
					u := undoUpd(t, r, ch...)
					u.New = r
					u.VIdx = [][2]uint64{{141, 0}}
					l.add(u.LogRec(40, 300))
					if w := visUpd(t, r, ch); len(w.Changed) > 0 {
						want = append(want, w)
					}
				}
				o = redoLogs(e, d, l.files(0), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}

func c22Types() *eng.Space {
	var ts []*Type
	for n := 1; n <= 30; n++ {
		ts = append(ts, DecimalT(n))
	}
	ts = append(ts, JSONT(), GeometryT(false), GeometryT(true))
	for _, n := range []int{1, 2, 12, 66} {
		ts = append(ts, OldDecimalT(n))
	}
	for _, n := range []int{1, 63, 64, 191, 192, 193, 194, 255} {
		ts = append(ts, CharCs(60, n)) // 4 bytes each: over 768 bytes the column is no fixed length one
	}
	sizes := []int{0, 1, 2, 25, 126, 127, 128, 129, 255, 256, 257, 700, 3000}
	return &eng.Space{
		Name: "types",
		Rule: "DECIMAL of every size 1..30, JSON and GEOMETRY (5.6, 5.7) of 13 lengths, DECIMAL of before 5.0 of 1..66 characters, CHAR(1..255) of 4 byte characters, NOT NULL or NULL, with columns before and behind, both row formats; dump, recovery and undo log",
		Body: func(c *eng.Chooser) *eng.Case {
			y := ts[c.Pick(len(ts))]
			null := c.Bool()
			red := c.Bool()
			return &eng.Case{Title: func() string { return fmt.Sprintf("%s, nullable=%v, redundant=%v", y.Name, null, red) }, Run: func(e *eng.Env) *eng.Fail {
				t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("a", VarcharUtf8(20)), Col{Name: "x", T: y, Nullable: null}, ncol("b", VarcharUtf8(20)), ncol("n", IntT(4, false)))
				t.Redundant = red
				sz := sizes
				if y.Fixed > 0 {
					sz = []int{y.Fixed, y.Fixed, y.Fixed, y.Fixed}
				}
				var rows []Row
				for i, n := range sz {
					b := make([]byte, n)
					for k := range b {
						switch i % 4 {
						case 0:
							b[k] = byte(k * 37)
						case 1:
							b[k] = "'\\\n\x00;--`"[k%8]
						case 2:
							b[k] = 0xff - byte(k)
						}
					}
					if n > 0 && i%2 == 0 {
						b[0] |= 0x80
					}
					switch y.MType {
					case DataDecimal:
						b = []byte([]string{"0", "7", "-12.50", "123456789.01", "-0.3", "9"}[i%6])
						if len(b) > int(y.Len) {
							b = b[len(b)-int(y.Len):]
						}
					case DataChar, DataMySQL:
						b = CsText(60, "some text of up to sixty characters ... .. ..."[:i*int(y.Len)%45])
						if len(b) > int(y.Len) {
							b = b[:y.Len]
						}
					}
					rows = append(rows, Row{int64(i), bs(fmt.Sprintf("a%d", i)), b, bs(fmt.Sprintf("b%d", i)), int64(i * 3)})
				}
				if null {
					rows = append(rows, Row{int64(90), nil, nil, bs("b"), nil}, Row{int64(91), bs("a"), nil, nil, int64(9)})
				}
				d := dictOf(t)
				o := dump(e, d, oneLeaf(t, rows), t.DB, t.Name, false)
				e.Outcome(o.Text)
				if f := checkRows(t, rows, o); f != nil {
					return f
				}
				if f := checkRows(t, rows, dump(e, d, deletedLeaf(t, rows, nil), t.DB, t.Name, true)); f != nil {
					f.Msg = "deleted rows: " + f.Msg
					return f
				}
				l := newLog()
				var want []Upd
				for _, r := range rows {
					l.add(undoUpd(t, r, 1, 2, 3, 4).LogRec(40, 300))
					want = append(want, Upd{T: t, Changed: []int{1, 2, 3, 4}, Old: r})
				}
				o = redoLogs(e, d, l.files(0), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}

func c22Updates(max int) *eng.Space {
	return &eng.Space{
		Name: "updates",
		Rule: "undo records with every sequence of up to N different columns out of {2 stored, 3 virtual, hidden FTS_DOC_ID} x old/new value of the virtual ones {NULL, short, 200 bytes} x 0..3 (index id, position) pairs with ids of 1 to 5 bytes; an update of another table before and behind",
		Body: func(c *eng.Chooser) *eng.Case {
			var ch []int
			used := make([]bool, 8)
			n := 1 + c.Pick(max)
			for len(ch) < n {
				var free []int
				for i := 1; i <= 6; i++ {
					if !used[i] {
						free = append(free, i)
					}
				}
				i := free[c.Pick(len(free))]
				used[i] = true
				ch = append(ch, i)
			}
			ov, nv := c.Pick(3), c.Pick(3)
			pairs := c.Pick(4)
			big := c.Bool()
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("changed columns %v, old/new virtual value %d/%d, %d index pairs, big ids=%v", ch, ov, nv, pairs, big)
			}, Run: func(e *eng.Env) *eng.Fail {
				v := func(name string) Col { return Col{Name: name, T: VarcharUtf8(100), Nullable: true, Virtual: true} }
				t := tableOf("d", "t", 40, col("id", IntT(4, false)), v("v1"), ncol("s", VarcharUtf8(20)), v("v2"), v("v3"), col("n", IntT(4, false)))
				addHidden(t)
				vals := []Val{nil, bs("v"), letters(200)}
				mk := func(k int) Row {
					return Row{int64(7), vals[k], bs("old s"), vals[(k+1)%3], vals[k], int64(42), uint64(5)}
				}
				u := undoUpd(t, mk(ov), ch...)
				u.New = mk(nv)
				for i := 0; i < pairs; i++ {
					p := [2]uint64{uint64(41 + i), uint64(i)}
					if big {
						p = [2]uint64{[]uint64{0x7f, 0x3fff, 0x10000000}[i], []uint64{0x80, 0, 1017}[i]}
					}
					u.VIdx = append(u.VIdx, p)
				}
				st := sentinelTable()
				l := newLog()
				s1, w1 := sentinel(st, 1)
				s2, w2 := sentinel(st, 2)
				l.add(s1.LogRec(90, 300))
				l.add(u.LogRec(40, 300))
				l.add(s2.LogRec(90, 300))
				want := []Upd{w1}
				if w := visUpd(t, u.Old, ch); len(w.Changed) > 0 {
					want = append(want, w)
				}
				want = append(want, w2)
				o := redoLogs(e, dictOf(t, st), l.files(0), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}

func c22Long(th bool) *eng.Space {
	lens := []int{-1, 0, 1, 127, 128, 255, 256, 512, 767, 768, 769, 1023, 1024, 2047, 2048, 3000, 3072}
	pairs := []int{0, 1, 12, 25, 36, 37, 51, 52, 64}
	if th {
		for n := 2; n < 300; n++ {
			lens = append(lens, n)
		}
		pairs = nil
		for n := 0; n <= 64; n++ {
			pairs = append(pairs, n)
		}
	}
	sets := [][]int{{1}, {1, 2}, {2, 3}, {3, 1, 5}, {2, 4, 3, 1, 5}}
	return &eng.Space{
		Name: "long-virtual-values",
		Rule: fmt.Sprintf("undo records of %d sets of changed columns, old and new values of the virtual ones of %d lengths up to 3072 bytes, their places in %v indexes with ids of 1 or 5 bytes", len(sets), len(lens), pairs),
		Body: func(c *eng.Chooser) *eng.Case {
			ch := sets[c.Pick(len(sets))]
			ov, nv := lens[c.Pick(len(lens))], lens[c.Pick(len(lens))]
			n := pairs[c.Pick(len(pairs))]
			big := c.Bool()
			if !th && n > 1 && ov != nv && nv != 1 || th && n > 12 && n != 64 && ov != nv {
				return nil
			}
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("changed columns %v, old/new virtual values of %d/%d bytes (-1: NULL), %d indexes, big ids=%v", ch, ov, nv, n, big)
			}, Run: func(e *eng.Env) *eng.Fail {
				v := func(name string) Col { return Col{Name: name, T: VarcharUtf8(1024), Nullable: true, Virtual: true} }
				t := tableOf("d", "t", 40, col("id", IntT(4, false)), v("v1"), ncol("s", VarcharUtf8(20)), v("v2"), v("v3"), col("n", IntT(4, false)))
				val := func(n int) Val {
					if n < 0 {
						return nil
					}
					return letters(n)
				}
				mk := func(x, y int) Row { return Row{int64(7), val(x), bs("old s"), val(y), val(x), int64(42)} }
				u := undoUpd(t, mk(ov, nv), ch...)
				u.New = mk(nv, ov)
				for i := 0; i < n; i++ {
					p := [2]uint64{uint64(41 + i), uint64(i % 16)}
					if big {
						p[0] += 0x10000000
					}
					u.VIdx = append(u.VIdx, p)
				}
				st := sentinelTable()
				l := newLog()
				s1, w1 := sentinel(st, 1)
				s2, w2 := sentinel(st, 2)
				l.add(s1.LogRec(90, 300))
				l.add(u.LogRec(40, 300))
				l.add(s2.LogRec(90, 300))
				want := []Upd{w1}
				if w := visUpd(t, u.Old, ch); len(w.Changed) > 0 {
					want = append(want, w)
				}
				want = append(want, w2)
				o := redoLogs(e, dictOf(t, st), l.files(0), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}

// c22Wide: virtual columns of wide tables.
func c22Wide() *eng.Space {
	counts := []int{30, 126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 700, 1000}
	return &eng.Space{
		Name: "wide-virtual",
		Rule: fmt.Sprintf("tables of %v columns, one or two of them virtual: the first, 64th, 127th..130th, 255th..258th, 513th, middle, last but one, last, or all from there on; both row formats; dump, recovery, undo log", counts),
		Body: func(c *eng.Chooser) *eng.Case {
			n := counts[c.Pick(len(counts))]
			places := []int{0, 63, 126, 127, 128, 129, 254, 255, 256, 257, 512, n / 2, n - 2, n - 1}
			a := places[c.Pick(len(places))]
			how := c.Pick(3)
			red := c.Bool()
			if a >= n {
				return nil
			}
			return &eng.Case{Title: func() string { return fmt.Sprintf("%d columns, virtual %d (%d), redundant=%v", n, a, how, red) }, Run: func(e *eng.Env) *eng.Fail {
				t := tableOf("d", "t", 40)
				t.Redundant = red
				rows := make([]Row, 3)
				t.Key = nil
				var ch []int
				for i := 0; i < n; i++ {
					k := Col{Name: fmt.Sprintf("c%d", i), T: IntT(2, false), Nullable: true}
					k.Virtual = i == a || how == 1 && i == (a+n/3)%n || how == 2 && i > a
					if t.Key == nil && !k.Virtual {
						t.Key, k.Nullable = []int{i}, false
					}
					t.Cols = append(t.Cols, k)
					for r := range rows {
						var v Val = int64(r*1100 + i)
						if k.Virtual || k.Nullable && (i+r)%4 == 0 {
							v = nil
						}
						rows[r] = append(rows[r], v)
					}
					if (k.Virtual || i%5 == 0) && (t.Key == nil || t.Key[0] != i) {
						ch = append(ch, i)
					}
				}
				if t.Key == nil {
					return nil
				}
				d := dictOf(t)
				o := dump(e, d, oneLeaf(t, rows), t.DB, t.Name, false)
				e.Outcome(o.Text)
				if f := checkRows(t, rows, o); f != nil {
					return f
				}
				if f := checkRows(t, rows, dump(e, d, deletedLeaf(t, rows, nil), t.DB, t.Name, true)); f != nil {
					f.Msg = "deleted rows: " + f.Msg
					return f
				}
				l := newLog()
				var want []Upd
				for _, r := range rows {
					u := undoUpd(t, r, ch...)
					u.New = r
					u.VIdx = [][2]uint64{{141, 0}}
					l.add(u.LogRec(40, 300))
					if w := visUpd(t, r, ch); len(w.Changed) > 0 {
						want = append(want, w)
					}
				}
				o = redoLogs(e, d, l.files(0), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}

func c22(th bool) []*eng.Space {
	if th {
		return []*eng.Space{c22Layouts(5), c22Types(), c22Updates(5), c22Long(th), c22Wide()}
	}
	return []*eng.Space{c22Layouts(3), c22Types(), c22Updates(4), c22Long(th), c22Wide()}
}

func init() {
	eng.Register(&eng.Check{ID: "C22", Title: "columns without values of their own", Level: "model_checking", Spaces: c22})
}
