package props

import (
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// logb builds a redo log record stream.
type logb struct {
	b      []byte
	starts map[int]bool
}

func newLog() *logb { return &logb{starts: map[int]bool{}} }

func (l *logb) add(rec []byte) *logb {
	l.starts[len(l.b)] = true
	l.b = append(l.b, rec...)
	return l
}

func (l *logb) files(per int) [][]byte { return LogFiles(l.b, l.starts, per) }

// undoUpd is an undo record of an update with everyday identifiers.
func undoUpd(t *Table, old Row, changed ...int) *Undo {
	return &Undo{T: t, Type: UndoUpdExist, UndoNo: 3, TrxID: 0x1503, RollPtr: 0xa7000001200110, Old: old, Changed: changed}
}

// sentinel: a table whose update statement must survive whatever comes before it in the log.
func sentinelTable() *Table {
	s := tableOf("sdb", "sentinel", 90, col("id", IntT(4, false)), ncol("v", VarcharUtf8(20)), ncol("n", IntT(4, false)))
	return s
}

func sentinel(t *Table, k int) (*Undo, Upd) {
	old := Row{int64(k), []byte(fmt.Sprintf("s%d", k)), int64(1000 + k)}
	return undoUpd(t, old, 1, 2), Upd{T: t, Changed: []int{1, 2}, Old: old}
}

// undoSpace enumerates chunks of value sets as old column values (shape 0, 1) and as key values (shape 2).
func undoSpace(name, rule string, sets []valueSet, chunk int) *eng.Space {
	type job struct {
		s      valueSet
		lo, hi int
	}
	var jobs []job
	for _, s := range sets {
		for lo := 0; lo < s.n; lo += chunk {
			hi := lo + chunk
			if hi > s.n {
				hi = s.n
			}
			jobs = append(jobs, job{s, lo, hi})
		}
	}
	return &eng.Space{Name: name, Rule: rule, Body: func(c *eng.Chooser) *eng.Case {
		j := jobs[c.Pick(len(jobs))]
		red := c.Bool()
		shape := c.Pick(3)
		if shape == 2 && j.s.t.MType == DataBlob {
			return nil // a BLOB/TEXT key has a prefix
		}
		return &eng.Case{Title: func() string {
			return fmt.Sprintf("%s values %d..%d as %s, redundant=%v", j.s.name, j.lo, j.hi,
				[]string{"old value of the last column", "old value before another changed column", "key"}[shape], red)
		}, Run: func(e *eng.Env) *eng.Fail {
			var t *Table
			switch shape {
			case 0:
				t = tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", j.s.t))
			case 1:
				t = tableOf("d", "t", 40, ncol("v", j.s.t), ncol("w", VarcharUtf8(10)), col("id", IntT(4, false)))
				t.Key = []int{2}
			case 2:
				t = tableOf("d", "t", 40, ncol("w", VarcharUtf8(10)), col("v", j.s.t), col("id", IntT(4, false)))
				t.Key = []int{1, 2}
			}
			t.Redundant = red
			l := newLog()
			var want []Upd
			add := func(old Row, ch ...int) {
				l.add(undoUpd(t, old, ch...).LogRec(7, 300))
				want = append(want, Upd{T: t, Changed: ch, Old: old})
			}
			for i := j.lo; i < j.hi; i++ {
				v := j.s.at(i)
				switch shape {
				case 0:
					add(Row{int64(i), v}, 1)
					if i == (j.lo+j.hi)/2 {
						add(Row{int64(i), nil}, 1)
					}
				case 1:
					add(Row{v, []byte("w"), int64(i)}, 0, 1)
					if i == (j.lo+j.hi)/2 {
						add(Row{nil, nil, int64(i)}, 0, 1)
					}
				case 2:
					add(Row{[]byte("w"), v, int64(i)}, 0)
				}
			}
			o := redoLogs(e, dictOf(t), l.files(0), "", "")
			e.Outcome(o.Text)
			return checkUpds(want, o)
		}}
	}}
}

func undoSets(th bool) []valueSet {
	var s []valueSet
	for _, u := range []bool{false, true} {
		s = append(s, allSet(IntT(1, u), 1, u))
		for _, b := range []int{2, 3, 4, 8} {
			s = append(s, edgeSet(IntT(b, u), b, u))
		}
	}
	for b := 1; b <= 8; b++ {
		s = append(s, edgeSet(BitT(b), b, true), edgeSet(EnumT(b), b, true))
	}
	var ys []Val
	for y := 1900; y <= 2155; y++ {
		if y == 1900 {
			ys = append(ys, uint64(0))
			continue
		}
		ys = append(ys, uint64(y))
	}
	s = append(s, list(YearT(), ys))
	var ds, dts, ts, st []Val
	for _, y := range []int{0, 1, 999, 1000, 1969, 1970, 1999, 2000, 2038, 2100, 9999} {
		for m := 0; m <= 12; m++ {
			for _, d := range []int{0, 1, 28, 31} {
				ds = append(ds, Date{y, m, d})
				for _, h := range []int{0, 1, 12, 13, 23} {
					dts = append(dts, DateTime{Y: y, Mo: m, D: d, H: h, M: h * 2, S: 59 - h})
				}
			}
		}
	}
	for _, h := range []int{0, 1, 23, 24, 99, 100, 511, 512, 838} {
		for _, m := range []int{0, 1, 32, 59} {
			for _, x := range []int{0, 1, 32, 59} {
				ts = append(ts, Clock{H: h, M: m, S: x})
				if h+m+x > 0 {
					ts = append(ts, Clock{Neg: true, H: h, M: m, S: x})
				}
			}
		}
	}
	st = append(st, Stamp(0))
	for b := uint(0); b < 31; b++ {
		st = append(st, Stamp(1<<b), Stamp(1<<b|43201))
	}
	s = append(s, list(DateT(true), ds), list(DateTimeT(), dts), list(TimeT(), ts), list(StampT(), st),
		list(OldDateTimeT(), dts), list(OldTimeT(), ts), list(OldStampT(), st))
	s = append(s, fracSets(false)...)
	for _, cs := range []int{3, 11, 47, 51, 84, 12, 45, 248, 35, 54, 56, 60} {
		min, max := CharWidth(cs)
		var vs []Val
		for _, n := range []int{0, 1, 2, 5, 9, 10} {
			vs = append(vs, CsText(cs, "abcdefghij"[:n]))
			if max > min {
				b := []byte{}
				for i := 0; i < n; i++ {
					b = append(b, []byte{0xe4, 0xb8, 0xad, 0xb9}[:max]...)
				}
				vs = append(vs, b)
			}
		}
		s = append(s, list(CharCs(cs, 10), vs), list(VarcharCs(cs, 10), vs), list(TextCs(cs), vs))
	}
	fl := floatSets(false)
	s = append(s, fl[2], fl[3])
	for _, t := range strTypes {
		m := t.Max
		if t.Fixed > 0 {
			m = t.Fixed
		}
		if t.MType == DataMySQL {
			m = 20
		}
		t := t
		cut := func(b []byte) []byte {
			if len(b) > m-1 {
				b = b[:m-1]
			}
			return b
		}
		s = append(s, strSet(t, "special", len(special)*3, func(i int) []byte {
			w := special[i/3]
			return cut([]byte([]string{w, "x" + w + "x", w + w}[i%3]))
		}))
		s = append(s, strSet(t, "bytes", 256, func(i int) []byte { return []byte{byte(i)} }))
		n, at := words([]byte{0, '\n', '\\', '\'', '"', 26, 'n', ' ', 0xc3}, 2)
		if th {
			n, at = words([]byte{0, '\n', '\r', '\\', '\'', '"', 26, 'n', '0', ' ', '%', 0xc3, 0xa9}, 3)
		}
		s = append(s, strSet(t, "words", n, at))
	}
	return s
}

// compressed integer boundaries
func compEdges(bits uint) []uint64 {
	var o []uint64
	seen := map[uint64]bool{}
	add := func(v uint64) {
		if bits < 64 && v>>bits != 0 || seen[v] {
			return
		}
		seen[v] = true
		o = append(o, v)
	}
	for _, b := range []uint{0, 7, 8, 14, 16, 21, 24, 28, 31, 32, 39, 40, 46, 48, 53, 55, 56, 60, 63} {
		p := uint64(1) << b
		add(p - 1)
		add(p)
		add(p + 1)
		add(p | 0x80)
		add(p | 0xffffffff)
	}
	add(1<<bits - 1)
	add(0xff00000000)
	add(0x7f00000080)
	add(0x8000004000)
	return o
}

func c13(th bool) []*eng.Space {
	maxc := 3
	if th {
		maxc = 4
	}
	shape := func(c *eng.Chooser, cl Clustering) *eng.Case {
		n := 1 + c.Pick(maxc)
		var key []int
		if cl != RowID {
			key = orderedSubset(c, n, n)
		}
		inKey := map[int]bool{}
		for _, k := range key {
			inKey[k] = true
		}
		mix := c.Pick(2)
		red := c.Bool()
		sec := c.Pick(3)
		t, ks := shapeTable(n, func(i int) int { return 2*(i/2%2)*mix + (i+mix)%2 }, func(i int) bool { return !inKey[i] && i%2 == mix }, key, cl, red)
		t.Sec = secIndexes(sec, n)
		// which of the other columns change, and whether the old value is NULL
		var ch []int
		r := make(Row, n)
		for i := range r {
			r[i] = shapeKinds[ks[i]].at(3, i)
		}
		for i := 0; i < n; i++ {
			if inKey[i] {
				continue
			}
			k := 2
			if t.Cols[i].Nullable {
				k = 3
			}
			switch c.Pick(k) {
			case 1:
				ch = append(ch, i)
			case 2:
				ch = append(ch, i)
				r[i] = nil
			}
		}
		if len(ch) == 0 {
			return nil
		}
		rev := len(ch) > 1 && c.Bool()
		order := append([]int{}, ch...)
		if rev {
			for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
				order[i], order[j] = order[j], order[i]
			}
		}
		return &eng.Case{Title: func() string {
			return fmt.Sprintf("%s; %d columns; old values logged for columns %v; redundant=%v", shapeTitle(t), n, order, red)
		}, Run: func(e *eng.Env) *eng.Fail {
			st := sentinelTable()
			l := newLog()
			s0, w0 := sentinel(st, 1)
			s1, w1 := sentinel(st, 2)
			l.add(s0.LogRec(7, 300)).add(undoUpd(t, r, order...).LogRec(7, 300)).add(s1.LogRec(7, 300))
			o := redoLogs(e, dictOf(t, st), l.files(0), "", "")
			e.Outcome(o.Text)
			return checkUpds([]Upd{w0, {T: t, Changed: ch, Old: r}, w1}, o)
		}}
	}
	names := []string{"primary-key", "no-key", "unique-key"}
	var sp []*eng.Space
	for _, cl := range []Clustering{Primary, UniqueKey, RowID} {
		cl := cl
		sp = append(sp, &eng.Space{
			Name: "shape-" + names[cl],
			Rule: fmt.Sprintf("tables of 1..%d columns, every key, every set of changed columns with NULL or value, both log orders, secondary indexes, COMPACT and REDUNDANT, between two other updates", maxc),
			Body: func(c *eng.Chooser) *eng.Case { return shape(c, cl) },
		})
	}
	sp = append(sp, undoSpace("values", "boundary and special values of every supported type, as old value and as key value", undoSets(th), 300))

	t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(20)), ncol("w", IntT(4, false)))
	old := Row{int64(5), []byte("old"), nil}
	e56 := compEdges(56)
	e48 := compEdges(48)
	e64 := compEdges(64)
	around := func(title string, recs [][]byte, mid []Upd, dict []byte) *eng.Case {
		return &eng.Case{Title: func() string { return title }, Run: func(e *eng.Env) *eng.Fail {
			st := sentinelTable()
			l := newLog()
			s0, w0 := sentinel(st, 1)
			s1, w1 := sentinel(st, 2)
			l.add(s0.LogRec(7, 300))
			for _, r := range recs {
				l.add(r)
			}
			l.add(s1.LogRec(7, 300))
			if dict == nil {
				dict = dictOf(t, st)
			}
			o := redoLogs(e, dict, l.files(0), "", "")
			e.Outcome(o.Text)
			return checkUpds(append(append([]Upd{w0}, mid...), w1), o)
		}}
	}
	sp = append(sp, &eng.Space{
		Name: "identifiers",
		Rule: fmt.Sprintf("undo number (%d values) and transaction id, roll pointer (%d and %d values) at every boundary of the compressed encodings, each alone and every pair of undo number and transaction id", len(e64), len(e48), len(e56)),
		Body: func(c *eng.Chooser) *eng.Case {
			u := undoUpd(t, old, 1, 2)
			switch c.Pick(3) {
			case 0:
				u.UndoNo = e64[c.Pick(len(e64))]
				u.TrxID = e48[c.Pick(len(e48))]
			case 1:
				u.RollPtr = e56[c.Pick(len(e56))]
				u.TrxID = e48[c.Pick(len(e48))]
			case 2:
				u.RollPtr = e56[c.Pick(len(e56))]
				u.UndoNo = e64[c.Pick(len(e64))]
			}
			return around(fmt.Sprintf("undo no %#x, trx id %#x, roll ptr %#x", u.UndoNo, u.TrxID, u.RollPtr), [][]byte{u.LogRec(7, 300)}, []Upd{{T: t, Changed: []int{1, 2}, Old: old}}, nil)
		},
	}, &eng.Space{
		Name: "table-ids",
		Rule: "table ids at every boundary of the compressed encoding, for the updated table and for a table that is not in the dictionary; spaces and page numbers at the boundaries",
		Body: func(c *eng.Chooser) *eng.Case {
			known := c.Bool()
			id := e64[c.Pick(len(e64))]
			if id < 30 || id == 90 || id == 40 {
				return nil
			}
			t2 := *t
			t2.TableID = id
			rec := undoUpd(&t2, old, 1, 2).LogRec(7, 300)
			if !known {
				return around(fmt.Sprintf("update of the unknown table id %#x", id), [][]byte{rec}, nil, nil)
			}
			return around(fmt.Sprintf("table id %#x", id), [][]byte{rec}, []Upd{{T: &t2, Changed: []int{1, 2}, Old: old}}, dictOf(&t2, sentinelTable()))
		},
	}, &eng.Space{
		Name: "kinds",
		Rule: "insert, update, update of a deleted row and delete-mark undo records with every compilation-info and extern flag and info bits, with and without the ordering columns at the end: only updates give statements",
		Body: func(c *eng.Chooser) *eng.Case {
			ty := []int{UndoInsertRec, UndoUpdExist, UndoUpdDel, UndoDelMark}
			var recs [][]byte
			var want []Upd
			title := ""
			for k := 0; k < 2; k++ {
				u := undoUpd(t, Row{int64(5 + k), []byte("old"), nil}, 1, 2)
				u.Type = ty[c.Pick(4)]
				u.Cmpl = c.Pick(4)
				u.Extern = c.Bool()
				if u.Type != UndoInsertRec {
					u.Info = []byte{0, 0x20}[c.Pick(2)]
				}
				if (u.Type == UndoUpdExist || u.Type == UndoUpdDel) && u.Cmpl&1 == 0 || u.Type == UndoDelMark {
					u.Tail = OrdTail([]byte{0x80, 0, 0, 5}, []byte("old"), nil)
				}
				if u.Type == UndoUpdExist {
					want = append(want, Upd{T: t, Changed: []int{1, 2}, Old: u.Old})
				}
				title += fmt.Sprintf("[type %d cmpl %d extern %v info %#x] ", u.Type, u.Cmpl, u.Extern, u.Info)
				recs = append(recs, u.LogRec(7, 300))
			}
			return around(title, recs, want, nil)
		},
	}, &eng.Space{
		Name: "lengths",
		Rule: "old values of every length 0..600 and around 1000, 4096, 8000, of a VARCHAR, TEXT and BLOB, alone and before another column",
		Body: func(c *eng.Chooser) *eng.Case {
			ty := []*Type{VarcharUtf8(2700), TextT(2), BlobT(3)}[c.Pick(3)]
			n := c.Pick(620)
			if n > 600 {
				n = []int{1000, 1023, 1024, 1025, 4095, 4096, 4097, 7999, 8000, 5000, 6000, 7000, 2000, 3000, 900, 800, 700, 1500, 2500}[n-601]
			}
			both := c.Bool()
			v := make([]byte, n)
			for i := range v {
				v[i] = byte('a' + i%26)
			}
			t2 := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", ty), ncol("w", VarcharUtf8(20)))
			ch := []int{1}
			if both {
				ch = []int{1, 2}
			}
			r := Row{int64(5), v, []byte("tail")}
			return around(fmt.Sprintf("%s of %d bytes, another column=%v", ty.Name, n, both), [][]byte{undoUpd(t2, r, ch...).LogRec(7, 300)}, []Upd{{T: t2, Changed: ch, Old: r}}, dictOf(t2, sentinelTable()))
		},
	}, &eng.Space{
		Name: "wide-updates",
		Rule: "updates of 1, 2 or all but 0..3 columns, or of 8, 16, 64, 127, 128, 129, 255, 256, 500 of them, of tables of 9..1000 columns, from the first on, to the last, or every second one; a third of the values NULL",
		Body: func(c *eng.Chooser) *eng.Case {
			n := []int{9, 17, 65, 129, 130, 200, 257, 300, 600, 1000}[c.Pick(10)]
			k := []int{1, 2, n - 4, n - 3, n - 2, n - 1, 8, 16, 64, 127, 128, 129, 255, 256, 500}[c.Pick(15)]
			how := c.Pick(3)
			short := c.Bool()
			if k >= n || how == 2 && 2*k >= n {
				return nil
			}
			t2 := tableOf("d", "t", 40, col("id", IntT(4, false)))
			r := Row{int64(5)}
			for i := 1; i < n; i++ {
				t2.Cols = append(t2.Cols, ncol(fmt.Sprintf("c%d", i), []*Type{IntT(2, false), VarcharUtf8(9)}[i%2]))
				switch {
				case i%3 == 0 && !short:
					r = append(r, nil)
				case i%2 == 0:
					r = append(r, int64(i))
				default:
					r = append(r, []byte(fmt.Sprint(i)))
				}
			}
			var ch []int
			for i := 0; i < k; i++ {
				ch = append(ch, []int{1 + i, n - k + i, 1 + 2*i}[how])
			}
			return around(fmt.Sprintf("%d of %d columns, selection %d, NULLs=%v", k, n, how, !short), [][]byte{undoUpd(t2, r, ch...).LogRec(7, 300)}, []Upd{{T: t2, Changed: ch, Old: r}}, dictOf(t2, sentinelTable()))
		},
	})
	return sp
}

func init() {
	eng.Register(&eng.Check{ID: "C13", Title: "update statements from the redo log", Level: "model_checking", Spaces: c13})
}
