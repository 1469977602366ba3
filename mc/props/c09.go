package props

import (
	"encoding/binary"
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// cutsOf enumerates the ways to cut n rows into exactly k non-empty runs.
func cutsOf(c *eng.Chooser, n, k int) []int {
	var out []int
	left := n
	for i := k; i > 1; i-- {
		m := 1 + c.Pick(left-i+1)
		out = append(out, m)
		left -= m
	}
	return append(out, left)
}

// perm picks a permutation of xs.
func perm(c *eng.Chooser, xs []uint32) []uint32 {
	rest := append([]uint32{}, xs...)
	var out []uint32
	for len(rest) > 0 {
		i := c.Pick(len(rest))
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return out
}

// dictTables: a small dictionary; the tables have different columns so that a mix-up shows.
func dictTables() []*Table {
	a := tableOf("a", "t", 40, col("id", IntT(4, false)), ncol("x", VarcharUtf8(20)), ncol("y", IntT(2, true)))
	a.Key = []int{2, 0}
	a.Cols[2].Nullable = false
	a.Sec = []SecIndex{{Name: "kx", Cols: []int{1}}}
	b := tableOf("b", "t", 45, ncol("p", VarcharUtf8(100)), col("q", IntT(8, false)))
	b.Key, b.IndexID = []int{1}, 155
	d := tableOf("a", "tt", 38, ncol("u", IntT(1, false)), ncol("v", VarcharUtf8(10)), ncol("w", IntT(4, false)))
	d.Cluster, d.IndexID = RowID, 160
	return []*Table{a, b, d}
}

func dictRows(t *Table) []Row {
	mk := func(k int) Row {
		r := make(Row, len(t.Cols))
		for i, c := range t.Cols {
			switch {
			case c.Nullable && (i+k)%3 == 0:
			case c.T.MType == DataVarMySQL:
				r[i] = []byte(fmt.Sprintf("%s-%d-%d", t.DB, i, k))
			case c.T.PrType&512 != 0:
				r[i] = uint64(10*i + k + 3)
			default:
				r[i] = int64(10*i + k + 1)
			}
		}
		return r
	}
	return []Row{mk(0), mk(1), mk(2)}
}

// dictCase dumps every table of the dictionary with the given image.
func dictCase(ts []*Table, img func() []byte, title func() string) *eng.Case {
	return &eng.Case{Title: title, Run: func(e *eng.Env) *eng.Fail {
		im := img()
		for _, t := range ts {
			rows := dictRows(t)
			o := dump(e, im, oneLeaf(t, rows), t.DB, t.Name, false)
			e.Outcome(o.Text)
			if f := checkRows(t, rows, o); f != nil {
				f.Msg = fmt.Sprintf("table %s.%s: %s", t.DB, t.Name, f.Msg)
				return f
			}
		}
		return nil
	}}
}

var dictNames = [4]string{"SYS_TABLES", "SYS_COLUMNS", "SYS_INDEXES", "SYS_FIELDS"}

func layoutText(l DictLayout) string {
	s := ""
	for k := range l.Cuts {
		if l.Cuts[k] != nil {
			s += fmt.Sprintf(" %s rows %v on pages %v", dictNames[k], l.Cuts[k], l.Leaf[k])
		}
	}
	if s == "" {
		s = " every dictionary table on its root page"
	}
	return s
}

// addForeign puts a page at position at that imitates dictionary table k.
func addForeign(l *DictLayout, d *Dict, k, kind int, at uint32, red bool, leaf int) string {
	nos := l.Leaf[k]
	if nos == nil {
		nos = []uint32{DictRoots[k]}
	}
	other := tableOf("z", "other", 77, col("id", IntT(4, false)), ncol("x", VarcharUtf8(20)))
	other.Redundant = red
	withIndexID := func(typ int, no uint32) []byte {
		return RawPage(0, no, typ, func(b []byte) {
			copy(b[66:74], []byte{0, 0, 0, 0, 0, 0, 0, byte(k + 1)})
			for i := 74; i < 400; i++ {
				b[i] = byte(i*31 + k)
			}
		})
	}
	desc := ""
	l.Extra = map[uint32][]byte{}
	older := dictTables() // what the dictionary once was: the columns before an ALTER
	for _, t := range older {
		t.Cols[0].Name, t.Cols[1].T = "old", IntT(8, false)
		t.Key = []int{1}
	}
	switch kind {
	case 0, 1, 2, 3, 4, 5:
		typ := []int{PageUndo, PageBlob, PageSys, PageInode, PageAllocated, 5}[kind]
		l.Extra[at] = withIndexID(typ, at)
		desc = fmt.Sprintf("page of type %d with index id %d at position %d", typ, k+1, at)
	case 6: // doublewrite copy of a page of another tablespace that has the number of a leaf / root
		rows := []Row{{int64(1), []byte("x")}}
		l.Extra[at] = leafPage(other, nos[0], rows).Bytes()
		desc = fmt.Sprintf("copy of page %d of another tablespace at position %d", nos[0], at)
	case 7:
		rows := []Row{{int64(1), []byte("x")}}
		l.Extra[at] = leafPage(other, DictRoots[k], rows).Bytes()
		desc = fmt.Sprintf("copy of page %d of another tablespace at position %d", DictRoots[k], at)
	case 8: // doublewrite copy of a dictionary page itself
		img := d.Image(*l)
		no := nos[leaf%len(nos)]
		l.Extra[at] = append([]byte{}, img[int(no)*PageSize:int(no+1)*PageSize]...)
		desc = fmt.Sprintf("doublewrite copy of dictionary page %d at position %d", no, at)
	case 9: // an index page of another index (for example a user table in the system tablespace)
		rows := []Row{{int64(1), []byte("x")}}
		l.Extra[at] = leafPage(other, at, rows).Bytes()
		desc = "page of another index"
	case 10:
		l.Extra[at] = RawPage(0, 7, PageSys, func(b []byte) { // copy of the dictionary header of another server
			for i := 38; i < 100; i++ {
				b[i] = 0x55
			}
		})
		desc = fmt.Sprintf("foreign copy of page 7 at position %d", at)
	}
	if kind >= 15 { // a page of an index whose number resembles that of the dictionary's
		id := []uint64{1 << 32, 1 << 16, 1 << 8, 1 << 63}[kind-15] | uint64(k+1)
		img := MakeDict(older...).Image(DictLayout{})
		no := DictRoots[k]
		b := append([]byte{}, img[int(no)*PageSize:int(no+1)*PageSize]...)
		copy(b[4:8], []byte{0, 0, 0, byte(at)})
		binary.BigEndian.PutUint64(b[66:], id)
		l.Extra[at] = b
		desc = fmt.Sprintf("page of the index %#x at position %d", id, at)
	} else if kind >= 11 { // a page that was a dictionary page once and is of another type now, most of it not overwritten
		typ := []int{PageUndo, PageBlob, PageAllocated, 3}[kind-11]
		img := MakeDict(older...).Image(DictLayout{})
		no := DictRoots[k]
		b := append([]byte{}, img[int(no)*PageSize:int(no+1)*PageSize]...)
		copy(b[4:8], []byte{0, 0, 0, byte(at)})
		copy(b[24:26], []byte{0, byte(typ)})
		l.Extra[at] = b
		desc = fmt.Sprintf("page %d of type %d that was a dictionary page before", at, typ)
	}
	binary.BigEndian.PutUint64(l.Extra[at][16:], 1<<40+uint64(at)) // written last
	return desc
}

func leafOf(c *eng.Chooser, kind int) int {
	if kind == 8 {
		return c.Pick(2)
	}
	return 0
}

// combined: everything the other spaces vary, at once.
func combined(devs int) *eng.Space {
	ts := dictTables()
	return &eng.Space{
		Name: "combined", Devs: devs,
		Rule: fmt.Sprintf("up to %d of: a way to cut each dictionary table, node pages, purged rows of an older definition or another table for each, delete-marked rows of a renamed table, of a dropped table, of a dropped index, a foreign page of any kind before or behind", devs),
		Body: func(c *eng.Chooser) *eng.Case {
			cuts := [4]int{c.Dev(5), c.Dev(5), c.Dev(5), c.Dev(5)}
			mids := c.Dev(5)
			purged := [4]int{c.Dev(3), c.Dev(3), c.Dev(3), c.Dev(3)}
			dead := [3]int{c.Dev(13), c.Dev(13), c.Dev(7)}
			foreign, fk, at := c.Dev(20), 0, uint32(0)
			fred, fleaf := false, 0
			if foreign > 0 {
				fk, at = c.Pick(4), []uint32{13, 70}[c.Pick(2)]
				fred, fleaf = c.Bool(), leafOf(c, foreign-1)
			}
			build := func() ([]byte, string) {
				d := MakeDict(ts...)
				desc := ""
				if k := dead[0]; k > 0 { // renamed
					old := dictTables()[(k-1)%3]
					old.DB, old.Name = []string{"a", "z"}[(k-1)/3%2], []string{"#sql-ib41", "zz"}[(k-1)/6]
					d.AddDead(0, []DictRec{old.TableRec()})
					desc += fmt.Sprintf(" %s was %s.%s;", ts[(k-1)%3].Name, old.DB, old.Name)
				}
				if k := dead[1]; k > 0 { // dropped
					old := dictTables()[(k-1)%3]
					old.Name = "dropped"
					delta := []int{-25, 25}[(k-1)/3%2]
					old.TableID += uint64(delta)
					old.IndexID += uint64(4 * delta)
					mask := []int{15, 14}[(k-1)/6]
					for i, rs := range MakeDict(old).Rows {
						if mask&(1<<i) != 0 {
							d.AddDead(i, rs)
						}
					}
					desc += fmt.Sprintf(" %s.dropped (id %d) was dropped, rows left %d;", old.DB, old.TableID, mask)
				}
				if k := dead[2]; k > 0 { // an index was dropped
					old := dictTables()[(k-1)%3]
					old.Sec = []SecIndex{{Name: "k_old", Cols: []int{1, 0}, Unique: k > 3}}
					old.Cluster = RowID
					old.IndexID += 50
					idx, fs := old.IndexRecs()
					d.AddDead(2, idx[1:])
					d.AddDead(3, fs)
					desc += fmt.Sprintf(" index of %s was dropped;", old.Name)
				}
				older, other := dictTables(), dictTables()
				for i, t := range older {
					t.Cols[0].Name, t.Cols[1].T = "old", IntT(8, false)
					t.Key = []int{1}
					other[i].Name = fmt.Sprintf("old%d", i)
					other[i].TableID, other[i].IndexID = t.TableID+20, t.IndexID+60
				}
				var l DictLayout
				for k := 0; k < 4; k++ {
					n := len(d.Rows[k])
					base := uint32(14 + 6*k)
					switch cuts[k] {
					case 1:
						l.Cuts[k], l.Leaf[k] = []int{n / 2, n - n/2}, []uint32{base, base + 1}
					case 2:
						l.Cuts[k], l.Leaf[k] = []int{n / 2, n - n/2}, []uint32{base + 1, base}
					case 3:
						l.Cuts[k], l.Leaf[k] = []int{1, n - 1}, []uint32{base + 30, base + 1}
					case 4:
						l.Cuts[k], l.Leaf[k] = []int{1, n - 2, 1}, []uint32{base + 2, base, base + 1}
					}
					if mids == k+1 && l.Cuts[k] != nil {
						l.Mid[k] = []uint32{base + 3, base + 34}
						desc += " nodes of " + dictNames[k] + ";"
					}
					switch purged[k] {
					case 1:
						l.Purged[k] = MakeDict(older...).Rows[k]
					case 2:
						l.Purged[k] = MakeDict(other...).Rows[k]
					}
				}
				if foreign > 0 {
					desc += " " + addForeign(&l, d, fk, foreign-1, at, fred, fleaf) + ";"
				}
				return d.Image(l), fmt.Sprintf("purged %v;%s%s", purged, desc, layoutText(l))
			}
			return dictCase(ts, func() []byte { b, _ := build(); return b }, func() string { _, t := build(); return t })
		},
	}
}

func c09(th bool) []*eng.Space {
	ts := dictTables()
	maxLeaves := 3
	if th {
		maxLeaves = 4
	}
	sp := []*eng.Space{
		{
			Name: "leaf-cuts",
			Rule: fmt.Sprintf("each dictionary table alone cut in every way into 2..%d leaf pages, placed in the file in every order; all three tables dumped", maxLeaves),
			Body: func(c *eng.Chooser) *eng.Case {
				k := c.Pick(4)
				n := len(MakeDict(ts...).Rows[k])
				m := 2 + c.Pick(maxLeaves-1)
				if m > n {
					return nil
				}
				var l DictLayout
				l.Cuts[k] = cutsOf(c, n, m)
				var pg []uint32
				for i := 0; i < m; i++ {
					pg = append(pg, uint32(13+2*i))
				}
				l.Leaf[k] = perm(c, pg)
				return dictCase(ts, func() []byte { return MakeDict(ts...).Image(l) }, func() string { return "dictionary:" + layoutText(l) })
			},
		},
		{
			Name: "all-split",
			Rule: "all four dictionary tables cut into two leaves (first row / half / all but the last on the first leaf), in every interleaving of their pages that keeps or swaps each pair",
			Body: func(c *eng.Chooser) *eng.Case {
				d := MakeDict(ts...)
				var l DictLayout
				cut := c.Pick(3)
				base := perm(c, []uint32{13, 14, 15, 16})
				for k := 0; k < 4; k++ {
					n := len(d.Rows[k])
					a := []int{1, n / 2, n - 1}[cut]
					l.Cuts[k] = []int{a, n - a}
					lo, hi := base[k], base[(k+1)%4]+4
					if c.Bool() {
						lo, hi = hi, lo
					}
					l.Leaf[k] = []uint32{lo, hi}
				}
				return dictCase(ts, func() []byte { return d.Image(l) }, func() string { return "dictionary:" + layoutText(l) })
			},
		},
		{
			Name: "dropped-tables",
			Rule: "dictionary rows of dropped tables on the free lists: every subset of the dictionary tables keeps purged rows of an older definition of the same tables (other columns, key, ids) or of another table; one or two leaves",
			Body: func(c *eng.Chooser) *eng.Case {
				old := dictTables()
				mode := c.Pick(3)
				for i, t := range old {
					switch mode {
					case 0: // same names, older ids
						t.TableID, t.IndexID = t.TableID-20, t.IndexID-60
					case 1: // same ids: columns were there before an ALTER
						t.Cols[0].Name, t.Cols[1].T = "old", IntT(8, false)
						t.Key = []int{1}
					case 2:
						t.Name = fmt.Sprintf("old%d", i)
						t.TableID, t.IndexID = t.TableID+20, t.IndexID+60
					}
				}
				od := MakeDict(old...)
				d := MakeDict(ts...)
				var l DictLayout
				split := c.Bool()
				desc := ""
				for k := 0; k < 4; k++ {
					if c.Bool() {
						l.Purged[k] = od.Rows[k]
						desc += " " + dictNames[k]
					}
					if split {
						n := len(d.Rows[k])
						l.Cuts[k] = []int{n / 2, n - n/2}
						l.Leaf[k] = []uint32{uint32(14 + 2*k), uint32(13 + 2*k)}
					}
				}
				return dictCase(ts, func() []byte { return d.Image(l) }, func() string { return fmt.Sprintf("purged rows (%d) in%s;%s", mode, desc, layoutText(l)) })
			},
		},
		{
			Name: "three-levels",
			Rule: "each subset of the dictionary tables with two node pages between the root and 2..4 leaves, the node pages before, between and behind the leaves",
			Body: func(c *eng.Chooser) *eng.Case {
				d := MakeDict(ts...)
				var l DictLayout
				mask := 1 + c.Pick(15)
				m := 2 + c.Pick(3)
				order := perm(c, []uint32{0, 1, 2})
				for k := 0; k < 4; k++ {
					if mask&(1<<k) == 0 {
						continue
					}
					n := len(d.Rows[k])
					left := n
					var pg []uint32
					for i := 0; i < m && left > 0; i++ {
						q := (left + m - i - 1) / (m - i)
						l.Cuts[k] = append(l.Cuts[k], q)
						left -= q
						pg = append(pg, uint32(13+10*k+2+i))
					}
					l.Leaf[k] = pg
					l.Mid[k] = []uint32{uint32(13 + 10*k + int(order[0])*4), uint32(14 + 10*k + int(order[1])*4)}
					if c.Bool() {
						l.Leaf[k][0], l.Leaf[k][len(pg)-1] = l.Leaf[k][len(pg)-1], l.Leaf[k][0]
					}
					for i := range l.Leaf[k] { // away from the node pages
						for l.Leaf[k][i] == l.Mid[k][0] || l.Leaf[k][i] == l.Mid[k][1] {
							l.Leaf[k][i] += 60
						}
					}
				}
				return dictCase(ts, func() []byte { return d.Image(l) }, func() string { return fmt.Sprintf("node pages %v;%s", l.Mid, layoutText(l)) })
			},
		},
		{
			Name: "not-purged",
			Rule: "delete-marked dictionary rows that purge has not removed yet: a renamed table (old name before, between and behind the others, in the same or another database), a dropped table of which every subset of the four kinds of rows is left (its name free, or used by a new table), dropped indexes; one or two leaves",
			Body: func(c *eng.Chooser) *eng.Case {
				d := MakeDict(ts...)
				kind := c.Pick(3)
				desc := ""
				var gone *Table
				switch kind {
				case 0:
					which := c.Pick(3)
					old := dictTables()[which]
					old.DB = []string{"a", "b", "z", "0"}[c.Pick(4)]
					old.Name = []string{"#sql-ib41", "0", "m", "z", "ta"}[c.Pick(5)]
					d.AddDead(0, []DictRec{old.TableRec()})
					desc = fmt.Sprintf("%s.%s was renamed from %s.%s", ts[which].DB, ts[which].Name, old.DB, old.Name)
					gone = old
				case 1:
					old := dictTables()[c.Pick(3)]
					delta := []int{-20, 20, 3}[c.Pick(3)]
					old.TableID += uint64(delta)
					old.IndexID += uint64(4 * delta)
					mask := 1 + c.Pick(15)
					if mask&1 != 0 {
						old.Name = []string{"0", "z"}[c.Pick(2)]
					}
					if mask == 15 {
						gone = old
					}
					od := MakeDict(old)
					for k := 0; k < 4; k++ {
						if mask&(1<<k) != 0 {
							d.AddDead(k, od.Rows[k])
							desc += " " + dictNames[k]
						}
					}
					desc = fmt.Sprintf("%s.%s (id %d) was dropped, rows left in%s", old.DB, old.Name, old.TableID, desc)
				case 2:
					which := c.Pick(3)
					old := dictTables()[which]
					old.Sec = []SecIndex{{Name: "k_old", Cols: []int{1, 0}, Unique: c.Bool()}}
					old.Cluster = RowID // no row for the key
					old.IndexID = []uint64{old.IndexID - 13, old.IndexID + 21, old.IndexID + 50}[c.Pick(3)]
					idx, fs := old.IndexRecs()
					d.AddDead(2, idx[1:])
					left := c.Bool()
					if left {
						d.AddDead(3, fs)
					}
					desc = fmt.Sprintf("index %d of %s.%s was dropped, fields left: %v", old.IndexID+1, old.DB, old.Name, left)
				}
				var l DictLayout
				if c.Bool() {
					for k := 0; k < 4; k++ {
						n := len(d.Rows[k])
						l.Cuts[k] = []int{n / 2, n - n/2}
						l.Leaf[k] = []uint32{uint32(14 + 2*k), uint32(13 + 2*k)}
					}
				}
				live := dictCase(ts, func() []byte { return d.Image(l) }, func() string { return desc + ";" + layoutText(l) })
				if gone == nil {
					return live
				}
				return &eng.Case{Title: live.Title, Run: func(e *eng.Env) *eng.Fail {
					if f := live.Run(e); f != nil {
						return f
					}
					rows := dictRows(gone)
					o := dump(e, d.Image(l), oneLeaf(gone, rows), gone.DB, gone.Name, false)
					if o.Panic == "" && o.Err != nil && o.Text == "" {
						return nil
					}
					if kind == 0 {
						return eng.Failf("old-name", "the dictionary has no table %s.%s any more, yet it printed %.300s (error %v)", gone.DB, gone.Name, o.Text, o.Err)
					}
					// a dropped table may be found as long as all its rows are there
					if f := checkRows(gone, rows, o); f != nil && o.Text != "" {
						f.Msg = fmt.Sprintf("dropped table %s.%s: %s", gone.DB, gone.Name, f.Msg)
						return f
					}
					return nil
				}}
			},
		},
		{
			Name: "virtual-columns-changed",
			Rule: "a table of three stored columns to which a virtual column was added, or of which one was dropped, at any place, with up to two other virtual columns at any place: the rows of the old virtual columns are delete-marked, with the positions they had; alone or before or behind another table; dump, recovery and redo log",
			Body: func(c *eng.Chooser) *eng.Case {
				add := c.Bool()
				n := c.Pick(3)
				at := []int{c.Pick(4)} // the column that was dropped or added
				for i := 0; i < n; i++ {
					at = append(at, c.Pick(4))
				}
				red := c.Bool()
				near := c.Pick(3)
				mk := func(all bool) *Table {
					var cs []Col
					keyAt := 0
					for i, x := range []Col{col("id", IntT(4, false)), ncol("x", VarcharUtf8(20)), col("y", IntT(2, true)), {}} {
						for k, a := range at {
							if a == i && (all || k > 0) {
								cs = append(cs, Col{Name: fmt.Sprintf("g%d", k), T: IntT(8, false), Nullable: k == 1, Virtual: true})
							}
						}
						if i == 0 {
							keyAt = len(cs)
						}
						if i < 3 {
							cs = append(cs, x)
						}
					}
					t := tableOf("a", "t", 40, cs...)
					t.Key, t.Redundant = []int{keyAt}, red
					return t
				}
				old, t := mk(true), mk(false)
				if add {
					old, t = t, old
				}
				all := []*Table{t}
				if near > 0 {
					o := tableOf("a", "u", 40+[]uint64{0, 2, 1<<64 - 2}[near], col("p", IntT(4, false)), Col{Name: "q", T: IntT(4, false), Virtual: true}, ncol("r", VarcharUtf8(9)))
					o.IndexID = t.IndexID + 7
					all = append(all, o)
				}
				return &eng.Case{Title: func() string {
					return fmt.Sprintf("virtual column at place %d added=%v, others at %v, redundant=%v, other table %d", at[0], add, at[1:], red, near)
				}, Run: func(e *eng.Env) *eng.Fail {
					d := MakeDict(all...)
					have := map[string]bool{}
					for _, r := range t.ColumnRecs() {
						have[string(r.V[1])] = true
					}
					for _, r := range old.ColumnRecs() {
						if !have[string(r.V[1])] {
							d.AddDead(1, []DictRec{r})
						}
					}
					img := d.Image(DictLayout{})
					l := newLog()
					var want []Upd
					for _, t := range all {
						var rows []Row
						var ch []int
						for k := 0; k < 3; k++ {
							r := make(Row, len(t.Cols))
							for i, c := range t.Cols {
								switch {
								case c.Virtual || c.Nullable && k == 1:
								case c.T.MType == DataVarMySQL:
									r[i] = []byte(fmt.Sprintf("%s-%d", t.Name, k))
								case c.T.PrType&512 != 0:
									r[i] = uint64(k + 7)
								default:
									r[i] = int64(10*i + k + 1)
								}
							}
							rows = append(rows, r)
						}
						for i := range t.Cols {
							if i != t.Key[0] {
								ch = append(ch, i)
							}
						}
						o := dump(e, img, oneLeaf(t, rows), t.DB, t.Name, false)
						e.Outcome(o.Text)
						if f := checkRows(t, rows, o); f != nil {
							return f
						}
						if f := checkRows(t, rows, dump(e, img, deletedLeaf(t, rows, nil), t.DB, t.Name, true)); f != nil {
							f.Msg = "deleted rows: " + f.Msg
							return f
						}
						u := undoUpd(t, rows[0], ch...)
						u.New = rows[0]
						l.add(u.LogRec(40, 300))
						want = append(want, visUpd(t, rows[0], ch))
					}
					o := redoLogs(e, img, l.files(0), "", "")
					e.Outcome(o.Text)
					return checkUpds(want, o)
				}}
			},
		},
		{
			Name: "many-tables",
			Rule: "dictionaries of 1..60 tables (1..5 columns, several key shapes) with the dictionary tables filling pages of 2..40 rows; every table dumped",
			Body: func(c *eng.Chooser) *eng.Case {
				n := []int{1, 2, 3, 7, 20, 60}[c.Pick(6)]
				per := []int{2, 3, 5, 9, 17, 40}[c.Pick(6)]
				rev := c.Bool()
				var many []*Table
				for i := 0; i < n; i++ {
					k := i % 5
					t, _ := shapeTable(k+1, func(j int) int { return (j + i) % len(shapeKinds) }, func(j int) bool { return j != k/2 && j != k && j%2 == 0 }, []int{k}, Primary, i%3 == 1)
					if k > 1 {
						t.Key = []int{k, k / 2}
					}
					t.Sec = secIndexes(i%3, k+1)
					t.DB, t.Name = fmt.Sprintf("db%d", i%4), fmt.Sprintf("t%d", (i*11)%n)
					t.TableID, t.IndexID, t.Space = uint64(30+i), uint64(300+4*i), uint32(20+i)
					many = append(many, t)
				}
				d := MakeDict(many...)
				var l DictLayout
				next := uint32(13)
				for k := 0; k < 4; k++ {
					rows := len(d.Rows[k])
					if rows <= per {
						continue
					}
					for rows > 0 {
						m := per
						if m > rows {
							m = rows
						}
						l.Cuts[k] = append(l.Cuts[k], m)
						l.Leaf[k] = append(l.Leaf[k], next)
						next++
						rows -= m
					}
					if rev {
						f := l.Leaf[k]
						for i, j := 0, len(f)-1; i < j; i, j = i+1, j-1 {
							f[i], f[j] = f[j], f[i]
						}
					}
				}
				return &eng.Case{Title: func() string {
					return fmt.Sprintf("%d tables, %d rows per dictionary page, reverse=%v", n, per, rev)
				}, Run: func(e *eng.Env) *eng.Fail {
					img := d.Image(l)
					for i, t := range many {
						var ks []int
						for j := range t.Cols {
							ks = append(ks, (j+i)%len(shapeKinds))
						}
						rows := shapeRows(t, ks)
						o := dump(e, img, oneLeaf(t, rows), t.DB, t.Name, i%2 == 1 && false)
						e.Outcome(o.Text)
						if f := checkRows(t, rows, o); f != nil {
							f.Msg = fmt.Sprintf("table %s.%s (%s): %s", t.DB, t.Name, shapeTitle(t), f.Msg)
							return f
						}
					}
					return nil
				}}
			},
		},
		{
			Name: "foreign-pages",
			Rule: "other pages in the system tablespace, before or after the dictionary leaves: pages of any type that carry a dictionary index id at the index id position, or all of a page of the dictionary as it was before, pages of indexes with resembling numbers, doublewrite copies of dictionary pages and of pages of other tablespaces that have the number of a dictionary page, index pages of other indexes, never written pages",
			Body: func(c *eng.Chooser) *eng.Case {
				d := MakeDict(ts...)
				var l DictLayout
				for k := 0; k < 4; k++ {
					n := len(d.Rows[k])
					l.Cuts[k] = []int{n / 2, n - n/2}
					l.Leaf[k] = []uint32{uint32(20 + 2*k), uint32(21 + 2*k)}
				}
				k := c.Pick(4)     // the dictionary table imitated
				kind := c.Pick(19) // what the page is
				at := []uint32{13, 40}[c.Pick(2)]
				desc := addForeign(&l, d, k, kind, at, c.Bool(), leafOf(c, kind))
				return dictCase(ts, func() []byte { return d.Image(l) }, func() string { return desc + "; imitates " + dictNames[k] })
			},
		},
		{
			Name: "lookup",
			Rule: "six tables with similar names in several databases: each (database, table) name out of all combinations of the names is asked for; existing ones are dumped, unknown ones give an error and no statement",
			Body: func(c *eng.Chooser) *eng.Case {
				dbs := []string{"a", "b", "ab", "", "A", "a/t"}
				tbs := []string{"t", "tt", "T", "", "t1", "SYS_FOREIGN", "a/t"}
				db, tb := dbs[c.Pick(len(dbs))], tbs[c.Pick(len(tbs))]
				rec := c.Bool()
				all := dictTables()
				x := tableOf("ab", "t", 50, col("m", IntT(8, true)), ncol("n", VarcharUtf8(9)))
				x.IndexID = 200
				y := tableOf("a", "t1", 51, ncol("s", VarcharUtf8(9)), col("k", IntT(2, false)))
				y.Key, y.IndexID = []int{1}, 210
				sys := tableOf("", "SYS_FOREIGN", 11, col("ID", VarcharLatin1(64)), ncol("FOR_NAME", VarcharLatin1(64)))
				sys.IndexID, sys.Space = 14, 0
				all = append(all, x, y, sys)
				var want *Table
				for _, t := range all {
					if t.DB == db && t.Name == tb {
						want = t
					}
				}
				return &eng.Case{Title: func() string { return fmt.Sprintf("table %q of database %q", tb, db) }, Run: func(e *eng.Env) *eng.Fail {
					img := dictOf(all...)
					if want == nil {
						for _, t := range all[:4] {
							o := dump(e, img, oneLeaf(t, dictRows(t)), db, tb, rec)
							if o.Panic != "" {
								return eng.Failf("panic", "unknown table: the tool panicked: %s", o.Panic)
							}
							if o.Err == nil {
								return eng.Failf("no-error", "the dictionary has no table %q.%q, yet there was no error", db, tb)
							}
							if o.Text != "" {
								return eng.Failf("output", "the dictionary has no table %q.%q, yet the output is %.200s", db, tb, o.Text)
							}
						}
						e.Outcome("unknown")
						return nil
					}
					if want.DB == "" {
						return nil
					}
					rows := dictRows(want)
					data := oneLeaf(want, rows)
					if rec {
						data = deletedLeaf(want, rows, nil)
					}
					o := dump(e, img, data, db, tb, rec)
					e.Outcome(o.Text)
					return checkRows(want, rows, o)
				}}
			},
		},
	}
	devs := 2
	if th {
		devs = 3
	}
	return append(sp, combined(devs), c09Large(th))
}

func init() {
	eng.Register(&eng.Check{ID: "C09", Title: "dictionary arrangement", Level: "model_checking", Spaces: c09})
}
