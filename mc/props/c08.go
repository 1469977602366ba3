package props

import (
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// orderedSubset picks a non-empty ordered selection of 0..n-1 (a key).
func orderedSubset(c *eng.Chooser, n, max int) []int {
	var key []int
	used := make([]bool, n)
	for len(key) < max {
		// choices: stop (if non-empty) or one of the unused columns
		var free []int
		for i := 0; i < n; i++ {
			if !used[i] {
				free = append(free, i)
			}
		}
		k := len(free)
		if len(key) > 0 {
			k++
		}
		if k == 0 {
			break
		}
		j := c.Pick(k)
		if j == len(free) {
			break
		}
		used[free[j]] = true
		key = append(key, free[j])
	}
	return key
}

// shape builds a table with the given kinds; values tell columns and rows apart.
type shapeKind struct {
	t  *Type
	at func(row, c int) Val
}

var shapeKinds = []shapeKind{
	{IntT(4, false), func(r, c int) Val { return int64(1000*c + r*17 + 1) }},
	{VarcharUtf8(20), func(r, c int) Val { return []byte(fmt.Sprintf("c%d-r%d", c, r)) }},
	{IntT(2, true), func(r, c int) Val { return uint64(100*c + r) }},
	{VarcharUtf8(100), func(r, c int) Val { return []byte(fmt.Sprintf("long%d/%d", c, r*r)) }},
}

func shapeTable(n int, pick func(i int) int, null func(i int) bool, key []int, cl Clustering, red bool) (*Table, []int) {
	var cs []Col
	var ks []int
	for i := 0; i < n; i++ {
		k := pick(i)
		ks = append(ks, k)
		cs = append(cs, Col{Name: fmt.Sprintf("c%d", i), T: shapeKinds[k].t, Nullable: null(i)})
	}
	t := tableOf("d", "t", 40, cs...)
	t.Key, t.Cluster, t.Redundant = key, cl, red
	return t, ks
}

// shapeRows: rows without NULL, all nullable NULL, and each nullable NULL alone.
func shapeRows(t *Table, ks []int) []Row {
	var nul []int
	for i, c := range t.Cols {
		if c.Nullable {
			nul = append(nul, i)
		}
	}
	mk := func(r int) Row {
		row := make(Row, len(t.Cols))
		for i := range row {
			row[i] = shapeKinds[ks[i]].at(r, i)
		}
		return row
	}
	rows := []Row{mk(0)}
	for j, i := range nul {
		r := mk(j + 1)
		r[i] = nil
		rows = append(rows, r)
	}
	if len(nul) > 1 {
		r := mk(7)
		for _, i := range nul {
			r[i] = nil
		}
		rows = append(rows, r)
	}
	return append(rows, mk(9))
}

// secIndexes: the secondary indexes that go with the shape.
func secIndexes(mode, n int) []SecIndex {
	switch mode {
	case 1:
		return []SecIndex{{Name: "k_last", Cols: []int{n - 1}}}
	case 2:
		return []SecIndex{{Name: "A_first", Unique: true, Cols: []int{n - 1, 0}}, {Name: "zz", Cols: []int{0}}}
	}
	return nil
}

func shapeTitle(t *Table) string {
	cl := map[Clustering]string{Primary: "PRIMARY KEY", RowID: "no key", UniqueKey: "UNIQUE KEY"}[t.Cluster]
	return fmt.Sprintf("%s%v, %d secondary indexes", cl, t.Key, len(t.Sec))
}

func c08(th bool) []*eng.Space {
	max := 4
	if th {
		max = 5
	}
	gen := func(cl Clustering) func(c *eng.Chooser) *eng.Case {
		return func(c *eng.Chooser) *eng.Case {
			n := 1 + c.Pick(max)
			var key []int
			if cl != RowID {
				key = orderedSubset(c, n, n)
			}
			inKey := map[int]bool{}
			for _, k := range key {
				inKey[k] = true
			}
			mix := c.Pick(2) // which kinds alternate
			nul := c.Pick(3) // non-key columns: none / all / every second nullable
			red := c.Bool()
			rec := c.Bool()
			sec := c.Pick(3)
			t, ks := shapeTable(n, func(i int) int { return 2*(i/2%2)*mix + (i+mix)%2 }, func(i int) bool {
				return !inKey[i] && (nul == 1 || nul == 2 && i%2 == 0)
			}, key, cl, red)
			t.Sec = secIndexes(sec, n)
			return rowsCase(t, shapeRows(t, ks), rec, shapeTitle(t))
		}
	}
	names := map[Clustering]string{Primary: "primary-key", RowID: "no-key", UniqueKey: "unique-key"}
	desc := map[Clustering]string{
		Primary:   "every PRIMARY KEY (each ordered selection of columns)",
		UniqueKey: "every UNIQUE NOT NULL key clustering a table without primary key",
		RowID:     "tables without key (DB_ROW_ID)",
	}
	var sp []*eng.Space
	for _, cl := range []Clustering{Primary, UniqueKey, RowID} {
		sp = append(sp, &eng.Space{
			Name: names[cl],
			Rule: fmt.Sprintf("%s of tables of 1..%d columns, alternating fixed/variable, 3 NULL patterns, 0..2 secondary indexes, COMPACT and REDUNDANT, dump and recovery", desc[cl], max),
			Body: gen(cl),
		})
	}
	// column kinds in every arrangement, with the key in every place
	sp = append(sp, &eng.Space{
		Name: "key-kinds",
		Rule: "three columns, every arrangement of 4 column kinds and of NULL / NOT NULL, every primary key of one or two columns",
		Body: func(c *eng.Chooser) *eng.Case {
			n := 3
			key := orderedSubset(c, n, 2)
			inKey := map[int]bool{}
			for _, k := range key {
				inKey[k] = true
			}
			ks := make([]int, n)
			nl := make([]bool, n)
			for i := range ks {
				ks[i] = c.Pick(len(shapeKinds))
				if !inKey[i] {
					nl[i] = c.Bool()
				}
			}
			red := c.Bool()
			t, k2 := shapeTable(n, func(i int) int { return ks[i] }, func(i int) bool { return nl[i] }, key, Primary, red)
			return rowsCase(t, shapeRows(t, k2), false, shapeTitle(t))
		},
	})
	// names that resemble those of hidden columns and internal indexes
	colNames := []string{"c", "DB_NAME", "DB_ROW", "DB_TRX", "DB_ROLL", "DB_ROW_IDX", "DB_TRX_ID2", "XDB_TRX_ID", "DB_ROLL_PTR_", "db_row", "ID", "NAME", "PRIMARY", "GEN_CLUST_INDEX", "null", "a b", "d'q", "\xc3\xa9", "ID2"}
	idxNames := []string{"k", "PRIMARY2", "primary_", "APRIMARY", "GEN_CLUST_INDEX2", "GEN_CLUST", "gen_clust", "id", "0"}
	sp = append(sp, &eng.Space{
		Name: "names",
		Rule: fmt.Sprintf("three columns, two of them named by every ordered pair of %d names that resemble hidden columns, internal indexes or dictionary columns; the key on either; and every pair of %d index names for the unique clustered and the secondary index", len(colNames), len(idxNames)),
		Body: func(c *eng.Chooser) *eng.Case {
			a, b := c.Pick(len(colNames)), c.Pick(len(colNames))
			if a == b {
				return nil
			}
			t, ks := shapeTable(3, func(i int) int { return i % 2 }, func(i int) bool { return i == 2 }, []int{c.Pick(2)}, Primary, c.Bool())
			t.Cols[0].Name, t.Cols[1].Name, t.Cols[2].Name = colNames[a], colNames[b], "other"
			switch c.Pick(3) {
			case 1:
				t.Cluster = RowID
			case 2:
				t.Cluster = UniqueKey
				t.Sec = []SecIndex{{Name: "z" + colNames[a], Cols: []int{2}}}
			}
			return rowsCase(t, shapeRows(t, ks), c.Bool(), shapeTitle(t))
		},
	}, &eng.Space{
		Name: "index-names",
		Rule: fmt.Sprintf("every pair of %d index names for the clustered unique index and a secondary index, or for two secondary indexes of a table with a primary key or without key", len(idxNames)),
		Body: func(c *eng.Chooser) *eng.Case {
			a, b := c.Pick(len(idxNames)), c.Pick(len(idxNames))
			if a == b {
				return nil
			}
			cl := []Clustering{UniqueKey, Primary, RowID}[c.Pick(3)]
			t, ks := shapeTable(3, func(i int) int { return i % 2 }, func(i int) bool { return i == 2 }, []int{1}, cl, c.Bool())
			t.ClustName = idxNames[a]
			t.Sec = []SecIndex{{Name: idxNames[b], Unique: c.Bool(), Cols: []int{0, 2}}}
			if cl != UniqueKey {
				t.Sec = append(t.Sec, SecIndex{Name: idxNames[a], Unique: true, Cols: []int{2}})
			}
			return rowsCase(t, shapeRows(t, ks), c.Bool(), shapeTitle(t)+" "+idxNames[a]+","+idxNames[b])
		},
	})
	return append(sp, c08Wide(th), c08LongKeys(th), c08Prefix(th), c08PrefixColl(th))
}

// prefixText is text of n characters whose width follows the pattern.
func prefixText(t *Type, n, pat int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		switch {
		case pat == 3: // trailing spaces and zero bytes matter in some types
			b = append(b, []byte{'x', 0, ' '}[i%3])
		case t.MType == DataVarMySQL || t.MType == DataMySQL || t.MType == DataBlob && t.PrType&1024 == 0:
			b = append(b, []string{"abcdefghijklmnopq"[i%17 : i%17+1], "\xc3\xa9", "\xe2\x82\xac"}[[]int{0, i % 2, 2 - i%3}[pat]]...)
		default:
			b = append(b, byte(33+7*pat+i%60))
		}
	}
	return b
}

// c08Prefix: primary keys of the first characters of columns.
func c08Prefix(th bool) *eng.Space {
	types := []*Type{VarcharUtf8(30), VarcharLatin1(300), VarcharLatin1(30), VarbinaryT(30), CharLatin1(30), CharUtf8(30), BinaryT(30), TextT(2), BlobT(2), VarcharUtf8(300)}
	lens := []int{1, 10}
	if th {
		types = append(types, TextT(1), BlobT(4), CharUtf8(90), VarbinaryT(300), CharLatin1(255), BinaryT(255))
		lens = []int{1, 2, 10, 17, 29}
	}
	shapes := []string{"(c)", "(c,i)", "(i,c)", "(c,d)", "(d,c)", "(c) with d whole", "secondary (i,c) of a table without key", "secondary (c) and (i,c), primary (i)"}
	return &eng.Space{
		Name: "prefix-keys",
		Rule: fmt.Sprintf("keys of the first %v characters of columns of %d string types, alone, in front of or behind whole columns and other prefixes, as primary key and in secondary indexes; the columns in 2 orders, with and without virtual columns, both row formats; values shorter than the prefix, as long, longer, and of characters of 1 to 3 bytes; dump, recovery and undo log", lens, len(types)),
		Body: func(c *eng.Chooser) *eng.Case {
			ty := types[c.Pick(len(types))]
			n := lens[c.Pick(len(lens))]
			shape := c.Pick(len(shapes))
			order := c.Bool()
			virt := c.Bool()
			red := c.Bool()
			cols := []Col{{Name: "i", T: IntT(4, false)}, {Name: "c", T: ty}, {Name: "d", T: VarcharUtf8(40)}, {Name: "e", T: VarcharLatin1(9), Nullable: true}, {Name: "f", T: IntT(2, false), Nullable: true}}
			if virt {
				cols = append([]Col{{Name: "v", T: VarcharUtf8(9), Virtual: true, Nullable: true}}, cols...)
				cols = append(cols[:3:3], append([]Col{{Name: "w", T: IntT(8, false), Virtual: true}}, cols[3:]...)...)
			}
			if order {
				for i, j := 0, len(cols)-1; i < j; i, j = i+1, j-1 {
					cols[i], cols[j] = cols[j], cols[i]
				}
			}
			at := map[string]int{}
			for i, k := range cols {
				at[k.Name] = i
			}
			t := tableOf("d", "t", 40, cols...)
			t.Redundant = red
			ci, ii, di := at["c"], at["i"], at["d"]
			switch shape {
			case 0:
				t.Key, t.Prefix = []int{ci}, []int{n}
			case 1:
				t.Key, t.Prefix = []int{ci, ii}, []int{n, 0}
			case 2:
				t.Key, t.Prefix = []int{ii, ci}, []int{0, n}
			case 3:
				t.Key, t.Prefix = []int{ci, di}, []int{n, 7}
			case 4:
				t.Key, t.Prefix = []int{di, ci}, []int{7, n}
			case 5:
				t.Key, t.Prefix = []int{ci, di}, []int{n, 0}
			case 6:
				t.Key, t.Cluster = nil, RowID
				t.Sec = []SecIndex{{Name: "s", Unique: true, Cols: []int{ii, ci}, Prefix: []int{0, n}}}
			case 7:
				t.Key = []int{ii}
				t.Sec = []SecIndex{{Name: "s", Unique: true, Cols: []int{ci}, Prefix: []int{n}}, {Name: "s2", Cols: []int{ii, ci}, Prefix: []int{0, n}}}
			}
			var rows []Row
			add := func(v []byte) {
				r := make(Row, len(cols))
				k := len(rows)
				r[ii], r[ci], r[di] = int64(k), v, prefixText(cols[di].T, 3+4*(k%3), k%3)
				if k%2 == 0 {
					r[at["e"]] = []byte("e")
				} else {
					r[at["f"]] = int64(k)
				}
				rows = append(rows, r)
			}
			for _, m := range []int{0, 1, n - 1, n, n + 1, 30} {
				if m > 30 {
					continue
				}
				for pat := 0; pat < 4; pat++ {
					if pat == 3 && (ty.MType == DataChar || ty.MType == DataMySQL) {
						continue
					}
					add(prefixText(ty, m, pat))
				}
			}
			if ty.Big {
				add(prefixText(ty, 90, 2))
			}
			if ty.MType == DataBlob {
				add(prefixText(ty, 1200, 1))
			}
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("%s, prefix %d, key %s, reversed=%v, virtual=%v, redundant=%v", ty.Name, n, shapes[shape], order, virt, red)
			}, Run: func(e *eng.Env) *eng.Fail {
				d := dictOf(t)
				o := dump(e, d, oneLeaf(t, rows), t.DB, t.Name, false)
				e.Outcome(o.Text)
				if f := checkRows(t, rows, o); f != nil {
					return f
				}
				if f := checkRows(t, rows, dump(e, d, deletedLeaf(t, rows, nil), t.DB, t.Name, true)); f != nil {
					f.Msg = "deleted rows: " + f.Msg
					return f
				}
				l := newLog()
				var want []Upd
				for k, r := range rows {
					ch := []int{at["e"], at["f"]}
					if k%3 == 0 {
						ch = ch[:1]
					}
					if t.Cluster == RowID || t.Key[0] != ci || t.KeyPrefix(0) > 0 {
						ch = append(ch, ci) // behind the part of it that is in the key
					}
					l.add(undoUpd(t, r, ch...).LogRec(40, 300))
					want = append(want, Upd{T: t, Changed: ch, Old: r})
				}
				o = redoLogs(e, d, l.files(0), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}

// c08PrefixColl: the length of a prefix is in bytes in the dictionary, of the longest characters.
func c08PrefixColl(th bool) *eng.Space {
	type job struct {
		t *Type
		n int
	}
	var jobs []job
	for _, coll := range Collations() {
		for _, n := range []int{1, 5, 19} {
			jobs = append(jobs, job{VarcharCs(coll, 40), n}, job{CharCs(coll, 20), n}, job{TextCs(coll), n})
		}
	}
	long := []int{63, 64, 85, 86, 127, 128, 170, 191, 254, 255, 256, 257, 300, 341, 511, 512, 513, 600, 767, 768, 769, 1000, 1023, 1024, 1025, 1365, 2000, 2047, 2048, 3000, 3071, 3072}
	if th {
		long = span(1, 3072)
	}
	for _, n := range long {
		jobs = append(jobs, job{VarcharLatin1(4000), n}, job{VarbinaryT(4000), n}, job{TextT(2), n}, job{BlobT(2), n})
		if n <= 1024 {
			jobs = append(jobs, job{VarcharUtf8(2000), n})
		}
		if n <= 768 {
			jobs = append(jobs, job{VarcharCs(45, 1500), n}, job{TextCs(45), n})
		}
	}
	return &eng.Space{
		Name: "prefix-lengths",
		Rule: fmt.Sprintf("prefix keys (c(n), i): VARCHAR, CHAR and TEXT of every collation of 5.7 and n=1, 5, 19; prefixes of %d lengths up to 3072 bytes; values one character shorter than the prefix, as long, longer, empty; both row formats; dump, recovery and undo log", len(long)),
		Body: func(c *eng.Chooser) *eng.Case {
			j := jobs[c.Pick(len(jobs))]
			red := c.Bool()
			return &eng.Case{Title: func() string { return fmt.Sprintf("key (c(%d),i), c %s, redundant=%v", j.n, j.t.Name, red) }, Run: func(e *eng.Env) *eng.Fail {
				t := tableOf("d", "t", 40, ncol("e", VarcharLatin1(9)), col("c", j.t), col("i", IntT(4, false)), ncol("f", IntT(2, false)))
				t.Key, t.Prefix, t.Redundant = []int{1, 2}, []int{j.n, 0}, red
				coll := int(j.t.PrType >> 16 & 0x7fff)
				var rows []Row
				for k, m := range []int{0, j.n - 1, j.n, j.n + 1, 20} {
					v := letters(m)
					if coll != 0 && coll != 63 {
						v = CsText(coll, string(v))
					}
					if j.t.Max > 0 && len(v) > j.t.Max || j.t.Fixed > 0 && len(v) > j.t.Fixed {
						continue
					}
					r := Row{bs("e"), v, int64(k), nil}
					if k%2 == 0 {
						r[0], r[3] = nil, int64(k)
					}
					rows = append(rows, r)
				}
				d := dictOf(t)
				var all []Row // a page has room for few of the long ones
				for i := range rows {
					one := rows[i : i+1]
					if j.n < 600 {
						if i > 0 {
							break
						}
						one = rows
					}
					o := dump(e, d, oneLeaf(t, one), t.DB, t.Name, false)
					e.Outcome(o.Text)
					if f := checkRows(t, one, o); f != nil {
						return f
					}
					if f := checkRows(t, one, dump(e, d, deletedLeaf(t, one, nil), t.DB, t.Name, true)); f != nil {
						f.Msg = "deleted rows: " + f.Msg
						return f
					}
					all = append(all, one...)
				}
				l := newLog()
				var want []Upd
				for _, r := range all {
					l.add(undoUpd(t, r, 0, 3).LogRec(40, 300))
					want = append(want, Upd{T: t, Changed: []int{0, 3}, Old: r})
				}
				o := redoLogs(e, d, l.files(0), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}

// c08Wide: tables of many columns.
func c08Wide(th bool) *eng.Space {
	counts := []int{20, 127, 128, 255, 257, 300, 1017}
	if th {
		counts = nil
		for n := 8; n <= 1017; n++ {
			if n <= 300 || n%64 <= 2 || n%64 >= 62 || n == 1000 || n == 1017 {
				counts = append(counts, n)
			}
		}
	}
	return &eng.Space{
		Name: "wide",
		Rule: fmt.Sprintf("tables of %d numbers of columns up to 1017, all SMALLINT or SMALLINT and VARCHAR in turn, none / all / every second nullable, the key first / in the middle / last / not there, both row formats; dump, recovery and the undo log of updates of single columns and of many", len(counts)),
		Body: func(c *eng.Chooser) *eng.Case {
			n := counts[c.Pick(len(counts))]
			mixed := c.Bool()
			nul := c.Pick(3)
			keyAt := []int{0, n / 2, n - 1, -1}[c.Pick(4)]
			red := c.Bool()
			t := tableOf("d", "t", 40)
			rows := make([]Row, 3)
			for i := 0; i < n; i++ {
				k := Col{Name: fmt.Sprintf("c%d", i), T: IntT(2, false), Nullable: i != keyAt && (nul == 1 || nul == 2 && i%2 == 0)}
				vc := mixed && i%2 == 1
				if vc {
					k.T = VarcharUtf8(20)
				}
				t.Cols = append(t.Cols, k)
				for r := range rows {
					var v Val = int64(r*1100 + i)
					if vc {
						v = []byte(fmt.Sprintf("%d", i+r))
					}
					if k.Nullable && (r == 1 && i%3 != 0 || r == 2 && i > n-10) {
						v = nil
					}
					rows[r] = append(rows[r], v)
				}
			}
			t.Key, t.Redundant = []int{keyAt}, red
			if keyAt < 0 {
				t.Key, t.Cluster = nil, RowID
			}
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("%d columns, mixed=%v, nullable %d, key at %d, redundant=%v", n, mixed, nul, keyAt, red)
			}, Run: func(e *eng.Env) *eng.Fail {
				d := dictOf(t)
				pages := map[uint32][]byte{}
				dead := map[uint32][]byte{}
				for i, r := range rows {
					no := uint32(3 + i)
					p := leafPage(t, no, []Row{r})
					pages[no] = append([]byte{}, p.Bytes()...)
					p.Delete(0, true)
					dead[no] = p.Bytes()
				}
				o := dump(e, d, Tablespace(t.Space, pages), t.DB, t.Name, false)
				e.Outcome(o.Text)
				if f := checkRows(t, rows, o); f != nil {
					return f
				}
				if f := checkRows(t, rows, dump(e, d, Tablespace(t.Space, dead), t.DB, t.Name, true)); f != nil {
					f.Msg = "deleted rows: " + f.Msg
					return f
				}
				l := newLog()
				var want []Upd
				add := func(r Row, ch ...int) {
					l.add(undoUpd(t, r, ch...).LogRec(uint64(t.Space), 300))
					want = append(want, Upd{T: t, Changed: ch, Old: r})
				}
				var all []int
				for i := 0; i < n; i++ {
					if i == keyAt {
						continue
					}
					all = append(all, i)
					if i < 2 || i > n-3 || i%128 < 4 || i%128 > 123 {
						add(rows[0], i)
					}
				}
				add(rows[2], all...)
				add(rows[1], all...)
				o = redoLogs(e, d, l.files(0), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}

// c08LongKeys: keys of up to 16 columns.
func c08LongKeys(th bool) *eng.Space {
	return &eng.Space{
		Name: "long-keys",
		Rule: "keys of 1..16 columns, in the order of the columns, from the last to the first, or from the middle on; the other columns (0, 1 or 5, NULL or not) before, between or behind them; PRIMARY or UNIQUE, 0..2 secondary indexes of up to 16 columns, both row formats; dump, recovery and the undo log",
		Body: func(c *eng.Chooser) *eng.Case {
			k := 1 + c.Pick(16)
			order := c.Pick(4)
			rest := []int{0, 1, 5}[c.Pick(3)]
			place := c.Pick(3)
			if rest == 0 && place > 0 {
				return nil
			}
			mix := c.Pick(3)
			cl := []Clustering{Primary, UniqueKey}[c.Pick(2)]
			sec := c.Pick(3)
			red := c.Bool()
			n := k + rest
			isRest := func(i int) bool {
				switch place {
				case 0:
					return i < rest
				case 1:
					return i >= k
				default:
					return i%2 == 1 && i/2 < rest && i/2 < k || i >= 2*k
				}
			}
			var ks, others []int
			for i := 0; i < n; i++ {
				if isRest(i) {
					others = append(others, i)
				} else {
					ks = append(ks, i)
				}
			}
			key := append([]int{}, ks...)
			for i := range key {
				switch order {
				case 1:
					key[i] = ks[len(ks)-1-i]
				case 2:
					key[i] = ks[(i+len(ks)/2)%len(ks)]
				case 3: // in turn from both ends
					key[i] = ks[i/2]
					if i%2 == 1 {
						key[i] = ks[len(ks)-1-i/2]
					}
				}
			}
			isKey := map[int]bool{}
			for _, i := range key {
				isKey[i] = true
			}
			t, kinds := shapeTable(n, func(i int) int { return []int{0, i % 2, i * i % 4}[mix] }, func(i int) bool { return !isKey[i] && i%2 == 0 }, key, cl, red)
			if sec > 0 {
				rev := append([]int{}, key...)
				for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
					rev[i], rev[j] = rev[j], rev[i]
				}
				t.Sec = []SecIndex{{Name: "A", Cols: rev}}
				if sec == 2 {
					t.Sec = append(t.Sec, SecIndex{Name: "zz", Unique: true, Cols: append([]int{}, key[:1+len(key)/2]...)})
				}
			}
			rows := shapeRows(t, kinds)
			return &eng.Case{Title: func() string { return shapeTitle(t) + fmt.Sprintf(", %d columns", n) }, Run: func(e *eng.Env) *eng.Fail {
				d := dictOf(t)
				o := dump(e, d, oneLeaf(t, rows), t.DB, t.Name, false)
				e.Outcome(o.Text)
				if f := checkRows(t, rows, o); f != nil {
					return f
				}
				if f := checkRows(t, rows, dump(e, d, deletedLeaf(t, rows, nil), t.DB, t.Name, true)); f != nil {
					f.Msg = "deleted rows: " + f.Msg
					return f
				}
				if len(others) == 0 {
					return nil
				}
				l := newLog()
				var want []Upd
				for _, r := range rows {
					l.add(undoUpd(t, r, others...).LogRec(uint64(t.Space), 300))
					want = append(want, Upd{T: t, Changed: others, Old: r})
				}
				o = redoLogs(e, d, l.files(0), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}

func init() {
	eng.Register(&eng.Check{ID: "C08", Title: "clustered index shapes", Level: "model_checking", Spaces: c08})
}

func span(a, b int) (o []int) {
	for i := a; i <= b; i++ {
		o = append(o, i)
	}
	return
}
