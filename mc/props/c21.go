package props

import (
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// lobFmt: how rows keep the start of an off-page value.
type lobFmt struct {
	name  string
	red   bool
	local int
}

var lobFmts = []lobFmt{{"COMPACT", false, 768}, {"DYNAMIC", false, 0}, {"REDUNDANT", true, 768}}

func lobBytes(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+i/251+seed*5)%26)
	}
	return b
}

func lobTypes() []*Type {
	return []*Type{TextT(2), BlobT(4), VarcharUtf8(21000), VarbinaryT(60000), BlobT(3), VarcharLatin1(30000)}
}

// lobFile: leaf pages (page 3) with the rows and the LOB pages.
func lobFile(t *Table, rows []Row, recovery bool, pages map[uint32][]byte) []byte {
	p := leafPage(t, 3, rows)
	if recovery {
		p.PurgeAll()
	}
	pages[3] = p.Bytes()
	return Tablespace(t.Space, pages)
}

func lobCase(title string, t *Table, rows []Row, rec bool, pages map[uint32][]byte) *eng.Case {
	return &eng.Case{Title: func() string { return fmt.Sprintf("%s; recovery=%v", title, rec) }, Run: func(e *eng.Env) *eng.Fail {
		o := dump(e, dictOf(t), lobFile(t, rows, rec, pages), "d", "t", rec)
		e.Outcome(o.Text)
		return checkRows(t, rows, o)
	}}
}

func c21(th bool) []*eng.Space {
	lens := []int{}
	for _, k := range []int{1, 2, 3} {
		for _, d := range []int{-2, -1, 0, 1, 2} {
			lens = append(lens, k*LobCap+d)
		}
	}
	lens = append(lens, 1, 2, 8000, 60000)
	if th {
		for k := 1; k <= 4; k++ {
			for d := -40; d <= 40; d++ {
				lens = append(lens, k*LobCap+d)
			}
		}
		for b := 0; b < 16; b++ {
			lens = append(lens, 1<<uint(b), 1<<uint(b)+1)
		}
		lens = append(lens, 100*LobCap, 100*LobCap+1, 65536*20)
	}
	sp := []*eng.Space{{
		Name: "lengths",
		Rule: fmt.Sprintf("one off-page value with %d lengths of the off-page part (around multiples of what a LOB page has) of %d types, between other columns and last, LOB pages before and after the leaf in the file, both flag bits of the reference; COMPACT, DYNAMIC, REDUNDANT", len(lens), len(lobTypes())),
		Body: func(c *eng.Chooser) *eng.Case {
			f := lobFmts[c.Pick(3)]
			ty := lobTypes()[c.Pick(len(lobTypes()))]
			n := lens[c.Pick(len(lens))]
			shape := c.Pick(2)
			flags := []byte{0, 0x80, 0x40, 0xc0}[c.Pick(4)]
			rec := c.Bool()
			l := &Lob{B: lobBytes(f.local+n, n), Local: f.local}
			if ty.MType != DataBlob && len(l.B) > ty.Max {
				return nil
			}
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", ty), ncol("w", VarcharUtf8(10)))
			r := Row{int64(1), l, []byte("w")}
			if shape == 1 {
				t = tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("w", VarcharUtf8(10)), col("v", ty))
				r = Row{int64(1), nil, l}
			}
			t.Redundant = f.red
			pages := map[uint32][]byte{}
			var nos []uint32
			for i := 0; i < l.Pages(); i++ {
				nos = append(nos, uint32(4+i))
			}
			l.Place(t.Space, nos, flags, pages)
			return lobCase(fmt.Sprintf("%s, %s of %d bytes, %d of them off-page, shape %d, flags %#x", f.name, ty.Name, len(l.B), n, shape, flags), t, []Row{r}, rec, pages)
		},
	}}
	texts := []int{20000, 65535, 65536, 70000, 140000, 1 << 20, 6 << 20}
	if th {
		texts = append(texts, 32768, 32769, 65537, 131072, 300000, 16<<20+1)
	}
	sp = append(sp, &eng.Space{
		Name: "long-texts",
		Rule: fmt.Sprintf("off-page values of %v bytes of TEXT, VARCHAR, BLOB: letters with a special character at the start, in the middle, at the end, every 4096 bytes, or of special characters only", texts),
		Body: func(c *eng.Chooser) *eng.Case {
			f := lobFmts[c.Pick(3)]
			ty := []*Type{TextT(3), BlobT(3), VarcharLatin1(60000)}[c.Pick(3)]
			n := texts[c.Pick(len(texts))]
			how := c.Pick(5)
			w := longSpecial[c.Pick(len(longSpecial))]
			rec := c.Bool()
			if ty.MType != DataBlob && n > ty.Max || !th && (n > 70000 && (rec || f.local == 0)) {
				return nil
			}
			if !th && n > 1<<20 && (how != 2 || ty.PrType != BlobT(3).PrType) {
				return nil
			}
			b := lobBytes(n, 3)
			put := func(at int) { copy(b[at:], w) }
			switch how {
			case 0:
				put(0)
			case 1:
				put(n / 2)
			case 2:
				put(n - len(w))
			case 3:
				for at := 4095; at < n; at += 4096 {
					put(at)
				}
				copy(b[n-len(w):], w)
			case 4:
				for at := 0; at < n; at += len(w) {
					put(at)
				}
			}
			l := &Lob{B: b, Local: f.local}
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", ty), ncol("w", VarcharUtf8(10)))
			t.Redundant = f.red
			pages := map[uint32][]byte{}
			var nos []uint32
			for i := 0; i < l.Pages(); i++ {
				nos = append(nos, uint32(4+i))
			}
			l.Place(t.Space, nos, 0, pages)
			return lobCase(fmt.Sprintf("%s, %s of %d bytes, special characters %q (%d)", f.name, ty.Name, n, w, how), t, []Row{{int64(1), l, []byte("w")}}, rec, pages)
		},
	})
	maxp := 4
	if th {
		maxp = 5
	}
	sp = append(sp, &eng.Space{
		Name: "chains",
		Rule: fmt.Sprintf("off-page values on 1..%d LOB pages in every order in the file, with a second row whose value uses the page numbers between", maxp),
		Body: func(c *eng.Chooser) *eng.Case {
			f := lobFmts[c.Pick(3)]
			n := 1 + c.Pick(maxp)
			perm := permOf(c, n)
			rec := c.Bool()
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", BlobT(3)), ncol("w", VarcharUtf8(10)))
			t.Redundant = f.red
			pages := map[uint32][]byte{}
			a := &Lob{B: lobBytes(f.local+n*LobCap-5, 1), Local: f.local}
			b := &Lob{B: lobBytes(f.local+n*LobCap-100, 2), Local: f.local}
			var na, nb []uint32
			for _, x := range perm {
				na = append(na, uint32(4+2*x))
				nb = append(nb, uint32(5+2*x))
			}
			a.Place(t.Space, na, 0, pages)
			b.Place(t.Space, nb, 0, pages)
			return lobCase(fmt.Sprintf("%s, values on the pages %v and %v", f.name, na, nb), t, []Row{{int64(1), a, []byte("w")}, {int64(2), b, nil}, {int64(3), []byte("short"), nil}}, rec, pages)
		},
	}, &eng.Space{
		Name: "columns",
		Rule: "rows of three columns that may be NULL, in the row or off-page, all 27 combinations for each of two rows; column types TEXT, VARCHAR, BLOB",
		Body: func(c *eng.Chooser) *eng.Case {
			f := lobFmts[c.Pick(3)]
			rec := c.Bool()
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("a", TextT(2)), ncol("b", VarcharUtf8(3000)), ncol("n", IntT(2, false)), ncol("c", BlobT(2)))
			t.Redundant = f.red
			pages := map[uint32][]byte{}
			no := uint32(4)
			var rows []Row
			title := ""
			for k := 0; k < 2; k++ {
				r := Row{int64(k), nil, nil, int64(7), nil}
				for _, i := range []int{1, 2, 4} {
					x := c.Pick(3)
					title += string("N.L"[x])
					switch x {
					case 1:
						r[i] = []byte(fmt.Sprintf("in-row %d.%d", k, i))
					case 2:
						l := &Lob{B: lobBytes(1500+10*i+k, i), Local: f.local}
						l.Place(t.Space, []uint32{no}, 0, pages)
						no++
						r[i] = l
					}
				}
				rows = append(rows, r)
			}
			return lobCase(fmt.Sprintf("%s, columns %s (N NULL, . in the row, L off-page)", f.name, title), t, rows, rec, pages)
		},
	}, &eng.Space{
		Name: "damaged-chains",
		Rule: "three rows with values on 3 LOB pages each; one LOB page of the middle row damaged: zeroed, another type, of another number, missing, its next pointer or part length or the reference in the row set to each of 24 values; the other rows are exact, the damaged row has its other columns",
		Body: func(c *eng.Chooser) *eng.Case {
			f := lobFmts[c.Pick(3)]
			rec := c.Bool()
			what := c.Pick(8)
			page := c.Pick(3)
			val := 0
			vals := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 100, 16, 255, LobCap - 1, LobCap + 1, 16384, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
			if what >= 4 {
				val = c.Pick(len(vals))
			}
			if what >= 6 && page > 0 {
				return nil
			}
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", BlobT(3)), ncol("w", VarcharUtf8(10)), ncol("n", IntT(4, false)))
			t.Redundant = f.red
			pages := map[uint32][]byte{}
			var rows []Row
			for k := 0; k < 3; k++ {
				l := &Lob{B: lobBytes(f.local+2*LobCap+1000, k), Local: f.local}
				l.Place(t.Space, []uint32{uint32(4 + k), uint32(7 + k), uint32(10 + k)}, 0, pages)
				rows = append(rows, Row{int64(k), l, []byte(fmt.Sprintf("w%d", k)), int64(-k)})
			}
			bad := rows[1][1].(*Lob)
			bad.Lost = true
			no := uint32(5 + 3*page)
			b := pages[no]
			put := func(o int, v uint32) {
				b[o], b[o+1], b[o+2], b[o+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			}
			switch what {
			case 0:
				pages[no] = make([]byte, PageSize)
			case 1:
				b[24], b[25] = 0x45, 0xbf
			case 2:
				put(4, no+20)
			case 3:
				put(4, 6)
			case 4:
				put(42, vals[val])
			case 5:
				put(38, vals[val])
			case 6: // page number of the reference
				v := vals[val]
				bad.Ref[4], bad.Ref[5], bad.Ref[6], bad.Ref[7] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			case 7: // length of the reference
				v := vals[val]
				bad.Ref[16], bad.Ref[17], bad.Ref[18], bad.Ref[19] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			}
			n := []string{"zeroed", "type index", "number beyond the file", "number of another LOB page", "next", "part length", "page of the reference", "length of the reference"}[what]
			return lobCase(fmt.Sprintf("%s, LOB page %d of the second row damaged: %s %#x", f.name, page, n, vals[val]), t, rows, rec, pages)
		},
	}, &eng.Space{
		Name: "cut-files",
		Rule: "files with off-page values cut after every page and in the middle of every page: rows whose LOB pages are complete are exact, the others have their other columns",
		Body: func(c *eng.Chooser) *eng.Case {
			f := lobFmts[c.Pick(3)]
			rec := c.Bool()
			keep := 4 + c.Pick(7)
			half := c.Bool()
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", TextT(3)), ncol("w", VarcharUtf8(10)))
			t.Redundant = f.red
			pages := map[uint32][]byte{}
			var rows []Row
			for k := 0; k < 3; k++ {
				l := &Lob{B: lobBytes(f.local+LobCap+1000, k), Local: f.local}
				nos := []uint32{uint32(4 + k), uint32(9 - k)}
				l.Place(t.Space, nos, 0, pages)
				l.Lost = nos[0] >= uint32(keep) || nos[1] >= uint32(keep)
				rows = append(rows, Row{int64(k), l, []byte(fmt.Sprintf("w%d", k))})
			}
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("%s, file of %d pages (half a page more: %v), recovery=%v", f.name, keep, half, rec)
			},
				Run: func(e *eng.Env) *eng.Fail {
					b := lobFile(t, rows, rec, pages)
					n := keep * PageSize
					if half && n+PageSize/2 < len(b) {
						n += PageSize / 2
					}
					o := dump(e, dictOf(t), b[:n], "d", "t", rec)
					e.Outcome(o.Text)
					return checkRows(t, rows, o)
				}}
		},
	}, &eng.Space{
		Name: "keys",
		Rule: "primary keys of the first 1, 10, 255 or 767 bytes of an off-page column, alone, in front of or behind another key column, the column first, between the others or last; rows, recovery and the conditions of updates",
		Body: func(c *eng.Chooser) *eng.Case {
			f := lobFmts[c.Pick(3)]
			ty := lobTypes()[c.Pick(len(lobTypes()))]
			n := []int{1, 10, 255, 767}[c.Pick(4)]
			if ty.MType == DataVarMySQL && 3*n > 767 || ty.MType == DataBlob && ty.PrType&1024 == 0 && 3*n > 767 {
				n = 255
			}
			shape := c.Pick(3)
			place := c.Pick(3)
			vals := []int{0, 1, 2} // which of the rows are off-page: none, every second, all
			off := vals[c.Pick(3)]
			cols := []Col{col("id", IntT(4, false)), ncol("w", VarcharUtf8(10))}
			cols = append(cols[:place:place], append([]Col{col("v", ty)}, cols[place:]...)...)
			at := map[string]int{}
			for i, k := range cols {
				at[k.Name] = i
			}
			t := tableOf("d", "t", 40, cols...)
			t.Redundant = f.red
			switch shape {
			case 0:
				t.Key, t.Prefix = []int{at["v"]}, []int{n}
			case 1:
				t.Key, t.Prefix = []int{at["v"], at["id"]}, []int{n, 0}
			case 2:
				t.Key, t.Prefix = []int{at["id"], at["v"]}, []int{0, n}
			}
			pages := map[uint32][]byte{}
			var rows []Row
			for k := 0; k < 4; k++ {
				r := make(Row, len(cols))
				r[at["id"]] = int64(k)
				if k > 0 {
					r[at["w"]] = []byte(fmt.Sprintf("w%d", k))
				}
				if off == 2 || off == 1 && k%2 == 0 {
					l := &Lob{B: lobBytes(1500+k, k), Local: f.local}
					l.Place(t.Space, []uint32{uint32(4 + k)}, 0, pages)
					r[at["v"]] = l
				} else {
					r[at["v"]] = lobBytes([]int{0, n, n + 1, 30}[k], k)
				}
				rows = append(rows, r)
			}
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("%s, %s, key of %d characters, shape %d, column at %d, off-page %d", f.name, ty.Name, n, shape, place, off)
			}, Run: func(e *eng.Env) *eng.Fail {
				d := dictOf(t)
				for _, rec := range []bool{false, true} {
					o := dump(e, d, lobFile(t, rows, rec, pages), "d", "t", rec)
					e.Outcome(o.Text)
					if fl := checkRows(t, rows, o); fl != nil {
						return fl
					}
				}
				l := newLog()
				var want []Upd
				for _, r := range rows {
					l.add(undoUpd(t, r, at["w"]).LogRec(40, 300))
					want = append(want, Upd{T: t, Changed: []int{at["w"]}, Old: r})
				}
				o := redoLogs(e, d, l.files(0), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}, &eng.Space{
		Name: "old-values",
		Rule: "updates whose undo record has 1..3 old values that are NULL, in the row or off-page (with the reference, or with a prefix for an index), in every order, before and after others: the statements set the other columns to their old values and give the off-page columns no value that is not theirs",
		Body: func(c *eng.Chooser) *eng.Case {
			f := lobFmts[c.Pick(3)]
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("a", TextT(2)), ncol("b", VarcharUtf8(3000)), ncol("n", IntT(2, false)), ncol("c", BlobT(2)))
			t.Redundant = f.red
			pages := map[uint32][]byte{}
			r := Row{int64(5), nil, nil, int64(77), nil}
			var logged, want []int
			title := ""
			cols := []int{1, 2, 4, 3}
			for _, i := range cols {
				x := 0
				if i == 3 {
					x = 2 * c.Pick(2)
				} else {
					x = c.Pick(5)
				}
				title += string("-N.LP"[x])
				if x == 0 {
					continue
				}
				logged = append(logged, i)
				switch x {
				case 2:
					if i != 3 {
						r[i] = []byte("in-row " + t.Cols[i].Name)
					}
				case 3, 4:
					l := &Lob{B: lobBytes(2000+10*i, i), Local: f.local}
					if x == 4 {
						l.Ord = 767
					}
					l.Place(t.Space, []uint32{9}, 0, pages)
					r[i] = l
					continue
				}
				want = append(want, i)
			}
			if len(logged) == 0 {
				return nil
			}
			if c.Bool() {
				for i, j := 0, len(logged)-1; i < j; i, j = i+1, j-1 {
					logged[i], logged[j] = logged[j], logged[i]
				}
			}
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("%s, logged old values %s (- not, N NULL, . in the row, L off-page, P off-page with prefix), log order %v", f.name, title, logged)
			}, Run: func(e *eng.Env) *eng.Fail {
				st := sentinelTable()
				s0, w0 := sentinel(st, 1)
				s1, w1 := sentinel(st, 2)
				u := undoUpd(t, r, logged...)
				u.Extern = true
				l := newLog().add(s0.LogRec(7, 300)).add(u.LogRec(7, 300)).add(s1.LogRec(7, 300))
				o := redoLogs(e, dictOf(t, st), l.files(0), "", "")
				e.Outcome(o.Text)
				ups := []Upd{w0, w1}
				if len(want) > 0 {
					ups = []Upd{w0, {T: t, Changed: want, Old: r}, w1}
				}
				return checkUpds(ups, o)
			}}
		},
	})
	return append(sp, c21Large(th))
}

func init() {
	eng.Register(&eng.Check{ID: "C21", Title: "off-page values", Level: "model_checking", Spaces: c21})
}
