package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// rowsCase prints rows through the tool: on the live list (dump) or on the free list (recovery).
func rowsCase(t *Table, rows []Row, recovery bool, title string) *eng.Case {
	return &eng.Case{
		Title: func() string {
			m := "dump"
			if recovery {
				m = "recovery"
			}
			f := "COMPACT"
			if t.Redundant {
				f = "REDUNDANT"
			}
			var cs []string
			for _, c := range t.Cols {
				n := c.Name + " " + c.T.Name
				if c.Nullable {
					n += " NULL"
				}
				cs = append(cs, n)
			}
			return fmt.Sprintf("%s, %s (%s): %s rows %s", title, f, strings.Join(cs, ", "), m, rowsText(t, rows))
		},
		Run: func(e *eng.Env) *eng.Fail {
			pages := map[uint32][]byte{}
			no := uint32(3)
			p := leafPage(t, no, nil)
			flush := func() {
				if recovery {
					p.PurgeAll()
				}
				pages[no] = p.Bytes()
				no++
				p = leafPage(t, no, nil)
			}
			for i, r := range rows {
				rec := t.Encode(r, uint64(i))
				if p.AppendFast(rec, r) == nil {
					flush()
					if p.AppendFast(rec, r) == nil {
						panic("model: row does not fit a page")
					}
				}
			}
			flush()
			o := dump(e, dictOf(t), Tablespace(t.Space, pages), t.DB, t.Name, recovery)
			e.Outcome(o.Text)
			return checkRows(t, rows, o)
		},
	}
}

// column kinds used by the layout spaces
type kind struct {
	t    *Type
	null bool
	vals func(i int) Val
}

func smallVal(i int) Val { return int64(i*7%60000 - 30000) }
func textVal(i int) Val  { return []byte(strings.Repeat("xyz"[i%3:i%3+1], i%5+1)) }

var kinds = []kind{
	{IntT(2, false), false, smallVal},
	{IntT(2, false), true, smallVal},
	{VarcharUtf8(30), false, textVal},
	{VarcharUtf8(30), true, textVal},
	{VarcharUtf8(200), true, textVal}, // two-byte lengths possible
	{CharLatin1(3), true, func(i int) Val { return []byte("abc") }},
}

// nullRows makes one row per NULL pattern of the nullable columns.
func nullRows(t *Table, ks []kind, patterns func(n int) [][]bool) []Row {
	var nul []int
	for i, c := range t.Cols {
		if c.Nullable {
			nul = append(nul, i)
		}
	}
	var rows []Row
	for k, p := range patterns(len(nul)) {
		r := make(Row, len(t.Cols))
		r[0] = int64(k)
		for i := 1; i < len(r); i++ {
			r[i] = ks[i-1].vals(k + i)
		}
		for j, isNull := range p {
			if isNull {
				r[nul[j]] = nil
			}
		}
		rows = append(rows, r)
	}
	return rows
}

func allPatterns(n int) [][]bool {
	var out [][]bool
	for m := 0; m < 1<<uint(n); m++ {
		p := make([]bool, n)
		for i := range p {
			p[i] = m>>uint(i)&1 == 1
		}
		out = append(out, p)
	}
	return out
}

// fewPatterns: at most k columns differ from all-NULL, and at most k differ from none-NULL.
func fewPatterns(k int) func(n int) [][]bool {
	return func(n int) [][]bool {
		var out [][]bool
		var rec func(p []bool, at, left int)
		for _, base := range []bool{false, true} {
			b := make([]bool, n)
			for i := range b {
				b[i] = base
			}
			rec = func(p []bool, at, left int) {
				if at == n {
					out = append(out, append([]bool{}, p...))
					return
				}
				rec(p, at+1, left)
				if left > 0 {
					p[at] = !base
					rec(p, at+1, left-1)
					p[at] = base
				}
			}
			rec(b, 0, k)
		}
		return out
	}
}

func kindTable(redundant bool, ks []kind) *Table {
	cs := []Col{col("id", IntT(4, false))}
	for i, k := range ks {
		cs = append(cs, Col{Name: fmt.Sprintf("c%d", i), T: k.t, Nullable: k.null})
	}
	t := tableOf("d", "t", 40, cs...)
	t.Redundant = redundant
	return t
}

func layoutSpaces(red bool) func(th bool) []*eng.Space {
	return func(th bool) []*eng.Space {
		ncols, wide, few := 4, []int{7, 8, 9, 10}, 2
		if th {
			ncols, wide, few = 5, []int{7, 8, 9, 10, 11, 12}, 3
		}
		sp := []*eng.Space{
			{
				Name: "column-kinds",
				Rule: fmt.Sprintf("all tables of 1..%d columns over %d column kinds (fixed/variable, NULL/NOT NULL, short/long), every NULL pattern as a row; dump and recovery", ncols, len(kinds)),
				Body: func(c *eng.Chooser) *eng.Case {
					n := 1 + c.Pick(ncols)
					var ks []kind
					for i := 0; i < n; i++ {
						ks = append(ks, kinds[c.Pick(len(kinds))])
					}
					rec := c.Bool()
					t := kindTable(red, ks)
					return rowsCase(t, nullRows(t, ks, allPatterns), rec, "column kinds")
				},
			},
			{
				Name: "null-bitmap",
				Rule: fmt.Sprintf("tables with %v nullable columns (all fixed, all variable, alternating, with a NOT NULL column interleaved at every place), every NULL pattern", wide),
				Body: func(c *eng.Chooser) *eng.Case {
					n := wide[c.Pick(len(wide))]
					mode := c.Pick(3)
					hole := c.Pick(n+2) - 1
					rec := c.Bool()
					var ks []kind
					for i := 0; i < n; i++ {
						k := kinds[1]
						if mode == 1 || mode == 2 && i%2 == 1 {
							k = kinds[3]
						}
						ks = append(ks, k)
						if i == hole {
							ks = append(ks, kinds[2*(i%2)])
						}
					}
					t := kindTable(red, ks)
					return rowsCase(t, nullRows(t, ks, allPatterns), rec, "NULL bitmap")
				},
			},
			{
				Name: "wide-tables",
				Rule: fmt.Sprintf("tables of 15..18, 24, 25, 33, 64, 65 nullable columns, rows with at most %d columns different from all-NULL / none-NULL", few),
				Body: func(c *eng.Chooser) *eng.Case {
					n := []int{15, 16, 17, 18, 24, 25, 33, 64, 65}[c.Pick(9)]
					mode := c.Pick(2)
					rec := c.Bool()
					var ks []kind
					for i := 0; i < n; i++ {
						ks = append(ks, kinds[1+2*((i+mode)%2)])
					}
					t := kindTable(red, ks)
					f := few
					if n > 30 {
						f = few - 1
					}
					return rowsCase(t, nullRows(t, ks, fewPatterns(f)), rec, "wide table")
				},
			},
		}
		type lenType struct {
			t     *Type
			blank bool
		}
		lts := []lenType{
			{VarcharUtf8(20), false}, {VarcharUtf8(85), false}, {VarcharUtf8(86), false}, {VarcharUtf8(1000), false},
			{VarcharLatin1(40), false}, {VarcharLatin1(255), false}, {VarcharLatin1(256), false}, {VarcharLatin1(4000), false},
			{VarbinaryT(60), false}, {VarbinaryT(255), false}, {VarbinaryT(256), false}, {VarbinaryT(3000), false},
			{CharUtf8(10), true}, {CharUtf8(85), true}, {CharUtf8(100), true},
			{BlobT(1), false}, {BlobT(2), false}, {BlobT(3), false}, {BlobT(4), false},
			{TextT(1), false}, {TextT(2), false}, {TextT(3), false}, {TextT(4), false},
			{CharLatin1(255), true}, {CharLatin1(1), true}, {BinaryT(255), true}, {BinaryT(8), true},
		}
		payload := func(n, seed int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('A' + (i*7+seed+n)%53)
				if b[i] == '\\' {
					b[i] = '+'
				}
			}
			return b
		}
		lim := func(t *Type) int {
			m := t.Max
			if t.Fixed > 0 {
				m = t.Fixed
			}
			if t.MType == DataBlob && t.Len == 9 {
				m = 255
			}
			if m > 7800 {
				m = 7800
			}
			return m
		}
		sp = append(sp, &eng.Space{
			Name: "lengths",
			Rule: "every stored length 0..700 (and the neighbourhood of every power of two and of the maximum) of every variable-length type, as the middle column between two others",
			Body: func(c *eng.Chooser) *eng.Case {
				lt := lts[c.Pick(len(lts))]
				t := tableOf("d", "t", 40, col("id", IntT(4, false)), col("v", lt.t), ncol("w", VarcharUtf8(10)), ncol("n", IntT(2, false)))
				t.Redundant = red
				nullable := c.Bool()
				t.Cols[1].Nullable = nullable
				rec := c.Bool()
				max := lim(lt.t)
				var rows []Row
				for n := 0; n <= max; n++ {
					if n > 700 && !nearPow(n) && n < max-3 {
						continue
					}
					if n > 150 && n < 400 && !th && n%3 != 0 && !nearPow(n) && n < max-3 {
						continue
					}
					rows = append(rows, Row{int64(n), payload(n, 3), []byte("w"), int64(n)})
				}
				return rowsCase(t, rows, rec, "lengths of "+lt.t.Name)
			},
		})
		edges := []int{0, 1, 2, 60, 61, 62, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513}
		sp = append(sp, &eng.Space{
			Name: "length-pairs",
			Rule: fmt.Sprintf("two and three adjacent variable columns (VARCHAR long/short, VARBINARY long, TEXT), every combination of the boundary lengths %v", edges),
			Body: func(c *eng.Chooser) *eng.Case {
				ts := []*Type{VarcharUtf8(200), VarbinaryT(600), TextT(2), VarcharLatin1(255)}
				a, b := ts[c.Pick(4)], ts[c.Pick(4)]
				la := edges[c.Pick(len(edges))]
				rec := c.Bool()
				if la > lim(a) {
					return nil
				}
				t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("a", a), col("b", b), ncol("z", VarcharUtf8(10)))
				t.Redundant = red
				var rows []Row
				for _, lb := range edges {
					if lb <= lim(b) {
						rows = append(rows, Row{int64(lb), payload(la, 1), payload(lb, 2), nil}, Row{int64(lb + 10000), payload(la, 1), payload(lb, 2), []byte("zz")})
						rows = append(rows, Row{int64(lb + 20000), nil, payload(lb, 2), []byte("zz")})
					}
				}
				return rowsCase(t, rows, rec, "length pairs")
			},
		})
		colls := Collations()
		sp = append(sp, &eng.Space{
			Name: "charsets",
			Rule: fmt.Sprintf("CHAR(n), VARCHAR(n) and TEXT in each of the %d collations of 5.7, n = 1, 2, 9, 64, 86, 128, 255; CHAR as second column, as last column and as key; values empty, short, n characters of the shortest and of the longest width, NULL", len(colls)),
			Body: func(c *eng.Chooser) *eng.Case {
				cs := colls[c.Pick(len(colls))]
				ns := []int{1, 2, 9, 64, 86, 128, 255}
				if !th {
					ns = []int{1, 9, 86, 255}
				}
				n := ns[c.Pick(len(ns))]
				shape := c.Pick(3)
				rec := c.Bool()
				min, max := CharWidth(cs)
				text := func(k, w int) []byte { // k characters, then padding
					if w == min {
						return CsText(cs, strings.Repeat("k", k))
					}
					b := make([]byte, 0, k*w)
					for i := 0; i < k; i++ {
						b = append(b, []byte{0xe4, 0xb8, 0xad, 0xb9}[:w]...)
					}
					return b
				}
				vals := []Val{text(0, min), text(1, min), text(n/2, min), text(n, min), text(n, max), text(n/2, max), text(1, max)}
				ch, vc, tx := CharCs(cs, n), VarcharCs(cs, n), TextCs(cs)
				var t *Table
				if shape == 2 { // CHAR is (part of) the key, so not NULL
					t = tableOf("d", "t", 40, ncol("v", vc), col("c", ch), ncol("w", VarcharUtf8(10)), col("id", IntT(4, false)))
					t.Key = []int{1, 3}
				} else if shape == 1 {
					t = tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", vc), ncol("w", VarcharUtf8(10)), ncol("c", ch))
				} else {
					t = tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("c", ch), ncol("w", tx), col("v", vc))
				}
				t.Redundant = red
				var rows []Row
				id := int64(0)
				for _, a := range append(vals, nil) {
					for _, b := range append(vals[:4:4], nil) {
						id++
						switch {
						case shape == 2 && a != nil:
							rows = append(rows, Row{b, a, []byte("w"), id})
						case shape == 1:
							rows = append(rows, Row{id, b, nil, a})
						case shape == 0 && b != nil:
							rows = append(rows, Row{id, a, b, b})
							if id%3 == 0 {
								rows = append(rows, Row{-id, a, nil, b})
							}
						}
					}
				}
				return rowsCase(t, rows, rec, "charset")
			},
		})
		return sp
	}
}

func nearPow(n int) bool {
	for p := 64; p <= 16384; p *= 2 {
		if n >= p-2 && n <= p+2 {
			return true
		}
	}
	return false
}

func init() {
	eng.Register(&eng.Check{ID: "C03", Title: "COMPACT record layout", Level: "model_checking", Spaces: layoutSpaces(false)})
	eng.Register(&eng.Check{ID: "C04", Title: "REDUNDANT record layout", Level: "model_checking", Spaces: layoutSpaces(true)})
}
