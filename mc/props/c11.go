package props

import (
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
	"verif/mc/sqlp"
)

// maxPerPage bounds the statements of one page: damaged records may overlap, but there is at most one
// record per byte offset on each of the two lists.
const maxPerPage = 2 * PageSize

// checkContained: no crash, no error; the output is SQL, has every row of the intact pages, and at most
// one page worth of other statements.
func checkContained(t *Table, intact []Row, damaged int, o eng.Out) *eng.Fail {
	if o.Panic != "" {
		return eng.Failf("panic", "the tool panicked: %s", o.Panic)
	}
	if o.Err != nil {
		return eng.Failf("error", "the tool gave up: %v", o.Err)
	}
	ss, err := sqlp.Parse(o.Text)
	if err != nil {
		return eng.Failf("not-sql", "the output is not SQL: %v\noutput: %.600s", err, o.Text)
	}
	if len(ss) > len(intact)+damaged*maxPerPage {
		return eng.Failf("flood", "%d statements from a tablespace with %d intact rows and %d damaged pages", len(ss), len(intact), damaged)
	}
	left := map[int]bool{}
	for i := range intact {
		left[i] = true
	}
	for _, s := range ss {
		if s.DB != t.DB || s.Table != t.Name || len(s.Vals) != len(t.Cols) {
			return eng.Failf("statement", "statement %s is not for table %s.%s with %d columns", stmtText(s), t.DB, t.Name, len(t.Cols))
		}
		for i := range intact {
			if left[i] && matchRow(t, intact[i], s) < 0 {
				delete(left, i)
				break
			}
		}
	}
	for i := range intact {
		if left[i] {
			return eng.Failf("missing-row", "row %s of an intact page was not printed (%d statements printed)", rowText(t, intact[i]), len(ss))
		}
	}
	return nil
}

func damageTable(red bool) *Table {
	t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("a", VarcharUtf8(20)), ncol("b", VarcharUtf8(200)), ncol("c", BlobT(2)),
		ncol("e", DateTimeT()), ncol("f", CharUtf8(5)), ncol("g", BitT(2)), ncol("h", DoubleT()), ncol("i", VarbinaryT(300)))
	t.Redundant = red
	return t
}

func damageRow(k int) Row {
	r := Row{int64(k), []byte(fmt.Sprintf("a%d", k)), []byte(fmt.Sprintf("long value %d", k*k)), []byte{1, byte(k), 0xff},
		DateTime{2020, 1 + k%12, 3, 4, 5, 6, 0}, []byte("ch"), uint64(k), float64(k) / 4, []byte{byte(k), 0, 1}}
	for i := range r {
		if i > 0 && (i+k)%4 == 0 {
			r[i] = nil
		}
	}
	if k%2 == 0 { // a value with a two-byte length
		b := make([]byte, 200)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		r[2] = b
	}
	return r
}

// damageSpace: three leaves; the middle one is handed to hurt.
func damagePages(t *Table, recovery bool) (pages map[uint32][]byte, intact []Row) {
	pages = map[uint32][]byte{}
	for no := 3; no <= 5; no++ {
		var rows []Row
		for i := 0; i < 3; i++ {
			rows = append(rows, damageRow(10*no+i))
		}
		p := leafPage(t, uint32(no), rows)
		switch {
		case recovery && no == 3: // two purged, one delete-marked
			p.Mark(1)
			p.PurgeAt([]int{2, 0})
		case recovery && no == 4: // one live, one delete-marked, one purged
			p.Mark(1)
			p.Delete(2, true)
		case recovery:
			p.PurgeAll()
		case no == 4:
			p.Delete(1, true)
		case no == 5:
			if r := damageRow(99); p.Append(t.Encode(r, 99), r) != nil {
				p.Mark(3)
			}
		}
		pages[uint32(no)] = p.Bytes()
		if no != 4 {
			intact = append(intact, rows...)
		}
	}
	return
}

func damageCase(t *Table, recovery bool, title string, hurt func(p []byte)) *eng.Case {
	return &eng.Case{Title: func() string {
		return fmt.Sprintf("%s on the second of three leaf pages; redundant=%v recovery=%v", title, t.Redundant, recovery)
	}, Run: func(e *eng.Env) *eng.Fail {
		pages, intact := damagePages(t, recovery)
		hurt(pages[4])
		o := dump(e, dictOf(t), Tablespace(t.Space, pages), "d", "t", recovery)
		e.Outcome(o.Text)
		return checkContained(t, intact, 1, o)
	}}
}

// interesting offsets of the page: header, records, directory, trailer.
func damageOffsets(p []byte) []int {
	var out []int
	top := int(p[38+2])<<8 | int(p[38+3])
	for i := 0; i < top+4; i++ {
		out = append(out, i)
	}
	for i := PageSize - 16; i < PageSize; i++ {
		out = append(out, i)
	}
	return out
}

var damageVals = []func(b byte) byte{
	func(b byte) byte { return 0 }, func(b byte) byte { return 0xff }, func(b byte) byte { return ^b }, func(b byte) byte { return b + 1 },
	func(b byte) byte { return b - 1 }, func(b byte) byte { return b ^ 0x80 }, func(b byte) byte { return b ^ 0x40 }, func(b byte) byte { return b ^ 0x20 }, func(b byte) byte { return 0x3f },
}

// idlePage: a leaf with two live rows, one that is delete-marked and two purged ones.
func idlePage(t *Table) (p *Page, live, dead []Row) {
	var rows []Row
	for i := 0; i < 5; i++ {
		rows = append(rows, damageRow(40+i))
	}
	p = leafPage(t, 4, rows)
	p.Mark(1)
	p.Delete(4, true)
	p.Delete(3, true)
	p.Bytes()
	return p, []Row{rows[0], rows[2]}, []Row{rows[1], rows[3], rows[4]}
}

type idleRegion struct {
	name string
	lo   int
	mask []byte // the bits that the rows do not depend on
}

// idleRegions: what a leaf page has besides the rows asked for, the list that leads to them and what tells
// that it is a leaf of the index (type, level, maximum transaction id) and which page it is.
func idleRegions(t *Table, p *Page, rec bool) (out []idleRegion) {
	all := func(name string, lo, hi int) {
		m := make([]byte, hi-lo)
		for i := range m {
			m[i] = 0xff
		}
		out = append(out, idleRegion{name, lo, m})
	}
	all("checksum", 0, 4)
	all("neighbours", 8, 16)
	all("LSN", 16, 24)
	all("flush LSN", 26, 34)
	all("space id", 34, 38)
	all("directory slots", 38, 40)
	all("heap top", 40, 42)
	out = append(out, idleRegion{"heap records", 42, []byte{0x7f, 0xff}})
	if !rec {
		all("free list and garbage", 44, 48)
	}
	all("last insert", 48, 50)
	all("direction", 50, 54)
	all("number of records", 54, 56)
	all("segments", 74, 94)
	hdr := func(name string, org int) { // n_owned and heap number
		if t.Redundant {
			out = append(out, idleRegion{name, org - 6, []byte{0x0f, 0xff, 0xf8}})
		} else {
			out = append(out, idleRegion{name, org - 5, []byte{0x0f, 0xff, 0xf8}})
		}
	}
	if t.Redundant {
		hdr("infimum header", 101)
		all("infimum", 101, 109)
		hdr("supremum header", 116)
		all("supremum", 116, 125)
	} else {
		hdr("infimum header", 99)
		all("infimum", 99, 107)
		hdr("supremum header", 112)
		all("supremum", 112, 120)
	}
	top := get2(p.B, 40)
	for i, s := range append(append([]*Slot{}, p.Live()...), p.Frees()...) {
		end := s.Org - s.R.Origin + len(s.R.B)
		printed := (i >= len(p.Live()) || s.Dead) == rec
		switch {
		case !printed && i >= len(p.Live()): // not on the list that is read
			all(fmt.Sprintf("record %d", i), s.Org-s.R.Origin, end)
		case !printed:
			hdr(fmt.Sprintf("header of record %d", i), s.Org)
			all(fmt.Sprintf("data of record %d", i), s.Org, end)
		default:
			hdr(fmt.Sprintf("header of record %d", i), s.Org)
			all(fmt.Sprintf("trx id and roll pointer of record %d", i), s.Org+4, s.Org+17)
		}
	}
	all("free space", top, top+64)
	all("free space before the directory", PageSize-100, PageSize-12)
	all("directory", PageSize-12, PageSize-8)
	all("trailer", PageSize-8, PageSize)
	return
}

func get2(b []byte, o int) int { return int(b[o])<<8 | int(b[o+1]) }

func c11Idle(th bool) []*eng.Space {
	run := func(t *Table, rec bool, title string, hurt func(p []byte)) *eng.Case {
		return &eng.Case{Title: func() string {
			return fmt.Sprintf("%s on the second of three leaf pages; redundant=%v recovery=%v", title, t.Redundant, rec)
		}, Run: func(e *eng.Env) *eng.Fail {
			pages, want := damagePages(t, rec)
			p, live, dead := idlePage(t)
			pages[4] = p.B
			if rec {
				live = dead
			}
			hurt(pages[4])
			o := dump(e, dictOf(t), Tablespace(t.Space, pages), "d", "t", rec)
			e.Outcome(o.Text)
			return checkRows(t, append(append([]Row{}, want...), live...), o)
		}}
	}
	var tabs [2]*Table
	var regs [2][2][]idleRegion
	for k := range tabs {
		tabs[k] = damageTable(k == 1)
		p, _, _ := idlePage(tabs[k])
		for r := range regs[k] {
			regs[k][r] = idleRegions(tabs[k], p, r == 1)
		}
	}
	nv := len(damageVals)
	if th {
		nv = 256
	}
	fills := []func(i int, b byte) byte{
		func(i int, b byte) byte { return 0 }, func(i int, b byte) byte { return 0xff }, func(i int, b byte) byte { return ^b }, func(i int, b byte) byte { return byte(i*97 + 13) },
	}
	rule := "checksums, neighbours, LSN, counters and pointers of the page header, segment headers, texts of infimum and supremum, record numbers, transaction ids of records, free space, directory, trailer, records that are not asked for"
	return []*eng.Space{{
		Name: "idle-bytes",
		Rule: fmt.Sprintf("every byte (or the bits of it) that the rows do not depend on overwritten with %d values: %s; every row of the file is exact", nv, rule),
		Body: func(c *eng.Chooser) *eng.Case {
			k, r := c.Pick(2), c.Pick(2)
			g := regs[k][r][c.Pick(len(regs[k][r]))]
			i := c.Pick(len(g.mask))
			v := c.Pick(nv)
			return run(tabs[k], r == 1, fmt.Sprintf("%s, byte %d, damage %d", g.name, g.lo+i, v), func(p []byte) {
				x := byte(v)
				if !th {
					x = damageVals[v](p[g.lo+i])
				}
				p[g.lo+i] = p[g.lo+i]&^g.mask[i] | x&g.mask[i]
			})
		},
	}, {
		Name: "idle-regions",
		Rule: "every two (thorough: three) of these regions, and all of them at once, overwritten with zeros, ones, their complement or a pattern; every row of the file is exact",
		Body: func(c *eng.Chooser) *eng.Case {
			k, r := c.Pick(2), c.Pick(2)
			gs := regs[k][r]
			var pick []idleRegion
			switch c.Pick(2) {
			case 0:
				pick = gs
			default:
				n := 2
				if th {
					n = 3
				}
				at := 0
				for ; n > 0; n-- {
					if at == len(gs) {
						return nil
					}
					at += c.Pick(len(gs) - at)
					pick = append(pick, gs[at])
					at++
				}
			}
			f := c.Pick(len(fills))
			return run(tabs[k], r == 1, fmt.Sprintf("%d regions from %s to %s, fill %d", len(pick), pick[0].name, pick[len(pick)-1].name, f), func(p []byte) {
				for _, g := range pick {
					for i, m := range g.mask {
						p[g.lo+i] = p[g.lo+i]&^m | fills[f](i, p[g.lo+i])&m
					}
				}
			})
		},
	}}
}

func c11(th bool) []*eng.Space {
	type form struct {
		t    *Table
		offs []int
	}
	var forms []form
	for _, red := range []bool{false, true} {
		t := damageTable(red)
		pg, _ := damagePages(t, false)
		forms = append(forms, form{t, damageOffsets(pg[4])})
	}
	nv := len(damageVals)
	if th {
		nv = 256
	}
	sp := []*eng.Space{
		{
			Name: "one-byte",
			Rule: fmt.Sprintf("every byte of the header, the records, the directory and the trailer of a leaf page overwritten with %d values; COMPACT and REDUNDANT, dump and recovery", nv),
			Body: func(c *eng.Chooser) *eng.Case {
				f := forms[c.Pick(2)]
				rec := c.Bool()
				at := f.offs[c.Pick(len(f.offs))]
				v := c.Pick(nv)
				return damageCase(f.t, rec, fmt.Sprintf("byte %d, damage %d", at, v), func(p []byte) {
					if th {
						p[at] = byte(v)
					} else {
						p[at] = damageVals[v](p[at])
					}
				})
			},
		},
		{
			Name: "pointers",
			Rule: "every 16-bit value in the next pointer of the infimum, of each record, and in the free list head",
			Body: func(c *eng.Chooser) *eng.Case {
				f := forms[c.Pick(2)]
				which := c.Pick(5)
				rec := which > 0 && c.Bool()
				if which == 1 {
					rec = true
				}
				step := 1
				if !th {
					step = 7
				}
				v := c.Pick(65536/step) * step
				return damageCase(f.t, rec, fmt.Sprintf("pointer %d (0: infimum, 1: free list, 2..4: records) = %d", which, v), func(p []byte) {
					var at int
					switch which {
					case 0:
						at = 97
						if f.t.Redundant {
							at = 99
						}
					case 1:
						at = 38 + 6
					default:
						q := leafPage(f.t, 4, []Row{damageRow(40), damageRow(41), damageRow(42)})
						at = q.Live()[which-2].Org - 2
					}
					p[at], p[at+1] = byte(v>>8), byte(v)
				})
			},
		},
		{
			Name: "two-pointers",
			Rule: "the next pointers of two records set to every pair of record origins, infimum, supremum, neighbours and page ends (cycles, crossings, backward chains)",
			Body: func(c *eng.Chooser) *eng.Case {
				f := forms[c.Pick(2)]
				rec := c.Bool()
				q := leafPage(f.t, 4, []Row{damageRow(40), damageRow(41), damageRow(42)})
				var org []int
				for _, s := range q.Live() {
					org = append(org, s.Org)
				}
				tg := append([]int{}, org...)
				tg = append(tg, 99, 101, 112, 116, 0, 1, 2, 5, 6, 7, 16377, 16378, 16383, 65535, 32768, org[0]-1, org[0]+1, org[1]-2, org[2]+1)
				a, b := c.Pick(3), c.Pick(3)
				x, y := tg[c.Pick(len(tg))], tg[c.Pick(len(tg))]
				return damageCase(f.t, rec, fmt.Sprintf("next pointer of record %d to %d and of record %d to %d", a, x, b, y), func(p []byte) {
					for _, w := range [][2]int{{org[a], x}, {org[b], y}} {
						v := w[1]
						if !f.t.Redundant {
							v = (v - w[0]) & 0xffff
						}
						p[w[0]-2], p[w[0]-1] = byte(v>>8), byte(v)
					}
				})
			},
		},
		{
			Name: "torn-page",
			Rule: "the page torn at every multiple of 16 bytes of its used part and every 512-byte sector: head or tail replaced by zeros, ones, or the bytes of another page",
			Body: func(c *eng.Chooser) *eng.Case {
				f := forms[c.Pick(2)]
				rec := c.Bool()
				k := c.Pick(128)
				at := k * 16
				if k >= 96 {
					at = (k - 96) * 512
				}
				head := c.Bool()
				fill := c.Pick(4)
				return damageCase(f.t, rec, fmt.Sprintf("torn at %d (head=%v, fill %d)", at, head, fill), func(p []byte) {
					lo, hi := at, len(p)
					if head {
						lo, hi = 0, at
					}
					pages, _ := damagePages(f.t, !rec)
					for i := lo; i < hi; i++ {
						switch fill {
						case 0:
							p[i] = 0
						case 1:
							p[i] = 0xff
						case 2:
							p[i] = pages[4][i]
						case 3:
							p[i] = byte(i * 131)
						}
					}
				})
			},
		},
		{
			Name: "truncated-file",
			Rule: "the data file cut at every length that ends inside the used part of the last leaf page, at every page boundary +-2, and inside the first pages",
			Body: func(c *eng.Chooser) *eng.Case {
				f := forms[c.Pick(2)]
				rec := c.Bool()
				var cuts []int
				for i := 0; i < 6; i++ {
					for d := -2; d <= 2; d++ {
						cuts = append(cuts, i*PageSize+d)
					}
				}
				for i := 0; i < 1400; i++ {
					cuts = append(cuts, 5*PageSize+i)
				}
				for i := 5; i < 90; i++ {
					cuts = append(cuts, i*997)
				}
				n := cuts[c.Pick(len(cuts))]
				if n < 0 || n > 6*PageSize {
					return nil
				}
				return &eng.Case{Title: func() string {
					return fmt.Sprintf("file of %d bytes (%d pages + %d), redundant=%v recovery=%v", n, n/PageSize, n%PageSize, f.t.Redundant, rec)
				}, Run: func(e *eng.Env) *eng.Fail {
					pages := map[uint32][]byte{}
					var intact []Row
					for no := 3; no <= 5; no++ {
						var rows []Row
						for i := 0; i < 3; i++ {
							rows = append(rows, damageRow(10*no+i))
						}
						p := leafPage(f.t, uint32(no), rows)
						if rec {
							p.PurgeAll()
						}
						pages[uint32(no)] = p.Bytes()
						if (no+1)*PageSize <= n {
							intact = append(intact, rows...)
						}
					}
					o := dump(e, dictOf(f.t), Tablespace(f.t.Space, pages)[:n], "d", "t", rec)
					e.Outcome(o.Text)
					if n < PageSize {
						o.Err = nil // without a page the run fails
					}
					return checkContained(f.t, intact, 1, o)
				}}
			},
		},
	}
	// the dictionary: damage is reported as an error or has no effect on the process; never a crash or a hang.
	dts := dictTables()
	img := MakeDict(dts...).Image(DictLayout{})
	top := 0
	for _, no := range DictRoots {
		t := int(img[int(no)*PageSize+40])<<8 | int(img[int(no)*PageSize+41])
		if t > top {
			top = t
		}
	}
	dictNos := []uint32{7, 8, 10, 11, 12, 0, 9}
	dictRun := func(title string, hurt func(im []byte) []byte) *eng.Case {
		return &eng.Case{Title: func() string { return title }, Run: func(e *eng.Env) *eng.Fail {
			im := hurt(append([]byte{}, img...))
			for _, t := range dts[:2] {
				o := dump(e, im, oneLeaf(t, dictRows(t)), t.DB, t.Name, false)
				e.Outcome(fmt.Sprint(o.Err) + o.Text)
				if o.Panic != "" {
					return eng.Failf("panic", "damaged dictionary, dumping %s.%s: the tool panicked: %s", t.DB, t.Name, o.Panic)
				}
			}
			return nil
		}}
	}
	nd := 4
	if th {
		nd = 64
	}
	sp = append(sp, &eng.Space{
		Name: "dictionary-byte",
		Rule: fmt.Sprintf("every used byte of the dictionary header page and of each dictionary page overwritten with %d values: no crash, no hang", nd),
		Body: func(c *eng.Chooser) *eng.Case {
			no := dictNos[c.Pick(len(dictNos))]
			n := top + 8
			if no == 7 || no == 0 || no == 9 {
				n = 160
			}
			at := c.Pick(n)
			v := c.Pick(nd)
			return dictRun(fmt.Sprintf("byte %d of page %d of the system tablespace, damage %d", at, no, v), func(im []byte) []byte {
				o := int(no)*PageSize + at
				if v < 4 {
					im[o] = damageVals[v](im[o])
				} else {
					im[o] = byte(v * 4)
				}
				return im
			})
		},
	}, &eng.Space{
		Name: "dictionary-truncated",
		Rule: "the system tablespace cut at every page boundary +-1 and every 256 bytes inside; each page zeroed, set to ones, replaced by each other page",
		Body: func(c *eng.Chooser) *eng.Case {
			pages := len(img) / PageSize
			switch c.Pick(3) {
			case 0:
				n := c.Pick(pages*64) * 256
				return dictRun(fmt.Sprintf("cut to %d bytes", n), func(im []byte) []byte { return im[:n] })
			case 1:
				n := c.Pick(pages)
				ones := c.Bool()
				return dictRun(fmt.Sprintf("page %d wiped (ones=%v)", n, ones), func(im []byte) []byte {
					for i := n * PageSize; i < (n+1)*PageSize; i++ {
						im[i] = 0
						if ones {
							im[i] = 0xff
						}
					}
					return im
				})
			}
			a, b := c.Pick(pages), c.Pick(pages)
			num := c.Bool()
			return dictRun(fmt.Sprintf("page %d replaced by page %d (number adjusted=%v)", a, b, num), func(im []byte) []byte {
				copy(im[a*PageSize:(a+1)*PageSize], img[b*PageSize:(b+1)*PageSize])
				if num {
					copy(im[a*PageSize+4:a*PageSize+8], img[a*PageSize+4:a*PageSize+8])
				}
				return im
			})
		},
	})
	type span struct {
		no     uint32
		lo, hi int
	}
	var idle []span
	for _, no := range append([]uint32{7}, DictRoots[:]...) {
		for _, x := range [][2]int{{0, 4}, {8, 24}, {26, 38}} { // checksum, neighbours, LSNs, space id
			idle = append(idle, span{no, x[0], x[1]})
		}
		if no == 7 { // the next ids; SYS_TABLE_IDS; what is behind the roots
			idle = append(idle, span{no, 38, 70}, span{no, 74, 78}, span{no, 90, 200})
			continue
		}
		// slots, heap top, records of the heap (the top bit tells the row format); free list, counters, transaction id; segments
		idle = append(idle, span{no, 38, 42}, span{no, 43, 64}, span{no, 74, 94}, span{no, top + 200, top + 220}, span{no, PageSize - 12, PageSize})
	}
	for _, no := range []uint32{0, 1, 2, 3, 5, 6} {
		idle = append(idle, span{no, 26, 200})
	}
	want := map[*Table][]Row{}
	for _, t := range dts {
		want[t] = dictRows(t)
	}
	sp = append(sp, &eng.Space{
		Name: "dictionary-idle",
		Rule: fmt.Sprintf("every byte of the dictionary header page and the dictionary pages that the definitions do not depend on (checksums, neighbours, LSNs, next ids, counters of the page header, segments, free space, trailer), and of the other pages of the system tablespace, overwritten with %d values, and each such range as a whole: every row of three tables is exact", nd),
		Body: func(c *eng.Chooser) *eng.Case {
			s := idle[c.Pick(len(idle))]
			at := c.Pick(s.hi-s.lo+1) - 1
			v := c.Pick(nd)
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("byte %d of %d..%d (-1: all) of page %d of the system tablespace, damage %d", at, s.lo, s.hi-1, s.no, v)
			}, Run: func(e *eng.Env) *eng.Fail {
				im := append([]byte{}, img...)
				for i := s.lo; i < s.hi; i++ {
					if at >= 0 && i != s.lo+at {
						continue
					}
					o := int(s.no)*PageSize + i
					if v < 4 {
						im[o] = damageVals[v](im[o])
					} else {
						im[o] = byte(v * 4)
					}
				}
				for _, t := range dts {
					o := dump(e, im, oneLeaf(t, want[t]), t.DB, t.Name, false)
					e.Outcome(o.Text)
					if f := checkRows(t, want[t], o); f != nil {
						return f
					}
				}
				return nil
			}}
		},
	})
	return append(sp, c11Idle(th)...)
}

func init() {
	eng.Register(&eng.Check{ID: "C11", Title: "damaged data files and dictionaries", Level: "model_checking", Spaces: c11})
}
