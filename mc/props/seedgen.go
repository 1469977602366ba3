package props

import (
	"fmt"
	"strings"

	. "verif/mc/innodb"
)

// Inputs for the demonstrations of planted changes (not used by any check).

// Seed is a command line with its files; "@name" in Args stands for a file.
type Seed struct {
	Files map[string][]byte
	Args  []string
}

func seedData(t *Table, data []byte, recovery bool, more ...*Table) Seed {
	s := Seed{Files: map[string][]byte{"ibdata1": dictOf(append([]*Table{t}, more...)...), "t.ibd": data}}
	s.Args = []string{"recovery", "FromDataFile", "--SysDataFile=@ibdata1", "--TableDataFile=@t.ibd", "--DBName=" + t.DB, "--TableName=" + t.Name}
	if recovery {
		s.Args = append(s.Args, "--OpType=RecoveryData")
	}
	return s
}

func seedLog(dict []byte, files [][]byte, args ...string) Seed {
	s := Seed{Files: map[string][]byte{"ibdata1": dict}}
	var names []string
	for i, f := range files {
		n := fmt.Sprintf("ib_logfile%d", i)
		s.Files[n] = f
		names = append(names, "@"+n)
	}
	s.Args = append([]string{"recovery", "FromRedoFile", "--SysDataFile=@ibdata1", "--RedoFile=" + strings.Join(names, ",")}, args...)
	return s
}

func usual() *Table {
	return tableOf("shop", "orders", 40, col("id", IntT(4, false)), ncol("note", VarcharUtf8(2000)), ncol("n", IntT(4, false)))
}

// Seeds are the inputs by name.
func Seeds() map[string]func() Seed {
	rows := func(t *Table, red, dead bool, rs ...Row) Seed {
		t.Redundant = red
		if dead {
			return seedData(t, deletedLeaf(t, rs, nil), true)
		}
		return seedData(t, oneLeaf(t, rs), false)
	}
	upds := func(t *Table, us ...*Undo) []byte {
		l := newLog()
		for _, u := range us {
			l.add(u.LogRec(uint64(t.Space), 300))
		}
		return l.b
	}
	_ = upds
	return map[string]func() Seed{
		"backward": func() Seed {
			t := usual()
			p := NewPage(PageHdr{Space: t.Space, PageNo: 3, Type: PageIndex, IndexID: t.IndexID}, false)
			for i := 2; i < 12; i++ {
				r := Row{int64(i), letters(700), int64(i)}
				p.Append(t.Encode(r, uint64(i)), r)
			}
			r := Row{int64(1), letters(20), int64(1)}
			p.Insert(0, t.Encode(r, 1), r)
			return seedData(t, Tablespace(t.Space, map[uint32][]byte{3: p.Bytes()}), false)
		},
		"all-deleted": func() Seed {
			t := usual()
			p := leafPage(t, 3, []Row{{int64(1), bs("a"), int64(1)}, {int64(2), bs("b"), nil}})
			p.PurgeAll()
			return seedData(t, Tablespace(t.Space, map[uint32][]byte{3: p.Bytes()}), true)
		},
		"high-free": func() Seed {
			t := usual()
			var rs []Row
			for i := 0; i < 14; i++ {
				rs = append(rs, Row{int64(i), letters(900), int64(i)})
			}
			p := leafPage(t, 3, rs)
			p.Delete(13, true)
			return seedData(t, Tablespace(t.Space, map[uint32][]byte{3: p.Bytes()}), true)
		},
		"ten-nulls": func() Seed {
			cs := []Col{col("id", IntT(4, false))}
			for i := 0; i < 10; i++ {
				cs = append(cs, ncol(fmt.Sprintf("c%d", i), VarcharUtf8(10)))
			}
			t := tableOf("shop", "orders", 40, cs...)
			var rs []Row
			for i := 0; i < 3; i++ {
				r := Row{int64(i)}
				for k := 0; k < 10; k++ {
					if k == 8+i || k == 2 {
						r = append(r, nil)
					} else {
						r = append(r, letters(k+1))
					}
				}
				rs = append(rs, r)
			}
			return rows(t, false, false, rs...)
		},
		"long-latin1": func() Seed {
			t := tableOf("shop", "orders", 40, col("id", IntT(4, false)), ncol("v", TextT(2)), ncol("w", VarcharLatin1(300)), ncol("x", TextT(1)))
			return rows(t, false, false, Row{int64(1), letters(127), letters(128), letters(129)}, Row{int64(2), letters(128), letters(300), letters(1)}, Row{int64(3), nil, letters(127), letters(255)})
		},
		"redundant-null": func() Seed {
			t := usual()
			return rows(t, true, false, Row{int64(1), nil, int64(7)}, Row{int64(2), letters(30), nil}, Row{int64(3), nil, nil})
		},
		"redundant-long": func() Seed {
			t := usual()
			return rows(t, true, false, Row{int64(1), letters(100), int64(7)}, Row{int64(2), letters(130), nil}, Row{int64(3), letters(400), int64(9)}, Row{int64(4), letters(1000), nil})
		},
		"ints": func() Seed {
			t := tableOf("shop", "orders", 40, col("id", IntT(4, false)), ncol("s", IntT(2, false)), ncol("m", IntT(3, false)), ncol("b", IntT(8, false)), ncol("t", IntT(1, false)))
			var rs []Row
			for i, v := range []int64{0, 1, -1} {
				rs = append(rs, Row{int64(i), v, v, v, v})
			}
			rs = append(rs, Row{int64(2147483647), int64(32767), int64(8388607), int64(9223372036854775807), int64(127)})
			rs = append(rs, Row{int64(-2147483648), int64(-32768), int64(-8388608), int64(-9223372036854775808), int64(-128)})
			return rows(t, false, false, rs...)
		},
		"times": func() Seed {
			t := tableOf("shop", "orders", 40, col("id", IntT(4, false)), ncol("t", TimeT()), ncol("d", DateT(false)), ncol("dt", DateTimeT()))
			return rows(t, false, false,
				Row{int64(1), Clock{false, 838, 59, 59, 0}, Date{9999, 12, 31}, DateTime{9999, 12, 31, 23, 59, 59, 0}},
				Row{int64(2), Clock{true, 600, 1, 2, 0}, Date{1000, 1, 1}, DateTime{1000, 1, 1, 0, 0, 0, 0}},
				Row{int64(3), Clock{true, 0, 0, 1, 0}, Date{2019, 7, 31}, DateTime{2024, 2, 29, 16, 32, 33, 0}},
				Row{int64(4), nil, Date{0, 0, 0}, DateTime{}})
		},
		"texts": func() Seed {
			t := usual()
			var rs []Row
			for i, s := range []string{"plain", "it's", `a\`, "\x1a", "tab\tand\nline\r", "\x00", `say "x"`, "NULL", "'); drop table x; --", "é\xff"} {
				rs = append(rs, Row{int64(i), bs(s), int64(i)})
			}
			return rows(t, false, false, rs...)
		},
		"composite": func() Seed {
			t := tableOf("shop", "orders", 40, ncol("v", VarcharUtf8(20)), col("a", IntT(4, false)), ncol("w", VarcharUtf8(20)), col("b", VarcharUtf8(20)))
			t.Key = []int{3, 1}
			return rows(t, false, false, Row{bs("v"), int64(1), nil, bs("k")}, Row{nil, int64(2), bs("w"), bs("kk")})
		},
		"two-tables": func() Seed {
			t := usual()
			t2 := tableOf("shop", "orders2", 41, col("id", IntT(4, false)), ncol("x", VarcharUtf8(20)))
			t3 := tableOf("shop2", "orders", 42, col("id", IntT(4, false)))
			return seedData(t, oneLeaf(t, []Row{{int64(1), bs("one"), nil}}), false, t2, t3)
		},
		"big-index": func() Seed {
			t := usual()
			var rs []Row
			for i := 0; i < 6; i++ {
				rs = append(rs, Row{int64(i), letters(30), int64(i)})
			}
			c := selLeaf(3, 0, PageHdr{})
			_ = c
			pages := map[uint32][]byte{}
			pages[4] = leafPage(t, 4, rs[:3]).Bytes()
			pages[5] = leafPage(t, 5, rs[3:]).Bytes()
			n, _, _ := node(false)(t, 3, 1)
			pages[3] = n
			return seedData(t, Tablespace(t.Space, pages), false)
		},
		"log": func() Seed {
			t := usual()
			t2 := tableOf("shop", "orders_old", 41, col("id", IntT(4, false)), ncol("note", VarcharUtf8(2000)), ncol("n", IntT(4, false)))
			l := newLog()
			k := int64(0)
			add := func(t *Table, f func(u *Undo)) {
				k++
				u := undoUpd(t, Row{k, bs(fmt.Sprintf("old %d", k)), k * 100}, 1, 2)
				if f != nil {
					f(u)
				}
				l.add(u.LogRec(uint64(t.Space), 300))
			}
			add(t, nil)
			add(t2, nil)
			add(t, func(u *Undo) { u.UndoNo = 0x200000 })
			add(t, func(u *Undo) { u.UndoNo = 0x1fffff })
			add(t, func(u *Undo) { u.Extern = true })
			add(t, func(u *Undo) { u.Old[1] = letters(1500) })
			add(t, func(u *Undo) { u.Old[1] = nil })
			for _, v := range logVariants(false) {
				l.add(v.bytes(true, 7, 300))
				add(t, nil)
			}
			return seedLog(dictOf(t, t2), l.files(0), "--TableName=orders", "--DBName=shop")
		},
		"log-files": func() Seed {
			t := usual()
			l := newLog()
			for k := int64(0); k < 40; k++ {
				l.add(undoUpd(t, Row{k, letters(int(k) * 50), k}, 1, 2).LogRec(uint64(t.Space), 300))
			}
			return seedLog(dictOf(t), l.files(20), "--DBName=shop")
		},
		"other-case": func() Seed {
			t := usual()
			s := seedData(t, oneLeaf(t, []Row{{int64(1), bs("one"), nil}}), false)
			for i, a := range s.Args {
				if strings.HasPrefix(a, "--TableName=") {
					s.Args[i] = "--TableName=Orders"
				}
			}
			return s
		},
		"secondary": func() Seed {
			t := usual()
			pages := map[uint32][]byte{3: leafPage(t, 3, []Row{{int64(1), bs("one"), nil}}).Bytes()}
			p := NewPage(PageHdr{Space: t.Space, PageNo: 4, Type: PageIndex, IndexID: t.IndexID + 1, MaxTrx: 5 << 32}, false)
			for i := 0; i < 3; i++ {
				r := Row{int64(i), bs("sec"), int64(7)}
				p.Append(t.Encode(r, 1), r)
			}
			pages[4] = p.Bytes()
			return seedData(t, Tablespace(t.Space, pages), false)
		},
		"empty-page": func() Seed {
			t := usual()
			pages := map[uint32][]byte{}
			pages[4] = leafPage(t, 4, []Row{{int64(1), bs("one"), nil}}).Bytes()
			pages[5] = leafPage(t, 5, nil).Bytes()
			pages[6] = leafPage(t, 6, []Row{{int64(2), bs("two"), nil}}).Bytes()
			n, _, _ := node(false)(t, 3, 1)
			pages[3] = n
			return seedData(t, Tablespace(t.Space, pages), false)
		},
		"cut": func() Seed {
			t := usual()
			pages := map[uint32][]byte{}
			pages[4] = leafPage(t, 4, []Row{{int64(1), bs("one"), nil}}).Bytes()
			pages[5] = leafPage(t, 5, []Row{{int64(2), bs("two"), nil}}).Bytes()
			n, _, _ := node(false)(t, 3, 1)
			pages[3] = n
			img := Tablespace(t.Space, pages)
			return seedData(t, img[:len(img)-100], false)
		},
		"db-column": func() Seed {
			t := tableOf("shop", "orders", 40, col("id", IntT(4, false)), ncol("DB_NAME", VarcharUtf8(20)), ncol("n", IntT(4, false)))
			return rows(t, false, false, Row{int64(1), bs("one"), int64(7)}, Row{int64(2), nil, nil})
		},
		"not-null": func() Seed {
			t := tableOf("shop", "orders", 40, col("id", IntT(4, false)), col("a", VarcharUtf8(20)), col("n", IntT(4, false)))
			return rows(t, false, false, Row{int64(1), bs("one"), int64(7)}, Row{int64(2), bs(""), int64(9)})
		},
		"year": func() Seed {
			t := tableOf("shop", "orders", 40, col("id", IntT(4, false)), ncol("y", YearT()))
			return rows(t, false, false, Row{int64(1), int64(1901)}, Row{int64(2), int64(2155)}, Row{int64(3), int64(2028)}, Row{int64(4), int64(0)}, Row{int64(5), nil})
		},
		"log-short": func() Seed {
			t := tableOf("shop", "orders", 40, col("id", IntT(1, false)), ncol("n", IntT(1, false)))
			l := newLog()
			for k := int64(0); k < 3; k++ {
				l.add(undoUpd(t, Row{k, k}, 1).LogRec(uint64(t.Space), 300))
			}
			return seedLog(dictOf(t), l.files(0), "--DBName=shop")
		},
		"log-db-case": func() Seed {
			t := usual()
			t2 := tableOf("SHOP", "orders", 41, col("id", IntT(4, false)), ncol("note", VarcharUtf8(2000)), ncol("n", IntT(4, false)))
			l := newLog()
			l.add(undoUpd(t, Row{int64(1), bs("a"), nil}, 1, 2).LogRec(uint64(t.Space), 300))
			l.add(undoUpd(t2, Row{int64(2), bs("b"), nil}, 1, 2).LogRec(uint64(t2.Space), 300))
			return seedLog(dictOf(t, t2), l.files(0), "--DBName=shop", "--TableName=orders")
		},
		"lob":           func() Seed { return lobSeed(lobFmts[1]) },
		"lob-redundant": func() Seed { return lobSeed(lobFmts[2]) },
		"lob-log": func() Seed {
			t := usual()
			l := newLog()
			for k := int64(0); k < 4; k++ {
				u := undoUpd(t, Row{k, letters(20), k}, 1, 2)
				if k == 1 || k == 2 {
					v := &Lob{B: lobBytes(5000, 3), Local: 768}
					v.Place(t.Space, []uint32{9}, 0, map[uint32][]byte{})
					if k == 2 {
						v.Ord = 767
					}
					u.Old[1] = v
					u.Extern = true
				}
				l.add(u.LogRec(uint64(t.Space), 300))
			}
			return seedLog(dictOf(t), l.files(0), "--DBName=shop")
		},
		"dead-redundant": func() Seed {
			t := usual()
			t.Redundant = true
			p := leafPage(t, 3, []Row{{int64(1), bs("a"), int64(1)}, {int64(2), bs("b"), nil}, {int64(3), nil, int64(5)}})
			p.Mark(1)
			return seedData(t, Tablespace(t.Space, map[uint32][]byte{3: p.Bytes()}), true)
		},
		"log-damaged": func() Seed {
			t := usual()
			l := newLog()
			for k := int64(0); k < 6; k++ {
				u := undoUpd(t, Row{k, letters(20), k}, 1, 2)
				r := u.LogRec(uint64(t.Space), 300)
				if k == 2 {
					// the number of the first changed column
					for i := 0; i+1 < len(r); i++ {
						if string(r[i:i+2]) == "\x03\x14" {
							r[i] = 0x7f
							break
						}
					}
				}
				l.add(r)
			}
			return seedLog(dictOf(t), l.files(0), "--DBName=shop")
		},
		"decimal-log": func() Seed {
			t := tableOf("shop", "orders", 40, col("id", IntT(4, false)), ncol("d", DecimalT(5)), ncol("s", VarcharUtf8(20)))
			l := newLog()
			l.add(undoUpd(t, Row{int64(1), []byte("\x80\x00\x00\x01\x05"), bs("one")}, 1, 2).LogRec(uint64(t.Space), 300))
			l.add(undoUpd(t, Row{int64(2), nil, bs("two")}, 2).LogRec(uint64(t.Space), 300))
			return seedLog(dictOf(t), l.files(0), "--DBName=shop", "--TableName=orders")
		},
		"fts": func() Seed {
			t := tableOf("shop", "orders", 40, col("FTS_DOC_ID", IntT(8, true)), ncol("s", VarcharUtf8(20)), col("n", DecimalT(4)))
			return rows(t, false, false, Row{uint64(1), bs("one"), []byte("\x80\x00\x00\x01")}, Row{uint64(2), nil, []byte("\x80\x00\x00\x01")})
		},
		"circle": func() Seed {
			t := usual()
			l, _, _ := circularLog(t, []int{400}, 330, 13*496+100)
			slots, _ := LogCircle(l.b, l.starts, Circle{Files: 2, Per: 4, First: 0x0fff4})
			return seedLog(dictOf(t), CircleFiles(slots, 4), "--DBName=shop")
		},
		"five-logs": func() Seed {
			t := usual()
			l, _, _ := circularLog(t, []int{400}, 330, 13*496+100)
			slots, _ := LogCircle(l.b, l.starts, Circle{Files: 5, Per: 4, First: 0x0040})
			return seedLog(dictOf(t), CircleFiles(slots, 4), "--DBName=shop")
		},
		"page-end": func() Seed {
			t := usual()
			build := func(pad int) *Page {
				p := NewPage(PageHdr{Space: t.Space, PageNo: 3, Type: PageIndex, IndexID: t.IndexID}, false)
				for h := 0; h < 10; h++ {
					r := Row{int64(h), letters(1750), nil}
					if h == 0 {
						r[1] = letters(pad)
					}
					if h == 9 {
						r[1] = nil
					}
					if p.AppendFast(t.Encode(r, uint64(h)), r) == nil {
						return nil
					}
				}
				return p
			}
			pad := 1990
			for build(pad) == nil {
				pad--
			}
			return seedData(t, Tablespace(t.Space, map[uint32][]byte{3: build(pad).Bytes()}), false)
		},
		"space-column": func() Seed {
			t := tableOf("shop", "orders", 40, col("id", IntT(4, false)), ncol("n", IntT(4, false)), ncol(" note", VarcharUtf8(20)))
			l := newLog()
			l.add(undoUpd(t, Row{int64(1), nil, bs("a")}, 1, 2).LogRec(uint64(t.Space), 300))
			return seedLog(dictOf(t), l.files(0), "--DBName=shop", "--TableName=orders")
		},
		"quoted-table": func() Seed {
			t := tableOf("shop", "`orders`", 40, col("id", IntT(4, false)), ncol("n", IntT(4, false)))
			return rows(t, false, false, Row{int64(1), nil}, Row{int64(2), int64(7)})
		},
		"prefix": func() Seed {
			t := tableOf("shop", "orders", 40, col("code", VarcharUtf8(20)), ncol("n", IntT(4, false)), col("note", TextT(2)))
			t.Key, t.Prefix = []int{0, 2}, []int{0, 9}
			return rows(t, false, false, Row{bs("x1"), int64(4), bs("a long note of an order")}, Row{bs("x2"), nil, bs("short")})
		},
		"counter": func() Seed {
			t := usual()
			var pages = map[uint32][]byte{}
			for k := 0; k < 3; k++ {
				pages[uint32(3+k)] = append([]byte{}, leafPage(t, uint32(3+k), []Row{{int64(k), bs("row"), nil}, {int64(k + 10), nil, int64(k)}}).Bytes()...)
			}
			for i := 54; i < 56; i++ {
				pages[4][i] = 0
			}
			return seedData(t, Tablespace(t.Space, pages), false)
		},
		"index-id": func() Seed {
			t := usual()
			s := seedData(t, oneLeaf(t, []Row{{int64(1), bs("one"), nil}}), false)
			d := MakeDict(t)
			var l DictLayout
			old := usual()
			old.Cols[0].Name = "old"
			b := append([]byte{}, MakeDict(old).Image(DictLayout{})[10*PageSize:11*PageSize]...)
			b[7], b[69] = 40, 1
			l.Extra = map[uint32][]byte{40: b}
			s.Files["ibdata1"] = d.Image(l)
			return s
		},
		"struct": func() Seed {
			t := usual()
			p := leafPage(t, 3, []Row{{int64(1), bs("a"), int64(1)}, {int64(2), bs("b"), nil}, {int64(3), nil, int64(5)}})
			p.PurgeAt([]int{1})
			s := seedData(t, Tablespace(t.Space, map[uint32][]byte{3: p.Bytes()}), false)
			s.Args = append(s.Args, "--OpType=RecoveryStruct")
			return s
		},
		"full-page": func() Seed {
			t := usual()
			var rs []Row
			for k := 0; k < 29; k++ {
				rs = append(rs, Row{int64(k), letters(520), int64(k)})
			}
			return seedData(t, oneLeaf(t, rs), false)
		},
		"log-id": func() Seed {
			t := usual()
			l := newLog()
			for k := int64(0); k < 3; k++ {
				u := undoUpd(t, Row{k, letters(20), k}, 1, 2)
				u.UndoNo = uint64(0x180000 + k)
				l.add(u.LogRec(uint64(t.Space), 300))
			}
			return seedLog(dictOf(t), l.files(0), "--DBName=shop")
		},
		"wide-table": func() Seed {
			cs := []Col{col("id", IntT(4, false))}
			r := Row{int64(1)}
			for i := 1; i < 300; i++ {
				cs = append(cs, ncol(fmt.Sprintf("c%03d", i), IntT(1+i*2/300, false)))
				r = append(r, int64(i%100))
			}
			return rows(tableOf("shop", "orders", 40, cs...), false, false, r)
		},
	}
}

func lobSeed(f lobFmt) Seed {
	t := usual()
	t.Redundant = f.red
	pages := map[uint32][]byte{}
	var rows []Row
	for k := 0; k < 3; k++ {
		l := &Lob{B: lobBytes(f.local+LobCap*k+700, k), Local: f.local}
		var nos []uint32
		for i := 0; i <= k; i++ {
			nos = append(nos, uint32(10-3*i-k))
		}
		l.Place(t.Space, nos, 0, pages)
		rows = append(rows, Row{int64(k), l, int64(7 * k)})
	}
	rows = append(rows, Row{int64(9), bs("short"), nil})
	return seedData(t, lobFile(t, rows, false, pages), false)
}
