package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	. "verif/mc/innodb"
	"verif/mc/sqlp"
)

// checkDamagedLog: no crash; the output is SQL for known tables; it starts with the statements of must
// (those before the damage), ends with those of after (unaffected ones behind it, nil: unknown) and has at
// most extra others.
func checkDamagedLog(ts []*Table, must, after []Upd, extra int, o eng.Out) *eng.Fail {
	if o.Panic != "" {
		return eng.Failf("panic", "the tool panicked: %s", o.Panic)
	}
	ss, err := sqlp.Parse(o.Text)
	if err != nil {
		return eng.Failf("not-sql", "the output is not SQL: %v\noutput: %.600s", err, o.Text)
	}
	if n := len(must) + len(after) + extra; len(ss) > n {
		return eng.Failf("flood", "%d statements, at most %d are possible", len(ss), n)
	}
	for _, s := range ss {
		ok := false
		for _, t := range ts {
			if s.Verb == "update" && s.DB == t.DB && s.Table == t.Name {
				ok = true
				for _, a := range append(append([]sqlp.Assign{}, s.Set...), s.Where...) {
					if !hasColumn(t, a.Col) {
						return eng.Failf("column", "statement %s names a column that table %s.%s does not have", stmtText(s), t.DB, t.Name)
					}
				}
			}
		}
		if !ok {
			return eng.Failf("statement", "statement %s is for no table of the dictionary", stmtText(s))
		}
	}
	if len(ss) < len(must)+len(after) {
		return eng.Failf("missing-statement", "%d statements, expected at least %s", len(ss), updsText(append(append([]Upd{}, must...), after...)))
	}
	for i, w := range must {
		if m := matchUpd(w, ss[i]); m != "" {
			return eng.Failf("wrong-statement", "statement %d, before the damage, is %s; %s; expected %s", i, stmtText(ss[i]), m, updText(w))
		}
	}
	for i, w := range after {
		s := ss[len(ss)-len(after)+i]
		if m := matchUpd(w, s); m != "" {
			return eng.Failf("wrong-statement", "the statement of an undamaged record is %s; %s; expected %s", stmtText(s), m, updText(w))
		}
	}
	return nil
}

func hasColumn(t *Table, name string) bool {
	for _, c := range t.Cols {
		if strings.EqualFold(c.Name, name) {
			return true
		}
	}
	// the hidden columns have positions in the record too
	return name == "DB_ROW_ID" || name == "DB_TRX_ID" || name == "DB_ROLL_PTR"
}

func c17(th bool) []*eng.Space {
	st := sentinelTable()
	big := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("a", VarcharUtf8(20)), ncol("b", DateTimeT()), ncol("c", BitT(3)), ncol("e", BlobT(2)),
		ncol("f", IntT(8, true)), ncol("g", DoubleT()), ncol("h", StampT()), ncol("i", DateT(true)), ncol("j", TimeT()), ncol("k", YearT()), ncol("l", BinaryT(6)), col("k2", VarcharLatin1(30)))
	big.Key = []int{12, 0}
	nokey := tableOf("d", "nk", 60, col("id", IntT(4, false)), ncol("a", VarcharUtf8(20)))
	nokey.Cluster = RowID
	ts := []*Table{st, big, nokey}
	dict := dictOf(ts...)
	old := Row{int64(77), []byte("it's"), DateTime{2020, 2, 29, 23, 59, 58, 0}, uint64(0x10203), []byte{0, 1, 0xff}, uint64(1) << 60, 1.5, Stamp(1600000000),
		Date{1999, 12, 31}, Clock{true, 100, 59, 59, 0}, uint64(2021), []byte("bin"), []byte("key")}
	nulls := append(Row{}, old...)
	for i := 1; i < 12; i += 2 {
		nulls[i] = nil
	}
	all := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
	type vic struct {
		name string
		u    *Undo
		w    Upd
	}
	vics := []vic{
		{"update of every column", undoUpd(big, old, all...), Upd{T: big, Changed: all, Old: old}},
		{"update of every column with NULLs", undoUpd(big, nulls, all...), Upd{T: big, Changed: all, Old: nulls}},
		{"update of a table without key", undoUpd(nokey, Row{int64(1), []byte("abc")}, 0, 1), Upd{T: nokey, Changed: []int{0, 1}, Old: Row{int64(1), []byte("abc")}}},
	}
	for _, ty := range []int{UndoInsertRec, UndoUpdDel, UndoDelMark} {
		u := undoUpd(big, old, 1, 2)
		u.Type = ty
		vics = append(vics, vic{name: fmt.Sprintf("undo record of type %d", ty), u: u})
	}
	// three records; the middle one is handed to hurt as a whole (type byte ... end)
	three := func(mid []byte) (*logb, []Upd, int, int) {
		s0, w0 := sentinel(st, 1)
		s1, w1 := sentinel(st, 2)
		l := newLog().add(s0.LogRec(7, 300))
		lo := len(l.b)
		l.add(mid)
		hi := len(l.b)
		l.add(s1.LogRec(7, 300))
		return l, []Upd{w0, w1}, lo, hi
	}
	vals := []func(b byte) byte{func(b byte) byte { return 0 }, func(b byte) byte { return 0xff }, func(b byte) byte { return b + 1 }, func(b byte) byte { return b - 1 },
		func(b byte) byte { return b ^ 0x80 }, func(b byte) byte { return b ^ 0x40 }, func(b byte) byte { return ^b }, func(b byte) byte { return 0xf0 }, func(b byte) byte { return 0x7f }}
	nv := 256
	hurt1 := func(b byte, v int) byte { return byte(v) }
	few := len(vals)
	hurtF := func(b byte, v int) byte { return vals[v](b) }
	if th {
		few, hurtF = 256, hurt1
	}
	recs := logVariants(th)
	one := oneOfEach(logVariants(false))
	sp := []*eng.Space{
		{
			Name: "undo-record-byte",
			Rule: "every byte inside an undo record (after its length) set to every value, for 6 kinds of undo records: the updates before and after it are printed as they are",
			Body: func(c *eng.Chooser) *eng.Case {
				v := vics[c.Pick(len(vics))]
				body := v.u.Body()
				at := c.Pick(len(body))
				x := c.Pick(nv)
				return &eng.Case{Title: func() string { return fmt.Sprintf("%s, byte %d of the undo record set to %#x", v.name, at, x) }, Run: func(e *eng.Env) *eng.Fail {
					b := append([]byte{}, body...)
					b[at] = byte(x)
					l, w, _, _ := three(Log(MUndoInsert, 7, 300, b2(len(b)), b))
					o := redoLogs(e, dict, l.files(0), "", "")
					e.Outcome(o.Text)
					return checkDamagedLog(ts, w[:1], w[1:], 1, o)
				}}
			},
		},
		{
			Name: "undo-record-cut",
			Rule: "undo records cut to every length, with the length adjusted (the rest of the record is missing), or replaced by every fill byte: the updates before and after are printed, and no statement for the cut one unless its columns are complete",
			Body: func(c *eng.Chooser) *eng.Case {
				v := vics[c.Pick(len(vics))]
				body := v.u.Body()
				n := c.Pick(len(body))
				fill := c.Pick(4)
				return &eng.Case{Title: func() string { return fmt.Sprintf("%s, cut to %d of %d bytes (fill %d)", v.name, n, len(body), fill) }, Run: func(e *eng.Env) *eng.Fail {
					b := append([]byte{}, body[:n]...)
					if fill > 0 {
						for i := n; i < len(body); i++ {
							b = append(b, []byte{0, 0, 0xff, 0x14}[fill])
						}
					}
					l, w, _, _ := three(Log(MUndoInsert, 7, 300, b2(len(b)), b))
					o := redoLogs(e, dict, l.files(0), "", "")
					e.Outcome(o.Text)
					ex := 1
					if fill == 0 {
						ex = 0
					}
					return checkDamagedLog(ts, w[:1], w[1:], ex, o)
				}}
			},
		},
		{
			Name: "undo-unknown-column",
			Rule: "an update record that names a column position the dictionary does not have (every position 0..300 and boundaries): the updates before and after are printed",
			Body: func(c *eng.Chooser) *eng.Case {
				p := uint64(c.Pick(310))
				if p > 300 {
					p = []uint64{0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0x80000000, 0xfffffffe, 0xffffffff}[p-301]
				}
				t := []*Table{big, nokey, st}[c.Pick(3)]
				return &eng.Case{Title: func() string { return fmt.Sprintf("column position %d of table %s", p, t.Name) }, Run: func(e *eng.Env) *eng.Fail {
					r := Row(nil)
					switch t {
					case big:
						r = old
					default:
						r = Row{int64(1), []byte("x"), int64(2)}[:len(t.Cols)]
					}
					u := undoUpd(t, r)
					u.RawPos = []uint64{p}
					l, w, _, _ := three(u.LogRec(7, 300))
					o := redoLogs(e, dict, l.files(0), "", "")
					e.Outcome(o.Text)
					return checkDamagedLog(ts, w[:1], w[1:], 1, o)
				}}
			},
		},
		{
			Name: "log-ends",
			Rule: fmt.Sprintf("the log ends inside its last record, at every byte of %d records (all types and parameters): everything before is printed and nothing else", len(recs)+len(vics)),
			Body: func(c *eng.Chooser) *eng.Case {
				k := c.Pick(len(recs) + len(vics))
				var r []byte
				name := ""
				if k < len(recs) {
					r, name = recs[k].bytes(false, 40, 300), recs[k].name
				} else {
					v := vics[k-len(recs)]
					r, name = v.u.LogRec(7, 300), v.name
				}
				m := len(r)
				if m > 320 && !th {
					m = 320
				}
				n := c.Pick(m)
				return &eng.Case{Title: func() string { return fmt.Sprintf("log ends after %d of %d bytes of %s", n, len(r), name) }, Run: func(e *eng.Env) *eng.Fail {
					s0, w0 := sentinel(st, 1)
					l := newLog().add(s0.LogRec(7, 300)).add(r[:n])
					o := redoLogs(e, dict, l.files(0), "", "")
					e.Outcome(fmt.Sprint(o.Err))
					return checkDamagedLog(ts, []Upd{w0}, nil, 0, o)
				}}
			},
		},
		{
			Name: "file-cut",
			Rule: "the log file cut at every byte, 0..5120, and a second file that follows: updates of the complete blocks are printed, nothing is invented",
			Body: func(c *eng.Chooser) *eng.Case {
				n := c.Pick(2048 + 6*512)
				per := c.Pick(2)
				return &eng.Case{Title: func() string { return fmt.Sprintf("log file cut to %d bytes; first of two files=%v", n, per == 1) }, Run: func(e *eng.Env) *eng.Fail {
					l := newLog()
					var ws []Upd
					var ends []int
					for k := 0; k < 40; k++ {
						s, w := sentinel(st, k+1)
						l.add(s.LogRec(7, 300))
						ws = append(ws, w)
						ends = append(ends, len(l.b))
					}
					fs := l.files(0)
					if n > len(fs[0]) {
						n = len(fs[0])
					}
					whole := (n - 2048) / 512 * 496
					must := 0
					for must < len(ends) && n >= 2048 && ends[must] <= whole {
						must++
					}
					files := [][]byte{fs[0][:n]}
					if per == 1 {
						files = append(files, newLog().files(0)[0])
					}
					o := redoLogs(e, dict, files, "", "")
					e.Outcome(fmt.Sprint(o.Err, len(o.Text)))
					may := must // updates whose bytes are all in the file
					if rest := (n-2048)%512 - 12; n >= 2048 && rest > 0 {
						for may < len(ends) && ends[may] <= whole+rest {
							may++
						}
					}
					for ; may > must; may-- {
						if checkDamagedLog(ts, ws[:may], nil, 0, o) == nil {
							return nil
						}
					}
					return checkDamagedLog(ts, ws[:must], nil, 0, o)
				}}
			},
		},
		{
			Name: "last-file-cut",
			Rule: "two and three log files, the last one cut to every size of 1..4096 bytes: the updates that are whole in the files before and in its complete blocks are printed, nothing is invented",
			Body: func(c *eng.Chooser) *eng.Case {
				n := 1 + c.Pick(4096)
				nf := 2 + c.Pick(2)
				return &eng.Case{Title: func() string { return fmt.Sprintf("file %d cut to %d bytes", nf, n) }, Run: func(e *eng.Env) *eng.Fail {
					l := newLog()
					var ws []Upd
					var ends []int
					for k := 0; k < 80; k++ {
						s, w := sentinel(st, k+1)
						l.add(s.LogRec(7, 300))
						ws = append(ws, w)
						ends = append(ends, len(l.b))
					}
					fs := l.files((len(l.b) + 496*nf - 1) / 496 / nf)
					if n > len(fs[nf-1]) {
						n = len(fs[nf-1])
					}
					at := 0 // bytes of the stream that are there, and those of the block that is cut
					for _, f := range fs[:nf-1] {
						at += (len(f) - 2048) / 512 * 496
					}
					may := at
					if n > 2048 {
						at += (n - 2048) / 512 * 496
						may = at + (n-2048)%512
					}
					files := append(append([][]byte{}, fs[:nf-1]...), fs[nf-1][:n])
					o := redoLogs(e, dict, files, "", "")
					e.Outcome(fmt.Sprint(o.Err, len(o.Text)))
					must := 0
					for must < len(ends) && ends[must] <= at {
						must++
					}
					for k := must; k < len(ends) && ends[k] <= may; k++ {
						if checkDamagedLog(ts, ws[:k+1], nil, 0, o) == nil {
							return nil
						}
					}
					return checkDamagedLog(ts, ws[:must], nil, 0, o)
				}}
			},
		},
		{
			Name: "file-header",
			Rule: fmt.Sprintf("every byte of the file header and the checkpoint blocks set to %d values; the creator field filled with every byte: the output does not change", few),
			Body: func(c *eng.Chooser) *eng.Case {
				at := c.Pick(2049)
				x := 0
				if at == 2048 {
					x = c.Pick(256)
				} else {
					x = c.Pick(few)
				}
				return &eng.Case{Title: func() string {
					if at == 2048 {
						return fmt.Sprintf("creator filled with %#x", x)
					}
					return fmt.Sprintf("byte %d of the log file, damage %d", at, x)
				}, Run: func(e *eng.Env) *eng.Fail {
					s, w := sentinel(st, 1)
					f := newLog().add(s.LogRec(7, 300)).files(0)[0]
					if at == 2048 {
						for i := 16; i < 512; i++ {
							f[i] = byte(x)
						}
					} else {
						f[at] = hurtF(f[at], x)
					}
					return checkUpds([]Upd{w}, redoLogs(e, dict, [][]byte{f}, "", ""))
				}}
			},
		},
		{
			Name: "block-header",
			Rule: "every data length 0..65535 in the header of the second of three blocks; every byte of the other header fields and of the trailer: no crash, and the updates of the first block are printed",
			Body: func(c *eng.Chooser) *eng.Case {
				x := c.Pick(65536 + 16*256)
				if !th && x < 65536 && x > 1100 && x%97 != 0 && x < 65000 {
					return nil
				}
				return &eng.Case{Title: func() string { return fmt.Sprintf("block header damage %d", x) }, Run: func(e *eng.Env) *eng.Fail {
					l := newLog()
					var ws []Upd
					first := 0
					for k := 0; k < 30; k++ {
						s, w := sentinel(st, k+1)
						l.add(s.LogRec(7, 300))
						ws = append(ws, w)
						if len(l.b) <= 496 {
							first++
						}
					}
					f := l.files(0)[0]
					b := f[2048+512 : 2048+1024]
					keep := true
					if x < 65536 {
						copy(b[4:], b2(x))
						keep = x >= 512
					} else {
						y := x - 65536
						at := []int{0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 508, 509, 510, 511, 508, 509}[y/256]
						b[at] = byte(y)
					}
					o := redoLogs(e, dict, [][]byte{f}, "", "")
					e.Outcome(fmt.Sprint(o.Err, len(o.Text)))
					if keep { // the number, checkpoint, checksum and first-record fields carry no log data
						if x >= 65536 {
							return checkUpds(ws, o)
						}
					}
					return checkDamagedLog(ts, ws[:first], nil, 200, o)
				}}
			},
		},
		{
			Name: "any-byte",
			Rule: fmt.Sprintf("every byte of a log of one record of each of %d types, updates in between, set to %d values: no crash, the output is SQL, the updates before the byte are printed", len(one), few),
			Body: func() func(c *eng.Chooser) *eng.Case {
				l := newLog()
				var ws []Upd
				var ends []int
				for k, r := range one {
					if len(r.body) > 600 {
						continue
					}
					l.add(r.bytes(true, 40, 4))
					s, w := sentinel(st, k+1)
					if k%3 == 0 {
						s, w = vics[0].u, vics[0].w
					}
					l.add(s.LogRec(7, 300))
					ws = append(ws, w)
					ends = append(ends, len(l.b))
				}
				fs := l.files(0)[0]
				return func(c *eng.Chooser) *eng.Case {
					at := c.Pick(len(l.b))
					x := c.Pick(few)
					return &eng.Case{Title: func() string { return fmt.Sprintf("byte %d of %d of the log, damage %d", at, len(l.b), x) }, Run: func(e *eng.Env) *eng.Fail {
						f := append([]byte{}, fs...)
						p := 2048 + at/496*512 + 12 + at%496
						f[p] = hurtF(f[p], x)
						must := 0
						for must < len(ends) && ends[must] <= at {
							must++
						}
						o := redoLogs(e, dict, [][]byte{f}, "", "")
						e.Outcome(fmt.Sprint(o.Err) + o.Text)
						return checkDamagedLog(ts, ws[:must], nil, 1000, o)
					}}
				}
			}(),
		},
	}
	return sp
}

func init() {
	eng.Register(&eng.Check{ID: "C17", Title: "damaged redo logs", Level: "model_checking", Spaces: c17})
}
