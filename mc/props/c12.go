package props

import (
	"fmt"
	"strings"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// One call on a long-lived parser.
type histOp struct {
	name string
	// run does the call and checks its own output.
	run func(e *eng.Env, p *ibdata.Parse) *eng.Fail
}

func c12(th bool) []*eng.Space {
	ts := dictTables()
	dict := MakeDict(ts...).Image(DictLayout{})
	nul := damageTable(false)
	nul.DB, nul.Name, nul.TableID, nul.IndexID, nul.Space = "n", "n", 70, 270, 70
	red := damageTable(true)
	red.DB, red.Name, red.TableID, red.IndexID, red.Space = "n", "r", 72, 280, 72
	dict = MakeDict(append(append([]*Table{}, ts...), nul, red)...).Image(DictLayout{})
	rowsOf := func(t *Table) []Row {
		if t == nul || t == red {
			return []Row{damageRow(1), damageRow(2), damageRow(3), damageRow(4)}
		}
		return dictRows(t)
	}
	call := func(e *eng.Env, p *ibdata.Parse, t *Table, data []byte, rec bool) eng.Out {
		tp := e.File(fmt.Sprintf("%s.%s-%v.ibd", t.DB, t.Name, rec), data)
		return e.Capture(func() error { return p.ParseDataPage(tp, t.DB, t.Name, rec) })
	}
	dumpOp := func(t *Table) histOp {
		data := oneLeaf(t, rowsOf(t))
		return histOp{"dump " + t.DB + "." + t.Name, func(e *eng.Env, p *ibdata.Parse) *eng.Fail {
			return checkRows(t, rowsOf(t), call(e, p, t, data, false))
		}}
	}
	recOp := func(t *Table) histOp {
		data := deletedLeaf(t, rowsOf(t)[:2], rowsOf(t)[2:])
		return histOp{"recover " + t.DB + "." + t.Name, func(e *eng.Env, p *ibdata.Parse) *eng.Fail {
			return checkRows(t, rowsOf(t)[:2], call(e, p, t, data, true))
		}}
	}
	var ops []histOp
	for _, t := range append(append([]*Table{}, ts...), nul, red) {
		ops = append(ops, dumpOp(t), recOp(t))
	}
	ops = append(ops,
		histOp{"dump of a missing file", func(e *eng.Env, p *ibdata.Parse) *eng.Fail {
			o := e.Capture(func() error { return p.ParseDataPage(e.Dir+"/does-not-exist", "a", "t", false) })
			if o.Panic != "" || o.Err == nil || o.Text != "" {
				return eng.Failf("missing-file", "dump of a missing file: err=%v panic=%s output=%.200s", o.Err, o.Panic, o.Text)
			}
			return nil
		}},
		histOp{"dump of an unknown table", func(e *eng.Env, p *ibdata.Parse) *eng.Fail {
			tp := e.File("x.ibd", oneLeaf(ts[0], dictRows(ts[0])))
			o := e.Capture(func() error { return p.ParseDataPage(tp, "a", "nope", false) })
			if o.Panic != "" || o.Err == nil || o.Text != "" {
				return eng.Failf("unknown-table", "dump of an unknown table: err=%v panic=%s output=%.200s", o.Err, o.Panic, o.Text)
			}
			return nil
		}},
		histOp{"dump of a damaged file", func(e *eng.Env, p *ibdata.Parse) *eng.Fail {
			pages, intact := damagePages(nul, false)
			for i := 100; i < 400; i++ {
				pages[4][i] ^= 0x5a
			}
			return checkContained(nul, intact, 1, call(e, p, nul, Tablespace(nul.Space, pages), false))
		}},
		histOp{"reading the same dictionary again", func(e *eng.Env, p *ibdata.Parse) *eng.Fail {
			dp := e.File("ibdata1", dict)
			o := e.Capture(func() error { return p.ParseDictPage(dp) })
			if o.Panic != "" || o.Err != nil {
				return eng.Failf("dict-again", "reading the dictionary again: err=%v panic=%s", o.Err, o.Panic)
			}
			return nil
		}},
		histOp{"another parser at work", func(e *eng.Env, p *ibdata.Parse) *eng.Fail {
			other := tableOf("a", "t", 40, col("zz", VarcharUtf8(30)))
			return checkRows(other, []Row{{bs("z1")}, {bs("z2")}}, dump(e, dictOf(other), oneLeaf(other, []Row{{bs("z1")}, {bs("z2")}}), "a", "t", false))
		}},
	)
	depth := 3
	if th {
		depth = 4
	}
	sp := []*eng.Space{{
		Name: "data-histories",
		Rule: fmt.Sprintf("every sequence of 1..%d of %d calls (dumps and recoveries of five tables, missing, unknown, damaged, dictionary again, another parser) on one parser: each gives what a fresh one gives", depth, len(ops)),
		Body: func(c *eng.Chooser) *eng.Case {
			n := 1 + c.Pick(depth)
			var seq []int
			for i := 0; i < n; i++ {
				seq = append(seq, c.Pick(len(ops)))
			}
			title := func() string {
				var s []string
				for _, k := range seq {
					s = append(s, ops[k].name)
				}
				return strings.Join(s, "; ")
			}
			return &eng.Case{Title: title, Run: func(e *eng.Env) *eng.Fail {
				dp := e.File("ibdata1", dict)
				p := ibdata.NewParse()
				if o := e.Capture(func() error { return p.ParseDictPage(dp) }); o.Err != nil || o.Panic != "" {
					return eng.Failf("dict", "dictionary: %v %s", o.Err, o.Panic)
				}
				for i, k := range seq {
					if f := ops[k].run(e, p); f != nil {
						f.Msg = fmt.Sprintf("call %d (%s): %s", i+1, ops[k].name, f.Msg)
						return f
					}
				}
				return nil
			}}
		},
	}}
	// the same paths with other contents
	type version struct {
		t    *Table
		rows []Row
	}
	var vers []version
	for i, cs := range [][]Col{
		{col("id", IntT(4, false)), ncol("v", VarcharUtf8(20))},
		{ncol("v", VarcharUtf8(20)), col("id", IntT(4, false)), ncol("w", VarcharUtf8(20))},
		{col("id", VarcharUtf8(20)), col("v", IntT(2, true))},
	} {
		t := tableOf("d", "t", uint64(40+i%2), cs...)
		if i == 1 {
			t.Key = []int{1}
		}
		var rows []Row
		for k := 0; k < 2; k++ {
			r := make(Row, len(cs))
			for j, c := range cs {
				switch {
				case c.T.MType == DataVarMySQL:
					r[j] = []byte(fmt.Sprintf("v%d.%d.%d", i, j, k))
				case c.T.Fixed == 4:
					r[j] = int64(100*i + 10*j + k)
				default:
					r[j] = uint64(100*i + 10*j + k)
				}
			}
			rows = append(rows, r)
		}
		vers = append(vers, version{t, rows})
	}
	fdepth := 3
	if th {
		fdepth = 4
	}
	sp = append(sp, &eng.Space{
		Name: "replaced-files",
		Rule: fmt.Sprintf("every sequence of 2..%d runs (dump, recovery, redo log) with fresh parsers over the same paths, where dictionary, data and log are those of one of %d versions of the table each time", fdepth, len(vers)),
		Body: func(c *eng.Chooser) *eng.Case {
			n := 2 + c.Pick(fdepth-1)
			var what, ver []int
			for i := 0; i < n; i++ {
				what = append(what, c.Pick(3))
				ver = append(ver, c.Pick(len(vers)))
			}
			return &eng.Case{Title: func() string {
				s := ""
				for i := range what {
					s += fmt.Sprintf("%s of version %d; ", []string{"dump", "recovery", "redo"}[what[i]], ver[i])
				}
				return s
			}, Run: func(e *eng.Env) *eng.Fail {
				for i := range what {
					v := vers[ver[i]]
					var f *eng.Fail
					switch what[i] {
					case 0:
						f = checkRows(v.t, v.rows, dump(e, dictOf(v.t), oneLeaf(v.t, v.rows), "d", "t", false))
					case 1:
						f = checkRows(v.t, v.rows[:1], dump(e, dictOf(v.t), deletedLeaf(v.t, v.rows[:1], v.rows[1:]), "d", "t", true))
					case 2:
						ch := 1
						if v.t.Key[0] == 1 {
							ch = 0
						}
						l := newLog().add(undoUpd(v.t, v.rows[0], ch).LogRec(7, 300))
						f = checkUpds([]Upd{{v.t, []int{ch}, v.rows[0]}}, redoLogs(e, dictOf(v.t), l.files(0), "", ""))
					}
					if f != nil {
						f.Msg = fmt.Sprintf("run %d: %s", i+1, f.Msg)
						return f
					}
				}
				return nil
			}}
		},
	})
	extra := tableOf("d", "u", 44, col("k", IntT(8, false)), ncol("x", VarcharUtf8(20)))
	xrows := []Row{{int64(5), bs("five")}, {int64(6), nil}}
	sp = append(sp, &eng.Space{
		Name: "dictionary-changes",
		Rule: fmt.Sprintf("every sequence of 1..%d dictionaries read by one parser (%d versions of a table, with and without a second table, some rows delete-marked): the tables of the last one are dumped and recovered, those it does not have are unknown", fdepth+1, len(vers)),
		Body: func(c *eng.Chooser) *eng.Case {
			n := 1 + c.Pick(fdepth+1)
			var ver []int
			var with []bool
			for i := 0; i < n; i++ {
				ver = append(ver, c.Pick(len(vers)+1))
				with = append(with, c.Bool())
			}
			gone := c.Bool() // the last dictionary has delete-marked rows of what it does not have
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("dictionaries of versions %v (%d: without the table), second table in them: %v, delete-marked rows in the last: %v", ver, len(vers), with, gone)
			}, Run: func(e *eng.Env) *eng.Fail {
				p := ibdata.NewParse()
				for i := range ver {
					var ts []*Table
					if ver[i] < len(vers) {
						ts = append(ts, vers[ver[i]].t)
					}
					if with[i] {
						ts = append(ts, extra)
					}
					d := MakeDict(ts...)
					if gone && i == n-1 && i > 0 {
						var old []*Table
						if ver[i] == len(vers) && ver[i-1] < len(vers) {
							old = append(old, vers[ver[i-1]].t)
						}
						if !with[i] && with[i-1] {
							old = append(old, extra)
						}
						for _, t := range old {
							for k := 1; k < 4; k++ { // without its row in SYS_TABLES
								d.AddDead(k, MakeDict(t).Rows[k])
							}
						}
					}
					dp := e.File("ibdata1", d.Image(DictLayout{}))
					if o := e.Capture(func() error { return p.ParseDictPage(dp) }); o.Err != nil || o.Panic != "" {
						return eng.Failf("dict", "dictionary %d: %v %s", i+1, o.Err, o.Panic)
					}
				}
				known := func(t *Table, rows []Row, has bool, rec bool) *eng.Fail {
					data := oneLeaf(t, rows)
					if rec {
						data = deletedLeaf(t, rows, nil)
					}
					o := call(e, p, t, data, rec)
					e.Outcome(o.Text)
					if has {
						return checkRows(t, rows, o)
					}
					if o.Panic != "" || o.Err == nil || o.Text != "" {
						return eng.Failf("stale-table", "the last dictionary has no table %s.%s: err=%v panic=%s output=%.200s", t.DB, t.Name, o.Err, o.Panic, o.Text)
					}
					return nil
				}
				last := ver[n-1]
				v := vers[last%len(vers)]
				for _, rec := range []bool{false, true} {
					if f := known(v.t, v.rows, last < len(vers), rec); f != nil {
						return f
					}
					if f := known(extra, xrows, with[n-1], rec); f != nil {
						return f
					}
				}
				return nil
			}}
		},
	})
	sp = append(sp, againstFresh(depth))
	// redo parsers
	st := sentinelTable()
	kt := tableOf("d", "t", 40, ncol("v", VarcharUtf8(20)), ncol("b", VarbinaryT(20)), col("id", IntT(4, false)), col("j", VarbinaryT(8)))
	kt.Key = []int{3, 2}
	rdict := dictOf(kt, st)
	type rop struct {
		name string
		l    *logb
		want []Upd
	}
	mk := func(name string, us ...Upd) rop {
		l := newLog()
		for _, u := range us {
			l.add(undoUpd(u.T, u.Old, u.Changed...).LogRec(7, 300))
		}
		return rop{name, l, us}
	}
	row := func(v, b Val, id int, j string) Row { return Row{v, b, int64(id), bs(j)} }
	_, s1 := sentinel(st, 1)
	_, s2 := sentinel(st, 2)
	rops := []rop{
		mk("one update", Upd{kt, []int{0, 1}, row(bs("x"), bs("\x00'"), 1, "k")}),
		mk("the same row twice", Upd{kt, []int{0}, row(bs("y"), nil, 1, "k")}, Upd{kt, []int{1}, row(nil, bs("q"), 1, "k")}),
		mk("NULL after a value", Upd{kt, []int{0, 1}, row(bs("x"), bs("z"), 2, "k\x00")}, Upd{kt, []int{0, 1}, row(nil, nil, 3, "")}),
		mk("two tables", s1, Upd{kt, []int{1}, row(nil, bs("w"), 4, "m")}, s2),
		mk("no update"),
	}
	broken := undoUpd(kt, row(bs("x"), bs("y"), 1, "k"), 0, 1)
	bb := broken.Body()
	bb = bb[:len(bb)-2]
	bl := newLog().add(Log(MUndoInsert, 7, 300, b2(len(bb)), bb))
	rops = append(rops, rop{"a damaged update", bl, nil})
	sp = append(sp, &eng.Space{
		Name: "redo-histories",
		Rule: fmt.Sprintf("every sequence of 1..%d logs (of %d) read by one redo parser: each gives the statements of that log", depth, len(rops)),
		Body: func(c *eng.Chooser) *eng.Case {
			n := 1 + c.Pick(depth)
			var seq []int
			for i := 0; i < n; i++ {
				seq = append(seq, c.Pick(len(rops)))
			}
			again := c.Bool()
			return &eng.Case{Title: func() string {
				var s []string
				for _, k := range seq {
					s = append(s, rops[k].name)
				}
				return fmt.Sprintf("%s; dictionary read each time=%v", strings.Join(s, "; "), again)
			}, Run: func(e *eng.Env) *eng.Fail {
				dp := e.File("ibdata1", rdict)
				p := redo.NewParse("", "")
				for i, k := range seq {
					lp := e.File("ib_logfile0", rops[k].l.files(0)[0])
					o := e.Capture(func() error {
						if i == 0 || again {
							if err := p.ParseDictPage(dp); err != nil {
								return err
							}
						}
						return p.ParseRedoLogs([]string{lp})
					})
					e.Outcome(o.Text)
					if f := checkUpds(rops[k].want, o); f != nil {
						f.Msg = fmt.Sprintf("log %d (%s): %s", i+1, rops[k].name, f.Msg)
						return f
					}
				}
				return nil
			}}
		},
	})
	return sp
}

// againstFresh: every sequence of calls, whatever the inputs are, gives what a fresh parser gives.
func againstFresh(depth int) *eng.Space {
	// two versions of a set of tables of all kinds
	tables := func(v int) []*Table {
		lob := tableOf("d", "lob", 40, col("id", IntT(4, false)), ncol("a", TextT(2)), ncol("b", VarcharUtf8(20)))
		virt := tableOf("d", "virt", 41, Col{Name: "v", T: IntT(4, false), Virtual: true, Nullable: true}, col("id", IntT(4, false)), Col{Name: "w", T: VarcharUtf8(9), Virtual: true}, ncol("b", VarcharUtf8(20)))
		virt.Key = []int{1}
		fts := tableOf("d", "fts", 42, col("id", IntT(4, false)), ncol("t", TextT(2)))
		addHidden(fts)
		pre := tableOf("d", "pre", 43, ncol("n", IntT(4, false)), col("c", VarcharUtf8(90)), col("x", BinaryT(6)))
		pre.Key, pre.Prefix = []int{1}, []int{5}
		red := tableOf("d", "red", 44, col("id", IntT(4, false)), ncol("b", BinaryT(4)), ncol("e", IntT(2, false)))
		red.Redundant = true
		if v == 1 { // other definitions, some with the names and ids of others
			lob.Cols[1] = ncol("a", VarcharUtf8(20))
			fts.Cols, fts.Sec = fts.Cols[:2], nil
			pre.Prefix = nil
			red.Cols[1], red.Cols[2] = red.Cols[2], red.Cols[1]
			return []*Table{lob, fts, pre, red}
		}
		return []*Table{lob, virt, fts, pre, red}
	}
	mkRows := func(t *Table, n int) (rows []Row) {
		for k := 0; k < n; k++ {
			r := make(Row, len(t.Cols))
			for i, c := range t.Cols {
				switch {
				case c.Virtual || c.Nullable && (i+k)%3 == 0:
				case c.Hidden:
					r[i] = uint64(100 + k)
				case c.T.MType == DataInt:
					r[i] = int64(10*i + k)
				case c.T.Fixed > 0:
					r[i] = []byte("\x01binary"[:c.T.Fixed])
				default:
					r[i] = []byte(fmt.Sprintf("text %d of column %d", k, i))
				}
			}
			rows = append(rows, r)
		}
		return
	}
	type op struct {
		name   string
		dict   []byte
		data   []byte
		table  string
		rec    bool
		inRedo bool
	}
	var ops []op
	for v := 0; v < 2; v++ {
		ts := tables(v)
		ops = append(ops, op{name: fmt.Sprintf("dictionary %d", v), dict: dictOf(ts...)})
		l := newLog()
		for _, t := range ts {
			rows := mkRows(t, 3)
			if t.Name == "lob" && v == 0 {
				lo := &Lob{B: lobBytes(30000, 1), Local: 768}
				pages := map[uint32][]byte{}
				lo.Place(t.Space, []uint32{4, 5}, 0, pages)
				rows[1][1] = lo
				ops = append(ops, op{name: "long value", data: lobFile(t, rows, false, pages), table: t.Name})
				less := map[uint32][]byte{4: pages[4]}
				ops = append(ops, op{name: "long value with its last page missing", data: lobFile(t, rows, false, less), table: t.Name})
				ops = append(ops, op{name: "long value with all its pages missing", data: lobFile(t, rows, true, map[uint32][]byte{}), table: t.Name, rec: true})
				continue
			}
			ops = append(ops, op{name: fmt.Sprintf("dump of %s %d", t.Name, v), data: oneLeaf(t, rows), table: t.Name})
			if v == 0 {
				ops = append(ops, op{name: "recovery of " + t.Name, data: deletedLeaf(t, rows[:2], rows[2:]), table: t.Name, rec: true})
			}
			if t.Name != "virt" {
				l.add(undoUpd(t, rows[0], 1).LogRec(7, 300))
			}
		}
		if v == 0 {
			ops = append(ops, op{name: "redo log", dict: dictOf(ts...), data: l.files(0)[0], inRedo: true})
			cut := dictOf(ts...)
			ops = append(ops, op{name: "a dictionary that is cut", dict: cut[:8*PageSize+100]})
			wild := oneLeaf(ts[2], mkRows(ts[2], 3))
			for i := 3*PageSize + 120; i < 3*PageSize+200; i++ {
				wild[i] ^= 0x55
			}
			ops = append(ops, op{name: "a damaged file", data: wild, table: ts[2].Name})
		}
	}
	do := func(e *eng.Env, p *ibdata.Parse, o op) string {
		out := e.Capture(func() error {
			switch {
			case o.inRedo:
				r := redo.NewParse("", "")
				if err := r.ParseDictPage(e.File("rdict", o.dict)); err != nil {
					return err
				}
				return r.ParseRedoLogs([]string{e.File("ib_logfile0", o.data)})
			case o.dict != nil:
				return p.ParseDictPage(e.File("ibdata1", o.dict))
			}
			return p.ParseDataPage(e.File("t.ibd", o.data), "d", o.table, o.rec)
		})
		return fmt.Sprintf("error=%v panic=%v\n%s", out.Err != nil, out.Panic != "", out.Text)
	}
	return &eng.Space{
		Name: "against-fresh",
		Rule: fmt.Sprintf("every sequence of 1..%d of %d calls (two dictionaries and a cut one, tables with long values whose pages are there, partly there or missing, virtual and hidden columns, prefix keys, REDUNDANT, damaged pages, a redo log) on a parser: the last one gives what it gives on a parser that has read the same dictionary only", depth, len(ops)),
		Body: func(c *eng.Chooser) *eng.Case {
			n := 1 + c.Pick(depth)
			var seq []int
			for i := 0; i < n; i++ {
				seq = append(seq, c.Pick(len(ops)))
			}
			return &eng.Case{Title: func() string {
				var s []string
				for _, k := range seq {
					s = append(s, ops[k].name)
				}
				return strings.Join(s, "; ")
			}, Run: func(e *eng.Env) *eng.Fail {
				p, last := ibdata.NewParse(), 0
				do(e, p, ops[0])
				var got string
				for i, k := range seq {
					got = do(e, p, ops[k])
					if ops[k].dict != nil && !ops[k].inRedo && i+1 < n {
						last = k
					}
				}
				fresh := ibdata.NewParse()
				do(e, fresh, ops[last])
				want := do(e, fresh, ops[seq[n-1]])
				e.Outcome(got)
				if got != want {
					return eng.Failf("differs", "the last call gives %.300q, with a fresh parser %.300q", got, want)
				}
				return nil
			}}
		},
	}
}

func init() {
	eng.Register(&eng.Check{ID: "C12", Title: "independence of earlier calls", Level: "model_checking", Spaces: c12})
}
