package props

import (
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// recVar is one redo log record: type, body, name.
type recVar struct {
	name string
	typ  byte
	raw  bool // the whole record is one type byte and the body (no space id, page number)
	body []byte
}

func (v recVar) bytes(single bool, space, page uint64) []byte {
	t := v.typ
	if v.raw {
		return append([]byte{t}, v.body...)
	}
	if single {
		t |= SingleRec
	}
	return Log(t, space, page, v.body)
}

func bcat(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

func b2(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func b4(n uint32) []byte {
	return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// noise: n bytes that look like the start of log records of every type.
func noise(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(seed + i*7)
		if i%3 == 0 {
			b[i] = []byte{MUndoInsert, 0xff, 0, MMultiEnd, 0x94, MCompInsert, 0x80, MWriteStr}[(i/3+seed)%8]
		}
	}
	return b
}

var ends32 = []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xffffffff}
var ends64 = []uint64{0, 1, 0x1503, 0xffffffff, 1 << 32, 0x7f00000001, 0x80_00000000, 0x3fff_ffffffff, 0x4000_00000000, 0xffff_ffffffff, 0x1fffff_00000000, 0x200000_00000000, 0xffffff_ffffffff}

func insertBody(short bool, seg int, extra bool, k int) []byte {
	var b []byte
	if !short {
		b = b2(99 + k)
	}
	x := uint64(seg) << 1
	if extra {
		x |= 1
	}
	b = append(b, Comp(x)...)
	if extra {
		b = bcat(b, []byte{0x32}, Comp(ends32[k%8]), Comp(ends32[(k+3)%8]))
	}
	return append(b, noise(seg, k)...)
}

func sysVals(pos, roll, trx uint64) []byte {
	return bcat(Comp(pos), []byte{byte(roll >> 48)}, []byte{byte(roll >> 40), byte(roll >> 32)}, b4(uint32(roll)), Comp64(trx))
}

// logVariants: every record type of the redo log with its boundary parameters.
func logVariants(th bool) []recVar {
	var o []recVar
	add := func(name string, typ byte, body ...[]byte) { o = append(o, recVar{name, typ, false, bcat(body...)}) }
	segs := []int{0, 1, 5, 31, 32, 63, 64, 127, 128, 300, 8191, 8192, 9000}
	idx := [][]byte{IndexInfo(1, 1), IndexInfo(4, 1), IndexInfo(7, 3), IndexInfo(100, 2)}
	if !th {
		idx = idx[1:3]
		segs = []int{0, 5, 63, 64, 300, 8192}
	}
	for _, v := range ends32 {
		add(fmt.Sprintf("1BYTE %#x", v), M1, b2(38), Comp(v))
		if th {
			add(fmt.Sprintf("2BYTES %#x", v), M2, b2(38), Comp(v))
		}
		add(fmt.Sprintf("4BYTES %#x", v), M4, b2(16376), Comp(v))
	}
	add("2BYTES", M2, b2(40), Comp(0x8123))
	for _, v := range ends64 {
		add(fmt.Sprintf("8BYTES %#x", v), M8, b2(66), Comp64(v))
		add(fmt.Sprintf("UNDO_HDR_CREATE %#x", v), MUndoCreate, Comp64(v))
		add(fmt.Sprintf("UNDO_HDR_REUSE %#x", v), MUndoReuse, Comp64(v))
	}
	for _, s := range segs {
		for _, x := range []bool{false, true} {
			add(fmt.Sprintf("REC_INSERT end segment %d, extra %v", s, x), MRecInsert, insertBody(false, s, x, s))
			for _, ix := range idx {
				add(fmt.Sprintf("COMP_REC_INSERT index %d, end segment %d, extra %v", len(ix), s, x), MCompInsert, ix, insertBody(false, s, x, s+1))
			}
		}
	}
	for _, tr := range ends64 {
		sv := sysVals(1, 0xa7000001200110, tr)
		add(fmt.Sprintf("REC_CLUST_DELETE_MARK trx %#x", tr), MClustDel, []byte{0, 1}, sv, b2(128))
		add(fmt.Sprintf("COMP_REC_CLUST_DELETE_MARK trx %#x", tr), MCompClust, idx[0], []byte{0, 1}, sv, b2(128))
	}
	add("REC_CLUST_DELETE_MARK position 200", MClustDel, []byte{2, 0}, sysVals(200, 0x8000000000000000>>8, 5), b2(16000))
	add("REC_SEC_DELETE_MARK", MSecDel, []byte{1}, b2(0x6b3))
	for _, ix := range idx {
		add(fmt.Sprintf("COMP_REC_SEC_DELETE_MARK index %d", len(ix)), MCompSec, ix, []byte{1}, b2(0x1414))
	}
	// updates in place: field lists with lengths at the boundaries, NULL fields
	fl := func(lens ...int) []byte {
		b := Comp(uint64(len(lens)))
		for i, n := range lens {
			b = append(b, Comp(uint64(i*40))...)
			if n < 0 {
				b = append(b, Comp(SQLNull)...)
				continue
			}
			b = bcat(b, Comp(uint64(n)), noise(n, i))
		}
		return b
	}
	for _, lens := range [][]int{{}, {0}, {1}, {4}, {127}, {128}, {300}, {8100}, {-1}, {4, -1}, {-1, 4}, {-1, -1, -1}, {20, -1, 0, 200}, {1, 2, 3, 4, 5, 6, 7, 8}} {
		for _, tr := range []uint64{0x1503, 0x80_00000000, 0xffff_ffffffff} {
			sv := sysVals(2, 0xa7000001200110, tr)
			add(fmt.Sprintf("REC_UPDATE_IN_PLACE fields %v trx %#x", lens, tr), MUpdInPlace, []byte{0}, sv, b2(128), []byte{0}, fl(lens...))
			add(fmt.Sprintf("COMP_REC_UPDATE_IN_PLACE fields %v trx %#x", lens, tr), MCompUpd, idx[0], []byte{3}, sv, b2(0x1400), []byte{0x20}, fl(lens...))
		}
	}
	for _, p := range []struct {
		n  string
		rd byte
		cp byte
	}{{"REC_DELETE", MRecDelete, MCompDelete}, {"LIST_END_DELETE", MListEndDel, MCompLEnd}, {"LIST_START_DELETE", MListStDel, MCompLStart}} {
		add(p.n, p.rd, b2(0x1414))
		for _, ix := range idx {
			add(fmt.Sprintf("COMP_%s index %d", p.n, len(ix)), p.cp, ix, b2(0x1414))
		}
	}
	for _, k := range []int{0, 1, 3} {
		var d []byte
		for i := 0; i < k; i++ {
			d = append(d, insertBody(true, 20+60*i, i != 1, i)...)
		}
		add(fmt.Sprintf("LIST_END_COPY_CREATED %d records", k), MListCopy, b4(uint32(len(d))), d)
		add(fmt.Sprintf("COMP_LIST_END_COPY_CREATED %d records", k), MCompLCopy, idx[0], b4(uint32(len(d))), d)
	}
	add("PAGE_REORGANIZE", MPageReorg)
	add("COMP_PAGE_REORGANIZE", MCompReorg, idx[1])
	add("ZIP_PAGE_REORGANIZE", MZipReorg, idx[1], []byte{6})
	add("PAGE_CREATE", MPageCreate)
	add("COMP_PAGE_CREATE", MCompCreate)
	add("PAGE_CREATE_RTREE", MRtree)
	add("COMP_PAGE_CREATE_RTREE", MCompRtree)
	add("UNDO_ERASE_END", MUndoErase)
	add("UNDO_HDR_DISCARD", MUndoDisc)
	for _, v := range []uint64{1, 2, 0x80} {
		add(fmt.Sprintf("UNDO_INIT %d", v), MUndoInit, Comp(v))
	}
	// descriptions of indexes of many columns
	for _, n := range []int{1, 17, 64, 65, 127, 128, 255, 256, 257, 1020} {
		ix := IndexInfo(n, 1)
		add(fmt.Sprintf("COMP_REC_INSERT index of %d fields", n), MCompInsert, ix, insertBody(false, 40, true, n))
		add(fmt.Sprintf("COMP_REC_CLUST_DELETE_MARK index of %d fields", n), MCompClust, ix, []byte{0, 1}, sysVals(1, 0xa7000001200110, 77), b2(128))
		add(fmt.Sprintf("COMP_REC_SEC_DELETE_MARK index of %d fields", n), MCompSec, ix, []byte{1}, b2(0x1414))
		add(fmt.Sprintf("COMP_REC_UPDATE_IN_PLACE index of %d fields", n), MCompUpd, ix, []byte{3}, sysVals(1, 0xa7000001200110, 77), b2(0x1400), []byte{0x20}, fl(4, 9))
		add(fmt.Sprintf("COMP_REC_DELETE index of %d fields", n), MCompDelete, ix, b2(0x1414))
		add(fmt.Sprintf("COMP_LIST_END_DELETE index of %d fields", n), MCompLEnd, ix, b2(0x1414))
		add(fmt.Sprintf("COMP_LIST_START_DELETE index of %d fields", n), MCompLStart, ix, b2(0x1414))
		d := insertBody(true, 20, false, 1)
		add(fmt.Sprintf("COMP_LIST_END_COPY_CREATED index of %d fields", n), MCompLCopy, ix, b4(uint32(len(d))), d)
		add(fmt.Sprintf("COMP_PAGE_REORGANIZE index of %d fields", n), MCompReorg, ix)
		add(fmt.Sprintf("ZIP_PAGE_REORGANIZE index of %d fields", n), MZipReorg, ix, []byte{6})
		add(fmt.Sprintf("ZIP_PAGE_COMPRESS_NO_DATA index of %d fields", n), MZipNoData, ix, []byte{6})
	}
	// offsets whose bytes resemble the type of an update record, of the end of a
	// mini-transaction, of any other record
	for _, v := range []int{0x1414, 0x80, 0x0b14, 0x140b, 0x1f1f, 0x1494, 0x0094, 0x3f94} {
		add(fmt.Sprintf("REC_MIN_MARK %#x", v), MRecMin, b2(v))
		add(fmt.Sprintf("COMP_REC_MIN_MARK %#x", v), MCompRecMin, b2(v))
		add(fmt.Sprintf("1BYTE at %#x", v), M1, b2(v), Comp(0x14))
		add(fmt.Sprintf("2BYTES at %#x", v), M2, b2(v), Comp(uint64(v)))
		add(fmt.Sprintf("4BYTES at %#x", v), M4, b2(v), Comp(uint64(v)<<16|uint64(v)))
		add(fmt.Sprintf("8BYTES at %#x", v), M8, b2(v), Comp64(uint64(v)<<48|uint64(v)))
		add(fmt.Sprintf("WRITE_STRING at %#x", v), MWriteStr, b2(v), b2(5), []byte{0x14, 0x94, 0x14, 7, 0x0b})
		add(fmt.Sprintf("REC_DELETE at %#x", v), MRecDelete, b2(v))
		add(fmt.Sprintf("COMP_REC_DELETE at %#x", v), MCompDelete, idx[0], b2(v))
		add(fmt.Sprintf("LIST_END_DELETE at %#x", v), MListEndDel, b2(v))
		add(fmt.Sprintf("COMP_LIST_START_DELETE at %#x", v), MCompLStart, idx[1], b2(v))
		add(fmt.Sprintf("REC_SEC_DELETE_MARK at %#x", v), MSecDel, []byte{0}, b2(v))
		add(fmt.Sprintf("COMP_REC_SEC_DELETE_MARK at %#x", v), MCompSec, idx[1], []byte{1}, b2(v))
		add(fmt.Sprintf("ZIP_WRITE_NODE_PTR at %#x", v), MZipNode, b2(v), b2(v), b4(uint32(v)<<16|uint32(v)))
		add(fmt.Sprintf("ZIP_WRITE_BLOB_PTR at %#x", v), MZipBlob, b2(v), b2(v), noise(20, 1))
	}
	add("IBUF_BITMAP_INIT", MIbufInit)
	add("INIT_FILE_PAGE", MInitFile)
	add("INIT_FILE_PAGE2", MInitFile2)
	for _, n := range []int{0, 1, 4, 10, 127, 128, 255, 256, 600, 16000} {
		add(fmt.Sprintf("WRITE_STRING %d bytes", n), MWriteStr, b2(50), b2(n), noise(n, n))
	}
	for _, nm := range []string{"./d/t.ibd\x00", "d/t", "./d/" + string(noise(200, 3)) + ".ibd\x00", "", "./" + string(noise(510, 3)), "./" + string(noise(3990, 4)) + ".ibd\x00"} {
		f := bcat(b2(len(nm)), []byte(nm))
		g := bcat(b2(15), []byte("./d/other2.ibd\x00"))
		if len(nm) > 500 {
			g = bcat(b2(len(nm)+3), noise(len(nm)+3, 7))
		}
		add("FILE_CREATE", MFileCreate, f)
		add("FILE_DELETE", MFileDelete, f)
		add("FILE_NAME", MFileName, f)
		add("FILE_CREATE2", MFileCr2, b4(33), f)
		add("FILE_RENAME", MFileRename, f, g)
		add("FILE_RENAME2", MFileRen2, f, g)
	}
	add("ZIP_WRITE_NODE_PTR", MZipNode, b2(100), b2(300), b4(0x14141414))
	add("ZIP_WRITE_BLOB_PTR", MZipBlob, b2(100), b2(300), noise(20, 1))
	for _, n := range []int{0, 2, 4, 255} {
		add(fmt.Sprintf("ZIP_WRITE_HEADER %d bytes", n), MZipHdr, []byte{38, byte(n)}, noise(n, n))
	}
	for _, n := range []int{0, 100, 7000} {
		add(fmt.Sprintf("ZIP_PAGE_COMPRESS %d bytes", n), MZipComp, b2(n), b2(n/10), noise(8, 2), noise(n, 5), noise(n/10, 6))
	}
	add("ZIP_PAGE_COMPRESS_NO_DATA", MZipNoData, idx[1], []byte{6})
	add("TRUNCATE", MTruncate, noise(8, 3))
	add("INDEX_LOAD", MIndexLoad, noise(8, 0))
	o = append(o, recVar{"CHECKPOINT", MCheckpoint, true, noise(8, 0)}, recVar{"CHECKPOINT", MCheckpoint, true, []byte{0, 0, 0, 0, 0, 0x14, 0x14, 0}},
		recVar{"MULTI_REC_END", MMultiEnd, true, nil}, recVar{"DUMMY_RECORD", MDummy, true, nil})
	// undo records that print nothing
	t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(20)))
	for _, ty := range []int{UndoInsertRec, UndoUpdDel, UndoDelMark} {
		u := undoUpd(t, Row{int64(1), []byte("x")}, 1)
		u.Type = ty
		r := u.Body()
		add(fmt.Sprintf("UNDO_INSERT type %d", ty), MUndoInsert, b2(len(r)), r)
	}
	u := undoUpd(t, Row{int64(1), []byte("x")}, 1)
	u.TableID = 0x7777
	r := u.Body()
	add("UNDO_INSERT of an unknown table", MUndoInsert, b2(len(r)), r)
	return o
}

// oneOfEach picks one record per type.
func oneOfEach(vs []recVar) []recVar {
	seen := map[byte]bool{}
	var o []recVar
	for _, v := range vs {
		if !seen[v.typ] && (len(v.body) > 0 || v.raw || v.typ == MPageReorg || v.typ == MPageCreate) {
			seen[v.typ] = true
			o = append(o, v)
		}
	}
	return o
}

func c14(th bool) []*eng.Space {
	vs := logVariants(th)
	one := oneOfEach(vs)
	st := sentinelTable()
	dict := dictOf(tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(20))), st)
	run := func(title string, recs ...[]byte) *eng.Case {
		return &eng.Case{Title: func() string { return title }, Run: func(e *eng.Env) *eng.Fail {
			l := newLog()
			var want []Upd
			snt := func(k int) {
				s, w := sentinel(st, k)
				l.add(s.LogRec(7, 300))
				want = append(want, w)
			}
			snt(1)
			for i, r := range recs {
				if r == nil {
					snt(2 + i)
					continue
				}
				l.add(r)
			}
			o := redoLogs(e, dict, l.files(0), "", "")
			e.Outcome(o.Text)
			return checkUpds(want, o)
		}}
	}
	spaces := []uint64{0, 7, 0x7f, 0x80, 0x4000, 0xfffffff0}
	sp := []*eng.Space{
		{
			Name: "each-record",
			Rule: fmt.Sprintf("each of %d records (all %d record types of the 5.7 redo log with boundary parameters), with and without the single-record flag, %d space ids x 3 page numbers, followed by an update record or ending the log", len(vs), len(one), len(spaces)),
			Body: func(c *eng.Chooser) *eng.Case {
				v := vs[c.Pick(len(vs))]
				single, last := false, c.Bool()
				s, p := uint64(7), uint64(300)
				if !v.raw {
					single = c.Bool()
					s = spaces[c.Pick(len(spaces))]
					p = []uint64{3, 0x3fff, 0xffffffff}[c.Pick(3)]
				}
				title := fmt.Sprintf("%s; single=%v space=%#x page=%#x, at the end=%v", v.name, single, s, p, last)
				if last {
					return run(title, v.bytes(single, s, p))
				}
				return run(title, v.bytes(single, s, p), nil)
			},
		},
		{
			Name: "pairs",
			Rule: fmt.Sprintf("every ordered pair of the %d records, then an update record", len(vs)),
			Body: func(c *eng.Chooser) *eng.Case {
				k := vs
				if !th {
					k = one
				}
				a, b := vs[c.Pick(len(vs))], k[c.Pick(len(k))]
				return run(a.name+" + "+b.name, a.bytes(false, 0, 5), b.bytes(false, 40, 4), nil)
			},
		},
		{
			Name: "mini-transactions",
			Rule: fmt.Sprintf("every sequence of three records, one of each of %d types, with an update record inside and after, closed by MULTI_REC_END", len(one)),
			Body: func(c *eng.Chooser) *eng.Case {
				a, b := one[c.Pick(len(one))], one[c.Pick(len(one))]
				d := one[0]
				if th {
					d = one[c.Pick(len(one))]
				}
				end := []byte{MMultiEnd}
				return run(a.name+" + "+b.name+" + "+d.name, a.bytes(false, 0, 5), nil, b.bytes(false, 40, 4), end, d.bytes(true, 40, 4), nil, end, nil)
			},
		},
	}
	return sp
}

func init() {
	eng.Register(&eng.Check{ID: "C14", Title: "record stream of the redo log", Level: "model_checking", Spaces: c14})
}
