package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// pageKind makes page number no of the tablespace; live and dead are the rows it has for the dump / recovery.
type pageKind struct {
	name string
	make func(t *Table, no uint32, seq int) (b []byte, live, dead []Row)
}

func selRow(t *Table, n int) Row {
	r := make(Row, len(t.Cols))
	r[0], r[1] = int64(n), []byte(fmt.Sprintf("row-%d", n))
	if n%3 != 0 {
		r[2] = int64(-(n % 30000))
	}
	return r
}

// clustered leaf with nl live rows and nd purged rows.
func selLeaf(nl, nd int, h PageHdr) func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
	return markedLeaf(nl, 0, nd, h)
}

// markedLeaf has nm delete-marked rows between the live ones and the purged ones.
func markedLeaf(nl, nm, nd int, h PageHdr) func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
	return func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
		h.Space, h.PageNo, h.Type = t.Space, no, PageIndex
		h.IndexID += t.IndexID // 0, or 1 and up for secondary indexes
		p := NewPage(h, t.Redundant)
		var live, dead []Row
		for i := 0; i < nl+nm+nd; i++ {
			r := selRow(t, seq*10+i+1)
			p.Append(t.Encode(r, uint64(i)), r)
			if i < nl {
				live = append(live, r)
			} else {
				dead = append(dead, r)
			}
		}
		for i := 0; i < nd; i++ {
			p.Delete(len(p.Live())-1, true)
		}
		for i := 0; i < nm; i++ {
			p.Mark(nl + i)
		}
		return p.Bytes(), live, dead
	}
}

// an index page that is not a clustered leaf: its rows are never reported.
func notLeaf(h PageHdr, dead bool) func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
	return func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
		nd := 0
		if dead {
			nd = 2
		}
		b, _, _ := selLeaf(2, nd, h)(t, no, seq)
		return b, nil, nil
	}
}

// the same with nm delete-marked and nd purged rows.
func notLeafMarked(h PageHdr, nm, nd int) func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
	return func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
		b, _, _ := markedLeaf(1, nm, nd, h)(t, no, seq)
		return b, nil, nil
	}
}

// node is a B-tree node page of the clustered index: key + child page number.
func node(dead bool) func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
	return func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
		p := NewPage(PageHdr{Space: t.Space, PageNo: no, Type: PageIndex, Level: 1, IndexID: t.IndexID}, t.Redundant)
		fs := []Field{{Col: 0, Fixed: 4}, {Col: -1, Fixed: 4}}
		for i := 0; i < 3; i++ {
			v := [][]byte{{0x80, 0, 0, byte(seq*10 + i)}, {0, 0, 0, byte(5 + i)}}
			var r Rec
			if t.Redundant {
				r = EncodeRedundant(fs, v)
			} else {
				r = EncodeCompact(fs, v)
			}
			s := p.Append(r, nil)
			if i == 0 {
				p.InfoBits(s.Org, 0x10)
			}
		}
		if dead {
			p.Delete(2, true)
		}
		return p.Bytes(), nil, nil
	}
}

// a page of another type whose bytes look like a clustered leaf.
func disguised(typ int) func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
	return func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
		b, _, _ := markedLeaf(1, 1, 1, PageHdr{})(t, no, seq)
		b[24], b[25] = byte(typ>>8), byte(typ)
		Checksum(b)
		return b, nil, nil
	}
}

func pageKinds(th bool) []pageKind {
	ks := []pageKind{
		{"leaf(1 live)", selLeaf(1, 0, PageHdr{})},
		{"leaf(2 live, 1 purged)", selLeaf(2, 1, PageHdr{})},
		{"leaf(all purged)", selLeaf(0, 2, PageHdr{})},
		{"leaf(empty)", selLeaf(0, 0, PageHdr{})},
		{"leaf(in chain, 1 live, 3 purged)", selLeaf(1, 3, PageHdr{Prev: 17, Next: 19, LSN: 0x1122334455})},
		{"leaf(1 live, 1 marked)", markedLeaf(1, 1, 0, PageHdr{})},
		{"leaf(1 marked, 1 purged)", markedLeaf(0, 1, 1, PageHdr{})},
		{"secondary leaf(marked entries)", notLeafMarked(PageHdr{MaxTrx: 1, IndexID: 1}, 2, 0)},
		{"secondary leaf(marked and purged entries)", notLeafMarked(PageHdr{MaxTrx: 1 << 40, IndexID: 1}, 1, 1)},
		{"high node(marked)", notLeafMarked(PageHdr{Level: 1}, 1, 0)},
		{"node", node(false)},
		{"node(purged records)", node(true)},
		{"secondary leaf", notLeaf(PageHdr{MaxTrx: 1, IndexID: 1}, true)},
		{"secondary leaf(large trx id)", notLeaf(PageHdr{MaxTrx: 1 << 40, IndexID: 1}, true)},
		{"secondary node", notLeaf(PageHdr{Level: 1, IndexID: 1}, true)},
		{"high node", notLeaf(PageHdr{Level: 256}, true)},
		{"blob page", disguised(PageBlob)},
		{"allocated page", disguised(PageAllocated)},
		{"never written page", func(t *Table, no uint32, seq int) ([]byte, []Row, []Row) {
			return make([]byte, PageSize), nil, nil
		}},
	}
	if th {
		ks = append(ks,
			pageKind{"undo page", disguised(PageUndo)},
			pageKind{"inode page", disguised(PageInode)},
			pageKind{"bitmap page", disguised(5)},
			pageKind{"r-tree page", disguised(17854)},
			pageKind{"sdi/compressed page", disguised(14)},
			pageKind{"type 0x45bf+1", disguised(PageIndex + 1)},
		)
	}
	return ks
}

func kindNo(ks []pageKind, name string) int {
	for i, k := range ks {
		if k.name == name {
			return i
		}
	}
	panic("no page kind " + name)
}

func c10(th bool) []*eng.Space {
	ks := pageKinds(th)
	max := 3
	if th {
		max = 4
	}
	return append([]*eng.Space{
		{
			Name: "page-sequences",
			Rule: fmt.Sprintf("every sequence of 1..%d pages over %d page kinds (clustered leaves with live/delete-marked/purged rows, nodes, secondary leaves with live, delete-marked and purged entries, LOB and other page types, unused pages), COMPACT and REDUNDANT, dump and recovery", max, len(ks)),
			Body: func(c *eng.Chooser) *eng.Case {
				n := 1 + c.Pick(max)
				seq := make([]int, n)
				for i := range seq {
					seq[i] = c.Pick(len(ks))
				}
				red := c.Bool()
				rec := c.Bool()
				t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(30)), ncol("w", IntT(2, false)))
				t.Redundant = red
				t.Sec = []SecIndex{{Name: "kv", Cols: []int{1}}}
				return &eng.Case{Title: func() string {
					var s []string
					for _, k := range seq {
						s = append(s, ks[k].name)
					}
					return fmt.Sprintf("pages %s; redundant=%v recovery=%v", strings.Join(s, ", "), red, rec)
				}, Run: func(e *eng.Env) *eng.Fail {
					pages := map[uint32][]byte{}
					var want []Row
					for i, k := range seq {
						b, live, dead := ks[k].make(t, uint32(3+i), i)
						pages[uint32(3+i)] = b
						if rec {
							want = append(want, dead...)
						} else {
							want = append(want, live...)
						}
					}
					o := dump(e, dictOf(t), Tablespace(t.Space, pages), "d", "t", rec)
					e.Outcome(o.Text)
					return checkRows(t, want, o)
				}}
			},
		},
		{
			Name: "tablespace-sizes",
			Rule: "tablespaces of up to 40 pages: rows on one page at every position, all other pages unused, nodes or secondary leaves; and a leaf on every position",
			Body: func(c *eng.Chooser) *eng.Case {
				n := 1 + c.Pick(40)
				at := c.Pick(n+1) - 1 // -1: a leaf everywhere
				fill := kindNo(ks, []string{"never written page", "node", "secondary leaf"}[c.Pick(3)])
				rec := c.Bool()
				t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(30)), ncol("w", IntT(2, false)))
				return &eng.Case{Title: func() string {
					return fmt.Sprintf("%d pages, leaf at %d (-1: everywhere), others %s, recovery=%v", n, at+3, ks[fill].name, rec)
				}, Run: func(e *eng.Env) *eng.Fail {
					pages := map[uint32][]byte{}
					var want []Row
					for i := 0; i < n; i++ {
						k := fill
						if i == at || at < 0 {
							k = 1
						}
						b, live, dead := ks[k].make(t, uint32(3+i), i)
						pages[uint32(3+i)] = b
						if rec {
							want = append(want, dead...)
						} else {
							want = append(want, live...)
						}
					}
					o := dump(e, dictOf(t), Tablespace(t.Space, pages), "d", "t", rec)
					e.Outcome(o.Text)
					return checkRows(t, want, o)
				}}
			},
		},
	}, c10Large(th), c10Many(th))
}

func init() {
	eng.Register(&eng.Check{ID: "C10", Title: "page selection", Level: "model_checking", Spaces: c10})
}
