package props

import (
	"encoding/binary"
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// Large files: the pages between those of interest were never written.

// largeNos: page numbers around powers of two.
func largeNos(th bool) []uint32 {
	nos := []uint32{255, 256, 4096, 32767, 32768, 65535, 65536, 65537, 66000}
	if th {
		nos = append(nos, 254, 257, 1000, 1024, 8191, 8192, 16383, 16384, 16385, 40000, 65534, 65538, 100000, 131071, 131072)
	}
	return append(nos, hugeNos(th)...)
}

// hugeNos: pages behind the first 2 GB and 4 GB of a file, which take seconds to reach.
func hugeNos(th bool) []uint32 {
	if th {
		return []uint32{131074, 262143, 262144, 262145, 300000}
	}
	return []uint32{131073, 262145}
}

func huge(no uint32) bool { return no > 131072 }

func c10Large(th bool) *eng.Space {
	nos := largeNos(th)
	return &eng.Space{
		Name: "large-files",
		Rule: fmt.Sprintf("data files of up to 1 GB, of more than 2 and of more than 4 GB: leaves on page 3 and on the pages of each pair (behind 2 GB: of neighbours) of the numbers %v, pages between them never written; dump and recovery", nos),
		Body: func(c *eng.Chooser) *eng.Case {
			a := c.Pick(len(nos))
			b := c.Pick(len(nos))
			rec := c.Bool()
			if b < a || !th && b != a && b != len(nos)-1-len(hugeNos(th)) || huge(nos[b]) && a+1 != b {
				return nil
			}
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(30)), ncol("w", IntT(2, false)))
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("leaves on the pages 3, %d and %d; recovery=%v", nos[a], nos[b], rec)
			}, Run: func(e *eng.Env) *eng.Fail {
				pages := map[uint32][]byte{0: RawPage(t.Space, 0, PageFsp, nil), 1: RawPage(t.Space, 1, 5, nil), 2: RawPage(t.Space, 2, PageInode, nil)}
				var want []Row
				for i, no := range []uint32{3, nos[a], nos[b]} {
					if i == 2 && a == b {
						break
					}
					pg, live, dead := markedLeaf(2, 1, 1, PageHdr{})(t, no, 10*i)
					pages[no] = pg
					if rec {
						live = dead
					}
					want = append(want, live...)
				}
				o := dumpFiles(e, e.File("ibdata1", dictOf(t)), e.Sparse("large.ibd", PageSize, pages), "d", "t", rec)
				e.Outcome(o.Text)
				return checkRows(t, want, o)
			}}
		},
	}
}

func c10Many(th bool) *eng.Space {
	sizes := []int{300, 1100, 4200}
	if th {
		sizes = append(sizes, 600, 2100, 8300, 17000, 33000)
	}
	return &eng.Space{
		Name: "many-leaves",
		Rule: fmt.Sprintf("data files of %v pages that all have rows; dump and recovery", sizes),
		Body: func(c *eng.Chooser) *eng.Case {
			n := sizes[c.Pick(len(sizes))]
			rec := c.Bool()
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(30)), ncol("w", IntT(2, false)))
			return &eng.Case{Title: func() string { return fmt.Sprintf("%d leaves; recovery=%v", n, rec) }, Run: func(e *eng.Env) *eng.Fail {
				pages := map[uint32][]byte{0: RawPage(t.Space, 0, PageFsp, nil), 1: RawPage(t.Space, 1, 5, nil), 2: RawPage(t.Space, 2, PageInode, nil)}
				var want []Row
				for i := 0; i < n; i++ {
					pg, live, dead := markedLeaf(1, 0, 1, PageHdr{})(t, uint32(3+i), 10*i)
					pages[uint32(3+i)] = pg
					if rec {
						live = dead
					}
					want = append(want, live...)
				}
				o := dumpFiles(e, e.File("ibdata1", dictOf(t)), e.Sparse("large.ibd", PageSize, pages), "d", "t", rec)
				e.Outcome(o.Text)
				return checkRows(t, want, o)
			}}
		},
	}
}

func c21Large(th bool) *eng.Space {
	nos := largeNos(th)
	return &eng.Space{
		Name: "large-files",
		Rule: fmt.Sprintf("off-page values of two rows whose first, second or third LOB page has one of the numbers %v, in files of up to 1 GB, of more than 2 and of more than 4 GB, in which also the pages with the same low bytes in their numbers are LOB pages", nos),
		Body: func(c *eng.Chooser) *eng.Case {
			no := nos[c.Pick(len(nos))]
			at := c.Pick(3)
			f := lobFmts[c.Pick(3)]
			if !th && f.red && at > 0 || huge(no) && (at != 1 || f.red) {
				return nil
			}
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", BlobT(3)), ncol("w", VarcharUtf8(10)))
			t.Redundant = f.red
			return &eng.Case{Title: func() string { return fmt.Sprintf("%s, page %d is the LOB page %d of the first row", f.name, no, at) }, Run: func(e *eng.Env) *eng.Fail {
				pages := map[uint32][]byte{0: RawPage(t.Space, 0, PageFsp, nil), 1: RawPage(t.Space, 1, 5, nil), 2: RawPage(t.Space, 2, PageInode, nil)}
				a := &Lob{B: lobBytes(f.local+3*LobCap-5, 1), Local: f.local}
				b := &Lob{B: lobBytes(f.local+3*LobCap-100, 2), Local: f.local}
				na := []uint32{30, 31, 32}
				na[at] = no
				var nb []uint32
				for _, x := range []uint32{no & 0xff, no & 0xffff, no & 0x7fff, 33, 34, 35} {
					if x > 3 && x != no && (x < 30 || x > 32) && len(nb) < 3 && (len(nb) == 0 || nb[len(nb)-1] != x && nb[0] != x) {
						nb = append(nb, x)
					}
				}
				a.Place(t.Space, na, 0, pages)
				b.Place(t.Space, nb, 0, pages)
				rows := []Row{{int64(1), a, []byte("w")}, {int64(2), b, nil}, {int64(3), []byte("short"), nil}}
				pages[3] = leafPage(t, 3, rows).Bytes()
				o := dumpFiles(e, e.File("ibdata1", dictOf(t)), e.Sparse("large.ibd", PageSize, pages), "d", "t", false)
				e.Outcome(o.Text)
				return checkRows(t, rows, o)
			}}
		},
	}
}

func c09Large(th bool) *eng.Space {
	nos := largeNos(th)
	return &eng.Space{
		Name: "large-files",
		Rule: fmt.Sprintf("system tablespaces of up to 1 GB, of more than 2 and of more than 4 GB: a leaf of one dictionary table, or of all, on a page of the numbers %v, the other leaf before it, with or without older copies of the far leaves in the doublewrite buffer, pages between them never written", nos),
		Body: func(c *eng.Chooser) *eng.Case {
			no := nos[c.Pick(len(nos))]
			which := c.Pick(5)
			last := c.Bool() // the far leaf is the last or the first in key order
			if !th && (which < 4 && no < 65536 || which < 4 && last) || huge(no) && (which < 4 || last) {
				return nil
			}
			copies := which == 4 && !huge(no) && c.Bool()
			ts := dictTables()
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("far leaf on page %d, of dictionary table %d (4: each), last=%v, doublewrite copies=%v", no, which, last, copies)
			}, Run: func(e *eng.Env) *eng.Fail {
				d := MakeDict(ts...)
				var l DictLayout
				for k := 0; k < 4; k++ {
					if which != k && which != 4 {
						continue
					}
					n := len(d.Rows[k])
					l.Cuts[k] = []int{n / 2, n - n/2}
					l.Leaf[k] = []uint32{no + uint32(k), 20 + uint32(k)}
					if last {
						l.Leaf[k] = []uint32{20 + uint32(k), no + uint32(k)}
					}
				}
				pages, _ := d.Pages(l)
				if copies {
					// The doublewrite buffer has the far leaves as they once were.
					older := dictTables()
					for _, t := range older {
						t.Cols[0].Name, t.Cols[1].T = "old", IntT(8, false)
						t.Key = []int{1}
					}
					img := MakeDict(older...).Image(DictLayout{})
					for k := 0; k < 4; k++ {
						b := append([]byte{}, img[int(DictRoots[k])*PageSize:int(DictRoots[k]+1)*PageSize]...)
						binary.BigEndian.PutUint32(b[4:], no+uint32(k))
						binary.BigEndian.PutUint64(b[16:], uint64(k)<<39) // the copy of one of another tablespace is newer
						pages[uint32(64+k)] = b
					}
				}
				dp := e.Sparse("large", PageSize, pages)
				t := ts[len(ts)-1]
				for _, t = range ts {
					if (!th || huge(no)) && t != ts[len(ts)-1] && no > 4096 {
						continue
					}
					rows := dictRows(t)
					o := dumpFiles(e, dp, e.File("table.ibd", oneLeaf(t, rows)), t.DB, t.Name, false)
					e.Outcome(o.Text)
					if f := checkRows(t, rows, o); f != nil {
						return f
					}
				}
				return nil
			}}
		},
	}
}

func c15Large(th bool) *eng.Space {
	sizes := []int{300, 5000, 65530, 100000}
	if th {
		sizes = append(sizes, 65534, 65535, 65536, 65537, 131072, 200000)
	}
	return &eng.Space{
		Name: "large-logs",
		Rule: fmt.Sprintf("logs of %v blocks, full of other records, in one file, two or four; updates at the start, in every sixteenth of the log and at its end", sizes),
		Body: func(c *eng.Chooser) *eng.Case {
			n := sizes[c.Pick(len(sizes))]
			files := []int{1, 2, 4}[c.Pick(3)]
			big := c.Bool() // records of 16000 bytes, else of 400
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("%d blocks in %d files, large records=%v", n, files, big)
			}, Run: func(e *eng.Env) *eng.Fail {
				st := sentinelTable()
				l := newLog()
				var want []Upd
				k := 0
				add := func() {
					k++
					s, w := sentinel(st, k)
					l.add(s.LogRec(7, 300))
					want = append(want, w)
				}
				size := 400
				if big {
					size = 16000
				}
				p := padRec(size)
				add()
				for part := 1; len(l.b) < n*496-600-size; l.add(p) {
					if len(l.b) > part*n*31 {
						part++
						add()
					}
					// an update crosses each end of a block whose number is near a power of two
					for b, at := len(l.b)/496, 256; at <= b+100; at *= 2 {
						if b > at-100 && b < at+3 && (!big || b+size/496+1 >= at-3) {
							for len(l.b)/496 < at+3 {
								add()
							}
						}
					}
				}
				add()
				per := (n + files - 1) / files
				if files == 1 {
					per = 0
				}
				o := redoLogs(e, dictOf(st), l.files(per), "", "")
				e.Outcome(o.Text)
				return checkUpds(want, o)
			}}
		},
	}
}
