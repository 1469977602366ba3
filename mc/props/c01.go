package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// C01 / C02: every reachable page state of a small clustered leaf, dump mode and recovery mode.

// pageTable has variable-size rows so that free-list reuse leaves slack and garbage differs.
func pageTable(redundant bool) *Table {
	t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(20)), ncol("n", IntT(2, false)))
	t.Redundant = redundant
	return t
}

type pageState struct {
	t    *Table
	p    *Page // without its bytes, which head and tail hold
	ver  int
	hist []string

	head, tail []byte
	size       int
}

// pack drops the unused middle of the page (the frontier of the graph holds many of them).
func (s *pageState) pack() *pageState {
	h, t := len(s.p.B)/2, len(s.p.B)/2
	for h > 0 && s.p.B[h-1] == 0 {
		h--
	}
	for t < len(s.p.B) && s.p.B[t] == 0 {
		t++
	}
	s.head, s.tail, s.size = append([]byte{}, s.p.B[:h]...), append([]byte{}, s.p.B[t:]...), len(s.p.B)
	s.p.B = nil
	return s
}

// page is a copy of the page that can be changed.
func (s *pageState) page() *Page {
	q := s.p.Clone()
	q.B = make([]byte, s.size)
	copy(q.B, s.head)
	copy(q.B[s.size-len(s.tail):], s.tail)
	return q
}

func payload(k, size, ver int) Row {
	var n Val
	if ver%3 != 2 {
		n = int64(100*k + ver)
	}
	if size == 0 {
		return Row{int64(k), nil, n}
	}
	v := strings.Repeat(string(rune('a'+k)), 2) + fmt.Sprint(ver%10)
	for len(v) < 3*size {
		v += "-"
	}
	return Row{int64(k), []byte(v), n}
}

func (s *pageState) rows(sl []*Slot) []Row {
	var out []Row
	for _, x := range sl {
		out = append(out, x.Tag.(Row))
	}
	return out
}

// next: insert key k with payload size z, purge row i, update row i in place / with growth.
func (s *pageState) next(keys, sizes int) []interface{} {
	var out []interface{}
	step := func(name string, f func(p *Page) bool) {
		q := s.page()
		if !f(q) {
			return
		}
		h := append(append([]string{}, s.hist...), name)
		out = append(out, (&pageState{t: s.t, p: q, ver: s.ver + 1, hist: h}).pack())
	}
	live, dead := map[int]int{}, map[int]int{}
	for i, x := range s.p.Live() {
		k := int(x.Tag.(Row)[0].(int64))
		live[k] = i
		if x.Dead {
			dead[k] = i
		}
	}
	pos := func(k int) int {
		n := 0
		for _, x := range s.p.Live() {
			if int(x.Tag.(Row)[0].(int64)) < k {
				n++
			}
		}
		return n
	}
	for k := 1; k <= keys; k++ {
		if i, ok := live[k]; ok {
			_, gone := dead[k]
			step(fmt.Sprintf("purge(%d)", k), func(p *Page) bool { p.Delete(i, true); return true })
			if !gone {
				step(fmt.Sprintf("delete-mark(%d)", k), func(p *Page) bool { p.Mark(i); return true })
			}
			// a delete-marked row is written over by an insert of its key
			for z := 0; z < sizes; z++ {
				r := payload(k, z, s.ver)
				rec := s.t.Encode(r, uint64(s.ver))
				if old := s.p.Live()[i]; len(old.R.B) == len(rec.B) && old.R.Origin == rec.Origin {
					step(fmt.Sprintf("update-in-place(%d,%d)", k, z), func(p *Page) bool { p.ReplaceInPlace(i, rec, r); return true })
				} else {
					step(fmt.Sprintf("update-move(%d,%d)", k, z), func(p *Page) bool {
						p.Delete(i, false)
						return p.Insert(i, rec, r) != nil
					})
				}
			}
			continue
		}
		for z := 0; z < sizes; z++ {
			r := payload(k, z, s.ver)
			step(fmt.Sprintf("insert(%d,%d)", k, z), func(p *Page) bool {
				return p.Insert(pos(k), s.t.Encode(r, uint64(s.ver)), r) != nil
			})
		}
	}
	return out
}

// key: the structure of the page: slots with their places, row keys and sizes. Row contents are
// version-stamped and only used by the comparison, so two histories reaching the same structure merge.
func (s *pageState) key() string {
	var b strings.Builder
	one := func(x *Slot) {
		r := x.Tag.(Row)
		fmt.Fprintf(&b, "%d@%d/%d/%d/%v ", r[0], x.Org, len(x.R.B), x.Space, x.Dead)
	}
	fmt.Fprintf(&b, "%v|", s.t.Redundant)
	for _, x := range s.p.Live() {
		one(x)
	}
	b.WriteString("|")
	for _, x := range s.p.Frees() {
		one(x)
	}
	return b.String()
}

func pageGraph(keys, sizes, depth int, check func(s *pageState) []*eng.Case) *eng.Graph {
	return &eng.Graph{
		Depth: depth,
		Init: func() []interface{} {
			var out []interface{}
			for _, red := range []bool{false, true} {
				t := pageTable(red)
				out = append(out, (&pageState{t: t, p: NewPage(PageHdr{Space: t.Space, PageNo: 3, Type: PageIndex, IndexID: t.IndexID}, red)}).pack())
			}
			return out
		},
		Next:  func(x interface{}) []interface{} { return x.(*pageState).next(keys, sizes) },
		Key:   func(x interface{}) string { return x.(*pageState).key() },
		Check: func(x interface{}) []*eng.Case { return check(x.(*pageState)) },
	}
}

func (s *pageState) title(mode string) func() string {
	return func() string {
		f := "COMPACT"
		if s.t.Redundant {
			f = "REDUNDANT"
		}
		return fmt.Sprintf("%s page after %s; %s", f, strings.Join(s.hist, " "), mode)
	}
}

// wideTable has rows of any size up to half a page.
func wideTable(redundant bool) *Table {
	t := tableOf("d", "w", 41, col("id", IntT(4, false)), ncol("v", VarcharUtf8(6000)))
	t.Redundant = redundant
	return t
}

// narrowTable has the shortest rows, so the most on a page.
func narrowTable(redundant bool) *Table {
	t := tableOf("d", "n", 42, col("id", IntT(2, false)))
	t.Redundant = redundant
	return t
}

// endTable has rows of any size, the shortest of them ends few bytes behind its origin.
func endTable(redundant bool) *Table {
	t := tableOf("d", "e", 43, col("id", IntT(1, false)), ncol("v", VarcharUtf8(6000)))
	t.Redundant = redundant
	return t
}

var wideDict = map[bool][]byte{false: dictOf(wideTable(false), narrowTable(false), endTable(false)), true: dictOf(wideTable(true), narrowTable(true), endTable(true))}

func wideCase(t *Table, p *Page, rec bool, title string) *eng.Case {
	mode, slots := "dump", p.Alive()
	if rec {
		mode, slots = "recovery", append(p.Marked(), p.Frees()...)
	}
	f := "COMPACT"
	if t.Redundant {
		f = "REDUNDANT"
	}
	return &eng.Case{Title: func() string { return f + " page, " + title + "; " + mode }, Run: func(e *eng.Env) *eng.Fail {
		var want []Row
		for _, x := range slots {
			want = append(want, x.Tag.(Row))
		}
		img := Tablespace(t.Space, map[uint32][]byte{3: append([]byte{}, p.Bytes()...)})
		o := dump(e, wideDict[t.Redundant], img, "d", t.Name, rec)
		e.Outcome(o.Text)
		return checkRows(t, want, o)
	}}
}

// farPointers: rows spread over the whole page, chained in every order.
func farPointers(rec bool, keys, size, dels int) *eng.Space {
	return &eng.Space{
		Name: fmt.Sprintf("far-pointers-%d", keys),
		Rule: fmt.Sprintf("all heap orders of %d rows of %d bytes (the chains jump over the whole page, both ways) and all ordered purges of up to %d of them, COMPACT and REDUNDANT", keys, size, dels),
		Body: func(c *eng.Chooser) *eng.Case {
			t := wideTable(c.Bool())
			perm := permOf(c, keys) // perm[i] = heap slot of the i-th key
			n := c.Pick(dels + 1)
			alive := make([]int, keys)
			for i := range alive {
				alive[i] = i
			}
			var del []int
			for i := 0; i < n; i++ {
				x := c.Pick(len(alive))
				del = append(del, alive[x])
				alive = append(append([]int{}, alive[:x]...), alive[x+1:]...)
			}
			key := make([]int, keys)
			for i, h := range perm {
				key[h] = i
			}
			p := NewPage(PageHdr{Space: t.Space, PageNo: 3, Type: PageIndex, IndexID: t.IndexID}, t.Redundant)
			for h := 0; h < keys; h++ {
				r := Row{int64(key[h] + 1), []byte(strings.Repeat(string(rune('a'+key[h])), size-h))}
				if p.AppendFast(t.Encode(r, uint64(h)), r) == nil {
					panic("model: page full")
				}
			}
			p.Reorder(perm)
			p.PurgeAt(del)
			return wideCase(t, p, rec, fmt.Sprintf("%d rows of %d bytes, keys in heap slots %v, keys %v purged in that order", keys, size, perm, del))
		},
	}
}

func permOf(c *eng.Chooser, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var out []int
	for len(rest) > 0 {
		x := 0
		if len(rest) > 1 {
			x = c.Pick(len(rest))
		}
		out = append(out, rest[x])
		rest = append(append([]int{}, rest[:x]...), rest[x+1:]...)
	}
	return out
}

// pageFill: pages filled to the last byte that fits with rows of one size.
func pageFill(rec bool, sizes []int) *eng.Space {
	return &eng.Space{
		Name: "full-pages",
		Rule: fmt.Sprintf("pages filled with rows of each of %d payload sizes (%d..%d bytes) or with the shortest rows possible (a SMALLINT key only), key order equal to / opposite to / interleaved with heap order, one varied row that ends at the page directory, purged: none, all, every other, first, last, of the rest delete-marked: none, all, every other, first and last; COMPACT and REDUNDANT", len(sizes), sizes[0], sizes[len(sizes)-1]),
		Body: func(c *eng.Chooser) *eng.Case {
			t := wideTable(c.Bool())
			size := -1
			if x := c.Pick(len(sizes) + 1); x < len(sizes) {
				size = sizes[x]
			} else {
				t = narrowTable(t.Redundant)
			}
			order, purge, mark := c.Pick(3), c.Pick(5), c.Pick(4)
			return eng.Lazy(func() *eng.Case {
				p := NewPage(PageHdr{Space: t.Space, PageNo: 3, Type: PageIndex, IndexID: t.IndexID}, t.Redundant)
				n := 0
				add := func(k int) bool {
					r := Row{int64(n + 1)}
					if k > 0 {
						r = append(r, []byte(strings.Repeat(string(rune('a'+n%26)), k)))
					} else if k == 0 {
						r = append(r, nil)
					}
					if p.AppendFast(t.Encode(r, uint64(n)), r) == nil {
						return false
					}
					n++
					return true
				}
				for add(size) {
				}
				// the largest row that still fits
				for k := size - 1; k >= 0; k-- {
					if add(k) {
						break
					}
				}
				perm := make([]int, n)
				for i := range perm {
					switch order {
					case 0:
						perm[i] = i
					case 1:
						perm[i] = n - 1 - i
					default:
						if i < (n+1)/2 {
							perm[i] = 2 * i
						} else {
							perm[i] = 2*(i-(n+1)/2) + 1
						}
					}
				}
				p.Reorder(perm)
				var del []int
				for i := 0; i < n; i++ {
					if purge == 1 || purge == 2 && i%2 == 0 || purge == 3 && i == 0 || purge == 4 && i == n-1 {
						del = append(del, i)
					}
				}
				p.PurgeAt(del)
				left := len(p.Live())
				for i := 0; i < left; i++ {
					if mark == 1 || mark == 2 && i%2 == 1 || mark == 3 && (i == 0 || i == left-1) {
						p.Mark(i)
					}
				}
				return wideCase(t, p, rec, fmt.Sprintf("%d rows of %d payload bytes, order %d, %d purged, %d delete-marked", n, size, order, len(del), len(p.Marked())))
			})
		},
	}
}

// pageEnd: the last row of the heap ends at the page directory.
func pageEnd(rec, th bool) *eng.Space {
	last := []int{-1, 0, 1, 2, 3, 5, 9, 20, 100, 127, 128, 300}
	gaps := []int{0, 1, 2, 3, 7}
	if th {
		last, gaps = nil, nil
		for i := -1; i <= 300; i++ {
			last = append(last, i)
		}
		for i := 0; i <= 16; i++ {
			gaps = append(gaps, i)
		}
	}
	return &eng.Space{
		Name: "page-end",
		Rule: fmt.Sprintf("pages of 3, 4 or 6 rows, the last one in the heap with a value of %d lengths (or NULL) that ends 0..%d bytes before the shortest page directory, first, in the middle or last in key order, live, delete-marked or purged; COMPACT and REDUNDANT", len(last), gaps[len(gaps)-1]),
		Body: func(c *eng.Chooser) *eng.Case {
			t := endTable(c.Bool())
			n := []int{3, 4, 6}[c.Pick(3)]
			l, gap := last[c.Pick(len(last))], gaps[c.Pick(len(gaps))]
			at, role := c.Pick(3), c.Pick(3)
			return eng.Lazy(func() *eng.Case {
				row := func(h, size int) Row {
					r := Row{int64(h), nil}
					if size >= 0 {
						r[1] = []byte(strings.Repeat(string(rune('a'+h)), size))
					}
					return r
				}
				pos := []int{0, n / 2, n - 1}[at]
				perm := make([]int, n) // heap slots in key order
				for i, h := 0, 0; i < n; i++ {
					if i == pos {
						perm[i] = n - 1
					} else {
						perm[i], h = h, h+1
					}
				}
				key := make([]int, n)
				for i, h := range perm {
					key[h] = i
				}
				build := func(pad int) *Page {
					p := NewPage(PageHdr{Space: t.Space, PageNo: 3, Type: PageIndex, IndexID: t.IndexID}, t.Redundant)
					for h := 0; h < n; h++ {
						size := 2600
						if n < 6 {
							size = 16000 / n * 9 / 10
						}
						if h == 0 {
							size = pad
						}
						if h == n-1 {
							size = l
						}
						r := row(key[h], size)
						if p.AppendFast(t.Encode(r, uint64(h)), r) == nil {
							return nil
						}
					}
					return p
				}
				// The longest first row with which all fit, and one that is shorter by the gap.
				lo, hi := 200, 7000
				for lo < hi {
					if m := (lo + hi + 1) / 2; build(m) != nil {
						lo = m
					} else {
						hi = m - 1
					}
				}
				p := build(lo - gap)
				p.Reorder(perm)
				switch role {
				case 1:
					p.Mark(pos)
				case 2:
					p.PurgeAt([]int{pos})
				}
				return wideCase(t, p, rec, fmt.Sprintf("%d rows, the last one in the heap of %d payload bytes, %d before the directory, key %d, %s", n, l, gap, pos, []string{"live", "delete-marked", "purged"}[role]))
			})
		},
	}
}

func fillSizes(th bool) []int {
	var out []int
	for i := 0; i <= 260; i++ {
		if th || i <= 20 || i%13 == 0 || i >= 122 && i <= 132 || i >= 250 {
			out = append(out, i)
		}
	}
	for _, x := range []int{300, 511, 512, 1000, 1023, 1024, 1025, 2000, 4000, 5000, 7000} {
		out = append(out, x)
	}
	return out
}

var pageDict = map[bool][]byte{false: dictOf(pageTable(false)), true: dictOf(pageTable(true))}

func init() {
	pageCase := func(s *pageState, recovery bool) *eng.Case {
		mode := "dump"
		want := s.rows(s.p.Alive())
		if recovery {
			mode = "recovery"
			want = append(s.rows(s.p.Marked()), s.rows(s.p.Frees())...)
		}
		return &eng.Case{Title: s.title(mode), Run: func(e *eng.Env) *eng.Fail {
			img := Tablespace(s.t.Space, map[uint32][]byte{3: s.page().Bytes()})
			o := dump(e, pageDict[s.t.Redundant], img, "d", "t", recovery)
			e.Outcome(o.Text)
			return checkRows(s.t, want, o)
		}}
	}
	for _, m := range []struct {
		id, title string
		rec       bool
	}{{"C01", "dump prints exactly the live records", false}, {"C02", "recovery prints exactly the purged records", true}} {
		m := m
		eng.Register(&eng.Check{ID: m.id, Title: m.title, Level: "model_checking",
			Spaces: func(th bool) []*eng.Space {
				keys, sizes, depth := 3, 2, 5
				if th {
					keys, sizes, depth = 3, 2, 7
				}
				return []*eng.Space{{
					Name: "page-histories",
					Rule: fmt.Sprintf("all histories of insert/delete-mark/purge/update-in-place/update-with-move over %d keys and %d payload sizes up to depth %d, COMPACT and REDUNDANT, merged on page structure", keys, sizes, depth),
					Graph: pageGraph(keys, sizes, depth, func(s *pageState) []*eng.Case {
						return []*eng.Case{pageCase(s, m.rec)}
					}),
				}, farPointers(m.rec, 5, 3200, 3), farPointers(m.rec, 3, 5300, 3), pageFill(m.rec, fillSizes(th)), pageEnd(m.rec, th)}
			}})
	}
}
