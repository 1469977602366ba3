package innodb

import (
	"fmt"
	"sort"
	"strings"
)

// The data dictionary: SYS_TABLES(1), SYS_COLUMNS(2), SYS_INDEXES(3), SYS_FIELDS(5.x id 4), all REDUNDANT.

const (
	IdxTables  = 1
	IdxColumns = 2
	IdxIndexes = 3
	IdxFields  = 4
)

// DictRec is one dictionary row: stored fields.
type DictRec struct {
	F    []Field
	V    [][]byte
	Dead bool // delete-marked, not purged yet
}

func fix(n int) Field { return Field{Col: -1, Fixed: n, NullLen: n} }
func vary() Field     { return Field{Col: -1} }

var trx = be(6, 0x1203)
var roll = be(7, 0xa1000001000110)

func (t *Table) sysName() string {
	if t.DB == "" {
		return t.Name
	}
	return FileName(t.DB) + "/" + FileName(t.Name)
}

// FileName is the name of a database or table as it is in the dictionary and in the file system:
// all but letters, digits and _ as @ and the code in hexadecimal. (The two-character codes of
// European letters are left out.) Temporary tables of the server keep their raw names.
func FileName(s string) string {
	if strings.HasPrefix(s, "#sql") {
		return s
	}
	out := ""
	for _, c := range s {
		if c < 128 && (c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			out += string(c)
		} else {
			out += fmt.Sprintf("@%04x", c)
		}
	}
	return out
}

func (t *Table) TableRec() DictRec {
	n := uint64(0)
	for _, c := range t.Cols {
		if c.Virtual {
			n += 1 << 16
		} else {
			n++
		}
	}
	if !t.Redundant {
		n |= 1 << 31
	}
	typ := uint64(1)
	return DictRec{
		F: []Field{vary(), fix(6), fix(7), fix(8), fix(4), fix(4), fix(8), fix(4), vary(), fix(4)},
		V: [][]byte{[]byte(t.sysName()), trx, roll, be(8, t.TableID), be(4, n), be(4, typ), be(8, 0), be(4, 80), nil, be(4, uint64(t.Space))},
	}
}

func (t *Table) ColumnRecs() []DictRec {
	var out, virt []DictRec
	for i, c := range t.Cols {
		pr := uint64(c.T.PrType)
		pos := uint64(len(out))
		if c.Virtual {
			pr |= fVirtual
			pos = uint64(len(virt)+1)<<16 + uint64(i)
		}
		if !c.Nullable {
			pr |= fNotNull
		}
		r := DictRec{
			F: []Field{fix(8), fix(4), fix(6), fix(7), vary(), fix(4), fix(4), fix(4), fix(4)},
			V: [][]byte{be(8, t.TableID), be(4, pos), trx, roll, []byte(c.Name), be(4, uint64(c.T.MType)), be(4, pr), be(4, uint64(c.T.Len)), be(4, 0)},
		}
		if c.Virtual {
			virt = append(virt, r)
		} else {
			out = append(out, r)
		}
	}
	return append(out, virt...)
}

func indexRec(t *Table, id uint64, name string, n, typ int, root uint32) DictRec {
	return DictRec{
		F: []Field{fix(8), fix(8), fix(6), fix(7), vary(), fix(4), fix(4), fix(4), fix(4), fix(4)},
		V: [][]byte{be(8, t.TableID), be(8, id), trx, roll, []byte(name), be(4, uint64(n)), be(4, uint64(typ)), be(4, uint64(t.Space)), be(4, uint64(root)), be(4, 50)},
	}
}

func fieldRec(id uint64, pos int, name string) DictRec {
	return DictRec{
		F: []Field{fix(8), fix(4), fix(6), fix(7), vary()},
		V: [][]byte{be(8, id), be(4, uint64(pos)), trx, roll, []byte(name)},
	}
}

// fieldRecs: the positions of an index that has any prefix are shifted and carry the bytes of the prefix.
func (t *Table) fieldRecs(id uint64, cols, prefix []int) (out []DictRec) {
	shift := uint(0)
	for _, n := range prefix {
		if n > 0 {
			shift = 16
		}
	}
	for i, c := range cols {
		pos := i << shift
		if i < len(prefix) {
			_, max := t.Cols[c].T.mb()
			pos |= prefix[i] * max
		}
		out = append(out, fieldRec(id, pos, t.Cols[c].Name))
	}
	return
}

func (t *Table) IndexRecs() (idx, fields []DictRec) {
	const clustered, unique = 1, 2
	switch t.Cluster {
	case Primary:
		idx = append(idx, indexRec(t, t.IndexID, "PRIMARY", len(t.Key), clustered|unique, 3))
	case RowID:
		idx = append(idx, indexRec(t, t.IndexID, "GEN_CLUST_INDEX", 0, clustered, 3))
	case UniqueKey:
		name := t.ClustName
		if name == "" {
			name = "uk_clust"
		}
		idx = append(idx, indexRec(t, t.IndexID, name, len(t.Key), clustered|unique, 3))
	}
	if t.Cluster != RowID {
		fields = append(fields, t.fieldRecs(t.IndexID, t.Key, t.Prefix)...)
	}
	for k, s := range t.Sec {
		id := t.IndexID + 1 + uint64(k)
		typ := 0
		if s.Unique {
			typ = unique
		}
		idx = append(idx, indexRec(t, id, s.Name, len(s.Cols), typ, uint32(4+k)))
		fields = append(fields, t.fieldRecs(id, s.Cols, s.Prefix)...)
	}
	return
}

// Dict holds the rows of the four dictionary tables in key order.
type Dict struct {
	Rows [4][]DictRec // tables, columns, indexes, fields
}

// MakeDict builds the dictionary of the tables.
func MakeDict(tables ...*Table) *Dict {
	ts := append([]*Table{}, tables...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].sysName() < ts[j].sysName() })
	d := &Dict{}
	for _, t := range ts {
		d.Rows[0] = append(d.Rows[0], t.TableRec())
	}
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].TableID < ts[j].TableID })
	for _, t := range ts {
		d.Rows[1] = append(d.Rows[1], t.ColumnRecs()...)
		i, _ := t.IndexRecs()
		d.Rows[2] = append(d.Rows[2], i...)
	}
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].IndexID < ts[j].IndexID })
	for _, t := range ts {
		_, f := t.IndexRecs()
		d.Rows[3] = append(d.Rows[3], f...)
	}
	return d
}

// Root page numbers of the dictionary trees in a fresh system tablespace.
var DictRoots = [4]uint32{8, 10, 11, 12}

// DictLayout places dictionary rows on pages: for each dictionary table, Cuts lists how many rows
// go on each leaf in key order (nil = everything on the root), and Leaf gives the page numbers of
// the leaves (in key order) when there is more than one.
type DictLayout struct {
	Cuts [4][]int
	Leaf [4][]uint32
	// Mid: the numbers of node pages between the root and the leaves (nil: two levels).
	Mid [4][]uint32
	// Purged rows (of dropped tables) are put on the free list of the last leaf.
	Purged [4][]DictRec
	// Extra pages put at a position of the file whatever their own number says (doublewrite copies, undo pages ...).
	Extra map[uint32][]byte
}

// Image builds the system tablespace file.
func (d *Dict) Image(l DictLayout) []byte {
	pages, max := d.Pages(l)
	img := make([]byte, 0, int(max+1)*PageSize)
	for no := uint32(0); no <= max; no++ {
		if b, ok := pages[no]; ok {
			img = append(img, b...)
		} else {
			img = append(img, make([]byte, PageSize)...) // never allocated
		}
	}
	return img
}

// Pages gives the pages of the system tablespace by their places in the file, and the last place.
func (d *Dict) Pages(l DictLayout) (map[uint32][]byte, uint32) {
	pages := map[uint32][]byte{}
	max := uint32(12)
	put := func(no uint32, b []byte) {
		pages[no] = b
		if no > max {
			max = no
		}
	}
	put(0, RawPage(0, 0, PageFsp, nil))
	put(1, RawPage(0, 1, 5, nil))
	put(2, RawPage(0, 2, PageInode, nil))
	put(3, RawPage(0, 3, PageSys, nil))
	put(4, NewPage(PageHdr{PageNo: 4, Type: PageIndex, IndexID: 0xFFFFFFFF00000000}, true).Bytes())
	put(5, RawPage(0, 5, PageTrxSys, nil))
	put(6, RawPage(0, 6, PageSys, nil))
	put(7, RawPage(0, 7, PageSys, func(b []byte) {
		o := 38
		put8(b, o, 0x400)
		put8(b, o+8, 0x100)
		put8(b, o+16, 0x200)
		put4(b, o+24, 40)
		put4(b, o+28, 0)
		put4(b, o+32, DictRoots[0])
		put4(b, o+36, 9)
		put4(b, o+40, DictRoots[1])
		put4(b, o+44, DictRoots[2])
		put4(b, o+48, DictRoots[3])
	}))
	put(9, NewPage(PageHdr{PageNo: 9, Type: PageIndex, IndexID: 5}, true).Bytes())
	for k := 0; k < 4; k++ {
		id := uint64(k + 1)
		rows := d.Rows[k]
		cuts := l.Cuts[k]
		if cuts == nil {
			p := NewPage(PageHdr{PageNo: DictRoots[k], Type: PageIndex, IndexID: id}, true)
			for _, r := range rows {
				appendDict(p, r)
			}
			purge(p, l.Purged[k])
			put(DictRoots[k], p.Bytes())
			continue
		}
		level := 1
		if l.Mid[k] != nil {
			level = 2
		}
		root := NewPage(PageHdr{PageNo: DictRoots[k], Type: PageIndex, IndexID: id, Level: level}, true)
		var mids []*Page
		for _, no := range l.Mid[k] {
			mids = append(mids, NewPage(PageHdr{PageNo: no, Type: PageIndex, IndexID: id, Level: 1}, true))
		}
		at := 0
		for j, n := range cuts {
			h := PageHdr{PageNo: l.Leaf[k][j], Type: PageIndex, IndexID: id}
			if j > 0 {
				h.Prev = l.Leaf[k][j-1]
			}
			if j+1 < len(cuts) {
				h.Next = l.Leaf[k][j+1]
			}
			p := NewPage(h, true)
			for i := 0; i < n; i++ {
				appendDict(p, rows[at+i])
			}
			if j+1 == len(cuts) {
				purge(p, l.Purged[k])
			}
			if n > 0 {
				r := rows[at]
				nk := 1 // SYS_TABLES: NAME
				if k > 0 {
					nk = 2
				}
				f := append(append([]Field{}, r.F[:nk]...), fix(4))
				v := append(append([][]byte{}, r.V[:nk]...), be(4, uint64(h.PageNo)))
				up := root
				if mids != nil {
					m := j * len(mids) / len(cuts)
					up = mids[m]
					if len(up.Live()) == 0 {
						s := root.Append(EncodeRedundant(f, append(append([][]byte{}, r.V[:nk]...), be(4, uint64(l.Mid[k][m])))), nil)
						if j == 0 {
							root.InfoBits(s.Org, 0x10)
						}
					}
				}
				s := up.Append(EncodeRedundant(f, v), nil)
				if j == 0 {
					up.InfoBits(s.Org, 0x10) // REC_INFO_MIN_REC_FLAG
				}
			}
			put(h.PageNo, p.Bytes())
			at += n
		}
		if at != len(rows) {
			panic("model: bad cuts")
		}
		put(DictRoots[k], root.Bytes())
		for i, m := range mids {
			put(l.Mid[k][i], m.Bytes())
		}
	}
	for no, b := range l.Extra {
		if _, ok := pages[no]; ok {
			panic("model: position taken")
		}
		put(no, b)
	}
	return pages, max
}

func appendDict(p *Page, r DictRec) {
	s := p.Append(EncodeRedundant(r.F, r.V), nil)
	if s == nil {
		panic("model: dictionary page full")
	}
	if r.Dead {
		p.InfoBits(s.Org, 0x20)
	}
}

// AddDead adds delete-marked rows to dictionary table k, in key order.
func (d *Dict) AddDead(k int, rs []DictRec) {
	rows := append([]DictRec{}, d.Rows[k]...)
	for _, r := range rs {
		r.Dead = true
		rows = append(rows, r)
	}
	key := func(r DictRec) string {
		if k == 0 {
			return string(r.V[0])
		}
		return string(r.V[0]) + string(r.V[1])
	}
	sort.SliceStable(rows, func(i, j int) bool { return key(rows[i]) < key(rows[j]) })
	for i := 1; i < len(rows); i++ {
		if key(rows[i-1]) == key(rows[i]) {
			panic("model: two dictionary rows with one key")
		}
	}
	d.Rows[k] = rows
}

// purge adds rows and purges them again.
func purge(p *Page, rows []DictRec) {
	for _, r := range rows {
		if p.Append(EncodeRedundant(r.F, r.V), nil) == nil {
			panic("model: dictionary page full")
		}
	}
	for range rows {
		p.Delete(len(p.Live())-1, true)
	}
}

// Tablespace lays out an .ibd: page 0..2 system pages, then the given pages by number.
func Tablespace(space uint32, pages map[uint32][]byte) []byte {
	max := uint32(3)
	for n := range pages {
		if n > max {
			max = n
		}
	}
	var img []byte
	for no := uint32(0); no <= max; no++ {
		if b, ok := pages[no]; ok {
			img = append(img, b...)
			continue
		}
		switch no {
		case 0:
			img = append(img, RawPage(space, 0, PageFsp, nil)...)
		case 1:
			img = append(img, RawPage(space, 1, 5, nil)...)
		case 2:
			img = append(img, RawPage(space, 2, PageInode, nil)...)
		default:
			img = append(img, make([]byte, PageSize)...)
		}
	}
	return img
}
