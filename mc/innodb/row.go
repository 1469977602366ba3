package innodb

import "fmt"

// Clustering says how the clustered index of a table is made.
type Clustering int

const (
	Primary   Clustering = iota // PRIMARY KEY
	RowID                       // no usable key: hidden DB_ROW_ID (GEN_CLUST_INDEX)
	UniqueKey                   // first UNIQUE NOT NULL key
)

type Col struct {
	Name     string
	T        *Type
	Nullable bool
	Virtual  bool // a generated column that is not stored
	Hidden   bool // FTS_DOC_ID that InnoDB adds; behind all others
}

type SecIndex struct {
	Name   string
	Unique bool
	Cols   []int
	Prefix []int
}

type Table struct {
	DB, Name  string
	Cols      []Col // declared order
	Key       []int // clustered key columns (ordinals), in key order
	Prefix    []int // characters of each key part that are in the key (0 or nothing: the whole column)
	Cluster   Clustering
	Redundant bool
	Sec       []SecIndex
	ClustName string // name of the clustering unique key ("": uk_clust)

	TableID, IndexID uint64
	Space            uint32
}

type Row []Val // declared order

// Field is one stored field of a clustered index record.
type Field struct {
	Col   int // ordinal or -1 for a system field
	Sys   string
	Fixed int
	Big   bool
	Null  bool // nullable
	// REDUNDANT: bytes a NULL occupies
	NullLen int
	// a key part with the first characters of the column only (bytes: at most these times the longest character)
	Prefix int
}

// maxFixed: longer fixed length columns are stored like variable length ones (DICT_MAX_FIXED_COL_LEN).
const maxFixed = 768

// mb is how many bytes the characters of a type have, at least and at most.
func (t *Type) mb() (min, max int) {
	switch coll := int(t.PrType >> 16 & 0x7fff); {
	case coll == 0 || coll == 63:
		return 1, 1
	default:
		return CharWidth(coll)
	}
}

// PrefixOf is the first n characters of a stored value.
func (t *Type) PrefixOf(b []byte, n int) []byte {
	min, max := t.mb()
	k := 0
	for ; n > 0 && k < len(b); n-- {
		k += min
		for min != max && k < len(b) && b[k]&0xc0 == 0x80 {
			k++
		}
	}
	if k > len(b) {
		k = len(b)
	}
	return b[:k]
}

// KeyPrefix is the number of characters of key part i, 0 for a whole column.
func (t *Table) KeyPrefix(i int) int {
	if i < len(t.Prefix) {
		return t.Prefix[i]
	}
	return 0
}

// Fields is the physical field order of the clustered index.
func (t *Table) Fields() []Field {
	var out []Field
	used := map[int]bool{}
	add := func(i, prefix int) {
		c := t.Cols[i]
		f := Field{Col: i, Fixed: c.T.Fixed, Big: c.T.Big, Null: c.Nullable, NullLen: c.T.Fixed}
		if t.Redundant && c.T.MType == DataMySQL {
			f.NullLen = int(c.T.Len)
		}
		if _, max := c.T.mb(); prefix > 0 && f.Fixed > prefix*max {
			f.Fixed = prefix * max
		}
		if f.Fixed > maxFixed {
			f.Fixed = 0
		}
		f.Prefix = prefix
		out = append(out, f)
		used[i] = used[i] || prefix == 0
	}
	if t.Cluster == RowID {
		out = append(out, Field{Col: -1, Sys: "DB_ROW_ID", Fixed: 6})
	} else {
		for n, i := range t.Key {
			add(i, t.KeyPrefix(n))
		}
	}
	out = append(out, Field{Col: -1, Sys: "DB_TRX_ID", Fixed: 6}, Field{Col: -1, Sys: "DB_ROLL_PTR", Fixed: 7})
	for i := range t.Cols {
		if !used[i] && !t.Cols[i].Virtual {
			add(i, 0)
		}
	}
	return out
}

// FieldPos is the position of column ordinal i in the clustered index.
func (t *Table) FieldPos(i int) int {
	for p, f := range t.Fields() {
		if f.Col == i && f.Prefix == 0 {
			return p
		}
	}
	panic("no such column")
}

// Stored returns the stored bytes per field (nil = SQL NULL).
func (t *Table) Stored(r Row, seq uint64) [][]byte {
	fs := t.Fields()
	out := make([][]byte, len(fs))
	for i, f := range fs {
		switch f.Sys {
		case "DB_ROW_ID":
			out[i] = be(6, 0x000000000200+seq)
			continue
		case "DB_TRX_ID":
			out[i] = be(6, 0x000000001500+seq)
			continue
		case "DB_ROLL_PTR":
			out[i] = be(7, 0xa7000001200110+seq<<8)
			continue
		}
		if r[f.Col] == nil {
			continue
		}
		c := t.Cols[f.Col]
		if l, ok := r[f.Col].(*Lob); ok && f.Prefix > 0 {
			out[i] = c.T.PrefixOf(l.B, f.Prefix)
			continue
		} else if ok {
			out[i] = l.stored()
			continue
		}
		b := c.T.Enc(r[f.Col])
		if t.Redundant && c.T.MType == DataMySQL { // CHAR is fixed length in REDUNDANT
			p := c.T.Pad
			if p == nil {
				p = []byte{' '}
			}
			b = padWith(b, int(c.T.Len), p)
		}
		if f.Prefix > 0 {
			b = c.T.PrefixOf(b, f.Prefix)
		}
		if f.Fixed != 0 && len(b) != f.Fixed {
			panic(fmt.Sprintf("model: column %s: %d bytes for fixed %d", c.Name, len(b), f.Fixed))
		}
		if b == nil {
			b = []byte{}
		}
		out[i] = b
	}
	return out
}

// Rec is an encoded record: bytes and where its origin is.
type Rec struct {
	B      []byte
	Origin int // extra bytes before the data
}

// EncodeCompact builds a COMPACT record. Header info/next are filled by the page.
func EncodeCompact(fs []Field, vals [][]byte) Rec { return encodeCompact(fs, vals, nil) }

func encodeCompact(fs []Field, vals [][]byte, extern []bool) Rec {
	var lens []byte // in field order, to be reversed
	nn := 0
	var nulls []byte
	bit := 0
	for i, f := range fs {
		if f.Null {
			if bit%8 == 0 {
				nulls = append(nulls, 0)
			}
			if vals[i] == nil {
				nulls[bit/8] |= 1 << uint(bit%8)
			}
			bit++
			nn++
		}
		if vals[i] == nil {
			if !f.Null {
				panic("model: NULL in NOT NULL field")
			}
			continue
		}
		if f.Fixed == 0 {
			n := len(vals[i])
			if extern != nil && extern[i] {
				lens = append(lens, byte(n>>8)|0xc0, byte(n))
			} else if f.Big && n > 127 {
				lens = append(lens, byte(n>>8)|0x80, byte(n))
			} else {
				if n > 255 {
					panic("model: length over 255 in a small column")
				}
				lens = append(lens, byte(n))
			}
		}
	}
	ext := len(lens) + len(nulls) + 5
	b := make([]byte, ext)
	for i, x := range lens {
		b[ext-5-len(nulls)-1-i] = x
	}
	for i, x := range nulls {
		b[ext-5-1-i] = x
	}
	for _, v := range vals {
		b = append(b, v...)
	}
	return Rec{b, ext}
}

// EncodeRedundant builds a REDUNDANT record. extraNulls are trailing fields beyond vals (NULL, var length).
func EncodeRedundant(fs []Field, vals [][]byte) Rec { return encodeRedundant(fs, vals, nil) }

func encodeRedundant(fs []Field, vals [][]byte, extern []bool) Rec {
	n := len(fs)
	total := 0
	ends := make([]int, n)
	isNull := make([]bool, n)
	for i := range fs {
		if vals[i] == nil {
			isNull[i] = true
			total += fs[i].NullLen
		} else {
			total += len(vals[i])
		}
		ends[i] = total
	}
	w := 1
	if total > 127 {
		w = 2
	}
	for _, x := range extern {
		if x {
			w = 2
		}
	}
	ext := 6 + n*w
	b := make([]byte, ext)
	for i := range fs {
		e := ends[i]
		if w == 1 {
			if isNull[i] {
				e |= 0x80
			}
			b[ext-6-1-i] = byte(e)
		} else {
			if isNull[i] {
				e |= 0x8000
			}
			if extern != nil && extern[i] {
				e |= 0x4000
			}
			b[ext-6-2*i-2] = byte(e >> 8)
			b[ext-6-2*i-1] = byte(e)
		}
	}
	// n_fields (10 bits) and short flag
	nf := n << 1
	b[ext-4] |= byte(nf >> 8)
	b[ext-3] |= byte(nf)
	if w == 1 {
		b[ext-3] |= 1
	}
	for i := range fs {
		if vals[i] == nil {
			b = append(b, make([]byte, fs[i].NullLen)...)
		} else {
			b = append(b, vals[i]...)
		}
	}
	return Rec{b, ext}
}

// Encode builds the clustered record of a row.
func (t *Table) Encode(r Row, seq uint64) Rec {
	fs := t.Fields()
	var ext []bool
	for i, f := range fs {
		if f.Col < 0 {
			continue
		}
		if _, ok := r[f.Col].(*Lob); ok && f.Prefix == 0 {
			if ext == nil {
				ext = make([]bool, len(fs))
			}
			ext[i] = true
		}
	}
	if t.Redundant {
		return encodeRedundant(fs, t.Stored(r, seq), ext)
	}
	return encodeCompact(fs, t.Stored(r, seq), ext)
}
