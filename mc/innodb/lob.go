package innodb

import "fmt"

// Lob is a column value most of which is stored on LOB pages: the first Local bytes are in the
// row, followed by a reference of 20 bytes.
type Lob struct {
	B     []byte
	Local int // 768 in REDUNDANT and COMPACT, 0 in DYNAMIC
	Ref   [20]byte
	Lost  bool // its pages are damaged: nothing is known about the printed value
	Ord   int  // undo records: > 0 when a prefix of that many bytes is logged for an index
}

// LobCap is how many bytes of a value one LOB page has.
const LobCap = PageSize - 38 - 8 - 8

// externField marks lengths of off-page values in undo records.
const externField = SQLNull - 16384

func (l *Lob) stored() []byte {
	return append(append([]byte{}, l.B[:l.Local]...), l.Ref[:]...)
}

// Pages is how many LOB pages the value needs.
func (l *Lob) Pages() int { return (len(l.B) - l.Local + LobCap - 1) / LobCap }

// Place stores the off-page part on the pages of the given numbers and sets the reference; flags
// are the two top bits of the length (0x80: not the owner, 0x40: inherited).
func (l *Lob) Place(space uint32, nos []uint32, flags byte, pages map[uint32][]byte) {
	rest := l.B[l.Local:]
	put4(l.Ref[:], 0, space)
	put4(l.Ref[:], 4, nos[0])
	put4(l.Ref[:], 8, 38)
	put8(l.Ref[:], 12, uint64(len(rest)))
	l.Ref[12] |= flags
	for i, no := range nos {
		n := len(rest)
		if n > LobCap {
			n = LobCap
		}
		next := uint32(nil32)
		if i+1 < len(nos) {
			next = nos[i+1]
		}
		part := rest[:n]
		pages[no] = RawPage(space, no, PageBlob, func(b []byte) {
			put4(b, 38, uint32(n))
			put4(b, 42, next)
			copy(b[46:], part)
		})
		rest = rest[n:]
	}
	if len(rest) > 0 {
		panic("model: too few LOB pages")
	}
}

func (l *Lob) String() string { return fmt.Sprintf("off-page %s", Text(l.B)) }

// undoVal is an old value, with its stored bytes given, in an undo record.
func undoVal(v Val, stored []byte) []byte {
	l, ok := v.(*Lob)
	if !ok {
		return lenVal(stored)
	}
	if l.Ord > 0 {
		n := l.Ord
		if n > len(l.B) {
			n = len(l.B)
		}
		return cat(Comp(externField), Comp(uint64(l.Local+20)), Comp(uint64(n)), l.B[:n])
	}
	s := l.stored()
	return append(Comp(externField+uint64(len(s))), s...)
}
