package innodb

import (
	"encoding/binary"
	"hash/crc32"
)

const PageSize = 16384

const (
	PageIndex     = 17855
	PageUndo      = 2
	PageInode     = 3
	PageAllocated = 0
	PageSys       = 6
	PageTrxSys    = 7
	PageFsp       = 8
	PageBlob      = 10
)

// Page is an index page with InnoDB's record heap, live list and free list.
type Page struct {
	B         []byte
	Redundant bool
	heapTop   int
	nHeap     int
	free      int // origin of first free record, 0 = none
	garbage   int
	live      []*Slot // key order
	frees     []*Slot // free list order (head first)
	lastIns   int
}

// Slot is a record placed on a page.
type Slot struct {
	Org   int // page offset of origin
	R     Rec
	Space int // bytes of the heap slot as recorded by the record itself
	Tag   interface{}
	Dead  bool // delete-marked, not purged yet
	heap  int
}

type PageHdr struct {
	Space, PageNo uint32
	Prev, Next    uint32
	Type          int
	Level         int
	IndexID       uint64
	MaxTrx        uint64
	LSN           uint64
}

const nil32 = 0xFFFFFFFF

func put2(b []byte, o, v int)        { binary.BigEndian.PutUint16(b[o:], uint16(v)) }
func put4(b []byte, o int, v uint32) { binary.BigEndian.PutUint32(b[o:], v) }
func put8(b []byte, o int, v uint64) { binary.BigEndian.PutUint64(b[o:], v) }
func get2(b []byte, o int) int       { return int(binary.BigEndian.Uint16(b[o:])) }

// NewPage makes an empty index page.
func NewPage(h PageHdr, redundant bool) *Page {
	p := &Page{B: make([]byte, PageSize), Redundant: redundant, nHeap: 2}
	p.SetHdr(h)
	if redundant {
		// infimum: 1 field of 8 bytes; offsets byte, 6 header bytes
		copy(p.B[94:], []byte{0x08, 0x01, 0x00, 0x00, 0x03, 0x00, 0x74})
		copy(p.B[101:], "infimum\x00")
		copy(p.B[109:], []byte{0x09, 0x01, 0x00, 0x08, 0x03, 0x00, 0x00})
		copy(p.B[116:], "supremum\x00")
		p.heapTop = 125
	} else {
		copy(p.B[94:], []byte{0x01, 0x00, 0x02, 0x00, 0x0d})
		copy(p.B[99:], "infimum\x00")
		copy(p.B[107:], []byte{0x01, 0x00, 0x0b, 0x00, 0x00})
		copy(p.B[112:], "supremum")
		p.heapTop = 120
	}
	return p
}

func (p *Page) inf() int {
	if p.Redundant {
		return 101
	}
	return 99
}

func (p *Page) sup() int {
	if p.Redundant {
		return 116
	}
	return 112
}

func (p *Page) SetHdr(h PageHdr) {
	b := p.B
	put4(b, 4, h.PageNo)
	pr, nx := h.Prev, h.Next
	if pr == 0 {
		pr = nil32
	}
	if nx == 0 {
		nx = nil32
	}
	put4(b, 8, pr)
	put4(b, 12, nx)
	put8(b, 16, h.LSN)
	put2(b, 24, h.Type)
	put4(b, 34, h.Space)
	put8(b, 38+18, h.MaxTrx)
	put2(b, 38+26, h.Level)
	put8(b, 38+28, h.IndexID)
}

// Clone copies the page (slots are shared, they are immutable once placed except by Delete/Reuse).
func (p *Page) Clone() *Page {
	q := *p
	q.B = append([]byte{}, p.B...)
	q.live = append([]*Slot{}, p.live...)
	q.frees = append([]*Slot{}, p.frees...)
	return &q
}

func (p *Page) Live() []*Slot  { return p.live }
func (p *Page) Frees() []*Slot { return p.frees }

func (p *Page) hdrOff(s *Slot) int { return s.Org }

func (p *Page) setHeapNo(s *Slot) {
	o := s.Org
	if p.Redundant {
		v := get2(p.B, o-5)&0x0007 | s.heap<<3
		put2(p.B, o-5, v)
	} else {
		put2(p.B, o-4, s.heap<<3) // status 0 = ordinary
	}
}

func (p *Page) setNext(org, next int) {
	if p.Redundant {
		put2(p.B, org-2, next)
		return
	}
	if next == 0 {
		put2(p.B, org-2, 0)
		return
	}
	put2(p.B, org-2, (next-org)&0xffff)
}

// limit is where the heap must end when n records are alive: the trailer and the page directory follow.
func limit(n int) int { return PageSize - 8 - 2*(2+n/7) }

// Insert places r at position pos of the live list; reuses the head of the free list when it is
// large enough (as page_cur_insert_rec_low does). Returns nil when the page is full.
func (p *Page) Insert(pos int, r Rec, tag interface{}) *Slot {
	s := &Slot{R: r, Tag: tag, Space: len(r.B)}
	if len(p.frees) > 0 && p.frees[0].Space >= len(r.B) {
		h := p.frees[0]
		start := h.Org - h.R.Origin
		s.Org = start + r.Origin
		s.heap = h.heap
		p.frees = append([]*Slot{}, p.frees[1:]...)
		p.garbage -= len(r.B)
	} else {
		if p.heapTop+len(r.B) > limit(p.nHeap-1) {
			return nil
		}
		s.Org = p.heapTop + r.Origin
		s.heap = p.nHeap
		p.heapTop += len(r.B)
		p.nHeap++
	}
	copy(p.B[s.Org-r.Origin:], r.B)
	p.setHeapNo(s)
	p.live = append(p.live[:pos:pos], append([]*Slot{s}, p.live[pos:]...)...)
	p.lastIns = s.Org
	p.link()
	return s
}

// Append inserts at the end.
func (p *Page) Append(r Rec, tag interface{}) *Slot { return p.Insert(len(p.live), r, tag) }

// AppendFast appends without rewriting the chains (Bytes does that at the end).
func (p *Page) AppendFast(r Rec, tag interface{}) *Slot {
	if p.heapTop+len(r.B) > limit(p.nHeap-1) {
		return nil
	}
	s := &Slot{R: r, Tag: tag, Space: len(r.B), Org: p.heapTop + r.Origin, heap: p.nHeap}
	p.heapTop += len(r.B)
	p.nHeap++
	copy(p.B[s.Org-r.Origin:], r.B)
	p.setHeapNo(s)
	p.live = append(p.live, s)
	p.lastIns = s.Org
	return s
}

// Reorder makes perm the key order of the live records (indexes into the current order): records
// that were appended in that order of their heap slots.
func (p *Page) Reorder(perm []int) {
	l := make([]*Slot, len(perm))
	for i, x := range perm {
		l[i] = p.live[x]
	}
	p.live = l
}

// PurgeAt purges the live records of the given indexes, in that order.
func (p *Page) PurgeAt(idx []int) {
	gone := map[int]bool{}
	for _, i := range idx {
		s := p.live[i]
		p.InfoBits(s.Org, 0x20)
		p.frees = append(p.frees, s)
		p.garbage += len(s.R.B)
		gone[i] = true
	}
	for i, j := 0, len(p.frees)-1; i < j; i, j = i+1, j-1 {
		p.frees[i], p.frees[j] = p.frees[j], p.frees[i]
	}
	var l []*Slot
	for i, s := range p.live {
		if !gone[i] {
			l = append(l, s)
		}
	}
	p.live = l
	p.lastIns = 0
}

// PurgeAll purges every live record, last first.
func (p *Page) PurgeAll() {
	for i := len(p.live) - 1; i >= 0; i-- {
		s := p.live[i]
		p.InfoBits(s.Org, 0x20)
		p.frees = append(p.frees, s)
		p.garbage += len(s.R.B)
	}
	for i, j := 0, len(p.frees)-1; i < j; i, j = i+1, j-1 {
		p.frees[i], p.frees[j] = p.frees[j], p.frees[i]
	}
	p.live = nil
	p.lastIns = 0
}

// Delete purges live record i: it goes to the head of the free list. A purged record was delete
// marked before (marked); a record that moved elsewhere was not.
func (p *Page) Delete(i int, marked bool) {
	s := p.live[i]
	if marked {
		p.InfoBits(s.Org, 0x20)
	}
	p.live = append(p.live[:i:i], p.live[i+1:]...)
	p.frees = append([]*Slot{s}, p.frees...)
	p.garbage += len(s.R.B)
	p.lastIns = 0
	p.link()
}

// Mark delete-marks live record i: it stays in its list until it is purged.
func (p *Page) Mark(i int) {
	s := *p.live[i]
	s.Dead = true
	p.live = append([]*Slot{}, p.live...)
	p.live[i] = &s
	p.InfoBits(s.Org, 0x20)
}

// Alive and Marked split the live list.
func (p *Page) Alive() (o []*Slot) {
	for _, s := range p.live {
		if !s.Dead {
			o = append(o, s)
		}
	}
	return
}

func (p *Page) Marked() (o []*Slot) {
	for _, s := range p.live {
		if s.Dead {
			o = append(o, s)
		}
	}
	return
}

// ReplaceInPlace overwrites live record i with a same-size record.
func (p *Page) ReplaceInPlace(i int, r Rec, tag interface{}) {
	o := p.live[i]
	if len(o.R.B) != len(r.B) || o.R.Origin != r.Origin {
		panic("model: in-place update of a different size")
	}
	s := &Slot{Org: o.Org, R: r, Tag: tag, Space: o.Space, heap: o.heap}
	p.live = append([]*Slot{}, p.live...)
	p.live[i] = s
	copy(p.B[s.Org-r.Origin:], r.B)
	p.setHeapNo(s)
	p.link()
}

// InfoBits sets info bits of a record.
func (p *Page) InfoBits(org int, bits byte) {
	if p.Redundant {
		p.B[org-6] |= bits
	} else {
		p.B[org-5] |= bits
	}
}

func (p *Page) nOwned(org, n int) {
	o := org - 5
	if p.Redundant {
		o = org - 6
	}
	p.B[o] = p.B[o]&0xf0 | byte(n)
}

// link rewrites the record chains, the page directory and the page header.
func (p *Page) link() {
	b := p.B
	prev := p.inf()
	for _, s := range p.live {
		p.setNext(prev, s.Org)
		p.nOwned(s.Org, 0)
		prev = s.Org
	}
	p.setNext(prev, p.sup())
	p.setNext(p.sup(), 0)
	for i, s := range p.frees {
		n := 0
		if i+1 < len(p.frees) {
			n = p.frees[i+1].Org
		}
		p.setNext(s.Org, n)
		p.nOwned(s.Org, 0)
	}
	// page directory: infimum, every 4th record (every 7th when that does not fit), supremum
	for i := p.heapTop; i < PageSize-8; i++ {
		b[i] = 0
	}
	slots := []int{p.inf()}
	p.nOwned(p.inf(), 1)
	step := 4
	if PageSize-8-2*(2+len(p.live)/4) < p.heapTop {
		step = 7
	}
	cnt := 0
	for i, s := range p.live {
		cnt++
		if cnt == step && i+1 < len(p.live) {
			slots = append(slots, s.Org)
			p.nOwned(s.Org, cnt)
			cnt = 0
		}
	}
	slots = append(slots, p.sup())
	p.nOwned(p.sup(), cnt+1)
	for i, o := range slots {
		put2(b, PageSize-8-2*(i+1), o)
	}
	h := 38
	put2(b, h, len(slots))
	put2(b, h+2, p.heapTop)
	nh := p.nHeap
	if !p.Redundant {
		nh |= 0x8000
	}
	put2(b, h+4, nh)
	if len(p.frees) > 0 {
		put2(b, h+6, p.frees[0].Org)
	} else {
		put2(b, h+6, 0)
	}
	put2(b, h+8, p.garbage)
	put2(b, h+10, p.lastIns)
	put2(b, h+12, 2)
	put2(b, h+14, 0)
	put2(b, h+16, len(p.live))
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// Checksum stamps the page checksum (crc32) and trailer.
func Checksum(b []byte) {
	c := crc32.Checksum(b[4:26], castagnoli) ^ crc32.Checksum(b[38:PageSize-8], castagnoli)
	put4(b, 0, c)
	put4(b, PageSize-8, c)
	copy(b[PageSize-4:], b[20:24])
}

// Bytes finishes the page.
func (p *Page) Bytes() []byte {
	p.link()
	Checksum(p.B)
	return p.B
}

// RawPage makes a non-index page of the given type.
func RawPage(space, no uint32, typ int, fill func(b []byte)) []byte {
	b := make([]byte, PageSize)
	put4(b, 4, no)
	put4(b, 8, nil32)
	put4(b, 12, nil32)
	put2(b, 24, typ)
	put4(b, 34, space)
	if fill != nil {
		fill(b)
	}
	Checksum(b)
	return b
}
