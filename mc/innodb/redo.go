package innodb

import "hash/crc32"

// Redo log records (MySQL 5.7 mtr/log formats).

const (
	M1          = 1
	M2          = 2
	M4          = 4
	M8          = 8
	MRecInsert  = 9
	MClustDel   = 10
	MSecDel     = 11
	MUpdInPlace = 13
	MRecDelete  = 14
	MListEndDel = 15
	MListStDel  = 16
	MListCopy   = 17
	MPageReorg  = 18
	MPageCreate = 19
	MUndoInsert = 20
	MUndoErase  = 21
	MUndoInit   = 22
	MUndoDisc   = 23
	MUndoReuse  = 24
	MUndoCreate = 25
	MRecMin     = 26
	MIbufInit   = 27
	MInitFile   = 29
	MWriteStr   = 30
	MMultiEnd   = 31
	MDummy      = 32
	MFileCreate = 33
	MFileRename = 34
	MFileDelete = 35
	MCompRecMin = 36
	MCompCreate = 37
	MCompInsert = 38
	MCompClust  = 39
	MCompSec    = 40
	MCompUpd    = 41
	MCompDelete = 42
	MCompLEnd   = 43
	MCompLStart = 44
	MCompLCopy  = 45
	MCompReorg  = 46
	MFileCr2    = 47
	MZipNode    = 48
	MZipBlob    = 49
	MZipHdr     = 50
	MZipComp    = 51
	MZipNoData  = 52
	MZipReorg   = 53
	MFileRen2   = 54
	MFileName   = 55
	MCheckpoint = 56
	MRtree      = 57
	MCompRtree  = 58
	MInitFile2  = 59
	MTruncate   = 60
	MIndexLoad  = 61

	SingleRec = 128
)

// Comp is mach_write_compressed.
func Comp(n uint64) []byte {
	switch {
	case n < 0x80:
		return []byte{byte(n)}
	case n < 0x4000:
		return be(2, n|0x8000)
	case n < 0x200000:
		return be(3, n|0xC00000)
	case n < 0x10000000:
		return be(4, n|0xE0000000)
	}
	return append([]byte{0xF0}, be(4, n)...)
}

// Comp64 is mach_u64_write_compressed: compressed high word, plain low word.
func Comp64(n uint64) []byte { return append(Comp(n>>32), be(4, n&0xffffffff)...) }

// Much is mach_u64_write_much_compressed.
func Much(n uint64) []byte {
	if n>>32 == 0 {
		return Comp(n)
	}
	return append(append([]byte{0xFF}, Comp(n>>32)...), Comp(n&0xffffffff)...)
}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// Log starts a log record: type, space id, page number, body.
func Log(typ byte, space, page uint64, body ...[]byte) []byte {
	return cat([]byte{typ}, Comp(space), Comp(page), cat(body...))
}

// IndexInfo is the COMPACT index description written before some records.
func IndexInfo(n, uniq int) []byte {
	b := cat(be(2, uint64(n)), be(2, uint64(uniq)))
	for i := 0; i < n; i++ {
		l := uint64(0x8004) // NOT NULL, 4 bytes
		if i%2 == 1 {
			l = 0x7fff // variable
		}
		b = append(b, be(2, l)...)
	}
	return b
}

// UndoRec types.
const (
	UndoInsertRec = 11
	UndoUpdExist  = 12
	UndoUpdDel    = 13
	UndoDelMark   = 14
)

const SQLNull = 0xFFFFFFFF

// Undo describes an undo log record of a table.
type Undo struct {
	T       *Table
	Type    int
	Cmpl    int // compilation info (0..7), multiplied by 16 in the type byte
	Extern  bool
	UndoNo  uint64
	TableID uint64 // 0: T.TableID
	TrxID   uint64
	RollPtr uint64
	Info    byte
	Old     Row   // row before the change (declared order)
	Changed []int // ordinals whose old values are logged, in log order
	RawPos  []uint64
	Tail    []byte
	New     Row         // row after the change (virtual columns log it too)
	VIdx    [][2]uint64 // virtual columns: the (index id, position) pairs of each
}

func lenVal(v []byte) []byte {
	if v == nil {
		return Comp(SQLNull)
	}
	return append(Comp(uint64(len(v))), v...)
}

// positions are the positions in the clustered index of all columns (FieldPos).
func (t *Table) positions() map[int]int {
	pos := map[int]int{}
	for p, f := range t.Fields() {
		if _, ok := pos[f.Col]; !ok && f.Prefix == 0 {
			pos[f.Col] = p
		}
	}
	return pos
}

// Body is the undo record without the page-chain pointers: what MLOG_UNDO_INSERT carries.
func (u *Undo) Body() []byte {
	id := u.TableID
	if id == 0 {
		id = u.T.TableID
	}
	typ := byte(u.Type | u.Cmpl<<4)
	if u.Extern {
		typ |= 128
	}
	b := cat([]byte{typ}, Much(u.UndoNo), Much(id))
	if u.Type != UndoInsertRec {
		b = cat(b, []byte{u.Info}, Comp64(u.TrxID), Comp64(u.RollPtr))
	}
	if u.T.Cluster == RowID {
		b = cat(b, lenVal(be(6, 0x207)))
	} else {
		key := u.T.Stored(u.Old, 7)[:len(u.T.Key)]
		for _, v := range key {
			b = cat(b, lenVal(v))
		}
	}
	if u.Type == UndoUpdExist || u.Type == UndoUpdDel {
		n := len(u.Changed) + len(u.RawPos)
		b = cat(b, Comp(uint64(n)))
		first := true
		pos, stored := u.T.positions(), u.T.Stored(u.Old, 7)
		for _, c := range u.Changed {
			if u.T.Cols[c].Virtual {
				b = cat(b, u.virtual(c, first))
				first = false
				continue
			}
			b = append(append(b, Comp(uint64(pos[c]))...), undoVal(u.Old[c], stored[pos[c]])...)
		}
		for _, p := range u.RawPos {
			b = cat(b, Comp(p), lenVal([]byte("xy")))
		}
	}
	return cat(b, u.Tail)
}

// virtual is the entry of a changed virtual column (trx_undo_log_v_idx and both values).
func (u *Undo) virtual(c int, first bool) []byte {
	v := uint64(0)
	for _, x := range u.T.Cols[:c] {
		if x.Virtual {
			v++
		}
	}
	info := Comp(uint64(len(u.VIdx)))
	for _, p := range u.VIdx {
		info = cat(info, Comp(p[0]), Comp(p[1]))
	}
	b := Comp(1023 + v) // REC_MAX_N_FIELDS
	if first {
		b = append(b, 0xF1) // VIRTUAL_COL_UNDO_FORMAT_1
	}
	b = cat(b, be(2, uint64(len(info)+2)), info)
	for _, r := range []Row{u.Old, u.New} {
		if r[c] == nil {
			b = cat(b, lenVal(nil))
		} else {
			b = cat(b, lenVal(u.T.Cols[c].T.Enc(r[c])))
		}
	}
	return b
}

// LogRec wraps the undo record in MLOG_UNDO_INSERT.
func (u *Undo) LogRec(space, page uint64) []byte {
	body := u.Body()
	return Log(MUndoInsert, space, page, be(2, uint64(len(body))), body)
}

// OrdTail is the "all ordering columns" part that follows when index order may have changed.
func OrdTail(fields ...[]byte) []byte {
	var b []byte
	for i, f := range fields {
		b = cat(b, Comp(uint64(i)), lenVal(f))
	}
	return cat(be(2, uint64(len(b)+2)), b)
}

// LogFile lays a record stream out as redo log files: header, checkpoints, 512 byte blocks.
type LogLayout struct {
	Files   int // number of files (>=1)
	PerFile int // blocks per file; the last file is zero padded
}

const blockData = 512 - 12 - 4

// Blocks cuts a record stream into log blocks (data part full except in the last one).
func Blocks(stream []byte, starts map[int]bool) [][]byte { return BlocksSz(stream, starts, nil) }

// BlocksSz is Blocks with explicit data sizes for the first blocks (a log flush may leave a block partly
// filled only at the very end of the log, so sizes other than full are only used for the last block).
func BlocksSz(stream []byte, starts map[int]bool, sizes []int) [][]byte {
	var out [][]byte
	no := uint32(1)
	for at := 0; at < len(stream) || len(out) == 0; no++ {
		n := blockData
		if len(sizes) > 0 {
			n = sizes[0]
			sizes = sizes[1:]
		}
		full := true
		if at+n >= len(stream) {
			if at+n > len(stream) {
				full = false
			}
			n = len(stream) - at
		}
		b := make([]byte, 512)
		put4(b, 0, no)
		if full {
			put2(b, 4, 512)
		} else {
			put2(b, 4, 12+n)
		}
		first := 0
		for i := at; i < at+n; i++ {
			if starts[i] {
				first = 12 + i - at
				break
			}
		}
		put2(b, 6, first)
		put4(b, 8, 3)
		copy(b[12:], stream[at:at+n])
		put4(b, 508, blockSum(b[:508]))
		out = append(out, b)
		at += n
	}
	out[0][0] |= 0x80 // flush bit
	put4(out[0], 508, blockSum(out[0][:508]))
	return out
}

func oldBlockSum(b []byte) uint32 {
	sum, sh := uint32(1), uint(0)
	for _, x := range b {
		sum &= 0x7fffffff
		sum += uint32(x) + uint32(x)<<sh
		sh++
		if sh > 24 {
			sh = 0
		}
	}
	return sum
}

// blockSum is the checksum of a log block since 5.7.9: CRC-32C.
func blockSum(b []byte) uint32 { return crc32.Checksum(b, castagnoli) }

// LogFileImage is one log file with the given blocks, zero padded to n blocks.
func LogFileImage(blocks [][]byte, n int) []byte {
	hdr := make([]byte, 512)
	put4(hdr, 0, 1)
	put8(hdr, 8, 8192)
	copy(hdr[16:], "MySQL 5.7.19\x00")
	put4(hdr, 508, 0xdeadbeef)
	cp := make([]byte, 512)
	put8(cp, 0, 3)
	put8(cp, 8, 8204)
	put8(cp, 16, 2048)
	img := cat(hdr, cp, make([]byte, 512), cp)
	for _, b := range blocks {
		img = append(img, b...)
	}
	for i := len(blocks); i < n; i++ {
		img = append(img, make([]byte, 512)...)
	}
	return img
}

// LogFiles splits the stream over files with per blocks each (0: everything in one file).
func LogFiles(stream []byte, starts map[int]bool, per int) [][]byte {
	bl := Blocks(stream, starts)
	if per <= 0 || per >= len(bl) {
		return [][]byte{LogFileImage(bl, len(bl)+2)}
	}
	var out [][]byte
	for at := 0; at < len(bl); at += per {
		e := at + per
		if e > len(bl) {
			e = len(bl)
		}
		out = append(out, LogFileImage(bl[at:e], per))
	}
	return out
}

// Circle describes log files that are written in a circle.
type Circle struct {
	Files, Per int    // Per blocks in each file
	First      uint32 // number of the first block of the stream, which goes to slot 0
	Pads       int    // zero blocks written behind the newest one (write-ahead)
	OldSum     bool   // with the checksum of before 5.7.9
	Torn       int    // bit k: the block k blocks before the newest one did not reach the disk
}

// LogCircle writes the stream to the files and returns them, with the slot of each surviving block of the
// stream (-1: overwritten).
func LogCircle(stream []byte, starts map[int]bool, c Circle) (slots [][]byte, at []int) {
	bl := Blocks(stream, starts)
	n := c.Files * c.Per
	slots = make([][]byte, n)
	owner := make([]int, n)
	for i := range owner {
		owner[i] = -1
	}
	for i, b := range bl {
		no := (c.First-1+uint32(i))&0x3FFFFFFF + 1
		if i == 0 || i%5 == 0 {
			no |= 0x80000000 // first block of a flush
		}
		put4(b, 0, no)
		if c.OldSum {
			put4(b, 508, oldBlockSum(b[:508]))
		} else {
			put4(b, 508, blockSum(b[:508]))
		}
		if k := len(bl) - 1 - i; k < 16 && c.Torn>>k&1 == 1 {
			continue
		}
		slots[i%n], owner[i%n] = b, i
	}
	for p := 0; p < c.Pads; p++ {
		s := (len(bl) + p) % n
		slots[s], owner[s] = make([]byte, 512), -1
	}
	at = make([]int, len(bl))
	for i := range at {
		at[i] = -1
	}
	for s, i := range owner {
		if slots[s] == nil {
			slots[s] = make([]byte, 512)
		}
		if i >= 0 {
			at[i] = s
		}
	}
	return
}

// CircleFiles are the files of the slots.
func CircleFiles(slots [][]byte, per int) [][]byte {
	var out [][]byte
	for i := 0; i < len(slots); i += per {
		out = append(out, LogFileImage(slots[i:i+per], per))
	}
	return out
}
