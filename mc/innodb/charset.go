package innodb

import (
	"bytes"
	"fmt"

	"verif/mc/sqlp"
)

// Collations of MySQL 5.7 by the width of the characters of their charset.
var collations = []struct {
	min, max int
	ids      []int
}{
	{1, 1, []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16, 18, 20, 21, 22, 23, 25, 26, 27, 29, 30, 31, 32, 34, 36, 37, 38, 39, 40, 41, 42, 43, 44, 47,
		48, 49, 50, 51, 52, 53, 57, 58, 59, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 77, 78, 79, 80, 81, 82, 89, 92, 93, 94, 99, 2}},
	{1, 2, []int{1, 84, 13, 88, 19, 85, 24, 86, 28, 87, 95, 96}},              // big5 sjis euckr gb2312 gbk cp932
	{1, 3, append([]int{12, 91, 97, 98, 33, 76, 83, 223}, span(192, 215)...)}, // ujis eucjpms utf8
	{1, 4, append([]int{45, 46, 248, 249, 250}, span(224, 247)...)},           // utf8mb4 gb18030
	{2, 2, append([]int{35, 90, 159}, span(128, 151)...)},                     // ucs2
	{2, 4, append([]int{54, 55, 56, 62}, span(101, 124)...)},                  // utf16 utf16le
	{4, 4, append([]int{60, 61}, span(160, 183)...)},                          // utf32
}

func span(a, b int) (o []int) {
	for i := a; i <= b; i++ {
		o = append(o, i)
	}
	return
}

// Collations lists every collation id of 5.7 except binary.
func Collations() (o []int) {
	for _, g := range collations {
		o = append(o, g.ids...)
	}
	return
}

// CharWidth gives the shortest and longest character of a collation's charset, in bytes.
func CharWidth(coll int) (min, max int) {
	for _, g := range collations {
		for _, i := range g.ids {
			if i == coll {
				return g.min, g.max
			}
		}
	}
	panic("model: unknown collation")
}

// CsText encodes ASCII text in the charset.
func CsText(coll int, s string) []byte {
	min, _ := CharWidth(coll)
	var o []byte
	for i := 0; i < len(s); i++ {
		u := be(min, uint64(s[i]))
		if coll == 56 || coll == 62 { // little endian
			u[0], u[1] = u[1], u[0]
		}
		o = append(o, u...)
	}
	return o
}

func csMatch(coll int, padded bool) func(v Val, s sqlp.Value) bool {
	sp := CsText(coll, " ")
	return func(v Val, s sqlp.Value) bool {
		// No client sends text in a charset of two or four byte characters: only the bytes in hex can mean it.
		if s.Kind != sqlp.Hex && (s.Kind != sqlp.Str || len(sp) > 1) {
			return false
		}
		a, b := s.Bytes, v.([]byte)
		for padded && len(a)%len(sp) == 0 && bytes.HasSuffix(a, sp) {
			a = a[:len(a)-len(sp)]
		}
		for padded && bytes.HasSuffix(b, sp) {
			b = b[:len(b)-len(sp)]
		}
		return string(a) == string(b)
	}
}

// CharCs is CHAR(n) in a collation.
func CharCs(coll, n int) *Type {
	min, max := CharWidth(coll)
	t := &Type{Name: fmt.Sprintf("CHAR(%d) collation %d", n, coll), MType: DataMySQL, PrType: 254 | uint32(coll)<<16, Len: uint32(n * max), Pad: CsText(coll, " "), Match: csMatch(coll, true)}
	if coll == 8 {
		t.MType = DataChar
	}
	small := n // COMPACT: padded to n characters of one byte, else to the full length
	if min == max {
		t.Fixed, t.Big = n*max, n*max > 255
		small = n * max
	} else {
		t.Max, t.Big = n*max, n*max > 255
		if min > 1 {
			small = n * max
		}
	}
	t.Enc = func(v Val) []byte { return padWith(v.([]byte), small, t.Pad) }
	return t
}

// VarcharCs is VARCHAR(n) in a collation.
func VarcharCs(coll, n int) *Type {
	_, max := CharWidth(coll)
	t := &Type{Name: fmt.Sprintf("VARCHAR(%d) collation %d", n, coll), MType: DataVarMySQL, PrType: 15 | uint32(coll)<<16 | longVC(n*max), Len: uint32(n * max), Max: n * max, Big: n*max > 255, Enc: rawEnc, Match: csMatch(coll, false)}
	if coll == 8 {
		t.MType = DataVarchar
	}
	return t
}

// TextCs is TEXT in a collation.
func TextCs(coll int) *Type {
	return &Type{Name: fmt.Sprintf("TEXT collation %d", coll), MType: DataBlob, PrType: 252 | uint32(coll)<<16, Len: 10, Max: 8000, Big: true, Enc: rawEnc, Match: csMatch(coll, false)}
}

func padWith(b []byte, n int, p []byte) []byte {
	r := append([]byte{}, b...)
	for len(r) < n {
		r = append(r, p...)
	}
	return r
}
