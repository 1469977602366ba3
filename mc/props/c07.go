package props

import (
	"fmt"
	"math"
	"strings"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// strTypes: every supported string type; the enumerated content must fit max bytes.
var strTypes = []*Type{
	VarcharUtf8(40), VarcharLatin1(60), VarcharUtf8(200), VarcharLatin1(300), TextT(2), TextT(1),
	CharUtf8(20), CharLatin1(20), VarbinaryT(60), VarbinaryT(300), BlobT(2), BlobT(4), BinaryT(20),
}

// what a BINARY(n) / CHAR value may be: CHAR values never end in spaces (they are padded with them).
func storable(t *Type, b []byte) bool {
	switch t.MType {
	case DataChar, DataMySQL:
		return len(b) == 0 || b[len(b)-1] != ' '
	}
	return true
}

func strSet(t *Type, name string, n int, at func(i int) []byte) valueSet {
	return valueSet{t, t.Name + " " + name, n, func(i int) Val {
		b := at(i)
		if !storable(t, b) {
			b = append(append([]byte{}, b...), '.')
		}
		return b
	}}
}

func words(alpha []byte, n int) (int, func(i int) []byte) {
	cnt, pw := 0, 1
	for l := 0; l <= n; l++ {
		cnt += pw
		pw *= len(alpha)
	}
	return cnt, func(i int) []byte {
		l, p := 0, 1
		for i >= p {
			i -= p
			l++
			p *= len(alpha)
		}
		b := make([]byte, l)
		for k := range b {
			b[k] = alpha[i%len(alpha)]
			i /= len(alpha)
		}
		return b
	}
}

// special words: whatever the tool could take for something else than text.
var special = []string{
	"NULL", "null", "Null", "'NULL'", "\\N", "<nil>", "nil", "%!v(MISSING)", "%s", "%v", "%d%%", "%", "_",
	"0001-01-01T00:00:00Z", "0000-00-00", "0000-00-00 00:00:00", "true", "false", "0", "-0", "1e10", "0x41", "b'1'", "x'41'", "unhex('41')",
	"', '", "');", "'); drop table t; -- ", "--", "#", "/*", "*/", ";", "`", "``", "``.``", "\"", "\\", "\\\\", "\\'", "'", "''", "'\\''", "\\n", "\\0",
	" ", "  ", "\t", "\n", "\r\n", " a", "\ta", "\na", "\x00a", "a\x00", "\u00a0a", "\u2003", "\u3000x", "\u0085", "a b", "\x1a", "\x1b", "\x7f", "\x80", "\xff", "\xc3\xa9", "\xc3", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xef\xbf\xbd", "\xed\xa0\x80", "\xfe\xff", "DB_TRX_ID", "values (", "replace into",
}

func floatSets(th bool) []valueSet {
	mant := []uint32{0, 1, 2, 3, 0x3fffff, 0x400000, 0x400001, 0x5a5a5a, 0x2aaaaa, 0x7ffffe, 0x7fffff}
	if th {
		for i := uint(0); i < 23; i++ {
			mant = append(mant, 1<<i, 0x7fffff-1<<i)
		}
	}
	mant64 := []uint64{0, 1, 2, 0x7ffffffffffff, 0x8000000000000, 0x5a5a5a5a5a5a5, 0xaaaaaaaaaaaaa, 0xffffffffffffe, 0xfffffffffffff}
	if th {
		for i := uint(0); i < 52; i += 3 {
			mant64 = append(mant64, 1<<i, 0xfffffffffffff-1<<i)
		}
	}
	var small []Val
	for i := -2000; i <= 2000; i++ {
		small = append(small, float32(i)/100)
	}
	var small64 []Val
	for i := -2000; i <= 2000; i++ {
		small64 = append(small64, float64(i)/100)
	}
	for i := 0; i < 20; i++ {
		small = append(small, float32(math.Pow10(i)), float32(math.Pow10(-i)), float32(math.Pow10(i)+1))
		small64 = append(small64, math.Pow10(i), math.Pow10(-i), math.Pow10(i)+1, math.Pow10(i)-1)
	}
	// the only FLOAT whose shortest text (7.038531e-26) is another FLOAT when it is read as a DOUBLE first, found by going through all of them
	small = append(small, math.Float32frombits(363742205), -math.Float32frombits(363742205), math.Float32frombits(363742204), math.Float32frombits(363742206))
	ft, dt := FloatT(), DoubleT()
	return []valueSet{
		{ft, "FLOAT", 2 * 255 * len(mant), func(i int) Val {
			s := uint32(i%2) << 31
			i /= 2
			return math.Float32frombits(s | uint32(i%255)<<23 | mant[i/255])
		}},
		{dt, "DOUBLE", 2 * 2047 * len(mant64), func(i int) Val {
			s := uint64(i%2) << 63
			i /= 2
			return math.Float64frombits(s | uint64(i%2047)<<52 | mant64[i/2047])
		}},
		list(ft, small), list(dt, small64),
	}
}

func c07(th bool) []*eng.Space {
	alpha := []byte{0, '\n', '\r', '\\', '\'', '"', 26, 'n', '0', ' ', '%', 0xc3, 0xa9}
	maxLen := 3
	if th {
		maxLen = 4
	}
	var ws, sp, by []valueSet
	for _, t := range strTypes {
		n, at := words(alpha, maxLen)
		ws = append(ws, strSet(t, "words", n, at))
		k := len(special)
		sp = append(sp, strSet(t, "special", k+4*k+k*k, func(i int) []byte {
			if i < k {
				return []byte(special[i])
			}
			i -= k
			if i < 4*k {
				w := special[i/4]
				return [][]byte{[]byte("x" + w), []byte(w + "x"), []byte("x" + w + "x"), []byte("x" + w + "'x")}[i%4]
			}
			i -= 4 * k
			b := []byte(special[i/k] + special[i%k])
			if len(b) > 20 {
				b = b[:20] // fits every type
			}
			return b
		}))
		by = append(by, strSet(t, "bytes", 256+65536, func(i int) []byte {
			if i < 256 {
				return []byte{byte(i)}
			}
			i -= 256
			return []byte{byte(i >> 8), byte(i)}
		}))
	}
	// special words that do not fit CHAR(20)/BINARY(20) are cut
	for j := range sp {
		at, t := sp[j].at, sp[j].t
		m := t.Max
		if t.Fixed > 0 {
			m = t.Fixed
		}
		if t.MType == DataMySQL {
			m = 20
		}
		sp[j].at = func(i int) Val {
			b := at(i).([]byte)
			if len(b) > m {
				b = []byte(strings.TrimRight(string(b[:m]), " "))
			}
			return b
		}
	}
	spaces := []*eng.Space{
		valueSpace("words", fmt.Sprintf("every string of at most %d bytes over the alphabet %q, in %d string types", maxLen, alpha, len(strTypes)), ws, 1200, th),
		valueSpace("special-words", fmt.Sprintf("%d words that look like SQL, NULL, dates, formats, padding; alone, embedded, and every pair of them", len(special)), sp, 1200, true),
		valueSpace("bytes", "every byte and every pair of bytes, in every string type", by, 4096, th),
		valueSpace("floats", "FLOAT and DOUBLE: every sign and finite exponent x boundary mantissas, hundredths in -20..20, powers of ten", floatSets(th), 4096, true),
	}
	step := 16
	if th {
		step = 1
	}
	var ch, lg []valueSet
	for _, t := range []*Type{VarcharUtf8(40), CharUtf8(20), TextT(2)} {
		// every third string of the quick tier is another way to embed the character
		ch = append(ch, strSet(t, "characters", 3*(65536+0x100000/step), func(i int) []byte {
			r := i / 3
			if r >= 65536 {
				r = 65536 + (r-65536)*step + (r-65536)%step
			}
			u := utf8Of(r)
			return [][]byte{u, append(append([]byte{}, u...), 'x'), append([]byte{'\''}, u...)}[i%3]
		}))
	}
	for _, t := range []*Type{VarcharUtf8(2600), VarcharLatin1(7900), TextT(2), BlobT(2), VarbinaryT(7900)} {
		n, at := longValues(7700)
		lg = append(lg, strSet(t, "long", n, at))
	}
	spaces = append(spaces,
		valueSpace("characters", fmt.Sprintf("every code of the basic plane in UTF-8 (surrogates, too) and every %dth of the others, alone, before a letter and behind a quote", step), ch, 16384, false),
		valueSpace("long-values", "strings of up to 7700 bytes: of one special character only, and with one special character or three at positions around powers of two", lg, 60, th))
	return spaces
}

// utf8Of is the UTF-8 form of any code, also of those that are no characters.
func utf8Of(r int) []byte {
	switch {
	case r < 0x80:
		return []byte{byte(r)}
	case r < 0x800:
		return []byte{0xc0 | byte(r>>6), 0x80 | byte(r&63)}
	case r < 0x10000:
		return []byte{0xe0 | byte(r>>12), 0x80 | byte(r>>6&63), 0x80 | byte(r&63)}
	}
	return []byte{0xf0 | byte(r>>18), 0x80 | byte(r>>12&63), 0x80 | byte(r>>6&63), 0x80 | byte(r&63)}
}

var longSpecial = []string{"\x00", "\n", "\r", "\\", "'", "\"", "\x1a", "\xff", "\u00e9", "\u4e2d"}

// longValues: n strings of at most max bytes.
func longValues(max int) (int, func(i int) []byte) {
	type v struct {
		n, at, k int // length, position of a special character (-1: everywhere), which
		more     bool
	}
	var vs []v
	for k := range longSpecial {
		for _, n := range []int{127, 128, 255, 256, 257, 512, 1000, 1024, 2047, 2048, 4096, 4097, 5000, max} {
			if n > max {
				continue
			}
			vs = append(vs, v{n, -1, k, false})
			for p := 64; p < n; p *= 2 {
				for d := -2; d <= 1; d++ {
					if p+d < n-3 {
						vs = append(vs, v{n, p + d, k, d == 0})
					}
				}
			}
			vs = append(vs, v{n, n - len(longSpecial[k]), k, true}, v{n, 0, k, true})
		}
	}
	return len(vs), func(i int) []byte {
		x := vs[i]
		w := longSpecial[x.k]
		b := make([]byte, 0, x.n)
		if x.at < 0 {
			for len(b)+len(w) <= x.n {
				b = append(b, w...)
			}
			return b
		}
		for len(b) < x.at {
			b = append(b, byte('a'+len(b)%26))
		}
		b = append(b, w...)
		for len(b) < x.n {
			b = append(b, byte('a'+len(b)%26))
		}
		if x.more {
			copy(b[x.n/2:], "''\\")
		}
		return b
	}
}

func init() {
	eng.Register(&eng.Check{ID: "C07", Title: "string, binary, LOB and floating point literals", Level: "model_checking", Spaces: c07})
}
