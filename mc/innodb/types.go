// Package innodb is the reference model: it knows how InnoDB (MySQL 5.6/5.7) lays out rows,
// pages, the data dictionary and the redo log, and it is written from the InnoDB format
// documentation, not from the code under test.
package innodb

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"strings"

	"verif/mc/sqlp"
)

// InnoDB main types.
const (
	DataVarchar   = 1
	DataChar      = 2
	DataFixBinary = 3
	DataBinary    = 4
	DataBlob      = 5
	DataInt       = 6
	DataFloat     = 9
	DataDouble    = 10
	DataDecimal   = 11
	DataVarMySQL  = 12
	DataMySQL     = 13
	DataGeometry  = 14

	fNotNull  = 256
	fUnsigned = 512
	fBinary   = 1024
	fLongVC   = 4096
	fVirtual  = 8192

	csLatin1  = 8 << 16
	csUtf8    = 33 << 16
	csUtf8mb4 = 45 << 16
	csBin     = 63 << 16
)

// Val is a column value: nil (NULL), int64, uint64, []byte, float32, float64, Date, Clock, DateTime, Stamp.
type Val interface{}

type Date struct{ Y, M, D int }
type Clock struct {
	Neg     bool
	H, M, S int
	U       int // microseconds
}
type DateTime struct{ Y, Mo, D, H, M, S, U int }
type Stamp uint32

// StampU is a TIMESTAMP with a fraction.
type StampU struct {
	S uint32
	U int
}

// Type is a SQL column type with its dictionary entry and storage format.
type Type struct {
	Name   string
	MType  uint32
	PrType uint32 // without NOT NULL
	Len    uint32 // SYS_COLUMNS.LEN
	Fixed  int    // stored length if fixed; 0 = variable
	Max    int    // variable: longest value in bytes
	Big    bool   // COMPACT: length may need two bytes
	Pad    []byte // what pads CHAR values (nil: a space)
	Enc    func(v Val) []byte
	Match  func(v Val, s sqlp.Value) bool
	Cond   func(v Val, s sqlp.Value) bool // the literal equals the value in a condition; nil: Match
}

func be(n int, v uint64) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

// Text renders a value for messages.
func Text(v Val) string {
	switch x := v.(type) {
	case nil:
		return "NULL"
	case []byte:
		if len(x) > 48 {
			return fmt.Sprintf("%q...(%d bytes)", x[:24], len(x))
		}
		return fmt.Sprintf("%q", x)
	case *Lob:
		return x.String()
	case Date:
		return fmt.Sprintf("%04d-%02d-%02d", x.Y, x.M, x.D)
	case Clock:
		s := ""
		if x.Neg {
			s = "-"
		}
		return fmt.Sprintf("%s%02d:%02d:%02d%s", s, x.H, x.M, x.S, fracText(x.U))
	case DateTime:
		return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d%s", x.Y, x.Mo, x.D, x.H, x.M, x.S, fracText(x.U))
	case Stamp:
		return fmt.Sprintf("@%d", uint32(x))
	case StampU:
		return fmt.Sprintf("@%d%s", x.S, fracText(x.U))
	}
	return fmt.Sprintf("%v", v)
}

func fracText(u int) string {
	if u == 0 {
		return ""
	}
	return fmt.Sprintf(".%06d", u)
}

func matchInt(v Val, s sqlp.Value) bool {
	var want big.Int
	switch x := v.(type) {
	case int64:
		want.SetInt64(x)
	case uint64:
		want.SetUint64(x)
	}
	t := s.Text()
	if s.Kind != sqlp.Str && s.Kind != sqlp.Num {
		return false
	}
	var got big.Int
	if _, ok := got.SetString(strings.TrimPrefix(t, "+"), 10); !ok {
		return false
	}
	return got.Cmp(&want) == 0
}

// IntT: bytes 1,2,3,4,8.
func IntT(bytes int, unsigned bool) *Type {
	my := map[int]uint32{1: 1, 2: 2, 3: 9, 4: 3, 8: 8}[bytes]
	name := map[int]string{1: "TINYINT", 2: "SMALLINT", 3: "MEDIUMINT", 4: "INT", 8: "BIGINT"}[bytes]
	t := &Type{Name: name, MType: DataInt, PrType: my | fBinary, Len: uint32(bytes), Fixed: bytes, Match: matchInt}
	if unsigned {
		t.Name += " UNSIGNED"
		t.PrType |= fUnsigned
		t.Enc = func(v Val) []byte { return be(bytes, v.(uint64)) }
	} else {
		t.Enc = func(v Val) []byte {
			u := uint64(v.(int64))
			b := be(bytes, u)
			b[0] ^= 0x80
			return b
		}
	}
	return t
}

// EnumT is ENUM/SET: unsigned integer code of 1..8 bytes, value given as its number.
func EnumT(bytes int) *Type {
	return &Type{Name: fmt.Sprintf("ENUM/SET(%d)", bytes), MType: DataInt, PrType: 254 | fUnsigned | csLatin1, Len: uint32(bytes), Fixed: bytes,
		Enc: func(v Val) []byte { return be(bytes, v.(uint64)) },
		Match: func(v Val, s sqlp.Value) bool {
			// '1' is the member of that name, if there is one; a condition compares it with the name of the value.
			return s.Kind == sqlp.Num && matchInt(v, s)
		}}
}

// BitT is BIT(n bytes*8).
func BitT(bytes int) *Type {
	return &Type{Name: fmt.Sprintf("BIT(%d)", bytes*8), MType: DataFixBinary, PrType: 16 | fBinary | fUnsigned | csBin, Len: uint32(bytes), Fixed: bytes,
		Enc: func(v Val) []byte { return be(bytes, v.(uint64)) },
		Match: func(v Val, s sqlp.Value) bool {
			want := v.(uint64)
			switch s.Kind {
			case sqlp.Bits, sqlp.Hex:
				var got big.Int
				got.SetBytes(s.Bytes)
				return got.IsUint64() && got.Uint64() == want
			case sqlp.Num:
				return matchInt(v, s)
			}
			return false
		}}
}

func YearT() *Type {
	return &Type{Name: "YEAR", MType: DataInt, PrType: 13 | fBinary | fUnsigned, Len: 1, Fixed: 1,
		Enc: func(v Val) []byte {
			y := v.(uint64)
			if y == 0 {
				return []byte{0}
			}
			return []byte{byte(y - 1900)}
		},
		Match: func(v Val, s sqlp.Value) bool {
			// '0' as a one or two digit string would mean 2000, so year zero must be four digits or a number.
			if v.(uint64) == 0 && s.Kind == sqlp.Str && len(s.Text()) < 4 {
				return false
			}
			return matchInt(v, s)
		}}
}

func DateT(flip bool) *Type {
	t := &Type{Name: "DATE", MType: DataInt, PrType: 10 | fBinary, Len: 3, Fixed: 3}
	t.Enc = func(v Val) []byte {
		d := v.(Date)
		b := be(3, uint64(d.Y<<9|d.M<<5|d.D))
		if flip {
			b[0] ^= 0x80
		}
		return b
	}
	if !flip {
		t.PrType |= fUnsigned
	}
	t.Match = func(v Val, s sqlp.Value) bool {
		d := v.(Date)
		y, m, dd, ok := parseYMD(s)
		return ok && y == d.Y && m == d.M && dd == d.D
	}
	return t
}

func atoi(s string) (int, bool) {
	if s == "" || len(s) > 9 {
		return 0, false
	}
	n := 0
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
	}
	return n, true
}

func split3(s, sep string) (a, b, c int, lens [3]int, ok bool) {
	p := strings.Split(s, sep)
	if len(p) != 3 {
		return
	}
	var o [3]bool
	a, o[0] = atoi(p[0])
	b, o[1] = atoi(p[1])
	c, o[2] = atoi(p[2])
	lens = [3]int{len(p[0]), len(p[1]), len(p[2])}
	ok = o[0] && o[1] && o[2]
	return
}

func parseYMDs(t string) (y, m, d int, ok bool) {
	y, m, d, l, ok := split3(t, "-")
	if ok && l[0] < 3 && y != 0 {
		ok = false // MySQL reads a two digit year as 1970..2069
	}
	return y, m, d, ok
}

func parseYMD(s sqlp.Value) (y, m, d int, ok bool) {
	if s.Kind != sqlp.Str {
		return 0, 0, 0, false
	}
	return parseYMDs(s.Text())
}

func parseDT(s sqlp.Value) (DateTime, bool) {
	var d DateTime
	if s.Kind != sqlp.Str {
		return d, false
	}
	p := strings.SplitN(s.Text(), " ", 2)
	if len(p) != 2 {
		return d, false
	}
	var ok, ok2 bool
	d.Y, d.Mo, d.D, ok = parseYMDs(p[0])
	hms, u, ok3 := cutFrac(p[1])
	d.U = u
	d.H, d.M, d.S, _, ok2 = split3(hms, ":")
	return d, ok && ok2 && ok3
}

// cutFrac splits off the fraction of a second, in microseconds.
func cutFrac(s string) (string, int, bool) {
	i := strings.IndexByte(s, '.')
	if i < 0 {
		return s, 0, true
	}
	f := strings.TrimRight(s[i+1:], "0")
	if f == "" {
		return s[:i], 0, true
	}
	if len(f) > 6 {
		return s, 0, false
	}
	u, ok := atoi((f + "00000")[:6])
	return s[:i], u, ok
}

// fracBytes: bytes of the fraction with dec decimals, and the microseconds of one unit.
func fracBytes(dec int) (int, int) {
	k := (dec + 1) / 2
	return k, []int{1000000, 10000, 100, 1}[k]
}

func decName(name string, dec int) string {
	if dec == 0 {
		return name
	}
	return fmt.Sprintf("%s(%d)", name, dec)
}

// TimeT is TIME(dec), in the packed format of 5.6.
func TimeT(dec ...int) *Type { return timeT(append(dec, 0)[0]) }

func timeT(dec int) *Type {
	k, unit := fracBytes(dec)
	return &Type{Name: decName("TIME", dec), MType: DataFixBinary, PrType: 11 | fBinary, Len: uint32(3 + k), Fixed: 3 + k,
		Enc: func(v Val) []byte {
			c := v.(Clock)
			n := int64(c.H<<12|c.M<<6|c.S)<<uint(8*k) + int64(c.U/unit)
			if c.Neg {
				n = -n
			}
			return be(3+k, uint64(n+0x800000<<uint(8*k)))
		},
		Match: func(v Val, s sqlp.Value) bool {
			c := v.(Clock)
			if s.Kind != sqlp.Str {
				return false
			}
			t, u, ok2 := cutFrac(s.Text())
			neg := strings.HasPrefix(t, "-")
			h, m, sec, _, ok := split3(strings.TrimPrefix(t, "-"), ":")
			if c.H == 0 && c.M == 0 && c.S == 0 && c.U == 0 {
				neg = c.Neg
			}
			return ok && ok2 && neg == c.Neg && h == c.H && m == c.M && sec == c.S && u == c.U
		}}
}

// DateTimeT is DATETIME(dec), in the packed format of 5.6.
func DateTimeT(dec ...int) *Type { return dateTimeT(append(dec, 0)[0]) }

func dateTimeT(dec int) *Type {
	k, unit := fracBytes(dec)
	return &Type{Name: decName("DATETIME", dec), MType: DataFixBinary, PrType: 12 | fBinary, Len: uint32(5 + k), Fixed: 5 + k,
		Enc: func(v Val) []byte {
			d := v.(DateTime)
			ymd := uint64(d.Y*13+d.Mo)<<5 | uint64(d.D)
			hms := uint64(d.H)<<12 | uint64(d.M)<<6 | uint64(d.S)
			return append(be(5, (ymd<<17|hms)+0x8000000000), be(k, uint64(d.U/unit))...)
		},
		Match: func(v Val, s sqlp.Value) bool {
			d, ok := parseDT(s)
			return ok && d == v.(DateTime)
		}}
}

// civil converts seconds since the epoch to a UTC calendar time (days-from-civil inverse).
func civil(sec int64) DateTime {
	days, rem := sec/86400, int(sec%86400)
	if rem < 0 { // local time before 1970
		days, rem = days-1, rem+86400
	}
	z := days + 719468
	era := z / 146097
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d := doy - (153*mp+2)/5 + 1
	m := mp + 3
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		y++
	}
	return DateTime{int(y), int(m), int(d), rem / 3600, rem / 60 % 60, rem % 60, 0}
}

// Zone is how many seconds the time of the process is ahead of UTC (before the first shift); the printed time is local.
var Zone int64

// Shifts are the instants at which the clocks of the zone were changed, in order, and how far ahead of UTC they were from then on.
var Shifts []Shift

// Shift is a change of the clocks.
type Shift struct{ At, Ahead int64 }

func local(s int64) DateTime {
	ahead := Zone
	for _, x := range Shifts {
		if s >= x.At {
			ahead = x.Ahead
		}
	}
	return civil(s + ahead)
}

func StampT() *Type {
	return &Type{Name: "TIMESTAMP", MType: DataFixBinary, PrType: 7 | fBinary, Len: 4, Fixed: 4,
		Enc: func(v Val) []byte { return be(4, uint64(v.(Stamp))) },
		Match: func(v Val, s sqlp.Value) bool {
			d, ok := parseDT(s)
			if v.(Stamp) == 0 { // the zero TIMESTAMP
				return ok && d == DateTime{} || s.Kind == sqlp.Num && s.Text() == "0"
			}
			return ok && d == local(int64(v.(Stamp)))
		}}
}

// StampFT is TIMESTAMP(dec); its values are StampU.
func StampFT(dec int) *Type {
	k, unit := fracBytes(dec)
	return &Type{Name: decName("TIMESTAMP", dec), MType: DataFixBinary, PrType: 7 | fBinary, Len: uint32(4 + k), Fixed: 4 + k,
		Enc: func(v Val) []byte {
			x := v.(StampU)
			return append(be(4, uint64(x.S)), be(k, uint64(x.U/unit))...)
		},
		Match: func(v Val, s sqlp.Value) bool {
			x := v.(StampU)
			d, ok := parseDT(s)
			var want DateTime
			if x.S != 0 || x.U != 0 {
				want = local(int64(x.S))
				want.U = x.U
			}
			return ok && d == want
		}}
}

// OldTimeT, OldDateTimeT, OldStampT: columns of tables created before 5.6 keep decimal numbers.
func OldTimeT() *Type {
	return &Type{Name: "TIME (5.5)", MType: DataInt, PrType: 11 | fBinary, Len: 3, Fixed: 3,
		Enc: func(v Val) []byte {
			c := v.(Clock)
			n := int64(c.H*10000 + c.M*100 + c.S)
			if c.Neg {
				n = -n
			}
			return be(3, uint64(n+0x800000))
		},
		Match: func(v Val, s sqlp.Value) bool {
			c := v.(Clock)
			t := s.Text()
			if s.Kind != sqlp.Str && s.Kind != sqlp.Num {
				return false
			}
			neg := strings.HasPrefix(t, "-")
			t = strings.TrimPrefix(t, "-")
			h, m, sec, _, ok := split3(t, ":")
			if !ok { // HHMMSS
				n, ok := atoi(strings.TrimLeft(t, "0"))
				if strings.Trim(t, "0") == "" && t != "" {
					n, ok = 0, true
				}
				return ok && n == c.H*10000+c.M*100+c.S && (neg == c.Neg || n == 0)
			}
			return neg == c.Neg && h == c.H && m == c.M && sec == c.S
		}}
}

func OldDateTimeT() *Type {
	return &Type{Name: "DATETIME (5.5)", MType: DataInt, PrType: 12 | fBinary, Len: 8, Fixed: 8,
		Enc: func(v Val) []byte {
			d := v.(DateTime)
			n := uint64(d.Y*10000+d.Mo*100+d.D)*1000000 + uint64(d.H*10000+d.M*100+d.S)
			return be(8, n|1<<63)
		},
		Match: func(v Val, s sqlp.Value) bool {
			w := v.(DateTime)
			if d, ok := parseDT(s); ok {
				return d == w
			}
			t := s.Text() // YYYYMMDDHHMMSS
			return (s.Kind == sqlp.Str || s.Kind == sqlp.Num) && t == fmt.Sprintf("%04d%02d%02d%02d%02d%02d", w.Y, w.Mo, w.D, w.H, w.M, w.S)
		}}
}

func OldStampT() *Type {
	t := StampT()
	t.Name, t.MType, t.PrType = "TIMESTAMP (5.5)", DataInt, 7|fBinary|fUnsigned
	return t
}

func FloatT() *Type {
	return &Type{Name: "FLOAT", MType: DataFloat, PrType: 4 | fBinary, Len: 4, Fixed: 4,
		Enc: func(v Val) []byte {
			b := make([]byte, 4)
			binary.LittleEndian.PutUint32(b, math.Float32bits(v.(float32)))
			return b
		},
		Match: func(v Val, s sqlp.Value) bool {
			f, ok := sqlp.Float(s)
			return ok && float32(f) == v.(float32)
		},
		// conditions are compared with double precision
		Cond: func(v Val, s sqlp.Value) bool {
			f, ok := sqlp.Float(s)
			return ok && f == float64(v.(float32))
		}}
}

func DoubleT() *Type {
	return &Type{Name: "DOUBLE", MType: DataDouble, PrType: 5 | fBinary, Len: 8, Fixed: 8,
		Enc: func(v Val) []byte {
			b := make([]byte, 8)
			binary.LittleEndian.PutUint64(b, math.Float64bits(v.(float64)))
			return b
		},
		Match: func(v Val, s sqlp.Value) bool {
			f, ok := sqlp.Float(s)
			return ok && f == v.(float64)
		}}
}

func rawEnc(v Val) []byte { return v.([]byte) }

func matchBytes(v Val, s sqlp.Value) bool {
	return (s.Kind == sqlp.Str || s.Kind == sqlp.Hex) && string(s.Bytes) == string(v.([]byte))
}

// matchPadded: CHAR values compare equal whatever the trailing space padding.
func matchPadded(v Val, s sqlp.Value) bool {
	return (s.Kind == sqlp.Str || s.Kind == sqlp.Hex) && strings.TrimRight(string(s.Bytes), " ") == strings.TrimRight(string(v.([]byte)), " ")
}

func pad(b []byte, n int, c byte) []byte {
	r := append([]byte{}, b...)
	for len(r) < n {
		r = append(r, c)
	}
	return r
}

func longVC(n int) uint32 {
	if n > 255 {
		return fLongVC
	}
	return 0
}

// VarcharLatin1 is VARCHAR(n) CHARACTER SET latin1 (the 5.7 default).
func VarcharLatin1(n int) *Type {
	return &Type{Name: fmt.Sprintf("VARCHAR(%d) latin1", n), MType: DataVarchar, PrType: 15 | csLatin1 | longVC(n), Len: uint32(n), Max: n, Big: n > 255, Enc: rawEnc, Match: matchBytes}
}

// VarcharUtf8 is VARCHAR(n) CHARACTER SET utf8.
func VarcharUtf8(n int) *Type {
	return &Type{Name: fmt.Sprintf("VARCHAR(%d) utf8", n), MType: DataVarMySQL, PrType: 15 | csUtf8 | longVC(3*n), Len: uint32(3 * n), Max: 3 * n, Big: 3*n > 255, Enc: rawEnc, Match: matchBytes}
}

func CharLatin1(n int) *Type {
	return &Type{Name: fmt.Sprintf("CHAR(%d) latin1", n), MType: DataChar, PrType: 254 | csLatin1, Len: uint32(n), Fixed: n,
		Enc: func(v Val) []byte { return pad(v.([]byte), n, ' ') }, Match: matchPadded}
}

// CharUtf8 is CHAR(n) CHARACTER SET utf8: in COMPACT stored like a VARCHAR padded to at least n bytes.
func CharUtf8(n int) *Type {
	return &Type{Name: fmt.Sprintf("CHAR(%d) utf8", n), MType: DataMySQL, PrType: 254 | csUtf8, Len: uint32(3 * n), Max: 3 * n, Big: 3*n > 255,
		Enc: func(v Val) []byte { return pad(v.([]byte), n, ' ') }, Match: matchPadded}
}

func BinaryT(n int) *Type {
	return &Type{Name: fmt.Sprintf("BINARY(%d)", n), MType: DataFixBinary, PrType: 254 | fBinary | csBin, Len: uint32(n), Fixed: n,
		Enc: func(v Val) []byte { return pad(v.([]byte), n, 0) },
		Match: func(v Val, s sqlp.Value) bool {
			return (s.Kind == sqlp.Str || s.Kind == sqlp.Hex) && string(s.Bytes) == string(pad(v.([]byte), n, 0))
		}}
}

func VarbinaryT(n int) *Type {
	return &Type{Name: fmt.Sprintf("VARBINARY(%d)", n), MType: DataBinary, PrType: 15 | fBinary | csBin | longVC(n), Len: uint32(n), Max: n, Big: n > 255, Enc: rawEnc, Match: matchBytes}
}

// BlobT / TextT: kind 1..4 = TINY, plain, MEDIUM, LONG. Values are stored in the row.
func BlobT(kind int) *Type {
	n := map[int]string{1: "TINYBLOB", 2: "BLOB", 3: "MEDIUMBLOB", 4: "LONGBLOB"}[kind]
	return &Type{Name: n, MType: DataBlob, PrType: 252 | fBinary | csBin, Len: uint32(8 + kind), Max: 8000, Big: true, Enc: rawEnc, Match: matchBytes}
}

func TextT(kind int) *Type {
	n := map[int]string{1: "TINYTEXT", 2: "TEXT", 3: "MEDIUMTEXT", 4: "LONGTEXT"}[kind]
	return &Type{Name: n, MType: DataBlob, PrType: 252 | csUtf8, Len: uint32(8 + kind), Max: 8000, Big: true, Enc: rawEnc, Match: matchBytes}
}

// DecimalT is DECIMAL stored in n bytes; its values are those bytes (the dictionary has no scale to read them by).
func DecimalT(n int) *Type {
	return &Type{Name: fmt.Sprintf("DECIMAL (%d bytes)", n), MType: DataFixBinary, PrType: 246 | fBinary | csLatin1, Len: uint32(n), Fixed: n, Enc: rawEnc,
		Match: func(v Val, s sqlp.Value) bool { return s.Kind != sqlp.Null }}
}

// OldDecimalT is the DECIMAL of before 5.0: text of n characters, padded on the left.
func OldDecimalT(n int) *Type {
	return &Type{Name: fmt.Sprintf("DECIMAL of before 5.0 (%d)", n), MType: DataDecimal, PrType: fBinary, Len: uint32(n), Max: n, Big: n > 255,
		Enc: func(v Val) []byte { return append(bytes.Repeat([]byte{' '}, n-len(v.([]byte))), v.([]byte)...) },
		Match: func(v Val, s sqlp.Value) bool {
			var a, b big.Rat
			_, ok := a.SetString(string(v.([]byte)))
			_, ok2 := b.SetString(strings.Trim(s.Text(), " "))
			return ok && ok2 && (s.Kind == sqlp.Str || s.Kind == sqlp.Num) && a.Cmp(&b) == 0
		}}
}

// JSONT is JSON; its values are the bytes of the binary format.
func JSONT() *Type {
	return &Type{Name: "JSON", MType: DataBlob, PrType: 245 | fBinary | csBin, Len: 12, Max: 8000, Big: true, Enc: rawEnc, Match: matchBytes}
}

// GeometryT is a spatial type: in the dictionary a BLOB up to 5.6, a type of its own in 5.7.
func GeometryT(own bool) *Type {
	t := &Type{Name: "GEOMETRY (5.6)", MType: DataBlob, PrType: 255 | fBinary | csBin, Len: 12, Max: 8000, Big: true, Enc: rawEnc, Match: matchBytes}
	if own {
		t.Name, t.MType = "GEOMETRY (5.7)", DataGeometry
	}
	return t
}

// DocIDT is the type of the FTS_DOC_ID column InnoDB adds.
func DocIDT() *Type {
	return &Type{Name: "FTS_DOC_ID", MType: DataInt, PrType: 3 | fUnsigned | fBinary, Len: 8, Fixed: 8,
		Enc: func(v Val) []byte { return be(8, v.(uint64)) }, Match: matchInt}
}
