// Package sqlp reads the SQL the tool prints, the way a MySQL server would read it
// (default sql_mode), so that the oracle compares meanings and not spellings.
package sqlp

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

type Kind int

const (
	Null Kind = iota
	Str
	Num
	Bits
	Hex
	Default // the keyword
)

type Value struct {
	Kind  Kind
	Bytes []byte // Str/Hex: content; Num: digits; Bits: big-endian value
}

func (v Value) Text() string { return string(v.Bytes) }

func (v Value) String() string {
	switch v.Kind {
	case Null:
		return "NULL"
	case Str:
		if len(v.Bytes) > 60 {
			return fmt.Sprintf("'%.30q...'(%d)", v.Bytes[:30], len(v.Bytes))
		}
		return fmt.Sprintf("%q", v.Bytes)
	case Num:
		return string(v.Bytes)
	case Default:
		return "DEFAULT"
	case Bits:
		return fmt.Sprintf("b:%x", v.Bytes)
	}
	if len(v.Bytes) > 30 {
		return fmt.Sprintf("x:%x...(%d)", v.Bytes[:30], len(v.Bytes))
	}
	return fmt.Sprintf("x:%x", v.Bytes)
}

// Float reads a numeric literal or a quoted number.
func Float(v Value) (float64, bool) {
	if v.Kind != Str && v.Kind != Num {
		return 0, false
	}
	t := v.Text()
	for _, c := range t {
		if !strings.ContainsRune("0123456789.+-eE", c) {
			return 0, false
		}
	}
	f, err := strconv.ParseFloat(t, 64)
	return f, err == nil
}

type Assign struct {
	Col  string
	Val  Value
	Left int // a condition on left(Col, Left)
}

// Stmt is one replace/insert (Vals, Cols may be nil) or update (Set, Where).
type Stmt struct {
	Verb  string
	DB    string
	Table string
	Cols  []string
	Vals  []Value
	Set   []Assign
	Where []Assign
}

type lx struct {
	s string
	i int
}

func (l *lx) ws() {
	for l.i < len(l.s) && strings.IndexByte(" \t\r\n", l.s[l.i]) >= 0 {
		l.i++
	}
}

func (l *lx) errf(f string, a ...interface{}) error {
	lo, hi := l.i-20, l.i+30
	if lo < 0 {
		lo = 0
	}
	if hi > len(l.s) {
		hi = len(l.s)
	}
	return fmt.Errorf("%s at byte %d near %q", fmt.Sprintf(f, a...), l.i, l.s[lo:hi])
}

func (l *lx) peek() byte {
	l.ws()
	if l.i >= len(l.s) {
		return 0
	}
	return l.s[l.i]
}

func (l *lx) ch(c byte) bool {
	if l.peek() == c {
		l.i++
		return true
	}
	return false
}

func isWord(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' || c >= 0x80
}

func (l *lx) word() string {
	l.ws()
	j := l.i
	for j < len(l.s) && isWord(l.s[j]) {
		j++
	}
	w := l.s[l.i:j]
	l.i = j
	return w
}

func (l *lx) kw(w string) bool {
	save := l.i
	if strings.EqualFold(l.word(), w) {
		return true
	}
	l.i = save
	return false
}

func (l *lx) ident() (string, error) {
	if l.ch('`') {
		var b strings.Builder
		for {
			if l.i >= len(l.s) {
				return "", l.errf("unterminated identifier")
			}
			c := l.s[l.i]
			l.i++
			if c == '`' {
				if l.i < len(l.s) && l.s[l.i] == '`' {
					b.WriteByte('`')
					l.i++
					continue
				}
				if b.Len() == 0 {
					return "", l.errf("empty identifier")
				}
				return b.String(), nil
			}
			b.WriteByte(c)
		}
	}
	w := l.word()
	if w == "" {
		return "", l.errf("identifier expected")
	}
	return w, nil
}

func (l *lx) str() ([]byte, error) {
	q := l.s[l.i]
	l.i++
	var b []byte
	for {
		if l.i >= len(l.s) {
			return nil, l.errf("unterminated string")
		}
		c := l.s[l.i]
		l.i++
		switch {
		case c == q:
			if l.i < len(l.s) && l.s[l.i] == q {
				b = append(b, q)
				l.i++
				continue
			}
			return b, nil
		case c == '\\':
			if l.i >= len(l.s) {
				return nil, l.errf("unterminated string")
			}
			e := l.s[l.i]
			l.i++
			switch e {
			case '0':
				e = 0
			case 'b':
				e = 8
			case 'n':
				e = '\n'
			case 'r':
				e = '\r'
			case 't':
				e = '\t'
			case 'Z':
				e = 26
			}
			b = append(b, e)
		default:
			b = append(b, c)
		}
	}
}

func unhex(s []byte) ([]byte, bool) {
	if len(s)%2 == 1 {
		s = append([]byte{'0'}, s...)
	}
	out := make([]byte, len(s)/2)
	for i := range out {
		v, err := strconv.ParseUint(string(s[2*i:2*i+2]), 16, 8)
		if err != nil {
			return nil, false
		}
		out[i] = byte(v)
	}
	return out, true
}

func bits(s []byte) ([]byte, bool) {
	var v big.Int
	if len(s) == 0 {
		return nil, true
	}
	for _, c := range s {
		if c != '0' && c != '1' {
			return nil, false
		}
	}
	v.SetString(string(s), 2)
	return v.Bytes(), true
}

func (l *lx) value() (Value, error) {
	c := l.peek()
	switch {
	case c == '\'' || c == '"':
		b, err := l.str()
		return Value{Str, b}, err
	case (c == 'b' || c == 'B' || c == 'x' || c == 'X') && l.i+1 < len(l.s) && l.s[l.i+1] == '\'':
		l.i++
		raw, err := l.str()
		if err != nil {
			return Value{}, err
		}
		if c == 'b' || c == 'B' {
			b, ok := bits(raw)
			if !ok {
				return Value{}, l.errf("bad bit literal b'%s'", raw)
			}
			return Value{Bits, b}, nil
		}
		b, ok := unhex(raw)
		if !ok || len(raw)%2 == 1 {
			return Value{}, l.errf("bad hex literal")
		}
		return Value{Hex, b}, nil
	case c == '0' && l.i+1 < len(l.s) && (l.s[l.i+1] == 'x' || l.s[l.i+1] == 'b'):
		w := l.word()
		if w[1] == 'x' {
			b, ok := unhex([]byte(w[2:]))
			if !ok || len(w) == 2 {
				return Value{}, l.errf("bad hex literal")
			}
			return Value{Hex, b}, nil
		}
		b, ok := bits([]byte(w[2:]))
		if !ok || len(w) == 2 {
			return Value{}, l.errf("bad bit literal")
		}
		return Value{Bits, b}, nil
	case c == '-' || c == '+' || c == '.' || c >= '0' && c <= '9':
		j := l.i + 1
		for j < len(l.s) && strings.IndexByte("0123456789.eE+-", l.s[j]) >= 0 {
			j++
		}
		t := l.s[l.i:j]
		if _, err := strconv.ParseFloat(t, 64); err != nil {
			return Value{}, l.errf("bad number %q", t)
		}
		l.i = j
		return Value{Num, []byte(t)}, nil
	}
	save := l.i
	w := strings.ToLower(l.word())
	switch w {
	case "null":
		return Value{Kind: Null}, nil
	case "default":
		return Value{Kind: Default}, nil
	case "unhex":
		if !l.ch('(') {
			return Value{}, l.errf("( expected")
		}
		v, err := l.value()
		if err != nil {
			return v, err
		}
		if !l.ch(')') {
			return Value{}, l.errf(") expected")
		}
		if v.Kind == Null {
			return v, nil
		}
		if v.Kind != Str {
			return Value{}, l.errf("unhex of a non-string")
		}
		b, ok := unhex(v.Bytes)
		if !ok {
			return Value{Kind: Null}, nil // MySQL: UNHEX of a non-hex string is NULL
		}
		return Value{Hex, b}, nil
	}
	l.i = save
	return Value{}, l.errf("value expected")
}

func (l *lx) assigns(cond bool, sep func() bool) ([]Assign, error) {
	var out []Assign
	for {
		save, left := l.i, 0
		if cond && l.kw("left") && l.ch('(') {
			left = 1
		} else {
			l.i = save
		}
		c, err := l.ident()
		if err != nil {
			return nil, err
		}
		if left > 0 {
			if !l.ch(',') {
				return nil, l.errf(", expected")
			}
			v, err := l.value()
			if err != nil {
				return nil, err
			}
			if left, err = strconv.Atoi(v.Text()); err != nil || v.Kind != Num || left < 1 || !l.ch(')') {
				return nil, l.errf("a length and ) expected")
			}
		}
		if !l.ch('=') {
			if l.kw("is") && l.kw("null") {
				out = append(out, Assign{c, Value{}, left})
				if !sep() {
					return out, nil
				}
				continue
			}
			return nil, l.errf("= expected")
		}
		v, err := l.value()
		if err != nil {
			return nil, err
		}
		out = append(out, Assign{c, v, left})
		if !sep() {
			return out, nil
		}
	}
}

func (l *lx) stmt() (*Stmt, error) {
	st := &Stmt{}
	var err error
	w := strings.ToLower(l.word())
	st.Verb = w
	name := func() error {
		if st.DB, err = l.ident(); err != nil {
			return err
		}
		if !l.ch('.') {
			return l.errf(". expected")
		}
		st.Table, err = l.ident()
		return err
	}
	switch w {
	case "replace", "insert":
		l.kw("into")
		if err := name(); err != nil {
			return nil, err
		}
		if l.ch('(') {
			for {
				c, err := l.ident()
				if err != nil {
					return nil, err
				}
				st.Cols = append(st.Cols, c)
				if l.ch(')') {
					break
				}
				if !l.ch(',') {
					return nil, l.errf(", expected")
				}
			}
		}
		if !l.kw("values") && !l.kw("value") {
			return nil, l.errf("values expected")
		}
		if !l.ch('(') {
			return nil, l.errf("( expected")
		}
		for {
			v, err := l.value()
			if err != nil {
				return nil, err
			}
			st.Vals = append(st.Vals, v)
			if l.ch(')') {
				break
			}
			if !l.ch(',') {
				return nil, l.errf(", or ) expected")
			}
		}
	case "update":
		if err := name(); err != nil {
			return nil, err
		}
		if !l.kw("set") {
			return nil, l.errf("set expected")
		}
		if st.Set, err = l.assigns(false, func() bool { return l.ch(',') }); err != nil {
			return nil, err
		}
		if l.kw("where") {
			if st.Where, err = l.assigns(true, func() bool { return l.kw("and") }); err != nil {
				return nil, err
			}
		}
	default:
		return nil, l.errf("statement expected, got %q", w)
	}
	if !l.ch(';') {
		return nil, l.errf("; expected")
	}
	return st, nil
}

// Parse reads a whole output as a sequence of statements.
func Parse(s string) ([]*Stmt, error) {
	l := &lx{s: s}
	var out []*Stmt
	for l.peek() != 0 || l.i < len(l.s) {
		st, err := l.stmt()
		if err != nil {
			return out, err
		}
		out = append(out, st)
	}
	return out, nil
}
