package props

import (
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// namesCase: a table with these names besides a table whose plain name is what the dictionary has for the first one.
func namesCase(db, name, key, other string) *eng.Case {
	return &eng.Case{Title: func() string {
		return fmt.Sprintf("database %q, table %q, key column %q, column %q", db, name, key, other)
	}, Run: func(e *eng.Env) *eng.Fail {
		t := tableOf(db, name, 40, col(key, IntT(4, false)), ncol(other, VarcharUtf8(20)))
		near := []*Table{t}
		if d, n := FileName(db), FileName(name); d != db || n != name {
			near = append(near, tableOf(d, n, 41, col("id", IntT(4, false)), ncol("x", IntT(4, false))))
		}
		near = append(near, tableOf(db, "#sql-ib40-7", 43, col("id", IntT(4, false)), ncol("y", IntT(4, false))))
		d := dictOf(near...)
		rows := []Row{{int64(1), bs("one")}, {int64(2), nil}}
		o := dump(e, d, oneLeaf(t, rows), db, name, false)
		e.Outcome(o.Text)
		if f := checkRows(t, rows, o); f != nil {
			return f
		}
		if f := checkRows(t, rows, dump(e, d, deletedLeaf(t, rows, nil), db, name, true)); f != nil {
			f.Msg = "deleted rows: " + f.Msg
			return f
		}
		l := newLog()
		var all, mine []Upd
		for i, x := range near {
			r := rows[0]
			if x != t {
				r = Row{int64(5), int64(6)}
			}
			l.add(undoUpd(x, r, 1).LogRec(uint64(40+i), 300))
			u := Upd{T: x, Changed: []int{1}, Old: r}
			all = append(all, u)
			if x == t {
				mine = append(mine, u)
			}
		}
		o = redoLogs(e, d, l.files(0), "", "")
		e.Outcome(o.Text)
		if f := checkUpds(all, o); f != nil {
			return f
		}
		if f := checkUpds(mine, redoLogs(e, d, l.files(0), name, db)); f != nil {
			f.Msg = "with the names given: " + f.Msg
			return f
		}
		return nil
	}}
}

func c23(th bool) []*eng.Space {
	var chars []string
	for c := rune(1); c < 128; c++ {
		chars = append(chars, string(c))
	}
	chars = append(chars, "\u4e2d", "\u2603", "\u0e01", "\uac00", "\u3042", "\ufffd", "\u20ac", "\u05d0", "\u0641")
	words := []string{"t", "select", "NULL", "DEFAULT", "a-b", "a b", "a.b", "a`b", "``", "`", "a``b`", "a@002db", "@002d", "@", "@@", "@0", "@00", "@002", "@002g", "@gz", "a@0040b",
		"100", "1e5", "-- x", "/*x*/", "a;b", "a'b", `a\b`, `"`, "a/b", "/", "%s", "%", "a\nb", "\u4e2d\u6587", "x\u20ac", "a=b", "(a)", "#p", "$x"}
	at := func(k int, x string) *eng.Case {
		n := []string{"d", "t", "id", "c"}
		if k < 4 {
			n[k] = x
		} else {
			n[0], n[1], n[2], n[3] = x, x, x, x+"2"
		}
		return namesCase(n[0], n[1], n[2], n[3])
	}
	sp := []*eng.Space{
		{
			Name: "characters",
			Rule: fmt.Sprintf("each of %d characters (all of ASCII, and others that are written with four hexadecimal digits) alone, before, behind, between and before and behind letters, as the name of the database, the table, the key column, another column, or all of them", len(chars)),
			Body: func(c *eng.Chooser) *eng.Case {
				x := chars[c.Pick(len(chars))]
				p := c.Pick(5)
				if x == " " && p != 1 && p != 3 {
					return nil // names do not end in a space
				}
				x = []string{x, x + "a", "a" + x, "a" + x + "b", x + "002d" + x}[p]
				return at(c.Pick(5), x)
			},
		},
		{
			Name: "words",
			Rule: fmt.Sprintf("every pair of %d words (reserved words, quotes, things that look like codes, comments, formats) as database and table, key column and column, or table and column", len(words)),
			Body: func(c *eng.Chooser) *eng.Case {
				a, b := words[c.Pick(len(words))], words[c.Pick(len(words))]
				switch c.Pick(3) {
				case 0:
					return namesCase(a, b, "id", "c")
				case 1:
					if a == b {
						return nil
					}
					return namesCase("d", "t", a, b)
				}
				return namesCase("d", a, "id", b)
			},
		},
	}
	kinds := []string{"a", "-", "`", "\u4e2d", "\u20ac'", "Z9"}
	lens := []int{2, 15, 16, 17, 24, 25, 26, 31, 32, 33, 42, 43, 50, 51, 52, 60, 61, 62, 63, 64}
	if th {
		lens = nil
		for n := 1; n <= 64; n++ {
			lens = append(lens, n)
		}
	}
	sp = append(sp, &eng.Space{
		Name: "lengths",
		Rule: fmt.Sprintf("names of %d lengths up to the 64 characters a name can have, of each of %d kinds of characters (of one to three bytes, coded in the dictionary by one or five), of the database, the table, the key column, another column, or all of them", len(lens), len(kinds)),
		Body: func(c *eng.Chooser) *eng.Case {
			k := []rune(kinds[c.Pick(len(kinds))])
			n := lens[c.Pick(len(lens))]
			p := c.Pick(5)
			if p == 4 {
				n-- // the last of them is one character longer
			}
			if n == 0 {
				return nil
			}
			x := make([]rune, n)
			for i := range x {
				x[i] = k[i%len(k)]
			}
			return at(p, string(x))
		},
	})
	if th {
		alpha := []string{"`", "@", "0", "2", "d", "-", "g", "'", "\\", "%", "/", " ", "\u4e2d"}
		sp = append(sp, &eng.Space{
			Name: "strings",
			Rule: fmt.Sprintf("all strings of 1..5 characters out of %d with a letter behind, as all names", 13),
			Body: func(c *eng.Chooser) *eng.Case {
				n := 1 + c.Pick(5)
				x := ""
				for i := 0; i < n; i++ {
					x += alpha[c.Pick(len(alpha))]
				}
				return at(4, x+"e")
			},
		})
	}
	return sp
}

func init() {
	eng.Register(&eng.Check{ID: "C23", Title: "names", Level: "model_checking", Spaces: c23})
}
