// Package props states the properties as bounded spaces of executions with oracles.
package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"

	"verif/mc/eng"
	. "verif/mc/innodb"
	"verif/mc/sqlp"
)

// ---- driving the implementation -------------------------------------------------------------

// dump runs dictionary + data file through a fresh parser.
func dump(e *eng.Env, dict, data []byte, db, table string, recovery bool) eng.Out {
	return dumpFiles(e, e.File("ibdata1", dict), e.File("table.ibd", data), db, table, recovery)
}

func dumpFiles(e *eng.Env, dp, tp string, db, table string, recovery bool) eng.Out {
	return e.Capture(func() error {
		p := ibdata.NewParse()
		if err := p.ParseDictPage(dp); err != nil {
			return fmt.Errorf("dictionary: %v", err)
		}
		return p.ParseDataPage(tp, db, table, recovery)
	})
}

// redoLogs runs dictionary + redo log files through a fresh parser.
func redoLogs(e *eng.Env, dict []byte, files [][]byte, table, db string) eng.Out {
	dp := e.File("ibdata1", dict)
	var fs []string
	for i, f := range files {
		fs = append(fs, e.File(fmt.Sprintf("ib_logfile%d", i), f))
	}
	return e.Capture(func() error {
		p := redo.NewParse(table, db)
		if err := p.ParseDictPage(dp); err != nil {
			return fmt.Errorf("dictionary: %v", err)
		}
		return p.ParseRedoLogs(fs)
	})
}

// ---- oracles --------------------------------------------------------------------------------

func rowText(t *Table, r Row) string {
	var p []string
	for i, c := range t.Cols {
		p = append(p, c.Name+"="+Text(r[i]))
	}
	return "(" + strings.Join(p, ", ") + ")"
}

func rowsText(t *Table, rs []Row) string {
	var p []string
	for i, r := range rs {
		if i == 4 {
			p = append(p, fmt.Sprintf("... %d rows", len(rs)))
			break
		}
		p = append(p, rowText(t, r))
	}
	return strings.Join(p, " ")
}

func stmtText(s *sqlp.Stmt) string {
	var p []string
	for _, v := range s.Vals {
		p = append(p, v.String())
	}
	for _, v := range s.Set {
		p = append(p, v.Col+":="+v.Val.String())
	}
	for _, v := range s.Where {
		col := v.Col
		if v.Left > 0 {
			col = fmt.Sprintf("left(%s,%d)", v.Col, v.Left)
		}
		p = append(p, "where "+col+"="+v.Val.String())
	}
	return fmt.Sprintf("%s %s.%s [%s]", s.Verb, s.DB, s.Table, strings.Join(p, ", "))
}

func matchVal(c Col, want Val, got sqlp.Value) bool {
	if c.Virtual || got.Kind == sqlp.Default {
		return c.Virtual && got.Kind == sqlp.Default // no other value may be given for a generated column
	}
	if l, ok := want.(*Lob); ok {
		if l.Lost {
			return true
		}
		want = l.B
	}
	if want == nil {
		return got.Kind == sqlp.Null
	}
	if got.Kind == sqlp.Null {
		return false
	}
	return c.T.Match(want, got)
}

// matchRow compares a replace/insert statement with a row; -1 = equal, else the first column that differs.
func matchRow(t *Table, r Row, s *sqlp.Stmt) int {
	if s.Cols == nil {
		n := 0
		for i, c := range t.Cols {
			if c.Hidden {
				continue
			}
			if n >= len(s.Vals) || !matchVal(c, r[i], s.Vals[n]) {
				return i
			}
			n++
		}
		return -1
	}
	for i, c := range t.Cols {
		if c.Hidden {
			continue
		}
		ok := c.Virtual // it may be left out
		for k, n := range s.Cols {
			if strings.EqualFold(n, c.Name) {
				ok = matchVal(c, r[i], s.Vals[k])
			}
		}
		if !ok {
			return i
		}
	}
	return -1
}

// checkRows compares the output with the multiset of rows expected of the table.
func checkRows(t *Table, want []Row, o eng.Out) *eng.Fail {
	if o.Panic != "" {
		return eng.Failf("panic", "the tool panicked: %s\nexpected rows: %s", o.Panic, rowsText(t, want))
	}
	if o.Err != nil {
		return eng.Failf("error", "the tool failed: %v\nexpected rows: %s", o.Err, rowsText(t, want))
	}
	return checkText(t, want, o.Text)
}

func checkText(t *Table, want []Row, text string) *eng.Fail {
	ss, err := sqlp.Parse(text)
	if err != nil {
		return eng.Failf("not-sql", "the output is not SQL: %v\nexpected rows: %s\noutput: %.600s", err, rowsText(t, want), text)
	}
	for _, s := range ss {
		if s.Verb != "replace" && s.Verb != "insert" {
			return eng.Failf("verb", "unexpected statement %s", stmtText(s))
		}
		if s.DB != t.DB || s.Table != t.Name {
			return eng.Failf("table-name", "statement for %s.%s, the table is %s.%s", s.DB, s.Table, t.DB, t.Name)
		}
		n, least := 0, 0
		for _, c := range t.Cols {
			if !c.Hidden {
				n++
				if !c.Virtual || s.Cols == nil {
					least++
				}
			}
		}
		if len(s.Vals) < least || len(s.Vals) > n || s.Cols != nil && len(s.Cols) != len(s.Vals) {
			return eng.Failf("arity", "statement has %d values, the table has %d columns: %s", len(s.Vals), n, stmtText(s))
		}
		for i, a := range s.Cols {
			known := false
			for _, c := range t.Cols {
				known = known || !c.Hidden && strings.EqualFold(c.Name, a)
			}
			for _, b := range s.Cols[:i] {
				known = known && !strings.EqualFold(a, b)
			}
			if !known {
				return eng.Failf("arity", "statement gives column %s, which the table does not have or twice: %s", a, stmtText(s))
			}
		}
	}
	used := make([]bool, len(want))
	for k, s := range ss {
		hit := -1
		// rows mostly come in model order: try the same position first
		if k < len(want) && !used[k] && matchRow(t, want[k], s) < 0 {
			hit = k
		}
		for i := 0; i < len(want) && hit < 0; i++ {
			if !used[i] && matchRow(t, want[i], s) < 0 {
				hit = i
			}
		}
		if hit < 0 {
			// closest unused row for the message
			msg := ""
			if k < len(want) {
				if c := matchRow(t, want[k], s); c >= 0 {
					msg = fmt.Sprintf("; column %s of row %s differs", t.Cols[c].Name+" "+t.Cols[c].T.Name, rowText(t, want[k]))
				}
			}
			cl := "wrong-row"
			if len(ss) > len(want) {
				cl = "extra-row"
			}
			return eng.Failf(cl, "printed %s, which is no expected row%s\nexpected rows: %s", stmtText(s), msg, rowsText(t, want))
		}
		used[hit] = true
	}
	for i, u := range used {
		if !u {
			return eng.Failf("missing-row", "row %s was not printed (%d of %d printed)", rowText(t, want[i]), len(ss), len(want))
		}
	}
	return nil
}

// Upd is an expected update statement.
type Upd struct {
	T       *Table
	Changed []int
	Old     Row
}

func updText(u Upd) string {
	var p []string
	for _, c := range u.Changed {
		p = append(p, u.T.Cols[c].Name+"="+Text(u.Old[c]))
	}
	var k []string
	for i, c := range u.T.Key {
		if n := u.T.KeyPrefix(i); n > 0 {
			k = append(k, fmt.Sprintf("left(%s,%d)=%s", u.T.Cols[c].Name, n, Text(keyPrefix(u.T.Cols[c].T, u.Old[c], n))))
			continue
		}
		k = append(k, u.T.Cols[c].Name+"="+Text(u.Old[c]))
	}
	return fmt.Sprintf("%s.%s set %s where %s", u.T.DB, u.T.Name, strings.Join(p, ","), strings.Join(k, ","))
}

func updsText(us []Upd) string {
	var p []string
	for i, u := range us {
		if i == 4 {
			p = append(p, fmt.Sprintf("... %d statements", len(us)))
			break
		}
		p = append(p, updText(u))
	}
	return strings.Join(p, " | ")
}

func matchAssigns(t *Table, r Row, cols []int, as []sqlp.Assign) string {
	if len(as) != len(cols) {
		return fmt.Sprintf("%d assignments, expected %d", len(as), len(cols))
	}
	for _, c := range cols {
		n := 0
		for _, a := range as {
			if strings.EqualFold(a.Col, t.Cols[c].Name) {
				n++
				if !matchVal(t.Cols[c], r[c], a.Val) {
					return fmt.Sprintf("column %s (%s) is %s, expected %s", a.Col, t.Cols[c].T.Name, a.Val, Text(r[c]))
				}
			}
		}
		if n != 1 {
			return fmt.Sprintf("column %s given %d times", t.Cols[c].Name, n)
		}
	}
	return ""
}

// matchKey wants one condition per key part: on the whole column, or on the prefix of it that the key has.
func matchKey(t *Table, r Row, as []sqlp.Assign) string {
	if len(as) != len(t.Key) {
		return fmt.Sprintf("%d conditions, expected %d", len(as), len(t.Key))
	}
	for i, k := range t.Key {
		c, n := t.Cols[k], 0
		for _, a := range as {
			if !strings.EqualFold(a.Col, c.Name) {
				continue
			}
			n++
			if a.Left == 0 {
				ok := matchVal(c, r[k], a.Val)
				if c.T.Cond != nil && r[k] != nil {
					ok = c.T.Cond(r[k], a.Val)
				}
				if !ok {
					return fmt.Sprintf("column %s (%s) is %s, expected %s", a.Col, c.T.Name, a.Val, Text(r[k]))
				}
				continue
			}
			if a.Left != t.KeyPrefix(i) {
				return fmt.Sprintf("condition on %d characters of %s, the key has %d", a.Left, a.Col, t.KeyPrefix(i))
			}
			b := keyPrefix(c.T, r[k], a.Left)
			ok := a.Val.Kind != sqlp.Null && c.T.Match(b, a.Val)
			if c.T.MType == DataFixBinary {
				ok = (a.Val.Kind == sqlp.Hex || a.Val.Kind == sqlp.Str) && string(a.Val.Bytes) == string(b)
			}
			if !ok {
				return fmt.Sprintf("the first %d characters of %s (%s) are %s, expected %s", a.Left, a.Col, c.T.Name, a.Val, Text(b))
			}
		}
		if n != 1 {
			return fmt.Sprintf("column %s given %d times", c.Name, n)
		}
	}
	return ""
}

func keyPrefix(t *Type, v Val, n int) []byte {
	if l, ok := v.(*Lob); ok {
		return t.PrefixOf(l.B, n)
	}
	return t.PrefixOf(t.Enc(v), n)
}

func matchUpd(u Upd, s *sqlp.Stmt) string {
	if s.Verb != "update" {
		return "not an update"
	}
	if s.DB != u.T.DB || s.Table != u.T.Name {
		return fmt.Sprintf("statement for %s.%s", s.DB, s.Table)
	}
	if m := matchAssigns(u.T, u.Old, u.Changed, s.Set); m != "" {
		return "set: " + m
	}
	if u.T.Cluster == RowID {
		return "" // no condition on the columns of such a table can name the row
	}
	if m := matchKey(u.T, u.Old, s.Where); m != "" {
		return "where: " + m
	}
	return ""
}

// checkUpds compares the output with the expected update statements, in log order.
func checkUpds(want []Upd, o eng.Out) *eng.Fail {
	if o.Panic != "" {
		return eng.Failf("panic", "the tool panicked: %s\nexpected: %s", o.Panic, updsText(want))
	}
	if o.Err != nil {
		return eng.Failf("error", "the tool failed: %v\nexpected: %s", o.Err, updsText(want))
	}
	return checkUpdText(want, o.Text)
}

func checkUpdText(want []Upd, text string) *eng.Fail {
	ss, err := sqlp.Parse(text)
	if err != nil {
		return eng.Failf("not-sql", "the output is not SQL: %v\nexpected: %s\noutput: %.600s", err, updsText(want), text)
	}
	for i, s := range ss {
		if i >= len(want) {
			return eng.Failf("extra-statement", "unexpected statement %s; expected: %s", stmtText(s), updsText(want))
		}
		if m := matchUpd(want[i], s); m != "" {
			cl := "wrong-statement"
			if len(ss) < len(want) {
				cl = "missing-statement"
			}
			return eng.Failf(cl, "statement %d is %s; %s; expected %s", i, stmtText(s), m, updText(want[i]))
		}
	}
	if len(ss) < len(want) {
		return eng.Failf("missing-statement", "%d of %d statements printed; missing %s", len(ss), len(want), updText(want[len(ss)]))
	}
	return nil
}

// checkUpdSome: the output is some of the updates, in order, with all of those that must be there.
func checkUpdSome(must, some []Upd, text string) *eng.Fail {
	ss, err := sqlp.Parse(text)
	if err != nil {
		return eng.Failf("not-sql", "the output is not SQL: %v\nexpected: %s\noutput: %.600s", err, updsText(must), text)
	}
	i := 0
	for _, w := range some {
		need := len(must) > 0 && updText(must[0]) == updText(w)
		if need {
			must = must[1:]
		}
		if i < len(ss) && matchUpd(w, ss[i]) == "" {
			i++
		} else if need {
			return eng.Failf("missing-statement", "missing %s among %d statements", updText(w), len(ss))
		}
	}
	if i < len(ss) {
		return eng.Failf("extra-statement", "unexpected statement %s; all there may be: %s", stmtText(ss[i]), updsText(some))
	}
	return nil
}

// checkUpdSet is checkUpdText for statements in any order.
func checkUpdSet(want []Upd, text string) *eng.Fail {
	ss, err := sqlp.Parse(text)
	if err != nil {
		return eng.Failf("not-sql", "the output is not SQL: %v\nexpected: %s\noutput: %.600s", err, updsText(want), text)
	}
	used := make([]bool, len(ss))
next:
	for _, w := range want {
		for i, s := range ss {
			if !used[i] && matchUpd(w, s) == "" {
				used[i] = true
				continue next
			}
		}
		return eng.Failf("missing-statement", "missing %s among %d of %d statements", updText(w), len(ss), len(want))
	}
	for i, s := range ss {
		if !used[i] {
			return eng.Failf("extra-statement", "unexpected statement %s; expected: %s", stmtText(s), updsText(want))
		}
	}
	return nil
}

// ---- building inputs ------------------------------------------------------------------------

// leafPage puts rows on one clustered leaf page.
func leafPage(t *Table, no uint32, rows []Row) *Page {
	p := NewPage(PageHdr{Space: t.Space, PageNo: no, Type: PageIndex, IndexID: t.IndexID}, t.Redundant)
	for i, r := range rows {
		if p.Append(t.Encode(r, uint64(i)), r) == nil {
			panic("model: page full")
		}
	}
	return p
}

// oneLeaf is a tablespace whose clustered index is a single page (the root, page 3).
func oneLeaf(t *Table, rows []Row) []byte {
	return Tablespace(t.Space, map[uint32][]byte{3: leafPage(t, 3, rows).Bytes()})
}

// deletedLeaf has the rows on the free list of the page and keep on the live list.
func deletedLeaf(t *Table, rows, keep []Row) []byte {
	p := leafPage(t, 3, rows)
	for len(p.Live()) > 0 {
		p.Delete(len(p.Live())-1, true)
	}
	// rows inserted before keep would be reused: put keep first
	if len(keep) > 0 {
		p = leafPage(t, 3, append(append([]Row{}, keep...), rows...))
		for len(p.Live()) > len(keep) {
			p.Delete(len(p.Live())-1, true)
		}
	}
	return Tablespace(t.Space, map[uint32][]byte{3: p.Bytes()})
}

func tableOf(db, name string, id uint64, cols ...Col) *Table {
	return &Table{DB: db, Name: name, Cols: cols, Key: []int{0}, TableID: id, IndexID: id + 100, Space: uint32(id)}
}

func col(name string, t *Type) Col  { return Col{Name: name, T: t} }
func ncol(name string, t *Type) Col { return Col{Name: name, T: t, Nullable: true} }

// dictOf puts the rows of each dictionary table on its root, or on more pages when there are many.
func dictOf(ts ...*Table) []byte {
	d := MakeDict(ts...)
	var l DictLayout
	no := uint32(20)
	for k, rows := range d.Rows {
		if len(rows) <= 120 {
			continue
		}
		for n := len(rows); n > 0; n -= 100 {
			m := n
			if m > 100 {
				m = 100
			}
			l.Cuts[k] = append(l.Cuts[k], m)
			l.Leaf[k] = append(l.Leaf[k], no)
			no++
		}
	}
	return d.Image(l)
}

func i64(n int) Val { return int64(n) }

func bs(s string) Val { return []byte(s) }

func sortedInts(m map[int]bool) []int {
	var o []int
	for k := range m {
		o = append(o, k)
	}
	sort.Ints(o)
	return o
}
