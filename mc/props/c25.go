package props

import (
	"fmt"
	"os"
	"strings"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// fullRun is one kind of reading: prepare returns a reading by one parser that can be repeated.
type fullRun struct {
	name    string
	prepare func(e *eng.Env) func() error
	args    func(e *eng.Env) []string
	// what is read
	op    string
	dict  []byte
	files [][]byte
}

func fullRuns(th bool) []fullRun {
	var out []fullRun
	for _, red := range []bool{false, true} {
		t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(3000)), ncol("b", VarbinaryT(20)))
		t.Redundant = red
		row := func(i int) Row {
			r := Row{int64(i), bs(strings.Repeat("it's ", i%4)), nil}
			if i%3 == 1 {
				r[2] = bs("\x00\n")
			}
			return r
		}
		// live, delete-marked and purged rows on each of three leaves, the last statement of a page the shortest or the longest
		pages := map[uint32][]byte{}
		for k := 0; k < 3; k++ {
			var rs []Row
			for i := 0; i < 6; i++ {
				rs = append(rs, row(10*k+i))
			}
			if k == 1 {
				rs[1][1] = bs(strings.Repeat("x", 150))
			}
			if k == 2 && th {
				rs[5][1], rs[0][1] = bs(strings.Repeat("long ", 500)), bs(strings.Repeat("y", 2900))
			}
			p := leafPage(t, uint32(3+k), rs)
			p.Mark(4)
			p.Delete(3, true)
			p.Delete(0, true)
			pages[uint32(3+k)] = p.Bytes()
		}
		dict, data := dictOf(t), Tablespace(t.Space, pages)
		for _, rec := range []bool{false, true} {
			name, op := fmt.Sprintf("dump, redundant=%v", red), "PrintData"
			if rec {
				name, op = fmt.Sprintf("recovery, redundant=%v", red), "RecoveryData"
			}
			rec := rec
			out = append(out, fullRun{name, func(e *eng.Env) func() error {
				dp, tp := e.File("ibdata1", dict), e.File("t.ibd", data)
				p := ibdata.NewParse()
				if err := p.ParseDictPage(dp); err != nil {
					panic(eng.HarnessError{Err: err})
				}
				return func() error { return p.ParseDataPage(tp, "d", "t", rec) }
			}, func(e *eng.Env) []string {
				return []string{"recovery", "FromDataFile", "--SysDataFile=" + e.File("ibdata1", dict), "--TableDataFile=" + e.File("t.ibd", data), "--DBName=d", "--TableName=t", "--OpType=" + op}
			}, op, dict, [][]byte{data}})
		}
	}
	t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(3000)), ncol("n", IntT(4, false)))
	for _, one := range []bool{true, false} {
		l := newLog()
		for i := 0; i < 9; i++ {
			n := 3 * (i % 5)
			if i == 5 && th {
				n = 2500
			}
			l.add(undoUpd(t, Row{int64(i), bs(strings.Repeat("'a", n)), int64(i)}, 1, 2).LogRec(uint64(t.Space), 300))
		}
		files := l.files(0)
		if !one {
			// the block between is lost: two pieces of log
			files = lostBlock(t)
		}
		dict := dictOf(t)
		put := func(e *eng.Env) (string, []string) {
			var fs []string
			for i, f := range files {
				fs = append(fs, e.File(fmt.Sprintf("ib_logfile%d", i), f))
			}
			return e.File("ibdata1", dict), fs
		}
		name := "redo log"
		if !one {
			name = "redo log without one of its blocks"
		}
		out = append(out, fullRun{name, func(e *eng.Env) func() error {
			dp, fs := put(e)
			p := redo.NewParse("", "")
			if err := p.ParseDictPage(dp); err != nil {
				panic(eng.HarnessError{Err: err})
			}
			return func() error { return p.ParseRedoLogs(fs) }
		}, func(e *eng.Env) []string {
			dp, fs := put(e)
			return []string{"recovery", "FromRedoFile", "--SysDataFile=" + dp, "--RedoFile=" + strings.Join(fs, ",")}
		}, "", dict, files})
	}
	return out
}

// lostBlock is a log of many blocks with an empty one in the middle.
func lostBlock(t *Table) [][]byte {
	l := newLog()
	for i := 0; i < 18; i++ {
		l.add(undoUpd(t, Row{int64(i), bs(strings.Repeat("b", 60+i)), int64(i)}, 1, 2).LogRec(uint64(t.Space), 300))
	}
	fs := l.files(0)
	f := fs[0]
	b := f[4*512+512 : 4*512+1024]
	for i := range b {
		b[i] = 0
	}
	return fs
}

func fullText(e *eng.Env, r fullRun) (string, func() error, *eng.Fail) {
	f := r.prepare(e)
	o := e.Capture(f)
	if o.Panic != "" || o.Err != nil {
		return "", nil, eng.Failf("fails", "%s: a reading whose output can be written fails: %v%s", r.name, o.Err, o.Panic)
	}
	return o.Text, f, nil
}

// hasHole: statements follow behind the first place where the text is not the full one. A message may.
func hasHole(full, text string) bool {
	i := 0
	for i < len(full) && i < len(text) && full[i] == text[i] {
		i++
	}
	i = strings.LastIndex(text[:i], "\n") + 1
	rest := strings.ToLower(text[i:])
	return strings.Count(rest, "replace into")+strings.Count(rest, "update ") > 1 || strings.Contains(rest, ";\n") && !strings.HasPrefix(full[i:], text[i:])
}

func c25(th bool) []*eng.Space {
	runs := fullRuns(th)
	most := 4000
	if th {
		most = 12000
	}
	return []*eng.Space{
		{
			Name: "room",
			Rule: fmt.Sprintf("dump and recovery of three leaves (COMPACT, REDUNDANT) and readings of redo logs in one piece and in two, into an output that has room for every number of bytes 0..%d; then again by the same parser with room for all, and with room for none", most),
			Body: func(c *eng.Chooser) *eng.Case {
				r := runs[c.Pick(len(runs))]
				n := c.Pick(most + 1)
				return &eng.Case{Title: func() string { return fmt.Sprintf("%s, room for %d bytes", r.name, n) }, Run: func(e *eng.Env) *eng.Fail {
					full, f, x := fullText(e, r)
					if x != nil {
						return x
					}
					if full == "" {
						panic(eng.HarnessError{Err: fmt.Errorf("%s: no output", r.name)})
					}
					if n > len(full) {
						return nil
					}
					check := func(n int, o eng.Out) *eng.Fail {
						switch {
						case o.Panic != "":
							return eng.Failf("crash", "room for %d of %d bytes: %s", n, len(full), o.Panic)
						case !strings.HasPrefix(full, o.Text):
							return eng.Failf("hole", "room for %d of %d bytes: the output is not a beginning of the statements: %.300q", n, len(full), o.Text)
						case n < len(full) && o.Err == nil:
							return eng.Failf("silent-loss", "room for %d of %d bytes: %d were written and no error is returned", n, len(full), len(o.Text))
						case n >= len(full) && (o.Err != nil || o.Text != full):
							return eng.Failf("lost", "room for all %d bytes: %d were written, error %v", len(full), len(o.Text), o.Err)
						}
						return nil
					}
					for _, n := range []int{n, len(full), 0} {
						o := e.CaptureFull(n, f)
						e.Outcome(o.Text)
						if x := check(n, o); x != nil {
							return x
						}
					}
					o := e.Capture(f)
					return check(len(full), o)
				}}
			},
		},
		{
			Name: "status",
			Rule: "the program with the same inputs and an output that has room for no byte, for every number of whole statements, and one byte more or less, or is a full device",
			Body: func(c *eng.Chooser) *eng.Case {
				r := runs[c.Pick(len(runs))]
				k := c.Pick(60)
				d := c.Pick(3) - 1
				return &eng.Case{Title: func() string { return fmt.Sprintf("%s, room for %d statements, %+d", r.name, k, d) }, Run: func(e *eng.Env) *eng.Fail {
					full, _, x := fullText(e, r)
					if x != nil {
						return x
					}
					n, left := 0, full
					for i := 0; i < k; i++ {
						j := strings.Index(left, ";\n")
						if j < 0 {
							return nil
						}
						n, left = n+j+2, left[j+2:]
					}
					n += d
					var o eng.CmdOut
					text := ""
					if n < 0 {
						n = 0
						f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
						if err != nil {
							return nil
						}
						defer f.Close()
						o = e.CmdTo(f, eng.Tool(), r.args(e)...)
					} else {
						fd, written, _ := eng.Full(n)
						f := os.NewFile(uintptr(fd), "full")
						defer f.Close()
						o = e.CmdTo(f, eng.Tool(), r.args(e)...)
						b := make([]byte, written())
						f.ReadAt(b, 0)
						text = string(b)
					}
					e.Outcome(fmt.Sprint(o.Exit, text))
					switch {
					case o.Hang:
						return eng.Failf("hang", "the program did not end")
					case n >= len(full) && (o.Exit != 0 || text != full):
						return eng.Failf("lost", "room for all %d bytes: %d were written, exit status %d", len(full), len(text), o.Exit)
					case n < len(full) && o.Exit == 0:
						return eng.Failf("silent-loss", "room for %d of %d bytes: %d were written, exit status 0", n, len(full), len(text))
					case n < len(full) && strings.TrimSpace(o.Stderr+o.Logs) == "":
						return eng.Failf("no-message", "room for %d of %d bytes: exit status %d without any message", n, len(full), o.Exit)
					case hasHole(full, text):
						return eng.Failf("hole", "room for %d of %d bytes: the output is not a beginning of the statements: %.300q", n, len(full), text)
					}
					return nil
				}}
			},
		},
	}
}

func init() {
	eng.Register(&eng.Check{ID: "C25", Title: "output that cannot be written", Level: "model_checking", Spaces: c25})
}
