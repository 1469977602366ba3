package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// Runs of the built command line tool.

type cliFiles struct {
	t, t2      *Table
	rows, dead []Row
	dict, data []byte
	log0, log1 []byte
	upds       []Upd // of log0 then log1
	n0         int   // updates in log0
}

func cliInputs() *cliFiles {
	f := &cliFiles{}
	f.t = tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(20)), ncol("b", VarbinaryT(20)))
	f.t2 = tableOf("d2", "t", 43, col("id", IntT(4, false)), ncol("v", VarcharUtf8(20)))
	f.rows = []Row{{int64(1), bs("one"), nil}, {int64(2), bs("it's"), bs("\x00\xff")}, {int64(3), nil, bs("")}}
	f.dead = []Row{{int64(7), bs("gone"), bs("x")}, {int64(8), nil, nil}}
	f.dict = dictOf(f.t, f.t2)
	f.data = deletedLeaf(f.t, f.dead, f.rows)
	var ls [2]*logb
	for i := range ls {
		ls[i] = newLog()
		for k := 0; k < 3; k++ {
			t := f.t
			r := Row{int64(10*i + k), bs(fmt.Sprintf("old %d'%d", i, k)), bs("b")}
			if k == 1 {
				t = f.t2
				r = r[:2]
			}
			ls[i].add(undoUpd(t, r, 1).LogRec(uint64(t.Space), 4))
			f.upds = append(f.upds, Upd{T: t, Changed: []int{1}, Old: r})
		}
	}
	f.n0 = 3
	f.log0, f.log1 = ls[0].files(0)[0], ls[1].files(0)[0]
	return f
}

func cmdOK(o eng.CmdOut) *eng.Fail {
	if o.Hang {
		return eng.Failf("hang", "the command did not end")
	}
	if o.Exit != 0 {
		return eng.Failf("exit", "exit status %d\nstdout: %.300s\nstderr: %.300s", o.Exit, o.Stdout, o.Stderr)
	}
	return nil
}

func cmdFails(o eng.CmdOut, isError string, some bool) *eng.Fail {
	if o.Hang {
		return eng.Failf("hang", "the command did not end")
	}
	if o.Exit == 0 {
		return eng.Failf("silent-failure", "%s: exit status 0\nstdout: %.300s\nstderr: %.300s", isError, o.Stdout, o.Stderr)
	}
	if strings.TrimSpace(o.Stdout+o.Stderr) == "" {
		return eng.Failf("no-message", "%s: exit status %d without any message", isError, o.Exit)
	}
	if some {
		return nil // files before the bad one may have been used
	}
	low := strings.ToLower(o.Stdout)
	if strings.Contains(low, "replace into") || strings.Contains(low, "insert into") || strings.Contains(low, "update `") || strings.Contains(low, "update d") {
		return eng.Failf("statements", "%s: statements were printed: %.300s", isError, o.Stdout)
	}
	return nil
}

func c18(th bool) []*eng.Space {
	f := cliInputs()
	put := func(e *eng.Env) map[string]string {
		m := map[string]string{
			"sys":   e.File("ibdata1", f.dict),
			"data":  e.File("t.ibd", f.data),
			"log0":  e.File("ib_logfile0", f.log0),
			"log1":  e.File("ib_logfile1", f.log1),
			"empty": e.File("empty", nil),
			"junk":  e.File("junk", []byte(strings.Repeat("This is not a data file. ", 4000))),
			"short": e.File("short", f.dict[:1000]),
			"none":  filepath.Join(e.Dir, "does-not-exist"),
			"dir":   filepath.Join(e.Dir, "a-directory"),
			"under": filepath.Join(e.Dir, "ibdata1", "x"),
		}
		os.MkdirAll(m["dir"], 0755)
		return m
	}
	flagText := func(form int, name, val string) []string {
		switch form {
		case 0:
			return []string{"--" + name + "=" + val}
		default:
			return []string{"--" + name, val}
		}
	}
	ops := []string{"-", "RecoveryData", "PrintData", "RecoveryStruct"}
	levels := []string{"-", "info", "error"}
	// the order of the four file flags
	perms := permutations(4)
	if !th {
		perms = [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}, {2, 0, 3, 1}}
	}
	runData := func(op string, args func(m map[string]string) []string, title string) *eng.Case {
		return &eng.Case{Title: func() string { return title }, Run: func(e *eng.Env) *eng.Fail {
			m := put(e)
			o := e.Cmd(eng.Tool(), args(m)...)
			e.Outcome(o.Stdout)
			if x := cmdOK(o); x != nil {
				return x
			}
			want := f.rows
			if op == "RecoveryData" {
				want = f.dead
			}
			return checkText(f.t, want, o.Stdout)
		}}
	}
	place := func(args []string, pos int, global []string) []string {
		// 0 before "recovery", 1 before the subcommand, 2 right after it, 3 at the end
		var out []string
		switch pos {
		case 0:
			out = append(append(out, global...), args...)
		case 1:
			out = append(append(append(out, args[0]), global...), args[1:]...)
		case 2:
			out = append(append(append(out, args[:2]...), global...), args[2:]...)
		default:
			out = append(append(out, args...), global...)
		}
		return out
	}
	sp := []*eng.Space{{
		Name: "data-options",
		Rule: fmt.Sprintf("FromDataFile with every operation %v, log level %v, in %d orders of its flags, with = or a blank, the global flags at each of 4 places (and each at its own place): exit 0 and exactly the rows", ops, levels, len(perms)),
		Body: func(c *eng.Chooser) *eng.Case {
			op := ops[c.Pick(len(ops))]
			lv := levels[c.Pick(len(levels))]
			perm := perms[c.Pick(len(perms))]
			form := c.Pick(2)
			p1, p2, p3 := c.Pick(4), 0, 3
			if op == "-" && p1 > 0 {
				return nil
			}
			p2 = c.Pick(4)
			if lv == "-" && p2 > 0 {
				return nil
			}
			if th {
				p3 = c.Pick(4)
			}
			args := func(m map[string]string) []string {
				local := [][]string{flagText(form, "DBName", "d"), flagText(form, "TableName", "t"),
					flagText(form, "SysDataFile", m["sys"]), flagText(form, "TableDataFile", m["data"])}
				a := []string{"recovery", "FromDataFile"}
				for _, i := range perm {
					a = append(a, local[i]...)
				}
				a = place(a, p3, flagText(form, "LogPath", filepath.Join(filepath.Dir(m["sys"]), "log")))
				// the places count from the words, so put the globals around them again
				if op != "-" {
					a = placeWords(a, p1, flagText(form, "OpType", op))
				}
				if lv != "-" {
					a = placeWords(a, p2, flagText(form, "LogLevel", lv))
				}
				return a
			}
			return runData(op, args, fmt.Sprintf("%q", args(map[string]string{"sys": "/S/ibdata1", "data": "/S/t.ibd"})))
		},
	}}
	filters := [][2]string{{"-", "-"}, {"d", "-"}, {"-", "t"}, {"d", "t"}, {"d2", "t"}, {"d", "none"}, {"", ""}}
	lists := []string{"log0", "log1", "log0,log1", "log1,log0"}
	sp = append(sp, &eng.Space{
		Name: "redo-options",
		Rule: fmt.Sprintf("FromRedoFile with the log files %v, filters %v, global flags at 4 places: exit 0 and exactly the updates", lists, filters),
		Body: func(c *eng.Chooser) *eng.Case {
			l := lists[c.Pick(len(lists))]
			fl := filters[c.Pick(len(filters))]
			pos := c.Pick(4)
			form := c.Pick(2)
			args := func(m map[string]string) []string {
				var ps []string
				for _, n := range strings.Split(l, ",") {
					ps = append(ps, m[n])
				}
				a := []string{"recovery", "FromRedoFile"}
				if fl[0] != "-" {
					a = append(a, flagText(form, "DBName", fl[0])...)
				}
				a = append(a, flagText(form, "RedoFile", strings.Join(ps, ","))...)
				if fl[1] != "-" {
					a = append(a, flagText(form, "TableName", fl[1])...)
				}
				a = append(a, flagText(form, "SysDataFile", m["sys"])...)
				return placeWords(a, pos, flagText(form, "LogPath", filepath.Join(filepath.Dir(m["sys"]), "log")))
			}
			title := fmt.Sprintf("%q", args(map[string]string{"sys": "/S/ibdata1", "log0": "/S/ib_logfile0", "log1": "/S/ib_logfile1"}))
			return &eng.Case{Title: func() string { return title }, Run: func(e *eng.Env) *eng.Fail {
				m := put(e)
				o := e.Cmd(eng.Tool(), args(m)...)
				e.Outcome(o.Stdout)
				if x := cmdOK(o); x != nil {
					return x
				}
				var want []Upd
				for _, n := range strings.Split(l, ",") {
					us := f.upds[:f.n0]
					if n == "log1" {
						us = f.upds[f.n0:]
					}
					for _, u := range us {
						if (fl[0] == "-" || fl[0] == "" || fl[0] == u.T.DB) && (fl[1] == "-" || fl[1] == "" || fl[1] == u.T.Name) {
							want = append(want, u)
						}
					}
				}
				return checkUpdText(want, o.Stdout)
			}}
		},
	})
	// failures: each argument replaced by a bad one
	bad := []string{"none", "dir", "under"}
	badDict := []string{"none", "dir", "under", "empty", "junk", "short", "data", "log0"}
	type job struct {
		title string
		args  func(m map[string]string) []string
	}
	var jobs []job
	logp := func(m map[string]string) string { return "--LogPath=" + filepath.Join(filepath.Dir(m["sys"]), "log") }
	data := func(title, sys, dat, db, tb string) {
		for _, op := range []string{"RecoveryData", "PrintData"} {
			for _, lv := range []string{"DEBUG", "fatal"} {
				op, lv := op, lv
				jobs = append(jobs, job{fmt.Sprintf("FromDataFile with %s, %s, log level %s", title, op, lv), func(m map[string]string) []string {
					return []string{"recovery", "FromDataFile", "--SysDataFile=" + m[sys], "--TableDataFile=" + m[dat], "--DBName=" + db, "--TableName=" + tb, "--OpType=" + op, "--LogLevel=" + lv, logp(m)}
				}})
			}
		}
	}
	redo := func(title, sys string, logs []string) {
		for _, lv := range []string{"DEBUG", "fatal"} {
			lv := lv
			jobs = append(jobs, job{fmt.Sprintf("FromRedoFile with %s, log level %s", title, lv), func(m map[string]string) []string {
				var ps []string
				for _, n := range logs {
					ps = append(ps, m[n])
				}
				return []string{"recovery", "FromRedoFile", "--SysDataFile=" + m[sys], "--RedoFile=" + strings.Join(ps, ","), "--LogLevel=" + lv, logp(m)}
			}})
		}
	}
	for _, b := range badDict {
		data("a dictionary that is "+b, b, "data", "d", "t")
		redo("a dictionary that is "+b, b, []string{"log0"})
	}
	for _, b := range bad {
		data("a data file that is "+b, "sys", b, "d", "t")
		redo("a log file that is "+b, "sys", []string{b})
		redo("a second log file that is "+b, "sys", []string{"log0", b})
		redo("a first log file that is "+b, "sys", []string{b, "log0"})
	}
	data("an empty data file", "sys", "empty", "d", "t")
	data("a data file of less than a page", "sys", "short", "d", "t")
	redo("an empty log file", "sys", []string{"empty"})
	redo("a short log file", "sys", []string{"short"})
	for _, n := range [][2]string{{"d", "none"}, {"none", "t"}, {"d", ""}, {"", "t"}, {"D", "t"}, {"d", "T"}, {"t", "d"}} {
		data(fmt.Sprintf("the unknown table %q.%q", n[0], n[1]), "sys", "data", n[0], n[1])
	}
	full := []string{"--SysDataFile=S", "--TableDataFile=D", "--DBName=d", "--TableName=t"}
	for skip := 0; skip < 4; skip++ {
		skip := skip
		jobs = append(jobs, job{"FromDataFile without " + full[skip], func(m map[string]string) []string {
			a := []string{"recovery", "FromDataFile", logp(m)}
			for i, x := range full {
				if i != skip {
					a = append(a, strings.Replace(strings.Replace(x, "=S", "="+m["sys"], 1), "=D", "="+m["data"], 1))
				}
			}
			return a
		}})
	}
	jobs = append(jobs,
		job{"FromRedoFile without --RedoFile", func(m map[string]string) []string {
			return []string{"recovery", "FromRedoFile", logp(m), "--SysDataFile=" + m["sys"]}
		}},
		job{"FromRedoFile without --SysDataFile", func(m map[string]string) []string {
			return []string{"recovery", "FromRedoFile", logp(m), "--RedoFile=" + m["log0"]}
		}},
		job{"an unknown flag", func(m map[string]string) []string {
			return []string{"recovery", "FromRedoFile", logp(m), "--RedoFile=" + m["log0"], "--SysDataFile=" + m["sys"], "--Bogus=1"}
		}},
		job{"an unknown command", func(m map[string]string) []string { return []string{"recover"} }},
	)
	sp = append(sp, &eng.Space{
		Name: "failures",
		Rule: fmt.Sprintf("%d failing command lines: every file missing, a directory, below a file, empty, foreign; unknown tables; missing and unknown flags and commands; quiet and verbose log: exit status not 0, a message, no statement", len(jobs)),
		Body: func(c *eng.Chooser) *eng.Case {
			j := jobs[c.Pick(len(jobs))]
			return &eng.Case{Title: func() string { return j.title }, Run: func(e *eng.Env) *eng.Fail {
				o := e.Cmd(eng.Tool(), j.args(put(e))...)
				e.Outcome(o.Stdout + o.Stderr)
				return cmdFails(o, j.title, strings.Contains(j.title, "log file that is"))
			}}
		},
	})
	otherOps := []string{"", "recoverydata", "RECOVERYDATA", "RecoveryDat", "RecoveryData2", "RecoveryData,PrintData", "Recovery", "printdata", "Unknown", "true", "--OpType", "RecoveryData"}
	sp = append(sp, &eng.Space{
		Name: "other-operations",
		Rule: fmt.Sprintf("FromDataFile with the operations %q in 4 places, with = or a blank: only the last one is the recovery, the others print the live rows", otherOps),
		Body: func(c *eng.Chooser) *eng.Case {
			op := otherOps[c.Pick(len(otherOps))]
			form, pos := c.Pick(2), c.Pick(4)
			args := func(m map[string]string) []string {
				a := []string{"recovery", "FromDataFile", "--SysDataFile=" + m["sys"], "--TableDataFile=" + m["data"], "--DBName=d", "--TableName=t", "--LogPath=" + filepath.Join(filepath.Dir(m["sys"]), "log")}
				return placeWords(a, pos, flagText(form, "OpType", op))
			}
			return runData(op, args, fmt.Sprintf("%q", args(map[string]string{"sys": "/S/ibdata1", "data": "/S/t.ibd"})))
		},
	})
	// Names of files and tables with characters that mean something to shells, formats and parsers.
	odd := []string{"a b", " a", "a ", "%", "%d", "%s%n", "a=b", "=", "'a'", "\"a\"", "`a`", "$HOME", "a;b", "*", "a?b", "[a]", "~", "#a", "-a", "--a", "a\\b", "\\n", "a\nb", "a\tb", "a&b", "a|b", "a:b", "@a", "a@b", "!", "{a}", "\u00e4", "\u4e2d", strings.Repeat("x", 200), "ibdata1.", "a..b", "A"}
	sp = append(sp, &eng.Space{
		Name: "odd-names",
		Rule: fmt.Sprintf("files, databases and tables with the names %q: dump, recovery and redo log with the name as a filter or without; the flags with = or a blank; the paths absolute or relative to the working directory", odd),
		Body: func(c *eng.Chooser) *eng.Case {
			name := odd[c.Pick(len(odd))]
			what := c.Pick(7) // 0..2: a file, 3, 4: the database or table, 5: both, 6: one with a comma
			if what == 6 {
				name = "a," + name
			}
			mode := c.Pick(3) // dump, recovery, log
			form := c.Pick(2)
			rel := c.Pick(3)
			if what > 2 && len(name) > 64 || what == 1 && mode == 2 || what == 2 && mode < 2 || what > 2 && rel > 0 || rel > 0 && !th && form == 0 {
				return nil
			}
			t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(20)))
			other := tableOf("d", "u", 41, col("id", IntT(4, false)), ncol("v", VarcharUtf8(20)))
			switch what {
			case 3:
				t.DB = name
			case 4, 6:
				t.Name = name
			case 5:
				t.DB, t.Name = name, name
			}
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("name %q of %s, %s, flag form %d, path form %d", name, []string{"the system tablespace", "the data file", "the log file", "the database", "the table", "both", "the table"}[what], []string{"dump", "recovery", "redo log"}[mode], form, rel)
			}, Run: func(e *eng.Env) *eng.Fail {
				names := [3]string{"ibdata1", "t.ibd", "ib_logfile0"}
				if what < 3 {
					names[what] = name
				}
				rows := []Row{{int64(1), bs("one")}, {int64(2), nil}}
				dead := []Row{{int64(7), bs("gone")}}
				l := newLog()
				u := Upd{T: t, Changed: []int{1}, Old: rows[0]}
				l.add(undoUpd(other, rows[0], 1).LogRec(uint64(other.Space), 4))
				l.add(undoUpd(t, rows[0], 1).LogRec(uint64(t.Space), 4))
				var path [3]string
				for i, b := range [][]byte{dictOf(t, other), deletedLeaf(t, dead, rows), l.files(0)[0]} {
					path[i] = e.File(names[i], b)
					switch rel {
					case 1:
						path[i] = "./" + names[i]
					case 2:
						path[i] = names[i]
					}
				}
				a := []string{"recovery", "FromDataFile", "--LogPath=" + filepath.Join(e.Dir, "log")}
				if mode == 2 {
					a[1] = "FromRedoFile"
					a = append(a, flagText(form, "RedoFile", path[2])...)
				} else {
					a = append(a, flagText(form, "TableDataFile", path[1])...)
				}
				a = append(a, flagText(form, "SysDataFile", path[0])...)
				a = append(append(a, flagText(form, "DBName", t.DB)...), flagText(form, "TableName", t.Name)...)
				if mode == 1 {
					a = append(a, "--OpType=RecoveryData")
				}
				o := e.Cmd(eng.Tool(), a...)
				e.Outcome(o.Stdout)
				if x := cmdOK(o); x != nil {
					return x
				}
				switch mode {
				case 0:
					return checkText(t, rows, o.Stdout)
				case 1:
					return checkText(t, dead, o.Stdout)
				}
				return checkUpdText([]Upd{u}, o.Stdout)
			}}
		},
	})
	counts := []int{1, 2, 3, 4, 5, 9, 10, 16, 17, 33, 100}
	sp = append(sp, &eng.Space{
		Name: "many-files",
		Rule: fmt.Sprintf("FromRedoFile with %v log files, each a log of its own that gives one update of each of 2 tables, with and without a filter", counts),
		Body: func(c *eng.Chooser) *eng.Case {
			n := counts[c.Pick(len(counts))]
			filter := c.Bool()
			return &eng.Case{Title: func() string { return fmt.Sprintf("%d log files, filter %v", n, filter) }, Run: func(e *eng.Env) *eng.Fail {
				m := put(e)
				var ps []string
				var want []Upd
				for i := 0; i < n; i++ {
					l := newLog()
					for _, t := range []*Table{f.t, f.t2} {
						r := Row{int64(i), bs(fmt.Sprintf("file %d", i)), bs("b")}[:len(t.Cols)]
						l.add(undoUpd(t, r, 1).LogRec(uint64(t.Space), 4))
						if !filter || t == f.t2 {
							want = append(want, Upd{T: t, Changed: []int{1}, Old: r})
						}
					}
					p := e.File(fmt.Sprintf("log%d", i), l.files(0)[0])
					ps = append(ps, p)
				}
				a := []string{"recovery", "FromRedoFile", "--SysDataFile=" + m["sys"], "--RedoFile=" + strings.Join(ps, ","), "--LogPath=" + filepath.Join(e.Dir, "log")}
				if filter {
					a = append(a, "--DBName=d2")
				}
				o := e.Cmd(eng.Tool(), a...)
				e.Outcome(o.Stdout)
				if x := cmdOK(o); x != nil {
					return x
				}
				return checkUpdText(want, o.Stdout)
			}}
		},
	})
	sizes := []int{1, 7, 100, 1000, 5000, 20000}
	sp = append(sp, &eng.Space{
		Name: "long-output",
		Rule: fmt.Sprintf("runs that print %v statements of about 10, 3900 or 7900 bytes (up to 8 MB), dump, recovery and redo log, to a pipe: all statements, exit 0", sizes),
		Body: func(c *eng.Chooser) *eng.Case {
			n := sizes[c.Pick(len(sizes))]
			size := []int{10, 3900, 7900}[c.Pick(3)]
			mode := c.Pick(3)
			if n*size > 8<<20 {
				return nil
			}
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("%d statements of %d bytes, %s", n, size, []string{"dump", "recovery", "redo log"}[mode])
			}, Run: func(e *eng.Env) *eng.Fail {
				t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(2700)))
				sys := e.File("ibdata1", dictOf(t))
				a := []string{"recovery", "FromDataFile", "--SysDataFile=" + sys, "--LogPath=" + filepath.Join(e.Dir, "log"), "--LogLevel=error", "--DBName=d", "--TableName=t"}
				var rows []Row
				for i := 0; i < n; i++ {
					rows = append(rows, Row{int64(i), letters(size + i%3)})
				}
				if mode == 2 {
					a[1] = "FromRedoFile"
					l := newLog()
					var want []Upd
					for _, r := range rows {
						l.add(undoUpd(t, r, 1).LogRec(uint64(t.Space), 4))
						want = append(want, Upd{T: t, Changed: []int{1}, Old: r})
					}
					p := e.File("redo", l.files(0)[0])
					o := e.Cmd(eng.Tool(), append(a, "--RedoFile="+p)...)
					e.Outcome(fmt.Sprint(len(o.Stdout)))
					if x := cmdOK(o); x != nil {
						return x
					}
					return checkUpdText(want, o.Stdout)
				}
				pages := map[uint32][]byte{}
				per := 1
				if size == 10 {
					per = 200
				}
				for i := 0; i < n; i += per {
					hi := i + per
					if hi > n {
						hi = n
					}
					no := uint32(3 + len(pages))
					p := leafPage(t, no, rows[i:hi])
					if mode == 1 {
						p.PurgeAll()
					}
					pages[no] = p.Bytes()
				}
				p := e.File("t.ibd", Tablespace(t.Space, pages))
				if mode == 1 {
					a = append(a, "--OpType=RecoveryData")
				}
				o := e.Cmd(eng.Tool(), append(a, "--TableDataFile="+p)...)
				e.Outcome(fmt.Sprint(len(o.Stdout)))
				if x := cmdOK(o); x != nil {
					return x
				}
				return checkText(t, rows, o.Stdout)
			}}
		},
	})
	return sp
}

// placeWords puts flags before, between or behind the command words, or at the end.
func placeWords(a []string, pos int, flags []string) []string {
	at := func(w string) int {
		for i, x := range a {
			if x == w {
				return i
			}
		}
		return -1
	}
	i := len(a)
	switch pos {
	case 0:
		i = 0
	case 1:
		i = at("recovery") + 1
	case 2:
		if i = at("FromDataFile"); i < 0 {
			i = at("FromRedoFile")
		}
		i++
	}
	return append(append(append([]string{}, a[:i]...), flags...), a[i:]...)
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			out = append(out, append(append(append([]int{}, p[:i]...), n-1), p[i:]...))
		}
	}
	return out
}

func init() {
	eng.Register(&eng.Check{ID: "C18", Title: "command line contract", Level: "model_checking", Spaces: c18})
}
