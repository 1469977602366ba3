package props

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/zbdba/db-recovery/recovery/logs"

	"verif/mc/eng"
)

var logFns = []struct {
	name  string
	level int // 0 fatal .. 5 trace
	call  func(msg string)
}{
	{"Trace", 5, func(m string) { logs.Trace(m) }},
	{"Debug", 4, func(m string) { logs.Debug(m) }},
	{"Debugf", 4, func(m string) { logs.Debugf("%s", m) }},
	{"Info", 3, func(m string) { logs.Info(m) }},
	{"Infof", 3, func(m string) { logs.Infof("%s", m) }},
	{"Warn", 2, func(m string) { logs.Warn(m) }},
	{"Warnf", 2, func(m string) { logs.Warnf("%s", m) }},
	{"Error", 1, func(m string) { logs.Error(m) }},
	{"Errorf", 1, func(m string) { logs.Errorf("%s", m) }},
	{"Fatal", 0, func(m string) { logs.Fatal(m) }},
	{"Fatalf", 0, func(m string) { logs.Fatalf("%s", m) }},
}

// LogProbe is run in a process of its own: dir, then levels ("=name") and functions in order.
func LogProbe(args []string) {
	flag.CommandLine.Parse(nil)
	dir := args[0]
	for i, a := range args[1:] {
		if strings.HasPrefix(a, "=") {
			if err := logs.InitLogs(dir, a[1:]); err != nil {
				fmt.Println("InitLogs:", err)
				os.Exit(9)
			}
			continue
		}
		for _, f := range logFns {
			if f.name == a {
				f.call(fmt.Sprintf("<msg %d>", i))
			}
		}
	}
	logs.FlushLogs()
}

func c19(th bool) []*eng.Space {
	names := []string{"trace", "debug", "info", "warn", "error", "fatal"}
	num := map[string]int{"trace": 5, "debug": 4, "info": 3, "warn": 2, "error": 1, "fatal": 0}
	var levels []string
	for _, n := range names {
		levels = append(levels, n, strings.ToUpper(n), strings.ToUpper(n[:1])+n[1:])
	}
	levels = append(levels, "", "verbose", "4", " debug", "debugg", "warning")
	threshold := func(l string) int {
		if v, ok := num[strings.ToLower(l)]; ok {
			return v
		}
		return 3 // unknown: info
	}
	probe := func(e *eng.Env, args []string) (eng.CmdOut, string) {
		dir := filepath.Join(e.Dir, "logs")
		os.RemoveAll(dir)
		os.MkdirAll(dir, 0755)
		self, _ := os.Executable()
		o := e.Cmd(self, append([]string{"logprobe", dir}, args...)...)
		all := ""
		fs, _ := filepath.Glob(filepath.Join(dir, "*"))
		sort.Strings(fs)
		for _, f := range fs {
			if st, err := os.Lstat(f); err != nil || st.Mode()&os.ModeSymlink != 0 {
				continue
			}
			b, _ := os.ReadFile(f)
			all += string(b)
		}
		return o, all
	}
	run := func(args []string) *eng.Case {
		return &eng.Case{Title: func() string { return "levels and messages: " + strings.Join(args, " ") }, Run: func(e *eng.Env) *eng.Fail {
			o, all := probe(e, args)
			e.Outcome(fmt.Sprint(o.Exit, strings.Count(all, "<msg")))
			if o.Hang || o.Stdout != "" {
				return eng.Failf("stdout", "hang=%v, on standard output: %.200s", o.Hang, o.Stdout)
			}
			th := -1
			dead := false
			for i, a := range args {
				if strings.HasPrefix(a, "=") {
					th = threshold(a[1:])
					continue
				}
				lvl := 0
				for _, f := range logFns {
					if f.name == a {
						lvl = f.level
					}
				}
				want := lvl <= th && !dead
				got := strings.Contains(all, fmt.Sprintf("<msg %d>", i))
				if want != got {
					return eng.Failf("gating", "message %d (%s) at level threshold %d: in the log files=%v, expected %v", i, a, th, got, want)
				}
				if lvl == 0 {
					dead = true
				}
			}
			if dead == (o.Exit == 0) {
				return eng.Failf("fatal", "exit status %d, fatal message given=%v", o.Exit, dead)
			}
			return nil
		}}
	}
	depth := 2
	if th {
		depth = 3
	}
	sp := []*eng.Space{
		{
			Name: "levels",
			Rule: fmt.Sprintf("each of %d level names (three spellings each, unknown ones) x each of %d log functions: the message is in the files of the log path exactly when the level admits it", len(levels), len(logFns)),
			Body: func(c *eng.Chooser) *eng.Case {
				l := levels[c.Pick(len(levels))]
				f := logFns[c.Pick(len(logFns))]
				return run([]string{"=" + l, f.name})
			},
		},
		{
			Name: "level-histories",
			Rule: fmt.Sprintf("every sequence of 1..%d level changes, after each of them one message of each of the 9 functions that return", depth),
			Body: func(c *eng.Chooser) *eng.Case {
				n := 1 + c.Pick(depth)
				var a []string
				for i := 0; i < n; i++ {
					a = append(a, "="+append(names, "bogus")[c.Pick(7)])
					for _, f := range logFns[:9] {
						a = append(a, f.name)
					}
				}
				return run(a)
			},
		},
	}
	// the level changes no result
	f := cliInputs()
	type scene struct {
		name string
		args func(m map[string]string) []string
	}
	scenes := []scene{
		{"dump", func(m map[string]string) []string {
			return []string{"recovery", "FromDataFile", "--DBName=d", "--TableName=t", "--SysDataFile=" + m["sys"], "--TableDataFile=" + m["data"]}
		}},
		{"recovery", func(m map[string]string) []string {
			return []string{"recovery", "FromDataFile", "--DBName=d", "--TableName=t", "--SysDataFile=" + m["sys"], "--TableDataFile=" + m["data"], "--OpType=RecoveryData"}
		}},
		{"redo", func(m map[string]string) []string {
			return []string{"recovery", "FromRedoFile", "--SysDataFile=" + m["sys"], "--RedoFile=" + m["log0"] + "," + m["log1"]}
		}},
		{"dump of a damaged file", func(m map[string]string) []string {
			return []string{"recovery", "FromDataFile", "--DBName=d", "--TableName=t", "--SysDataFile=" + m["sys"], "--TableDataFile=" + m["hurt"]}
		}},
		{"redo of a damaged log", func(m map[string]string) []string {
			return []string{"recovery", "FromRedoFile", "--SysDataFile=" + m["sys"], "--RedoFile=" + m["hurtlog"]}
		}},
		{"an unknown table", func(m map[string]string) []string {
			return []string{"recovery", "FromDataFile", "--DBName=d", "--TableName=none", "--SysDataFile=" + m["sys"], "--TableDataFile=" + m["data"]}
		}},
	}
	hurt := append([]byte{}, f.data...)
	for i := 0; i < 60; i++ {
		hurt[3*16384+150+i] ^= 0x35
	}
	hurtlog := append([]byte{}, f.log0...)
	for i := 0; i < 7; i++ {
		hurtlog[2048+12+30+i] ^= 0xff
	}
	sp = append(sp, &eng.Space{
		Name: "level-and-results",
		Rule: fmt.Sprintf("%d runs of the tool (dump, recovery, redo, damaged input, failure) x every level name, log path that exists or not: the same statements and exit status as without", len(scenes)),
		Body: func(c *eng.Chooser) *eng.Case {
			s := scenes[c.Pick(len(scenes))]
			lv := append(append([]string{}, names...), "bogus", "")[c.Pick(8)]
			path := []string{"log", "missing/dir"}[c.Pick(2)]
			return &eng.Case{Title: func() string { return fmt.Sprintf("%s with log level %q, log path %s", s.name, lv, path) }, Run: func(e *eng.Env) *eng.Fail {
				m := map[string]string{
					"sys":  e.File("ibdata1", f.dict),
					"data": e.File("t.ibd", f.data),
					"hurt": e.File("hurt.ibd", hurt), "hurtlog": e.File("hurt.log", hurtlog),
					"log0": e.File("ib_logfile0", f.log0),
					"log1": e.File("ib_logfile1", f.log1),
				}
				base := e.Cmd(eng.Tool(), append(s.args(m), "--LogPath="+filepath.Join(e.Dir, "log"))...)
				o := e.Cmd(eng.Tool(), append(s.args(m), "--LogPath="+filepath.Join(e.Dir, path), "--LogLevel="+lv)...)
				e.Outcome(o.Stdout)
				if o.Hang || o.Stdout != base.Stdout || o.Exit != base.Exit {
					return eng.Failf("result", "exit %d, without a level %d\nstdout: %.400s\nwithout a level: %.400s\nstderr: %.300s", o.Exit, base.Exit, o.Stdout, base.Stdout, o.Stderr)
				}
				return nil
			}}
		},
	})
	fails := []scene{
		scenes[5],
		{"a missing data file", func(m map[string]string) []string {
			return []string{"recovery", "FromDataFile", "--DBName=d", "--TableName=t", "--SysDataFile=" + m["sys"], "--TableDataFile=/does-not-exist"}
		}},
		{"a missing dictionary", func(m map[string]string) []string {
			return []string{"recovery", "FromDataFile", "--DBName=d", "--TableName=t", "--SysDataFile=/does-not-exist", "--TableDataFile=" + m["data"]}
		}},
		{"a missing log", func(m map[string]string) []string {
			return []string{"recovery", "FromRedoFile", "--SysDataFile=" + m["sys"], "--RedoFile=/does-not-exist"}
		}},
		{"redo with a missing dictionary", func(m map[string]string) []string {
			return []string{"recovery", "FromRedoFile", "--SysDataFile=/does-not-exist", "--RedoFile=" + m["log0"]}
		}},
	}
	sp = append(sp, &eng.Space{
		Name: "log-of-a-run",
		Rule: fmt.Sprintf("%d failing and %d other runs x every level: the log files in the log path hold what the level admits: errors of the failure from error on, and steps of the run from debug on; nothing at fatal", len(fails), 3),
		Body: func(c *eng.Chooser) *eng.Case {
			all := append(append([]scene{}, fails...), scenes[:3]...)
			k := c.Pick(len(all))
			s := all[k]
			lv := names[c.Pick(len(names))]
			return &eng.Case{Title: func() string { return fmt.Sprintf("%s with log level %s", s.name, lv) }, Run: func(e *eng.Env) *eng.Fail {
				m := map[string]string{"sys": e.File("ibdata1", f.dict), "data": e.File("t.ibd", f.data), "log0": e.File("ib_logfile0", f.log0), "log1": e.File("ib_logfile1", f.log1)}
				dir := filepath.Join(e.Dir, "runlog")
				os.RemoveAll(dir)
				os.MkdirAll(dir, 0755)
				e.Cmd(eng.Tool(), append(s.args(m), "--LogPath="+dir, "--LogLevel="+lv)...)
				lines := map[byte]int{} // messages by severity letter, from the file of all severities
				fs, _ := filepath.Glob(filepath.Join(dir, "*.log.*"))
				for _, p := range fs {
					b, _ := os.ReadFile(p)
					for _, l := range strings.Split(string(b), "\n") {
						if len(l) > 5 && strings.IndexByte("IWEF", l[0]) >= 0 && l[1] >= '0' && l[1] <= '9' {
							lines[l[0]]++
						}
					}
				}
				e.Outcome(fmt.Sprint(lines['I'] > 0, lines['E'] > 0))
				errors, steps := k < len(fails) && num[lv] >= 1, num[lv] >= 4 && s.name != "a missing dictionary" && s.name != "redo with a missing dictionary"
				if errors != (lines['E'] > 0) {
					return eng.Failf("errors", "%d error messages in the log, expected some=%v", lines['E'], errors)
				}
				if steps && lines['I'] == 0 || num[lv] < 3 && lines['I'] > 0 {
					return eng.Failf("steps", "%d informational messages in the log at level %s", lines['I'], lv)
				}
				return nil
			}}
		},
	})
	return sp
}

func init() {
	eng.Register(&eng.Check{ID: "C19", Title: "logging", Level: "model_checking", Spaces: c19})
}
