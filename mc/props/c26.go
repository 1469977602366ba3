package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"

	"verif/mc/eng"
)

// hurt is a way in which the input of a reading is not what it should be.
type hurt struct {
	name string
	do   func(names []string, files map[string][]byte)
}

// hurts of the files names, the dictionary first. A nil file is missing, a name ending in / is a directory.
func hurts(th bool) []hurt {
	out := []hurt{{"whole files", func([]string, map[string][]byte) {}}}
	at := func(k int) (string, func([]string) string) {
		if k == 0 {
			return "dictionary", func(n []string) string { return n[0] }
		}
		return "last data or log file", func(n []string) string { return n[len(n)-1] }
	}
	for k := 0; k < 2; k++ {
		what, name := at(k)
		out = append(out,
			hurt{"no " + what, func(n []string, f map[string][]byte) { f[name(n)] = nil }},
			hurt{"empty " + what, func(n []string, f map[string][]byte) { f[name(n)] = []byte{} }},
			hurt{what + " is a directory", func(n []string, f map[string][]byte) { delete(f, name(n)); f[name(n)+"/"] = []byte{} }})
		cuts := []int{1, 511, 512, 513, 1024, 1536, 2047, 2048, 2049, 4096, 16383, 16384, 16385, 32768, 3 * 16384, 4*16384 + 100}
		for _, cut := range cuts {
			cut := cut
			out = append(out, hurt{fmt.Sprintf("%s cut to %d bytes", what, cut), func(n []string, f map[string][]byte) {
				if b := f[name(n)]; len(b) > cut {
					f[name(n)] = b[:cut]
				}
			}})
			out = append(out, hurt{fmt.Sprintf("%s lost its last %d bytes", what, cut), func(n []string, f map[string][]byte) {
				if b := f[name(n)]; len(b) > cut {
					f[name(n)] = b[:len(b)-cut]
				}
			}})
		}
		step, to := 7, 128
		if th {
			step, to = 1, 400
		}
		for _, page := range []int{0, 3, 4, 7, 8, 9, 10, 11, 12} {
			for o := 0; o < to; o += step {
				page, o := page, o
				if !th && o > 40 && page > 4 {
					continue
				}
				out = append(out, hurt{fmt.Sprintf("%s with ff in byte %d of page %d", what, o, page), func(n []string, f map[string][]byte) {
					b := append([]byte{}, f[name(n)]...)
					if i := page*16384 + o; i < len(b) {
						b[i] = 0xff
					}
					f[name(n)] = b
				}})
			}
		}
		for o := 0; o < 2048+1024; o += 4 * step {
			o := o
			out = append(out, hurt{fmt.Sprintf("%s with ff in byte %d", what, o), func(n []string, f map[string][]byte) {
				b := append([]byte{}, f[name(n)]...)
				if o < len(b) {
					b[o] = 0xff
				}
				f[name(n)] = b
			}})
		}
	}
	return out
}

// seen is what a directory holds: names, contents and the times of the last change.
func seen(dir string) (string, error) {
	var out []string
	err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		st := i.Sys().(*syscall.Stat_t)
		l := fmt.Sprintf("%s mode %v inode %d size %d changed %v/%v", p, i.Mode(), st.Ino, st.Size, st.Mtim, st.Ctim)
		if i.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			l += fmt.Sprintf(" content %x", hash(b))
		}
		out = append(out, l)
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n"), err
}

func hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// changed names the lines of b that a does not have, and the other way round.
func changed(a, b string) string {
	in := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, l := range strings.Split(s, "\n") {
			m[l] = true
		}
		return m
	}
	x, y := in(a), in(b)
	var out []string
	for l := range x {
		if !y[l] {
			out = append(out, "was: "+l)
		}
	}
	for l := range y {
		if !x[l] {
			out = append(out, "is: "+l)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// held are the files of a directory this process has open.
func held(dir string) []string {
	var out []string
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(l, dir+"/") {
			out = append(out, l)
		}
	}
	return out
}

type inputs struct {
	dir   string
	paths []string
}

// put writes the files of a reading, read-only, into a directory of their own that is read-only too.
func put(e *eng.Env, r fullRun, h hurt) inputs {
	dir := filepath.Join(e.Dir, "in")
	clear(dir)
	must := func(err error) {
		if err != nil {
			panic(eng.HarnessError{Err: err})
		}
	}
	must(os.Mkdir(dir, 0755))
	names := []string{"ibdata1"}
	files := map[string][]byte{"ibdata1": r.dict}
	for i, f := range r.files {
		n := "t.ibd"
		if r.op == "" {
			n = fmt.Sprintf("ib_logfile%d", i)
		}
		names = append(names, n)
		files[n] = f
	}
	h.do(names, files)
	for n, b := range files {
		switch {
		case b == nil:
		case strings.HasSuffix(n, "/"):
			must(os.Mkdir(filepath.Join(dir, n), 0555))
		default:
			must(os.WriteFile(filepath.Join(dir, n), b, 0444))
			if e.Keep != nil {
				e.Keep[n] = b
			}
		}
	}
	must(os.Chmod(dir, 0555))
	in := inputs{dir: dir}
	for _, n := range names {
		in.paths = append(in.paths, filepath.Join(dir, n))
	}
	return in
}

func clear(dir string) {
	os.Chmod(dir, 0755)
	os.RemoveAll(dir)
}

func (in inputs) args(r fullRun) []string {
	if r.op == "" {
		return []string{"recovery", "FromRedoFile", "--SysDataFile=" + in.paths[0], "--RedoFile=" + strings.Join(in.paths[1:], ",")}
	}
	return []string{"recovery", "FromDataFile", "--SysDataFile=" + in.paths[0], "--TableDataFile=" + in.paths[1], "--DBName=d", "--TableName=t", "--OpType=" + r.op}
}

func c26(th bool) []*eng.Space {
	runs := fullRuns(th)
	hs := hurts(th)
	few := []hurt{}
	for _, h := range hs {
		if !strings.Contains(h.name, "with ff") {
			few = append(few, h)
		}
	}
	return []*eng.Space{
		{
			Name: "readings",
			Rule: "dump, recovery and log readings of whole, missing, empty, cut and damaged files and of directories; the directory of the inputs (names, contents, modes, inodes, times) before and after each reading, and the files that are still open",
			Body: func(c *eng.Chooser) *eng.Case {
				r := runs[c.Pick(len(runs))]
				h := hs[c.Pick(len(hs))]
				return &eng.Case{Title: func() string { return r.name + ", " + h.name }, Run: func(e *eng.Env) *eng.Fail {
					in := put(e, r, h)
					defer clear(in.dir)
					was, err := seen(in.dir)
					if err != nil {
						panic(eng.HarnessError{Err: err})
					}
					o := e.Capture(func() error {
						if r.op == "" {
							p := redo.NewParse("", "")
							if err := p.ParseDictPage(in.paths[0]); err != nil {
								return err
							}
							return p.ParseRedoLogs(in.paths[1:])
						}
						p := ibdata.NewParse()
						if err := p.ParseDictPage(in.paths[0]); err != nil {
							return err
						}
						return p.ParseDataPage(in.paths[1], "d", "t", r.op == "RecoveryData")
					})
					open := held(in.dir)
					e.Outcome(o.Text)
					is, err := seen(in.dir)
					if err != nil {
						return eng.Failf("changed", "after %s, %s the inputs cannot be read any more: %v", r.name, h.name, err)
					}
					if is != was {
						return eng.Failf("changed", "%s, %s changes the files it reads: %s", r.name, h.name, changed(was, is))
					}
					if len(open) > 0 {
						return eng.Failf("open", "%s, %s leaves files open (error %v): %v", r.name, h.name, o.Err, open)
					}
					return nil
				}}
			},
		},
		{
			Name: "program",
			Rule: "the program run by a user who may only read the inputs and their directory, the working directory; whole, missing, empty, cut files and directories; every log level: the output and the status are those of root with the same files, and nothing in the directory changes",
			Body: func(c *eng.Chooser) *eng.Case {
				r := runs[c.Pick(len(runs))]
				h := few[c.Pick(len(few))]
				level := []string{"", "error", "warn", "info", "debug", "trace"}[c.Pick(6)]
				return &eng.Case{Title: func() string { return r.name + ", " + h.name + ", log level " + level }, Run: func(e *eng.Env) *eng.Fail {
					in := put(e, r, h)
					defer clear(in.dir)
					was, err := seen(in.dir)
					if err != nil {
						panic(eng.HarnessError{Err: err})
					}
					args := in.args(r)
					if level != "" {
						args = append(args, "--LogLevel="+level)
					}
					whole := e.CmdAs(0, in.dir, args...)
					o := e.CmdAs(65534, in.dir, args...)
					e.Outcome(fmt.Sprint(o.Exit, o.Stdout))
					is, err := seen(in.dir)
					switch {
					case err != nil:
						return eng.Failf("changed", "after %s, %s the inputs cannot be read any more: %v", r.name, h.name, err)
					case is != was:
						return eng.Failf("changed", "%s, %s changes the files it reads: %s", r.name, h.name, changed(was, is))
					case o.Hang || whole.Hang:
						return eng.Failf("hang", "the program did not end")
					case o.Exit != whole.Exit || o.Stdout != whole.Stdout:
						return eng.Failf("write-access", "%s, %s: a user who can only read the files gets status %d and %d bytes (%.200q), root status %d and %d bytes", r.name, h.name, o.Exit, len(o.Stdout), o.Stderr+o.Stdout, whole.Exit, len(whole.Stdout))
					case h.name == "whole files" && (o.Exit != 0 || strings.Count(o.Stdout, ";\n") == 0):
						return eng.Failf("no-result", "%s: status %d, %.300q", r.name, o.Exit, o.Stderr+o.Stdout)
					}
					return nil
				}}
			},
		},
	}
}

func init() {
	eng.Register(&eng.Check{ID: "C26", Title: "inputs stay as they are", Level: "model_checking", Spaces: c26})
}
