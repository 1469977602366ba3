//go:build sched

package props

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"
	"github.com/zbdba/db-recovery/recovery/verifyield"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// point is a place in the run of one of the two readings: the occ-th time it comes to site.
type point struct{ task, site, occ int }

type task struct {
	run  func() error
	err  error
	pan  string
	seen []int
	wake chan struct{}
	done bool
}

// schedule runs two readings, one at a time. It switches at the points of the plan, in their order, and when a reading ends.
type schedule struct {
	t    [2]*task
	cur  int
	plan []point
	next int
	free atomic.Bool // not under control any more
	mark []mark
}

// mark: from this place in the output on it is the task's.
type mark struct{ at, task int }

// to hands over to the other reading.
func (s *schedule) to(task int) {
	n, _ := syscall.Seek(1, 0, 1)
	s.mark = append(s.mark, mark{int(n), task})
	s.cur = task
	s.t[task].wake <- struct{}{}
}

// wrote is what a reading wrote.
func (s *schedule) wrote(text string, task int) string {
	out := ""
	for i, m := range s.mark {
		end := len(text)
		if i+1 < len(s.mark) {
			end = s.mark[i+1].at
		}
		if m.task == task && m.at < end && end <= len(text) {
			out += text[m.at:end]
		}
	}
	return out
}

// patience is how long a schedule may take before it is seen as one in which a reading waits for the other.
var patience = 5 * time.Second

func (s *schedule) at(site int) {
	if s.free.Load() {
		return
	}
	t := s.t[s.cur]
	t.seen[site]++
	if s.next < len(s.plan) {
		p := s.plan[s.next]
		if p.task == s.cur && p.site == site && t.seen[site] == p.occ && !s.t[1-s.cur].done {
			s.next++
			s.to(1 - s.cur)
			<-t.wake
		}
	}
}

// run returns false when the readings do not end.
func (s *schedule) run(first int) bool {
	var wg sync.WaitGroup
	for i := range s.t {
		i, t := i, s.t[i]
		if t == nil {
			continue
		}
		t.seen = make([]int, len(verifyield.Where))
		t.wake = make(chan struct{}, 4)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-t.wake
			defer func() {
				if r := recover(); r != nil {
					t.pan = fmt.Sprint(r)
				}
				t.done = true
				if o := s.t[1-i]; !s.free.Load() && o != nil && !o.done {
					s.to(1 - i)
				}
			}()
			t.err = t.run()
		}()
	}
	verifyield.Hook = s.at
	s.to(first)
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	select {
	case <-all:
	case <-time.After(patience):
		patience = patience/2 + 50*time.Millisecond
		// One waits for the other (a lock), let both go on.
		s.free.Store(true)
		for _, t := range s.t {
			if t != nil {
				select {
				case t.wake <- struct{}{}:
				default:
				}
			}
		}
		select {
		case <-all:
		case <-time.After(20 * time.Second):
			return false
		}
	}
	verifyield.Hook = nil
	return true
}

// reading is one recovery: its own files, its own parser.
type reading struct {
	name, table string
	make        func(e *eng.Env) func() error
}

func readings() [2][]reading {
	var out [2][]reading
	for k, name := range []string{"alpha", "beta"} {
		k, name := k, name
		var t *Table
		row := func(i int) Row { return nil }
		// the same ids, other columns
		if k == 0 {
			t = tableOf("d", name, 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(100)), ncol("w", DateTimeT()), ncol("x", BlobT(2)), ncol("y", DoubleT()))
			row = func(i int) Row {
				return Row{int64(i), bs("it's \\ " + strings.Repeat("a", i)), DateTime{2020, 1 + i, 2, 3, 4, 5, 0}, []byte{0, byte(i), '\n'}, float64(i) / 8}
			}
		} else {
			t = tableOf("d", name, 40, ncol("v", VarbinaryT(30)), col("id", IntT(8, true)), ncol("w", TimeT()), ncol("e", BitT(2)), ncol("n", DecimalT(5)), ncol("y", IntT(2, false)))
			row = func(i int) Row {
				return Row{bs(strings.Repeat("b\"", i)), uint64(1000 + i), Clock{}, uint64(i), []byte{1, 2, 3, 4, byte(i)}, int64(-i)}
			}
			t.Key = []int{1}
		}
		var rs []Row
		for i := 1; i < 5; i++ {
			r := row(i)
			if i == 2 {
				r[len(r)-1] = nil
			}
			rs = append(rs, r)
		}
		for _, red := range []bool{false, true} {
			red := red
			t := *t
			t.Redundant = red
			p := leafPage(&t, 3, rs)
			p.Delete(1, true)
			dict, data := dictOf(&t), Tablespace(t.Space, map[uint32][]byte{3: p.Bytes()})
			for _, rec := range []bool{false, true} {
				rec := rec
				id := fmt.Sprintf("%s-%v-%v", name, red, rec)
				out[k] = append(out[k], reading{fmt.Sprintf("%s, redundant=%v recovery=%v", name, red, rec), name, func(e *eng.Env) func() error {
					dp, tp := e.File(id+"-ibdata1", dict), e.File(id+".ibd", data)
					return func() error {
						p := ibdata.NewParse()
						if err := p.ParseDictPage(dp); err != nil {
							return err
						}
						return p.ParseDataPage(tp, "d", name, rec)
					}
				}})
			}
		}
		l := newLog()
		for i := 1; i < 4; i++ {
			l.add(undoUpd(t, row(i), 0, 2).LogRec(uint64(t.Space), 300))
		}
		if k == 1 {
			l = newLog()
			for i := 1; i < 4; i++ {
				l.add(undoUpd(t, row(i), 0, 5).LogRec(uint64(t.Space), 300))
			}
		}
		files, dict := l.files(0), dictOf(t)
		out[k] = append(out[k], reading{name + ", redo log", name, func(e *eng.Env) func() error {
			dp := e.File(name+"-log-ibdata1", dict)
			var fs []string
			for i, f := range files {
				fs = append(fs, e.File(fmt.Sprintf("%s-ib_logfile%d", name, i), f))
			}
			return func() error {
				p := redo.NewParse("", "")
				if err := p.ParseDictPage(dp); err != nil {
					return err
				}
				return p.ParseRedoLogs(fs)
			}
		}})
	}
	return out
}

// alone is what a reading does when nothing else runs.
type alone struct {
	text string
	err  error
	seen []int
}

func of(text, name string) string {
	var out []string
	for _, l := range strings.SplitAfter(text, "\n") {
		if strings.Contains(l, name) {
			out = append(out, l)
		}
	}
	return strings.Join(out, "")
}

func c27(th bool) []*eng.Space {
	rs := readings()
	known := map[string]alone{}
	solo := func(e *eng.Env, r reading) (alone, *eng.Fail) {
		if a, ok := known[r.name]; ok {
			return a, nil
		}
		s := &schedule{}
		s.t[0] = &task{run: r.make(e)}
		ok := true
		o := e.Capture(func() error { ok = s.run(0); return nil })
		if !ok || s.t[0].pan != "" || s.t[0].err != nil || o.Text == "" {
			return alone{}, eng.Failf("alone", "%s, alone: ended %v, error %v, panic %s, %d bytes", r.name, ok, s.t[0].err, s.t[0].pan, len(o.Text))
		}
		a := alone{o.Text, s.t[0].err, s.t[0].seen}
		known[r.name] = a
		return a, nil
	}
	run := func(e *eng.Env, a, b reading, first int, plan []point) *eng.Fail {
		pair := [2]reading{a, b}
		s := &schedule{plan: plan}
		for i, r := range pair {
			s.t[i] = &task{run: r.make(e)}
		}
		ok := true
		o := e.Capture(func() error { ok = s.run(first); return nil })
		if !ok {
			return eng.Failf("hang", "the two readings do not end")
		}
		e.Outcome(o.Text)
		for i, r := range pair {
			w := known[r.name]
			if s.t[i].pan != "" {
				return eng.Failf("crash", "%s: %s", r.name, s.t[i].pan)
			}
			if s.t[i].err != nil {
				return eng.Failf("error", "%s fails only beside the other: %v", r.name, s.t[i].err)
			}
			got := s.wrote(o.Text, i)
			if s.free.Load() {
				got = of(o.Text, r.table)
			}
			if got != w.text {
				return eng.Failf("disturbed", "%s\nalone:  %sbeside: %s", r.name, w.text, got)
			}
		}
		return nil
	}
	say := func(p point) string {
		return fmt.Sprintf("reading %d at %s for the %d. time", p.task+1, verifyield.Where[p.site], p.occ)
	}
	sites := len(verifyield.Where)
	times := []int{1, 2, 3, -1} // -1: the last time
	if th {
		times = []int{1, 2, 3, 4, 5, 7, 10, 20, 40, -2, -1}
	}
	occ := func(a alone, site, k int) int {
		n := a.seen[site]
		if k < 0 {
			k = n + 1 + k
		}
		if k < 1 || k > n {
			return 0
		}
		return k
	}
	if verifyield.Spawns {
		sites = 0 // goroutines of the code itself are not under control
	}
	spaces := []*eng.Space{{
		Name: "one-after-the-other",
		Rule: "every pair of readings (dump, recovery, redo log; COMPACT, REDUNDANT; two tables with the same ids and other columns), one after the other",
		Body: func(c *eng.Chooser) *eng.Case {
			a, b, first := rs[0][c.Pick(len(rs[0]))], rs[1][c.Pick(len(rs[1]))], c.Pick(2)
			return &eng.Case{Title: func() string { return fmt.Sprintf("%s and %s, %d first", a.name, b.name, first+1) }, Run: func(e *eng.Env) *eng.Fail {
				for _, r := range []reading{a, b} {
					if _, f := solo(e, r); f != nil {
						return f
					}
				}
				return run(e, a, b, first, nil)
			}}
		},
	}, {
		Name: "one-preemption",
		Rule: fmt.Sprintf("every pair, each reading first; the first is interrupted before any of the %d statements of the packages (the 1st, 2nd, 3rd and last time it comes there; thorough: 11 different times), the other runs from its beginning to its end, then the first goes on", sites),
		Body: func(c *eng.Chooser) *eng.Case {
			a, b, first := rs[0][c.Pick(len(rs[0]))], rs[1][c.Pick(len(rs[1]))], c.Pick(2)
			if sites == 0 {
				return nil
			}
			site, k := c.Pick(sites), times[c.Pick(len(times))]
			return &eng.Case{Title: func() string {
				return fmt.Sprintf("%s and %s, reading %d interrupted at %s (%d)", a.name, b.name, first+1, verifyield.Where[site], k)
			}, Run: func(e *eng.Env) *eng.Fail {
				for _, r := range []reading{a, b} {
					if _, f := solo(e, r); f != nil {
						return f
					}
				}
				w := known[[2]reading{a, b}[first].name]
				n := occ(w, site, k)
				if n == 0 || k < 0 && n <= 3 {
					return nil
				}
				p := point{first, site, n}
				if f := run(e, a, b, first, []point{p}); f != nil {
					f.Msg = say(p) + ": " + f.Msg
					return f
				}
				return nil
			}}
		},
	}}
	if !th || sites == 0 {
		return spaces
	}
	pairs := [][2]int{{0, 0}, {0, 4}, {4, 4}, {1, 3}, {4, 0}}
	come := func(r reading) []int {
		if _, ok := reached[r.name]; !ok {
			reached[r.name] = places(r)
		}
		return reached[r.name]
	}
	return append(spaces, &eng.Space{
		Name: "two-preemptions",
		Rule: fmt.Sprintf("%d pairs, each reading first; the first is interrupted the first time it comes to any statement, the other when it comes to any statement the first time, then the first goes on to its end, then the other", len(pairs)),
		Body: func(c *eng.Chooser) *eng.Case {
			ab := pairs[c.Pick(len(pairs))]
			a, b, first := rs[0][ab[0]], rs[1][ab[1]], c.Pick(2)
			x, y := come([2]reading{a, b}[first]), come([2]reading{a, b}[1-first])
			p := point{first, x[c.Pick(len(x))], 1}
			q := point{1 - first, y[c.Pick(len(y))], 1}
			return &eng.Case{Title: func() string { return fmt.Sprintf("%s and %s, %s, then %s", a.name, b.name, say(p), say(q)) }, Run: func(e *eng.Env) *eng.Fail {
				for _, r := range []reading{a, b} {
					if _, f := solo(e, r); f != nil {
						return f
					}
				}
				return run(e, a, b, first, []point{p, q})
			}}
		},
	})
}

var reached = map[string][]int{}

// places are the sites a reading comes to. (Some depend on the order of a map.)
func places(r reading) []int {
	dir, err := os.MkdirTemp("", "places")
	if err != nil {
		panic(eng.HarnessError{Err: err})
	}
	defer os.RemoveAll(dir)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(eng.HarnessError{Err: err})
	}
	defer null.Close()
	was := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = was }()
	all := map[int]bool{}
	for i := 0; i < 20; i++ {
		s := &schedule{}
		s.t[0] = &task{run: r.make(eng.Files(dir))}
		if !s.run(0) {
			panic(eng.HarnessError{Err: fmt.Errorf("%s does not end", r.name)})
		}
		for site, n := range s.t[0].seen {
			if n > 0 {
				all[site] = true
			}
		}
	}
	var out []int
	for site := range all {
		out = append(out, site)
	}
	sort.Ints(out)
	return out
}

func init() {
	eng.Register(&eng.Check{ID: "C27", Title: "two readings at the same time", Level: "model_checking", Spaces: c27})
}
