package eng

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Check is one property's check.
type Check struct {
	ID     string
	Title  string
	Level  string // model_checking or fault_enumeration
	Bounds map[string]string
	Spaces func(thorough bool) []*Space
	// Assume is copied to the evidence.
	Assume []string
}

var checks = map[string]*Check{}

func Register(c *Check) { checks[c.ID] = c }

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Root is the /verif directory.
func Root() string { return env("VMC_ROOT", "/verif") }

const (
	hangAfter   = 45 * time.Second
	maxFails    = 6 // per worker
	maxTrail    = 400
	statusBytes = 8192
)

type status struct {
	Beat  uint64 // changes at every case
	Space uint64
	Index uint64 // case index in the space
	Phase uint64 // 0 enumerating, 1 running a case, 2 done
	Cases uint64
	NT    uint64
	Trail [maxTrail]int64
}

func mapStatus(path string) *status {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	f.Truncate(statusBytes)
	b, err := syscall.Mmap(int(f.Fd()), 0, statusBytes, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return (*status)(unsafe.Pointer(&b[0]))
}

// Found is a recorded violation.
type Found struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Space    string `json:"space"`
	Trail    []int  `json:"trail"`
	Title    string `json:"title"`
	Class    string `json:"class"`
	Msg      string `json:"msg"`
}

type spaceStat struct {
	Name, Rule           string
	States, Trans, Cases uint64
	MaxDepth             int
	Complete             bool
}

type workerResult struct {
	Spaces   []spaceStat
	Runs     uint64
	Execs    uint64
	Found    []Found
	Outcomes []uint64
	Samples  []string
	Stopped  bool
}

func tierOf(thorough bool) string {
	if thorough {
		return "thorough"
	}
	return "quick"
}

// Worker explores shard i of n.
func Worker(id string, i, n int, thorough bool, dir string, from string, deadline time.Time) {
	c := checks[id]
	setMem(3 << 30)
	st := mapStatus(filepath.Join(dir, fmt.Sprintf("status%d", i)))
	wd := filepath.Join(dir, fmt.Sprintf("w%d", i))
	os.MkdirAll(wd, 0755)
	os.Setenv("TMPDIR", wd)
	e := NewEnv(wd, false)
	var res workerResult
	fromSpace, fromIdx := -1, -1
	if from != "" {
		p := strings.Split(from, ":")
		fromSpace, _ = strconv.Atoi(p[0])
		fromIdx, _ = strconv.Atoi(p[1])
	}
	stop := false
	for k, s := range c.Spaces(thorough) {
		var stt Stats
		idx := -1
		done := s.Enumerate(&stt, func(trail []int, cs *Case) bool {
			idx++
			if idx%n != i {
				return true
			}
			if k < fromSpace || k == fromSpace && idx <= fromIdx {
				return true
			}
			if res.Runs&15 == 0 && time.Now().After(deadline) {
				res.Stopped = true
				return false
			}
			st.Space, st.Index = uint64(k), uint64(idx)
			st.NT = uint64(len(trail))
			for j, v := range trail {
				if j < maxTrail {
					st.Trail[j] = int64(v)
				}
			}
			st.Phase = 1
			st.Beat++
			f := cs.Run(e)
			st.Phase = 0
			st.Beat++
			res.Runs++
			if f != nil {
				res.Found = append(res.Found, Found{id, tierOf(thorough), s.Name, append([]int{}, trail...), cs.Title(), f.Class, f.Msg})
				if len(res.Found) >= maxFails {
					res.Stopped = true
					return false
				}
			} else if i == 0 && (res.Runs <= 2 || res.Runs&(res.Runs-1) == 0) && len(res.Samples) < 24 {
				res.Samples = append(res.Samples, s.Name+": "+cs.Title())
			}
			return true
		})
		res.Spaces = append(res.Spaces, spaceStat{s.Name, s.Rule, stt.States, stt.Transitions, stt.Cases, stt.MaxDepth, done})
		if !done {
			stop = true
		}
		if stop {
			break
		}
	}
	res.Execs = e.Execs
	for o := range e.outcomes {
		res.Outcomes = append(res.Outcomes, o)
	}
	writeJSON(filepath.Join(dir, fmt.Sprintf("result%d.json", i)), res)
	st.Phase = 2
	os.Exit(0)
}

func setMem(n uint64) {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n, Max: n})
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

func writeJSON(p string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, append(b, '\n'), 0644); err != nil {
		panic(err)
	}
}

func scratch() string {
	for _, base := range []string{"/dev/shm", os.TempDir()} {
		if d, err := os.MkdirTemp(base, "vmc-"); err == nil {
			return d
		}
	}
	panic("no scratch directory")
}

func workerEnv(dir string) []string {
	var out []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "TZ=") || strings.HasPrefix(kv, "TMPDIR=") || strings.HasPrefix(kv, "GOMAXPROCS=") || strings.HasPrefix(kv, "GOTRACEBACK=") {
			continue
		}
		out = append(out, kv)
	}
	return append(out, "TZ=UTC", "TMPDIR="+dir, "GOMAXPROCS=2", "GOTRACEBACK=single")
}

type proc struct {
	i      int
	cmd    *exec.Cmd
	done   chan error
	st     *status
	beat   uint64
	since  time.Time
	over   bool
	killed bool
}

func startWorker(self, id string, i, n int, thorough bool, dir, from string, deadline time.Time) *proc {
	p := &proc{i: i, done: make(chan error, 1), since: time.Now()}
	p.st = mapStatus(filepath.Join(dir, fmt.Sprintf("status%d", i)))
	p.beat = p.st.Beat
	p.cmd = exec.Command(self, "worker", id, strconv.Itoa(i), strconv.Itoa(n), tierOf(thorough), dir, from, strconv.FormatInt(deadline.UnixNano(), 10))
	p.cmd.Env = workerEnv(dir)
	ef, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stderr%d", i)))
	p.cmd.Stderr = ef
	p.cmd.Stdout = ef
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	ef.Close()
	go func() { p.done <- p.cmd.Wait() }()
	return p
}

func (p *proc) trail() []int {
	n := int(p.st.NT)
	if n > maxTrail {
		n = maxTrail
	}
	var t []int
	for i := 0; i < n; i++ {
		t = append(t, int(p.st.Trail[i]))
	}
	return t
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	s := string(b)
	if len(s) > n {
		s = s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// Known is the known-findings file.
type Known struct {
	Property, Key, What string
}

func loadKnown() []Known {
	var out []Known
	f, err := os.Open(filepath.Join(Root(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property=") {
			continue // comments and "fixed:" entries suppress nothing
		}
		l = strings.TrimPrefix(l, "finding: property=")
		p := strings.SplitN(l, " ", 3)
		if len(p) == 3 && strings.HasPrefix(p[1], "key=") {
			out = append(out, Known{p[0], strings.TrimPrefix(p[1], "key="), p[2]})
		}
	}
	return out
}

func (f *Found) Key() string { return f.Space + "/" + f.Class }

// Main runs one check and returns the exit code.
func Main(id string, thorough bool) int {
	c := checks[id]
	if c == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	t0 := time.Now()
	limit := 300
	if thorough {
		limit = 780
	}
	if v, err := strconv.Atoi(os.Getenv("VMC_DEADLINE")); err == nil {
		limit = v
	}
	deadline := t0.Add(time.Duration(limit) * time.Second)
	n := 8
	if v, err := strconv.Atoi(os.Getenv("VMC_WORKERS")); err == nil && v > 0 {
		n = v
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	var procs []*proc
	for i := 0; i < n; i++ {
		procs = append(procs, startWorker(self, id, i, n, thorough, dir, "", deadline))
	}
	var found []Found
	aborted := false
	var harness []string
	live := n
	grace := deadline.Add(40 * time.Second)
	spaces := c.Spaces(thorough)
	for live > 0 {
		time.Sleep(20 * time.Millisecond)
		for k, p := range procs {
			if p.over {
				continue
			}
			select {
			case err := <-p.done:
				if err == nil {
					p.over = true
					live--
					continue
				}
				// the worker died: was it inside a case?
				if p.st.Phase == 1 && !p.killed {
					f := Found{id, tierOf(thorough), spaces[p.st.Space].Name, p.trail(), "", "crash", tail(filepath.Join(dir, fmt.Sprintf("stderr%d", p.i)), 1500)}
					confirmed := confirm(self, &f, 1)
					if confirmed > 0 {
						found = append(found, f)
						p.over = true
						aborted = true
						live--
					} else {
						procs[k] = startWorker(self, id, p.i, n, thorough, dir, fmt.Sprintf("%d:%d", p.st.Space, p.st.Index), deadline)
						harness = append(harness, "a worker died once and the execution did not reproduce it: "+f.Msg)
						if len(harness) > 3 {
							procs[k].cmd.Process.Kill()
							procs[k].over = true
							live--
							aborted = true
						}
					}
				} else {
					harness = append(harness, fmt.Sprintf("worker %d: %v\n%s", p.i, err, tail(filepath.Join(dir, fmt.Sprintf("stderr%d", p.i)), 3000)))
					p.over = true
					aborted = true
					live--
				}
				continue
			default:
			}
			if b := p.st.Beat; b != p.beat {
				p.beat, p.since = b, time.Now()
			} else if p.st.Phase == 1 && time.Since(p.since) > hangAfter {
				f := Found{id, tierOf(thorough), spaces[p.st.Space].Name, p.trail(), "", "hang", fmt.Sprintf("no progress for %v", hangAfter)}
				from := fmt.Sprintf("%d:%d", p.st.Space, p.st.Index)
				p.killed = true
				p.cmd.Process.Kill()
				<-p.done
				if confirm(self, &f, 1) > 0 {
					found = append(found, f)
					p.over = true
					aborted = true
					live--
				} else {
					procs[k] = startWorker(self, id, p.i, n, thorough, dir, from, deadline)
				}
			}
			if time.Now().After(grace) {
				p.cmd.Process.Kill()
				<-p.done
				p.over = true
				aborted = true
				live--
			}
		}
	}
	// merge
	var res []workerResult
	outcomes := map[uint64]struct{}{}
	var runs, execs uint64
	var samples []string
	complete := !aborted
	for i := 0; i < n; i++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result%d.json", i)))
		if err != nil {
			complete = false
			continue
		}
		var r workerResult
		if json.Unmarshal(b, &r) != nil {
			complete = false
			continue
		}
		res = append(res, r)
		runs += r.Runs
		execs += r.Execs
		found = append(found, r.Found...)
		samples = append(samples, r.Samples...)
		for _, o := range r.Outcomes {
			outcomes[o] = struct{}{}
		}
		if r.Stopped {
			complete = false
		}
	}
	// classify
	known := loadKnown()
	seen := map[string]bool{}
	shown := map[string]bool{}
	bad := 0
	sort.SliceStable(found, func(i, j int) bool { return len(found[i].Trail) < len(found[j].Trail) })
	rd := filepath.Join(Root(), "evidence", "replay", id)
	os.RemoveAll(rd)
	for k := range found {
		f := &found[k]
		if seen[f.Key()] {
			continue
		}
		seen[f.Key()] = true
		var kn *Known
		for j := range known {
			if known[j].Property == id && known[j].Key == f.Key() {
				kn = &known[j]
			}
		}
		if kn != nil {
			if !shown[kn.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kn.What)
				shown[kn.Key] = true
			}
			continue
		}
		if bad >= 12 {
			continue
		}
		path := filepath.Join(rd, fmt.Sprintf("%02d", bad))
		os.MkdirAll(path, 0755)
		art := filepath.Join(path, "violation.json")
		writeJSON(art, f)
		again := 0
		if f.Class != "hang" && f.Class != "crash" {
			again = confirm(self, f, 5)
		} else {
			again = 1
		}
		bad++
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, art)
		fmt.Printf("  space %s, %s: %s\n  %s\n  reproduced %d of 5 times in isolation; replay with: %s/run.sh replay %s\n", f.Space, f.Class, f.Title, strings.ReplaceAll(clip(f.Msg, 1500), "\n", "\n  "), again, Root(), art)
	}
	// evidence
	cov := map[string]interface{}{}
	var states, trans, cases uint64
	var sp []map[string]interface{}
	if len(res) > 0 {
		longest := res[0]
		for _, r := range res {
			if len(r.Spaces) > len(longest.Spaces) {
				longest = r
			}
		}
		for _, s := range longest.Spaces {
			states += s.States
			trans += s.Trans
			cases += s.Cases
			sp = append(sp, map[string]interface{}{"space": s.Name, "enumerated": s.Rule, "states": s.States, "transitions": s.Trans, "executions": s.Cases, "max_depth": s.MaxDepth, "complete": s.Complete && complete})
		}
		if len(longest.Spaces) < len(spaces) {
			complete = false
		}
	}
	if len(samples) > 30 {
		samples = samples[:30]
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = runs
	cov["implementation_runs"] = execs
	cov["distinct_outcomes"] = len(outcomes)
	cov["samples"] = samples
	cov["spaces"] = sp
	cov["exhaustive"] = complete && bad == 0
	cov["explanation"] = "states/transitions: distinct nodes/edges of the choice trees and state graphs explored; traces_validated_against_impl: executions replayed on the real code and compared with the reference model; distinct_outcomes: different observed results."
	if c.Level == "fault_enumeration" {
		cov["evaluations"] = runs
		cov["distinct_nontrivial"] = len(outcomes)
		cov["rule"] = "every case is a distinct point of the enumerated spaces; non-trivial = its observed output differs from every other counted one"
	}
	if len(harness) > 0 {
		cov["machinery_notes"] = harness
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	// What every check of this machinery takes for granted.
	assume := append([]string{
		"the files are the ones the reference encoders of /verif/mc write; they were written from the documented InnoDB formats, without a MySQL server to compare with",
		"nothing outside the enumerated bounds is claimed",
	}, c.Assume...)
	ev := map[string]interface{}{
		"property": id, "tier": tierOf(thorough), "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": bad,
	}
	os.MkdirAll(filepath.Join(Root(), "evidence"), 0755)
	writeJSON(filepath.Join(Root(), "evidence", id+".json"), ev)
	fmt.Printf("%s %s: %d states, %d transitions, %d executions on the implementation, %d distinct outcomes, exhaustive=%v, %.1fs\n", id, tierOf(thorough), states, trans, runs, len(outcomes), complete && bad == 0, time.Since(t0).Seconds())
	if bad > 0 {
		return 1
	}
	if len(harness) > 0 {
		for _, h := range harness {
			fmt.Println("machinery:", h)
		}
		if runs == 0 || aborted {
			return 2
		}
	}
	return 0
}

// confirm re-runs a violation in fresh processes and counts how often it fails again.
func confirm(self string, f *Found, times int) int {
	d := scratch()
	defer os.RemoveAll(d)
	art := filepath.Join(d, "v.json")
	writeJSON(art, f)
	n := 0
	for i := 0; i < times; i++ {
		cmd := exec.Command(self, "replay", art, "-q")
		cmd.Env = workerEnv(d)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		done := make(chan error, 1)
		if cmd.Start() != nil {
			continue
		}
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err != nil {
				n++
			}
		case <-time.After(2 * hangAfter):
			cmd.Process.Kill()
			<-done
			n++
		}
	}
	return n
}

// Replay runs the case of an artifact; exit 1 if it fails again.
func Replay(art string, quiet bool) int {
	b, err := os.ReadFile(art)
	if err != nil {
		fmt.Println(err)
		return 0
	}
	var f Found
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 0
	}
	setMem(3 << 30)
	c := checks[f.Property]
	for _, s := range c.Spaces(f.Tier == "thorough") {
		if s.Name != f.Space {
			continue
		}
		cs, err := s.At(f.Trail)
		if err != nil {
			fmt.Println(err)
			return 0
		}
		d := scratch()
		defer os.RemoveAll(d)
		os.Setenv("TMPDIR", d)
		saved, _ := syscall.Dup(1)
		e := NewEnv(d, true)
		r := cs.Run(e)
		syscall.Dup2(saved, 1)
		if !quiet {
			fmt.Println("case:", cs.Title())
			for _, t := range e.Trace {
				fmt.Println("observed:", t)
			}
			dir := filepath.Dir(art)
			for n, b := range e.Keep {
				os.WriteFile(filepath.Join(dir, n), b, 0644)
				fmt.Println("input written to", filepath.Join(dir, n))
			}
			if r != nil {
				fmt.Println("FAILS:", r.Class, r.Msg)
			} else {
				fmt.Println("passes")
			}
		}
		if r != nil {
			return 1
		}
		return 0
	}
	fmt.Println("no such space", f.Space)
	return 0
}

// List prints the registered checks and the size of their spaces.
func List() {
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Println(id, checks[id].Title)
		for _, th := range []bool{false, true} {
			if th && os.Getenv("VMC_LIST") == "" {
				continue
			}
			for _, s := range checks[id].Spaces(th) {
				var st Stats
				t := time.Now()
				done := s.Enumerate(&st, func([]int, *Case) bool { return st.Cases < 2000000 })
				fmt.Printf("   %-8s %-28s cases %d states %d transitions %d done=%v %.2fs\n", tierOf(th), s.Name, st.Cases, st.States, st.Transitions, done, time.Since(t).Seconds())
			}
		}
	}
}
