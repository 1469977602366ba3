package eng

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Smoke runs a part of every check's quick spaces in this process and stops at the first failure. It
// decides nothing: tools/mutate uses it to tell quickly which mutants of the code are certainly caught;
// only what survives it is put to the checks themselves.
func Smoke(ids []string, head, stride int, cap time.Duration) int {
	dir := scratch()
	defer os.RemoveAll(dir)
	setMem(3 << 30)
	os.Setenv("TMPDIR", dir)
	out := os.NewFile(uintptr(dup(1)), "out")
	e := NewEnv(dir, false)
	if len(ids) == 0 {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	fmt.Fprintln(out, "DIR", filepath.Base(dir))
	for _, id := range ids {
		t0 := time.Now()
		n, skipped := 0, 0
		var slow []string
		for _, s := range checks[id].Spaces(false) {
			var st Stats
			var bad *Fail
			var what string
			idx := -1
			t1 := time.Now()
			spent := time.Duration(0)
			s.Enumerate(&st, func(trail []int, c *Case) bool {
				idx++
				if idx >= head && stride == 0 {
					return false
				}
				if idx >= head && idx%stride != 0 {
					skipped++
					return true
				}
				n++
				t := time.Now()
				if f := c.Run(e); f != nil {
					bad, what = f, c.Title()
					return false
				}
				spent += time.Since(t)
				return spent < cap
			})
			if bad != nil {
				fmt.Fprintf(out, "KILLED %s %s %s: %s: %s\n", id, s.Name, bad.Class, what, strings.ReplaceAll(clip(bad.Msg, 300), "\n", " "))
				return 1
			}
			if d := time.Since(t1); d > 500*time.Millisecond {
				slow = append(slow, fmt.Sprintf("%s=%.1f", s.Name, d.Seconds()))
			}
		}
		fmt.Fprintf(out, "%s ran %d skipped %d in %.1fs %s\n", id, n, skipped, time.Since(t0).Seconds(), strings.Join(slow, " "))
	}
	return 0
}

func dup(fd int) int {
	d, err := syscall.Dup(fd)
	if err != nil {
		panic(err)
	}
	return d
}
