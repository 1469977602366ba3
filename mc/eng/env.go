package eng

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"
)

// Env is what a case runs in: a scratch directory, captured standard output, outcome recording.
type Env struct {
	Dir      string
	out      int // memfd behind fd 1
	outcomes map[uint64]struct{}
	obs      uint64
	Execs    uint64 // implementation runs
	last     map[string][]byte
	Keep     map[string][]byte // replay: input files to save
	Trace    []string          // replay: what was observed
	replay   bool
	dir      string // of the next command
	uid      uint32 // of the next command
}

func memfd(name string) int {
	b := append([]byte(name), 0)
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&b[0])), 0, 0)
	if e != 0 {
		f, err := os.CreateTemp("", name)
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		d, _ := syscall.Dup(int(f.Fd()))
		return d
	}
	return int(fd)
}

// NewEnv redirects fd 1 of this process into a memory file.
func NewEnv(dir string, replay bool) *Env {
	e := &Env{Dir: dir, outcomes: map[uint64]struct{}{}, last: map[string][]byte{}, replay: replay}
	if replay {
		e.Keep = map[string][]byte{}
	}
	e.out = memfd("stdout")
	if err := syscall.Dup2(e.out, 1); err != nil {
		panic(err)
	}
	return e
}

// Files is an Env only for writing input files.
func Files(dir string) *Env { return &Env{Dir: dir, last: map[string][]byte{}} }

// File writes an input file and returns its path.
func (e *Env) File(name string, b []byte) string {
	p := filepath.Join(e.Dir, name)
	if e.Keep != nil {
		e.Keep[name] = b
	}
	if l, ok := e.last[name]; ok && len(l) == len(b) && string(l) == string(b) {
		return p
	}
	if l, ok := e.last[name]; ok && len(l) == len(b) { // rewrite only what differs
		f, err := os.OpenFile(p, os.O_WRONLY, 0)
		if err != nil {
			panic(HarnessError{err})
		}
		defer f.Close()
		const chunk = 4096
		for i := 0; i < len(b); i += chunk {
			j := i + chunk
			if j > len(b) {
				j = len(b)
			}
			if string(l[i:j]) != string(b[i:j]) {
				if _, err := f.WriteAt(b[i:j], int64(i)); err != nil {
					panic(HarnessError{err})
				}
				copy(l[i:j], b[i:j])
			}
		}
		return p
	}
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(HarnessError{err})
	}
	e.last[name] = append([]byte{}, b...)
	return p
}

// Sparse writes an input file of the given pieces, by page, with nothing but zeros between them.
func (e *Env) Sparse(name string, pageSize int, pages map[uint32][]byte) string {
	p := filepath.Join(e.Dir, name)
	f, err := os.Create(p)
	if err != nil {
		panic(HarnessError{err})
	}
	defer f.Close()
	for no, b := range pages {
		if _, err := f.WriteAt(b, int64(no)*int64(pageSize)); err != nil {
			panic(HarnessError{err})
		}
	}
	return p
}

// HarnessError marks a failure of the machinery, not of the code under test.
type HarnessError struct{ Err error }

// Out is what one run of the implementation did.
type Out struct {
	Text  string
	Err   error
	Panic string
}

// Capture runs f with standard output captured and panics caught.
func (e *Env) Capture(f func() error) (o Out) {
	e.Execs++
	syscall.Ftruncate(e.out, 0)
	syscall.Seek(e.out, 0, 0)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if h, ok := r.(HarnessError); ok {
					panic(h)
				}
				o.Panic = fmt.Sprintf("%v", r)
				if e.replay {
					o.Panic += "\n" + trimStack(string(debug.Stack()))
				}
			}
		}()
		o.Err = f()
	}()
	var st syscall.Stat_t
	syscall.Fstat(e.out, &st)
	if st.Size > 0 {
		b := make([]byte, st.Size)
		n, _ := syscall.Pread(e.out, b, 0)
		o.Text = string(b[:n])
	}
	if e.replay {
		e.Trace = append(e.Trace, fmt.Sprintf("stdout %d bytes:\n%s\nerr=%v panic=%s", len(o.Text), clip(o.Text, 4000), o.Err, o.Panic))
	}
	return o
}

// Full makes a file of n bytes that cannot grow: a write beyond them fails.
func Full(n int) (fd int, written func() int, stop func()) {
	name := []byte("full\x00")
	r, _, no := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 2, 0) // memfd_create, MFD_ALLOW_SEALING
	if no != 0 {
		panic(HarnessError{fmt.Errorf("memfd_create: %v", no)})
	}
	fd = int(r)
	if err := syscall.Ftruncate(fd, int64(n)); err != nil {
		panic(HarnessError{err})
	}
	if _, _, no := syscall.Syscall(syscall.SYS_FCNTL, r, 1033, 6); no != 0 { // F_ADD_SEALS: F_SEAL_GROW, F_SEAL_SHRINK
		panic(HarnessError{fmt.Errorf("F_ADD_SEALS: %v", no)})
	}
	return fd, func() int {
		n, _ := syscall.Seek(fd, 0, 1)
		return int(n)
	}, func() { syscall.Close(fd) }
}

// CaptureFull is Capture with an output that has room for n bytes.
func (e *Env) CaptureFull(n int, f func() error) (o Out) {
	fd, written, stop := Full(n)
	defer stop()
	if err := syscall.Dup2(fd, 1); err != nil {
		panic(HarnessError{err})
	}
	defer syscall.Dup2(e.out, 1)
	o = e.Capture(f)
	b := make([]byte, written())
	syscall.Pread(fd, b, 0)
	o.Text = string(b)
	if e.replay {
		e.Trace = append(e.Trace, fmt.Sprintf("room for %d bytes, written %d:\n%s", n, len(b), clip(o.Text, 4000)))
	}
	return o
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/recovery/") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 12 {
		keep = keep[:12]
	}
	return strings.Join(keep, "\n")
}

// Outcome records an observed outcome (for the count of distinct outcomes).
func (e *Env) Outcome(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	v := h.Sum64()
	if len(e.outcomes) < 1<<20 {
		e.outcomes[v] = struct{}{}
	}
}
