package eng

import (
	"os"
	"path/filepath"
	"syscall"
	"time"
	"unsafe"
)

// Pipe makes a named pipe that hands out b in the given pieces: a reader gets no byte of the next
// piece before it has taken all of this one, so a read that spans pieces comes back short.
// stop ends the writer (also when nobody read) and must be called.
func (e *Env) Pipe(name string, b []byte, sizes []int) (path string, stop func()) {
	p := filepath.Join(e.Dir, name)
	os.Remove(p)
	if err := syscall.Mkfifo(p, 0600); err != nil {
		panic(HarnessError{err})
	}
	// open for both, so that the open does not wait for the reader
	fd, err := syscall.Open(p, syscall.O_RDWR|syscall.O_NONBLOCK, 0)
	if err != nil {
		panic(HarnessError{err})
	}
	done := make(chan struct{})
	ended := make(chan struct{})
	go func() {
		defer close(ended)
		defer syscall.Close(fd)
		left := func() int {
			var n int32
			syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0x541B, uintptr(unsafe.Pointer(&n)))
			return int(n)
		}
		wait := func() bool {
			for i := 0; left() > 0; i++ {
				select {
				case <-done:
					return false
				default:
				}
				if i > 200 {
					time.Sleep(20 * time.Microsecond)
				}
			}
			return true
		}
		k := 0
		for len(b) > 0 {
			n := len(b)
			if k < len(sizes) && sizes[k] < n {
				n = sizes[k]
			}
			k++
			piece := b[:n]
			b = b[n:]
			for len(piece) > 0 {
				w, err := syscall.Write(fd, piece)
				if w > 0 {
					piece = piece[w:]
				}
				if err == syscall.EAGAIN {
					select {
					case <-done:
						return
					default:
						time.Sleep(20 * time.Microsecond)
					}
				} else if err != nil {
					return
				}
			}
			if !wait() {
				return
			}
		}
	}()
	return p, func() { close(done); <-ended; os.Remove(p) }
}
