package eng

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"
)

// CmdOut is what a run of the command line tool did.
type CmdOut struct {
	Stdout, Stderr string
	Exit           int // -1: killed by a signal or by the deadline
	Hang           bool
	Logs           string // what is in the log files
}

// Tool is the built command line tool.
func Tool() string { return filepath.Join(Root(), ".build", "db-recovery") }

// Cmd runs the command line tool. Its log files go to the scratch directory.
func (e *Env) Cmd(path string, args ...string) CmdOut { return e.cmd(nil, path, args...) }

// CmdAs runs the tool as another user, in the given working directory; as this user where that is not allowed.
func (e *Env) CmdAs(uid uint32, dir string, args ...string) CmdOut {
	tool := filepath.Join(e.Dir, "tool")
	if _, err := os.Stat(tool); err != nil {
		b, err := os.ReadFile(Tool())
		if err == nil {
			err = os.WriteFile(tool, b, 0755)
		}
		if err != nil {
			panic(HarnessError{err})
		}
		// the way to the scratch directory
		for _, d := range []string{e.Dir, filepath.Dir(e.Dir)} {
			if st, err := os.Stat(d); err == nil && st.Mode().Perm()&0011 != 0011 {
				os.Chmod(d, 0711)
			}
		}
		os.MkdirAll(filepath.Join(e.Dir, "log"), 0755)
		os.Chmod(filepath.Join(e.Dir, "log"), 0777)
	}
	e.dir, e.uid = dir, uid
	defer func() { e.dir, e.uid = "", 0 }()
	return e.cmd(nil, tool, args...)
}

// CmdTo is Cmd with the given standard output.
func (e *Env) CmdTo(out *os.File, path string, args ...string) CmdOut {
	return e.cmd(out, path, args...)
}

func (e *Env) cmd(out *os.File, path string, args ...string) CmdOut {
	e.Execs++
	logdir := filepath.Join(e.Dir, "log")
	os.MkdirAll(logdir, 0755)
	c := exec.Command(path, args...)
	c.Dir = e.Dir
	if e.dir != "" {
		c.Dir = e.dir
	}
	if e.uid != 0 {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: e.uid, Gid: e.uid}}
	}
	c.Env = []string{"TZ=UTC", "PATH=/usr/bin:/bin", "HOME=" + e.Dir, "TMPDIR=" + logdir, "VMC_ROOT=" + Root()}
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if out != nil {
		c.Stdout = out
	}
	err := c.Start()
	if (errors.Is(err, syscall.EPERM) || errors.Is(err, syscall.EACCES)) && e.uid != 0 { // becoming another user is not allowed, or it may not come here
		e.uid = 0
		return e.cmd(out, path, args...)
	}
	if err != nil {
		panic(HarnessError{err})
	}
	hang := false
	t := time.AfterFunc(30*time.Second, func() { hang = true; c.Process.Kill() })
	err = c.Wait()
	t.Stop()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(HarnessError{err})
	}
	o := CmdOut{Stdout: so.String(), Stderr: se.String(), Exit: c.ProcessState.ExitCode(), Hang: hang}
	if e.replay {
		e.Trace = append(e.Trace, fmt.Sprintf("%s %q\nexit %d\nstdout: %s\nstderr: %s", path, args, o.Exit, clip(o.Stdout, 3000), clip(o.Stderr, 3000)))
	}
	// the log files are not wanted
	if ents, _ := os.ReadDir(logdir); len(ents) > 0 {
		for _, x := range ents {
			if out != nil {
				b, _ := os.ReadFile(filepath.Join(logdir, x.Name()))
				o.Logs += string(b)
			}
			os.Remove(filepath.Join(logdir, x.Name()))
		}
	}
	return o
}
