package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// A small system call tracer for the harness's own children. It sees the calls of all threads in one sequence, so
// that the k-th call touching a directory can be made to fail, be cut short, or be the moment the process is killed.

type sysCall struct {
	name, class, file string
	n                 int    // bytes of a write
	other             string // the other name of a rename or link
	flags             uint64 // of an open
}

func (c sysCall) String() string { return c.name + " " + c.file }

type fault struct {
	at    int // index in the sequence of calls touching the directory
	kill  bool
	errno syscall.Errno
	short int // bytes let through by a write before it fails
}

func (f fault) String() string {
	switch {
	case f.kill:
		return fmt.Sprintf("killed at call %d", f.at)
	case f.short > 0:
		return fmt.Sprintf("call %d cut after %d bytes then %v", f.at, f.short, f.errno)
	}
	return fmt.Sprintf("call %d fails with %v", f.at, f.errno)
}

const (
	atFdcwd    = -100
	pSysGood   = 0x1
	pClone     = 0x8
	pFork      = 0x2
	pVfork     = 0x4
	pExec      = 0x10
	pExitKill  = 0x100000
	wNoThread  = 0x20000000
	wAll       = 0x40000000
	enosysOrig = ^uint64(0)
)

func readCString(pid int, addr uintptr) string {
	var out []byte
	buf := make([]byte, 64)
	for len(out) < 4096 {
		n, err := syscall.PtracePeekData(pid, addr, buf)
		if n == 0 || err != nil && n == 0 {
			break
		}
		for i := 0; i < n; i++ {
			if buf[i] == 0 {
				return string(append(out, buf[:i]...))
			}
		}
		out = append(out, buf[:n]...)
		addr += uintptr(n)
	}
	return string(out)
}

// runTraced runs the program; dir is the directory watched, f the fault to inject or nil.
// It returns the calls that touch dir in order, and whether the fault was delivered.
func (t *T) runTraced(env []string, cwd, path string, args []string, dir string, f *fault) (r Res, calls []sysCall, delivered bool) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	so, err1 := os.Create(t.Path(".stdout"))
	se, err2 := os.Create(t.Path(".stderr"))
	null, err3 := os.Open("/dev/null")
	if err1 != nil || err2 != nil || err3 != nil {
		t.Inconclusive("%v %v %v", err1, err2, err3)
	}
	defer so.Close()
	defer se.Close()
	defer null.Close()
	p, err := os.StartProcess(path, append([]string{path}, args...), &os.ProcAttr{
		Dir: cwd, Env: env, Files: []*os.File{null, so, se}, Sys: &syscall.SysProcAttr{Ptrace: true, Setpgid: true}})
	if err != nil {
		t.Inconclusive("cannot start %s traced: %v", path, err)
	}
	pid := p.Pid
	defer p.Release()
	done := make(chan bool)
	defer close(done)
	hung := make(chan bool, 1)
	go func() {
		select {
		case <-done:
		case <-time.After(timeout):
			hung <- true
			syscall.Kill(pid, syscall.SIGKILL)
		}
	}()
	t.execs.Add(1)
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, wAll, nil); err != nil || !ws.Stopped() {
		t.Inconclusive("ptrace: no initial stop: %v %v", err, ws)
	}
	if err := syscall.PtraceSetOptions(pid, pSysGood|pClone|pFork|pVfork|pExec|pExitKill); err != nil {
		syscall.Kill(pid, syscall.SIGKILL)
		t.Inconclusive("ptrace options: %v", err)
	}
	syscall.PtraceSyscall(pid, 0)
	inCall := map[int]bool{}
	known := map[int]bool{pid: true}
	failWith := map[int]syscall.Errno{}
	writable := map[string]bool{}
	armed := "" // file whose next write fails, after a short one
	code, sig := -1, syscall.Signal(0)
	for {
		tid, err := syscall.Wait4(-pid, &ws, wAll|wNoThread, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			break
		}
		if ws.Exited() || ws.Signaled() {
			if tid == pid {
				if ws.Exited() {
					code = ws.ExitStatus()
				} else {
					sig = ws.Signal()
				}
				break
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		s := ws.StopSignal()
		switch {
		case s == syscall.SIGTRAP|0x80:
			s = 0
			inCall[tid] = !inCall[tid]
			if !inCall[tid] {
				if e, ok := failWith[tid]; ok {
					delete(failWith, tid)
					var regs syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &regs) == nil {
						regs.Rax = uint64(-int64(e))
						syscall.PtraceSetRegs(tid, &regs)
					}
				}
				break
			}
			var regs syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &regs) != nil {
				break
			}
			c, ok := decode(tid, pid, &regs, dir, writable)
			if !ok && t.watchAll {
				c, ok = decodeOther(tid, pid, &regs)
			}
			if !ok && t.ioTrace {
				c, ok = decodeRead(tid, pid, &regs, dir)
			}
			if !ok {
				break
			}
			k := len(calls)
			calls = append(calls, c)
			fail := func(e syscall.Errno) {
				failWith[tid] = e
				regs.Orig_rax = enosysOrig
				syscall.PtraceSetRegs(tid, &regs)
			}
			if armed != "" && c.class == "write" && c.file == armed && f != nil {
				armed = ""
				fail(f.errno)
			} else if f != nil && f.at == k {
				delivered = true
				switch {
				case f.kill:
					syscall.Kill(pid, syscall.SIGKILL)
				case f.short > 0:
					regs.Rdx = uint64(f.short)
					syscall.PtraceSetRegs(tid, &regs)
					armed = c.file
				default:
					fail(f.errno)
				}
			}
		case s == syscall.SIGTRAP:
			s = 0 // an event
		case s == syscall.SIGSTOP && !known[tid]:
			s = 0
		}
		known[tid] = true
		syscall.PtraceSyscall(tid, int(s))
	}
	r = Res{Cmd: filepath.Base(path) + " " + strings.Join(quoteAll(args), " "), Out: t.Read(t.Path(".stdout")), Err: t.Read(t.Path(".stderr")), Code: code}
	select {
	case <-hung:
		t.Fail("hang", "no answer within %v\n%s", timeout, r)
	default:
	}
	what := ""
	if f != nil {
		what = " with " + f.String()
	}
	fmt.Fprintf(&t.log, "traced%s, signal %v: %s\n", what, sig, r)
	return
}

var fdCalls = map[uint64]string{1: "write", 18: "pwrite64", 20: "writev", 3: "close", 74: "fsync", 75: "fdatasync", 91: "fchmod", 93: "fchown", 77: "ftruncate"}
var callClass = map[string]string{"open": "open", "creat": "open", "openat": "open", "write": "write", "pwrite64": "write", "writev": "write", "ftruncate": "write", "truncate": "write",
	"fsync": "sync", "fdatasync": "sync", "close": "close", "rename": "rename", "renameat": "rename", "renameat2": "rename", "link": "rename", "linkat": "rename",
	"unlink": "unlink", "unlinkat": "unlink", "copy_file_range": "write", "sendfile": "write", "fchmod": "chmod", "fchmodat": "chmod", "chmod": "chmod", "symlink": "rename", "fchown": "chmod"}

// decode tells what the call does if it changes something in dir.
func decode(tid, pid int, r *syscall.PtraceRegs, dir string, writable map[string]bool) (c sysCall, ok bool) {
	fd := func(n uint64) string {
		s, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(n)))
		return s
	}
	at := func(dfd, p uint64) string {
		s := readCString(tid, uintptr(p))
		if !strings.HasPrefix(s, "/") {
			base := ""
			if int32(dfd) == atFdcwd {
				base, _ = os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
			} else {
				base = fd(dfd)
			}
			s = filepath.Join(base, s)
		}
		return s
	}
	var path, path2 string
	cwd := int32(atFdcwd)
	const wr = syscall.O_WRONLY | syscall.O_RDWR | syscall.O_CREAT | syscall.O_TRUNC
	switch n := r.Orig_rax; n {
	case 1, 18, 20, 3, 74, 75, 91, 93, 77:
		c.name = fdCalls[n]
		path = fd(r.Rdi)
		if n == 1 || n == 18 {
			c.n = int(r.Rdx)
		}
	case 257, 2:
		c.name = "openat"
		flags := r.Rdx
		if n == 2 {
			c.name, flags = "open", r.Rsi
			path = at(uint64(cwd), r.Rdi)
		} else {
			path = at(r.Rdi, r.Rsi)
		}
		if flags&wr == 0 {
			return
		}
		c.flags = flags
	case 85:
		c.name = "creat"
		path = at(uint64(cwd), r.Rdi)
	case 76:
		c.name = "truncate"
		path = at(uint64(cwd), r.Rdi)
	case 82, 86, 88:
		c.name = map[uint64]string{82: "rename", 86: "link", 88: "symlink"}[n]
		path, path2 = at(uint64(cwd), r.Rdi), at(uint64(cwd), r.Rsi)
	case 264, 316, 265:
		c.name = map[uint64]string{264: "renameat", 316: "renameat2", 265: "linkat"}[n]
		path, path2 = at(r.Rdi, r.Rsi), at(r.Rdx, r.R10)
	case 87:
		c.name = "unlink"
		path = at(uint64(cwd), r.Rdi)
	case 263:
		c.name = "unlinkat"
		path = at(r.Rdi, r.Rsi)
	case 90:
		c.name = "chmod"
		path = at(uint64(cwd), r.Rdi)
	case 268:
		c.name = "fchmodat"
		path = at(r.Rdi, r.Rsi)
	case 326:
		c.name = "copy_file_range"
		path = fd(r.Rdx)
	case 40:
		c.name = "sendfile"
		path = fd(r.Rdi)
	default:
		return
	}
	if !strings.HasPrefix(path, dir+"/") && !strings.HasPrefix(path2, dir+"/") {
		return
	}
	c.file, c.other = strings.TrimPrefix(path, dir+"/"), path2
	c.class = callClass[c.name]
	switch c.class {
	case "open":
		writable[path] = true
	case "close":
		if !writable[path] {
			return c, false
		}
	}
	return c, true
}

// decodeRead tells what the call does if it looks at something in dir.
func decodeRead(tid, pid int, r *syscall.PtraceRegs, dir string) (c sysCall, ok bool) {
	fd := func(n uint64) string {
		s, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(n)))
		return s
	}
	path := ""
	switch n := r.Orig_rax; n {
	case 0, 17, 217:
		c.name = map[uint64]string{0: "read", 17: "pread64", 217: "getdents64"}[n]
		c.class = pick1(n == 217, "readdir", "read")
		path = fd(r.Rdi)
	case 257, 262:
		path = readCString(tid, uintptr(r.Rsi))
		if !strings.HasPrefix(path, "/") {
			base := ""
			if int32(r.Rdi) == atFdcwd {
				base, _ = os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
			} else {
				base = fd(r.Rdi)
			}
			path = filepath.Join(base, path)
		}
		c.name, c.class = "newfstatat", "stat"
		if n == 257 {
			c.name, c.class = "openat", "openread"
		}
	default:
		return
	}
	if path != dir && !strings.HasPrefix(path, dir+"/") {
		return
	}
	c.file = strings.TrimPrefix(strings.TrimPrefix(path, dir), "/")
	return c, true
}
