package mos

import (
	"os"
	"syscall"

	"golang.org/x/sys/unix"

	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// Proc is a modelled process.
type Proc struct {
	Pid   int
	Path  string
	Argv  []string
	Env   []string
	Dir   string
	Files []*os.File
	Group int
	Fg    bool
	// Done tells whether the process has ended, Halted whether it is stopped.
	Done   bool
	Halted bool
	has    bool
	status uint32
	queued []int
}

// KillEvent records a signal sent with kill.
type KillEvent struct {
	Pid int
	Sig syscall.Signal
}

var (
	// Procs are the processes started so far.
	Procs []*Proc
	// Kills are the signals sent so far.
	Kills []KillEvent
	// Program is run, in its own goroutine, for every process started; nil
	// leaves the process running until Exit or Signal is called on it.
	Program func(p *Proc) int
	// Terminal tells whether the shell runs in a terminal.
	Terminal bool
	// FgGroup is the terminal's foreground process group.
	FgGroup int
	// NotFound makes every exec succeed only for existing files when false.
	notify  []chan<- os.Signal
	nextPid int
)

func resetProc() {
	Procs, Kills, notify = nil, nil, nil
	nextPid = 100
	FgGroup = 1
}

//sx:replace os.StartProcess
func osStartProcess(name string, argv []string, attr *os.ProcAttr) (*os.Process, error) {
	n, _, _, err := walk(name, true)
	if err != nil {
		return nil, perr("fork/exec", name, err)
	}
	if n.kind != kindFile || n.perm&0o111 == 0 {
		return nil, perr("fork/exec", name, syscall.EACCES)
	}
	for _, a := range argv {
		for i := 0; i < len(a); i++ {
			if a[i] == 0 {
				return nil, perr("fork/exec", name, syscall.EINVAL)
			}
		}
	}
	nextPid++
	p := &Proc{Pid: nextPid, Path: name, Argv: append([]string(nil), argv...), Dir: attr.Dir}
	p.Env = append([]string(nil), attr.Env...)
	if attr.Dir != "" {
		d, _, _, err := walk(attr.Dir, true)
		if err != nil || d.kind != kindDir {
			return nil, perr("chdir", attr.Dir, syscall.ENOENT)
		}
	}
	if attr.Sys != nil {
		p.Group = attr.Sys.Pgid
		if p.Group == 0 {
			p.Group = p.Pid
		}
		p.Fg = attr.Sys.Foreground
		if p.Fg {
			FgGroup = p.Group
		}
	}
	for _, f := range attr.Files {
		if f == nil {
			p.Files = append(p.Files, nil)
			continue
		}
		m := files[f]
		if m.closed {
			return nil, perr("fork/exec", name, syscall.EBADF)
		}
		g := attach(m.node, m.name, m.flags)
		files[g].off = m.off
		p.Files = append(p.Files, g)
	}
	Procs = append(Procs, p)
	if Program != nil {
		go func() {
			code := Program(p)
			p.Exit(code)
		}()
	}
	return &os.Process{Pid: p.Pid}, nil
}

// In reads one chunk of the process's standard input ("" at end of file).
func (p *Proc) In() string {
	b := make([]byte, 256)
	n, err := fileRead(p.Files[0], b)
	if err != nil {
		return ""
	}
	return string(b[:n])
}

// Out writes to the process's standard output.
func (p *Proc) Out(s string) bool {
	_, err := fileWriteString(p.Files[1], s)
	return err == nil
}

// report makes a new status available to wait. Only the latest counts.
func (p *Proc) report(ws uint32) {
	p.has, p.status = true, ws
	Raise(unix.SIGCHLD)
}

// End ends the process with a wait status.
func (p *Proc) End(ws uint32) {
	if p.Done {
		return
	}
	p.Done, p.Halted = true, false
	for _, f := range p.Files {
		if f != nil {
			fileClose(f)
		}
	}
	p.report(ws)
}

// Exit ends the process with an exit code.
func (p *Proc) Exit(code int) { p.End(uint32(code&255) << 8) }

// Signal ends the process with a signal.
func (p *Proc) Signal(sig int, core bool) {
	ws := uint32(sig & 127)
	if core {
		ws |= 128
	}
	p.End(ws)
}

// Stop stops the process with a signal.
func (p *Proc) Stop(sig int) {
	if p.Done || p.Halted {
		return
	}
	p.Halted = true
	p.report(uint32(sig)<<8 | 0x7f)
}

// Cont continues the process.
func (p *Proc) Cont() {
	if p.Done || !p.Halted {
		return
	}
	p.Halted = false
	if len(p.queued) > 0 {
		p.Signal(p.queued[0], false)
		return
	}
	p.report(0xffff)
}

// Kill delivers a signal to the process.
func (p *Proc) Kill(sig int) {
	switch {
	case sig == int(unix.SIGCONT):
		p.Cont()
	case sig == int(unix.SIGSTOP):
		p.Stop(sig)
	case p.Halted && sig != int(unix.SIGKILL):
		p.queued = append(p.queued, sig)
	default:
		p.Signal(sig, false)
	}
}

// Raise delivers a signal to this process.
func Raise(sig os.Signal) {
	for _, c := range notify {
		select {
		case c <- sig:
		default:
		}
	}
}

//sx:replace os/signal.Notify
func signalNotify(c chan<- os.Signal, sig ...os.Signal) { notify = append(notify, c) }

//sx:replace os/signal.Ignore
func signalIgnore(sig ...os.Signal) {}

//sx:replace os/signal.Stop
func signalStop(c chan<- os.Signal) {}

//sx:replace golang.org/x/sys/unix.Wait4
func unixWait4(pid int, ws *unix.WaitStatus, options int, ru *unix.Rusage) (int, error) {
	sx.Point()
	for _, p := range Procs {
		if p.has {
			p.has = false
			*ws = unix.WaitStatus(p.status)
			return p.Pid, nil
		}
	}
	return 0, nil
}

//sx:replace golang.org/x/sys/unix.Kill
func unixKill(pid int, sig syscall.Signal) error {
	Kills = append(Kills, KillEvent{pid, sig})
	for _, p := range Procs {
		if pid > 0 && p.Pid == pid || pid < -1 && p.Group == -pid {
			p.Kill(int(sig))
		}
	}
	return nil
}

//sx:replace os.Getpid
func osGetpid() int { return unixGetpid() }

//sx:replace golang.org/x/sys/unix.Getpid
func unixGetpid() int { return 1 }

//sx:replace golang.org/x/sys/unix.Getpgid
func unixGetpgid(pid int) (int, error) { return 1, nil }

//sx:replace golang.org/x/sys/unix.Setpgid
func unixSetpgid(pid, pgid int) error { return nil }

//sx:replace golang.org/x/sys/unix.IoctlGetInt
func unixIoctlGetInt(fd int, req uint) (int, error) { return FgGroup, nil }

//sx:replace golang.org/x/sys/unix.IoctlSetPointerInt
func unixIoctlSetPointerInt(fd int, req uint, v int) error {
	FgGroup = v
	return nil
}

//sx:replace golang.org/x/sys/unix.Umask
func unixUmask(m int) int {
	o := umask
	umask = m & 0o777
	return o
}

//sx:replace github.com/mattn/go-isatty.IsTerminal
func isTerminal(fd uintptr) bool { return Terminal }

//sx:replace (*os.Process).Release
func processRelease(p *os.Process) error { return nil }
