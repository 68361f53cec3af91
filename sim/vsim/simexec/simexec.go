// Package simexec stands in for os/exec: commands are answered by the
// simulation, on the simulated disk.
package simexec

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"github.com/go-latex/latex/vsim"
	"github.com/go-latex/latex/vsim/simos"
)

var (
	ErrNotFound  = exec.ErrNotFound
	ErrDot       = exec.ErrDot
	ErrWaitDelay = exec.ErrWaitDelay
)

type Error = exec.Error

// Proc is what a command does.
type Proc struct {
	Out, Err []byte
	Files    map[string][]byte // files it leaves behind
	Exit     int
	Killed   bool
}

// Handler answers the commands; an error means that the command cannot be started.
var Handler func(c *Cmd, stdin []byte) (*Proc, error)

// Record is what became of a command.
type Record struct {
	Args []string // without the name
	OK   bool     // it ran and succeeded
}

// History has a record of every command there was an attempt to run.
var History []*Record

// Failed is a command that did not succeed, not even later, nil if there is none.
func Failed() *Record {
	ok := map[string]bool{}
	for _, r := range History {
		if r.OK {
			ok[strings.Join(r.Args, "\x00")] = true
		}
	}
	for _, r := range History {
		if !ok[strings.Join(r.Args, "\x00")] {
			return r
		}
	}
	return nil
}

// ProcessState is *os.ProcessState of a simulated command.
type ProcessState struct {
	code   int
	killed bool
}

func (p *ProcessState) ExitCode() int {
	if p == nil || p.killed {
		return -1
	}
	return p.code
}
func (p *ProcessState) Exited() bool              { return !p.killed }
func (p *ProcessState) Success() bool             { return !p.killed && p.code == 0 }
func (p *ProcessState) Pid() int                  { return 4711 }
func (p *ProcessState) SystemTime() time.Duration { return 0 }
func (p *ProcessState) UserTime() time.Duration   { return 0 }
func (p *ProcessState) Sys() any                  { return nil }
func (p *ProcessState) SysUsage() any             { return nil }
func (p *ProcessState) String() string {
	switch {
	case p == nil:
		return "<nil>"
	case p.killed:
		return "signal: killed"
	}
	return fmt.Sprintf("exit status %d", p.code)
}

// ExitError is *exec.ExitError.
type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Process stands in for *os.Process.
type Process struct {
	Pid int
	c   *Cmd
}

func (p *Process) Kill() error            { p.c.proc.Killed = true; return nil }
func (p *Process) Signal(os.Signal) error { return nil }
func (p *Process) Release() error         { return nil }

// Cmd is *exec.Cmd.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*simos.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *Process
	ProcessState *ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx    context.Context
	rec    *Record
	proc   *Proc
	inBuf  *stdinPipe
	pipes  []*outPipe
	waited bool
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

// LookPath finds every command: whether it starts is up to the simulation.
func LookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		return file, nil
	}
	return "/usr/bin/" + file, nil
}

func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return append([]string(nil), c.Env...) }

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Start() error {
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	ft, err := simos.Step("exec")
	if ft == nil && err != nil { // the simulated process is gone
		return err
	}
	c.rec = &Record{}
	if len(c.Args) > 0 {
		c.rec.Args = append(c.rec.Args, c.Args[1:]...)
	}
	History = append(History, c.rec)
	name := c.Path
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	if ft != nil {
		switch ft.Err {
		case "exit", "killed", "cut":
		case "ENOENT":
			return &exec.Error{Name: name, Err: exec.ErrNotFound}
		default:
			return &fs.PathError{Op: "fork/exec", Path: "/usr/bin/" + name, Err: err}
		}
	}
	var in []byte
	if c.Stdin != nil {
		in, err = io.ReadAll(c.Stdin)
		if err != nil {
			return err
		}
	}
	if c.inBuf == nil {
		if err := c.begin(ft, in); err != nil {
			return err
		}
	} else {
		c.inBuf.ft = ft
		c.proc = &Proc{}
	}
	c.Process = &Process{Pid: 4711, c: c}
	return nil
}

// begin runs the command.
func (c *Cmd) begin(ft *simos.Fault, in []byte) error {
	p, err := Handler(c, in)
	if err != nil {
		return err
	}
	p = &Proc{Out: p.Out, Err: p.Err, Files: p.Files, Exit: p.Exit, Killed: p.Killed}
	if ft != nil {
		if ft.Short >= 0 && ft.Short < len(p.Out) {
			p.Out = p.Out[:ft.Short]
		}
		switch ft.Err {
		case "exit":
			p.Exit, p.Files = 1, nil
			p.Err = append(append([]byte(nil), p.Err...), "simulated: failed\n"...)
		case "killed":
			p.Killed, p.Files = true, nil
		}
	}
	for name, data := range p.Files {
		if !strings.HasPrefix(name, "/") && c.Dir != "" {
			name = c.Dir + "/" + name
		}
		simos.Leave(name, data)
	}
	*c.procp() = *p
	c.rec.OK = p.Exit == 0 && !p.Killed
	for _, o := range c.pipes {
		o.data = c.proc.Out
		if o.err {
			o.data = c.proc.Err
		}
	}
	return nil
}

func (c *Cmd) procp() *Proc {
	if c.proc == nil {
		c.proc = &Proc{}
	}
	return c.proc
}

func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	if c.inBuf != nil {
		c.inBuf.Close()
		if c.inBuf.failed != nil {
			return c.inBuf.failed
		}
	}
	vsim.Point()
	var copyErr error
	put := func(w io.Writer, data []byte) {
		for len(data) > 0 && w != nil {
			n := min(len(data), 32<<10)
			k, err := w.Write(data[:n])
			if err == nil && k < n {
				err = io.ErrShortWrite
			}
			if err != nil {
				if copyErr == nil {
					copyErr = err
				}
				return
			}
			data = data[n:]
		}
	}
	put(c.Stdout, c.proc.Out)
	put(c.Stderr, c.proc.Err)
	if f, ok := c.Stdout.(*simos.File); ok && copyErr != nil && f != nil {
		// the command writes to the file itself, and fails.
		copyErr = nil
		c.proc.Exit = 1
	}
	for _, o := range c.pipes {
		o.closed = true
	}
	c.ProcessState = &ProcessState{code: c.proc.Exit, killed: c.proc.Killed}
	if !c.ProcessState.Success() {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return copyErr
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, msg bytes.Buffer
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &msg
	}
	err := c.Run()
	if e, ok := err.(*ExitError); ok && capture {
		e.Stderr = msg.Bytes()
	}
	return out.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	return out.Bytes(), err
}

type outPipe struct {
	c      *Cmd
	data   []byte
	err    bool
	closed bool
}

func (o *outPipe) Read(p []byte) (int, error) {
	vsim.Point()
	if o.c.inBuf != nil && o.c.Process != nil {
		o.c.inBuf.Close()
	}
	if o.closed {
		return 0, os.ErrClosed
	}
	if len(o.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, o.data[:min(len(o.data), 4096)])
	o.data = o.data[n:]
	return n, nil
}

func (o *outPipe) Close() error { o.closed = true; return nil }

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	o := &outPipe{c: c}
	c.pipes = append(c.pipes, o)
	return o, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	o := &outPipe{c: c, err: true}
	c.pipes = append(c.pipes, o)
	return o, nil
}

// stdinPipe collects what the command reads; it runs when that is complete.
type stdinPipe struct {
	c      *Cmd
	ft     *simos.Fault
	buf    bytes.Buffer
	closed bool
	failed error
}

func (s *stdinPipe) Write(p []byte) (int, error) {
	if s.closed {
		return 0, os.ErrClosed
	}
	return s.buf.Write(p)
}

func (s *stdinPipe) Close() error {
	if !s.closed {
		s.closed = true
		if s.c.Process != nil {
			s.failed = s.c.begin(s.ft, s.buf.Bytes())
		}
	}
	return nil
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	c.inBuf = &stdinPipe{c: c}
	return c.inBuf, nil
}
