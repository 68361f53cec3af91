// Package simio has the pipe of package io; blocking is decided by the
// simulator.
package simio

import (
	"io"

	"github.com/go-latex/latex/vsim"
	"github.com/go-latex/latex/vsim/simsync"
)

type pipe struct {
	wr         simsync.Mutex // one Write at a time
	data       chan []byte
	taken      chan int
	mu         simsync.Mutex
	done       chan struct{}
	closed     bool
	rerr, werr error
}

func (p *pipe) read(b []byte) (int, error) {
	if p.isDone() {
		return 0, p.readErr()
	}
	d, in := vsim.CaseRecv((<-chan struct{})(p.done)), vsim.CaseRecv((<-chan []byte)(p.data))
	if vsim.Select(false, d, in) == 0 {
		return 0, p.readErr()
	}
	n := copy(b, in.V)
	vsim.Send((chan<- int)(p.taken))(n)
	return n, nil
}

func (p *pipe) write(b []byte) (n int, err error) {
	if p.isDone() {
		return 0, p.writeErr()
	}
	p.wr.Lock()
	defer p.wr.Unlock()
	for once := true; once || len(b) > 0; once = false {
		d, out := vsim.CaseRecv((<-chan struct{})(p.done)), vsim.CaseSend((chan<- []byte)(p.data))(b)
		if vsim.Select(false, d, out) == 0 {
			return n, p.writeErr()
		}
		k := vsim.Recv((<-chan int)(p.taken))
		b = b[k:]
		n += k
	}
	return n, nil
}

func (p *pipe) isDone() bool {
	return vsim.Select(true, vsim.CaseRecv((<-chan struct{})(p.done))) == 0
}

func (p *pipe) close(rerr, werr error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if rerr != nil && p.rerr == nil {
		p.rerr = rerr
	}
	if werr != nil && p.werr == nil {
		p.werr = werr
	}
	if !p.closed {
		p.closed = true
		vsim.Close((chan<- struct{})(p.done))
	}
}

func (p *pipe) readErr() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rerr == nil && p.werr != nil {
		return p.werr
	}
	return io.ErrClosedPipe
}

func (p *pipe) writeErr() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr == nil && p.rerr != nil {
		return p.rerr
	}
	return io.ErrClosedPipe
}

// PipeReader is io.PipeReader.
type PipeReader struct{ p *pipe }

// PipeWriter is io.PipeWriter.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{data: make(chan []byte), taken: make(chan int), done: make(chan struct{})}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) { return r.p.read(b) }

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.close(err, nil)
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) { return w.p.write(b) }

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.close(nil, err)
	return nil
}
