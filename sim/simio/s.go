//go:build go1.21

// Package simio is package io, with pipes between simulated tasks.
package simio

import (
	real "io"

	"github.com/bytesparadise/libasciidoc/verifsim/sim"
	"github.com/bytesparadise/libasciidoc/verifsim/simsync"
)

type pipe struct {
	wrMu simsync.Mutex
	wrCh chan []byte
	rdCh chan int
	mu   simsync.Mutex
	shut bool
	done chan struct{}
	rerr error
	werr error
}

func (p *pipe) isDone() bool {
	return sim.Select(true, []sim.SelCase{sim.RecvCase(p.done)}).I == 0
}

func (p *pipe) shutdown() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.shut {
		p.shut = true
		sim.Close(p.done)
	}
}

func (p *pipe) errs() (error, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.rerr, p.werr
}

func (p *pipe) read(b []byte) (int, error) {
	if p.isDone() {
		return 0, p.readCloseError()
	}
	s := sim.Select(false, []sim.SelCase{sim.RecvCase(p.wrCh), sim.RecvCase(p.done)})
	if s.I == 0 {
		n := copy(b, sim.SelRecv(s, p.wrCh))
		sim.ChanS(p.rdCh).Send(n)
		return n, nil
	}
	return 0, p.readCloseError()
}

func (p *pipe) write(b []byte) (n int, err error) {
	if p.isDone() {
		return 0, p.writeCloseError()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		s := sim.Select(false, []sim.SelCase{sim.ChanS(p.wrCh).Case(b), sim.RecvCase(p.done)})
		if s.I != 0 {
			return n, p.writeCloseError()
		}
		nw := sim.Recv(p.rdCh)
		b = b[nw:]
		n += nw
	}
	return n, nil
}

func (p *pipe) readCloseError() error {
	r, w := p.errs()
	if r == nil && w != nil {
		return w
	}
	return real.ErrClosedPipe
}

func (p *pipe) writeCloseError() error {
	r, w := p.errs()
	if w == nil && r != nil {
		return r
	}
	return real.ErrClosedPipe
}

// PipeReader is the read half of a pipe
type PipeReader struct{ p *pipe }

// Read reads
func (r *PipeReader) Read(b []byte) (int, error) { return r.p.read(b) }

// Close closes
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

// CloseWithError closes
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = real.ErrClosedPipe
	}
	r.p.mu.Lock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.mu.Unlock()
	r.p.shutdown()
	return nil
}

// PipeWriter is the write half of a pipe
type PipeWriter struct{ p *pipe }

// Write writes
func (w *PipeWriter) Write(b []byte) (int, error) { return w.p.write(b) }

// Close closes
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

// CloseWithError closes
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = real.EOF
	}
	w.p.mu.Lock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.mu.Unlock()
	w.p.shutdown()
	return nil
}

// Pipe is a synchronous pipe
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{wrCh: make(chan []byte), rdCh: make(chan int), done: make(chan struct{})}
	return &PipeReader{p}, &PipeWriter{p}
}
