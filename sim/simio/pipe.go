// Package simio stands in for the parts of package io that wait.
package simio

import (
	"io"

	"verif.local/sim/simsync"
)

type pipe struct {
	wr   simsync.Mutex // one Write at a time
	mu   simsync.Mutex
	cond *simsync.Cond
	data []byte
	busy bool
	rerr error
	werr error
}

// PipeReader is io.PipeReader under the simulator.
type PipeReader struct{ p *pipe }

// PipeWriter is io.PipeWriter under the simulator.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe under the simulator.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = simsync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case p.busy:
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.busy = false
			}
			p.cond.Broadcast()
			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if err == nil {
		err = io.ErrClosedPipe
	}
	if p.rerr == nil {
		p.rerr = err
	}
	p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.data, p.busy = b, true
	p.cond.Broadcast()
	for p.busy && p.rerr == nil && p.werr == nil {
		p.cond.Wait()
	}
	n := len(b) - len(p.data)
	if p.busy {
		p.busy = false
		if p.werr != nil {
			return n, io.ErrClosedPipe
		}
		return n, p.rerr
	}
	return n, nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if err == nil {
		err = io.EOF
	}
	if p.werr == nil {
		p.werr = err
	}
	p.cond.Broadcast()
	return nil
}
