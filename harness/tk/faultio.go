package tk

import (
	"errors"
	"io"

	"verif/harness/mon"
)

// Chunked is a reader that hands out its bytes in small random pieces.
type Chunked struct {
	B   []byte
	R   *mon.Rng
	Max int
	// Taken is how many bytes the consumer took.
	Taken int
}

func (p *Chunked) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.Taken >= len(p.B) {
		return 0, io.EOF
	}
	n := len(b)
	if p.Max > 0 {
		if m := p.R.Range(1, p.Max); m < n {
			n = m
		}
	}
	n = copy(b[:n], p.B[p.Taken:])
	p.Taken += n
	// a reader may report the end together with the last bytes
	if p.Taken == len(p.B) && p.R != nil && p.R.P(0.3) {
		return n, io.EOF
	}
	return n, nil
}

var ErrFault = errors.New("injected fault")

// FaultyReader fails after Left bytes with an error of its own.
type FaultyReader struct {
	B    []byte
	Left int
	pos  int
}

func (p *FaultyReader) Read(b []byte) (int, error) {
	if p.Left == 0 {
		return 0, ErrFault
	}
	n := len(b)
	if n > p.Left {
		n = p.Left
	}
	n = copy(b[:n], p.B[p.pos:])
	p.pos += n
	p.Left -= n
	return n, nil
}

// FaultyWriter accepts Left bytes and then fails.
type FaultyWriter struct {
	Left int
	Got  []byte
	Hits int
}

func (p *FaultyWriter) Write(b []byte) (int, error) {
	n := len(b)
	if n > p.Left {
		n = p.Left
		p.Got = append(p.Got, b[:n]...)
		p.Left = 0
		p.Hits++
		return n, ErrFault
	}
	p.Got = append(p.Got, b...)
	p.Left -= n
	return n, nil
}
