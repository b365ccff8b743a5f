package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"syscall"

	"github.com/woven-planet/go-zserio/zstream"

	"vsim/simrt"
)

// errInjected is what simulated devices fail with.
var errInjected = errors.New("injected fault")

type devErr struct {
	what string
	base error
}

func (e *devErr) Error() string { return e.what }
func (e *devErr) Unwrap() error { return e.base }

var (
	errIO   = &devErr{"injected I/O error", errInjected}
	errFull = &devErr{"injected: no space left", errors.Join(errInjected, syscall.ENOSPC)}
	errPipe = &devErr{"injected: connection lost", errors.Join(errInjected, syscall.EPIPE)}
)

// Fault of a stream at a byte.
type Fault struct {
	Kind string // "" none, "error", "transient", "short", "full", "eof", "together"
	At   int
	Err  error
}

func (f Fault) String() string {
	if f.Kind == "" {
		return "no fault"
	}
	return fmt.Sprintf("%s at byte %d", f.Kind, f.At)
}

// Sink is a destination of bytes that can fail.
type Sink struct {
	Got   []byte
	F     Fault
	Fired int
	// First is how much the destination held when it first rejected a byte.
	First int
	Calls int
	// Before is how many bytes are accepted and forgotten first.
	Before int
}

func (s *Sink) Write(p []byte) (int, error) {
	s.Calls++
	if s.Before > 0 {
		if len(p) > s.Before {
			panic("bytes on both sides of the mark")
		}
		s.Before -= len(p)
		return len(p), nil
	}
	if s.F.Kind == "" || s.F.At >= len(s.Got)+len(p) {
		s.Got = append(s.Got, p...)
		return len(p), nil
	}
	n := 0
	if s.F.Kind == "short" || s.F.Kind == "full" {
		n = max(0, s.F.At-len(s.Got))
	} else if s.F.At > len(s.Got) && len(p) == 0 {
		return 0, nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	s.Got = append(s.Got, p[:n]...)
	if s.Fired == 0 {
		s.First = len(s.Got)
	}
	s.Fired++
	if s.F.Kind == "short" || s.F.Kind == "transient" {
		s.F.Kind = ""
	} else {
		s.F.At = 0
	}
	return n, s.F.Err
}

// WriteByte writes one byte.
func (s *Sink) WriteByte(b byte) error {
	_, err := s.Write([]byte{b})
	return err
}

// Source is an origin of bytes that can fail, end early and deliver in pieces.
type Source struct {
	Data     []byte
	Pos      int
	F        Fault
	Fired    int
	Chunks   []int // sizes of the deliveries, 0 for an empty one; cyclic
	k        int
	Together bool // the last bytes come with io.EOF
	zero     bool
	Before   int // zero bytes that come first
}

func (s *Source) end() int {
	if s.F.Kind != "" && s.F.At < len(s.Data) {
		return s.F.At
	}
	return len(s.Data)
}

func (s *Source) fail() error {
	if s.F.Kind == "" || s.F.Kind == "eof" || s.F.At > len(s.Data) {
		if s.F.Kind == "eof" {
			s.Fired++
		}
		return io.EOF
	}
	s.Fired++
	if s.F.Kind == "transient" {
		s.F.Kind = ""
	}
	return s.F.Err
}

func (s *Source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.Before > 0 {
		n := min(len(p), s.Before)
		clear(p[:n])
		s.Before -= n
		return n, nil
	}
	left := s.end() - s.Pos
	if left <= 0 {
		return 0, s.fail()
	}
	n := min(len(p), left)
	if len(s.Chunks) > 0 {
		c := s.Chunks[s.k%len(s.Chunks)]
		s.k++
		if c == 0 && !s.zero {
			s.zero = true
			return 0, nil
		}
		s.zero = false
		n = min(n, max(c, 1))
	}
	copy(p, s.Data[s.Pos:s.Pos+n])
	s.Pos += n
	if s.Pos == s.end() && (s.Together && s.F.Kind == "" || s.F.Kind == "together") {
		return n, s.fail()
	}
	return n, nil
}

// ReadByte reads one byte.
func (s *Source) ReadByte() (byte, error) {
	if s.Pos >= s.end() {
		return 0, s.fail()
	}
	s.Pos++
	return s.Data[s.Pos-1], nil
}

// Pipe is a bounded channel of bytes between two tasks.
type Pipe struct {
	buf    bytes.Buffer
	cap    int
	closed bool
	In     int
	Out    int
	chunk  int
}

func (p *Pipe) Write(b []byte) (int, error) {
	n := 0
	for len(b) > 0 {
		simrt.Y()
		room := p.cap - p.buf.Len()
		if room <= 0 {
			simrt.Wait()
			continue
		}
		k := min(room, len(b))
		p.buf.Write(b[:k])
		b = b[k:]
		n += k
		p.In += k
		simrt.Progress()
	}
	return n, nil
}

// WriteByte writes one byte.
func (p *Pipe) WriteByte(b byte) error {
	_, err := p.Write([]byte{b})
	return err
}

func (p *Pipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for p.buf.Len() == 0 {
		if p.closed {
			return 0, io.EOF
		}
		simrt.Wait()
	}
	simrt.Progress()
	if p.chunk > 0 && len(b) > p.chunk {
		b = b[:p.chunk]
	}
	n, _ := p.buf.Read(b)
	p.Out += n
	simrt.Y()
	return n, nil
}

// ReadByte reads one byte.
func (p *Pipe) ReadByte() (byte, error) {
	var b [1]byte
	_, err := p.Read(b[:])
	return b[0], err
}

// Close ends the stream.
func (p *Pipe) Close() { p.closed = true; simrt.Progress() }

type byteReader interface {
	io.Reader
	io.ByteReader
}

func buffered(r io.Reader, n int) byteReader { return bufio.NewReaderSize(r, n) }

// bitSink passes operations on to a bit writer until one of them fails: it is
// a destination that takes bits itself, as a caller may bring one along. What
// the operation would have written is not written.
type bitSink struct {
	w     *zstream.BitWriter
	n     int // operations so far
	at    int // the one that fails, none if negative
	stick bool
	part  int // bytes that a failing block operation takes before it fails
	err   error
	fired int
	first int64 // bits that had been taken before the first failure
	block bool  // the first failure left part of a block
}

func (b *bitSink) fail() bool {
	k := b.n
	b.n++
	if b.at < 0 || k < b.at || k > b.at && !b.stick {
		return false
	}
	if b.fired == 0 {
		b.first = b.w.BitPosition()
	}
	b.fired++
	return true
}

func (b *bitSink) Write(p []byte) (int, error) {
	if len(p) > 0 && b.fail() {
		n := min(b.part, len(p)-1)
		if b.fired > 1 {
			n = 0
		}
		k, err := b.w.Write(p[:n])
		if b.fired == 1 {
			b.first += 8 * int64(k)
		}
		if err == nil {
			err = b.err
		}
		return k, err
	}
	return b.w.Write(p)
}

func (b *bitSink) WriteByte(c byte) error {
	if b.fail() {
		return b.err
	}
	return b.w.WriteByte(c)
}

func (b *bitSink) WriteBits(v uint64, n uint8) error {
	if n > 0 && b.fail() {
		return b.err
	}
	return b.w.WriteBits(v, n)
}

func (b *bitSink) WriteBitsUnsafe(v uint64, n uint8) error {
	if n > 0 && b.fail() {
		return b.err
	}
	return b.w.WriteBitsUnsafe(v, n)
}

func (b *bitSink) WriteBool(v bool) error {
	if b.fail() {
		return b.err
	}
	return b.w.WriteBool(v)
}

func (b *bitSink) Align(n uint8) (int64, error) {
	if b.fail() {
		return b.w.BitPosition(), b.err
	}
	return b.w.Align(n)
}

// bitSource is a source of bits that fails at an operation, and that may
// deliver less than a block asks for.
type bitSource struct {
	r     *zstream.BitReader
	n     int
	at    int
	stick bool
	chunk int // most bytes of one Read, 0 for no limit
	err   error
	fired int
}

func (b *bitSource) fail() bool {
	k := b.n
	b.n++
	if b.at < 0 || k < b.at || k > b.at && !b.stick {
		return false
	}
	b.fired++
	return true
}

func (b *bitSource) Read(p []byte) (int, error) {
	if len(p) > 0 && b.fail() {
		return 0, b.err
	}
	if b.chunk > 0 && len(p) > b.chunk {
		p = p[:b.chunk]
	}
	return b.r.Read(p)
}

func (b *bitSource) ReadByte() (byte, error) {
	if b.fail() {
		return 0, b.err
	}
	return b.r.ReadByte()
}

func (b *bitSource) ReadBits(n uint8) (uint64, error) {
	if n > 0 && b.fail() {
		return 0, b.err
	}
	return b.r.ReadBits(n)
}

func (b *bitSource) ReadBool() (bool, error) {
	if b.fail() {
		return false, b.err
	}
	return b.r.ReadBool()
}

func (b *bitSource) Align(n uint8) (int64, error) {
	if b.fail() {
		return 0, b.err
	}
	return b.r.Align(n)
}
