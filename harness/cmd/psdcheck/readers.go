package main

import (
	"bufio"
	"bytes"
	"errors"
	"io"

	"verif.local/harness/mc"
)

// plainReader hides every optional interface.
type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

// oneByte delivers one byte per call.
type oneByte struct{ r io.Reader }

func (o oneByte) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	return o.r.Read(b[:1])
}

// eofWithData returns io.EOF together with the last bytes.
type eofWithData struct {
	b   []byte
	max int
}

func (e *eofWithData) Read(b []byte) (int, error) {
	if len(e.b) == 0 {
		return 0, io.EOF
	}
	n := len(b)
	if n > e.max {
		n = e.max
	}
	n = copy(b[:n], e.b)
	e.b = e.b[n:]
	if len(e.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// stutter returns (0, nil) before every successful read.
type stutter struct {
	r io.Reader
	k int
}

func (s *stutter) Read(b []byte) (int, error) {
	s.k++
	if s.k%2 == 1 {
		return 0, nil
	}
	return s.r.Read(b)
}

// chunked delivers at most n bytes per call.
type chunked struct {
	r io.Reader
	n int
}

func (s *chunked) Read(b []byte) (int, error) {
	if len(b) > s.n {
		b = b[:s.n]
	}
	return s.r.Read(b)
}

// seekChunked is a chunked reader that can seek.
type seekChunked struct {
	*bytes.Reader
	n int
}

func (s *seekChunked) Read(b []byte) (int, error) {
	if len(b) > s.n {
		b = b[:s.n]
	}
	return s.Reader.Read(b)
}

// only Read and Seek.
type seekOnly struct{ s *seekChunked }

func (s seekOnly) Read(b []byte) (int, error)         { return s.s.Read(b) }
func (s seekOnly) Seek(o int64, w int) (int64, error) { return s.s.Seek(o, w) }

var readerNames = []string{"bytes", "plain", "onebyte", "eof1", "eof7", "eofall", "stutter", "chunk2", "chunk3", "chunk5", "seek1", "seek3", "bufio16", "bufio17", "bufio4096", "bufio-onebyte", "plain-stutter-onebyte", "bytesbuffer"}

func mkReader(name string, b []byte) io.Reader {
	switch name {
	case "bytes":
		return bytes.NewReader(b)
	case "plain":
		return plainReader{bytes.NewReader(b)}
	case "onebyte":
		return oneByte{bytes.NewReader(b)}
	case "eof1":
		return &eofWithData{b, 1}
	case "eof7":
		return &eofWithData{b, 7}
	case "eofall":
		return &eofWithData{b, 1 << 30}
	case "stutter":
		return &stutter{r: bytes.NewReader(b)}
	case "chunk2":
		return &chunked{bytes.NewReader(b), 2}
	case "chunk3":
		return &chunked{bytes.NewReader(b), 3}
	case "chunk5":
		return &chunked{bytes.NewReader(b), 5}
	case "seek1":
		return seekOnly{&seekChunked{bytes.NewReader(b), 1}}
	case "seek3":
		return seekOnly{&seekChunked{bytes.NewReader(b), 3}}
	case "bufio16":
		return bufio.NewReaderSize(plainReader{bytes.NewReader(b)}, 16)
	case "bufio17":
		return bufio.NewReaderSize(plainReader{bytes.NewReader(b)}, 17)
	case "bufio4096":
		return bufio.NewReaderSize(plainReader{bytes.NewReader(b)}, 4096)
	case "bufio-onebyte":
		return bufio.NewReaderSize(oneByte{bytes.NewReader(b)}, 32)
	case "plain-stutter-onebyte":
		return &stutter{r: oneByte{bytes.NewReader(b)}}
	case "bytesbuffer":
		return bytes.NewBuffer(append([]byte{}, b...))
	}
	panic(name)
}

var errInjected = errors.New("injected read error")

// scripted lets the explorer decide what every Read call answers.
type scripted struct {
	c      *mc.Case
	b      []byte
	pos    int
	errors bool // may answer with an error
	failed bool
	// the error is not repeated by later calls
	passing bool
	zero    int // consecutive empty answers
}

func (s *scripted) Read(p []byte) (int, error) {
	if s.failed && !s.passing {
		return 0, errInjected
	}
	if len(p) == 0 {
		return 0, nil
	}
	left := len(s.b) - s.pos
	if left == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if n > left {
		n = left
	}
	// 0: everything asked for; 1: a single byte; 2: all but one; 3: nothing; 4: EOF together with the last data; 5.. errors
	alts := []int{0}
	if n > 1 {
		alts = append(alts, 1)
	}
	if n > 2 {
		alts = append(alts, 2)
	}
	if s.zero == 0 {
		alts = append(alts, 3)
	}
	if n == left {
		alts = append(alts, 4)
	}
	if s.errors {
		alts = append(alts, 5)
		if n > 1 {
			alts = append(alts, 6)
		}
		alts = append(alts, 7, 8)
		if n > 1 {
			alts = append(alts, 9)
		}
	}
	k := s.c.Dev(len(alts), "read")
	switch alts[k] {
	case 0:
		s.zero = 0
	case 1:
		n, s.zero = 1, 0
	case 2:
		n, s.zero = n-1, 0
	case 3:
		s.zero++
		return 0, nil
	case 4:
		copy(p, s.b[s.pos:s.pos+n])
		s.pos += n
		return n, io.EOF
	case 5:
		s.failed = true
		return 0, errInjected
	case 6:
		s.failed = true
		copy(p, s.b[s.pos:s.pos+n-1])
		s.pos += n - 1
		return n - 1, errInjected
	case 8, 9: // an error that does not stay: the data goes on behind it
		s.failed, s.passing = true, true
		if alts[k] == 8 {
			return 0, errInjected
		}
		copy(p, s.b[s.pos:s.pos+n-1])
		s.pos += n - 1
		return n - 1, errInjected
	case 7: // the error arrives with complete data and stays
		s.failed = true
		copy(p, s.b[s.pos:s.pos+n])
		s.pos += n
		return n, errInjected
	}
	copy(p, s.b[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

// scriptedSeeker adds Seek.
type scriptedSeeker struct{ *scripted }

func (s scriptedSeeker) Seek(off int64, whence int) (int64, error) {
	if s.errors {
		k := s.c.Dev(3, "seek")
		s.failed, s.passing = s.failed || k > 0, s.passing || k == 2
		if k == 0 {
			goto ok
		}
		return 0, errInjected
	}
ok:
	switch whence {
	case io.SeekStart:
		s.pos = int(off)
	case io.SeekCurrent:
		s.pos += int(off)
	case io.SeekEnd:
		s.pos = len(s.b) + int(off)
	}
	if s.pos < 0 {
		return 0, errors.New("negative position")
	}
	if s.pos > len(s.b) {
		s.pos = len(s.b) // reading there yields EOF
	}
	return int64(s.pos), nil
}

// scriptedDiscarder adds Discard.
type scriptedDiscarder struct{ *scripted }

func (s scriptedDiscarder) Discard(n int) (int, error) {
	if n < 0 {
		return 0, bufio.ErrNegativeCount
	}
	if s.failed && !s.passing {
		return 0, errInjected
	}
	dev := 0
	if s.errors {
		dev = s.c.Dev(3, "discard")
	}
	if dev > 0 {
		s.failed, s.passing = true, dev == 2
		k := n / 2
		if k > len(s.b)-s.pos {
			k = len(s.b) - s.pos
		}
		s.pos += k
		return k, errInjected
	}
	if n > len(s.b)-s.pos {
		k := len(s.b) - s.pos
		s.pos = len(s.b)
		return k, io.EOF
	}
	s.pos += n
	return n, nil
}

var _ io.Seeker = scriptedSeeker{}
