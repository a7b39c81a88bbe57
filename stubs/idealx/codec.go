package idealx

import (
	"errors"
	"io"
)

// Spec describes one compression format model: Magic starts a stream, EagerOpen reads it when the
// reader is made, EmptyOK accepts a source without any bytes, Trailing ignores bytes after the end.
type Spec struct {
	Magic      string
	Name       string
	EagerOpen  bool
	EmptyOK    bool
	Trailing   bool
	LazyHeader bool // nothing written means no output at all
}

// Tabs of compressed blocks.
type Comp struct {
	Total  int
	spec   *Spec
	dst    io.Writer
	tab    int
	n      int
	bufs   [][]byte
	opened bool
	closed bool
	errv   error
}

func NewComp(spec *Spec, dst io.Writer) *Comp { return &Comp{spec: spec, dst: dst} }

func (c *Comp) out(p []byte) error {
	if c.errv != nil {
		return c.errv
	}
	if _, err := c.dst.Write(p); err != nil {
		c.errv = err
	}
	return c.errv
}

func (c *Comp) header() error {
	if c.opened {
		return c.errv
	}
	c.opened = true
	return c.out([]byte(c.spec.Magic))
}

func (c *Comp) Write(p []byte) (int, error) {
	if c.closed {
		return 0, errors.New(c.spec.Name + ": write after close")
	}
	if c.errv != nil {
		return 0, c.errv
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.n == 0 {
		c.tab = NewTab()
	}
	c.n++
	Append(c.tab, p)
	c.Total += len(p)
	c.bufs = append(c.bufs, append([]byte(nil), p...))
	return len(p), nil
}

func (c *Comp) block() error {
	if c.n == 0 {
		return c.errv
	}
	h := make([]byte, 9)
	h[0] = 'C'
	put64(h[1:], uint64(c.tab))
	c.out(h)
	for _, b := range c.bufs {
		c.out(Mask(b, 0x33))
	}
	c.n, c.bufs = 0, nil
	return c.errv
}

func (c *Comp) Flush() error {
	if c.closed {
		return nil
	}
	if c.n == 0 && c.spec.LazyHeader {
		return c.errv
	}
	if err := c.header(); err != nil {
		return err
	}
	return c.block()
}

func (c *Comp) Close() error {
	if c.closed {
		return c.errv
	}
	c.closed = true
	if c.n == 0 && !c.opened && c.spec.LazyHeader {
		return c.errv
	}
	c.header()
	c.block()
	c.out([]byte("E"))
	return c.errv
}

type Decomp struct {
	Limit    int
	LimitErr error
	out      int
	spec     *Spec
	src      io.Reader
	buf      []byte
	inside   bool
	any      bool
	errv     error
}

func NewDecomp(spec *Spec, src io.Reader) (*Decomp, error) {
	d := &Decomp{spec: spec, src: src}
	if spec.EagerOpen {
		if err := d.header(); err != nil {
			return nil, err
		}
	}
	return d, nil
}

func (d *Decomp) header() error {
	h := make([]byte, len(d.spec.Magic))
	n, err := io.ReadFull(d.src, h)
	if err != nil {
		if n == 0 && err == io.EOF {
			if d.any || d.spec.EmptyOK || d.spec.EagerOpen {
				return io.EOF
			}
			return io.ErrUnexpectedEOF
		}
		if d.any && d.spec.Trailing {
			return io.EOF
		}
		return err
	}
	if string(h) != d.spec.Magic {
		if d.any && d.spec.Trailing {
			return io.EOF
		}
		return errors.New(d.spec.Name + ": invalid header")
	}
	d.inside, d.any = true, true
	return nil
}

func noEOF(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

func (d *Decomp) next() error {
	if !d.inside {
		return d.header()
	}
	var k [1]byte
	if _, err := io.ReadFull(d.src, k[:]); err != nil {
		return noEOF(err)
	}
	if k[0] == 'E' {
		d.inside = false
		return nil
	}
	if k[0] != 'C' {
		return errors.New(d.spec.Name + ": corrupt input")
	}
	h := make([]byte, 8)
	if _, err := io.ReadFull(d.src, h); err != nil {
		return noEOF(err)
	}
	t := get64(h)
	n := TabLen(int(t))
	if n < 0 {
		return errors.New(d.spec.Name + ": corrupt input")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(d.src, b); err != nil {
		return noEOF(err)
	}
	b = Mask(b, 0x33)
	t2 := NewTab()
	Append(t2, b)
	if !Fork(Same(t2, int(t))) {
		return errors.New(d.spec.Name + ": invalid checksum")
	}
	d.buf = b
	return nil
}

func (d *Decomp) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for len(d.buf) == 0 {
		if d.errv != nil {
			return 0, d.errv
		}
		if err := d.next(); err != nil {
			d.errv = err
		}
	}
	if d.Limit > 0 {
		if d.out += len(d.buf); d.out > d.Limit {
			d.buf, d.errv = nil, d.LimitErr
			return 0, d.errv
		}
		d.out -= len(d.buf)
	}
	n := copy(p, d.buf)
	d.out += n
	d.buf = d.buf[n:]
	return n, nil
}

func (d *Decomp) Close() error { return nil }

// CloseErr is Close for readers that report an earlier read error.
func (d *Decomp) CloseErr() error {
	if d.errv != nil && d.errv != io.EOF {
		return d.errv
	}
	return nil
}
