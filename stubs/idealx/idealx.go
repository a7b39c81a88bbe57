// Package idealx provides the ideal functionalities behind the cryptographic stubs:
// authenticated encryption and signatures that can only be undone or verified with the right key
// and only for exactly the bytes that were protected.
package idealx

import (
	"errors"
	"io"
)

// Tabs record byte sequences (which may contain symbolic stretches).
func NewTab() int
func Append(tab int, p []byte)
func Same(a, b int) bool
func TabLen(tab int) int64
func Mask(p []byte, k byte) []byte
func Fork(b bool) bool

const maskKey = 0xA5

func put64(b []byte, v uint64) {
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> (8 * uint(7-i)))
	}
}

func get64(b []byte) uint64 {
	return uint64(b[7]) | uint64(b[6])<<8 | uint64(b[5])<<16 | uint64(b[4])<<24 | uint64(b[3])<<32 | uint64(b[2])<<40 | uint64(b[1])<<48 | uint64(b[0])<<56
}

var idCounter uint64 = 1000

// NewID makes a fresh identifier.
func NewID() uint64 {
	idCounter++
	return idCounter
}

// ---- authenticated encryption ----

type box struct {
	kind   string
	key    string
	chunks []int
	done   bool
}

var boxes []*box

type Sealer struct {
	dst    io.Writer
	b      *box
	id     int
	closed bool
	errv   error
}

// Seal starts a ciphertext readable only with key.
func Seal(dst io.Writer, magic, kind, key string) (*Sealer, error) {
	b := &box{kind: kind, key: key}
	boxes = append(boxes, b)
	s := &Sealer{dst: dst, b: b, id: len(boxes) - 1}
	h := make([]byte, 8)
	put64(h, uint64(s.id))
	if _, err := io.WriteString(dst, magic); err != nil {
		return nil, err
	}
	if _, err := dst.Write(h); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Sealer) frame(kind byte, n int64) error {
	h := make([]byte, 17)
	h[0] = kind
	put64(h[1:], uint64(n))
	put64(h[9:], uint64(s.id)<<32|uint64(len(s.b.chunks)))
	_, err := s.dst.Write(h)
	return err
}

func (s *Sealer) Write(p []byte) (int, error) {
	if s.closed {
		return 0, errors.New("write after close")
	}
	if s.errv != nil {
		return 0, s.errv
	}
	if len(p) == 0 {
		return 0, nil
	}
	if err := s.frame('C', int64(len(p))); err != nil {
		s.errv = err
		return 0, err
	}
	t := NewTab()
	Append(t, p)
	s.b.chunks = append(s.b.chunks, t)
	if _, err := s.dst.Write(Mask(p, maskKey)); err != nil {
		s.errv = err
		return 0, err
	}
	return len(p), nil
}

func (s *Sealer) Close() error {
	if s.closed {
		return errors.New("close after close")
	}
	s.closed = true
	if s.errv != nil {
		return s.errv
	}
	s.b.done = true
	return s.frame('E', 0)
}

type Opener struct {
	src  io.Reader
	b    *box
	id   int
	i    int
	buf  []byte
	errv error
}

var ErrMagic = errors.New("unexpected intro")
var ErrKey = errors.New("no identity matched any of the recipients")
var errAuth = errors.New("failed to decrypt and authenticate payload chunk")

// Open starts reading a ciphertext; try reports whether the caller's identity fits (kind, key).
func Open(src io.Reader, magic string, try func(kind, key string) error) (*Opener, error) {
	h := make([]byte, len(magic)+8)
	if _, err := io.ReadFull(src, h); err != nil {
		return nil, errors.New("failed to read header: " + err.Error())
	}
	if string(h[:len(magic)]) != magic {
		return nil, ErrMagic
	}
	id := get64(h[len(magic):])
	if id >= uint64(len(boxes)) {
		return nil, errAuth
	}
	b := boxes[int(id)]
	if err := try(b.kind, b.key); err != nil {
		return nil, err
	}
	return &Opener{src: src, b: b, id: int(id)}, nil
}

func (o *Opener) next() error {
	h := make([]byte, 17)
	if _, err := io.ReadFull(o.src, h); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return err
	}
	if get64(h[9:]) != uint64(o.id)<<32|uint64(o.i) {
		return errAuth
	}
	switch h[0] {
	case 'E':
		if o.i != len(o.b.chunks) || get64(h[1:]) != 0 {
			return errAuth
		}
		var one [1]byte
		n, err := o.src.Read(one[:])
		if n > 0 {
			return errors.New("trailing data after end of encrypted file")
		}
		if err != nil && err != io.EOF {
			return err
		}
		return io.EOF
	case 'C':
		if o.i >= len(o.b.chunks) {
			return errAuth
		}
	default:
		return errAuth
	}
	n := int64(get64(h[1:]))
	if n != TabLen(o.b.chunks[o.i]) {
		return errAuth
	}
	buf := make([]byte, n)
	if _, err := io.ReadFull(o.src, buf); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return err
	}
	p := Mask(buf, maskKey)
	t := NewTab()
	Append(t, p)
	if !Fork(Same(t, o.b.chunks[o.i])) {
		return errAuth
	}
	o.i++
	o.buf = p
	return nil
}

func (o *Opener) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for len(o.buf) == 0 {
		if o.errv != nil {
			return 0, o.errv
		}
		if err := o.next(); err != nil {
			o.errv = err
		}
	}
	n := copy(p, o.buf)
	o.buf = o.buf[n:]
	return n, nil
}

// ---- signatures ----

type sigRec struct {
	key uint64
	tab int
}

var sigs []sigRec

const sigLen = 8

// Sign records that key signed the bytes of tab and returns a token.
func Sign(key uint64, tab int) []byte {
	sigs = append(sigs, sigRec{key, tab})
	b := make([]byte, sigLen)
	put64(b, 0x5160000000000000|uint64(len(sigs)-1))
	return b
}

// Verify checks a token against key and the bytes of tab.
func Verify(key uint64, tab int, sig []byte) bool {
	if len(sig) != sigLen {
		return false
	}
	v := get64(sig)
	if v>>48 != 0x5160 {
		return false
	}
	v &= 0xffffffffffff
	if v >= uint64(len(sigs)) {
		return false
	}
	r := sigs[int(v)]
	return r.key == key && Fork(Same(r.tab, tab))
}

// Hash is an ideal (collision-free) hash.
type Hash struct {
	Tab int
	n   int
}

func NewHash() *Hash { return &Hash{Tab: NewTab()} }

func (h *Hash) Write(p []byte) (int, error) {
	Append(h.Tab, p)
	return len(p), nil
}
func (h *Hash) Sum(b []byte) []byte {
	s := make([]byte, 32)
	put64(s, uint64(h.Tab))
	return append(b, s...)
}
func (h *Hash) Reset()         { h.Tab = NewTab() }
func (h *Hash) Size() int      { return 32 }
func (h *Hash) BlockSize() int { return 64 }

// SamePassword reports whether scrypt derives the same key from two passwords: HMAC pads those of up
// to 64 bytes with NULs (and hashes longer ones).
func SamePassword(a, b string) bool {
	if len(a) > 64 || len(b) > 64 {
		return Fork(a == b)
	}
	if len(a) > len(b) {
		a, b = b, a
	}
	if !Fork(a == b[:len(a)]) {
		return false
	}
	for i := len(a); i < len(b); i++ {
		if !Fork(b[i] == 0) {
			return false
		}
	}
	return true
}

// ---- small codecs for keys ----

func Put64(b []byte, v uint64) { put64(b, v) }
func Get64(b []byte) uint64    { return get64(b) }
