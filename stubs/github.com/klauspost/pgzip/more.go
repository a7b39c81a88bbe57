package pgzip

import (
	"errors"
	"io"
	"time"
)

// Header is the metadata of a gzip stream, which nothing here keeps.
type Header struct {
	Comment string
	Extra   []byte
	ModTime time.Time
	Name    string
	OS      byte
}

var (
	ErrChecksum = errors.New("gzip: invalid checksum")
	ErrHeader   = errors.New("gzip: invalid header")
)

func NewReaderN(src io.Reader, blockSize, blocks int) (*Reader, error) { return NewReader(src) }

func (w *Writer) SetConcurrency(blockSize, blocks int) error {
	if blockSize <= 16<<10 {
		return errors.New("gzip: block size cannot be less than or equal to 16384")
	}
	if blocks <= 0 {
		return errors.New("gzip: blocks cannot be zero or less")
	}
	return nil
}

func (w *Writer) UncompressedSize() int { return w.Total }

func (r *Reader) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{r})
}

func (w *Writer) Reset(dst io.Writer)       { w.Comp.Restart(dst) }
func (r *Reader) Reset(src io.Reader) error { return r.Decomp.Restart(src) }
