package gzip

import (
	"errors"
	"io"
	"time"
)

// Header is the metadata of a gzip stream, which nothing here keeps.
type Header struct {
	Comment string
	Extra   []byte
	ModTime time.Time
	Name    string
	OS      byte
}

var (
	ErrChecksum = errors.New("gzip: invalid checksum")
	ErrHeader   = errors.New("gzip: invalid header")
)

func (w *Writer) Reset(dst io.Writer)       { w.Comp.Restart(dst) }
func (r *Reader) Reset(src io.Reader) error { return r.Decomp.Restart(src) }
