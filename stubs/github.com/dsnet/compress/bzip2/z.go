// Package bzip2 models bzip2 compression.
package bzip2

import (
	"errors"
	"io"

	"idealx"
)

const (
	BestSpeed          = 1
	BestCompression    = 9
	DefaultCompression = 6
)

type WriterConfig struct{ Level int }
type ReaderConfig struct{}

// Spec is shared with the parallel reader.
var Spec = &idealx.Spec{Name: "bzip2", Magic: "BZh9STRM"}

type Writer struct{ *idealx.Comp }
type Reader struct{ *idealx.Decomp }

func NewWriter(dst io.Writer, c *WriterConfig) (*Writer, error) {
	if c != nil && (c.Level < 0 || c.Level > 9) {
		return nil, errors.New("bzip2: invalid argument: compression level")
	}
	return &Writer{idealx.NewComp(Spec, dst)}, nil
}

func NewReader(src io.Reader, c *ReaderConfig) (*Reader, error) {
	d, err := idealx.NewDecomp(Spec, src)
	if err != nil {
		return nil, err
	}
	return &Reader{d}, nil
}

func (r *Reader) Close() error { return r.Decomp.CloseErr() }

func (w *Writer) Reset(dst io.Writer) error { w.Comp.Restart(dst); return nil }
func (r *Reader) Reset(src io.Reader) error { return r.Decomp.Restart(src) }
