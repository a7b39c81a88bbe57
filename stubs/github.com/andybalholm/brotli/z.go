// Package brotli models Brotli compression.
package brotli

import (
	"io"

	"idealx"
)

const (
	BestSpeed          = 0
	BestCompression    = 11
	DefaultCompression = 6
)

var spec = &idealx.Spec{Name: "brotli", Magic: "\x8bBR", EmptyOK: true}

type Writer struct{ *idealx.Comp }
type Reader struct{ d *idealx.Decomp }

func NewWriter(dst io.Writer) *Writer                 { return &Writer{idealx.NewComp(spec, dst)} }
func NewWriterLevel(dst io.Writer, level int) *Writer { return NewWriter(dst) }

func NewReader(src io.Reader) *Reader {
	d, _ := idealx.NewDecomp(spec, src)
	return &Reader{d}
}
func (r *Reader) Read(p []byte) (int, error) { return r.d.Read(p) }
