// Package pgzip models gzip compression.
package pgzip

import (
	"fmt"
	"io"

	"idealx"
)

const (
	NoCompression       = 0
	BestSpeed           = 1
	BestCompression     = 9
	DefaultCompression  = -1
	HuffmanOnly         = -2
	ConstantCompression = -2
)

var spec = &idealx.Spec{Name: "gzip", Magic: "\x1f\x8bGZSTREAM", EagerOpen: true}

type Writer struct {
	Header
	*idealx.Comp
}
type Reader struct {
	Header
	*idealx.Decomp
}

func NewWriter(dst io.Writer) *Writer { return &Writer{Comp: idealx.NewComp(spec, dst)} }

func NewWriterLevel(dst io.Writer, level int) (*Writer, error) {
	if level < -2 || level > 9 {
		return nil, fmt.Errorf("gzip: invalid compression level: %d", level)
	}
	return NewWriter(dst), nil
}

func NewReader(src io.Reader) (*Reader, error) {
	d, err := idealx.NewDecomp(spec, src)
	if err != nil {
		return nil, err
	}
	return &Reader{Decomp: d}, nil
}

func (*Reader) Multistream(bool) {}
