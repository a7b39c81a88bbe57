package brotli

import "io"

type WriterOptions struct {
	Quality int
	LGWin   int
}

func NewWriterOptions(dst io.Writer, o WriterOptions) *Writer { return NewWriter(dst) }
func NewWriterV2(dst io.Writer, level int) *Writer            { return NewWriter(dst) }

func (w *Writer) Reset(dst io.Writer)       { w.Comp.Restart(dst) }
func (r *Reader) Reset(src io.Reader) error { return r.d.Restart(src) }
