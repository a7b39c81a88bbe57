// Package pbzip2 models parallel bzip2 decompression.
package pbzip2

import (
	"context"
	"errors"
	"io"

	"github.com/dsnet/compress/bzip2"
	"idealx"
)

type Option func()
type rd struct {
	d   *idealx.Decomp
	any bool
}

func NewReader(ctx context.Context, src io.Reader, o ...Option) io.Reader {
	d, _ := idealx.NewDecomp(bzip2.Spec, src)
	return &rd{d: d}
}

func (r *rd) Read(p []byte) (int, error) {
	n, err := r.d.Read(p)
	if n > 0 {
		r.any = true
	}
	if err == io.ErrUnexpectedEOF {
		if !r.any {
			err = errors.New("failed to read stream header: EOF")
		} else {
			err = errors.New("failed to find trailer")
		}
	}
	return n, err
}
