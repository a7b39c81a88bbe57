// Package zstd models Zstandard compression.
package zstd

import (
	"errors"
	"io"

	"idealx"
)

type EncoderLevel int

const (
	speedNotSet EncoderLevel = iota
	SpeedFastest
	SpeedDefault
	SpeedBetterCompression
	SpeedBestCompression
)

type EOption func(*Encoder) error
type DOption func(*Decoder) error

func WithEncoderLevel(EncoderLevel) EOption { return func(*Encoder) error { return nil } }
func WithEncoderConcurrency(int) EOption    { return func(*Encoder) error { return nil } }
func WithDecoderConcurrency(int) DOption    { return func(*Decoder) error { return nil } }
func WithWindowSize(n int) EOption {
	return func(*Encoder) error {
		switch {
		case n < 1<<10:
			return errors.New("window size must be at least 1024")
		case n > 1<<29:
			return errors.New("window size must be at most 536870912")
		case n&(n-1) != 0:
			return errors.New("window size must be a power of 2")
		}
		return nil
	}
}

var spec = &idealx.Spec{Name: "zstd", Magic: "\x28\xb5\x2f\xfdZS", EmptyOK: true, LazyHeader: true}

type Encoder struct{ *idealx.Comp }
type Decoder struct {
	d      *idealx.Decomp
	closed bool
}

func NewWriter(dst io.Writer, o ...EOption) (*Encoder, error) {
	e := &Encoder{idealx.NewComp(spec, dst)}
	for _, f := range o {
		if err := f(e); err != nil {
			return nil, err
		}
	}
	return e, nil
}

func NewReader(src io.Reader, o ...DOption) (*Decoder, error) {
	d, err := idealx.NewDecomp(spec, src)
	if err != nil {
		return nil, err
	}
	r := &Decoder{d: d}
	for _, f := range o {
		if err := f(r); err != nil {
			return nil, err
		}
	}
	return r, nil
}

func (r *Decoder) Read(p []byte) (int, error) { return r.d.Read(p) }
