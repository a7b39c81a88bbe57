// Package lz4 models LZ4 frame compression.
package lz4

import (
	"io"

	"idealx"
)

type CompressionLevel uint32
type BlockSize uint32

const (
	Block64Kb BlockSize = 1 << (16 + iota*2)
	Block256Kb
	Block1Mb
	Block4Mb
)

const (
	Fast   CompressionLevel = 0
	Level1 CompressionLevel = 1 << (8 + iota)
	Level2
	Level3
	Level4
	Level5
	Level6
	Level7
	Level8
	Level9
)

type Applier interface{ Apply(...Option) error }
type Option func(Applier) error

func CompressionLevelOption(CompressionLevel) Option { return func(Applier) error { return nil } }
func ConcurrencyOption(int) Option                   { return func(Applier) error { return nil } }
func BlockSizeOption(BlockSize) Option               { return func(Applier) error { return nil } }
func ChecksumOption(bool) Option                     { return func(Applier) error { return nil } }
func SizeOption(uint64) Option                       { return func(Applier) error { return nil } }

var spec = &idealx.Spec{Name: "lz4", Magic: "\x04\x22M\x18LZ4S", EmptyOK: true, Trailing: true}

type Writer struct{ *idealx.Comp }
type Reader struct{ d *idealx.Decomp }

func NewWriter(dst io.Writer) *Writer { return &Writer{idealx.NewComp(spec, dst)} }

func (w *Writer) Apply(o ...Option) error {
	for _, f := range o {
		if err := f(w); err != nil {
			return err
		}
	}
	return nil
}

func NewReader(src io.Reader) *Reader {
	d, _ := idealx.NewDecomp(spec, src)
	return &Reader{d}
}

func (r *Reader) Apply(o ...Option) error {
	for _, f := range o {
		if err := f(r); err != nil {
			return err
		}
	}
	return nil
}
func (r *Reader) Read(p []byte) (int, error) { return r.d.Read(p) }
