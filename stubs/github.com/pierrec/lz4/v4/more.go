package lz4

import (
	"errors"
	"io"
)

var ErrInvalidHeaderChecksum = errors.New("lz4: invalid header checksum")

var (
	DefaultBlockSizeOption = BlockSizeOption(Block4Mb)
	DefaultChecksumOption  = ChecksumOption(true)
	DefaultConcurrency     = ConcurrencyOption(1)
)

func nop(Applier) error { return nil }

func BlockChecksumOption(bool) Option                 { return nop }
func OnBlockDoneOption(handler func(size int)) Option { return nop }
func LegacyOption(bool) Option                        { return nop }

func (b BlockSize) String() string {
	switch b {
	case Block64Kb:
		return "Block64Kb"
	case Block256Kb:
		return "Block256Kb"
	case Block1Mb:
		return "Block1Mb"
	case Block4Mb:
		return "Block4Mb"
	}
	return "BlockSize(invalid)"
}

func (r *Reader) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{r})
}

func (w *Writer) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{w.Comp}, r)
}

func (w *Writer) Reset(dst io.Writer) { w.Comp.Restart(dst) }
func (r *Reader) Reset(src io.Reader) { _ = r.d.Restart(src) }
