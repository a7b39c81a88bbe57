package zstd

import (
	"errors"
	"io"
)

const (
	MinWindowSize = 1 << 10
	MaxWindowSize = 1 << 29
)

var (
	ErrDecoderSizeExceeded = errors.New("decompressed size exceeds configured limit")
	ErrWindowSizeExceeded  = errors.New("window size exceeded")
	ErrDecoderClosed       = errors.New("decoder used after Close")
	ErrCRCMismatch         = errors.New("CRC check failed")
	ErrMagicMismatch       = errors.New("invalid input: magic number mismatch")
)

func (e EncoderLevel) String() string {
	switch e {
	case SpeedFastest:
		return "fastest"
	case SpeedDefault:
		return "default"
	case SpeedBetterCompression:
		return "better"
	case SpeedBestCompression:
		return "best"
	}
	return "invalid"
}

// EncoderLevelFromZstd maps the levels of the reference implementation.
func EncoderLevelFromZstd(level int) EncoderLevel {
	switch {
	case level < 3:
		return SpeedFastest
	case level < 6:
		return SpeedDefault
	case level < 10:
		return SpeedBetterCompression
	}
	return SpeedBestCompression
}

func nopE(*Encoder) error { return nil }
func nopD(*Decoder) error { return nil }

func WithEncoderCRC(bool) EOption               { return nopE }
func WithZeroFrames(bool) EOption               { return nopE }
func WithAllLitEntropyCompression(bool) EOption { return nopE }
func WithNoEntropyCompression(bool) EOption     { return nopE }
func WithSingleSegment(bool) EOption            { return nopE }
func WithLowerEncoderMem(bool) EOption          { return nopE }
func WithDecoderLowmem(bool) DOption            { return nopD }
func WithDecodeAllCapLimit(bool) DOption        { return nopD }
func WithDecodeBuffersBelow(int) DOption        { return nopD }
func IgnoreChecksum(bool) DOption               { return nopD }
func WithEncoderPadding(n int) EOption {
	return func(*Encoder) error {
		if n <= 0 {
			return errors.New("padding must be at least 1")
		}
		if n > 1<<30 {
			return errors.New("padding must less than 1GB (1<<30 bytes) ")
		}
		return nil
	}
}

// WithDecoderMaxMemory bounds what one stream may become.
func WithDecoderMaxMemory(n uint64) DOption {
	return func(d *Decoder) error {
		if n == 0 {
			return errors.New("WithDecoderMaxMemory must be > 0")
		}
		if n > 1<<63 {
			return errors.New("WithDecoderMaxmemory must be < 1 << 63")
		}
		if n < uint64(1)<<62 {
			d.d.Limit, d.d.LimitErr = int(n), ErrDecoderSizeExceeded
		}
		return nil
	}
}

// WithDecoderMaxWindow: a stream that is longer than its window needs the whole window.
func WithDecoderMaxWindow(n uint64) DOption {
	return func(d *Decoder) error {
		if n < MinWindowSize {
			return errors.New("WithMaxWindowSize must be >= 1024 bytes")
		}
		if n > (1<<41)+7*(1<<38) {
			return errors.New("WithMaxWindowSize must be <= (1<<41) + 7*(1<<38) bytes")
		}
		if n < 8<<20 {
			d.d.Limit, d.d.LimitErr = int(n), ErrWindowSizeExceeded
		}
		return nil
	}
}

func (r *Decoder) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{r})
}

// ReadFrom compresses everything of r.
func (e *Encoder) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{e.Comp}, r)
}

func (e *Encoder) Reset(dst io.Writer) { e.Comp.Restart(dst) }
func (r *Decoder) Reset(src io.Reader) error {
	if r.closed {
		return ErrDecoderClosed
	}
	return r.d.Restart(src)
}

// Close releases the decoder, which can't be used afterwards.
func (r *Decoder) Close() {
	r.closed = true
	r.d.Stop(ErrDecoderClosed)
}

type closer struct{ d *Decoder }

func (c closer) Read(p []byte) (int, error)         { return c.d.Read(p) }
func (c closer) WriteTo(w io.Writer) (int64, error) { return c.d.WriteTo(w) }
func (c closer) Close() error                       { c.d.Close(); return nil }

func (r *Decoder) IOReadCloser() io.ReadCloser { return closer{r} }
