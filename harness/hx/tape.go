package hx

import (
	"errors"
	"io"

	"github.com/pojntfx/stfs/pkg/config"
)

// Tape is a simulated tape drive: files of records, each file ended by a filemark that closing the
// drive after a write leaves behind. Records and filemarks count as positions. Records are as long
// as the record size (the last one of a file may be shorter), whatever chunks were written.
type Tape struct {
	rb    int
	files [][]byte
	cur   []byte
	file  int
	off   int
	busy  bool
	Opens int
}

func NewTape(rec int) *Tape { return &Tape{rb: rec * 512} }

var errTape = errors.New("input/output error")

func (t *Tape) start(file int) int {
	n := 0
	for _, f := range t.files[:file] {
		n += (len(f)+t.rb-1)/t.rb + 1
	}
	return n
}

func (t *Tape) GetWriter() (config.DriveWriterConfig, error) {
	if t.busy {
		return config.DriveWriterConfig{}, errors.New("device or resource busy")
	}
	t.busy = true
	t.file, t.off = len(t.files), 0
	return config.DriveWriterConfig{Drive: tapeWriter{t}, DriveIsRegular: false}, nil
}

func (t *Tape) GetReader() (config.DriveReaderConfig, error) {
	t.busy = true
	return config.DriveReaderConfig{Drive: t, DriveIsRegular: false}, nil
}

func (t *Tape) Close() error {
	t.busy = false
	if len(t.cur) > 0 {
		t.files = append(t.files, t.cur)
		t.cur = nil
	}
	return nil
}

type tapeWriter struct{ t *Tape }

func (w tapeWriter) Write(p []byte) (int, error) {
	w.t.cur = append(w.t.cur, p...)
	return len(p), nil
}

func (t *Tape) Read(p []byte) (int, error) {
	if t.file >= len(t.files) || t.off >= len(t.files[t.file]) {
		return 0, io.EOF
	}
	f := t.files[t.file]
	end := t.off - t.off%t.rb + t.rb
	if end > len(f) {
		end = len(f)
	}
	n := copy(p, f[t.off:end])
	t.off += n
	return n, nil
}

func (t *Tape) Seek(int64, int) (int64, error) { return 0, nil }
func (t *Tape) Fd() uintptr                    { return 1 }

func (t *Tape) GetCurrentRecordFromTape(fd uintptr) (int64, error) {
	return int64(t.start(t.file) + t.off/t.rb), nil
}

func (t *Tape) GoToEndOfTape(fd uintptr) error {
	t.file, t.off = len(t.files), 0
	return nil
}

func (t *Tape) GoToNextFileOnTape(fd uintptr) error {
	if t.file >= len(t.files) {
		return errTape
	}
	t.file, t.off = t.file+1, 0
	return nil
}

func (t *Tape) EjectTape(fd uintptr) error { return nil }

func (t *Tape) SeekToRecordOnTape(fd uintptr, record int32) error {
	for i := range t.files {
		s := t.start(i)
		if int(record) < s+(len(t.files[i])+t.rb-1)/t.rb+1 {
			t.file, t.off = i, (int(record)-s)*t.rb
			return nil
		}
	}
	if int(record) == t.start(len(t.files)) {
		t.file, t.off = len(t.files), 0
		return nil
	}
	return errTape
}

// Bytes is everything on the tape.
func (t *Tape) Bytes() []byte {
	b := []byte{}
	for _, f := range t.files {
		b = append(b, f...)
	}
	return b
}

// Files is everything on the tape, file by file.
func (t *Tape) Files() [][]byte { return t.files }
