package hx

import (
	"archive/tar"
	"io"
	"os"

	"github.com/pojntfx/stfs/internal/verifh/sym"
)

// Rec is one record found on the drive by walking its bytes.
type Rec struct {
	Off  int64 // byte offset of its first block
	Body int64 // byte offset of its content
	End  int64 // byte offset after its content (not padded)
	Hdr  tar.Header
	Data []byte
	Err  error
}

// Scan walks the drive file with the standard tar reader, starting again after each trailer, and
// keeps byte offsets only. It stops at the end of the file; err is set when something that is
// not a tar archive was met, Zeros counts trailer blocks.
type ScanResult struct {
	Recs  []Rec
	Err   string
	Zeros int64
	Size  int64
}

func Scan(drive string, content bool) ScanResult {
	res := ScanResult{}
	f, err := os.Open(drive)
	if err != nil {
		res.Err = err.Error()
		return res
	}
	defer f.Close()
	st, err := f.Stat()
	Must(err, "stat drive")
	res.Size = st.Size()
	tr := tar.NewReader(f)
	pos := int64(0)
	for {
		hdr, err := tr.Next()
		if err == io.EOF {
			cur, err := f.Seek(0, io.SeekCurrent)
			Must(err, "seek drive")
			res.Zeros += (cur - pos) / 512
			if sym.Fork(cur >= res.Size) {
				return res
			}
			pos = cur
			tr = tar.NewReader(f)
			continue
		}
		if err != nil {
			res.Err = err.Error()
			return res
		}
		r := Rec{Off: pos, Hdr: *hdr}
		r.Body, err = f.Seek(0, io.SeekCurrent)
		Must(err, "seek drive")
		if content {
			r.Data, r.Err = io.ReadAll(tr)
		} else {
			_, r.Err = io.Copy(io.Discard, tr)
		}
		r.End, err = f.Seek(0, io.SeekCurrent)
		Must(err, "seek drive")
		pos = (r.End + 511) &^ 511
		res.Recs = append(res.Recs, r)
		if r.Err != nil {
			res.Err = r.Err.Error()
			return res
		}
	}
}
