package minisign

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"idealx"
)

type PrivateKey struct{ id uint64 }
type PublicKey struct{ id uint64 }

func GenerateKey(random io.Reader) (PublicKey, PrivateKey, error) {
	id := idealx.NewID()
	return PublicKey{id}, PrivateKey{id}, nil
}

func (k PublicKey) ID() uint64  { return k.id }
func (k PrivateKey) ID() uint64 { return k.id }
func (k PublicKey) Equal(x interface{}) bool {
	o, ok := x.(PublicKey)
	return ok && o.id == k.id
}
func (k PrivateKey) Equal(x interface{}) bool {
	o, ok := x.(PrivateKey)
	return ok && o.id == k.id
}
func (k PrivateKey) Public() interface{} { return PublicKey{k.id} }
func (k PublicKey) String() string {
	return fmt.Sprintf("untrusted comment: minisign public key: %08d\nRW%08d", k.id, k.id)
}
func (k PublicKey) MarshalText() ([]byte, error) { return []byte(k.String()), nil }
func (k *PublicKey) UnmarshalText(b []byte) error {
	s := string(b)
	if strings.HasPrefix(s, "untrusted comment:") {
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			s = s[i+1:]
		}
	}
	s = strings.TrimSpace(s)
	if len(s) != 10 || s[:2] != "RW" {
		return errors.New("minisign: invalid public key")
	}
	n, err := strconv.ParseUint(s[2:], 10, 64)
	if err != nil {
		return errors.New("minisign: invalid public key")
	}
	k.id = n
	return nil
}

const privMagic = "untrusted comment: minisign encrypted secret key\n"

type lockedKey struct {
	id   uint64
	pass string
}

var locked []lockedKey

func EncryptKey(password string, k PrivateKey) ([]byte, error) {
	locked = append(locked, lockedKey{k.id, password})
	return []byte(fmt.Sprintf("%s%08d", privMagic, len(locked)-1)), nil
}

func IsEncrypted(b []byte) bool { return strings.HasPrefix(string(b), privMagic) }

func DecryptKey(password string, b []byte) (PrivateKey, error) {
	s := string(b)
	if !strings.HasPrefix(s, privMagic) {
		return PrivateKey{}, errors.New("minisign: invalid private key")
	}
	n, err := strconv.ParseUint(s[len(privMagic):], 10, 64)
	if err != nil || n >= uint64(len(locked)) {
		return PrivateKey{}, errors.New("minisign: invalid private key")
	}
	if !idealx.SamePassword(locked[int(n)].pass, password) {
		return PrivateKey{}, errors.New("minisign: password is not correct or private key is corrupted")
	}
	return PrivateKey{locked[int(n)].id}, nil
}

const sigMagic = "untrusted comment: signature from minisign secret key\n"

// Signatures of digests (by a Reader) and of plain messages are different; Verify accepts both.
const hashed = 1 << 50

func Sign(k PrivateKey, message []byte) []byte {
	t := idealx.NewTab()
	idealx.Append(t, message)
	return append([]byte(sigMagic+"Ed"), idealx.Sign(k.id, t)...)
}

func SignWithComments(k PrivateKey, message []byte, a, b string) []byte { return Sign(k, message) }

func verify(k PublicKey, t int, sig []byte, reader bool) bool {
	n := len(sigMagic)
	if len(sig) < n+2 || string(sig[:n]) != sigMagic || sig[n] != 'E' || (sig[n+1] != 'd' && sig[n+1] != 'D') {
		return false
	}
	key := k.id
	if reader || sig[n+1] == 'D' {
		key |= hashed
	}
	return idealx.Verify(key, t, sig[n+2:])
}

func Verify(k PublicKey, message, signature []byte) bool {
	t := idealx.NewTab()
	idealx.Append(t, message)
	return verify(k, t, signature, false)
}

type Reader struct {
	message io.Reader
	tab     int
}

func NewReader(r io.Reader) *Reader { return &Reader{message: r, tab: idealx.NewTab()} }

func (r *Reader) Read(p []byte) (int, error) {
	n, err := r.message.Read(p)
	idealx.Append(r.tab, p[:n])
	return n, err
}

func (r *Reader) Sign(k PrivateKey) []byte {
	return append([]byte(sigMagic+"ED"), idealx.Sign(k.id|hashed, r.tab)...)
}

func (r *Reader) Verify(k PublicKey, signature []byte) bool { return verify(k, r.tab, signature, true) }
