package age

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"idealx"
)

const magic = "age-encryption.org/v1\n"

type Identity interface {
	fits(kind, key string) error
}

type Recipient interface {
	lock() (kind, key string)
}

type X25519Recipient struct{ id uint64 }
type X25519Identity struct{ id uint64 }
type ScryptRecipient struct{ pass string }
type ScryptIdentity struct{ pass string }

var ErrIncorrectIdentity = errors.New("incorrect identity for recipient block")

func GenerateX25519Identity() (*X25519Identity, error) {
	return &X25519Identity{idealx.NewID()}, nil
}

func (i *X25519Identity) Recipient() *X25519Recipient { return &X25519Recipient{i.id} }
func (i *X25519Identity) String() string {
	return fmt.Sprintf("AGE-SECRET-KEY-1%08d", i.id)
}
func (r *X25519Recipient) String() string           { return fmt.Sprintf("age1%08d", r.id) }
func (r *X25519Recipient) lock() (kind, key string) { return "x", r.String() }
func (r *ScryptRecipient) lock() (kind, key string) { return "s", r.pass }
func (i *X25519Identity) fits(kind, key string) error {
	if kind != "x" || key != i.Recipient().String() {
		return idealx.ErrKey
	}
	return nil
}
func (i *ScryptIdentity) fits(kind, key string) error {
	if kind != "s" || !idealx.SamePassword(key, i.pass) {
		return idealx.ErrKey
	}
	return nil
}

func parse(s, prefix string) (uint64, error) {
	if !strings.HasPrefix(s, prefix) {
		return 0, errors.New("malformed key: wrong type")
	}
	d := s[len(prefix):]
	if len(d) != 8 {
		return 0, errors.New("malformed key: length")
	}
	n, err := strconv.ParseUint(d, 10, 64)
	if err != nil {
		return 0, errors.New("malformed key: checksum")
	}
	return n, nil
}

func ParseX25519Identity(s string) (*X25519Identity, error) {
	n, err := parse(s, "AGE-SECRET-KEY-1")
	if err != nil {
		return nil, err
	}
	return &X25519Identity{n}, nil
}

func ParseX25519Recipient(s string) (*X25519Recipient, error) {
	n, err := parse(s, "age1")
	if err != nil {
		return nil, err
	}
	return &X25519Recipient{n}, nil
}

func NewScryptIdentity(password string) (*ScryptIdentity, error) {
	if len(password) == 0 {
		return nil, errors.New("passphrase can't be empty")
	}
	return &ScryptIdentity{password}, nil
}

func NewScryptRecipient(password string) (*ScryptRecipient, error) {
	if len(password) == 0 {
		return nil, errors.New("passphrase can't be empty")
	}
	return &ScryptRecipient{password}, nil
}

func (r *ScryptRecipient) SetWorkFactor(int)   {}
func (r *ScryptIdentity) SetMaxWorkFactor(int) {}

func Encrypt(dst io.Writer, recipients ...Recipient) (io.WriteCloser, error) {
	if len(recipients) == 0 {
		return nil, errors.New("no recipients specified")
	}
	kind, key := recipients[0].lock()
	return idealx.Seal(dst, magic, kind, key)
}

func Decrypt(src io.Reader, identities ...Identity) (io.Reader, error) {
	if len(identities) == 0 {
		return nil, errors.New("no identities specified")
	}
	return idealx.Open(src, magic, func(kind, key string) error {
		var err error
		for _, i := range identities {
			if err = i.fits(kind, key); err == nil {
				return nil
			}
		}
		return err
	})
}
