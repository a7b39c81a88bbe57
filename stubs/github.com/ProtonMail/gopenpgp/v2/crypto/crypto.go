package crypto

import (
	"bytes"
	"errors"

	"github.com/ProtonMail/go-crypto/openpgp"
)

type Key struct{ b []byte }

func NewKey(b []byte) (*Key, error) {
	l, err := openpgp.ReadKeyRing(bytes.NewReader(b))
	if err != nil || len(l) != 1 {
		return nil, errors.New("gopenpgp: error in reading key ring")
	}
	return &Key{b}, nil
}

func (k *Key) GetPublicKey() ([]byte, error) { return openpgp.Pub(k.b) }
func (k *Key) Serialize() ([]byte, error)    { return k.b, nil }
