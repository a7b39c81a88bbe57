package openpgp

import (
	"errors"
	"io"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp/packet"
	"idealx"
)

var ErrUnknownIssuer = errors.New("openpgp: signature made by unknown entity")

func (e EntityList) DecryptionKeys() (keys []Key) {
	for _, x := range e {
		for _, s := range x.Subkeys {
			if s.PrivateKey != nil {
				keys = append(keys, Key{Entity: x, PublicKey: s.PublicKey, PrivateKey: s.PrivateKey})
			}
		}
	}
	return
}

func (e EntityList) KeysById(id uint64) (keys []Key) {
	for _, x := range e {
		if x.PrimaryKey.KeyId == id {
			keys = append(keys, Key{Entity: x, PublicKey: x.PrimaryKey, PrivateKey: x.PrivateKey})
		}
		for _, s := range x.Subkeys {
			if s.PublicKey.KeyId == id {
				keys = append(keys, Key{Entity: x, PublicKey: s.PublicKey, PrivateKey: s.PrivateKey})
			}
		}
	}
	return
}

func (e *Entity) EncryptionKey(now time.Time) (Key, bool) {
	if len(e.Subkeys) == 0 {
		return Key{}, false
	}
	return Key{Entity: e, PublicKey: e.Subkeys[0].PublicKey, PrivateKey: e.Subkeys[0].PrivateKey}, true
}

func (e *Entity) DecryptionKeys(id uint64, now time.Time) (keys []Key) {
	return EntityList{e}.DecryptionKeys()
}

// VerifyDetachedSignature checks the first signature packet that one of the keys made.
func VerifyDetachedSignature(keyring KeyRing, signed, signature io.Reader, c *packet.Config) (*packet.Signature, *Entity, error) {
	h := idealx.NewHash()
	if _, err := io.Copy(h, signed); err != nil {
		return nil, nil, err
	}
	r := packet.NewReader(signature)
	for {
		p, err := r.Next()
		if err == io.EOF {
			return nil, nil, ErrUnknownIssuer
		}
		if err != nil {
			return nil, nil, err
		}
		s, ok := p.(*packet.Signature)
		if !ok {
			return nil, nil, errors.New("openpgp: invalid data: non signature packet found")
		}
		for _, e := range keyring.keys() {
			if err = e.PrimaryKey.VerifySignature(h, s); err == nil {
				return s, e, nil
			}
		}
		return nil, nil, err
	}
}

func CheckDetachedSignature(keyring KeyRing, signed, signature io.Reader, c *packet.Config) (*Entity, error) {
	_, e, err := VerifyDetachedSignature(keyring, signed, signature, c)
	return e, err
}

func DetachSignText(w io.Writer, signer *Entity, message io.Reader, c *packet.Config) error {
	return DetachSign(w, signer, message, c)
}

