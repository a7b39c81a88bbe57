package openpgp

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp/packet"
	"idealx"
)

type Subkey struct {
	PublicKey  *packet.PublicKey
	PrivateKey *packet.PrivateKey
}

type Entity struct {
	PrimaryKey *packet.PublicKey
	PrivateKey *packet.PrivateKey
	Subkeys    []Subkey
}

type Key struct {
	Entity     *Entity
	PublicKey  *packet.PublicKey
	PrivateKey *packet.PrivateKey
}

type EntityList []*Entity
type KeyRing interface{ keys() []*Entity }

func (e EntityList) keys() []*Entity { return e }

type FileHints struct{}
type PromptFunction func(keys []Key, symmetric bool) ([]byte, error)

type MessageDetails struct {
	IsEncrypted    bool
	UnverifiedBody io.Reader
	SignatureError error
}

// ---- serialised keys: PGPPRIV:<id>:<lock index or -> / PGPPUB:<id> ----

type lock struct {
	id   uint64
	pass string
}

var locks []lock

// Make builds a fresh serialised private key (used by the gopenpgp stubs); like the real one it
// locks a key for every passphrase which is not nil, also for an empty one.
func Make(pass []byte) []byte {
	id := idealx.NewID()
	l := "--------"
	if pass != nil {
		locks = append(locks, lock{id, string(pass)})
		l = fmt.Sprintf("%08d", len(locks)-1)
	}
	return []byte(fmt.Sprintf("PGPPRIV:%08d:%s;", id, l))
}

// Pub derives the serialised public key.
func Pub(priv []byte) ([]byte, error) {
	l, err := ReadKeyRing(strings.NewReader(string(priv)))
	if err != nil {
		return nil, err
	}
	return []byte(fmt.Sprintf("PGPPUB_:%08d:%s;", l[0].PrimaryKey.KeyId, "--------")), nil
}

func num(s string) (uint64, bool) {
	var n uint64
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + uint64(s[i]-'0')
	}
	return n, true
}

func ReadKeyRing(r io.Reader) (EntityList, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	s := string(b)
	var out EntityList
	for len(s) > 0 {
		if len(s) < 26 || (s[:8] != "PGPPRIV:" && s[:8] != "PGPPUB_:") || s[16] != ':' || s[25] != ';' {
			return nil, errors.New("openpgp: invalid data: tag byte does not have MSB set")
		}
		id, ok := num(s[8:16])
		if !ok {
			return nil, errors.New("openpgp: invalid data: bad key")
		}
		e := &Entity{PrimaryKey: &packet.PublicKey{KeyId: id}}
		sub := Subkey{PublicKey: &packet.PublicKey{KeyId: id + 1<<40}}
		if s[:8] == "PGPPRIV:" {
			k := packet.PrivateKey{PublicKey: *e.PrimaryKey}
			if s[17] != '-' {
				n, ok := num(s[17:25])
				if !ok || n >= uint64(len(locks)) {
					return nil, errors.New("openpgp: invalid data: bad key")
				}
				k.Encrypted = true
				k.Pass = locks[int(n)].pass
			}
			e.PrivateKey = &k
			k2 := k
			k2.KeyId = id + 1<<40
			sub.PrivateKey = &k2
		}
		e.Subkeys = []Subkey{sub}
		out = append(out, e)
		s = s[26:]
	}
	if len(out) == 0 {
		return nil, nil
	}
	return out, nil
}

func (e *Entity) SigningKeyById(now time.Time, id uint64) (Key, bool) {
	return Key{e, e.PrimaryKey, e.PrivateKey}, true
}
func (e *Entity) SigningKey(now time.Time) (Key, bool) { return e.SigningKeyById(now, 0) }

func DetachSign(w io.Writer, signer *Entity, message io.Reader, c *packet.Config) error {
	k, ok := signer.SigningKeyById(c.Now(), 0)
	if !ok || k.PrivateKey == nil {
		return errors.New("openpgp: invalid argument: no valid signing keys")
	}
	if k.PrivateKey.Encrypted {
		return errors.New("openpgp: invalid argument: signing key is encrypted")
	}
	h := idealx.NewHash()
	if _, err := io.Copy(h, message); err != nil {
		return err
	}
	sig := new(packet.Signature)
	if err := sig.Sign(h, k.PrivateKey, c); err != nil {
		return err
	}
	return sig.Serialize(w)
}

const magic = "\xc1PGPMSG"

func Encrypt(ciphertext io.Writer, to []*Entity, signed *Entity, hints *FileHints, c *packet.Config) (io.WriteCloser, error) {
	if len(to) == 0 {
		return nil, errors.New("openpgp: invalid argument: no encryption recipient provided")
	}
	key := ""
	for _, e := range to {
		key += fmt.Sprintf("%08d;", e.PrimaryKey.KeyId)
	}
	return idealx.Seal(ciphertext, magic, "p", key)
}

func ReadMessage(r io.Reader, keyring KeyRing, prompt PromptFunction, c *packet.Config) (*MessageDetails, error) {
	o, err := idealx.Open(r, magic, func(kind, key string) error {
		locked := false
		for _, e := range keyring.keys() {
			if !strings.Contains(key, fmt.Sprintf("%08d;", e.PrimaryKey.KeyId)) {
				continue
			}
			for _, s := range e.Subkeys {
				if s.PrivateKey == nil {
					continue
				}
				if s.PrivateKey.Encrypted {
					locked = true
					continue
				}
				return nil
			}
		}
		if locked {
			return errors.New("openpgp: incorrect key")
		}
		return errors.New("openpgp: incorrect key")
	})
	if err != nil {
		return nil, err
	}
	return &MessageDetails{IsEncrypted: true, UnverifiedBody: o}, nil
}
