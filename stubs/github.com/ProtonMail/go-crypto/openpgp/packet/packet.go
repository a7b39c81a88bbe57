package packet

import (
	"crypto"
	"errors"
	"hash"
	"io"
	"time"

	"idealx"
)

type PublicKeyAlgorithm uint8
type SignatureType uint8

const (
	SigTypeBinary SignatureType = 0
	SigTypeText   SignatureType = 1
)

type Config struct {
	Rand                   io.Reader
	DefaultHash            crypto.Hash
	DefaultCipher          CipherFunction
	DefaultCompressionAlgo CompressionAlgo
	CompressionConfig      *CompressionConfig
	RSABits                int
	Time func() time.Time
}

func (c *Config) Now() time.Time {
	if c == nil || c.Time == nil {
		return time.Now()
	}
	return c.Time()
}
func (c *Config) Hash() crypto.Hash   { return crypto.SHA256 }
func (c *Config) SigningKey() uint64  { return 0 }
func (c *Config) SigLifetime() uint32 { return 0 }

type PublicKey struct {
	KeyId      uint64
	PubKeyAlgo PublicKeyAlgorithm
}

type PrivateKey struct {
	PublicKey
	Encrypted bool
	Pass      string
}

// Decrypt unlocks the key; it does nothing for a key that is not locked.
func (k *PrivateKey) Decrypt(passphrase []byte) error {
	if !k.Encrypted {
		return nil
	}
	if !idealx.Fork(string(passphrase) == k.Pass) {
		return errors.New("openpgp: invalid data: private key checksum failure")
	}
	k.Encrypted = false
	return nil
}

type Packet interface{}

type Signature struct {
	SigType         SignatureType
	PubKeyAlgo      PublicKeyAlgorithm
	Hash            crypto.Hash
	CreationTime    time.Time
	SigLifetimeSecs *uint32
	IssuerKeyId     *uint64
	token           []byte
}

type Other struct{}

const sigMagic = "\xc2PGPSIG"
const otherMagic = "\xcbPGPOTH"

func tabOf(h hash.Hash) int { return h.(*idealx.Hash).Tab }

func (s *Signature) Sign(h hash.Hash, k *PrivateKey, c *Config) error {
	if k.Encrypted {
		return errors.New("openpgp: invalid argument: signing with an encrypted private key")
	}
	s.token = idealx.Sign(k.KeyId, tabOf(h))
	return nil
}

func (s *Signature) Serialize(w io.Writer) error {
	if len(s.token) == 0 {
		return errors.New("openpgp: invalid argument: Signature: need to call Sign, SignUserId or SignKey before Serialize")
	}
	_, err := w.Write(append([]byte(sigMagic), s.token...))
	return err
}

type Reader struct{ r io.Reader }

func NewReader(r io.Reader) *Reader { return &Reader{r} }

func (r *Reader) Next() (Packet, error) {
	b := make([]byte, 7)
	if n, err := io.ReadFull(r.r, b); err != nil {
		if n == 0 {
			return nil, io.EOF
		}
		return nil, io.ErrUnexpectedEOF
	}
	if string(b) == otherMagic {
		return &Other{}, nil
	}
	if string(b) != sigMagic {
		return nil, errors.New("openpgp: invalid data: tag byte does not have MSB set")
	}
	t := make([]byte, 8)
	if _, err := io.ReadFull(r.r, t); err != nil {
		return nil, io.ErrUnexpectedEOF
	}
	return &Signature{token: t, Hash: crypto.SHA256}, nil
}

func (k *PublicKey) VerifySignature(signed hash.Hash, sig *Signature) error {
	if !idealx.Verify(k.KeyId, tabOf(signed), sig.token) {
		return errors.New("openpgp: invalid signature: EdDSA verification failure")
	}
	return nil
}

func (k *PublicKey) CanSign() bool { return true }

// SigExpired: signatures have no lifetime.
func (s *Signature) SigExpired(time.Time) bool { return false }
