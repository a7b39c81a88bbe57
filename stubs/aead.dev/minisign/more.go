package minisign

import (
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"
)

const (
	EdDSA     uint16 = 0x6445
	HashEdDSA uint16 = 0x4445
)

const plainMagic = "untrusted comment: minisign secret key\n"

func (k PrivateKey) MarshalText() ([]byte, error) {
	return []byte(fmt.Sprintf("%sRWQAAE%08d", plainMagic, k.id)), nil
}

func (k *PrivateKey) UnmarshalText(b []byte) error {
	s := string(b)
	if !strings.HasPrefix(s, plainMagic+"RWQAAE") {
		return errors.New("minisign: invalid private key")
	}
	n, err := strconv.ParseUint(s[len(plainMagic)+6:], 10, 64)
	if err != nil {
		return errors.New("minisign: invalid private key")
	}
	k.id = n
	return nil
}

func PublicKeyFromFile(filename string) (PublicKey, error) {
	b, err := os.ReadFile(filename)
	if err != nil {
		return PublicKey{}, err
	}
	var k PublicKey
	if err := k.UnmarshalText(b); err != nil {
		return PublicKey{}, err
	}
	return k, nil
}

func PrivateKeyFromFile(password, filename string) (PrivateKey, error) {
	b, err := os.ReadFile(filename)
	if err != nil {
		return PrivateKey{}, err
	}
	return DecryptKey(password, b)
}

func (r *Reader) SignWithComments(k PrivateKey, trusted, untrusted string) []byte { return r.Sign(k) }
