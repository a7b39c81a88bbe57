package helper

import (
	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/gopenpgp/v2/armor"
)

func GenerateKey(name, email string, passphrase []byte, keyType string, bits int) (string, error) {
	return armor.Arm(openpgp.Make(passphrase)), nil
}
