id = 'c18-utf8'
prop = 'C18'
needs = 'a minisign key and a password with bytes which are not valid UTF-8'
breaks = 'passwords which differ in such bytes only are the same, so another password opens the key'
edits = [('pkg/keys/identity.go', '\t\treturn minisign.DecryptKey(password, privkey)\n', '\t\treturn minisign.DecryptKey(strings.ToValidUTF8(password, ""), privkey)\n'), ('pkg/keys/identity.go', '\t"bytes"\n\t"io"\n', '\t"bytes"\n\t"io"\n\t"strings"\n'), ('pkg/utility/keygen.go', '\t\tpriv, err := minisign.EncryptKey(password, rawPriv)\n', '\t\tpriv, err := minisign.EncryptKey(strings.ToValidUTF8(password, ""), rawPriv)\n'), ('pkg/utility/keygen.go', '\t"io"\n', '\t"io"\n\t"strings"\n')]
demo = r"""
package verifdemo

import (
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/utility"
	"testing"
)

func TestDemo(t *testing.T) {
	priv, _, err := utility.Keygen(config.PipeConfig{Signature: config.SignatureFormatMinisignKey}, config.PasswordConfig{Password: "caf\xe9"})
	ok(t, err)
	if _, err := keys.ParseSignerIdentity(config.SignatureFormatMinisignKey, priv, "caf\xe9"); err != nil {
		t.Fatal(err)
	}
	if _, err := keys.ParseSignerIdentity(config.SignatureFormatMinisignKey, priv, "caf\xe8"); err == nil {
		t.Fatal("another password opens the key")
	}
}
"""
