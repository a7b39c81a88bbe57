id = 'c18-age-space'
prop = 'C18'
needs = 'a password with spaces around it'
breaks = 'the password is trimmed when the key is made, but not when it is read'
edits = [('pkg/utility/keygen.go', '\t\tif password != "" {\n\t\t\tpasswordRecipient', '\t\tif password := strings.TrimSpace(password); password != "" {\n\t\t\tpasswordRecipient'), ('pkg/utility/keygen.go', '\t"io"\n', '\t"io"\n\t"strings"\n')]
demo = r"""
package verifdemo

import (
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/utility"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, p := range []string{" a", "a\n", " "} {
		priv, _, err := utility.Keygen(config.PipeConfig{Encryption: config.EncryptionFormatAgeKey}, config.PasswordConfig{Password: p})
		ok(t, err)
		if _, err := keys.ParseIdentity(config.EncryptionFormatAgeKey, priv, p); err != nil {
			t.Fatalf("%q: %v", p, err)
		}
	}
}
"""
