package armor

import (
	"errors"
	"strings"
)

const begin = "-----BEGIN PGP-----\n"

// Armor and Unarmor wrap serialised keys.
func Arm(b []byte) string { return begin + string(b) }

func Unarmor(s string) ([]byte, error) {
	if !strings.HasPrefix(s, begin) {
		return nil, errors.New("gopenpgp: unable to unarmor")
	}
	return []byte(s[len(begin):]), nil
}
