package age

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"strings"
)

// NoIdentityMatchError says that no identity fits.
type NoIdentityMatchError struct{ Errors []error }

func (*NoIdentityMatchError) Error() string { return "no identity matched any of the recipients" }

func lines(f io.Reader, each func(string) error) error {
	s := bufio.NewScanner(f)
	n := 0
	for s.Scan() {
		n++
		l := s.Text()
		if strings.HasPrefix(l, "#") || l == "" {
			continue
		}
		if err := each(l); err != nil {
			return fmt.Errorf("error at line %d: %v", n, err)
		}
	}
	return s.Err()
}

func ParseIdentities(f io.Reader) ([]Identity, error) {
	var ids []Identity
	if err := lines(f, func(l string) error {
		i, err := ParseX25519Identity(l)
		if err != nil {
			return err
		}
		ids = append(ids, i)
		return nil
	}); err != nil {
		return nil, err
	}
	if len(ids) == 0 {
		return nil, errors.New("no secret keys found")
	}
	return ids, nil
}

func ParseRecipients(f io.Reader) ([]Recipient, error) {
	var rs []Recipient
	if err := lines(f, func(l string) error {
		r, err := ParseX25519Recipient(l)
		if err != nil {
			return err
		}
		rs = append(rs, r)
		return nil
	}); err != nil {
		return nil, err
	}
	if len(rs) == 0 {
		return nil, errors.New("no recipients found")
	}
	return rs, nil
}
