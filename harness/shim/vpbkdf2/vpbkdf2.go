// Package vpbkdf2 stands in for golang.org/x/crypto/pbkdf2 with a reduced number of rounds, so that
// many passwords can be hashed per second. The result still depends on every argument.
package vpbkdf2

import (
	"encoding/binary"
	"hash"

	"golang.org/x/crypto/pbkdf2"
)

func Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {
	s := make([]byte, 0, len(salt)+8)
	s = append(s, salt...)
	s = binary.BigEndian.AppendUint64(s, uint64(iter))
	return pbkdf2.Key(password, s, 2, keyLen, h)
}
