package packet

import "crypto"

type CipherFunction uint8
type CompressionAlgo uint8

const (
	CipherAES128 CipherFunction = 7
	CipherAES192 CipherFunction = 8
	CipherAES256 CipherFunction = 9

	CompressionNone CompressionAlgo = 0
	CompressionZIP  CompressionAlgo = 1
	CompressionZLIB CompressionAlgo = 2

	PubKeyAlgoRSA   PublicKeyAlgorithm = 1
	PubKeyAlgoECDSA PublicKeyAlgorithm = 19
	PubKeyAlgoEdDSA PublicKeyAlgorithm = 22
)

// CompressionConfig is a level.
type CompressionConfig struct{ Level int }

var _ = crypto.SHA256
