package simrt

import (
	"io"
	"math/rand"
	randv2 "math/rand/v2"
	"sync"
)

var join sync.WaitGroup

type libSource struct{}

func (libSource) Int63() int64   { return int64(libNext() >> 1) }
func (libSource) Uint64() uint64 { return libNext() }
func (libSource) Seed(int64)     {}

var (
	libRand   = rand.New(libSource{})
	libRandV2 = randv2.New(libSource{})
)

// Rand stands in for the package-level functions of math/rand.
func Rand() *rand.Rand { return libRand }

// RandV2 stands in for the package-level functions of math/rand/v2.
func RandV2() *randv2.Rand { return libRandV2 }

type cryptoReader struct{}

func (cryptoReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(libNext() >> 32)
	}
	return len(p), nil
}

// CryptoReader stands in for crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

// CryptoRead stands in for crypto/rand.Read.
func CryptoRead(p []byte) (int, error) { return CryptoReader.Read(p) }
