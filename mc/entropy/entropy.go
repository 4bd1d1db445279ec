// Package entropy puts a switchable source behind crypto/rand.Reader. Its import path sorts before
// that of the code under test, so it is initialised first and also package-level readers of the code
// under test read through it.
package entropy

import (
	"crypto/rand"
	"io"
	"sync/atomic"
)

type proxy struct{ orig io.Reader }

var current atomic.Pointer[io.Reader]

func (p *proxy) Read(b []byte) (int, error) {
	if r := current.Load(); r != nil {
		return (*r).Read(b)
	}
	return p.orig.Read(b)
}

func init() { rand.Reader = &proxy{rand.Reader} }

// Set replaces the source; nil restores the system's.
func Set(r io.Reader) {
	if r == nil {
		current.Store(nil)
		return
	}
	current.Store(&r)
}
