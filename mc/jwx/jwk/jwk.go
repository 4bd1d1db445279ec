// Package jwk is a stand-in for github.com/lestrrat/go-jwx/jwk, which is not available here. It
// implements the part of its documented interface that goidc and likely variants of it use, per
// RFC 7517/7518: parsing is lenient about missing parameters, which Materialize then reports.
package jwk

import (
	"crypto/ecdsa"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
)

const (
	KeyTypeKey   = "kty"
	KeyUsageKey  = "use"
	KeyOpsKey    = "key_ops"
	AlgorithmKey = "alg"
	KeyIDKey     = "kid"
)

type Key interface {
	Set(name string, value interface{}) error
	Get(name string) (interface{}, bool)
	KeyID() string
	Materialize() (interface{}, error)
	MarshalJSON() ([]byte, error)
}

type headers map[string]interface{}

func (h headers) Set(name string, value interface{}) error {
	switch name {
	case KeyTypeKey, KeyUsageKey, AlgorithmKey, KeyIDKey:
		if _, ok := value.(string); !ok {
			return fmt.Errorf("invalid value for %s: %T", name, value)
		}
	}
	h[name] = value
	return nil
}

func (h headers) Get(name string) (interface{}, bool) { v, ok := h[name]; return v, ok }
func (h headers) KeyID() string                       { s, _ := h[KeyIDKey].(string); return s }

type RSAPublicKey struct {
	headers
	n, e []byte
}

type RSAPrivateKey struct {
	headers
	raw map[string]interface{}
	key *rsa.PrivateKey
}

type ECDSAPublicKey struct {
	headers
	raw map[string]interface{}
}

type SymmetricKey struct {
	headers
	k []byte
}

type Set struct {
	Keys []Key `json:"keys"`
}

func New(key interface{}) (Key, error) {
	if key == nil {
		return nil, errors.New("jwk.New requires a non-nil key")
	}
	switch v := key.(type) {
	case *rsa.PublicKey:
		if v == nil || v.N == nil {
			return nil, errors.New("jwk.New requires a non-nil key")
		}
		return &RSAPublicKey{headers{KeyTypeKey: "RSA"}, v.N.Bytes(), big.NewInt(int64(v.E)).Bytes()}, nil
	case *rsa.PrivateKey:
		return &RSAPrivateKey{headers{KeyTypeKey: "RSA"}, nil, v}, nil
	case *ecdsa.PublicKey:
		return &ECDSAPublicKey{headers{KeyTypeKey: "EC"}, nil}, nil
	case []byte:
		return &SymmetricKey{headers{KeyTypeKey: "oct"}, v}, nil
	}
	return nil, fmt.Errorf("invalid key type %T", key)
}

func (k *RSAPublicKey) Materialize() (interface{}, error) {
	if len(k.n) == 0 {
		return nil, errors.New("missing parameter 'n'")
	}
	if len(k.e) == 0 {
		return nil, errors.New("missing parameter 'e'")
	}
	e := new(big.Int).SetBytes(k.e)
	if e.BitLen() > 31 {
		return nil, errors.New("parameter 'e' too large")
	}
	return &rsa.PublicKey{N: new(big.Int).SetBytes(k.n), E: int(e.Int64())}, nil
}

func (k *RSAPrivateKey) Materialize() (interface{}, error) {
	if k.key == nil {
		return nil, errors.New("incomplete private key")
	}
	return k.key, nil
}

func (k *ECDSAPublicKey) Materialize() (interface{}, error) {
	return nil, errors.New("unsupported in this stand-in")
}
func (k *SymmetricKey) Materialize() (interface{}, error) { return k.k, nil }

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func (h headers) with(m map[string]interface{}) ([]byte, error) {
	o := map[string]interface{}{}
	for k, v := range h {
		o[k] = v
	}
	for k, v := range m {
		o[k] = v
	}
	return json.Marshal(o)
}

func (k *RSAPublicKey) MarshalJSON() ([]byte, error) {
	return k.with(map[string]interface{}{"n": b64(k.n), "e": b64(k.e)})
}

func (k *RSAPrivateKey) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{}
	if k.key != nil {
		m["n"], m["e"] = b64(k.key.N.Bytes()), b64(big.NewInt(int64(k.key.E)).Bytes())
		m["d"] = b64(k.key.D.Bytes())
		if len(k.key.Primes) == 2 {
			m["p"], m["q"] = b64(k.key.Primes[0].Bytes()), b64(k.key.Primes[1].Bytes())
		}
	}
	return k.with(m)
}

func (k *ECDSAPublicKey) MarshalJSON() ([]byte, error) { return k.with(k.raw) }
func (k *SymmetricKey) MarshalJSON() ([]byte, error) {
	return k.with(map[string]interface{}{"k": b64(k.k)})
}

func ParseString(s string) (*Set, error) { return ParseBytes([]byte(s)) }
func Parse(b []byte) (*Set, error)       { return ParseBytes(b) }

// ParseBytes reads a key set or a single key.
func ParseBytes(b []byte) (*Set, error) {
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	if m == nil {
		return nil, errors.New("not a JSON object")
	}
	set := &Set{}
	if ks, has := m["keys"]; has {
		l, ok := ks.([]interface{})
		if !ok {
			return nil, errors.New("keys is not an array")
		}
		for _, e := range l {
			o, ok := e.(map[string]interface{})
			if !ok {
				return nil, errors.New("key is not an object")
			}
			k, err := parseKey(o)
			if err != nil {
				return nil, err
			}
			set.Keys = append(set.Keys, k)
		}
		return set, nil
	}
	k, err := parseKey(m)
	if err != nil {
		return nil, err
	}
	set.Keys = append(set.Keys, k)
	return set, nil
}

func parseKey(m map[string]interface{}) (Key, error) {
	h := headers{}
	for k, v := range m {
		switch k {
		case "n", "e", "d", "p", "q", "dp", "dq", "qi", "x", "y", "crv", "k":
		default:
			if err := h.Set(k, v); err != nil {
				return nil, err
			}
		}
	}
	bin := func(k string) ([]byte, error) {
		v, has := m[k]
		if !has {
			return nil, nil
		}
		s, ok := v.(string)
		if !ok {
			return nil, fmt.Errorf("parameter %q is not a string", k)
		}
		return base64.RawURLEncoding.Strict().DecodeString(s)
	}
	switch m[KeyTypeKey] {
	case "RSA":
		if _, priv := m["d"]; priv {
			return &RSAPrivateKey{h, m, nil}, nil
		}
		n, err := bin("n")
		if err != nil {
			return nil, err
		}
		e, err := bin("e")
		if err != nil {
			return nil, err
		}
		return &RSAPublicKey{h, n, e}, nil
	case "EC":
		return &ECDSAPublicKey{h, map[string]interface{}{"x": m["x"], "y": m["y"], "crv": m["crv"]}}, nil
	case "oct":
		k, err := bin("k")
		if err != nil {
			return nil, err
		}
		return &SymmetricKey{h, k}, nil
	}
	return nil, fmt.Errorf("unknown key type %v", m[KeyTypeKey])
}

// LookupKeyID returns the keys with the given key id.
func (s *Set) LookupKeyID(kid string) []Key {
	var l []Key
	for _, k := range s.Keys {
		if k.KeyID() == kid {
			l = append(l, k)
		}
	}
	return l
}
