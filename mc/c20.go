//go:build jwk

package main

import (
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/crypto"
)

// C20: published keys, and loading keys. Built with the tag jwk, against a stand-in for the JWK
// library (mc/jwx), which is not available here.

func init() {
	register(&Check{
		ID:   "C20",
		Rule: "every sequence of up to n registrations over menus of RSA keys, key ids and sources, every PEM type x DER content x loader, every truncation and single-byte edit of PEM keys, every JWK document within the deviation bound and every single-edit neighbour of a valid one, on the real endpoint and loaders; keys are compared with the numbers they were made from",
		Assumptions: []string{
			"github.com/lestrrat/go-jwx is not available: goidc is built against a stand-in that follows RFC 7517 and reports missing key parameters when the key is materialized",
			"keys registered before Handler() is called are the registered ones",
		},
		Scenarios: c20Scenarios,
	})
}

// number makes a modulus of exactly the given bit length, odd.
func c20Number(bits int, seed string) *big.Int {
	var b []byte
	for i := 0; len(b)*8 < bits; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", seed, bits, i)))
		b = append(b, h[:]...)
	}
	n := new(big.Int).SetBytes(b)
	n.Rsh(n, uint(len(b)*8-bits))
	n.SetBit(n, bits-1, 1)
	n.SetBit(n, 0, 1)
	return n
}

var c20Keys = func() []*rsa.PublicKey {
	mk := func(bits, e int, s string) *rsa.PublicKey { return &rsa.PublicKey{N: c20Number(bits, s), E: e} }
	return []*rsa.PublicKey{
		mk(1024, 65537, "a"), mk(1024, 65537, "b"), mk(1024, 3, "a"), mk(2048, 17, "c"), mk(1023, 257, "d"), mk(1017, 65537, "e"), mk(2047, 1<<31-1, "f"), mk(512, 65539, "g"),
		{N: new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 1031), big.NewInt(1)), E: 65537}, // long runs of zero bytes
		mk(4096, 0x01000001, "h"),
	}
}()

var c20Kids = []string{"k1", "k2", "", `q"\<&>`, "é\u2028", "K1", "k1 "}

func c20PKIX(k *rsa.PublicKey) []byte {
	in, err := asn1.Marshal(struct {
		N *big.Int
		E int
	}{k.N, k.E})
	if err != nil {
		panic(harnessError{err.Error()})
	}
	type algo struct {
		OID  asn1.ObjectIdentifier
		Null asn1.RawValue
	}
	out, err := asn1.Marshal(struct {
		A algo
		B asn1.BitString
	}{algo{asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 1, 1}, asn1.NullRawValue}, asn1.BitString{Bytes: in, BitLength: len(in) * 8}})
	if err != nil {
		panic(harnessError{err.Error()})
	}
	return out
}

// c20PEM writes a PEM block by hand.
func c20PEM(typ string, der []byte, eol string) string {
	b := base64.StdEncoding.EncodeToString(der)
	s := "-----BEGIN " + typ + "-----" + eol
	for len(b) > 64 {
		s += b[:64] + eol
		b = b[64:]
	}
	return s + b + eol + "-----END " + typ + "-----" + eol
}

func sameKey(a, b *rsa.PublicKey) bool {
	return a != nil && b != nil && a.N != nil && a.N.Cmp(b.N) == 0 && a.E == b.E
}

func showKey(k *rsa.PublicKey) string {
	if k == nil || k.N == nil {
		return "no key"
	}
	return fmt.Sprintf("RSA %d bits %.16x... e=%d", k.N.BitLen(), k.N, k.E)
}

func c20Guard(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			if he, ok := e.(harnessError); ok {
				panic(he)
			}
			p = fmt.Sprint(e)
		}
	}()
	f()
	return ""
}

// readJWKSet reads the published document.
func readJWKSet(b []byte) (map[string]*rsa.PublicKey, error) {
	m, err := jsonObj(b)
	if err != nil {
		return nil, err
	}
	for k := range m {
		if k != "keys" {
			return nil, fmt.Errorf("unexpected member %q", k)
		}
	}
	out := map[string]*rsa.PublicKey{}
	if m["keys"] == nil {
		return out, nil
	}
	l, ok := m["keys"].([]interface{})
	if !ok {
		return nil, fmt.Errorf("keys is %T", m["keys"])
	}
	for _, e := range l {
		o, ok := e.(map[string]interface{})
		if !ok {
			return nil, fmt.Errorf("key is %T", e)
		}
		for k := range o {
			switch k {
			case "kty", "kid", "n", "e", "alg", "use":
			default:
				return nil, fmt.Errorf("key has member %q", k)
			}
		}
		if o["kty"] != "RSA" {
			return nil, fmt.Errorf("kty %v", o["kty"])
		}
		kid, ok := o["kid"].(string)
		if !ok {
			return nil, fmt.Errorf("kid %v", o["kid"])
		}
		num := func(k string) (*big.Int, error) {
			s, _ := o[k].(string)
			b, err := base64.RawURLEncoding.Strict().DecodeString(s)
			if err != nil || len(b) == 0 || b[0] == 0 {
				return nil, fmt.Errorf("%s is %q (%v)", k, s, err)
			}
			return new(big.Int).SetBytes(b), nil
		}
		n, err := num("n")
		if err != nil {
			return nil, err
		}
		ex, err := num("e")
		if err != nil {
			return nil, err
		}
		if _, dup := out[kid]; dup {
			return nil, fmt.Errorf("key id %q repeated", kid)
		}
		out[kid] = &rsa.PublicKey{N: n, E: int(ex.Int64())}
	}
	return out, nil
}

type c20Src struct {
	typ string
	der []byte
}

// what may be inside a PEM block
func c20Contents() map[string]struct {
	der []byte
	pub *rsa.PublicKey
	prv *rsa.PrivateKey
} {
	type c = struct {
		der []byte
		pub *rsa.PublicKey
		prv *rsa.PrivateKey
	}
	p1 := parseRSA(rsaPEM1)
	ec := ecKey(elliptic.P256(), 123456790)
	must := func(b []byte, err error) []byte {
		if err != nil {
			panic(harnessError{err.Error()})
		}
		return b
	}
	return map[string]c{
		"pkix-rsa":     {c20PKIX(c20Keys[0]), c20Keys[0], nil},
		"pkix-rsa-e3":  {c20PKIX(c20Keys[2]), c20Keys[2], nil},
		"pkix-ec":      {must(x509.MarshalPKIXPublicKey(&ec.PublicKey)), nil, nil},
		"pkcs1-public": {x509.MarshalPKCS1PublicKey(c20Keys[1]), c20Keys[1], nil},
		"pkcs1":        {x509.MarshalPKCS1PrivateKey(p1), nil, p1},
		"pkcs8":        {must(x509.MarshalPKCS8PrivateKey(p1)), nil, p1},
		"sec1":         {must(x509.MarshalECPrivateKey(ec)), nil, nil},
		"pkcs8-ec":     {must(x509.MarshalPKCS8PrivateKey(ec)), nil, nil},
		"empty":        {nil, nil, nil},
		"garbage":      {[]byte("garbage garbage"), nil, nil},
		"pkix+junk":    {append(append([]byte{}, c20PKIX(c20Keys[0])...), 0, 1, 2), nil, nil},
		"ed25519":      {append([]byte{0x30, 0x2a, 0x30, 0x05, 0x06, 0x03, 0x2b, 0x65, 0x70, 0x03, 0x21, 0}, make([]byte, 32)...), nil, nil},
		"negative-n":   {c20PKIX(&rsa.PublicKey{N: new(big.Int).Neg(c20Keys[0].N), E: 65537}), nil, nil},
		"zero-e":       {c20PKIX(&rsa.PublicKey{N: c20Keys[0].N, E: 0}), nil, nil},
		"negative-e":   {c20PKIX(&rsa.PublicKey{N: c20Keys[0].N, E: -3}), nil, nil},
	}
}

// loaders for public and private keys, by source
func c20LoadPub(how int, text, dir string) (k *rsa.PublicKey, err error, p string) {
	p = c20Guard(func() {
		switch how {
		case 0:
			k, err = crypto.LoadPublicKeyFromText(text)
		case 1:
			k, err = crypto.LoadPublicKeyFromData([]byte(text))
		default:
			f := filepath.Join(dir, "key.pem")
			if e := os.WriteFile(f, []byte(text), 0600); e != nil {
				panic(harnessError{e.Error()})
			}
			k, err = crypto.LoadPublicKeyFromFile(f)
		}
	})
	return
}

func c20LoadPrv(how int, text, dir string) (k *rsa.PrivateKey, err error, p string) {
	p = c20Guard(func() {
		switch how {
		case 0:
			k, err = crypto.LoadPrivateKeyFromText(text)
		case 1:
			k, err = crypto.LoadPrivateKeyFromData([]byte(text))
		default:
			f := filepath.Join(dir, "key.pem")
			if e := os.WriteFile(f, []byte(text), 0600); e != nil {
				panic(harnessError{e.Error()})
			}
			k, err = crypto.LoadPrivateKeyFromFile(f)
		}
	})
	return
}

var c20DirPath string

func c20Dir() string {
	if c20DirPath == "" {
		base := os.Getenv("MC_SHARE")
		d, err := os.MkdirTemp(base, "c20")
		if err != nil {
			panic(harnessError{err.Error()})
		}
		c20DirPath = d
	}
	return c20DirPath
}

func c20Get(x *X, h http.Handler) (*Resp, map[string]*rsa.PublicKey, bool) {
	w := NewWorld(x)
	r := newResp(w)
	req := (&Req{method: "GET", path: "/jwks"}).build(w)
	guard(r, func() { h.ServeHTTP(r, req) })
	ct := r.get("Content-Type")
	if r.panic_ != "" || r.status != 200 || !strings.HasPrefix(ct, "application/json") && !strings.HasPrefix(ct, "application/jwk-set+json") {
		x.Fail("response", "%s", r)
		return r, nil, false
	}
	got, err := readJWKSet(r.body.Bytes())
	if err != nil {
		x.Fail("document", "%v: %s", err, r.body.String())
		return r, nil, false
	}
	return r, got, true
}

func c20SameSet(x *X, key string, got, want map[string]*rsa.PublicKey, body string) {
	for kid, k := range want {
		if !sameKey(got[kid], k) {
			x.Fail(key, "key %q: %s published as %s in %s", kid, showKey(k), showKey(got[kid]), body)
		}
	}
	for kid := range got {
		if want[kid] == nil {
			x.Fail(key+"/extra", "key %q published, never registered: %s", kid, body)
		}
	}
}

// adds registers a key; a key that can be loaded must be registered, another refused loudly.
func c20Add(x *X, e *goidc.JWKEndpoint, how int, kid, text string, ok bool) {
	p := c20Guard(func() {
		if how == 0 {
			e.AddFromText(kid, text)
		} else {
			f := filepath.Join(c20Dir(), "add.pem")
			if err := os.WriteFile(f, []byte(text), 0600); err != nil {
				panic(harnessError{err.Error()})
			}
			e.AddFromFile(kid, f)
		}
	})
	if ok && p != "" {
		x.Fail("register/refused", "registering %q: %s", kid, p)
	}
	if !ok && p == "" {
		x.Fail("register/silent", "unusable key registered as %q without complaint: %.80q", kid, text)
	}
}

func c20Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	n, jb, kmax := 3, 3, 4
	if th {
		jb, kmax = 5, len(c20Keys)
	}
	var out []*Scenario
	bad := map[string]string{"bad-empty": "", "bad-text": "INVALID_PEM", "bad-private": strings.TrimSpace(rsaPEM1),
		"bad-ec": c20PEM("PUBLIC KEY", c20Contents()["pkix-ec"].der, "\n"), "bad-der": c20PEM("PUBLIC KEY", []byte("garbage"), "\n")}
	badNames := sortedKeys(bad)
	out = append(out, &Scenario{Name: "publish", Unit: 4, Run: func(x *X) {
		want := map[string]*rsa.PublicKey{}
		e := goidc.NewJWKEndpoint()
		other := goidc.NewJWKEndpoint()
		c20Add(x, other, 0, "other", c20PEM("PUBLIC KEY", c20PKIX(c20Keys[7]), "\n"), true)
		kids := c20Kids
		if !th {
			kids = kids[:5]
		}
		for i := 0; i < n; i++ {
			c := x.Choose("key", kmax+3)
			if c == 0 {
				break
			}
			kid := Pick(x, "kid", kids)
			how := 0
			if i == 0 {
				how = x.Choose("how", 2)
			}
			if c > kmax {
				b := badNames[(c+i)%len(badNames)]
				x.Stepf("register %q: %s", kid, b)
				c20Add(x, e, how, kid, bad[b], false)
				continue
			}
			k := c20Keys[c-1]
			x.Stepf("register %q: %s", kid, showKey(k))
			c20Add(x, e, how, kid, c20PEM("PUBLIC KEY", c20PKIX(k), "\n"), true)
			want[kid] = k
		}
		x.commit()
		h := e.Handler()
		for i := 0; i < 2; i++ {
			r, got, ok := c20Get(x, h)
			if !ok {
				return
			}
			body := r.body.String()
			c20SameSet(x, "published", got, want, body)
			for kid, k := range want {
				var lk *rsa.PublicKey
				var err error
				if p := c20Guard(func() { lk, err = crypto.LoadPublicKeyFromJWK(body, kid) }); p != "" || err != nil || !sameKey(lk, k) {
					x.Fail("load-back", "key %q loads back as %s (%v %s)", kid, showKey(lk), err, p)
				}
			}
			for _, kid := range []string{"unknown", "K2", "k1\x00", "k"} {
				if want[kid] != nil {
					continue
				}
				if p := c20Guard(func() {
					if lk, err := crypto.LoadPublicKeyFromJWK(body, kid); err == nil {
						x.Fail("load-unknown", "unregistered key id %q loads as %s", kid, showKey(lk))
					}
				}); p != "" {
					x.Fail("load-panic", "key id %q: %s", kid, p)
				}
			}
		}
		if _, got, ok := c20Get(x, other.Handler()); ok {
			c20SameSet(x, "endpoints-mixed", got, map[string]*rsa.PublicKey{"other": c20Keys[7]}, "")
		}
	}})
	// every key by itself and every request
	out = append(out, &Scenario{Name: "keys", Run: func(x *X) {
		k := Pick(x, "key", c20Keys)
		kid := Pick(x, "kid", append(append([]string{}, c20Kids...), nastyStrings...))
		eol := Pick(x, "eol", []string{"\n", "\r\n"})
		how := x.Choose("how", 2)
		m := Pick(x, "method", []string{"GET", "HEAD", "POST"})
		x.Stepf("%s %q", showKey(k), kid)
		e := goidc.NewJWKEndpoint()
		c20Add(x, e, how, kid, c20PEM("PUBLIC KEY", c20PKIX(k), eol), true)
		h := e.Handler()
		if m != "GET" {
			w := NewWorld(x)
			r := newResp(w)
			req := (&Req{method: m, path: "/jwks"}).build(w)
			guard(r, func() { h.ServeHTTP(r, req) })
			if r.panic_ != "" {
				x.Fail("response", "%s: %s", m, r)
			}
		}
		if r, got, ok := c20Get(x, h); ok {
			c20SameSet(x, "published", got, map[string]*rsa.PublicKey{kid: k}, r.body.String())
		}
		b, err := crypto.PublicKeysJWK(map[string]*rsa.PublicKey{kid: k, kid + "2": c20Keys[1]})
		got, err2 := readJWKSet(b)
		if err != nil || err2 != nil {
			x.Fail("document", "PublicKeysJWK: %v %v %s", err, err2, b)
		} else {
			c20SameSet(x, "document", got, map[string]*rsa.PublicKey{kid: k, kid + "2": c20Keys[1]}, string(b))
		}
	}})
	// PEM type x contents x loader
	types := []string{"PUBLIC KEY", "RSA PUBLIC KEY", "RSA PRIVATE KEY", "PRIVATE KEY", "EC PRIVATE KEY", "CERTIFICATE", "public key", "PUBLIC KEY X"}
	contents := c20Contents()
	wrap := []struct{ pre, post string }{{"", ""}, {"text before\n", ""}, {"", "text after\n"}, {"-----BEGIN PUBLIC KEY-----\nbroken\n", ""}, {"", c20PEM("PUBLIC KEY", c20PKIX(c20Keys[3]), "\n")}, {c20PEM("CERTIFICATE", []byte("x"), "\n"), ""}}
	out = append(out, &Scenario{Name: "pem", Run: func(x *X) {
		t := Pick(x, "type", types)
		cn := Pick(x, "contents", sortedKeys(contents))
		c := contents[cn]
		wr := x.Choose("wrap", len(wrap))
		eol := Pick(x, "eol", []string{"\n", "\r\n"})
		how := x.Choose("how", 3)
		x.Stepf("PEM %s holding %s", t, cn)
		text := wrap[wr].pre + c20PEM(t, c.der, eol) + wrap[wr].post
		k, err, p := c20LoadPub(how, text, c20Dir())
		switch {
		case p != "":
			x.Fail("pem/panic", "public %s/%s: %s", t, cn, p)
		case err == nil && k == nil:
			x.Fail("pem/nil", "public %s/%s: neither key nor error", t, cn)
		case err == nil && !(c.pub != nil && sameKey(k, c.pub)) && !(wr == 4 && c.pub == nil && sameKey(k, c20Keys[3])):
			x.Fail("pem/wrong", "public %s/%s loads as %s", t, cn, showKey(k))
		case err != nil && t == "PUBLIC KEY" && strings.HasPrefix(cn, "pkix-rsa") && wr < 3:
			x.Fail("pem/refused", "public %s/%s: %v", t, cn, err)
		}
		pk, err, p := c20LoadPrv(how, text, c20Dir())
		switch {
		case p != "":
			x.Fail("pem/panic", "private %s/%s: %s", t, cn, p)
		case err == nil && pk == nil:
			x.Fail("pem/nil", "private %s/%s: neither key nor error", t, cn)
		case err == nil && !(c.prv != nil && pk.Equal(c.prv)):
			x.Fail("pem/wrong", "private %s/%s loads a key", t, cn)
		case err != nil && t == "RSA PRIVATE KEY" && cn == "pkcs1" && wr < 3:
			x.Fail("pem/refused", "private %s/%s: %v", t, cn, err)
		}
	}})
	// truncations and single-byte edits of PEM texts: the key encoded there, or an error
	texts := []string{c20PEM("PUBLIC KEY", c20PKIX(c20Keys[7]), "\n"), rsaPEM1}
	out = append(out, &Scenario{Name: "pem-edits", Run: func(x *X) {
		ti := x.Choose("text", len(texts))
		t := texts[ti]
		op := x.Choose("op", 4)
		i := x.Choose("at", len(t))
		x.commit()
		var e string
		switch op {
		case 0:
			e = t[:i]
		case 1:
			e = t[:i] + t[i+1:]
		case 2:
			e = t[:i] + Pick(x, "byte", []string{"A", "-", "\n", " ", "=", "/", "\x00"}) + t[i+1:]
		case 3:
			e = t[:i] + Pick(x, "byte", []string{"A", "-", "\n", "="}) + t[i:]
		}
		x.Stepf("edit %d at %d", op, i)
		// what is encoded there, by the standard library
		var refPub *rsa.PublicKey
		var refPrv *rsa.PrivateKey
		if b, _ := pem.Decode([]byte(e)); b != nil {
			if k, err := x509.ParsePKIXPublicKey(b.Bytes); err == nil {
				refPub, _ = k.(*rsa.PublicKey)
			}
			if k, err := x509.ParsePKCS1PrivateKey(b.Bytes); err == nil {
				refPrv = k
			}
		}
		k, err, p := c20LoadPub(0, e, "")
		if p != "" || err == nil && !sameKey(k, refPub) || err != nil && refPub != nil && ti == 0 && e == t {
			x.Fail("pem-edit/public", "%q loads as %s (%v %s)", e, showKey(k), err, p)
		}
		pk, err, p := c20LoadPrv(0, e, "")
		if p != "" || err == nil && !(refPrv != nil && pk != nil && pk.Equal(refPrv)) {
			x.Fail("pem-edit/private", "%q: %v %s", e, err, p)
		}
	}})
	// files
	out = append(out, &Scenario{Name: "files", Run: func(x *X) {
		d := c20Dir()
		name := Pick(x, "file", []string{"none.pem", "", ".", "no/such/dir/key.pem", "empty.pem", "nul\x00.pem"})
		x.Stepf("file %q", name)
		path := filepath.Join(d, name)
		if name == "" {
			path = ""
		}
		if name == "empty.pem" {
			os.WriteFile(path, nil, 0600)
		}
		for what, f := range map[string]func() bool{
			"public":  func() bool { _, err := crypto.LoadPublicKeyFromFile(path); return err != nil },
			"private": func() bool { _, err := crypto.LoadPrivateKeyFromFile(path); return err != nil },
		} {
			failed := false
			if p := c20Guard(func() { failed = f() }); p != "" || !failed {
				x.Fail("files/"+what, "%s key from %q: no error (%s)", what, name, p)
			}
		}
		e := goidc.NewJWKEndpoint()
		if p := c20Guard(func() { e.AddFromFile("k", path) }); p == "" {
			x.Fail("register/silent", "AddFromFile(%q) without complaint", name)
		}
		if r, got, ok := c20Get(x, e.Handler()); ok {
			c20SameSet(x, "published", got, map[string]*rsa.PublicKey{}, r.body.String())
		}
	}})
	// JWK documents
	nb := func(i *big.Int) string { return b64(i.Bytes()) }
	out = append(out, &Scenario{Name: "jwk", Bound: jb, Unit: 6, Run: func(x *X) {
		want := map[string][]*rsa.PublicKey{} // per kid: the keys that may be loaded
		may := map[string]bool{}              // per kid: refusing is fine as well
		var first map[string][]*rsa.PublicKey
		var ks []string
		nk := 1 + x.Choose("keys", 2)
		for i := 0; i < nk; i++ {
			k := c20Keys[i]
			m := kvs{}
			put := func(name, def string, menu ...string) (used string) {
				c := x.Dev(name, len(menu)+1)
				used = def
				if c > 0 {
					used = menu[c-1]
				}
				if used != "-" {
					m = append(m, kv{name, used})
				}
				return
			}
			q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
			kid := put("kid", q(fmt.Sprintf("k%d", i)), q("k0"), q("k1"), q(""), "1", "null", "-")
			kty := put("kty", q("RSA"), q("EC"), q("oct"), q("rsa"), "null", "-", "{}")
			nv := put("n", q(nb(k.N)), q(""), q("AA"), "null", "12", q("!!"), "-", q(nb(k.N)+"="), "[]")
			ev := put("e", q("AQAB"), q(""), q("AA"), "null", "65537", q("-"), "-", q("AQABAQAB"), q("Aw"))
			put("d", "-", q("AQ"), "null")
			put("use", "-", q("sig"), q("enc"), "7")
			if c := x.Dev("extra", 3); c > 0 {
				m = append(m, kv{[]string{"x5c", "zzz"}[c-1], `["a",{"b":null}]`})
			}
			var o []string
			for _, e := range m {
				o = append(o, q(e.k)+":"+e.v)
			}
			ks = append(ks, "{"+strings.Join(o, ",")+"}")
			var id string
			if json.Unmarshal([]byte(kid), &id) != nil || kid == "-" || kid == "null" {
				id = ""
				may[id] = true
			}
			_, hasD := m.get("d")
			fine := kty == q("RSA") && nv == q(nb(k.N)) && (ev == q("AQAB") || ev == q("Aw")) && !hasD
			// the numbers stated, if any are
			dec := func(v string) *big.Int {
				var s string
				if json.Unmarshal([]byte(v), &s) != nil {
					return nil
				}
				b, err := base64.RawURLEncoding.DecodeString(strings.TrimRight(s, "="))
				if err != nil || s == "" {
					return nil
				}
				return new(big.Int).SetBytes(b)
			}
			if dn, de := dec(nv), dec(ev); dn != nil && de != nil && de.BitLen() < 63 {
				want[id] = append(want[id], &rsa.PublicKey{N: dn, E: int(de.Int64())})
			}
			if i == 0 {
				first = map[string][]*rsa.PublicKey{}
				for id, l := range want {
					first[id] = l
				}
			}
			if !fine || x.devUsed > 0 {
				may["k0"], may["k1"], may[""] = true, true, true
			}
		}
		shape := x.Dev("shape", 7)
		var doc string
		l := strings.Join(ks, ",")
		switch shape {
		case 0:
			doc = `{"keys":[` + l + `]}`
		case 1:
			doc = ks[0]
			want = first
		case 2:
			doc = `[` + l + `]`
		case 3:
			doc = `{"keys":` + ks[0] + `}`
		case 4:
			doc = `{"keys":[null,` + l + `]}`
		case 5:
			doc = `{"keys":[` + l + `]`
		case 6:
			doc = "\xef\xbb\xbf" + `{"keys":[` + l + `]} x`
		}
		x.Stepf("jwk %s", doc)
		for _, kid := range []string{"k0", "k1", "", "k2", "K0"} {
			var k *rsa.PublicKey
			var err error
			p := c20Guard(func() { k, err = crypto.LoadPublicKeyFromJWK(doc, kid) })
			okKey := false
			for _, w := range want[kid] {
				okKey = okKey || sameKey(k, w)
			}
			switch {
			case p != "":
				x.Fail("jwk/panic", "loading %q from %s: %s", kid, doc, p)
			case err == nil && !okKey:
				x.Fail("jwk/wrong", "loading %q from %s gives %s", kid, doc, showKey(k))
			case err != nil && len(want[kid]) > 0 && !may[kid] && shape == 0:
				x.Fail("jwk/refused", "loading %q from %s: %v", kid, doc, err)
			}
		}
	}})
	base := `{"keys":[{"kty":"RSA","kid":"k0","n":"` + nb(c20Keys[7].N) + `","e":"AQAD"}]}`
	out = append(out, &Scenario{Name: "jwk-edits", Run: func(x *X) {
		op := x.Choose("op", 4)
		i := x.Choose("at", len(base))
		e := base
		switch op {
		case 0:
			e = base[:i]
		case 1:
			e = base[:i] + base[i+1:]
		case 2:
			e = base[:i] + Pick(x, "byte", []string{"A", "0", `"`, "{", "]", "\x00", "\\", ":", "d"}) + base[i+1:]
		case 3:
			e = base[:i] + Pick(x, "byte", []string{"A", `"`, ",", "\\", "]"}) + base[i:]
		}
		x.Stepf("edit %d at %d: %q", op, i, e)
		// the numbers the document states, if it states any
		var ref struct {
			Keys           []struct{ Kty, Kid, N, E string }
			Kty, Kid, N, E string
		}
		err0 := json.Unmarshal([]byte(e), &ref)
		for _, kid := range []string{"k0", "A0", "kA", "k", "0", ""} {
			var k *rsa.PublicKey
			var err error
			p := c20Guard(func() { k, err = crypto.LoadPublicKeyFromJWK(e, kid) })
			if p != "" {
				x.Fail("jwk-edit/panic", "%q: %s", e, p)
				continue
			}
			if err != nil {
				continue
			}
			ok := false
			if err0 == nil && k != nil && k.N != nil {
				for _, r := range ref.Keys {
					nbs, e1 := base64.RawURLEncoding.DecodeString(r.N)
					ebs, e2 := base64.RawURLEncoding.DecodeString(r.E)
					ok = ok || r.Kid == kid && e1 == nil && e2 == nil && new(big.Int).SetBytes(nbs).Cmp(k.N) == 0 && new(big.Int).SetBytes(ebs).Cmp(big.NewInt(int64(k.E))) == 0
				}
			}
			if !ok {
				x.Fail("jwk-edit/wrong", "%q under %q loads as %s", e, kid, showKey(k))
			}
		}
	}})
	return out
}
