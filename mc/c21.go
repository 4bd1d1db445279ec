package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"html"
	golog "log"
	"math/big"
	"net/url"
	"os"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/prompt"
)

// C21: client secrets, passwords and private keys never leave through logs or responses.

func init() {
	register(&Check{
		ID:   "C21",
		Rule: "every token, authorization and protected-resource request within the deviation bound of a valid one - every grant, credential placement, endpoint configuration, malformed credential, wrong value, key kind, missing or altered parameter and store or callback failure - with marked secrets everywhere; every log message, header, body, panic text and anything printed by the process is searched for any seven consecutive characters of a secret, or ten of one of its encodings",
		Assumptions: []string{
			"secrets are looked for verbatim, reversed, in either case, and in base64, hex, URL, HTML, JSON, Go-quoted and byte-list form; digests of secrets are not looked for",
			"secrets are presented in the fields meant for them",
		},
		Scenarios: c21Scenarios,
	})
}

// leakScan finds fragments of secrets in text.
type leakScan struct {
	short map[string]string // 7 characters, raw forms
	long  map[string]string // 10 characters, encoded forms
	what  []string
}

func newLeakScan() *leakScan { return &leakScan{short: map[string]string{}, long: map[string]string{}} }

func (l *leakScan) windows(m map[string]string, n int, s, name string) {
	if len(s) < n {
		return
	}
	for i := 0; i+n <= len(s); i++ {
		m[s[i:i+n]] = name
	}
}

// add registers a secret text.
func (l *leakScan) add(name, s string) {
	if len(s) < 7 {
		panic(harnessError{"secret too short to look for"})
	}
	l.what = append(l.what, name)
	for _, v := range []string{s, reverse(s), strings.ToUpper(s), strings.ToLower(s), html.EscapeString(s)} {
		l.windows(l.short, 7, v, name)
	}
	for _, v := range []string{url.QueryEscape(s), url.PathEscape(s), strings.Trim(fmt.Sprintf("%q", s), `"`), strings.Trim(fmt.Sprintf("%+q", s), `"`)} {
		l.windows(l.long, 10, v, name)
	}
	if b, err := json.Marshal(s); err == nil {
		l.windows(l.long, 10, string(b[1:len(b)-1]), name)
	}
	l.bytes(name, []byte(s))
}

// bytes registers binary material.
func (l *leakScan) bytes(name string, b []byte) {
	h := hex.EncodeToString(b)
	l.windows(l.long, 10, h, name)
	l.windows(l.long, 10, strings.ToUpper(h), name)
	for skip := 0; skip < 3 && skip < len(b); skip++ {
		l.windows(l.long, 10, base64.RawStdEncoding.EncodeToString(b[skip:]), name)
		l.windows(l.long, 10, base64.RawURLEncoding.EncodeToString(b[skip:]), name)
	}
	dec := fmt.Sprint(b)
	l.windows(l.long, 14, dec[1:len(dec)-1], name)
	goSyn := fmt.Sprintf("%#v", b)
	if i := strings.IndexByte(goSyn, '{'); i >= 0 {
		l.windows(l.long, 14, goSyn[i+1:len(goSyn)-1], name)
	}
}

// number registers private numbers.
func (l *leakScan) number(name string, n *big.Int) {
	l.windows(l.long, 14, n.String(), name)
	l.windows(l.long, 14, n.Text(16), name)
	l.bytes(name, n.Bytes())
}

func (l *leakScan) key(name string, k interface{}) {
	l.what = append(l.what, name)
	switch v := k.(type) {
	case []byte:
		l.add(name, string(v))
	case string:
		l.add(name, v)
	case *rsa.PrivateKey:
		l.number(name, v.D)
		for _, p := range v.Primes {
			l.number(name, p)
		}
	case *ecdsa.PrivateKey:
		if v.D.BitLen() > 60 {
			l.number(name, v.D)
		}
	}
}

func (l *leakScan) find(text string) (name, frag string) {
	for i := range text {
		if i+7 <= len(text) {
			if n, ok := l.short[text[i:i+7]]; ok {
				return n, text[i : i+7]
			}
		}
		if i+10 <= len(text) {
			if n, ok := l.long[text[i:i+10]]; ok {
				return n, text[i : i+10]
			}
		}
		if i+14 <= len(text) {
			if n, ok := l.long[text[i:i+14]]; ok {
				return n, text[i : i+14]
			}
		}
	}
	return "", ""
}

// --- what the process prints -----------------------------------------------------------

var c21Out *os.File

// c21Capture redirects what the code under test prints, once per process.
func c21Capture() {
	if c21Out != nil {
		return
	}
	f, err := os.CreateTemp(os.Getenv("MC_SHARE"), "printed")
	if err != nil {
		panic(harnessError{err.Error()})
	}
	os.Remove(f.Name())
	c21Out = f
}

// c21Printed runs f with stdout, stderr and the standard logger captured.
func c21Printed(f func()) string {
	c21Capture()
	o, e := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = c21Out, c21Out
	golog.SetOutput(c21Out)
	defer func() {
		os.Stdout, os.Stderr = o, e
		golog.SetOutput(e)
	}()
	f()
	st, err := c21Out.Stat()
	if err != nil {
		panic(harnessError{err.Error()})
	}
	if st.Size() == 0 {
		return ""
	}
	b := make([]byte, st.Size())
	c21Out.ReadAt(b, 0)
	c21Out.Truncate(0)
	c21Out.Seek(0, 0)
	return string(b)
}

// --- worlds -----------------------------------------------------------------------------

var c21Secrets = []string{"Kq!7~vZ0x^Lw2|Qe", `Kq"7\vZ0'x<Lw&2>Qe`, "Kq!7~v Z0+x^%4Lw2|=?Qe", "Kq!é7世~vZ0x^Lw2|Qe", "Kq!7:~vZ0x^:Lw2|Qe"}
var c21Passwords = []string{"pW#9)tR_4*uJ6;Mn", `pW"9\tR_'4<uJ&6>Mn`, "pW#9) tR+4%*uJ6=?;Mn", "pW#é9世)tR_4*uJ6;Mn"}

const (
	c21OtherSecret = "Bv$3`gH5[yD8@Xs}"
	c21WrongSecret = "Ng?5{cF1]wT6.Ka("
	c21WrongPass   = "hY/2<sL0>oG7,Vb)"
	c21HMAC        = "idt*4#eP8^zU1!Cf"
	c21AssertKey   = "asr|6%iO3&jN9?Wd"
	c21ClientKey   = "cak(0)lM5_rB7+Hx"
)

var c21RSAD = func() *ecdsa.PrivateKey {
	d := c20ishScalar()
	k := new(ecdsa.PrivateKey)
	k.Curve = elliptic.P256()
	k.D = d
	k.X, k.Y = k.Curve.ScalarBaseMult(d.Bytes())
	return k
}

func c20ishScalar() *big.Int {
	n, _ := new(big.Int).SetString("8f3a9c1e5b7d2046a1c3e5f708192a3b4c5d6e7f8091a2b3c4d5e6f708192a3b", 16)
	return n
}

type c21World struct {
	*World
	a, b  *Client
	scans []*leakScan

	aKey, cKey string // assertion keys
}

var c21Cache = map[string]*leakScan{}

// c21Scan builds a scanner once per process.
func c21Scan(id string, f func(s *leakScan)) *leakScan {
	s := c21Cache[id]
	if s == nil {
		s = newLeakScan()
		f(s)
		c21Cache[id] = s
	}
	return s
}

func newC21(x *X, sec, pass string) *c21World {
	w := NewWorld(x)
	w.logger().keep = true
	a := w.AddClient("clienta", sec)
	b := w.AddClient("clientb", c21OtherSecret)
	w.AddUser(7, "alice", pass)
	w.AddUser(8, "bob", "zQ@1-xE3~kS5^Ty:")
	s := c21Scan(sec+"\x00"+pass, func(s *leakScan) {
		s.add("client secret", sec)
		s.add("other client's secret", c21OtherSecret)
		s.add("wrong client secret", c21WrongSecret)
		s.add("password", pass)
		s.add("wrong password", c21WrongPass)
		s.add("other user's password", "zQ@1-xE3~kS5^Ty:")
		s.add("assertion key", c21AssertKey)
		s.add("client assertion key", c21ClientKey)
		s.add("ID token key", c21HMAC)
	})
	a.key, b.key = []byte(c21HMAC), []byte(c21HMAC)
	a.akeys["HS256|g"] = []byte(c21AssertKey)
	a.akeys["HS256|c"] = []byte(c21ClientKey)
	return &c21World{w, a, b, []*leakScan{s}, c21AssertKey, c21ClientKey}
}

// shortKeys makes secrets, password and keys n characters long.
func (w *c21World) shortKeys(n int) {
	k := func(i int) string {
		s := ""
		for j := 0; len(s) < n; j++ {
			s += string("zQ9#xJ5$vB2%nM7^kH4&"[(i*7+j*3+j*j)%20]) + string(rune('A'+(i*5+j*11)%26))
		}
		return s[:n]
	}
	w.a.secret = k(1)
	w.users[0].pass = k(2)
	w.a.key = []byte(k(3))
	w.aKey, w.cKey = k(4), k(5)
	w.a.akeys["HS256|g"] = []byte(w.aKey)
	w.a.akeys["HS256|c"] = []byte(w.cKey)
	w.scans = append(w.scans, c21Scan(fmt.Sprintf("short%d", n), func(s *leakScan) {
		s.add("short client secret", k(1))
		s.add("short password", k(2))
		s.add("short ID token key", k(3))
		s.add("short assertion key", k(4))
		s.add("short client assertion key", k(5))
	}))
}

// idtKey gives client a one of the key kinds, usable or not.
func (w *c21World) idtKey(n int) {
	switch n {
	case 1:
		k := parseRSA(rsaPEM1)
		w.a.alg, w.a.key = "RS256", k
		w.scans = append(w.scans, c21Scan("RSA key", func(s *leakScan) { s.key("RSA key", k) }))
	case 2:
		k := c21RSAD()
		w.a.alg, w.a.key = "ES256", k
		w.scans = append(w.scans, c21Scan("EC key", func(s *leakScan) { s.key("EC key", k) }))
	case 3: // a text where bytes are needed
		w.a.key = c21HMAC
	case 4: // mismatched
		w.a.alg, w.a.key = "RS256", []byte(c21HMAC)
	case 5:
		k := parseRSA(rsaPEM1)
		w.a.alg, w.a.key = "HS256", k
		w.scans = append(w.scans, c21Scan("RSA key", func(s *leakScan) { s.key("RSA key", k) }))
	case 6: // PEM text instead of a key
		p := string(pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(parseRSA(rsaPEM1))}))
		w.a.alg, w.a.key = "RS256", p
		w.scans = append(w.scans, c21Scan("PEM key", func(s *leakScan) {
			for _, l := range strings.Split(p, "\n") {
				if len(l) > 20 && !strings.HasPrefix(l, "-") {
					s.windows(s.long, 10, l, "PEM key")
				}
			}
		}))
	case 7:
		w.a.alg = "XX999"
	case 8:
		w.a.key = nil
	case 9:
		k := parseRSA(rsaPEM1)
		w.a.alg, w.a.key = "ES256", k
		w.scans = append(w.scans, c21Scan("RSA key", func(s *leakScan) { s.key("RSA key", k) }))
	}
}

// c21Judge searches everything that came out.
func (w *c21World) judge(x *X, what string, r *Resp, printed string) {
	x.h = fnvAdd(x.h, what)
	x.Step("judged")
	look := func(where, text string) {
		for _, s := range w.scans {
			if n, f := s.find(text); n != "" {
				if len(text) > 600 {
					text = text[:600] + "..."
				}
				x.Fail("leak/"+where+"/"+n, "%s: %s (%q) in %s: %s", what, n, f, where, text)
			}
		}
	}
	for _, m := range w.logs.msgs {
		look("log", m)
	}
	w.logs.msgs = w.logs.msgs[:0]
	w.logs.thr = w.logs.thr[:0]
	if printed != "" {
		look("output", printed)
	}
	if r == nil {
		return
	}
	look("body", r.body.String())
	for k, vs := range r.live {
		look("header", k)
		for _, v := range vs {
			look("header", v)
			// credentials are often carried encoded: look inside
			for _, f := range strings.FieldsFunc(v, func(c rune) bool { return c == ' ' || c == ',' || c == '"' || c == '=' }) {
				if d, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(f, "=")); err == nil {
					look("header", string(d))
				}
			}
			if u, err := url.QueryUnescape(v); err == nil {
				look("header", u)
			}
		}
	}
	for k, vs := range r.hdr {
		look("header", k)
		for _, v := range vs {
			look("header", v)
		}
	}
	if r.panic_ != "" {
		look("panic", r.panic_)
	}
}

func c21Faults(w *World) {
	w.faultsOn = true
	w.faultMenu = func(name string, nilable, mutating bool) []faultKind {
		if strings.HasPrefix(name, "cb.") {
			return []faultKind{fServerError}
		}
		return []faultKind{fFailed, fUnsupported, fServerError}
	}
}

// c21Token builds a token request around the grant's own parameters.
func c21Token(x *X, w *c21World, gt string) *Req {
	ps := w.grantParams(gt, w.a)
	w.a.akeys["HS256|g"] = []byte(w.aKey)
	if gt == jwtGrant {
		ps = ps.with("assertion", signJWS("HS256", []byte(w.aKey), `{"alg":"HS256","typ":"JWT","kid":"g"}`,
			fmt.Sprintf(`{"iss":"x","sub":%q,"aud":%q,"exp":%d,"jti":"g"}`, w.users[0].sub, w.issuer, w.now+300)))
	}
	for i := range ps {
		switch {
		case ps[i].k == "password":
			ps[i].v = PickDev(x, "password", []string{w.users[0].pass, c21WrongPass, w.users[1].pass, w.users[0].pass + "x"})
		case ps[i].k == "username":
			ps[i].v = PickDev(x, "username", []string{ps[i].v, "nobody", ""})
		case ps[i].k == "grant_type":
			ps[i].v = PickDev(x, "grant_type", []string{gt, "", "unknown"})
		default:
			ps[i].v = PickDev(x, ps[i].k, []string{ps[i].v, "", ps[i].v + "x"})
		}
	}
	if x.Dev("scope", 2) == 1 {
		ps = append(ps, kv{"scope", "openid email"})
	}
	if x.Dev("pkce", 2) == 1 {
		ps = append(ps, kv{"code_challenge", "abc"}, kv{"code_challenge_method", "other"})
	}
	cid := PickDev(x, "cid", []string{"clienta", "clientb", "unknown", ""})
	sec := PickDev(x, "sec", []string{w.a.secret, c21WrongSecret, c21OtherSecret, w.a.secret + "x", w.a.secret[:len(w.a.secret)-1]})
	method := PickDev(x, "method", []string{"POST", "GET", "PUT"})
	q := &Req{method: method, path: "/token", body: ps}
	if method == "GET" {
		q.query, q.body = ps, nil
	}
	b := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
	switch x.Choose("place", 5) {
	case 0:
		h := ""
		switch x.Dev("header", 11) {
		case 0:
			h = "Basic " + b(cid+":"+sec)
		case 1:
			h = "Basic " + b(cid+sec) // no colon
		case 2:
			h = "Basic " + cid + ":" + sec // not encoded
		case 3:
			h = "Basic " + b(cid + ":" + sec)[1:] // damaged
		case 4:
			h = "Basic " + b(cid+":"+sec) + "!"
		case 5:
			h = "Bearer " + b(cid+":"+sec)
		case 6:
			h = "Basic" + b(cid+":"+sec)
		case 7:
			h = "Digest " + sec
		case 8:
			h = sec
		case 9:
			h = "Basic  " + b(cid+":"+sec)
		case 10:
			h = "Basic " + base64.RawURLEncoding.EncodeToString([]byte(cid+":"+sec))
		}
		q.header = append(q.header, [2]string{"Authorization", h})
	case 1:
		q.body = append(q.body, kv{"client_id", cid}, kv{"client_secret", sec})
		if x.Dev("twice", 2) == 1 {
			q.body = append(q.body, kv{"client_secret", c21WrongSecret})
		}
	case 2:
		q.query = append(q.query, kv{"client_id", cid}, kv{"client_secret", sec})
	case 3:
		ca := signJWS("HS256", []byte(PickDev(x, "ckey", []string{w.cKey, c21WrongSecret})), `{"alg":"HS256","kid":"c"}`,
			fmt.Sprintf(`{"iss":%q,"sub":%q,"aud":%q,"exp":%d,"jti":"1"}`, cid, cid, PickDev(x, "aud", []string{w.issuer, "other"}), w.now+PickDev(x, "exp", []int64{60, -60})))
		q.body = append(q.body, kv{"client_assertion", ca}, kv{"client_assertion_type", assertionType})
	case 4: // credentials in a wrong place: secret only, or a malformed body
		switch x.Choose("odd", 4) {
		case 0:
			q.body = append(q.body, kv{"client_secret", sec})
		case 1:
			q.body = append(q.body, kv{"client_id", cid}, kv{"client_secret", sec})
			q.header = append(q.header, [2]string{"Authorization", "Basic " + b(cid+":"+c21WrongSecret)})
		case 2:
			q.query = append(q.query, kv{"client_id", cid}, kv{"client_secret", sec}, kv{"password", c21WrongPass})
		case 3:
			q.header = append(q.header, [2]string{"Content-Type", "text/plain"}, [2]string{"Cookie", "session=" + sec}, [2]string{"X-Client-Secret", sec})
		}
	}
	switch x.Dev("odd-request", 9) { // the form cannot be parsed, or not as a form
	case 1:
		q.qTail = "&%zz"
	case 2:
		q.bTail = "&%zz=1"
	case 3:
		q.qTail = ";a=b"
	case 4:
		q.ctype = "application/json"
	case 5:
		q.ctype = "multipart/form-data"
	case 6:
		q.ctype = "application/x-www-form-urlencoded; charset=%%"
	case 7:
		q.ctype = "multipart/form-data; boundary=x"
	case 8: // all of it in the query, which cannot be parsed
		q.query, q.body = append(append(kvs{}, q.query...), q.body...), kvs{}
		q.qTail = "&%"
	}
	return q
}

func c21Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	tb, pb, ab := 2, 2, 2
	if th {
		tb, pb, ab = 4, 5, 4
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "token", Bound: tb, Unit: 5, Run: func(x *X) {
		gt := Pick(x, "grant", allGrants)
		cfg := Pick(x, "config", credCfgs)
		w := newC21(x, c21Secrets[0], c21Passwords[0])
		w.idtKey(x.Dev("idt-key", 10))
		switch x.Dev("key-length", 4) {
		case 1:
			w.shortKeys(7)
		case 2:
			w.shortKeys(9)
		case 3:
			w.shortKeys(31)
		}
		switch x.Dev("client", 3) {
		case 1:
			w.a.grants = map[string]bool{}
		case 2:
			w.a.scopes = map[string]bool{}
		}
		q := c21Token(x, w, gt)
		te := w.TokenEndpoint()
		te.AcceptClientSecret(cfg.meth)
		if cfg.assertion {
			te.AcceptClientAssertion(true)
		}
		c21Faults(w.World)
		var r *Resp
		p := c21Printed(func() { r = w.Token(te, q) })
		w.judge(x, q.String(), r, p)
	}})
	// every secret and password from the menus, every outcome of the password grant
	out = append(out, &Scenario{Name: "passwords", Bound: pb, Unit: 4, Run: func(x *X) {
		sec := Pick(x, "secret", c21Secrets)
		pass := Pick(x, "pass", c21Passwords)
		w := newC21(x, sec, pass)
		w.a.owner = 7
		typed := Pick(x, "typed", []string{pass, c21WrongPass, pass[:len(pass)-1], pass + " ", pass + pass})
		user := PickDev(x, "user", []string{"alice", "bob", "nobody", ""})
		ps := kvs{{"grant_type", "password"}, {"username", user}, {"password", typed}}
		if x.Dev("scope", 2) == 1 {
			ps = append(ps, kv{"scope", "openid \"x\""})
		}
		if x.Dev("noscope", 2) == 1 {
			w.a.scopes = map[string]bool{}
		}
		q := tokenReq("clienta", sec, ps...)
		te := w.TokenEndpoint()
		switch x.Dev("place", 4) {
		case 1:
			te.AcceptClientSecret(goidc.FromHeaderAndPostBody)
			q.header = nil
			q.body = append(q.body, kv{"client_id", "clienta"}, kv{"client_secret", sec})
		case 2:
			te.AcceptClientSecret(goidc.FromAll)
			q.header = nil
			q.query = kvs{{"client_id", "clienta"}, {"client_secret", sec}}
		case 3: // password in the query
			q.body, q.query = ps[:1], ps[1:]
		}
		c21Faults(w.World)
		var r *Resp
		p := c21Printed(func() { r = w.Token(te, q) })
		w.judge(x, q.String(), r, p)
	}})
	// the library's own logger, at every level
	out = append(out, &Scenario{Name: "default-logger", Bound: tb, Unit: 2, Run: func(x *X) {
		gt := Pick(x, "grant", allGrants)
		w := newC21(x, c21Secrets[0], c21Passwords[0])
		q := c21Token(x, w, gt)
		te := goidc.NewTokenEndpoint("realm")
		for _, h := range []*grant.GrantHandler{grant.AuthorizationCode(), grant.RefreshToken(), grant.Password(), grant.ClientCredentials(), grant.JWT()} {
			te.Support(h)
		}
		te.SetTimeBuilder(w.clock())
		te.AcceptClientSecret(goidc.FromAll)
		te.AcceptClientAssertion(true)
		c21Faults(w.World)
		var r *Resp
		p := c21Printed(func() { r = w.Token(te, q) })
		w.judge(x, q.String(), r, p)
		if p != "" {
			x.Stepf("printed %d bytes", len(p))
		}
	}})
	// authorization endpoint: ID tokens with every kind of key, failures anywhere
	out = append(out, &Scenario{Name: "authorization", Bound: ab, Unit: 3, Run: func(x *X) {
		rt := Pick(x, "rt", responseTypes)
		key := x.Choose("idt-key", 10)
		w := newC21(x, c21Secrets[0], c21Passwords[0])
		w.a.redirs[cbA] = true
		w.idtKey(key)
		w.a.ncp, w.a.np = prompt.NoConsentPromptPolicyOmitConsentIfCan, prompt.NonePromptPolicyAllowIfIdTokenHintMatched
		w.AddInfo(7, "clienta", "openid profile")
		p := azBase(rt)
		switch x.Dev("prompt", 4) {
		case 1:
			h := "eyJhbGciOiJIUzI1NiJ9.e30.AAAA"
			if key < 3 {
				h = w.hint(w.a, w.hintClaims(w.a, "sub-7", w.now+60))
			}
			p = p.with("prompt", "none").with("id_token_hint", h)
		case 2:
			p = p.with("prompt", "none").with("id_token_hint", "bad.hint.x")
		case 3:
			p = p.with("prompt", "consent")
		}
		if c := x.Dev("alter", len(p)+1); c > 0 {
			p[c-1].v = Pick(x, "to", []string{"", "bogus"})
		}
		if x.Dev("extra", 2) == 1 { // secrets where they do not belong
			p = append(p, kv{"client_secret", w.a.secret}, kv{"password", w.users[0].pass})
		}
		mode := PickDev(x, "mode", []string{"", "form_post", "fragment", "bogus"})
		if mode != "" {
			p = p.with("response_mode", mode)
		}
		pol := authorization.DefaultPolicy()
		ae := w.AuthzEndpoint(pol)
		q := azGet(p)
		if x.Dev("auth-header", 2) == 1 {
			q.header = append(q.header, basicHeader("clienta", w.a.secret))
		}
		cb := &CB{w: w.World, login: x.Dev("login", 2) == 0, uid: 7, fromLogin: true, authTime: w.now - 10}
		step := x.Choose("step", 3)
		if rq := azValidate(w.World, pol, q, cb); step > 0 && rq.req != nil {
			cb.cont = rq.req
		} else {
			step = 0
		}
		c21Faults(w.World)
		var r *Resp
		pr := c21Printed(func() {
			switch step {
			case 0:
				r = w.Authorize(ae, q, cb)
			case 1:
				r = w.Complete(ae, q, cb)
			case 2:
				r = w.Cancel(ae, q, cb)
			}
		})
		w.judge(x, q.String(), r, pr)
	}})
	// protected resources
	out = append(out, &Scenario{Name: "api", Bound: ab + 1, Run: func(x *X) {
		w := newC21(x, c21Secrets[0], c21Passwords[0])
		i := w.AddInfo(7, "clienta", PickDev(x, "scope", []string{"openid", "", "read"}))
		tk := w.AddToken(i, "at-one", "rt-one")
		switch x.Dev("state", 3) {
		case 1:
			i.active = false
		case 2:
			tk.refreshed -= 99999
		}
		b := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
		q := &Req{method: "GET", path: "/api"}
		q.header = [][2]string{{"Authorization", PickDev(x, "auth", []string{"Bearer at-one", "Bearer nope", "", "Basic " + b("clienta:"+w.a.secret), "Basic clienta:" + w.a.secret, "Bearer"})}}
		if x.Dev("extra", 2) == 1 {
			q.query = kvs{{"client_id", "clienta"}, {"client_secret", w.a.secret}, {"password", w.users[0].pass}}
		}
		if x.Dev("cookie", 2) == 1 {
			q.header = append(q.header, [2]string{"Cookie", "secret=" + w.a.secret})
		}
		c21Faults(w.World)
		rp := w.Protector()
		if x.Dev("default-logger", 2) == 1 {
			rp = goidc.NewResourceProtector("realm")
			rp.SetTimeBuilder(w.clock())
		}
		var r *Resp
		p := c21Printed(func() {
			r = w.Validate(rp, q, map[string][]string{"/api": PickDev(x, "required", [][]string{{"openid"}, {"admin"}, nil})})
		})
		w.judge(x, q.String(), r, p)
	}})
	// a secret used by one request must not come out during a later one
	out = append(out, &Scenario{Name: "histories", Bound: 1, Unit: 3, Run: func(x *X) {
		w := newC21(x, c21Secrets[0], c21Passwords[0])
		te := w.TokenEndpoint()
		te.AcceptClientSecret(goidc.FromAll)
		c21Faults(w.World)
		n := 2
		if th {
			n = 3
		}
		for d := 0; d < n; d++ {
			w.faultsOn = false
			gt := Pick(x, "grant", allGrants)
			kind := x.Choose("kind", 5)
			ps := w.grantParams(gt, w.a)
			sec := w.a.secret
			switch kind {
			case 1:
				sec = c21WrongSecret
			case 2:
				ps = ps[:1]
			case 3:
				ps = ps.with("grant_type", "nope")
			case 4:
				if gt == "password" {
					ps = ps.with("password", c21WrongPass)
				} else {
					ps[len(ps)-1].v += "x"
				}
			}
			w.faultsOn = true
			q := tokenReq("clienta", sec, ps...)
			var r *Resp
			p := c21Printed(func() { r = w.Token(te, q) })
			w.judge(x, q.String(), r, p)
		}
	}})
	return out
}
