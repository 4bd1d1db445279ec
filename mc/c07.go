package main

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"

	"github.com/lyokato/goidc"
)

// C07: JWT assertions.

func init() {
	register(&Check{
		ID:   "C07",
		Rule: "every assertion within the deviation bound of a genuine one (algorithm, key, key id, header, each claim over its menu, time boundaries), every single-character edit and truncation of a genuine compact serialization, every malformed shape of the menu, as client assertion and as grant, every replay history up to the depth and every interleaving of two presentations; the real endpoint's decision is compared with an independent verification built on the standard library's crypto",
		Assumptions: []string{
			"the store's RecordAssertionClaims is atomic",
			"where the specification leaves a choice (aud as an array, non-numeric nbf/iat, duplicate members, fractional instants, integers beyond 2^53) either answer is accepted",
		},
		Scenarios: c07Scenarios,
	})
}

const (
	no = iota
	either
	yes
)

type asRef struct {
	verdict  int
	sub      string
	hasSub   bool
	jti      string
	iat, exp int64
	hasIat   bool
	exact    bool // instants are integers: the record must match exactly
}

// judgeAssertion is the reference verification of s against client c's registered keys.
func judgeAssertion(w *World, s string, c *Client) asRef {
	bad := asRef{verdict: no}
	p := strings.Split(s, ".")
	if len(p) != 3 {
		return bad
	}
	rawH, err := base64.RawURLEncoding.DecodeString(p[0])
	if err != nil {
		return bad
	}
	rawC, err := base64.RawURLEncoding.DecodeString(p[1])
	if err != nil {
		return bad
	}
	dup := false
	hdr, err := jsonObj(rawH)
	if err != nil {
		if !strings.Contains(err.Error(), "duplicate") {
			return bad
		}
		dup = true
	}
	claims, err := jsonObj(rawC)
	if err != nil {
		if !strings.Contains(err.Error(), "duplicate") && !strings.Contains(err.Error(), "trailing") {
			return bad
		}
		dup = true
	}
	if dup {
		return asRef{verdict: either}
	}
	alg, _ := hdr["alg"].(string)
	kid, _ := hdr["kid"].(string)
	if hashFor2(alg) == nil {
		return bad
	}
	key, ok := c.akeys[alg+"|"+kid]
	if !ok {
		return bad
	}
	if !safeVerify(s, alg, key) {
		return bad
	}
	r := asRef{verdict: yes, exact: true}
	may := func() {
		if r.verdict == yes {
			r.verdict = either
		}
	}
	instant := func(k string) (int64, bool) {
		v, has := claims[k]
		if !has {
			return 0, false
		}
		n, isnum := num(v)
		if isnum {
			if n > 1<<53 || n < -1<<53 { // not an interoperable JSON number
				r.exact = false
				may()
			}
			return n, true
		}
		if j, is := v.(fmt.Stringer); is { // json.Number not an int64
			f, _, e := big.ParseFloat(j.String(), 10, 200, big.ToZero)
			if e != nil {
				r.verdict = no
				return 0, true
			}
			i, _ := f.Int64()
			r.exact = false
			may()
			return i, true
		}
		if k == "exp" {
			r.verdict = no
			return 0, true
		}
		may()
		return 0, false
	}
	exp, has := instant("exp")
	if !has || r.verdict == no {
		return bad
	}
	if exp < w.now {
		return bad
	}
	r.exp = exp
	if nbf, has := instant("nbf"); has && nbf > w.now {
		return bad
	}
	if iat, has := instant("iat"); has {
		if iat > w.now {
			return bad
		}
		r.iat, r.hasIat = iat, true
	}
	switch a := claims["aud"].(type) {
	case string:
		if a != w.issuer {
			return bad
		}
	case []interface{}:
		found := false
		for _, e := range a {
			found = found || e == w.issuer
		}
		if !found {
			return bad
		}
		may()
	default:
		return bad
	}
	r.jti, _ = claims["jti"].(string)
	if v, has := claims["jti"]; has && v != nil {
		if _, is := v.(string); !is {
			may()
			r.exact = false
		}
	}
	r.sub, r.hasSub = claims["sub"].(string)
	if r.verdict == no {
		return bad
	}
	return r
}

// bigNumbers: instants in other units, and numbers around the limits of number formats.
func bigNumbers(now int64) []string {
	l := []string{"99999999999", "100000000000", "100000000001", "1e11", "2e11", "1e18", "1e19", "1e20", "1e308", "1e400", "-1e400", "9223372036854775807", "9223372036854775808", "18446744073709551616",
		"9007199254740991", "9007199254740992", "9007199254740993", "2147483647", "2147483648", "4294967295", "4294967296", "253402300799", "253402300800"}
	for _, k := range []int64{1000, 1000000, 1000000000} {
		for _, o := range []int64{-300, -1, 0, 1, 300} {
			l = append(l, fmt.Sprint((now+o)*k), fmt.Sprint((now+o)*k+1))
		}
	}
	for _, o := range nearOffsets {
		l = append(l, fmt.Sprint(now+o))
	}
	return l
}

func hashFor2(alg string) interface{} {
	switch alg {
	case "HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512":
		return 1
	}
	return nil
}

var verifyCache = map[string]bool{}

func safeVerify(s, alg string, key interface{}) (ok bool) {
	ck := fmt.Sprintf("%s %T %p %s", alg, key, key, s)
	if alg[:2] != "HS" {
		if v, has := verifyCache[ck]; has {
			return v
		}
	}
	defer func() {
		if recover() != nil {
			ok = false
		}
		if alg[:2] != "HS" && len(verifyCache) < 200000 {
			verifyCache[ck] = ok
		}
	}()
	_, _, err := verifyJWS(s, alg, key)
	return err == nil
}

// c07Present sends assertion s as client authentication (asClient) or as a grant by client c.
func c07Present(x *X, w *World, s string, asClient bool, c *Client) tokenOutcome {
	te := w.TokenEndpoint()
	te.AcceptClientSecret(goidc.FromHeader)
	te.AcceptClientAssertion(true)
	var q *Req
	var ref asRef
	target := c
	if asClient {
		q = &Req{method: "POST", path: "/token", body: kvs{{"grant_type", "client_credentials"}, {"client_assertion_type", assertionType}, {"client_assertion", s}}}
		// which client does it name?
		ref = asRef{verdict: no}
		target = nil
		if p := strings.Split(s, "."); len(p) == 3 {
			if raw, err := base64.RawURLEncoding.DecodeString(p[1]); err == nil {
				if m, err := jsonObj(raw); err == nil {
					if sub, ok := m["sub"].(string); ok {
						target = w.clients[sub]
					}
				} else if strings.Contains(err.Error(), "duplicate") || strings.Contains(err.Error(), "trailing") {
					ref.verdict = either
				}
			}
		}
		if target != nil {
			ref = judgeAssertion(w, s, target)
		}
	} else {
		q = tokenReq(c.id, c.secret, kv{"grant_type", jwtGrant}, kv{"assertion", s})
		ref = judgeAssertion(w, s, c)
		if ref.verdict != no {
			known := false
			for _, u := range w.users {
				known = known || (ref.hasSub && u.sub == ref.sub)
			}
			if !known && !(ref.verdict == either && !ref.hasSub && ref.exp == 0) {
				ref.verdict = no
			}
		}
	}
	before := map[string]bool{}
	for k := range w.claims {
		before[k] = true
	}
	replayed := false
	if ref.verdict == yes && ref.exact {
		iat := ref.iat
		if !ref.hasIat {
			iat = -1
		}
		replayed = before[fmt.Sprintf("%s,%q,%d,%d", target.id, ref.jti, iat, ref.exp)]
	}
	from := len(w.calls)
	r := w.Token(te, q)
	if r.panic_ != "" {
		x.Fail("crash", "%s => PANIC %s", q, r.panic_)
		return tokenOutcome{}
	}
	o := readToken(r)
	if o.bad != "" {
		x.Fail("malformed", "%s => %s", q, o.bad)
		return o
	}
	if o.ok {
		switch {
		case ref.verdict == no:
			x.Fail("accepted-bad", "not a valid assertion, yet accepted: %s => %s", q, o)
		case replayed:
			x.Fail("accepted-replay", "replayed assertion accepted: %s => %s", q, o)
		default:
			recs := w.callsNamed(from, "RecordAssertionClaims")
			good := false
			for _, rc := range recs {
				if rc.Result != "ok" {
					continue
				}
				if !ref.exact || ref.verdict != yes {
					good = true
					continue
				}
				if ref.hasIat {
					good = good || rc.Args == fmt.Sprintf("%s,%q,%d,%d", target.id, ref.jti, ref.iat, ref.exp)
				} else {
					good = good || (strings.HasPrefix(rc.Args, fmt.Sprintf("%s,%q,", target.id, ref.jti)) && strings.HasSuffix(rc.Args, fmt.Sprintf(",%d", ref.exp)))
				}
			}
			if !good {
				x.Fail("not-recorded", "accepted without recording exactly its client, jti, iat, exp: %s; records: %s", q, callList(recs))
			}
			if target != nil {
				for _, m := range w.callsNamed(from, "CreateOrUpdateAuthInfo") {
					if i, _ := m.Obj.(*AuthInfo); i == nil || i.clientId != target.id {
						x.Fail("wrong-client", "assertion of %s acted for another client: %s", target.id, m)
					}
				}
			}
		}
		return o
	}
	if ref.verdict == yes && !replayed {
		x.Fail("refused-good", "valid assertion refused: %s => %s", q, o)
		return o
	}
	switch o.err.code {
	case "invalid_request", "invalid_client", "invalid_grant":
		if o.err.status/100 != 4 {
			x.Fail("wrong-status", "%s => %s", q, o)
		}
	default:
		x.Fail("wrong-error", "%s => %s", q, o)
	}
	if m := w.mutations(from); len(m) > 0 {
		x.Fail("refused-but-changed", "%s => %s but %s", q, o, callList(m))
	}
	return o
}

func c07World(x *X) (*World, *Client, *Client) {
	w := NewWorld(x)
	a := w.AddClient("clienta", "secreta")
	b := w.AddClient("clientb", "secretb")
	w.AddUser(7, "alice", "pw")
	w.users[0].sub = "clienta" // so one assertion can serve both uses
	w.AddUser(8, "bob", "pw")
	w.users[1].sub = "clientb"
	for _, alg := range allAlgs {
		a.akeys[alg+"|k1"] = keyFor(alg, 1).pub
		b.akeys[alg+"|k1"] = keyFor(alg, 2).pub
	}
	a.akeys["HS256|"] = keyFor("HS256", 1).pub
	a.akeys["HS256|k2"] = keyFor("HS256", 3).pub
	return w, a, b
}

var allAlgs = []string{"HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512"}

func c07Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	bound, depth := 2, 4
	if th {
		bound, depth = 3, 5
	}
	var out []*Scenario
	hsHdr := `{"alg":"HS256","typ":"JWT","kid":"k1"}`

	out = append(out, &Scenario{Name: "claims", Bound: bound, Run: func(x *X) {
		asClient := x.Choose("use", 2) == 0
		alg := Pick(x, "alg", allAlgs)
		w, a, b := c07World(x)
		c := PickDev(x, "by", []*Client{a, b})
		sign := alg
		key := keyFor(alg, 1).sign
		if c == b {
			key = keyFor(alg, 2).sign
		}
		kid := PickDev(x, "kid", []string{`"k1"`, `"k2"`, "", `""`, "7", "null", `"K1"`, `"../k1"`})
		halg := PickDev(x, "halg", append([]string{alg}, "none", "NONE", "None", "", "HS256", "RS256", "HS1", strings.ToLower(alg), "ES256K", "absent", "number"))
		switch x.Dev("key", 4) {
		case 1: // the other client's key
			if c == b {
				key = keyFor(alg, 1).sign
			} else {
				key = keyFor(alg, 2).sign
			}
		case 2: // HMAC with the public key's bytes, or an empty key
			sign, key = "HS256", []byte(rsaPEM1)
		case 3:
			sign, key = "HS256", []byte{}
		}
		h := `{"typ":"JWT"`
		switch halg {
		case "absent":
		case "number":
			h += `,"alg":256`
		default:
			h += `,"alg":` + jsonStr(halg)
		}
		if kid != "" {
			h += `,"kid":` + kid
		}
		switch x.Dev("hdr", 4) {
		case 1:
			h += `,"crit":["x"],"jwk":{"kty":"oct","k":"AAAA"},"x5u":"https://evil"`
		case 2:
			h += `,"typ":"x"`
		case 3:
			h += `,"cty":"JWT"`
		}
		h += "}"
		if strings.EqualFold(halg, "none") && x.Dev("nonesig", 2) == 0 {
			sign = "none"
		}
		n := w.now
		I := func(v int64) string { return fmt.Sprint(v) }
		exp := PickDev(x, "exp", []string{I(n + 300), I(n), I(n - 1), I(n + 1), I(n - 300), "0", "1", "-1", "0.5", "", "null", `"` + I(n+300) + `"`, "1e12", I(n-1) + ".9", I(n) + ".5", I(n+300) + ".0", "1.7000003e9", "true", "[" + I(n+300) + "]", "{}", I(n - 3600), I(n - 60), I(n - 5)})
		nbf := PickDev(x, "nbf", []string{"", I(n), I(n + 1), I(n - 1), I(n + 300), "0", `"x"`, "null", I(n + 59)})
		iat := PickDev(x, "iat", []string{"", I(n), I(n + 1), I(n - 1), I(n + 300), "0", `"x"`, "null", "1.5", I(n + 59), I(n - 86400)})
		aud := PickDev(x, "aud", []string{jsonStr(w.issuer), jsonStr(w.issuer + "/"), `""`, "", "null", `"https://other"`, "[" + jsonStr(w.issuer) + "]", `["https://other"]`, "7", jsonStr(strings.ToUpper(w.issuer)), jsonStr(w.issuer[:len(w.issuer)-1]), `"https://op.example.evil"`, "[]", jsonStr(" " + w.issuer)})
		sub := PickDev(x, "sub", []string{jsonStr(c.id), `"clientb"`, `"clienta"`, `"nobody"`, `""`, "", "null", "7", `["clienta"]`, `"CLIENTA"`})
		iss := PickDev(x, "iss", []string{jsonStr(c.id), `"other"`, ""})
		jti := PickDev(x, "jti", []string{`"j1"`, "", "null", "7", `""`, `"` + strings.Repeat("x", 500) + `"`, `"a,b"`, `"\u00e9\""`})
		cl := ""
		add := func(k, v string) {
			if v != "" {
				if cl != "" {
					cl += ","
				}
				cl += `"` + k + `":` + v
			}
		}
		add("iss", iss)
		add("sub", sub)
		add("aud", aud)
		add("exp", exp)
		add("nbf", nbf)
		add("iat", iat)
		add("jti", jti)
		switch x.Dev("dup", 3) {
		case 1:
			add("exp", I(n+1000))
		case 2:
			add("client_id", `"clientb"`)
			add("scope", `"admin"`)
		}
		x.commit()
		s := signJWS(sign, key, h, "{"+cl+"}")
		c07Present(x, w, s, asClient, c)
	}})

	out = append(out, &Scenario{Name: "serialization-edits", Run: func(x *X) {
		asClient := x.Choose("use", 2) == 0
		alg := Pick(x, "alg", []string{"HS256", "RS256", "ES256"})
		w, a, _ := c07World(x)
		h := `{"alg":"` + alg + `","typ":"JWT","kid":"k1"}`
		s := signJWS(alg, keyFor(alg, 1).sign, h, fmt.Sprintf(`{"iss":"clienta","sub":"clienta","aud":%q,"exp":%d,"jti":"j1"}`, w.issuer, w.now+300))
		hdrEnd := strings.Index(s, ".")
		claimEnd := strings.LastIndex(s, ".")
		part := x.Choose("part", 3)
		lo, hi := 0, hdrEnd
		if part == 1 {
			lo, hi = hdrEnd+1, claimEnd
		} else if part == 2 {
			lo, hi = claimEnd+1, len(s)
			if alg == "ES256" { // ECDSA signatures have a fixed length but varying characters
				hi = lo + 86
			}
		}
		i := lo + x.Choose("pos", hi-lo)
		alts := []string{"A", "B", "_", "-", "z", "0", "", "=", ".", "+", "/", " ", "%", "AA", "\x00"}
		if !th {
			alts = []string{"A", "_", "z", "", "=", ".", " "}
		}
		e := Pick(x, "char", alts)
		switch x.Choose("how", 3) {
		case 0:
			s = s[:i] + e + s[i+1:]
		case 1:
			s = s[:i] + e + s[i:]
		case 2:
			s = s[:i]
		}
		c07Present(x, w, s, asClient, a)
	}})

	out = append(out, &Scenario{Name: "shapes", Run: func(x *X) {
		asClient := x.Choose("use", 2) == 0
		w, a, b := c07World(x)
		k := keyFor("HS256", 1).sign
		body := fmt.Sprintf(`{"iss":"clienta","sub":"clienta","aud":%q,"exp":%d,"jti":"j1"}`, w.issuer, w.now+300)
		good := signJWS("HS256", k, hsHdr, body)
		p := strings.Split(good, ".")
		un := signJWS("none", nil, `{"alg":"none","typ":"JWT","kid":"k1"}`, body)
		shapes := []string{good, ".", "..", "...", "a", "a.b", "a.b.c", "a.b.c.d", p[0], p[0] + "." + p[1], p[0] + "." + p[1] + ".", p[0] + ".." + p[2], "." + p[1] + "." + p[2],
			good + ".", good + ".x", "." + good, good + "." + good, un, strings.TrimSuffix(un, "."), un + "AAAA", un + p[2],
			" " + good, good + " ", "Bearer " + good, "bearer " + good, good + "\n", "\x00", "null", "{}", "[]", `{"payload":"x"}`, "e30.e30.", "e30.e30.e30", "bnVsbA.bnVsbA.bnVsbA", "W10.W10.W10",
			signJWS("HS256", k, `null`, body), signJWS("HS256", k, `[]`, body), signJWS("HS256", k, `"x"`, body), signJWS("HS256", k, `{"alg":"HS256","kid":"k1"`, body),
			signJWS("HS256", k, hsHdr, `null`), signJWS("HS256", k, hsHdr, `[]`), signJWS("HS256", k, hsHdr, `"x"`), signJWS("HS256", k, hsHdr, `{}`), signJWS("HS256", k, hsHdr, ``), signJWS("HS256", k, hsHdr, body+"x"), signJWS("HS256", k, hsHdr, body+body), signJWS("HS256", k, hsHdr, body[:len(body)-1]),
			signJWS("HS256", k, ``, body), signJWS("HS256", k, `{}`, body), signJWS("HS256", k, `{"alg":null,"kid":"k1"}`, body), signJWS("HS256", k, `{"alg":["HS256"],"kid":"k1"}`, body), signJWS("HS256", k, `{"alg":"HS256","kid":{"a":1}}`, body),
			signJWS("HS256", k, `{"alg":"HS256","kid":"k1","kid":"k2"}`, body),
			strings.ToUpper(good), strings.ToLower(good), reverse(good), strings.Replace(good, ".", "%2E", -1), strings.Repeat("A", 5000), strings.Repeat(".", 3000)}
		// padded and standard-alphabet base64
		std := func(s string) string {
			raw, _ := base64.RawURLEncoding.DecodeString(s)
			return base64.StdEncoding.EncodeToString(raw)
		}
		shapes = append(shapes, std(p[0])+"."+std(p[1])+"."+std(p[2]), p[0]+"."+p[1]+"."+std(p[2])+"=")
		s := Pick(x, "shape", shapes)
		by := a
		if !asClient && x.Choose("by", 2) == 1 {
			by = b
		}
		c07Present(x, w, s, asClient, by)
	}})

	// what the client registered
	out = append(out, &Scenario{Name: "registrations", Run: func(x *X) {
		asClient := x.Choose("use", 2) == 0
		alg := Pick(x, "alg", []string{"HS256", "RS256", "ES256", "PS256", "none"})
		reg := Pick(x, "registered", []string{"none", "hmac", "rsa", "ec", "empty-hmac", "string", "private-rsa", "other-kid"})
		w, a, _ := c07World(x)
		a.akeys = map[string]interface{}{}
		kid := "k1"
		var key interface{}
		switch reg {
		case "hmac":
			key = keyFor("HS256", 1).pub
		case "rsa":
			key = keyFor("RS256", 1).pub
		case "ec":
			key = keyFor("ES256", 1).pub
		case "empty-hmac":
			key = []byte{}
		case "string":
			key = "shared-secret-1"
		case "private-rsa":
			key = keyFor("RS256", 1).sign
		case "other-kid":
			kid = "k9"
			if alg != "none" {
				key = keyFor(alg, 1).pub
			}
		}
		if key != nil {
			a.akeys[alg+"|"+kid] = key
		}
		var sk interface{}
		sg := alg
		if alg != "none" {
			sk = keyFor(alg, 1).sign
		}
		if reg == "empty-hmac" && alg == "HS256" {
			sk = []byte{}
		}
		s := signJWS(sg, sk, `{"alg":"`+alg+`","kid":"k1"}`, fmt.Sprintf(`{"sub":"clienta","aud":%q,"exp":%d,"jti":"r"}`, w.issuer, w.now+300))
		c07Present(x, w, s, asClient, a)
	}})

	out = append(out, &Scenario{Name: "issuer", Run: func(x *X) {
		asClient := x.Choose("use", 2) == 0
		w, a, _ := c07World(x)
		w.issuer = Pick(x, "issuer", []string{"https://op.example", "https://op.example/", "op", "https://op.example:8443/a?b=c"})
		aud := Pick(x, "edit", edits(w.issuer))
		s := signJWS("HS256", keyFor("HS256", 1).sign, hsHdr, fmt.Sprintf(`{"sub":"clienta","aud":%s,"exp":%d,"jti":"r"}`, jsonStr(aud), w.now+300))
		c07Present(x, w, s, asClient, a)
	}})

	// each claim next to its genuine value
	out = append(out, &Scenario{Name: "claim-edits", Run: func(x *X) {
		asClient := x.Choose("use", 2) == 0
		w, a, b := c07World(x)
		c := a
		sub, jti, iss, kid := "clienta", "j-1", "clienta", "k1"
		exp := fmt.Sprint(w.now + 300)
		switch x.Choose("what", 7) {
		case 0:
			sub = Pick(x, "edit", edits(sub))
		case 1: // as if confusable with another client's name
			v := Pick(x, "edit", edits("clientb"))
			b.id = v
			delete(w.clients, "clientb")
			if v == "" || w.clients[v] != nil || strings.Contains(v, ":") {
				return
			}
			w.clients[v] = b
			w.users[1].sub = v
			sub = Pick(x, "sub", []string{v, "clientb"})
			c = Pick(x, "by", []*Client{a, b})
		case 2:
			jti = Pick(x, "edit", edits(jti))
		case 3:
			iss = Pick(x, "edit", edits(iss))
		case 4:
			kid = Pick(x, "edit", edits(kid))
		case 5:
			exp = Pick(x, "exp", bigNumbers(w.now))
		case 6: // the same user's name a little different
			w.users[0].sub = Pick(x, "edit", edits("clienta"))
			if w.users[0].sub == "" {
				return
			}
		}
		x.commit()
		n := 1
		if c == b {
			n = 2
		}
		s := signJWS("HS256", keyFor("HS256", n).sign, `{"alg":"HS256","kid":`+jsonStr(kid)+`}`,
			fmt.Sprintf(`{"iss":%s,"sub":%s,"aud":%q,"exp":%s,"iat":%d,"jti":%s}`, jsonStr(iss), jsonStr(sub), w.issuer, exp, w.now-5, jsonStr(jti)))
		if o := c07Present(x, w, s, asClient, c); o.ok { // and again
			c07Present(x, w, s, asClient, c)
		}
	}})

	// replays: histories over several assertions, uses, clients and times
	out = append(out, &Scenario{Name: "replay-histories", Unit: 4, Loop: true, Run: func(x *X) {
		w, a, b := c07World(x)
		t0 := w.now
		mk := func(c *Client, n int, jti string, iat bool, exp int64) string {
			i := ""
			if iat {
				i = fmt.Sprintf(`"iat":%d,`, t0)
			}
			return signJWS("HS256", keyFor("HS256", n).sign, hsHdr, fmt.Sprintf(`{"sub":%q,"aud":%q,%s"exp":%d,"jti":%q}`, c.id, w.issuer, i, exp, jti))
		}
		as := []string{mk(a, 1, "j1", false, t0+50), mk(a, 1, "j1", true, t0+50), mk(a, 1, "j2", false, t0+100), mk(b, 2, "j1", false, t0+50), mk(a, 1, "j1", false, t0+51)}
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 9)
			x.Stepf("op%d", op)
			switch {
			case op < 3 || op == 4:
				c07Present(x, w, as[op], true, a)
			case op == 3:
				c07Present(x, w, as[3], true, b)
			case op == 5:
				c07Present(x, w, as[0], false, a)
			case op == 6:
				c07Present(x, w, as[3], false, b)
			case op == 7:
				w.setNow(w.now + 30)
			case op == 8:
				a.akeys["HS256|k1"], b.akeys["HS256|k1"] = b.akeys["HS256|k1"], a.akeys["HS256|k1"]
			}
		}
	}})

	// concurrent presentations of one assertion
	pb := 2
	if th {
		pb = 3
	}
	out = append(out, &Scenario{Name: "replay-concurrent", Bound: pb, Unit: 9, Run: func(x *X) {
		w, a, _ := c07World(x)
		s := signJWS("HS256", keyFor("HS256", 1).sign, hsHdr, fmt.Sprintf(`{"sub":"clienta","aud":%q,"exp":%d,"jti":"r"}`, w.issuer, w.now+300))
		te := w.TokenEndpoint()
		te.AcceptClientAssertion(true)
		n := 2 + x.Choose("n", 2)
		rs := make([]*Resp, n)
		uses := make([]int, n)
		for i := range uses {
			uses[i] = x.Choose("use", 2)
		}
		w.sched = NewSched(x, x.Choose("fine", 2) == 1, true)
		var bodies []func()
		for i := 0; i < n; i++ {
			i := i
			bodies = append(bodies, func() {
				if uses[i] == 0 {
					rs[i] = w.Token(te, &Req{method: "POST", path: "/token", body: kvs{{"grant_type", "client_credentials"}, {"client_assertion_type", assertionType}, {"client_assertion", s}}})
				} else {
					rs[i] = w.Token(te, tokenReq(a.id, a.secret, kv{"grant_type", jwtGrant}, kv{"assertion", s}))
				}
			})
		}
		w.sched.Run(bodies...)
		w.sched = nil
		ok := 0
		for _, r := range rs {
			if readToken(r).ok {
				ok++
			}
		}
		if ok != 1 {
			x.Fail("accepted-concurrent-replay", "%d of %d concurrent presentations of one assertion accepted: %s", ok, n, callList(w.calls))
		}
	}})
	return withDict(out, tier, false, "!claims")
}
