package main

import (
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
)

// C15: ID tokens.

func init() {
	register(&Check{
		ID:          "C15",
		Rule:        "every issuing flow x signing algorithm x deviation-bounded choice of key, key id, issuer, client, subject, nonce, login time, lifetimes, clock, scope and token values, on the real endpoints; every ID token is verified and decoded with an independent implementation and compared with the login it was issued for; unusable keys must fail the request",
		Assumptions: []string{"a claim that is empty in the request may be present empty or absent"},
		Scenarios:   c15Scenarios,
	})
}

type idtWant struct {
	alg, kid           string
	pub                interface{}
	iss, aud, sub      string
	nonce              string
	authTime, iat, exp int64
	at, code           string // hashed when non-empty
}

func c15Hash(alg, v string) []byte {
	h := hashFor(alg)()
	h.Write([]byte(v))
	s := h.Sum(nil)
	return s[:len(s)/2]
}

func c15Token(x *X, what, tok string, w idtWant) {
	hdr, cl, err := verifyJWS(tok, w.alg, w.pub)
	if err != nil {
		x.Fail("signature", "%s: ID token %s does not verify under %s: %v", what, tok, w.alg, err)
		return
	}
	if k, _ := hdr["kid"].(string); k != w.kid {
		x.Fail("kid", "%s: kid %v, client's key id is %q", what, hdr["kid"], w.kid)
	}
	str := func(k, want string) {
		g, has := cl[k].(string)
		if k == "aud" && !has {
			if l, ok := cl[k].([]interface{}); ok && len(l) == 1 {
				g, has = l[0].(string)
			}
		}
		if g != want || (!has && want != "") {
			x.Fail("claim/"+k, "%s: %s is %v, want %q", what, k, cl[k], want)
		}
	}
	str("iss", w.iss)
	str("aud", w.aud)
	str("sub", w.sub)
	str("nonce", w.nonce)
	n := func(k string, want int64) {
		if g, ok := num(cl[k]); !ok || g != want {
			x.Fail("claim/"+k, "%s: %s is %v, want %d", what, k, cl[k], want)
		}
	}
	n("iat", w.iat)
	n("exp", w.exp)
	n("auth_time", w.authTime)
	hash := func(k, v string) {
		g, has := cl[k].(string)
		if v == "" {
			if _, any := cl[k]; any {
				x.Fail("claim/"+k+"-extra", "%s: %s %v though nothing to hash accompanies the token", what, k, cl[k])
			}
			return
		}
		if !has {
			x.Fail("claim/"+k+"-missing", "%s: no %s", what, k)
			return
		}
		want := c15Hash(w.alg, v)
		switch g {
		case base64.RawURLEncoding.EncodeToString(want):
		case base64.StdEncoding.EncodeToString(want):
			x.Fail("hash-padded-std-base64", "%s: %s is %q, padded standard base64 of the right digest instead of unpadded base64url", what, k, g)
		default:
			x.Fail("claim/"+k, "%s: %s is %q, want %q", what, k, g, base64.RawURLEncoding.EncodeToString(want))
		}
	}
	hash("at_hash", w.at)
	hash("c_hash", w.code)
	for k := range cl {
		switch k {
		case "iss", "aud", "sub", "nonce", "iat", "exp", "auth_time", "at_hash", "c_hash", "jti", "azp":
		default:
			x.Fail("claim-unknown", "%s: claim %s=%v", what, k, cl[k])
		}
	}
	if a, has := cl["azp"]; has && a != w.aud {
		x.Fail("claim/azp", "%s: azp %v", what, a)
	}
}

var idtAlgs = []string{"HS256", "RS256", "ES256", "HS384", "HS512", "RS384", "RS512", "ES384", "ES512", "PS256"}

// unusable keys and algorithms: the ID token cannot be signed.
func c15BadKeys() []struct {
	alg string
	key interface{}
} {
	return []struct {
		alg string
		key interface{}
	}{
		{"HS256", nil}, {"HS256", "a string"}, {"HS256", 17}, {"RS256", nil}, {"RS256", []byte("secret")}, {"RS256", keyFor("RS256", 1).pub},
		{"RS256", keyFor("ES256", 1).sign}, {"ES256", keyFor("RS256", 1).sign}, {"ES256", nil}, {"", []byte("k")}, {"bogus", []byte("k")}, {"hs256", []byte("k")},
		{"none", []byte("k")}, {"none", nil}, {"HS257", []byte("k")}, {"XX256", []byte("k")}, {"RS512", "x"}, {"ES384", keyFor("ES256", 1).sign}, {"ES256", keyFor("ES512", 1).sign},
	}
}

func c15Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	algs, bound := idtAlgs[:6], 2
	if th {
		algs, bound = idtAlgs, 3
	}
	rts := []string{"id_token", "id_token token", "code id_token", "code id_token token", "code token", "code", "token"}
	type cfg struct {
		subj  string
		now   int64
		nonce string
		at    int64
	}
	common := func(x *X, w *azWorld, c *Client, alg string) cfg {
		var g cfg
		k := keyFor(alg, 1+x.Dev("key", 2))
		c.alg, c.key = alg, k.sign
		c.kid = PickDev(x, "kid", []string{"kid-1", "", "k\"é id"})
		w.issuer = PickDev(x, "iss", []string{"https://op.example", "", "https://op.example/tenant?x=1&y", "clienta"})
		g.subj = PickDev(x, "sub", []string{"sub-7-clienta", "", "7", "é\"\\u0000<>", "clienta"})
		w.subjectOf = func(uid int64, cid string) string { return g.subj }
		g.nonce = PickDev(x, "nonce", []string{"n-1", "", "é\"<&>\\", "st-1", "0"})
		g.now = PickDev(x, "now", absTimes)
		w.setNow(g.now)
		g.at = w.now - PickDev(x, "auth-age", []int64{10, 0, 1, 1000000, -5})
		if x.Dev("auth-zero", 2) == 1 {
			g.at = 0
		}
		if x.Dev("names", 2) == 1 {
			w.tokName = func(k string, n int) string { return k + "é/+=" + strings.Repeat("x", 200) }
		}
		return g
	}
	pubOf := func(c *Client) interface{} {
		for _, n := range []int{1, 2} {
			k := keyFor(c.alg, n)
			if fmt.Sprintf("%p%s", k.sign, k.sign) == fmt.Sprintf("%p%s", c.key, c.key) {
				return k.pub
			}
		}
		panic(harnessError{"key"})
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "authorization", Bound: bound, Run: func(x *X) {
		alg := Pick(x, "alg", algs)
		rt := Pick(x, "rt", rts)
		w := newAZ(x)
		c := w.a
		rq := c12Req(x, rt)
		if x.Dev("client", 2) == 1 {
			c = w.b
			rq.ClientId, rq.RedirectURI = "clientb", cbB
		}
		g := common(x, w, c, alg)
		rq.Nonce = g.nonce
		rq.Scope = PickDev(x, "scope", []string{"openid profile", "openid", "", "profile"})
		rq.State = PickDev(x, "state", []string{"st-1", ""})
		rq.ResponseMode = PickDev(x, "mode", []string{"fragment", "form_post", "query"})
		w.pol.IdTokenExpiresIn = PickDev(x, "life", []int{86400, 1, 0, 60, 1 << 31, 9999999999, 1 << 40})
		w.pol.AuthSessionExpiresIn = 77
		w.idtLife = 78
		w.aLife = 79
		cb := w.cb()
		cb.uid, cb.authTime = 7, g.at
		cb.cont = rq
		if x.Dev("without-consent", 2) == 1 {
			c.ncp = 1
			w.AddInfo(7, c.id, rq.Scope).authAt = w.now - 5
		}
		r := w.Complete(w.AuthzEndpoint(w.pol), azGet(nil), cb)
		o := readAuthz(r, rq.RedirectURI)
		what := fmt.Sprintf("%s %s", alg, showReq(rq))
		if _, bad := o.params["error"]; bad && x.pert != nil {
			return
		} else if bad || o.kind == "bad" || o.kind == "none" {
			x.Fail("refused", "%s => %s", what, o)
			return
		}
		it, has := o.params["id_token"]
		if has != rq.Flow.RequireIdToken {
			x.Fail("presence", "%s => %s", what, o)
		}
		if has {
			c15Token(x, what, it, idtWant{alg: alg, kid: c.kid, pub: pubOf(c), iss: w.issuer, aud: c.id, sub: g.subj, nonce: rq.Nonce,
				authTime: cb.authTime, iat: w.now, exp: w.now + int64(w.pol.IdTokenExpiresIn), at: o.params["access_token"], code: o.params["code"]})
		}
	}})
	scopes := []string{"openid profile", "openid offline_access", "openid", "profile", "", "openid2", "xopenid", "OPENID", "open id", "profile openid email", "email openid", "openid,profile", "OpenID profile"}
	out = append(out, &Scenario{Name: "token-endpoint", Bound: bound, Run: func(x *X) {
		alg := Pick(x, "alg", algs)
		sc := Pick(x, "scope", scopes)
		w := newAZ(x)
		c := w.a
		if x.Dev("client", 2) == 1 {
			c = w.b
		}
		g := common(x, w, c, alg)
		i := w.AddInfo(7, c.id, sc)
		s := w.AddSession(i, "code-1", cbA)
		s.nonce, s.authTime = g.nonce, g.at
		s.idtExp = PickDev(x, "life", []int64{600, 1, 0, 86400, 1 << 31, 9999999999, 1 << 40})
		s.expiresIn = 5000
		w.aLife = 79
		// another user's records nearby
		w.subjectOf = func(uid int64, cid string) string { return "other" }
		w.AddSession(w.AddInfo(8, c.id, sc), "code-2", cbA)
		w.setNow(w.now + PickDev(x, "delay", []int64{0, 1, 59, 4000}))
		r := w.Token(w.TokenEndpoint(), tokenReq(c.id, c.secret, kv{"grant_type", "authorization_code"}, kv{"code", s.code}, kv{"redirect_uri", s.redir}))
		o := readToken(r)
		what := fmt.Sprintf("%s code exchange, scope %q", alg, sc)
		if !o.ok && x.pert != nil {
			return
		}
		sc = i.scope
		if !o.ok {
			x.Fail("refused", "%s => %s", what, o)
			return
		}
		it, has := o.obj["id_token"].(string)
		if has != hasToken(sc, "openid") {
			x.Fail("presence", "%s => %s", what, o)
		}
		if has {
			want := idtWant{alg: alg, kid: c.kid, pub: pubOf(c), iss: w.issuer, aud: c.id, sub: i.subject, nonce: s.nonce,
				authTime: s.authTime, iat: w.now, exp: w.now + s.idtExp}
			if _, cl, err := verifyJWS(it, want.alg, want.pub); err == nil {
				if _, h := cl["at_hash"]; h {
					want.at = o.obj["access_token"].(string) // optional here
				}
			}
			c15Token(x, what, it, want)
		}
	}})
	// the whole way: values given at authorization arrive in the token endpoint's ID token
	out = append(out, &Scenario{Name: "end-to-end", Bound: bound, Run: func(x *X) {
		alg := Pick(x, "alg", algs[:3])
		rt := Pick(x, "rt", []string{"code", "code id_token", "code token", "code id_token token"})
		w := newAZ(x)
		g := common(x, w, w.a, alg)
		if g.nonce == "" && azFlows[rt].idtk {
			return
		}
		w.idtLife = 321
		ae := w.AuthzEndpoint(w.pol)
		p := azBase(rt).with("nonce", g.nonce)
		cb := w.cb()
		cb.authTime = g.at
		w.Authorize(ae, azGet(p), cb)
		if len(cb.consents) != 1 {
			x.Fail("refused", "no consent screen for %v", p)
			return
		}
		c2 := w.cb()
		c2.authTime = g.at
		c2.cont = authorization.DecodeRequest(cb.consents[0].Encode())
		if x.Dev("time-passes", 2) == 1 {
			w.setNow(w.now + 20)
		}
		r := w.Complete(ae, azGet(nil), c2)
		o := readAuthz(r, cbA)
		if it := o.params["id_token"]; it != "" {
			c15Token(x, "end-to-end "+alg+" "+rt, it, idtWant{alg: alg, kid: w.a.kid, pub: pubOf(w.a), iss: w.issuer, aud: "clienta", sub: g.subj, nonce: g.nonce,
				authTime: g.at, iat: w.now, exp: w.now + int64(w.pol.IdTokenExpiresIn), at: o.params["access_token"], code: o.params["code"]})
		}
		w.setNow(w.now + 7)
		to := readToken(w.Token(w.TokenEndpoint(), tokenReq("clienta", "secreta", kv{"grant_type", "authorization_code"}, kv{"code", o.params["code"]}, kv{"redirect_uri", cbA})))
		it, has := to.obj["id_token"].(string)
		if !has {
			x.Fail("presence", "end-to-end %s: %s", rt, to)
			return
		}
		c15Token(x, "end-to-end exchange "+alg+" "+rt, it, idtWant{alg: alg, kid: w.a.kid, pub: pubOf(w.a), iss: w.issuer, aud: "clienta", sub: g.subj, nonce: g.nonce,
			authTime: g.at, iat: w.now, exp: w.now + 321})
	}})
	out = append(out, &Scenario{Name: "unusable-keys", Run: func(x *X) {
		bk := c15BadKeys()
		k := bk[x.Choose("key", len(bk))]
		w := newAZ(x)
		w.a.alg, w.a.key = k.alg, k.key
		what := fmt.Sprintf("alg %q key %T", k.alg, k.key)
		if n := x.Choose("flow", 8); n < 7 {
			rq := c12Req(x, rts[n])
			rq.ResponseMode = "form_post"
			cb := w.cb()
			cb.cont = rq
			r := w.Complete(w.AuthzEndpoint(w.pol), azGet(nil), cb)
			o := readAuthz(r, cbA)
			if r.panic_ != "" {
				x.Fail("panic", "%s %s: %s", what, rts[n], r)
				return
			}
			if rq.Flow.RequireIdToken {
				if o.params["error"] != "server_error" || o.params["code"] != "" || o.params["access_token"] != "" {
					x.Fail("unsigned-answered", "%s %s => %s", what, rts[n], o)
				}
				if r.ret {
					x.Fail("unsigned-reported-success", "%s %s", what, rts[n])
				}
			} else if _, bad := o.params["error"]; bad {
				x.Fail("refused", "%s %s => %s", what, rts[n], o)
			}
			return
		}
		sc := Pick(x, "scope", []string{"openid", "profile openid", "profile", "openid offline_access", "offline_access", "email openid profile"})
		i := w.AddInfo(7, "clienta", sc)
		ses := w.AddSession(i, "code-1", cbA)
		switch x.Choose("session", 4) {
		case 1:
			ses.nonce = "n-1"
		case 2:
			w.alwaysRT = true
		case 3:
			ses.idtExp = 0
		}
		r := w.Token(w.TokenEndpoint(), tokenReq("clienta", "secreta", kv{"grant_type", "authorization_code"}, kv{"code", "code-1"}, kv{"redirect_uri", cbA}))
		o := readToken(r)
		if hasToken(sc, "openid") {
			if o.ok || o.bad != "" || o.err != wServerError {
				x.Fail("unsigned-answered", "%s code exchange => %s", what, o)
			}
			if l := w.leaks(r); len(l) > 0 {
				x.Fail("unsigned-leak", "%s reveals %v", what, l)
			}
		} else if !o.ok {
			x.Fail("refused", "%s code exchange without openid => %s", what, o)
		}
	}})
	// refreshes and direct grants issue none; several logins on one endpoint do not mix
	depth := 3
	if th {
		depth = 5
	}
	out = append(out, &Scenario{Name: "histories", Unit: 3, Loop: true, Run: func(x *X) {
		w := newAZ(x)
		w.subjectOf = func(uid int64, cid string) string { return fmt.Sprintf("s-%d-%s", uid, cid) }
		w.b.alg, w.b.key, w.b.kid = "ES256", keyFor("ES256", 1).sign, "kb"
		w.a.key = keyFor("HS256", 1).sign
		ae, te := w.AuthzEndpoint(w.pol), w.TokenEndpoint()
		type done struct {
			code, ruri string
			c          *Client
			uid        int64
			nonce      string
			at         int64
			scope      string
		}
		var ds []done
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 8)
			x.Stepf("op%d", op)
			switch {
			case op < 6:
				c, ru := w.a, cbA
				if op%2 == 1 {
					c, ru = w.b, cbB
				}
				uid := int64(7 + op/3)
				rq := &authorization.Request{Flow: &flow.Flow{Type: flow.Hybrid, RequireAccessToken: true, RequireIdToken: true}, ClientId: c.id, RedirectURI: ru,
					Scope: "openid", ResponseMode: "fragment", Nonce: fmt.Sprintf("n%d-%d", d, op)}
				if op == 4 {
					rq.Flow = &flow.Flow{Type: flow.AuthorizationCode}
					rq.Scope = "profile"
				}
				cb := w.cb()
				cb.uid, cb.cont, cb.authTime = uid, rq, w.now-int64(op)
				r := w.Complete(ae, azGet(nil), cb)
				o := readAuthz(r, ru)
				if it := o.params["id_token"]; it != "" {
					c15Token(x, showReq(rq), it, idtWant{alg: c.alg, kid: c.kid, pub: pubOf(c), iss: w.issuer, aud: c.id, sub: fmt.Sprintf("s-%d-%s", uid, c.id), nonce: rq.Nonce,
						authTime: cb.authTime, iat: w.now, exp: w.now + int64(w.pol.IdTokenExpiresIn), at: o.params["access_token"], code: o.params["code"]})
				}
				ds = append(ds, done{o.params["code"], ru, c, uid, rq.Nonce, cb.authTime, rq.Scope})
			case op == 6:
				w.setNow(w.now + 10)
			case op == 7 && len(ds) > 0:
				e := ds[0]
				ds = ds[1:]
				to := readToken(w.Token(te, tokenReq(e.c.id, e.c.secret, kv{"grant_type", "authorization_code"}, kv{"code", e.code}, kv{"redirect_uri", e.ruri})))
				it, has := to.obj["id_token"].(string)
				i := w.findInfo(e.uid, e.c.id)
				if has != hasToken(i.scope, "openid") {
					x.Fail("presence", "scope %q => %s", i.scope, to)
				}
				if has {
					c15Token(x, "exchange of "+e.code, it, idtWant{alg: e.c.alg, kid: e.c.kid, pub: pubOf(e.c), iss: w.issuer, aud: e.c.id, sub: fmt.Sprintf("s-%d-%s", e.uid, e.c.id),
						nonce: e.nonce, authTime: e.at, iat: w.now, exp: w.now + w.idtLife})
				}
			}
		}
	}})
	out = withPerturb(out, tier, "!$authorization", "!token-endpoint")
	return withDict(out, tier, false, "!end-to-end", "!token-endpoint")
}
