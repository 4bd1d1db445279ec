package main

import (
	"crypto/sha256"
	"encoding/base64"
	"strings"

	"github.com/lyokato/goidc/authorization"
)

// C04: PKCE.

func init() {
	register(&Check{
		ID:        "C04",
		Rule:      "every verifier of the menu x every challenge method and challenge in the neighbourhoods of the right ones x placement, alone and in histories of failing and succeeding redemptions of several codes; and end-to-end runs of every code-issuing flow from the authorization request to the redemption",
		Scenarios: c04Scenarios,
	})
}

func c04Right(method, challenge, verifier string) bool {
	switch method {
	case "plain":
		return challenge == verifier
	case "S256":
		s := sha256.Sum256([]byte(verifier))
		return challenge == base64.RawURLEncoding.EncodeToString(s[:])
	}
	return false
}

func c04Redeem(x *X, w *World, q *Req, s *Session) tokenOutcome {
	hr := q.parsed(w)
	m, c := hr.FormValue("code_challenge_method"), hr.FormValue("code_challenge")
	var wants []ErrWant
	switch {
	case s.disabled:
		wants = []ErrWant{wInvalidGrant}
	case s.verifier != "" && !(m != "" && c != "" && c04Right(m, c, s.verifier)):
		wants = []ErrWant{wInvalidRequest, wInvalidGrant}
	}
	if hr.FormValue("code") != s.code || hr.FormValue("redirect_uri") != s.redir {
		wants = append(wants, wInvalidRequest, wInvalidGrant)
	}
	was := s.disabled
	from := len(w.calls)
	r := w.Token(w.TokenEndpoint(), q)
	o := expectToken(x, "pkce", q, r, wants)
	if len(wants) > 0 {
		if s.disabled != was {
			x.Fail("code-consumed", "%s refused but consumed the code", q)
		}
		if m := w.callsNamed(from, "CreateOAuthToken"); len(m) > 0 {
			x.Fail("token-issued", "%s refused but issued a token", q)
		}
	}
	return o
}

var pkceVerifiers = []string{"dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk", "", "a", "S256", "plain", strings.Repeat("Az09-._~", 16), "sp ace+%&=", "\u00e9\u4e16"}

func c04Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	depth := 4
	if th {
		depth = 6
	}
	setup := func(x *X, verifier string) (*World, *Client, *Session) {
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		i := w.AddInfo(1, a.id, "openid")
		s := w.AddSession(i, "codeone", uriMenu[0])
		s.verifier = verifier
		return w, a, s
	}
	base := func(a *Client, code string, ps ...kv) *Req {
		return tokenReq(a.id, a.secret, append(kvs{{"grant_type", "authorization_code"}, {"code", code}, {"redirect_uri", uriMenu[0]}}, ps...)...)
	}
	s256 := func(v string) string {
		s := sha256.Sum256([]byte(v))
		return base64.RawURLEncoding.EncodeToString(s[:])
	}
	methods := []string{"plain", "S256", "", "PLAIN", "Plain", "s256", "S512", "S256 ", " plain", "none", "plainS256", "S25", "null"}
	var out []*Scenario
	out = append(out, &Scenario{Name: "challenges", Run: func(x *X) {
		v := Pick(x, "verifier", pkceVerifiers)
		m := Pick(x, "method", methods)
		kind := Pick(x, "near", []string{"plain", "S256", "other"})
		w, a, s := setup(x, v)
		var c string
		sum := sha256.Sum256([]byte(v))
		switch kind {
		case "plain":
			c = Pick(x, "edit", edits(v))
		case "S256":
			c = Pick(x, "edit", edits(s256(v)))
		default:
			c = Pick(x, "other", []string{base64.URLEncoding.EncodeToString(sum[:]), base64.RawStdEncoding.EncodeToString(sum[:]), base64.StdEncoding.EncodeToString(sum[:]),
				string(sum[:]), s256(s256(v)), s256(""), s256(v + "\n"), strings.ToUpper(s256(v)), s256("S256" + v), "codeone", "clienta", hexs(sum[:])})
		}
		var ps kvs
		cm, cc := kv{"code_challenge_method", m}, kv{"code_challenge", c}
		q := base(a, "codeone")
		switch x.Choose("where", 6) {
		case 0:
			ps = kvs{cm, cc}
		case 1:
			ps = kvs{cc}
		case 2:
			ps = kvs{cm}
		case 3:
			q.query = kvs{cm, cc}
		case 4: // first value counts
			ps = kvs{cm, cc, {"code_challenge", v}, {"code_challenge_method", "plain"}}
		case 5:
			ps = kvs{cm, cc, {"code_verifier", c}}
		}
		q.body = append(q.body, ps...)
		o := c04Redeem(x, w, q, s)
		if !o.ok && !s.disabled {
			// not consumed: the right challenge still works
			c04Redeem(x, w, base(a, "codeone", kv{"code_challenge_method", "S256"}, kv{"code_challenge", s256(v)}), s)
		}
	}})
	// whatever else belongs to the code, the client and the endpoint
	cb := 2
	if th {
		cb = 4
	}
	out = append(out, &Scenario{Name: "contexts", Bound: cb, Run: func(x *X) {
		v := PickDev(x, "verifier", pkceVerifiers)
		w, a, s := setup(x, v)
		q := base(a, "codeone")
		m, c := Pick(x, "method", []string{"S256", "plain", "", "S512"}), ""
		switch x.Choose("challenge", 5) {
		case 0:
			c = s256(v)
		case 1:
			c = v
		case 2:
			c = "wrong"
		case 4:
			m, c = "S256", s256("other")
		}
		if m != "" {
			q.body = append(q.body, kv{"code_challenge_method", m})
		}
		if c != "" {
			q.body = append(q.body, kv{"code_challenge", c})
		}
		i := w.infos[1]
		i.scope = PickDev(x, "scope", []string{"openid", "openid offline_access", "", "profile", "offline_access"})
		s.nonce = PickDev(x, "nonce", []string{"", "n-1"})
		s.expiresIn = PickDev(x, "life", []int64{60, 0, 86400})
		s.authTime = PickDev(x, "auth-time", []int64{s.authTime, 0})
		w.alwaysRT = x.Dev("refresh", 2) == 1
		switch x.Dev("client", 4) {
		case 1:
			a.secret = "x"
			q.header[0] = basicHeader(a.id, "x")
		case 2:
			a.grants = map[string]bool{"authorization_code": true}
		case 3:
			a.alg, a.key = "RS256", keyFor("RS256", 1).sign
		}
		if x.Dev("other-code", 2) == 1 {
			w.AddSession(i, "codetwo", uriMenu[0])
		}
		c04Redeem(x, w, q, s)
	}})
	out = append(out, &Scenario{Name: "histories", Unit: 4, Loop: true, Run: func(x *X) {
		v := Pick(x, "verifier", []string{pkceVerifiers[0], ""})
		w, a, s := setup(x, v)
		s2 := w.AddSession(w.infos[1], "codetwo", uriMenu[0])
		s2.verifier = "other-verifier-other-verifier-other-verifier"
		s3 := w.AddSession(w.infos[1], "codethree", uriMenu[0])
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 10)
			x.Stepf("op%d", op)
			ch := func(m, c string) kvs { return kvs{{"code_challenge_method", m}, {"code_challenge", c}} }
			switch op {
			case 0:
				c04Redeem(x, w, base(a, "codeone", ch("plain", v)...), s)
			case 1:
				c04Redeem(x, w, base(a, "codeone", ch("S256", s256(v))...), s)
			case 2:
				c04Redeem(x, w, base(a, "codeone"), s)
			case 3:
				c04Redeem(x, w, base(a, "codeone", ch("plain", s2.verifier)...), s)
			case 4:
				c04Redeem(x, w, base(a, "codetwo", ch("plain", v)...), s2)
			case 5:
				c04Redeem(x, w, base(a, "codetwo", ch("S256", s256(s2.verifier))...), s2)
			case 6:
				c04Redeem(x, w, base(a, "codethree"), s3)
			case 7:
				c04Redeem(x, w, base(a, "codethree", ch("S256", "x")...), s3)
			case 8:
				c04Redeem(x, w, base(a, "codetwo", ch("S256", s2.verifier)...), s2)
			case 9:
				c04Redeem(x, w, base(a, "codeone", ch("plain", s256(v))...), s)
			}
		}
	}})
	// from the authorization request to the redemption, in every code-issuing flow
	out = append(out, &Scenario{Name: "end-to-end", Run: func(x *X) {
		v := Pick(x, "verifier", pkceVerifiers)
		rt := Pick(x, "rt", []string{"code", "code id_token", "code token", "code id_token token"})
		how := x.Choose("how", 4) // consent, consent with encoded hand-over, without consent, prompt=none
		mode := x.Choose("mode", 2)
		place := x.Choose("place", 2)
		w := newAZ(x)
		p := azBase(rt)
		if v != "" {
			p = p.with("code_verifier", v)
		}
		if mode == 1 {
			p = p.with("response_mode", "form_post")
		}
		if how >= 2 {
			w.a.ncp, w.a.np = 1, 1
			w.AddInfo(7, "clienta", "openid profile")
		}
		if how == 3 {
			p = p.with("prompt", "none")
		}
		q := azGet(p)
		if place == 1 {
			q = &Req{method: "POST", path: "/authorize", body: p}
		}
		ae := w.AuthzEndpoint(w.pol)
		cb := w.cb()
		r := w.Authorize(ae, q, cb)
		if how < 2 {
			if len(cb.consents) != 1 {
				x.Fail("flow-refused", "%s => %s", q, readOutcome(r, cb, cbA))
				return
			}
			c2 := w.cb()
			c2.cont = cb.consents[0]
			if how == 1 {
				c2.cont = authorization.DecodeRequest(c2.cont.Encode())
			}
			cb = c2
			r = w.Complete(ae, azGet(nil), cb)
		}
		out := readAuthz(r, cbA)
		code := out.params["code"]
		s := w.sessions[code]
		if s == nil {
			x.Fail("flow-no-code", "%s => %s", q, out)
			return
		}
		if s.verifier != v {
			x.Fail("verifier-stored", "%s: verifier %q stored as %q", q, v, s.verifier)
			s.verifier = v
		}
		red := func(ps ...kv) *Req {
			return tokenReq("clienta", "secreta", append(kvs{{"grant_type", "authorization_code"}, {"code", code}, {"redirect_uri", cbA}}, ps...)...)
		}
		w.setNow(w.now + 5)
		switch x.Choose("redeem", 5) {
		case 0:
			c04Redeem(x, w.World, red(), s)
		case 1:
			c04Redeem(x, w.World, red(kv{"code_challenge_method", "plain"}, kv{"code_challenge", v + "x"}), s)
		case 2:
			c04Redeem(x, w.World, red(kv{"code_challenge_method", "S256"}, kv{"code_challenge", v}), s)
		case 3:
			c04Redeem(x, w.World, red(kv{"code_challenge_method", "plain"}, kv{"code_challenge", v}), s)
		}
		c04Redeem(x, w.World, red(kv{"code_challenge_method", "S256"}, kv{"code_challenge", s256(v)}), s)
	}})
	out = withPerturb(out, tier, "@contexts")
	return withDict(out, tier, true, "contexts")
}

func hexs(b []byte) string {
	const d = "0123456789abcdef"
	var o []byte
	for _, c := range b {
		o = append(o, d[c>>4], d[c&15])
	}
	return string(o)
}
