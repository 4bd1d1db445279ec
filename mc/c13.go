package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/prompt"
)

// C13: no authorization without the required login and consent.

func init() {
	register(&Check{
		ID:   "C13",
		Rule: "every combination of prompt, session, fresh login, session age, client policies, hints and earlier grant from the menus, every session and grant age around the limits, every neighbour of granted scope and hint, and every history of logins, consents, cancellations, revocations and clock steps up to the depth, on the real endpoint against a reference decision table",
		Assumptions: []string{
			"with several unmet conditions under prompt=none any of their errors is accepted",
			"max_age at least 1 (MinMaxAge positive)", "an id_token_hint whose aud or iss is not this client or issuer may be accepted or refused",
		},
		Scenarios: c13Scenarios,
	})
}

func c13Ask(x *X, w *azWorld, ae *goidc.AuthorizationEndpoint, q *Req, cb *CB, hintOK, hintLoose bool) azGot {
	if ae == nil {
		ae = w.AuthzEndpoint(w.pol)
	}
	ref := azValidate(w.World, w.pol, q, cb)
	if ref.screen || len(ref.errs) > 0 {
		if x.pert != nil {
			return azGot{}
		}
		panic(harnessError{fmt.Sprintf("C13 request does not validate: %s: %v", q, ref.errs)})
	}
	wants := []azWant{azInteract(w.World, w.pol, cb, ref.client, ref.req, hintOK)}
	if hintLoose {
		wants = append(wants, azInteract(w.World, w.pol, cb, ref.client, ref.req, !hintOK))
	}
	from := len(w.calls)
	r := w.Authorize(ae, q, cb)
	g := readOutcome(r, cb, ref.ruri)
	if g.kind == "bad" {
		x.Fail("malformed", "%s => %s", q, g)
		return g
	}
	ok := false
	for _, k := range wants {
		ok = ok || g.kind == k.kind && (g.kind != "error" || k.errs[g.out.params["error"]])
	}
	if !ok {
		key := g.kind + "-for-" + wants[0].kind
		if g.kind == "error" && wants[0].kind == "error" {
			key = "wrong-error"
		}
		info := w.findInfo(cb.uid, ref.client.id)
		is := "none"
		if info != nil {
			is = fmt.Sprintf("scope %q, %d s old, active %v", info.scope, w.now-info.authAt, info.active)
		}
		x.Fail(key, "%s [session %v, fresh login %v, login age %d, none-policy %d, consent-policy %d, grant: %s] => %s, want %v", q,
			cb.login, cb.fromLogin, w.now-cb.authTime, ref.client.np, ref.client.ncp, is, g, wants)
	}
	if g.kind != "complete" {
		if m := w.mutations(from); len(m) > 0 {
			x.Fail("not-completed-but-issued", "%s => %s: %s", q, g, callList(m))
		}
	} else {
		for _, c := range w.calls[from:] {
			if c.Name == "CreateOrUpdateAuthInfo" {
				x.Fail("grant-changed", "%s completed without consent, but %s", q, c)
			}
			var aid int64
			switch o := c.Obj.(type) {
			case *Session:
				aid = o.authId
			case *Token:
				aid = o.authId
			default:
				continue
			}
			if mutators[c.Name] && (w.infos[aid].uid != cb.uid || w.infos[aid].clientId != ref.client.id) {
				x.Fail("wrong-grant", "%s completed for user %d with %s", q, cb.uid, c)
			}
		}
	}
	return g
}

// hint builds an ID token for user sub as this provider would have issued it to client c.
func (w *World) hint(c *Client, claims string) string {
	w.x.commit()
	k := c.key
	if len(c.alg) > 0 && c.alg[0] != 'H' {
		k = keyFor(c.alg, 1).sign
	}
	return signJWS(c.alg, k, fmt.Sprintf(`{"alg":%q,"typ":"JWT","kid":%q}`, c.alg, c.kid), claims)
}

func (w *World) hintClaims(c *Client, sub string, exp int64) string {
	return fmt.Sprintf(`{"iss":%q,"aud":%q,"sub":%q,"exp":%d,"iat":%d}`, w.issuer, c.id, sub, exp, w.now-100)
}

var c13Prompts = []string{"", "none", "login", "consent", "select_account", "login consent", "consent login", "none none", "select_account login", "login login"}

func c13Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	bound, depth := 1, 4
	if th {
		bound, depth = 2, 6
	}
	var out []*Scenario
	type infoCase int
	scopesFor := func(x *X, i int) string {
		return []string{"openid profile", "profile openid", "openid", "openid profile email", "openid profilex", "openid Profile", ""}[i]
	}
	out = append(out, &Scenario{Name: "decisions", Bound: bound, Run: func(x *X) {
		w := newAZ(x)
		p := azBase(PickDev(x, "rt", []string{"code", "id_token token", "code id_token", "token", "code token", "id_token", "code id_token token"}))
		if v := Pick(x, "prompt", c13Prompts); v != "" {
			p = p.with("prompt", v)
		}
		cb := w.cb()
		cb.login = x.Choose("login", 2) == 0
		cb.fromLogin = x.Choose("from-login", 2) == 0
		w.a.np = prompt.NonePromptPolicy(x.Choose("np", 4))
		w.a.ncp = prompt.NoConsentPromptPolicy(x.Choose("ncp", 2))
		for _, f := range [][]string{{"display", "page", "popup", "touch", "wap"}, {"ui_locales", "ja", "en fr"}, {"response_mode", "form_post", "fragment"}, {"state", ""}, {"code_verifier", "v"},
			{"login_hint", "bob"}, {"acr_values", "0"}} {
			if n := x.Dev(f[0], len(f)); n > 0 {
				p = p.with(f[0], f[n])
			}
		}
		switch x.Choose("max-age", 3) {
		case 1:
			p = p.with("max_age", "100")
			cb.authTime = w.now - 100
		case 2:
			p = p.with("max_age", "100")
			cb.authTime = w.now - 101
		}
		switch x.Choose("info", 6) {
		case 1:
			w.AddInfo(7, "clienta", "openid profile")
		case 2:
			w.AddInfo(7, "clienta", "openid profile").active = false
		case 3:
			w.AddInfo(7, "clienta", scopesFor(x, 1+x.Dev("other-scope", 6)))
		case 4:
			w.AddInfo(7, "clienta", "openid profile").authAt = w.now - int64(w.pol.ConsentOmissionPeriod)
		case 5:
			// somebody else's and another client's grants do not count
			w.AddInfo(8, "clienta", "openid profile")
			w.AddInfo(7, "clientb", "openid profile")
		}
		if x.Dev("uid", 2) == 1 {
			cb.uid = 8
		}
		hintOK, loose := false, false
		exp := w.now + 1000
		switch x.Choose("hint", 5) {
		case 1:
			p = p.with("login_hint", "sub-7")
		case 2:
			p = p.with("login_hint", "sub-8")
		case 3:
			w.a.alg = PickDev(x, "alg", []string{"HS256", "RS256", "ES256", "HS512", "RS512", "ES384"})
			if w.a.alg[0] != 'H' {
				w.a.key = keyFor(w.a.alg, 1).sign
			}
			p = p.with("id_token_hint", w.hint(w.a, w.hintClaims(w.a, fmt.Sprintf("sub-%d", cb.uid), exp)))
			hintOK = true
		case 4:
			c := w.hintClaims(w.a, "sub-7", exp)
			switch x.Dev("bad-hint", 13) {
			case 0:
				c = w.hintClaims(w.a, "sub-9", exp)
				p = p.with("id_token_hint", w.hint(w.a, c))
			case 1:
				p = p.with("id_token_hint", w.hint(w.b, c)) // other client's key
			case 2:
				p = p.with("id_token_hint", signJWS("none", nil, `{"alg":"none"}`, c))
			case 3:
				p = p.with("id_token_hint", w.hint(w.a, w.hintClaims(w.a, "sub-7", w.now-1)))
			case 4:
				p = p.with("id_token_hint", w.hint(w.a, `{"sub":"sub-7","iss":"https://op.example","aud":"clienta"}`))
			case 5:
				p = p.with("id_token_hint", w.hint(w.a, fmt.Sprintf(`{"exp":%d,"iss":"https://op.example","aud":"clienta"}`, exp)))
			case 6:
				p = p.with("id_token_hint", w.hint(w.a, fmt.Sprintf(`{"sub":7,"exp":%d,"iss":"https://op.example","aud":"clienta"}`, exp)))
			case 7:
				h := w.hint(w.a, c)
				p = p.with("id_token_hint", h[:len(h)-6])
			case 8:
				p = p.with("id_token_hint", "")
			case 9:
				p = p.with("id_token_hint", "sub-7")
			case 10:
				w.a.alg = "RS256"
				w.a.key = keyFor("RS256", 1).sign
				p = p.with("id_token_hint", signJWS("RS256", keyFor("RS256", 2).sign, `{"alg":"RS256"}`, c))
			case 11:
				w.a.alg = "RS256"
				w.a.key = keyFor("RS256", 1).sign
				p = p.with("id_token_hint", signJWS("none", nil, `{"alg":"none"}`, c))
			case 12:
				w.a.alg = "ES256"
				w.a.key = keyFor("ES256", 1).sign
				p = p.with("id_token_hint", signJWS("ES256", keyFor("ES256", 2).sign, `{"alg":"ES256"}`, c)+"x")
			}
			if x.Dev("also-login-hint", 2) == 1 {
				p = p.with("login_hint", "sub-7")
			}
		}
		c13Ask(x, w, nil, azGet(p), cb, hintOK, loose)
	}})
	out = append(out, &Scenario{Name: "login-ages", Run: func(x *X) {
		w := newAZ(x)
		p := azBase("code")
		if v := Pick(x, "prompt", []string{"", "none", "consent", "login"}); v != "" {
			p = p.with("prompt", v)
		}
		w.setNow(Pick(x, "now", []int64{1700000000, 4294967400}))
		ma := Pick(x, "max-age", []int64{1, 60, 3600, 86400})
		w.pol.MinMaxAge = 1
		p = p.with("max_age", fmt.Sprint(ma))
		cb := w.cb()
		cb.authTime = w.now - ma + Pick(x, "off", nearOffsets)
		if x.Choose("zero", 8) == 7 {
			cb.authTime = 0
		}
		w.a.ncp = 1
		w.a.np = prompt.NonePromptPolicy(1 + x.Choose("np", 3))
		i := w.AddInfo(7, "clienta", "openid profile")
		i.authAt = w.now - Pick(x, "grant-age", []int64{0, 1000, 90000})
		p = p.with("login_hint", "sub-7").with("id_token_hint", w.hint(w.a, w.hintClaims(w.a, "sub-7", w.now+10)))
		c13Ask(x, w, nil, azGet(p), cb, true, false)
	}})
	out = append(out, &Scenario{Name: "grant-ages", Run: func(x *X) {
		w := newAZ(x)
		p := azBase(Pick(x, "rt", []string{"code", "token", "code id_token"}))
		if v := Pick(x, "prompt", []string{"", "none", "login"}); v != "" {
			p = p.with("prompt", v)
		}
		w.pol.ConsentOmissionPeriod = Pick(x, "period", []int{0, 1, 60, 3600, 86400, 31536000, -1})
		w.pol.AuthSessionExpiresIn = Pick(x, "session-life", []int{60, 86400})
		w.a.ncp = 1
		w.a.np = prompt.NonePromptPolicy(1 + x.Choose("np", 2))
		i := w.AddInfo(7, "clienta", "openid profile")
		i.authAt = Pick(x, "at", absTimes)
		w.setNow(i.authAt + int64(w.pol.ConsentOmissionPeriod) + Pick(x, "off", nearOffsets))
		cb := w.cb()
		if x.Choose("old-login", 2) == 1 {
			cb.authTime = w.now - 100000
		}
		p = p.with("login_hint", "sub-7")
		c13Ask(x, w, nil, azGet(p), cb, false, false)
	}})
	// granted scope versus requested scope
	words := []string{"openid", "profile", "profil", "profilee", "Profile", "email", "offline_access"}
	n := 3
	out = append(out, &Scenario{Name: "scopes", Run: func(x *X) {
		w := newAZ(x)
		lst := func(l string) string {
			var o []string
			for k := 0; k < n; k++ {
				c := x.Choose(l, len(words)+1)
				if c == 0 {
					break
				}
				for _, e := range o {
					if e == words[c-1] {
						return ""
					}
				}
				o = append(o, words[c-1])
			}
			return strings.Join(o, " ")
		}
		req, got := lst("requested"), lst("granted")
		if req == "" {
			return
		}
		x.commit()
		w.a.ncp = 1
		w.a.np = 1
		w.pol.AllowEmptyScope = true // of offline_access alone nothing may be left
		w.AddInfo(7, "clienta", got)
		p := azBase("code").with("scope", req)
		if x.Choose("none", 2) == 1 {
			p = p.with("prompt", "none")
		}
		c13Ask(x, w, nil, azGet(p), w.cb(), false, false)
	}})
	out = append(out, &Scenario{Name: "hint-edits", Run: func(x *X) {
		w := newAZ(x)
		w.a.ncp = 1
		kind := x.Choose("kind", 5)
		w.AddInfo(7, "clienta", "openid profile")
		p := azBase("code").with("prompt", "none")
		cb := w.cb()
		if kind == 0 {
			w.a.np = prompt.NonePromptPolicyAllowIfLoginHintMatched
			e := Pick(x, "edit", edits("sub-7"))
			if e == "" {
				p = p.without("login_hint")
			} else {
				p = p.with("login_hint", e)
			}
			c13Ask(x, w, nil, azGet(p), cb, false, false)
			return
		}
		w.a.np = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
		h := w.hint(w.a, w.hintClaims(w.a, "sub-7", w.now+1000))
		if kind == 1 {
			// every single-character deletion and substitution of a genuine hint
			es := edits(h)
			e := Pick(x, "edit", es)
			p = p.with("id_token_hint", e)
			c13Ask(x, w, nil, azGet(p), cb, e == h, strings.TrimRight(e, " \t\r\n=") == h || sameJWS(e, h))
			return
		}
		if kind >= 3 { // a genuine hint's claims; the user's own name
			own := "sub-7"
			// a login_hint is no ID token, whatever it names
			if lh := x.Choose("login-hint", 4); lh > 0 {
				p = p.with("login_hint", []string{"sub-7", "sub-8", ""}[lh-1])
			}
			if kind == 4 {
				own = Pick(x, "own", edits(own))
				if own == "" {
					return
				}
				cb.subOK = func(s string) bool { return s == own }
			}
			claim := "sub"
			vals := edits("sub-7")
			if kind == 3 {
				claim = Pick(x, "claim", []string{"sub", "exp", "jti"})
				if claim == "exp" {
					vals = bigNumbers(w.now)
				}
			} else {
				vals = []string{"sub-7", own}
			}
			v := Pick(x, "edit", vals)
			sub, exp := "sub-7", fmt.Sprint(w.now+1000)
			ok := true
			switch claim {
			case "sub":
				sub = v
				ok = v == own
			case "exp":
				exp = v
				n, err := strconv.ParseInt(v, 10, 64)
				if err != nil || n > 1<<53 || n == w.now {
					p = p.with("id_token_hint", w.hint(w.a, fmt.Sprintf(`{"iss":%q,"aud":"clienta","sub":%s,"exp":%s}`, w.issuer, jsonStr(sub), exp)))
					c13Ask(x, w, nil, azGet(p), cb, true, true)
					return
				}
				ok = n > w.now
			}
			if n, err := strconv.ParseInt(exp, 10, 64); err != nil || n <= w.now {
				ok = false
			}
			p = p.with("id_token_hint", w.hint(w.a, fmt.Sprintf(`{"iss":%q,"aud":"clienta","sub":%s,"exp":%s}`, w.issuer, jsonStr(sub), exp)))
			c13Ask(x, w, nil, azGet(p), cb, ok, false)
			return
		}
		// expiry
		exp := w.now + Pick(x, "exp", nearOffsets)
		p = p.with("id_token_hint", w.hint(w.a, w.hintClaims(w.a, "sub-7", exp)))
		c13Ask(x, w, nil, azGet(p), cb, exp > w.now, exp == w.now)
	}})
	// one unmet condition at a time
	out = append(out, &Scenario{Name: "unmet", Bound: bound, Run: func(x *X) {
		w := newAZ(x)
		p := azBase(PickDev(x, "rt", []string{"code", "id_token token", "code token"}))
		cb := w.cb()
		w.a.np, w.a.ncp = 1, 1
		i := w.AddInfo(7, "clienta", "openid profile")
		none := true
		hintOK := false
		switch x.Choose("unmet", 16) {
		case 0:
		case 1:
			cb.login = false
		case 2:
			cb.authTime = w.now - 101
			p = p.with("max_age", "100")
		case 3:
			w.a.np = 0
		case 4:
			w.a.np = 2
			p = p.with("login_hint", "sub-8")
		case 5:
			w.a.np = 2
		case 6:
			w.a.np = 3
			p = p.with("id_token_hint", w.hint(w.a, w.hintClaims(w.a, "sub-9", w.now+1000)))
		case 7:
			w.a.np = 3
		case 8:
			i.scope = "openid"
		case 9:
			i.active = false
		case 10:
			i.authAt = w.now - int64(w.pol.ConsentOmissionPeriod)
		case 11:
			none = false
			cb.login = false
		case 12:
			none = false
			cb.fromLogin = false
			p = p.with("prompt", "login")
		case 13:
			none = false
			p = p.with("prompt", "consent")
		case 14:
			none = false
			w.a.ncp = 0
		case 15:
			none = false
			i.scope = "profile"
		}
		if none {
			p = p.with("prompt", "none")
		}
		c13Ask(x, w, nil, azGet(p), cb, hintOK, false)
	}})
	// the whole dance on one shared endpoint
	out = append(out, &Scenario{Name: "histories", Unit: 4, Loop: true, Run: func(x *X) {
		w := newAZ(x)
		w.pol.ConsentOmissionPeriod = 100
		w.a.ncp, w.b.ncp = 1, 1
		w.a.np, w.b.np = 1, 2
		ae := w.AuthzEndpoint(w.pol)
		uid, login, at, fresh := int64(7), true, w.now-10, false
		if x.burst != nil && x.Choose("granted", 2) == 1 {
			w.AddInfo(7, "clienta", "openid profile")
		}
		var last azGot
		var lastCB *CB
		ask := func(p kvs) {
			cb := w.cb()
			cb.uid, cb.login, cb.authTime, cb.fromLogin = uid, login, at, fresh
			last = c13Ask(x, w, ae, azGet(p), cb, false, false)
			lastCB = cb
			fresh = false
		}
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 13)
			x.Stepf("op%d", op)
			switch op {
			case 0:
				ask(azBase("code"))
			case 1:
				ask(azBase("code").with("prompt", "none"))
			case 2:
				ask(azBase("id_token token").with("prompt", "login").with("scope", "profile openid"))
			case 3:
				ask(azBase("code").with("max_age", "60"))
			case 4:
				ask(azBase("code").with("client_id", "clientb").with("redirect_uri", cbB).with("prompt", "none").with("login_hint", "sub-7"))
			case 5, 6:
				if last.kind != "consent" {
					continue
				}
				cb := w.cb()
				cb.uid, cb.login, cb.authTime = uid, login, at
				cb.cont = lastCB.consents[0]
				if op == 5 {
					w.Complete(ae, azGet(nil), cb)
				} else {
					from := len(w.calls)
					w.Cancel(ae, azGet(nil), cb)
					if m := w.mutations(from); len(m) > 0 {
						x.Fail("cancel-issued", "cancelled request: %s", callList(m))
					}
				}
				last = azGot{}
			case 7: // user logs in
				login, at, fresh = true, w.now, true
			case 8:
				login = !login
			case 9:
				uid = 15 - uid
				at = w.now
			case 10:
				if x.burst != nil {
					w.setNow(w.now + 100)
				}
				w.setNow(w.now + 61)
			case 11:
				if i := w.findInfo(uid, "clienta"); i != nil {
					i.active = !i.active
				}
			case 12:
				ask(azBase("code").with("scope", "openid email"))
			}
		}
	}})
	_ = infoCase(0)
	out = withPerturb(out, tier, "unmet")
	return withDict(out, tier, false, "unmet")
}

// sameJWS: two compact tokens that decode to the same bytes.
func sameJWS(a, b string) bool {
	p, q := strings.Split(a, "."), strings.Split(b, ".")
	if len(p) != 3 || len(q) != 3 || p[0] != q[0] || p[1] != q[1] {
		return false
	}
	// the last character of base64 carries unused bits
	return len(p[2]) == len(q[2]) && p[2][:len(p[2])-1] == q[2][:len(q[2])-1]
}
