package main

import (
	"fmt"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
)

// C08: a failing store or callback never grants anything and never crashes the handler.

func init() {
	register(&Check{
		ID:   "C08",
		Rule: "every request kind of every endpoint x every store and callback operation it performs x every failure of that operation (not found, unsupported, internal error, no value and no error, effect then internal error), up to the fault bound per request, plus multi-request histories with a fault anywhere; the real handlers run with the store failing at the chosen call",
		Assumptions: []string{
			"the failures are those the bridge interface can express; a store that panics is out of scope",
			"an interrupted Continue or error screen may be answered by a screen or left to the application",
			"a refused creation (as opposed to a lookup) may be reported as client-side or server error",
		},
		Scenarios: c08Scenarios,
	})
}

func c08Menu(name string, nilable, mutating bool) []faultKind {
	if strings.HasPrefix(name, "cb.") {
		m := []faultKind{fServerError}
		if nilable {
			m = append(m, fNil)
		}
		return m
	}
	m := []faultKind{fFailed, fUnsupported, fServerError}
	if nilable {
		m = append(m, fNil)
	}
	if mutating {
		m = append(m, fLate)
	}
	return m
}

var c08Creates = map[string]bool{"CreateOAuthToken": true, "RefreshAccessToken": true, "CreateAuthSession": true, "CreateOrUpdateAuthInfo": true}
var c08Minting = map[string]bool{"CreateOAuthToken": true, "RefreshAccessToken": true, "CreateAuthSession": true, "cb.CreateAuthorizationCode": true}

// c08After lists what was issued after the first failure since call index from.
func (w *World) c08After(from int) []Call {
	var out []Call
	first := -1
	for _, i := range w.faultAt {
		if i >= from && (first < 0 || i < first) {
			first = i
		}
	}
	if first < 0 {
		return nil
	}
	for _, c := range w.calls[first+1:] {
		if c08Minting[c.Name] {
			out = append(out, c)
		}
	}
	return out
}

// faultsSince returns the failing calls since call index from.
func (w *World) faultsSince(from int) []Call {
	var out []Call
	for _, i := range w.faultAt {
		if i >= from {
			out = append(out, w.calls[i])
		}
	}
	return out
}

var clientErrs = map[string]bool{"invalid_request": true, "invalid_client": true, "invalid_grant": true, "unauthorized_client": true,
	"unsupported_grant_type": true, "invalid_scope": true}

func (w *World) codesIn(s string) []string {
	var out []string
	for _, c := range sortedKeys(w.sessions) {
		if strings.Contains(s, c) {
			out = append(out, c)
		}
	}
	if strings.Contains(s, "LEAKEDCODE") {
		out = append(out, "LEAKEDCODE")
	}
	return out
}

func respText(r *Resp) string {
	s := r.body.String()
	for k, v := range r.live {
		s += "\n" + k + ": " + strings.Join(v, "\n")
	}
	return s
}

func c08Common(x *X, w *World, what string, r *Resp, from int) (fs []Call, stop bool) {
	fs = w.faultsSince(from)
	if r.panic_ != "" {
		x.Fail("panic", "%s with %s: handler panicked: %s", what, callList(fs), r.panic_)
		return fs, true
	}
	if len(fs) == 0 {
		return fs, true
	}
	if a := w.c08After(from); len(a) > 0 {
		x.Fail("issued-after-failure", "%s with %s: went on to %s", what, callList(fs), callList(a))
	}
	if l := w.leaks(r); len(l) > 0 {
		x.Fail("token-disclosed", "%s with %s: response reveals %v: %s", what, callList(fs), l, r)
	}
	return fs, false
}

func c08Token(x *X, w *World, what string, r *Resp, from int) {
	fs, stop := c08Common(x, w, what, r, from)
	if stop {
		return
	}
	o := readToken(r)
	if o.ok || r.status/100 == 2 {
		x.Fail("success", "%s with %s => %s", what, callList(fs), o)
		return
	}
	if o.bad != "" {
		x.Fail("malformed", "%s with %s => %s", what, callList(fs), o)
		return
	}
	server := o.err.status == 500 && o.err.code == "server_error"
	client := (o.err.status == 400 || o.err.status == 401) && clientErrs[o.err.code]
	ok := false
	for _, f := range fs {
		switch {
		case f.Fault != fFailed:
			ok = ok || server
		case c08Creates[f.Name]:
			ok = ok || server || client
		default:
			ok = ok || client
		}
	}
	if !ok {
		x.Fail("error", "%s with %s => %s", what, callList(fs), o)
	}
}

func c08API(x *X, w *World, what string, r *Resp, from int) {
	fs, stop := c08Common(x, w, what, r, from)
	if stop {
		return
	}
	if r.ret || r.status/100 == 2 {
		x.Fail("success", "%s with %s => admitted (%s)", what, callList(fs), r)
		return
	}
	want := 500
	if fs[0].Fault == fFailed {
		want = 401
	}
	if r.status != want {
		x.Fail("error", "%s with %s => %s, want status %d", what, callList(fs), r, want)
	}
	if want == 401 && !strings.Contains(r.get("WWW-Authenticate"), "invalid_token") {
		x.Fail("error", "%s with %s => %s, want an invalid_token challenge", what, callList(fs), r)
	}
}

// stage: "request", "complete" or "cancel"
func c08Authz(x *X, w *World, what, stage, ruri string, r *Resp, cb *CB, from int) {
	fs, stop := c08Common(x, w, what, r, from)
	if stop {
		return
	}
	fail := func(key, f string, a ...interface{}) {
		x.Fail(key, "%s with %s: %s", what, callList(fs), fmt.Sprintf(f, a...))
	}
	if l := w.codesIn(respText(r)); len(l) > 0 {
		fail("code-disclosed", "response reveals %v: %s", l, r)
	}
	if len(cb.consents) == 0 && r.ret {
		fail("success", "reported as success")
	}
	o := readAuthz(r, ruri)
	screens := len(cb.errScreens) + len(cb.logins) + len(cb.consents)
	if o.kind == "bad" {
		fail("malformed", "%s", o)
		return
	}
	if o.kind != "none" && o.params["error"] == "" {
		fail("success", "%s", o)
		return
	}
	if screens > 1 || (screens == 1 && o.kind != "none") {
		fail("malformed", "%d screens and response %s", screens, o)
	}
	server := o.params["error"] == "server_error" || (len(cb.errScreens) == 1 && cb.errScreens[0] == authorization.ErrServerError)
	screen := len(cb.errScreens) == 1 && cb.errScreens[0] != authorization.ErrServerError
	clientErr := o.params["error"] != "" && o.params["error"] != "server_error"
	nothing := screens == 0 && o.kind == "none"
	ok := false
	for i, f := range fs {
		switch {
		case f.Name == "cb.Continue":
			ok = ok || server || nothing
		case f.Fault != fFailed:
			ok = ok || server
		case f.Name == "FindClientById" && stage == "request" && i == 0 && firstClientLookup(w, from, f):
			ok = ok || screen
		case f.Name == "FindAuthInfoByUserIdAndClientId":
			ok = ok || len(cb.consents) == 1 || o.params["error"] == "consent_required"
		default:
			ok = ok || server || clientErr
		}
	}
	if !ok {
		fail("error", "answered with %d error (%v), %d login, %d consent screens and %s", len(cb.errScreens), cb.errScreens, len(cb.logins), len(cb.consents), o)
	}
}

func firstClientLookup(w *World, from int, f Call) bool {
	l := w.callsNamed(from, "FindClientById")
	return len(l) > 0 && l[0].Fault == f.Fault
}

func c08Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	bound := 2
	hist := [][2]int{{4, 1}}
	if th {
		bound = 4
		hist = [][2]int{{5, 1}, {4, 2}}
	}
	long := func(w *World) {
		w.tokName = func(kind string, n int) string { return fmt.Sprintf("%s-value-%d-%s", kind, n, strings.Repeat("q", 5)) }
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "token-endpoint", Bound: bound, Run: func(x *X) {
		g := Pick(x, "grant", allGrants)
		auth := Pick(x, "auth", []string{"basic", "post", "query", "assertion"})
		w, a, _ := c01World(x)
		long(w)
		w.alwaysRT = x.Choose("rt", 2) == 1
		w.rotateRT = w.alwaysRT
		te := w.TokenEndpoint()
		te.AcceptClientSecret(2)
		te.AcceptClientAssertion(true)
		p := w.grantParams(g, a)
		if g == "authorization_code" {
			switch x.Choose("code", 3) {
			case 1:
				for _, s := range w.sessions {
					w.infos[s.authId].scope = "profile"
				}
			case 2:
				for _, s := range w.sessions {
					s.verifier = "v-1"
				}
				p = append(p, kv{"code_challenge", "v-1"}, kv{"code_challenge_method", "plain"})
			}
		}
		if g == "password" || g == "client_credentials" || g == jwtGrant {
			if x.Choose("scope", 2) == 1 {
				p = append(p, kv{"scope", "profile offline_access"})
			}
		}
		// some requests that end in a refusal anyway
		switch x.Choose("wrong", 4) {
		case 1:
			if len(p) < 2 {
				return
			}
			p[1].v += "x"
		case 2:
			a.grants[g] = false
		case 3:
			a.secret += "x"
			if auth == "assertion" {
				return
			}
		}
		q := &Req{method: "POST", path: "/token", body: p}
		// optional parts of assertions
		if v := x.Dev("claims", 6); v > 0 {
			jwt := func(iss, sub, kid string, k int, jti string) string {
				c := fmt.Sprintf(`"iss":%q,"sub":%q`, iss, sub)
				if v != 3 {
					c += fmt.Sprintf(`,"aud":%q`, w.issuer)
				} else {
					c += fmt.Sprintf(`,"aud":["x",%q]`, w.issuer)
				}
				if v == 2 {
					c += fmt.Sprintf(`,"iat":%d,"nbf":%d`, w.now-5, w.now-5)
				}
				switch v {
				case 1:
				case 4:
					c += `,"jti":""`
				case 5:
					c += fmt.Sprintf(`,"jti":%q`, strings.Repeat("j", 300))
				default:
					c += fmt.Sprintf(`,"jti":%q`, jti)
				}
				return signJWS("HS256", keyFor("HS256", k).sign, fmt.Sprintf(`{"alg":"HS256","kid":%q}`, kid), fmt.Sprintf(`{%s,"exp":%d}`, c, w.now+300+int64(k)))
			}
			if g == jwtGrant {
				q.body = q.body.with("assertion", jwt("x", w.users[0].sub, "g", 1, "g9"))
			}
			if auth == "assertion" {
				q.body = append(q.body, kv{"client_assertion_type", assertionType}, kv{"client_assertion", jwt(a.id, a.id, "c", 2, "c9")})
				auth = ""
			} else if g != jwtGrant {
				return
			}
		}
		switch auth {
		case "basic":
			q.header = append(q.header, basicHeader(a.id, strings.TrimSuffix(a.secret, "x")))
		case "post":
			q.body = append(q.body, kv{"client_id", a.id}, kv{"client_secret", strings.TrimSuffix(a.secret, "x")})
		case "query":
			q.query = kvs{{"client_id", a.id}, {"client_secret", strings.TrimSuffix(a.secret, "x")}}
		case "assertion":
			q.body = append(q.body, kv{"client_assertion_type", assertionType}, kv{"client_assertion", w.clientAssertion(a, "j1")})
		}
		w.faultsOn, w.faultMenu = true, c08Menu
		r := w.Token(te, q)
		w.faultsOn = false
		c08Token(x, w, q.String(), r, 0)
	}})
	out = append(out, &Scenario{Name: "protected-resource", Bound: bound, Run: func(x *X) {
		w := NewWorld(x)
		long(w)
		w.AddClient("clienta", "s")
		i := w.AddInfo(7, "clienta", Pick(x, "scope", []string{"openid profile", "profile"}))
		t := w.AddToken(i, "AT-value-qqqq", "")
		q := &Req{method: "GET", path: "/api"}
		rp := w.Protector()
		switch x.Choose("place", 3) {
		case 0:
			q.header = [][2]string{{"Authorization", "Bearer " + t.access}}
		case 1:
			rp.AcceptAccessToken(1)
			q.method, q.body = "POST", kvs{{"access_token", t.access}}
		case 2:
			rp.AcceptAccessToken(2)
			q.query = kvs{{"access_token", t.access}}
		}
		switch x.Choose("state", 4) {
		case 1:
			w.setNow(w.now + w.aLife + 1)
		case 2:
			i.active = false
		case 3:
			t.superseded = true
		}
		var m map[string][]string
		if x.Choose("scoped", 2) == 1 {
			m = map[string][]string{"/api": {"openid"}}
		}
		w.faultsOn, w.faultMenu = true, c08Menu
		r := w.Validate(rp, q, m)
		w.faultsOn = false
		c08API(x, w, q.String(), r, 0)
	}})
	ncps := []prompt.NoConsentPromptPolicy{prompt.NoConsentPromptPolicyOmitConsentIfCan, prompt.NoConsentPromptPolicyForceConsent}
	nps := []prompt.NonePromptPolicy{prompt.NonePromptPolicyForbidden, prompt.NonePromptPolicyAllowWithLoginSession, prompt.NonePromptPolicyAllowIfLoginHintMatched, prompt.NonePromptPolicyAllowIfIdTokenHintMatched}
	prompts := []string{"", "none", "login", "consent", "login consent", "select_account"}
	modes := []string{"", "query", "fragment", "form_post"}
	azrq := func(x *X, name string, rts, modes []string) *Scenario {
		return &Scenario{Name: name, Bound: bound, Run: func(x *X) {
			rt := Pick(x, "rt", rts)
			w := newAZ(x)
			long(w.World)
			w.pol.RequireResponseModeSecurityLevelCheck = false
			pr := Pick(x, "prompt", prompts)
			p := azBase(rt).with("prompt", pr).with("response_mode", Pick(x, "mode", modes))
			if pr == "none" {
				w.a.np = Pick(x, "np", nps)
				p = p.with("login_hint", "sub-7").with("id_token_hint", w.hint(w.a, w.hintClaims(w.a, "sub-7", w.now+100)))
			} else {
				w.a.ncp = Pick(x, "ncp", ncps)
			}
			cb := w.cb()
			cb.login = x.Choose("login", 2) == 0
			cb.fromLogin = x.Choose("fresh", 2) == 0
			switch x.Choose("max-age", 3) {
			case 1:
				p = p.with("max_age", "60")
			case 2:
				p = p.with("max_age", "60")
				cb.authTime = w.now - 100
			}
			switch x.Choose("granted", 3) {
			case 0:
				w.AddInfo(7, "clienta", "openid profile").authAt = w.now - 5
			case 1:
				w.AddInfo(7, "clienta", "openid").authAt = w.now - 5
			}
			w.faultsOn, w.faultMenu = true, c08Menu
			r := w.Authorize(w.AuthzEndpoint(w.pol), azGet(p), cb)
			w.faultsOn = false
			c08Authz(x, w.World, azGet(p).String(), "request", cbA, r, cb, 0)
		}}
	}
	out = append(out, azrq(nil, "authorization-request", responseTypes, modes[:1]))
	out = append(out, azrq(nil, "authorization-request-modes", []string{"code", "code id_token token"}, modes))
	// requests that fail validation, with failing operations on the way
	out = append(out, &Scenario{Name: "invalid-request", Bound: bound, Run: func(x *X) {
		w := newAZ(x)
		long(w.World)
		p := azBase(Pick(x, "rt", []string{"code", "id_token token", "bogus", ""}))
		switch x.Choose("bad", 9) {
		case 1:
			p = p.with("client_id", "nobody")
		case 2:
			p = p.with("redirect_uri", cbB)
		case 3:
			p = p.with("scope", "")
		case 4:
			p = p.with("prompt", "bogus")
		case 5:
			p = p.with("display", "bogus")
		case 6:
			p = p.with("max_age", "x")
		case 7:
			w.a.flows = map[flow.FlowType]bool{}
		case 8:
			w.a.scopes = map[string]bool{}
		}
		cb := w.cb()
		w.faultsOn, w.faultMenu = true, c08Menu
		r := w.Authorize(w.AuthzEndpoint(w.pol), azGet(p), cb)
		w.faultsOn = false
		c08Authz(x, w.World, azGet(p).String(), "request", cbA, r, cb, 0)
	}})
	out = append(out, &Scenario{Name: "completion", Bound: bound, Run: func(x *X) {
		w := newAZ(x)
		long(w.World)
		rq := c12Req(x, Pick(x, "rt", responseTypes))
		rq.ResponseMode = Pick(x, "mode", modes)
		rq.State = Pick(x, "state", []string{"st-1", ""})
		cb := w.cb()
		cb.cont = rq
		switch x.Choose("client", 3) {
		case 1:
			delete(w.clients, "clienta") // removed while the user was consenting
		case 2:
			w.AddInfo(7, "clienta", "openid profile")
		}
		stage := Pick(x, "stage", []string{"complete", "cancel"})
		w.faultsOn, w.faultMenu = true, c08Menu
		var r *Resp
		ae := w.AuthzEndpoint(w.pol)
		if stage == "complete" {
			r = w.Complete(ae, azGet(nil), cb)
		} else {
			r = w.Cancel(ae, azGet(nil), cb)
		}
		w.faultsOn = false
		c08Authz(x, w.World, stage+" "+showReq(rq), stage, cbA, r, cb, 0)
	}})
	// the application hands back something it could not decode
	out = append(out, &Scenario{Name: "undecodable-continuation", Run: func(x *X) {
		w := newAZ(x)
		long(w.World)
		good := c12Req(x, "code id_token token")
		enc := good.Encode()
		menu := []string{"", "garbage", "e30=", enc[:len(enc)/2], enc[:len(enc)-4], enc[4:], strings.ToLower(enc), "bnVsbA==", "W10=", "eyJmbG93IjpudWxsfQ==", "eyJmbG93Ijp7fX0="}
		cb := w.cb()
		cb.cont = authorization.DecodeRequest(Pick(x, "enc", menu))
		if cb.cont != nil {
			cb.cont.ResponseMode = Pick(x, "mode", modes)
		}
		var r *Resp
		ae := w.AuthzEndpoint(w.pol)
		if stage := Pick(x, "stage", []string{"complete", "cancel"}); stage == "complete" {
			r = w.Complete(ae, azGet(nil), cb)
		} else {
			r = w.Cancel(ae, azGet(nil), cb)
		}
		if r.panic_ != "" {
			x.Fail("panic", "handed-back request %s: handler panicked: %s", showReq(cb.cont), r.panic_)
			return
		}
		if cb.cont == nil || cb.cont.Flow == nil {
			var minted []Call
			for _, c := range w.calls {
				if c08Minting[c.Name] || c.Name == "CreateOrUpdateAuthInfo" {
					minted = append(minted, c)
				}
			}
			if len(minted) > 0 {
				x.Fail("undecodable-granted", "handed-back request %s: %s", showReq(cb.cont), callList(minted))
			}
		}
	}})
	// whole histories with a failure anywhere
	for _, h := range hist {
		out = append(out, c08Histories(h[0], h[1], long))
	}
	return out
}

func c08Histories(depth, hb int, long func(*World)) *Scenario {
	return &Scenario{Name: fmt.Sprintf("histories-%d-%d", depth, hb), Bound: hb, Unit: 4, Loop: true, Run: func(x *X) {
		w := newAZ(x)
		long(w.World)
		ae, te, rp := w.AuthzEndpoint(w.pol), w.TokenEndpoint(), w.Protector()
		w.alwaysRT = true
		w.faultMenu = c08Menu
		var codes []string
		for d := 0; x.more(d, depth); d++ {
			from := len(w.calls)
			w.faultsOn = true
			switch x.Choose("op", 6) {
			case 0, 1:
				rt := []string{"code", "code id_token token"}[x.Choose("rt", 2)]
				p := azBase(rt)
				cb := w.cb()
				r := w.Authorize(ae, azGet(p), cb)
				c08Authz(x, w.World, azGet(p).String(), "request", cbA, r, cb, from)
				for _, c := range cb.codes {
					codes = append(codes, c)
				}
				if len(cb.consents) == 1 {
					from = len(w.calls)
					c2 := w.cb()
					c2.cont = cb.consents[0]
					r := w.Complete(ae, azGet(nil), c2)
					c08Authz(x, w.World, "complete "+showReq(c2.cont), "complete", cbA, r, c2, from)
					codes = append(codes, c2.codes...)
				}
			case 2:
				if len(codes) == 0 {
					w.faultsOn = false
					return
				}
				q := tokenReq("clienta", "secreta", kv{"grant_type", "authorization_code"}, kv{"code", codes[len(codes)-1]}, kv{"redirect_uri", cbA})
				r := w.Token(te, q)
				c08Token(x, w.World, q.String(), r, from)
			case 3:
				rt := ""
				for _, t := range w.tokens {
					if t.refresh != "" {
						rt = t.refresh
					}
				}
				if rt == "" {
					w.faultsOn = false
					return
				}
				for _, i := range w.infos {
					i.scope = "openid offline_access"
				}
				q := tokenReq("clienta", "secreta", kv{"grant_type", "refresh_token"}, kv{"refresh_token", rt})
				r := w.Token(te, q)
				if l := len(w.faultsSince(from)); l > 0 {
					// the presented refresh token is not news
					c08Token(x, w.World, q.String(), r, from)
				}
			case 4:
				if len(w.tokens) == 0 {
					w.faultsOn = false
					return
				}
				q := &Req{method: "GET", path: "/api", header: [][2]string{{"Authorization", "Bearer " + w.tokens[len(w.tokens)-1].access}}}
				r := w.Validate(rp, q, nil)
				c08API(x, w.World, q.String(), r, from)
			case 5:
				q := tokenReq("clienta", "secreta", kv{"grant_type", "password"}, kv{"username", "alice"}, kv{"password", "pw"})
				r := w.Token(te, q)
				c08Token(x, w.World, q.String(), r, from)
			}
			w.faultsOn = false
		}
	}}
}
