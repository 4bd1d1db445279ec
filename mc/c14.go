package main

import (
	"strconv"
	"strings"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
)

// C14: requests are validated, then handed over unchanged.

func init() {
	register(&Check{
		ID:   "C14",
		Rule: "every authorization request within the deviation bound over menus of valid and invalid values of every parameter, policy and client record, every scope of up to n words x flow x prompt, every length around the limits, every single-edit neighbour of the enumerated values, and every sequence of requests on a shared endpoint, against a reference validator; the request handed to a screen is compared field by field with what was sent, and again after Encode/Decode",
		Assumptions: []string{
			"with several faults in one request any of their error codes is accepted; integers in non-canonical notation may be taken or refused",
			"parameter values are valid UTF-8 (Encode replaces other bytes)",
		},
		Scenarios: c14Scenarios,
	})
}

// azJudge compares one handled request with the reference.
func azJudge(x *X, w *World, pol *authorization.Policy, q *Req, cb *CB, r *Resp, hintOK bool) azGot {
	ref := azValidate(w, pol, q, cb)
	g := readOutcome(r, cb, ref.ruri)
	if g.kind == "bad" {
		x.Fail("malformed", "%s => %s", q, g)
		return g
	}
	if ref.screen {
		if g.kind != "screen" {
			x.Fail("no-screen", "%s => %s, want the error screen", q, g)
		}
		return g
	}
	if g.kind == "screen" {
		x.Fail("screen", "%s => error screen, want %s", q, ref.errs)
		return g
	}
	if len(ref.errs) > 0 && !ref.loose {
		if g.kind != "error" {
			x.Fail("proceeded", "%s => %s, want one of %s", q, g, ref.errs)
		} else if !ref.errs[g.out.params["error"]] {
			x.Fail("wrong-error", "%s => %s, want one of %s", q, g, ref.errs)
		}
	}
	if g.kind == "error" && (g.out.params["state"] != ref.state) {
		x.Fail("error-state", "%s => %s, state was %q", q, g, ref.state)
	}
	if g.kind == "error" {
		if m := w.mutations(0); len(m) > 0 {
			x.Fail("refused-but-issued", "%s => %s: %s", q, g, callList(m))
		}
	}
	if len(ref.errs) > 0 {
		return g
	}
	want := azInteract(w, pol, cb, ref.client, ref.req, hintOK)
	switch {
	case g.kind == "error" && !(want.kind == "error" && want.errs[g.out.params["error"]]):
		x.Fail("refused", "valid request %s => %s", q, g)
	case g.kind != "error" && want.kind == "error":
		// C13
	}
	for _, rq := range append(append([]*authorization.Request{}, cb.logins...), cb.consents...) {
		if !sameReq(rq, ref.req) {
			x.Fail("handed-over", "%s: screen got %s, want %s", q, showReq(rq), showReq(ref.req))
		}
		if d := authorization.DecodeRequest(rq.Encode()); !sameReq(d, rq) {
			x.Fail("encode", "%s decodes to %s", showReq(rq), showReq(d))
		}
	}
	for i, c := range cb.consentCl {
		if c == nil || c.GetId() != ref.req.ClientId {
			x.Fail("consent-client", "%s: consent screen %d shown for another client", q, i)
		}
	}
	for _, c := range w.callsNamed(0, "cb.ChooseLocale") {
		if c.Args != q.parsed(w).FormValue("ui_locales") {
			x.Fail("locales", "%s: ChooseLocale got %q", q, c.Args)
		}
	}
	return g
}

func c14Ask(x *X, w *azWorld, ae *goidc.AuthorizationEndpoint, q *Req, cb *CB) azGot {
	if ae == nil {
		ae = w.AuthzEndpoint(w.pol)
	}
	return azJudge(x, w.World, w.pol, q, cb, w.Authorize(ae, q, cb), false)
}

func c14Policy(x *X, w *azWorld) {
	p := w.pol
	switch x.Dev("policy", 14) {
	case 1:
		p.AllowEmptyScope = true
	case 2:
		p.MinMaxAge, p.MaxMaxAge = 100, 200
	case 3:
		p.MinMaxAge = 61
	case 4:
		p.MaxMaxAge = 299
	case 5:
		p.MaxNonceLength = 3
	case 6:
		p.MaxNonceLength = 2
	case 7:
		p.MaxCodeVerifierLength = 5
	case 8:
		p.IgnoreInvalidResponseMode = false
	case 9:
		p.RequireResponseModeSecurityLevelCheck = false
	case 10:
		p.DefaultImplicitFlowResponseMode = "form_post"
		p.IgnoreInvalidResponseMode = false
	case 11:
		p.DefaultAuthorizationCodeFlowResponseMode = "fragment"
		p.IgnoreInvalidResponseMode = false
	case 12:
		p.MinMaxAge, p.MaxMaxAge = 60, 60
	case 13:
		p.IgnoreInvalidResponseMode = false
		p.RequireResponseModeSecurityLevelCheck = false
	}
}

var c14Fields = []struct {
	k  string
	vs []string
}{
	{"response_mode", []string{"query", "fragment", "form_post", "bogus", "QUERY", "form post"}},
	{"scope", []string{"-", "openid", "profile", "openid offline_access", "offline_access", "openid profile offline_access", "offline_access email", "openidx", "OPENID profile", "email  openid"}},
	{"nonce", []string{"-", "", "abcd", "é&=%\"", "n n"}},
	{"prompt", []string{"none", "login", "consent", "select_account", "login consent", "consent login select_account", "none login", "login none", "bogus", "NONE", "consent bogus", "login,consent"}},
	{"display", []string{"page", "popup", "touch", "wap", "bogus", "PAGE"}},
	{"max_age", []string{"59", "60", "61", "86400", "86401", "0", "-1", "x", "60s", "300", "+60", "0060", "1e2", " 60", "99999999999999999999", "200", "100"}},
	{"state", []string{"-", "", "a b&c=d", "é\"<>'", "0"}},
	{"code_verifier", []string{"abcde", "abcdef", "v&=+ %é"}},
	{"ui_locales", []string{"ja en", "fr-CA&x", "en", "fr", "JA"}},
	{"login_hint", []string{"alice@example", "sub-7"}},
	{"id_token_hint", []string{"a.b.c"}},
	{"client_id", []string{"clientb", "nobody", "-"}},
	{"redirect_uri", []string{cbB, "-"}},
}

func c14Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	bound, words, depth, vb := 3, 3, 3, 2
	if th {
		bound, words, depth, vb = 4, 4, 4, 3
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "requests", Bound: bound, Run: func(x *X) {
		w := newAZ(x)
		rts := append(append([]string{"code"}, responseTypes...), "", "bogus", "none", "token code", "token id_token code", "code code", "Code", "code,token", "code  token", "code bogus")
		base := Pick(x, "base-rt", []string{"code", "id_token token", "code id_token token"})
		rts[0] = base
		rt := PickDev(x, "rt", rts)
		p := azBase(rt)
		if rt == "" && x.Choose("drop-rt", 2) == 1 {
			p = p.without("response_type")
		}
		for _, f := range c14Fields {
			if n := x.Dev(f.k, len(f.vs)+1); n > 0 {
				if f.vs[n-1] == "-" {
					p = p.without(f.k)
				} else {
					p = p.with(f.k, f.vs[n-1])
				}
			}
		}
		c14Policy(x, w)
		switch x.Dev("client", 8) {
		case 1:
			w.a.flows = map[flow.FlowType]bool{}
		case 2:
			w.a.flows = map[flow.FlowType]bool{flow.AuthorizationCode: true}
		case 3:
			w.a.flows = map[flow.FlowType]bool{flow.Implicit: true}
		case 4:
			w.a.flows = map[flow.FlowType]bool{flow.Hybrid: true, flow.DirectGrant: true}
		case 5:
			w.a.scopes = map[string]bool{}
		case 6:
			w.a.scopes = map[string]bool{"authorization_code|openid profile": true, "implicit|openid": true, "hybrid|openid profile offline_access": true}
		case 7:
			w.a.scopes = map[string]bool{"direct_grant|openid profile": true, "implicit|openid profile": true}
		}
		cb := w.cb()
		switch x.Dev("user", 4) {
		case 1:
			cb.login = false
		case 2:
			cb.fromLogin = false
		case 3:
			w.a.ncp, w.a.np = prompt.NoConsentPromptPolicyOmitConsentIfCan, prompt.NonePromptPolicyAllowWithLoginSession
			w.AddInfo(7, "clienta", "openid profile")
		}
		cb.locale = PickDev(x, "locale", []string{"", "ja", "é&"})
		q := azGet(p)
		switch x.Dev("place", 4) {
		case 1:
			q = &Req{method: "POST", path: "/authorize", body: p}
		case 2:
			q = &Req{method: "POST", path: "/authorize", body: p[:3], query: p[3:]}
		case 3:
			q.query = append(append(kvs{}, p...), kv{"state", "second"}, kv{"scope", "openid admin"}, kv{"nonce", "second"}, kv{"response_type", "token"})
		}
		c14Ask(x, w, nil, q, cb)
	}})
	// scopes as word lists
	sw := []string{"openid", "profile", "offline_access", "offline_access2", "xopenid", "Openid"}
	out = append(out, &Scenario{Name: "scopes", Run: func(x *X) {
		w := newAZ(x)
		rt := Pick(x, "rt", []string{"code", "token", "id_token", "id_token token", "code token", "code id_token"})
		pr := Pick(x, "prompt", []string{"", "consent", "login consent", "login"})
		w.pol.AllowEmptyScope = x.Choose("allow-empty", 2) == 1
		var l []string
		for i := 0; i < words; i++ {
			c := x.Choose("word", len(sw)+1)
			if c == 0 {
				break
			}
			l = append(l, sw[c-1])
		}
		if x.Choose("restrict", 2) == 1 {
			w.a.scopes = map[string]bool{}
			f, _ := judgeRT(rt)
			w.a.scopes[f.typ.String()+"|"+strings.Join(l, " ")] = true
		}
		p := azBase(rt).with("scope", strings.Join(l, " "))
		if pr != "" {
			p = p.with("prompt", pr)
		}
		c14Ask(x, w, nil, azGet(p), w.cb())
	}})
	out = append(out, &Scenario{Name: "lengths", Run: func(x *X) {
		w := newAZ(x)
		max := Pick(x, "max", []int{0, 1, 5, 255, 256})
		n := max + Pick(x, "off", []int{0, 1, -1, 2, -2, 100})
		if n < 0 {
			n = 0
		}
		k := Pick(x, "field", []string{"nonce", "code_verifier"})
		w.pol.MaxNonceLength, w.pol.MaxCodeVerifierLength = 10, 10
		if k == "nonce" {
			w.pol.MaxNonceLength = max
		} else {
			w.pol.MaxCodeVerifierLength = max
		}
		p := azBase(Pick(x, "rt", responseTypes)).with(k, strings.Repeat("a", n))
		c14Ask(x, w, nil, azGet(p), w.cb())
	}})
	out = append(out, &Scenario{Name: "max-ages", Run: func(x *X) {
		w := newAZ(x)
		w.pol.MinMaxAge = Pick(x, "min", []int{1, 60, 100})
		w.pol.MaxMaxAge = Pick(x, "max", []int{60, 100, 86400, 1 << 31})
		base := Pick(x, "base", []int{w.pol.MinMaxAge, w.pol.MaxMaxAge})
		v := strconv.Itoa(base + Pick(x, "off", []int{0, 1, -1, 2, -2, 10, -10, 1 << 32}))
		cb := w.cb()
		cb.authTime = w.now - 1
		c14Ask(x, w, nil, azGet(append(azBase("code"), kv{"max_age", v})), cb)
	}})
	vals := []struct{ k, v string }{
		{"response_type", "code"}, {"response_type", "id_token token"}, {"response_type", "code id_token token"}, {"display", "popup"}, {"display", "page"}, {"prompt", "login"},
		{"prompt", "consent"}, {"prompt", "select_account"}, {"prompt", "none"}, {"prompt", "login consent"}, {"response_mode", "form_post"}, {"response_mode", "fragment"},
		{"scope", "openid offline_access profile"}, {"max_age", "3600"},
	}
	out = append(out, &Scenario{Name: "value-edits", Run: func(x *X) {
		w := newAZ(x)
		e := Pick(x, "field", vals)
		v := Pick(x, "edit", edits(e.v))
		if e.k == "scope" && strings.Contains(v, "  ") {
			return // malformed spacing
		}
		w.pol.IgnoreInvalidResponseMode = x.Choose("ignore", 2) == 0
		p := azBase(Pick(x, "rt", []string{"code", "id_token"})).with(e.k, v)
		if e.k == "scope" && x.Choose("consent", 2) == 1 {
			p = p.with("prompt", "consent")
		}
		c14Ask(x, w, nil, azGet(p), w.cb())
	}})
	// every string field survives hand-over and Encode/Decode
	out = append(out, &Scenario{Name: "values", Bound: vb, Run: func(x *X) {
		w := newAZ(x)
		p := azBase(Pick(x, "rt", responseTypes))
		strs := append([]string{"plain"}, nastyStrings...)
		for _, k := range []string{"state", "nonce", "code_verifier", "ui_locales", "login_hint", "id_token_hint"} {
			if v := PickDev(x, k, strs); v != "plain" {
				p = p.with(k, v)
			}
		}
		if v := PickDev(x, "scope", strs); v != "plain" {
			p = p.with("scope", "openid "+v)
		}
		w.pol.MaxNonceLength, w.pol.MaxCodeVerifierLength = 5000, 5000
		cb := w.cb()
		cb.login = x.Choose("login", 2) == 1
		c14Ask(x, w, nil, azGet(p), cb)
	}})
	// Encode/Decode alone, every combination of up to 3 fields set
	out = append(out, &Scenario{Name: "encode", Bound: vb, Run: func(x *X) {
		rq := &authorization.Request{Flow: &flow.Flow{}}
		if f := x.Choose("flow", 9); f < 8 {
			rq.Flow = &flow.Flow{Type: flow.FlowType(f % 4), RequireAccessToken: f%2 == 1, RequireIdToken: f >= 4}
		} else {
			rq.Flow = nil
		}
		strs := append([]string{""}, nastyStrings...)
		for _, s := range []*string{&rq.ClientId, &rq.Scope, &rq.RedirectURI, &rq.ResponseMode, &rq.State, &rq.CodeVerifier, &rq.Nonce, &rq.Display, &rq.Prompt, &rq.UILocale, &rq.IdTokenHint, &rq.LoginHint} {
			*s = PickDev(x, "s", strs)
		}
		rq.MaxAge = PickDev(x, "age", []int64{0, 1, 60, -1, 1 << 53, 1<<53 + 1, 1<<63 - 1, -1 << 63})
		e := rq.Encode()
		x.Step("encode " + e)
		if d := authorization.DecodeRequest(e); !sameReq(d, rq) {
			x.Fail("encode", "%s decodes to %s", showReq(rq), showReq(d))
		}
	}})
	// sequences on one shared endpoint and policy
	out = append(out, &Scenario{Name: "sequences", Unit: 3, Loop: true, Simple: true, Run: func(x *X) {
		w := newAZ(x)
		ae := w.AuthzEndpoint(w.pol)
		reqs := []kvs{
			azBase("code"), azBase("id_token token").with("state", "st-2").with("nonce", "n-2"),
			azBase("code token").with("client_id", "clientb").with("redirect_uri", cbB),
			azBase("code").with("max_age", "60").with("display", "wap"), azBase("code").with("scope", ""),
			azBase("id_token").without("nonce"), azBase("bogus"), azBase("code").with("response_mode", "form_post").with("prompt", "consent").with("scope", "openid profile offline_access"),
			azBase("token").with("response_mode", "query"), azBase("code").with("display", "bogus"),
			azBase("code").with("code_verifier", "vvv").with("login_hint", "h").with("id_token_hint", "i").with("ui_locales", "de"),
		}
		for d := 0; x.more(d, depth); d++ {
			i := x.Choose("req", len(reqs))
			cb := w.cb()
			cb.login = x.Choose("login", 2) == 0
			from := w.calls
			w.calls = nil
			c14Ask(x, w, ae, azGet(reqs[i]), cb)
			w.calls = append(from, w.calls...)
		}
	}})
	out = withPerturb(out, tier, "requests")
	return withDict(out, tier, true, "requests")
}

var _ = time.Now
