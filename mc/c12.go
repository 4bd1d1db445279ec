package main

import (
	"fmt"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
)

// C12: authorization responses carry exactly what was asked.

func init() {
	register(&Check{
		ID:        "C12",
		Rule:      "every response_type x response_mode x deviation-bounded choice of request fields, user, lifetimes and records, completed after consent, without consent or cancelled; every combination of response mode, defaults and mode policy; and every history of interleaved pending requests up to the depth, on the real endpoint; the response is compared item by item with what the store and callbacks issued during this request",
		Scenarios: c12Scenarios,
	})
}

type c12Exp struct {
	req      *authorization.Request
	uid      int64
	authTime int64
	consent  bool // completed by CompleteRequest
}

func c12Judge(x *X, w *World, pol *authorization.Policy, e c12Exp, r *Resp, cb *CB, from int) {
	req := e.req
	what := showReq(req)
	if r.panic_ != "" || r.crashed != "" {
		x.Fail("panic", "%s: %s", what, r)
		return
	}
	if n := len(cb.errScreens) + len(cb.logins) + len(cb.consents); n > 0 {
		x.Fail("screen", "%s: a screen was shown on completion", what)
	}
	out := readAuthz(r, req.RedirectURI)
	if out.kind == "bad" || out.kind == "none" {
		x.Fail("malformed", "%s => %s", what, out)
		return
	}
	if out.kind != req.ResponseMode {
		x.Fail("mode", "%s => delivered by %s: %s", what, out.kind, out)
	}
	if out.target != req.RedirectURI {
		x.Fail("target", "%s => %s", what, out)
	}
	if _, isErr := out.params["error"]; isErr || !r.ret {
		x.Fail("not-completed", "%s => %s (returned %v)", what, out, r.ret)
		return
	}
	var toks []*Token
	var sess []*Session
	var grants []Call
	for _, c := range w.calls[from:] {
		switch c.Name {
		case "CreateOAuthToken":
			toks = append(toks, c.Obj.(*Token))
		case "CreateAuthSession":
			sess = append(sess, c.Obj.(*Session))
		case "CreateOrUpdateAuthInfo":
			grants = append(grants, c)
		case "RefreshAccessToken", "DisableSession":
			x.Fail("unexpected-call", "%s: %s", what, c)
		}
	}
	info := w.findInfo(e.uid, req.ClientId)
	if info == nil {
		x.Fail("no-grant", "%s: no authorization of user %d", what, e.uid)
		return
	}
	if e.consent {
		if len(grants) != 1 || grants[0].Args != fmt.Sprintf("%d,%s,%q", e.uid, req.ClientId, req.Scope) {
			x.Fail("grant", "%s by user %d: %s", what, e.uid, callList(grants))
		}
	} else if len(grants) != 0 {
		x.Fail("grant", "%s: %s", what, callList(grants))
	}
	f := azFlow{typ: req.Flow.Type, code: req.Flow.Type != flow.Implicit, token: req.Flow.RequireAccessToken, idtk: req.Flow.RequireIdToken}
	want := map[string]string{}
	if req.State != "" {
		want["state"] = req.State
	}
	if f.code {
		if len(cb.codes) != 1 || len(sess) != 1 {
			x.Fail("code-count", "%s: %d codes made, %d stored", what, len(cb.codes), len(sess))
			return
		}
		s := sess[0]
		want["code"] = cb.codes[0]
		if s.code != cb.codes[0] || s.authId != info.id || s.redir != req.RedirectURI || s.nonce != req.Nonce || s.verifier != req.CodeVerifier ||
			s.authTime != e.authTime || s.expiresIn != int64(pol.AuthSessionExpiresIn) {
			x.Fail("session", "%s (user %d, auth time %d, lifetime %d, authorization %d): stored {code %q auth %d redirect %q nonce %q verifier %q authTime %d expires %d}",
				what, e.uid, e.authTime, pol.AuthSessionExpiresIn, info.id, s.code, s.authId, s.redir, s.nonce, s.verifier, s.authTime, s.expiresIn)
		}
	} else if len(sess) > 0 || len(cb.codes) > 0 {
		x.Fail("code-not-asked", "%s: a code was issued", what)
	}
	if f.token {
		if len(toks) != 1 {
			x.Fail("token-count", "%s: %d tokens made", what, len(toks))
			return
		}
		if toks[0].authId != info.id {
			x.Fail("token-grant", "%s: token belongs to authorization %d, want %d", what, toks[0].authId, info.id)
		}
		want["access_token"] = toks[0].access
		want["expires_in"] = fmt.Sprint(toks[0].aExp)
		want["token_type"] = "bearer"
	} else if len(toks) > 0 {
		x.Fail("token-not-asked", "%s: a token was issued", what)
	}
	if f.idtk {
		want["id_token"] = out.params["id_token"]
		if strings.Count(out.params["id_token"], ".") != 2 {
			x.Fail("item/id_token", "%s => %s", what, out)
		}
	}
	for k, v := range want {
		g, has := out.params[k]
		if k == "token_type" {
			g = strings.ToLower(g)
		}
		if !has {
			x.Fail("item-missing/"+k, "%s => %s, no %s", what, out, k)
		} else if g != v {
			x.Fail("item/"+k, "%s => %s = %q, issued %q", what, k, g, v)
		}
	}
	for k, v := range out.params {
		if k == "scope" {
			if v != req.Scope {
				x.Fail("item/scope", "%s => scope %q", what, v)
			}
			continue
		}
		if _, ok := want[k]; !ok {
			x.Fail("item-extra/"+k, "%s => unexpected %s=%q", what, k, v)
		}
	}
}

func c12Cancel(x *X, w *World, req *authorization.Request, r *Resp, cb *CB, from int) {
	what := showReq(req)
	out := readAuthz(r, req.RedirectURI)
	if out.kind != req.ResponseMode || out.target != req.RedirectURI {
		x.Fail("cancel-mode", "cancelled %s => %s (%s)", what, out, r)
		return
	}
	if out.params["error"] != "access_denied" || out.params["state"] != req.State {
		x.Fail("cancel-params", "cancelled %s => %s", what, out)
	}
	for k := range out.params {
		switch k {
		case "error", "state", "error_description", "error_uri":
		default:
			x.Fail("cancel-extra", "cancelled %s => %s", what, out)
		}
	}
	if m := w.mutations(from); len(m) > 0 || len(cb.codes) > 0 {
		x.Fail("cancel-issued", "cancelled %s: %s", what, callList(w.calls[from:]))
	}
}

func c12Req(x *X, rt string) *authorization.Request {
	f := azFlows[rt]
	rq := &authorization.Request{Flow: &flow.Flow{Type: f.typ, RequireAccessToken: f.token, RequireIdToken: f.idtk},
		ClientId: "clienta", RedirectURI: cbA, Scope: "openid profile", ResponseMode: "query", State: "st-1", Nonce: "n-1", Display: "page"}
	if f.typ != flow.AuthorizationCode {
		rq.ResponseMode = "fragment"
	}
	return rq
}

func c12Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	bound, depth := 3, 4
	if th {
		bound, depth = 4, 6
	}
	var out []*Scenario
	fields := func(x *X, rq *authorization.Request) {
		rq.State = PickDev(x, "state", []string{"st-1", "", "é &=\"<", "code", "0"})
		rq.Nonce = PickDev(x, "nonce", []string{"n-1", "", "n&2", "st-1"})
		rq.CodeVerifier = PickDev(x, "verifier", []string{"", "vvv", "v&=+ %é"})
		rq.Scope = PickDev(x, "scope", []string{"openid profile", "", "openid", "profile", "openid offline_access email", "a+b&c openid"})
		rq.Prompt = PickDev(x, "prompt", []string{"", "consent", "login"})
		rq.MaxAge = PickDev(x, "max-age", []int64{0, 60})
		rq.LoginHint = PickDev(x, "hint", []string{"", "sub-8"})
	}
	out = append(out, &Scenario{Name: "completions", Bound: bound, Run: func(x *X) {
		rt := Pick(x, "rt", responseTypes)
		act := x.Choose("action", 2)
		w := newAZ(x)
		rq := c12Req(x, rt)
		if m := x.Dev("mode", 4); m > 0 {
			rq.ResponseMode = []string{"query", "fragment", "form_post"}[m-1]
		}
		if x.Dev("client", 2) == 1 {
			rq.ClientId, rq.RedirectURI = "clientb", cbB
		}
		fields(x, rq)
		cb := w.cb()
		cb.uid = PickDev(x, "uid", []int64{7, 8, 0, -1, 1 << 40})
		cb.authTime = w.now - PickDev(x, "auth-age", []int64{10, 0, 1000000, -50, 1700000000})
		w.pol.AuthSessionExpiresIn = PickDev(x, "session-life", []int{60, 0, 1, 86400, 3600})
		w.pol.IdTokenExpiresIn = PickDev(x, "idt-life", []int{86400, 60})
		w.aLife = PickDev(x, "a-life", []int64{3600, 0, 1, 86400, 1 << 31, 1 << 53})
		switch x.Dev("token-names", 3) {
		case 1:
			w.tokName = func(k string, n int) string { return k + "+/=&?#% \"é<>" }
		case 2:
			w.tokName = func(k string, n int) string { return strings.Repeat(k, 300) }
		}
		switch x.Dev("earlier", 4) {
		case 1:
			w.AddInfo(cb.uid, rq.ClientId, "openid other")
		case 2:
			w.AddInfo(cb.uid, rq.ClientId, rq.Scope).active = false
		case 3:
			w.AddInfo(9, rq.ClientId, rq.Scope)
			i := w.AddInfo(cb.uid, "clientb", "email")
			w.AddSession(i, "code-other", cbB)
			w.AddToken(i, "at-other", "rt-other")
			w.AddInfo(cb.uid, "clienta", "email")
		}
		cb.cont = rq
		// parameters of the HTTP request that completes must not matter
		q := &Req{method: "GET", path: "/done"}
		switch x.Dev("http", 3) {
		case 1:
			q = &Req{method: "POST", path: "/done", body: kvs{{"state", "evil"}, {"nonce", "evil"}, {"scope", "admin"}, {"response_mode", "query"}, {"client_id", "clientb"}, {"response_type", "code token"}}}
		case 2:
			q.query = kvs{{"redirect_uri", "https://evil.example"}, {"state", "evil"}, {"code_verifier", "evil"}}
		}
		q.parsed(w.World)
		sent := *rq
		ae := w.AuthzEndpoint(w.pol)
		if act == 0 {
			r := w.Complete(ae, q, cb)
			c12Judge(x, w.World, w.pol, c12Exp{&sent, cb.uid, cb.authTime, true}, r, cb, 0)
		} else {
			r := w.Cancel(ae, q, cb)
			c12Cancel(x, w.World, &sent, r, cb, 0)
		}
	}})
	out = append(out, &Scenario{Name: "without-consent", Bound: bound, Run: func(x *X) {
		rt := Pick(x, "rt", responseTypes)
		none := x.Choose("prompt-none", 2) == 1
		w := newAZ(x)
		p := azBase(rt)
		if none {
			p = p.with("prompt", "none")
		}
		w.a.ncp, w.a.np = 1, 1
		sc := "openid profile"
		if s := x.Dev("scope", 5); s > 0 {
			sc = []string{"", "profile openid", "openid", "a&b openid", "openid profile offline_access"}[s]
			p = p.with("scope", sc)
		}
		if v := x.Dev("state", 4); v > 0 {
			p = p.with("state", []string{"", "", "é &=\"<", "0"}[v])
		}
		if v := x.Dev("nonce", 3); v > 0 {
			p = p.with("nonce", []string{"", "n2", "n&\""}[v])
		}
		if v := x.Dev("verifier", 3); v > 0 {
			p = p.with("code_verifier", []string{"", "vvv", "v&= é"}[v])
		}
		if v := x.Dev("mode", 4); v > 0 {
			p = p.with("response_mode", []string{"", "query", "fragment", "form_post"}[v])
		}
		if x.Dev("client", 2) == 1 {
			p = p.with("client_id", "clientb").with("redirect_uri", cbB)
			w.b.ncp, w.b.np = 1, 1
		}
		cb := w.cb()
		cb.uid = PickDev(x, "uid", []int64{7, 8, 0})
		cb.authTime = w.now - PickDev(x, "auth-age", []int64{10, 0, 1000000, 1700000000})
		w.pol.AuthSessionExpiresIn = PickDev(x, "session-life", []int{60, 0, 1, 86400})
		w.pol.ConsentOmissionPeriod = PickDev(x, "omit", []int{86400, 100})
		w.aLife = PickDev(x, "a-life", []int64{3600, 0, 1, 86400})
		w.AddInfo(3, "clienta", "openid profile")
		w.AddInfo(cb.uid, "clientb", strings.TrimSuffix(sc, " offline_access"))
		w.AddInfo(cb.uid, "clienta", strings.TrimSuffix(sc, " offline_access"))
		q := azGet(p)
		ref := azValidate(w.World, w.pol, q, cb)
		if x.pert != nil && (ref.screen || len(ref.errs) > 0 || azInteract(w.World, w.pol, cb, ref.client, ref.req, false).kind != "complete") {
			return // not completed: not for this property
		}
		if len(ref.errs) > 0 {
			panic(harnessError{fmt.Sprint(q, ref.errs)})
		}
		r := w.Authorize(w.AuthzEndpoint(w.pol), q, cb)
		c12Judge(x, w.World, w.pol, c12Exp{ref.req, cb.uid, cb.authTime, false}, r, cb, 0)
	}})
	// response mode negotiation, for completions and for errors
	out = append(out, &Scenario{Name: "modes", Run: func(x *X) {
		modes := []string{"query", "fragment", "form_post"}
		w := newAZ(x)
		rt := Pick(x, "rt", responseTypes)
		m := Pick(x, "mode", []string{"", "query", "fragment", "form_post", "bogus", "QUERY", "form post", " query", "web_message"})
		w.pol.DefaultAuthorizationCodeFlowResponseMode = Pick(x, "code-default", modes)
		w.pol.DefaultImplicitFlowResponseMode = Pick(x, "implicit-default", modes)
		w.pol.IgnoreInvalidResponseMode = x.Choose("ignore", 2) == 0
		w.pol.RequireResponseModeSecurityLevelCheck = x.Choose("check", 2) == 0
		then := x.Choose("then", 4)
		p := azBase(rt)
		if m != "" {
			p = p.with("response_mode", m)
		}
		cb := w.cb()
		w.a.ncp = 1
		switch then {
		case 0:
			w.AddInfo(7, "clienta", "openid profile")
		case 1:
			p = p.with("display", "bogus")
		case 2:
			p = p.with("prompt", "none")
		case 3: // consent screen, then completion of what was handed over
		}
		q := azGet(p)
		ref := azValidate(w.World, w.pol, q, cb)
		ae := w.AuthzEndpoint(w.pol)
		r := w.Authorize(ae, q, cb)
		g := readOutcome(r, cb, cbA)
		if g.kind == "bad" {
			x.Fail("malformed", "%s => %s", q, g)
			return
		}
		if g.out != nil && !ref.modes[g.out.kind] {
			x.Fail("mode-policy", "%s (defaults %s/%s, ignore %v, check %v) => delivered by %s, want %s: %s", q, w.pol.DefaultAuthorizationCodeFlowResponseMode,
				w.pol.DefaultImplicitFlowResponseMode, w.pol.IgnoreInvalidResponseMode, w.pol.RequireResponseModeSecurityLevelCheck, g.out.kind, ref.modes, g.out)
		}
		if len(ref.errs) > 0 {
			if g.kind != "error" || !ref.errs[g.out.params["error"]] || g.out.params["state"] != "st-1" {
				x.Fail("mode-rejected", "%s => %s, want %s", q, g, ref.errs)
			}
			return
		}
		switch then {
		case 0:
			c12Judge(x, w.World, w.pol, c12Exp{ref.req, 7, cb.authTime, false}, r, cb, 0)
		case 3:
			if g.kind != "consent" {
				x.Fail("mode-refused", "%s => %s", q, g)
				return
			}
			c2 := w.cb()
			c2.cont = cb.consents[0]
			from := len(w.calls)
			r2 := w.Complete(ae, azGet(nil), c2)
			c12Judge(x, w.World, w.pol, c12Exp{ref.req, 7, c2.authTime, true}, r2, c2, from)
		}
	}})
	// several pending requests finished in any order on one endpoint; requests travel encoded
	out = append(out, &Scenario{Name: "histories", Unit: 4, Loop: true, Run: func(x *X) {
		w := newAZ(x)
		ae := w.AuthzEndpoint(w.pol)
		w.a.ncp, w.b.ncp = 1, 1
		type pend struct {
			enc string
			req *authorization.Request
			uid int64
		}
		var ps []pend
		reqs := []kvs{azBase("code").with("code_verifier", "v-1"), azBase("id_token token").with("state", "st-2").with("nonce", "n-2"),
			azBase("code id_token token").with("state", "").with("client_id", "clientb").with("redirect_uri", cbB).with("scope", "openid"),
			azBase("code").with("response_mode", "form_post").with("nonce", "n-3").with("state", "st-3")}
		uid := int64(7)
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 10)
			x.Stepf("op%d", op)
			switch {
			case op < 4:
				cb := w.cb()
				cb.uid = uid
				q := azGet(reqs[op])
				ref := azValidate(w.World, w.pol, q, cb)
				from := len(w.calls)
				r := w.Authorize(ae, q, cb)
				g := readOutcome(r, cb, ref.ruri)
				switch g.kind {
				case "consent":
					ps = append(ps, pend{cb.consents[0].Encode(), ref.req, uid})
				case "complete":
					c12Judge(x, w.World, w.pol, c12Exp{ref.req, uid, cb.authTime, false}, r, cb, from)
				}
			case op < 8:
				i := 0
				if op%2 == 1 {
					i = len(ps) - 1
				}
				if i >= len(ps) || i < 0 {
					continue
				}
				p := ps[i]
				ps = append(append([]pend{}, ps[:i]...), ps[i+1:]...)
				cb := w.cb()
				cb.uid = p.uid
				cb.authTime = w.now - 77
				cb.cont = authorization.DecodeRequest(p.enc)
				from := len(w.calls)
				if op < 6 {
					r := w.Complete(ae, azGet(nil), cb)
					c12Judge(x, w.World, w.pol, c12Exp{p.req, p.uid, cb.authTime, true}, r, cb, from)
				} else {
					r := w.Cancel(ae, azGet(nil), cb)
					c12Cancel(x, w.World, p.req, r, cb, from)
				}
			case op == 8:
				uid = 15 - uid
			case op == 9:
				w.setNow(w.now + 50)
			}
		}
	}})
	out = withPerturb(out, tier, "completions", "without-consent")
	return withDict(out, tier, false, "completions", "without-consent")
}

var _ = goidc.FromAll
