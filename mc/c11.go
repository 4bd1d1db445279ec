package main

import (
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
)

// C11: nothing is sent to an unverified redirect URI.

func init() {
	register(&Check{
		ID:          "C11",
		Rule:        "every authorization request within the deviation bound (client, URI, duplicates and places of parameters, every later outcome), every single-edit neighbour of registered redirect URIs and client ids, and every history of requests, client record changes, completions and cancellations up to the depth, on the real endpoint: whatever is sent goes to the verified URI followed by response parameters only",
		Assumptions: []string{"registered redirect URIs are absolute, parseable, fragment-free ASCII", "the redirect URI of a continued request is the one the callbacks return for it"},
		Scenarios:   c11Scenarios,
	})
}

func c11Judge(x *X, w *World, q *Req, cb *CB, r *Resp, from int, what string) {
	pr := q.parsed(w)
	ruri := pr.FormValue("redirect_uri")
	c := w.clients[pr.FormValue("client_id")]
	ok := ruri != "" && c != nil && c.redirs[ruri]
	if r.panic_ != "" {
		return // C08
	}
	if !ok {
		if !r.silent() && (r.hdr.Get("Location") != "" || r.hdr.Get("Refresh") != "" || r.status/100 == 3 || r.body.Len() > 0) {
			x.Fail("sent", "%s %s (client or URI not verified) => %s", what, q, r)
		}
		if len(cb.logins)+len(cb.consents) > 0 {
			x.Fail("screen", "%s %s (client or URI not verified): login or consent screen shown", what, q)
		}
		if len(cb.errScreens) != 1 {
			x.Fail("no-error-screen", "%s %s (client or URI not verified): %d error screens", what, q, len(cb.errScreens))
		}
		if m := w.mutations(from); len(m) > 0 || len(cb.codes) > 0 {
			x.Fail("issued", "%s %s (client or URI not verified): %s", what, q, callList(w.calls[from:]))
		}
		if r.ret {
			x.Fail("returned-true", "%s %s (client or URI not verified): handler reports success", what, q)
		}
		return
	}
	c11Target(x, q, r, cb, ruri, what)
	for _, rq := range append(append([]*authorization.Request{}, cb.logins...), cb.consents...) {
		if rq.RedirectURI != ruri || rq.ClientId != c.id {
			x.Fail("screen-for-other", "%s %s: screen shown for client %q URI %q", what, q, rq.ClientId, rq.RedirectURI)
		}
	}
	for _, k := range w.calls[from:] {
		if s, isS := k.Obj.(*Session); isS && k.Name == "CreateAuthSession" && (s.redir != ruri || w.infos[s.authId].clientId != c.id) {
			x.Fail("code-for-other", "%s %s: code issued for client %q URI %q", what, q, w.infos[s.authId].clientId, s.redir)
		}
	}
}

func c11Target(x *X, q *Req, r *Resp, cb *CB, ruri, what string) {
	if r.silent() {
		return
	}
	out := readAuthz(r, ruri)
	if out.kind == "bad" || out.target != ruri {
		x.Fail("target", "%s %s => target is not the redirect URI %q plus parameters: %s (%s)", what, q, ruri, out, r)
		return
	}
	for _, h := range []string{"Refresh", "Link", "Content-Location"} {
		if r.get(h) != "" {
			x.Fail("target-header", "%s %s => header %s: %s", what, q, h, r.get(h))
		}
	}
	if out.kind == "form_post" && (r.get("Location") != "" || strings.Count(strings.ToLower(r.body.String()), "http-equiv") > 0) {
		x.Fail("target-form", "%s %s => %s", what, q, r)
	}
}

func c11Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	bound, depth := 4, 4
	if th {
		bound, depth = 5, 6
	}
	evil := "https://evil.example/cb"
	var out []*Scenario
	out = append(out, &Scenario{Name: "requests", Bound: bound, Run: func(x *X) {
		w := newAZ(x)
		p := azBase(PickDev(x, "rt", append(append([]string{}, responseTypes...), "", "bogus", "none", "code code")))
		dev := func(k string, vs ...string) {
			if n := x.Dev(k, len(vs)+1); n > 0 {
				if vs[n-1] == "-" {
					p = p.without(k)
				} else {
					p = p.with(k, vs[n-1])
				}
			}
		}
		dev("client_id", "-", "", "clientb", "clientc", "CLIENTA", "clienta ")
		dev("redirect_uri", "-", "", cbB, evil, cbA+"/", cbA+"?a=b", cbA+"#f", "https://CLIENTA.example/cb", "javascript:alert(1)", "//clienta.example/cb", "https://clienta.example/cb%2f", "https://clienta.example@evil.example/cb", "%zz", "https://clienta.example/cb\r\nX: y")
		dev("response_mode", "query", "fragment", "form_post", "bogus")
		dev("scope", "-", "openid offline_access", "email")
		dev("prompt", "none", "login", "consent", "bogus")
		dev("display", "bogus")
		dev("max_age", "60", "x")
		dev("nonce", "-")
		dev("state", "-", evil, "a&redirect_uri="+evil)
		q := azGet(p)
		switch x.Dev("place", 8) {
		case 1:
			q = &Req{method: "POST", path: "/authorize", body: p}
		case 2: // duplicate redirect_uri, evil second
			q.query = append(append(kvs{}, p...), kv{"redirect_uri", evil})
		case 3:
			q.query = append(kvs{{"redirect_uri", evil}}, p...)
		case 4: // body and query disagree
			q = &Req{method: "POST", path: "/authorize", body: p, query: kvs{{"redirect_uri", evil}, {"client_id", "clientb"}}}
		case 5:
			q = &Req{method: "POST", path: "/authorize", query: p, body: kvs{{"redirect_uri", evil}}}
		case 6:
			q.query = append(append(kvs{}, p...), kv{"client_id", "clientb"})
		case 7:
			q = &Req{method: "POST", path: "/authorize", query: p, body: kvs{{"client_id", "clientb"}}}
		}
		switch x.Dev("extra", 3) {
		case 1:
			q.header = append(q.header, [2]string{"Referer", evil}, [2]string{"Origin", "https://evil.example"})
		case 2:
			q.query = append(append(kvs{}, q.query...), kv{"request_uri", evil}, kv{"post_logout_redirect_uri", evil}, kv{"url", evil})
		}
		cb := w.cb()
		switch x.Dev("user", 4) {
		case 1:
			cb.login = false
		case 2:
			cb.fromLogin = false
		case 3:
			cb.localeErr = true
		}
		if x.Dev("granted", 2) == 1 {
			w.a.ncp = 1
			w.a.np = 1
			w.AddInfo(7, "clienta", "openid profile")
		}
		switch x.Dev("client-state", 4) {
		case 1:
			delete(w.clients, "clienta")
		case 2:
			w.a.redirs = map[string]bool{}
		case 3:
			w.a.flows = nil
		}
		if x.Dev("fault", 2) == 1 {
			w.faultsOn = true
			w.faultMenu = func(n string, nilable, m bool) []faultKind {
				if nilable {
					return []faultKind{fFailed, fServerError, fNil}
				}
				return []faultKind{fServerError}
			}
		}
		from := len(w.calls)
		r := w.Authorize(w.AuthzEndpoint(w.pol), q, cb)
		if len(w.faulted) > 0 && w.faulted[0] == "FindClientById" && w.faultAt[0] == 0 {
			// the client could not be verified
			if !r.silent() || len(cb.logins)+len(cb.consents) > 0 {
				x.Fail("unverified-sent", "%s with FindClientById failing => %s", q, r)
			}
			return
		}
		c11Judge(x, w.World, q, cb, r, from, "authorize")
	}})
	uris := []string{cbA, cbB, "https://c.example/p%20q/?a=b&c=d%26e", "com.example.app:/cb", "http://127.0.0.1:8080/cb", "http://127.0.0.1/cb", "http://localhost/cb", "http://localhost:3000/cb", "http://[::1]/cb", "http://[::1]:8080/cb", "https://www.clienta.example/cb", "https://clienta.example", "https://clienta.example/", "https://clienta.example:443/cb", "myapp://cb", "http://clienta.example/cb", "http://10.0.0.1/cb", "https://*.clienta.example/cb", "https://clienta.example/*"}
	out = append(out, &Scenario{Name: "uri-edits", Run: func(x *X) {
		w := newAZ(x)
		u := Pick(x, "registered", uris)
		v := Pick(x, "uri", edits(u))
		w.a.redirs = map[string]bool{u: true}
		mode := Pick(x, "mode", []string{"", "form_post"})
		p := azBase(Pick(x, "rt", []string{"code", "bogus", "id_token"})).with("redirect_uri", v)
		if mode != "" {
			p = append(p, kv{"response_mode", mode})
		}
		cb := w.cb()
		q := azGet(append(p, kv{"prompt", "none"}))
		r := w.Authorize(w.AuthzEndpoint(w.pol), q, cb)
		c11Judge(x, w.World, q, cb, r, 0, "authorize")
	}})
	out = append(out, &Scenario{Name: "client-edits", Run: func(x *X) {
		w := newAZ(x)
		id := Pick(x, "id", edits("clienta"))
		q := azGet(azBase(Pick(x, "rt", []string{"code", "bogus"})).with("client_id", id))
		cb := w.cb()
		r := w.Authorize(w.AuthzEndpoint(w.pol), q, cb)
		c11Judge(x, w.World, q, cb, r, 0, "authorize")
	}})
	// the request that completes or cancels carries parameters of its own
	out = append(out, &Scenario{Name: "finishes", Bound: bound - 2, Run: func(x *X) {
		w := newAZ(x)
		rq := c12Req(x, Pick(x, "rt", responseTypes))
		rq.ResponseMode = Pick(x, "mode", []string{"query", "fragment", "form_post"})
		if x.Dev("client", 2) == 1 {
			rq.ClientId, rq.RedirectURI = "clientb", cbB
		}
		names := []string{"redirect_uri", "client_id", "response_mode", "state", "response_type", "error_uri", "continue", "return_to", "scope"}
		vals := []string{evil, cbB, cbA, "clientb", "form_post", "query", "fragment", "code", ""}
		q := &Req{method: "GET", path: "/consent"}
		post := x.Choose("method", 2) == 1
		if post {
			q.method, q.body = "POST", kvs{}
		}
		for i := 0; i < 2; i++ {
			if n := x.Dev("param", len(names)*len(vals)+1); n > 0 {
				p := kv{names[(n-1)/len(vals)], vals[(n-1)%len(vals)]}
				if post && x.Choose("place", 2) == 0 {
					q.body = append(q.body, p)
				} else {
					q.query = append(q.query, p)
				}
			}
		}
		switch x.Dev("header", 3) {
		case 1:
			q.header = append(q.header, [2]string{"Referer", evil}, [2]string{"Origin", "https://evil.example"}, [2]string{"X-Forwarded-Host", "evil.example"})
		case 2:
			q.header = append(q.header, [2]string{"Accept", "application/json"}, [2]string{"X-Requested-With", "XMLHttpRequest"})
		}
		switch x.Dev("records", 4) {
		case 1:
			delete(w.clients, "clienta")
		case 2:
			w.a.redirs = map[string]bool{evil: true}
		case 3:
			w.AddInfo(7, rq.ClientId, "openid")
		}
		if x.Dev("fault", 2) == 1 {
			w.faultsOn = true
			w.faultMenu = func(n string, nilable, m bool) []faultKind { return []faultKind{fServerError} }
		}
		cb := w.cb()
		cb.cont = rq
		q.parsed(w.World)
		sent := *rq
		var r *Resp
		ae := w.AuthzEndpoint(w.pol)
		if x.Choose("action", 2) == 0 {
			r = w.Complete(ae, q, cb)
		} else {
			r = w.Cancel(ae, q, cb)
		}
		if r.panic_ != "" {
			return
		}
		if r.silent() && len(w.faulted) == 0 && w.clients[sent.ClientId] != nil {
			x.Fail("finish-silent", "finishing %s: nothing sent", showReq(&sent))
		}
		c11Target(x, q, r, cb, sent.RedirectURI, "finish "+showReq(&sent))
	}})
	// histories on one shared endpoint, with records changing in between
	out = append(out, &Scenario{Name: "histories", Unit: 4, Loop: true, Run: func(x *X) {
		w := newAZ(x)
		ae := w.AuthzEndpoint(w.pol)
		w.a.ncp, w.b.ncp = 1, 1
		var pending []*authorization.Request
		ask := func(p kvs, login bool) {
			cb := w.cb()
			cb.login = login
			from := len(w.calls)
			q := azGet(p)
			r := w.Authorize(ae, q, cb)
			c11Judge(x, w.World, q, cb, r, from, "authorize")
			pending = append(pending, cb.consents...)
		}
		fin := func(ae *goidc.AuthorizationEndpoint, cancel bool) {
			if len(pending) == 0 {
				return
			}
			rq := pending[len(pending)-1]
			pending = pending[:len(pending)-1]
			cb := w.cb()
			cb.cont = rq
			// parameters of the completing HTTP request must not matter
			q := &Req{method: "POST", path: "/consent", query: kvs{{"redirect_uri", evil}}, body: kvs{{"redirect_uri", evil}, {"client_id", "clientb"}, {"state", "other"}}}
			var r *Resp
			if cancel {
				r = w.Cancel(ae, q, cb)
			} else {
				r = w.Complete(ae, q, cb)
			}
			if r.panic_ != "" {
				x.Fail("panic", "finishing %s: %s", showReq(rq), r)
				return
			}
			if r.silent() {
				x.Fail("finish-silent", "finishing %s: nothing sent", showReq(rq))
			}
			c11Target(x, q, r, cb, rq.RedirectURI, "finish")
		}
		pa := azBase("code")
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 11)
			x.Stepf("op%d", op)
			switch op {
			case 0:
				ask(pa, true)
			case 1:
				ask(pa.with("client_id", "clientb").with("redirect_uri", cbB).with("response_type", "id_token token"), true)
			case 2:
				ask(pa.with("client_id", "clientb"), true) // a's URI, b's id
			case 3:
				ask(pa, false)
			case 4:
				fin(ae, false)
			case 5:
				fin(ae, true)
			case 6:
				if w.a.redirs[cbA] {
					delete(w.a.redirs, cbA)
				} else {
					w.a.redirs[cbA] = true
				}
			case 7:
				if w.clients["clienta"] != nil {
					delete(w.clients, "clienta")
				} else {
					w.clients["clienta"] = w.a
				}
			case 8:
				w.b.redirs[cbA] = !w.b.redirs[cbA]
			case 9:
				ask(pa.with("redirect_uri", evil).with("response_type", "bogus"), true)
			case 10:
				ask(pa.with("response_mode", "form_post").with("prompt", "none"), true)
			}
		}
	}})
	out = withPerturb(out, tier, "requests", "!$finishes")
	return withDict(out, tier, true, "requests", "!finishes")
}
