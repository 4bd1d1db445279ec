package main

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/basic_auth"
)

// C01: client authentication and grant-type gate of the token endpoint.

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "every token request within the deviation bound of a valid one, for every grant type x credential placement x endpoint configuration, plus every history of requests and client-record changes up to the depth, is served by the real endpoint and compared with a reference decision built on net/http's own parsing",
		Assumptions: []string{
			"net/http's BasicAuth and form parsing are trusted to read the request",
			"a request carrying two credentials may be decided by either",
		},
		Scenarios: c01Scenarios,
	})
}

type credCfg struct {
	meth      goidc.CredentialAcceptanceMethod
	assertion bool
}

var credCfgs = []credCfg{{goidc.FromHeader, false}, {goidc.FromHeader, true}, {goidc.FromHeaderAndPostBody, false},
	{goidc.FromHeaderAndPostBody, true}, {goidc.FromAll, false}, {goidc.FromAll, true}}

type refAuth struct {
	wants  []ErrWant // possible refusals
	client *Client   // may be granted as this client
	sure   bool      // must be granted (client authentication and gate passed)
	alt    *Client   // alternative reading (conflicting credentials)
}

// refClientGate decides, from net/http's reading of the request, what the gate may answer.
// assertOK says which client, if any, a given assertion value authenticates.
func refClientGate(w *World, hr *http.Request, cfg credCfg, supported map[string]bool, assertOK func(a string) *Client) refAuth {
	if hr.Method != "POST" {
		return refAuth{wants: []ErrWant{w405}}
	}
	gt := hr.FormValue("grant_type")
	if gt == "" {
		return refAuth{wants: []ErrWant{wInvalidRequest}}
	}
	if !supported[gt] {
		return refAuth{wants: []ErrWant{wUnsupported}}
	}
	judge := func(cid, sec string, fail ErrWant) refAuth {
		c, ok := w.clients[cid]
		if !ok || c.secret != sec {
			return refAuth{wants: []ErrWant{fail}}
		}
		if !c.grants[gt] {
			return refAuth{wants: []ErrWant{wUnauthClient}}
		}
		return refAuth{client: c, sure: true}
	}
	var got []refAuth
	if cid, sec, ok := hr.BasicAuth(); ok {
		got = append(got, judge(cid, sec, wInvalidClientB))
	}
	partial := false
	var cid, sec string
	switch cfg.meth {
	case goidc.FromHeaderAndPostBody:
		cid, sec = hr.PostFormValue("client_id"), hr.PostFormValue("client_secret")
	case goidc.FromAll:
		cid, sec = hr.FormValue("client_id"), hr.FormValue("client_secret")
	}
	if cid != "" && sec != "" {
		got = append(got, judge(cid, sec, wInvalidClient))
	} else if cid != "" || sec != "" {
		partial = true
	}
	if cfg.assertion {
		ca, cat := hr.FormValue("client_assertion"), hr.FormValue("client_assertion_type")
		if ca != "" && cat == assertionType {
			if c := assertOK(ca); c == nil {
				got = append(got, refAuth{wants: []ErrWant{wInvalidClient, wInvalidGrant, wInvalidRequest}})
			} else if !c.grants[gt] {
				got = append(got, refAuth{wants: []ErrWant{wUnauthClient}})
			} else {
				got = append(got, refAuth{client: c, sure: true})
			}
		}
	}
	if len(got) == 0 {
		ws := []ErrWant{wInvalidClientB}
		if partial {
			ws = append(ws, wInvalidClient)
		}
		return refAuth{wants: ws}
	}
	out := got[0]
	if len(got) > 1 {
		out.sure = false
		out.wants = append(append([]ErrWant{}, out.wants...), wInvalidRequest)
		for _, g := range got[1:] {
			out.wants = append(out.wants, g.wants...)
			if g.client != nil {
				if out.client == nil {
					out.client = g.client
				} else if out.client != g.client {
					out.alt = g.client
				}
			}
		}
	}
	return out
}

func c01World(x *X) (*World, *Client, *Client) {
	w := NewWorld(x)
	a := w.AddClient("clienta", "secreta")
	b := w.AddClient("clientb", "secretb")
	w.AddUser(7, "alice", "pw")
	w.AddUser(8, "bob", "pw2")
	for _, c := range []*Client{a, b} {
		c.akeys["HS256|g"] = keyFor("HS256", 1).pub
		c.akeys["HS256|c"] = keyFor("HS256", 2).pub
	}
	return w, a, b
}

// checkActs verifies that a granted request acted for client c.
func checkActs(x *X, key string, w *World, from int, gt string, c *Client, alt *Client, owner *Client, q fmt.Stringer) {
	ok := func(c *Client) bool {
		if c == nil {
			return false
		}
		muts := w.mutations(from)
		if len(muts) == 0 {
			return false
		}
		for _, m := range muts {
			switch m.Name {
			case "CreateOrUpdateAuthInfo":
				i, _ := m.Obj.(*AuthInfo)
				if i == nil || i.clientId != c.id {
					return false
				}
				if gt == "client_credentials" && i.uid != c.owner {
					return false
				}
			case "CreateOAuthToken", "RefreshAccessToken":
				t, _ := m.Obj.(*Token)
				if t == nil || w.infos[t.authId].clientId != c.id {
					return false
				}
			}
		}
		return true
	}
	if !ok(c) && !ok(alt) {
		x.Fail(key, "granted for another client than the one authenticated (%v): %s; store calls %s", c.id, q, callList(w.mutations(from)))
	}
}

func c01Judge(x *X, w *World, from int, q *Req, r *Resp, ra refAuth, owner *Client) {
	gt := r.req.FormValue("grant_type")
	o := readToken(r)
	if o.bad != "" {
		x.Fail("malformed", "%s => %s", q, o.bad)
		return
	}
	wants := ra.wants
	mustGrant := false
	mayGrant := false
	bound := gt == "authorization_code" || gt == "refresh_token" // parameters belong to one client
	for _, c := range []*Client{ra.client, ra.alt} {
		if c == nil {
			continue
		}
		if bound && c != owner {
			wants = append(wants, wInvalidGrant)
		} else {
			mayGrant = true
			if ra.sure {
				mustGrant = true
			}
		}
	}
	if o.ok {
		if !mayGrant {
			x.Fail("granted", "should be refused (%v): %s => %s", wants, q, o)
			return
		}
		var a, b = ra.client, ra.alt
		checkActs(x, "wrong-client", w, from, gt, a, b, owner, q)
		return
	}
	if mustGrant {
		x.Fail("refused", "valid request refused: %s => %s", q, o)
		return
	}
	if !inWants(o.err, wants) {
		x.Fail("wrong-error", "%s => %s, want one of %v", q, o, wants)
	}
	if len(ra.wants) > 0 && ra.client == nil {
		if m := w.mutations(from); len(m) > 0 {
			x.Fail("refused-but-changed", "%s => %s but store changed: %s", q, o, callList(m))
		}
	}
}

func c01Scenarios(tier string) []*Scenario {
	bound := 3
	depth := 4
	if tier == "thorough" {
		bound = 4
		depth = 6
	}
	var out []*Scenario

	out = append(out, &Scenario{Name: "requests", Bound: bound, Unit: 6, Run: func(x *X) {
		gt := Pick(x, "grant", allGrants)
		place := Pick(x, "place", []string{"header", "body", "query", "assertion", "assertion-query", "none"})
		cfg := Pick(x, "config", credCfgs)
		w, a, b := c01World(x)
		params := w.grantParams(gt, a)
		var rest kvs = params.without("grant_type")

		// endpoint's supported grants
		sup := map[string]bool{}
		for _, g := range allGrants {
			sup[g] = true
		}
		switch x.Dev("supported", 3) {
		case 1:
			delete(sup, gt)
		case 2:
			sup = map[string]bool{gt: true}
		}
		var supList []string
		for _, g := range allGrants {
			if sup[g] {
				supList = append(supList, g)
			}
		}
		// permissions
		switch x.Dev("permitted", 4) {
		case 1:
			delete(a.grants, gt)
		case 2:
			a.grants = map[string]bool{gt: true}
		case 3:
			a.grants = map[string]bool{}
			b.grants = map[string]bool{gt: true}
		}
		method := PickDev(x, "method", []string{"POST", "GET", "PUT", "HEAD", "PATCH", "DELETE", "post", "OPTIONS"})
		gtv := gt
		gtWhere := "body"
		switch x.Dev("gt", 12) {
		case 1:
			gtv = ""
		case 2:
			gtWhere = "absent"
		case 3:
			gtv = "unknown"
		case 4:
			gtv = flipCase(gt)
		case 5:
			gtv = gt + " "
		case 6:
			gtv = gt[:len(gt)-1]
		case 7:
			gtWhere = "query"
		case 8:
			gtv = "password"
		case 9:
			gtv = "client_credentials"
		case 10:
			gtWhere = "twice"
		case 11:
			gtv = " " + gt
		}
		cid := PickDev(x, "cid", []string{a.id, b.id, "unknown", "", "CLIENTA", "clienta ", "client"})
		sec := PickDev(x, "sec", []string{a.secret, b.secret, "", "SECRETA", "secreta ", "secret", "secreta:", "secretaX", "xsecreta", "secretA"})

		q := &Req{method: method, path: "/token", body: kvs{}}
		switch gtWhere {
		case "body":
			q.body = append(q.body, kv{"grant_type", gtv})
		case "query":
			q.query = append(q.query, kv{"grant_type", gtv})
		case "twice":
			q.body = append(q.body, kv{"grant_type", gtv}, kv{"grant_type", "unknown"})
		}
		q.body = append(q.body, rest...)
		if m := strings.ToUpper(method); m != "POST" && m != "PUT" && m != "PATCH" {
			q.query = append(append(kvs{}, q.query...), q.body...)
		}
		genuine := ""
		mk := func() string {
			switch x.Dev("assertion", 8) {
			case 1:
				return signJWS("HS256", keyFor("HS256", 1).sign, `{"alg":"HS256","kid":"c"}`, fmt.Sprintf(`{"sub":%q,"aud":%q,"exp":%d,"jti":"1"}`, cid, w.issuer, w.now+60))
			case 2:
				return signJWS("none", nil, `{"alg":"none"}`, fmt.Sprintf(`{"sub":%q,"aud":%q,"exp":%d,"jti":"1"}`, cid, w.issuer, w.now+60))
			case 3:
				return signJWS("HS256", keyFor("HS256", 2).sign, `{"alg":"HS256","kid":"c"}`, fmt.Sprintf(`{"sub":%q,"aud":"https://other","exp":%d,"jti":"1"}`, cid, w.now+60))
			case 4:
				return signJWS("HS256", keyFor("HS256", 2).sign, `{"alg":"HS256","kid":"c"}`, fmt.Sprintf(`{"sub":%q,"aud":%q,"exp":%d,"jti":"1"}`, cid, w.issuer, w.now-60))
			case 5:
				return signJWS("HS256", keyFor("HS256", 2).sign, `{"alg":"HS256","kid":"c"}`, fmt.Sprintf(`{"iss":%q,"aud":%q,"exp":%d,"jti":"1"}`, cid, w.issuer, w.now+60))
			case 6: // replayed
				w.claims[fmt.Sprintf("%s,%q,%d,%d", cid, "1", -1, w.now+60)] = true
				return signJWS("HS256", keyFor("HS256", 2).sign, `{"alg":"HS256","kid":"c"}`, fmt.Sprintf(`{"sub":%q,"aud":%q,"exp":%d,"jti":"1"}`, cid, w.issuer, w.now+60))
			case 7:
				return ""
			}
			genuine = signJWS("HS256", keyFor("HS256", 2).sign, `{"alg":"HS256","kid":"c"}`, fmt.Sprintf(`{"iss":%q,"sub":%q,"aud":%q,"exp":%d,"jti":"1"}`, cid, cid, w.issuer, w.now+60))
			return genuine
		}
		switch place {
		case "header":
			h := basicHeader(cid, sec)
			enc := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
			switch x.Dev("scheme", 10) {
			case 1:
				h[1] = "basic " + enc(cid+":"+sec)
			case 2:
				h[1] = "Bearer " + enc(cid+":"+sec)
			case 3:
				h[1] = "Basic " + enc(cid+sec)
			case 4:
				h[1] = "Basic !" + enc(cid+":"+sec)
			case 5:
				h[1] = "Basic" + enc(cid+":"+sec)
			case 6:
				h[1] = ""
			case 7:
				h[1] = "Basic " + base64.RawURLEncoding.EncodeToString([]byte(cid+":"+sec))
			case 8:
				h[1] = "Basic " + enc(":"+sec)
			case 9:
				h[0] = "Proxy-Authorization"
			}
			q.header = append(q.header, h)
		case "body":
			q.body = append(q.body, kv{"client_id", cid}, kv{"client_secret", sec})
		case "query":
			q.query = append(q.query, kv{"client_id", cid}, kv{"client_secret", sec})
		case "assertion", "assertion-query":
			typ := PickDev(x, "atype", []string{assertionType, "", "urn:other", assertionType + "x"})
			ps := kvs{{"client_assertion", mk()}, {"client_assertion_type", typ}}
			if place == "assertion" {
				q.body = append(q.body, ps...)
			} else {
				q.query = append(q.query, ps...)
			}
		}
		// an additional, second credential
		switch x.Dev("second", 6) {
		case 1:
			q.header = append(q.header, basicHeader(b.id, b.secret))
		case 2:
			q.body = append(q.body, kv{"client_id", b.id}, kv{"client_secret", b.secret})
		case 3:
			q.query = append(q.query, kv{"client_id", b.id}, kv{"client_secret", b.secret})
		case 4:
			q.body = append(q.body, kv{"client_id", a.id})
		case 5:
			q.query = append(q.query, kv{"client_secret", a.secret})
		}
		if x.Dev("ctype", 2) == 1 {
			q.noType = true
		}
		te := w.TokenEndpoint(supList...)
		te.AcceptClientSecret(cfg.meth)
		te.AcceptClientAssertion(cfg.assertion)
		hr := q.parsed(w)
		ra := refClientGate(w, hr, cfg, sup, func(s string) *Client {
			if s == genuine {
				return w.clients[cid]
			}
			return nil
		})
		// grant parameters must have been readable for the grant itself to succeed
		if ra.sure {
			for _, p := range rest {
				if hr.FormValue(p.k) != p.v {
					ra.sure = false
					ra.wants = append(ra.wants, wInvalidRequest, wInvalidGrant)
				}
			}
			if g := hr.FormValue("grant_type"); g != gt {
				ra.sure = g == "client_credentials"
				if !ra.sure {
					ra.wants = append(ra.wants, wInvalidRequest, wInvalidGrant)
				}
			}
		}
		from := len(w.calls)
		r := w.Token(te, q)
		r.req = hr
		if ra.client != nil && ra.alt == nil && ra.client != a && ra.sure && (gt == jwtGrant) {
			// same key registered for both clients: fine
		}
		c01Judge(x, w, from, q, r, ra, a)
	}})

	// Secrets: every single edit of stored secrets (and ids), in every accepted place.
	out = append(out, &Scenario{Name: "secret-edits", Run: func(x *X) {
		secs := []string{"secreta", "a:b:c", "", "p\u00e4ss w\u00f6rd", "%41+&=", "x", "aaaa"}
		stored := Pick(x, "stored", secs)
		place := Pick(x, "place", []string{"header", "body", "query"})
		cfg := Pick(x, "cfg", []credCfg{{goidc.FromHeader, false}, {goidc.FromHeaderAndPostBody, false}, {goidc.FromAll, false}})
		what := Pick(x, "what", []string{"secret", "id"})
		w, a, b := c01World(x)
		a.secret = stored
		b.secret = "secretb"
		cid, sec := a.id, stored
		if what == "secret" {
			sec = Pick(x, "edit", edits(stored))
		} else {
			cid = Pick(x, "edit", edits(a.id))
		}
		gt := "client_credentials"
		q := &Req{method: "POST", path: "/token", body: kvs{{"grant_type", gt}}}
		switch place {
		case "header":
			q.header = [][2]string{basicHeader(cid, sec)}
		case "body":
			q.body = append(q.body, kv{"client_id", cid}, kv{"client_secret", sec})
		default:
			q.query = append(q.query, kv{"client_id", cid}, kv{"client_secret", sec})
		}
		te := w.TokenEndpoint()
		te.AcceptClientSecret(cfg.meth)
		hr := q.parsed(w)
		ra := refClientGate(w, hr, cfg, map[string]bool{gt: true}, nil)
		from := len(w.calls)
		r := w.Token(te, q)
		r.req = hr
		c01Judge(x, w, from, q, r, ra, a)
	}})

	// The repository's own Basic credential encoder against the endpoint.
	out = append(out, &Scenario{Name: "basic-header-encoder", Run: func(x *X) {
		w, a, _ := c01World(x)
		a.secret = Pick(x, "secret", []string{"secreta", "Abc123-_.~", "a b", "a+b", "a:b", "100%", "p\u00e4ss", "a&b=c"})
		q := &Req{method: "POST", path: "/token", body: kvs{{"grant_type", "client_credentials"}},
			header: [][2]string{{"Authorization", basic_auth.Header(a.id, a.secret)}}}
		r := w.Token(w.TokenEndpoint(), q)
		if o := readToken(r); !o.ok && url.QueryEscape(a.secret) == a.secret {
			x.Fail("basic-encoder-refused", "client with secret %q authenticating with basic_auth.Header is refused: %s", a.secret, o)
		} else if !o.ok {
			x.Fail("basic-form-encoded-secret", "client with secret %q authenticating with basic_auth.Header (form-encoded, as RFC 6749 2.3.1 requires) is refused: %s", a.secret, o)
		}
	}})

	// Histories: one endpoint, the stored record changing between requests.
	out = append(out, &Scenario{Name: "histories", Unit: 4, Loop: true, Run: func(x *X) {
		gt := Pick(x, "grant", []string{"client_credentials", "password"})
		place := Pick(x, "place", []string{"header", "body", "assertion"})
		w, a, b := c01World(x)
		te := w.TokenEndpoint()
		cfg := credCfg{goidc.FromHeaderAndPostBody, true}
		te.AcceptClientSecret(cfg.meth)
		te.AcceptClientAssertion(true)
		secret0 := a.secret
		rot := 0
		sup := map[string]bool{}
		for _, g := range allGrants {
			sup[g] = true
		}
		n := 0
		send := func(cid, sec string, key int) {
			n++
			q := &Req{method: "POST", path: "/token", body: w.grantParams(gt, a)}
			good := ""
			switch place {
			case "header":
				q.header = [][2]string{basicHeader(cid, sec)}
			case "body":
				q.body = append(q.body, kv{"client_id", cid}, kv{"client_secret", sec})
			default:
				as := signJWS("HS256", keyFor("HS256", key).sign, `{"alg":"HS256","kid":"c"}`, fmt.Sprintf(`{"sub":%q,"aud":%q,"exp":%d,"jti":"%d"}`, cid, w.issuer, w.now+60, n))
				q.body = append(q.body, kv{"client_assertion", as}, kv{"client_assertion_type", assertionType})
				if c := w.clients[cid]; c != nil && string(c.akeys["HS256|c"].([]byte)) == string(keyFor("HS256", key).pub.([]byte)) {
					good = as
				}
			}
			hr := q.parsed(w)
			ra := refClientGate(w, hr, cfg, sup, func(s string) *Client {
				if s == good {
					return w.clients[cid]
				}
				return nil
			})
			from := len(w.calls)
			r := w.Token(te, q)
			r.req = hr
			c01Judge(x, w, from, q, r, ra, a)
		}
		saved := a
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 8)
			x.Stepf("op%d", op)
			switch op {
			case 0:
				if c := w.clients[a.id]; c != nil {
					send(a.id, c.secret, 2+rot%2)
				} else {
					send(a.id, saved.secret, 2+rot%2)
				}
			case 1:
				send(a.id, secret0, 2)
			case 2:
				send(a.id, "wrong", 5)
			case 3:
				send(b.id, b.secret, 2)
			case 4:
				rot++
				saved.secret = fmt.Sprintf("rotated%d", rot)
				saved.akeys["HS256|c"] = keyFor("HS256", 2+rot%2).pub
			case 5:
				if saved.grants[gt] {
					delete(saved.grants, gt)
				} else {
					saved.grants[gt] = true
				}
			case 6:
				if _, ok := w.clients[a.id]; ok {
					delete(w.clients, a.id)
				} else {
					w.clients[a.id] = saved
				}
			case 7:
				w.setNow(w.now + 3600)
			}
		}
	}})
	out = withPerturb(out, tier, "!$requests")
	return withDict(out, tier, true, "!requests")
}
