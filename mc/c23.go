package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/log"
	oer "github.com/lyokato/goidc/oauth_error"
	"github.com/lyokato/goidc/prompt"
)

// C23: the wire form of OAuth errors.

func init() {
	register(&Check{
		ID:   "C23",
		Rule: "every error type x every combination of description, URI, state and realm from the menus through every form; every type returned by a grant handler, every refusal of the token endpoint, the protector and the authorization endpoint, x every error-URI configuration, and every sequence of such refusals on endpoints sharing errors or configuration up to the depth; against the registered codes and statuses",
		Assumptions: []string{
			"values put into headers are printable ASCII",
			"header authentication failures at the token endpoint answer 401 with invalid_client",
		},
		Scenarios: c23Scenarios,
	})
}

type c23Type struct {
	typ    oer.OAuthErrorType
	code   string
	status int
}

var c23Types = []c23Type{
	{oer.ErrAccessDenied, "access_denied", 403},
	{oer.ErrInvalidClient, "invalid_client", 400},
	{oer.ErrInvalidGrant, "invalid_grant", 400},
	{oer.ErrInvalidRequest, "invalid_request", 400},
	{oer.ErrInvalidScope, "invalid_scope", 400},
	{oer.ErrUnauthorizedClient, "unauthorized_client", 400},
	{oer.ErrUnsupportedGrantType, "unsupported_grant_type", 400},
	{oer.ErrUnsupportedResponseType, "unsupported_response_type", 400},
	{oer.ErrServerError, "server_error", 500},
	{oer.ErrTemporarilyUnavailable, "temporarily_unavailable", 500},
	{oer.ErrInvalidToken, "invalid_token", 401},
	{oer.ErrInsufficientScope, "insufficient_scope", 403},
	{oer.ErrInteractionRequired, "interaction_required", 500},
	{oer.ErrLoginRequired, "login_required", 500},
	{oer.ErrAccountSelectionRequired, "account_selection_required", 500},
	{oer.ErrConsentRequired, "consent_required", 500},
	{oer.ErrInvalidRequestURI, "invalid_request_uri", 500},
	{oer.ErrInvalidRequestObject, "invalid_request_object", 500},
	{oer.ErrRequestNotSupported, "request_not_supported", 500},
	{oer.ErrRequestURINotSupported, "request_uri_not_supported", 500},
	{oer.ErrRegistrationNotSupported, "registration_not_supported", 500},
}

func c23ByCode(code string) *c23Type {
	for i := range c23Types {
		if c23Types[i].code == code {
			return &c23Types[i]
		}
	}
	return nil
}

// c23Members compares a set of members with what the error carries.
func c23Members(x *X, key, what string, got map[string]string, want map[string]string) {
	for k, v := range want {
		g, has := got[k]
		if v == "" && has {
			x.Fail(key+"/empty", "%s: member %s present (%q) although the error has none", what, k, g)
		} else if g != v {
			x.Fail(key+"/"+k, "%s: %s = %q, want %q", what, k, g, v)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			x.Fail(key+"/extra", "%s: unexpected member %s", what, k)
		}
	}
}

func c23JSON(x *X, what string, b []byte) (map[string]string, bool) {
	m, err := jsonObj(b)
	if err != nil {
		x.Fail("json", "%s: %v: %s", what, err, b)
		return nil, false
	}
	out := map[string]string{}
	for k, v := range m {
		s, ok := v.(string)
		if !ok {
			x.Fail("json", "%s: member %s is %T", what, k, v)
			return nil, false
		}
		out[k] = s
	}
	return out, true
}

// c23Cfg is an error-URI configuration of an endpoint.
type c23Cfg struct {
	kind  int // 0 none, 1 fixed, 2 per type, 3 per type with gaps
	name  string
	calls []oer.OAuthErrorType
}

func (c *c23Cfg) want(t oer.OAuthErrorType) string {
	switch c.kind {
	case 1:
		return "https://docs.example/" + c.name
	case 2:
		return fmt.Sprintf("https://docs.example/%s/%s?n=%d&x=\"", c.name, t, int(t))
	case 3:
		if int(t)%2 == 0 {
			return ""
		}
		return fmt.Sprintf("https://odd.example/%s/%s", c.name, t)
	}
	return ""
}

func (c *c23Cfg) build(t oer.OAuthErrorType) string { c.calls = append(c.calls, t); return c.want(t) }

func (c *c23Cfg) onTE(te *goidc.TokenEndpoint) {
	switch c.kind {
	case 1:
		te.SetErrorURI(c.want(0))
	case 2, 3:
		te.SetErrorURIBuilder(c.build)
	}
}

func (c *c23Cfg) onRP(rp *goidc.ResourceProtector) {
	switch c.kind {
	case 1:
		rp.SetErrorURI(c.want(0))
	case 2, 3:
		rp.SetErrorURIBulder(c.build)
	}
}

func c23TE(x *X, what string, r *Resp, cfg *c23Cfg, want *oer.OAuthError) {
	if r.panic_ != "" || r.nHeader != 1 {
		x.Fail("token/malformed", "%s => %s", what, r)
		return
	}
	got, ok := c23JSON(x, what, r.body.Bytes())
	if !ok {
		return
	}
	t := c23ByCode(got["error"])
	if t == nil {
		x.Fail("token/code", "%s: error code %q is not registered", what, got["error"])
		return
	}
	basic := strings.HasPrefix(r.get("WWW-Authenticate"), "Basic ")
	if r.status != t.status && !(r.status == 401 && basic && t.code == "invalid_client") {
		x.Fail("token/status", "%s: %s with status %d", what, t.code, r.status)
	}
	uri := cfg.want(t.typ)
	m := map[string]string{"error": t.code, "error_uri": uri, "error_description": got["error_description"]}
	if want != nil {
		if want.URI != "" {
			m["error_uri"] = want.URI
		}
		m["error"], m["error_description"] = c23Types[want.Type].code, want.Description
	}
	c23Members(x, "token", what, got, m)
	for _, c := range cfg.calls {
		if c != t.typ {
			x.Fail("token/uri-type", "%s: error URI asked for %s, error is %s", what, c, t.code)
		}
	}
	if _, has := got["error_description"]; has && got["error_description"] == "" {
		x.Fail("token/empty", "%s: empty description", what)
	}
	cfg.calls = nil
}

func c23RP(x *X, what string, r *Resp, cfg *c23Cfg) {
	if r.panic_ != "" || r.nHeader != 1 || r.ret {
		x.Fail("api/malformed", "%s => %s", what, r)
		return
	}
	if r.status == 500 && r.get("WWW-Authenticate") == "" && r.body.Len() == 0 {
		return // a server failure answered without an OAuth error
	}
	c, err := parseChallenge(r.get("WWW-Authenticate"))
	if err != nil || c.scheme != "Bearer" {
		x.Fail("api/challenge", "%s: %v (%q)", what, err, r.get("WWW-Authenticate"))
		return
	}
	got := map[string]string{}
	for _, p := range c.params {
		if p.v == "" {
			x.Fail("api/empty", "%s: empty member %s", what, p.k)
		}
		if p.k != "realm" {
			got[p.k] = p.v
		}
	}
	t := c23ByCode(got["error"])
	if t == nil {
		x.Fail("api/code", "%s: error code %q is not registered", what, got["error"])
		return
	}
	if r.status != t.status {
		x.Fail("api/status", "%s: %s with status %d", what, t.code, r.status)
	}
	c23Members(x, "api", what, got, map[string]string{"error": t.code, "error_uri": cfg.want(t.typ), "error_description": got["error_description"]})
	for _, c := range cfg.calls {
		if c != t.typ {
			x.Fail("api/uri-type", "%s: error URI asked for %s, error is %s", what, c, t.code)
		}
	}
	cfg.calls = nil
}

// refusal kinds of the token endpoint
const c23NTok = 12

func c23Refuse(w *World, te *goidc.TokenEndpoint, k int) (string, *Resp) {
	a := w.clients["clienta"]
	w.forced = nil
	w.faultsOn = false
	q := tokenReq(a.id, a.secret, kv{"grant_type", "password"}, kv{"username", "alice"}, kv{"password", "pw"})
	a.grants["password"], a.scopes = true, nil
	fail := func(name string, f faultKind) {
		w.forced = func(n, args string) faultKind {
			if n == name {
				return f
			}
			return fNone
		}
	}
	switch k {
	case 0:
		q.body = kvs{}
	case 1:
		q.body = kvs{{"grant_type", "bogus"}}
	case 2:
		q.header = [][2]string{basicHeader(a.id, "wrong")}
	case 3:
		q.header = nil
	case 4:
		a.grants["password"] = false
	case 5:
		q.body = q.body.without("username")
	case 6:
		q.body = q.body.with("password", "bad")
	case 7:
		a.scopes = map[string]bool{}
		q.body = append(q.body, kv{"scope", "admin"})
	case 8:
		fail("FindUserId", fServerError)
	case 9:
		fail("FindClientById", fServerError)
	case 10:
		q.header = nil
		q.body = append(q.body, kv{"client_id", a.id}, kv{"client_secret", "wrong"})
	case 11:
		q.body = kvs{{"grant_type", "authorization_code"}, {"code", "nope"}, {"redirect_uri", cbA}}
	}
	r := w.Token(te, q)
	w.forced = nil
	return q.String(), r
}

func c23Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	depth := 2
	if th {
		depth = 3
	}
	var out []*Scenario
	ascii := []string{"", "plain text.", `q"uote\back`, "a=b, c=\"d\"", "%20+&#;", "x"}
	for _, n := range []int{80, 201, 257, 1025, 5000} {
		ascii = append(ascii, strings.Repeat("long ", n/5)+"x")
	}
	any := append(append([]string{""}, nastyStrings...), strings.Repeat("w ", 120)+"x", strings.Repeat("long ", 250)+"x", "a&state=b&error=c", "\u2028", `\"`, "é")
	uris := []string{"", "https://docs.example/e?x=1&y=%22#f", "urn:x", `"`}
	out = append(out, &Scenario{Name: "forms", Unit: 2, Run: func(x *X) {
		t := Pick(x, "type", c23Types)
		desc := Pick(x, "desc", any)
		uri := Pick(x, "uri", uris)
		ctor := x.Choose("ctor", 3)
		var e *oer.OAuthError
		switch ctor {
		case 0:
			e = oer.NewOAuthDetailedError(t.typ, desc, uri)
		case 1:
			if uri != "" {
				return
			}
			e = oer.NewOAuthError(t.typ, desc)
		case 2:
			if uri != "" || desc != "" {
				return
			}
			e = oer.NewOAuthSimpleError(t.typ)
		}
		what := fmt.Sprintf("%s %q %q", t.code, desc, uri)
		x.Step(what)
		if e.Type != t.typ || e.Description != desc || e.URI != uri {
			x.Fail("constructor", "%s: %+v", what, *e)
		}
		if t.typ.String() != t.code {
			x.Fail("code", "type %d is %q, want %q", int(t.typ), t.typ.String(), t.code)
		}
		if e.StatusCode() != t.status {
			x.Fail("status", "%s: status %d, want %d", t.code, e.StatusCode(), t.status)
		}
		want := map[string]string{"error": t.code, "error_description": desc, "error_uri": uri}
		for i := 0; i < 2; i++ { // twice: the forms leave the error alone
			if got, ok := c23JSON(x, what, e.JSON()); ok {
				c23Members(x, "json", what, got, want)
			}
			for _, st := range append([]string{"st-1"}, any...) {
				qs := e.Query(st)
				v, err := url.ParseQuery(qs)
				if err != nil {
					x.Fail("query", "%s: %v", what, err)
					continue
				}
				got := map[string]string{}
				for k, l := range v {
					if len(l) != 1 {
						x.Fail("query/repeated", "%s: %s", what, qs)
					}
					got[k] = l[0]
				}
				c23Members(x, "query", what+" "+st, got, map[string]string{"error": t.code, "error_description": desc, "error_uri": uri, "state": st})
			}
		}
		if s := e.Error(); !strings.Contains(s, t.code) || !strings.Contains(s, desc) {
			x.Fail("text", "%s: Error() = %q", what, s)
		}
		if e.Type != t.typ || e.Description != desc || e.URI != uri {
			x.Fail("changed", "%s became %+v", what, *e)
		}
	}})
	out = append(out, &Scenario{Name: "header", Unit: 2, Run: func(x *X) {
		t := Pick(x, "type", c23Types)
		desc := Pick(x, "desc", ascii)
		uri := Pick(x, "uri", uris)
		realm := Pick(x, "realm", []string{"", "realm", `r"\x`, "a, error=b"})
		e := oer.NewOAuthDetailedError(t.typ, desc, uri)
		h := e.Header(realm)
		x.Step(h)
		c, err := parseChallenge(h)
		if err != nil || c.scheme != "Bearer" {
			x.Fail("header", "%v: %q", err, h)
			return
		}
		got := map[string]string{}
		for _, p := range c.params {
			got[p.k] = p.v
		}
		c23Members(x, "header", h, got, map[string]string{"error": t.code, "error_description": desc, "error_uri": uri, "realm": realm})
	}})
	// every error a grant handler may return
	out = append(out, &Scenario{Name: "handler-errors", Unit: 2, Run: func(x *X) {
		t := Pick(x, "type", c23Types)
		desc := Pick(x, "desc", any)
		uri := Pick(x, "uri", uris)
		cfg := &c23Cfg{kind: x.Choose("config", 4), name: "te"}
		w := NewWorld(x)
		w.AddClient("clienta", "secreta").grants["custom"] = true
		e := oer.NewOAuthDetailedError(t.typ, desc, uri)
		keep := *e
		te := newTE(w, "realm")
		te.Support(&grant.GrantHandler{Type: "custom", Func: func(r *http.Request, c bridge.Client, sdi bridge.DataInterface, l log.Logger, now time.Time) (*grant.Response, *oer.OAuthError) {
			return nil, e
		}})
		cfg.onTE(te)
		for i := 0; i < 2; i++ {
			c23TE(x, fmt.Sprintf("%s %q %q config %d", t.code, desc, uri, cfg.kind), w.Token(te, tokenReq("clienta", "secreta", kv{"grant_type", "custom"})), cfg, &keep)
		}
	}})
	// every refusal of the endpoints, in sequence, on endpoints with different configurations
	out = append(out, &Scenario{Name: "refusals", Unit: 3, Loop: true, Simple: true, Run: func(x *X) {
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		w.AddUser(7, "alice", "pw")
		i := w.AddInfo(7, a.id, "read")
		w.AddToken(i, "at-one", "")
		old := w.AddToken(i, "at-old", "")
		old.refreshed -= 99999
		c1 := &c23Cfg{kind: x.Choose("config", 4), name: "one"}
		c2 := &c23Cfg{kind: x.Choose("config", 4), name: "two"}
		shared := oer.NewOAuthError(oer.ErrInvalidGrant, "shared")
		mk := func(c *c23Cfg) *goidc.TokenEndpoint {
			te := w.TokenEndpoint()
			te.Support(&grant.GrantHandler{Type: "custom", Func: func(r *http.Request, c bridge.Client, sdi bridge.DataInterface, l log.Logger, now time.Time) (*grant.Response, *oer.OAuthError) {
				return nil, shared
			}})
			c.onTE(te)
			return te
		}
		a.grants["custom"] = true
		t1, t2 := mk(c1), mk(c2)
		r1, r2 := w.Protector(), w.Protector()
		c1.onRP(r1)
		c2.onRP(r2)
		for d := 0; x.more(d, depth); d++ {
			k := x.Choose("refusal", 2*(c23NTok+1+5))
			te, rp, cfg := t1, r1, c1
			if k%2 == 1 {
				te, rp, cfg = t2, r2, c2
			}
			k /= 2
			switch {
			case k < c23NTok:
				what, r := c23Refuse(w, te, k)
				c23TE(x, what, r, cfg, nil)
			case k == c23NTok:
				c23TE(x, "shared error object", w.Token(te, tokenReq("clienta", "secreta", kv{"grant_type", "custom"})), cfg, &oer.OAuthError{Type: oer.ErrInvalidGrant, Description: "shared"})
			default:
				q := &Req{method: "GET", path: "/api", header: [][2]string{{"Authorization", "Bearer at-one"}}}
				switch k - c23NTok - 1 {
				case 0:
					q.header = nil
				case 1:
					q.header[0][1] = "Bearer nope"
				case 2:
					q.header[0][1] = "Bearer at-old"
				case 3:
				case 4:
					w.forced = func(n, args string) faultKind {
						if n == "FindOAuthTokenByAccessToken" {
							return fServerError
						}
						return fNone
					}
				}
				r := w.Validate(rp, q, map[string][]string{"/api": {"admin"}})
				w.forced = nil
				c23RP(x, q.String(), r, cfg)
			}
		}
	}})
	// authorization endpoint: registered codes, no empty or foreign members, in every mode
	ab := 2
	if th {
		ab = 3
	}
	out = append(out, &Scenario{Name: "authorization", Bound: ab, Unit: 4, Run: func(x *X) {
		rt := Pick(x, "rt", []string{"code", "id_token token", "code id_token", "bogus", ""})
		mode := Pick(x, "mode", []string{"", "query", "fragment", "form_post"})
		state := Pick(x, "state", []string{"st-1", "", "a b&error=x"})
		w := newAZ(x)
		p := azBase(rt)
		if mode != "" {
			p = p.with("response_mode", mode)
		}
		p = p.without("state")
		if state != "" {
			p = append(p, kv{"state", state})
		}
		for _, f := range c14Fields[1:] {
			if f.k == "state" || f.k == "client_id" || f.k == "redirect_uri" {
				continue
			}
			if n := x.Dev(f.k, len(f.vs)+1); n > 0 {
				if f.vs[n-1] == "-" {
					p = p.without(f.k)
				} else {
					p = p.with(f.k, f.vs[n-1])
				}
			}
		}
		switch x.Dev("client", 4) {
		case 1:
			w.a.flows = nil
		case 2:
			w.a.scopes = map[string]bool{}
		case 3:
			w.a.np = prompt.NonePromptPolicyAllowWithLoginSession
		}
		cb := w.cb()
		cb.login = x.Dev("login", 2) == 0
		step := x.Dev("cancel", 3)
		w.faultsOn = true
		w.faultMenu = func(name string, nilable, mutating bool) []faultKind {
			if name == "cb.Continue" || name == "FindClientById" {
				return nil
			}
			return []faultKind{fServerError}
		}
		q := azGet(p)
		ae := w.AuthzEndpoint(w.pol)
		var r *Resp
		if step == 0 {
			r = w.Authorize(ae, q, cb)
		} else {
			ref := azValidate(w.World, w.pol, q, cb)
			if ref.req == nil {
				return
			}
			cb.cont = ref.req
			if step == 1 {
				r = w.Cancel(ae, q, cb)
			} else {
				r = w.Complete(ae, q, cb)
			}
		}
		g := readOutcome(r, cb, cbA)
		if g.kind != "error" {
			return // other properties
		}
		code := g.out.params["error"]
		if c23ByCode(code) == nil {
			x.Fail("authz/code", "%s: error code %q is not registered", q, code)
		}
		c23Members(x, "authz", q.String(), g.out.params, map[string]string{"error": code, "error_description": g.out.params["error_description"], "state": state})
		if d, has := g.out.params["error_description"]; has && d == "" {
			x.Fail("authz/empty", "%s: empty error_description", q)
		}
	}})
	// the response writers by themselves
	out = append(out, &Scenario{Name: "writers", Unit: 2, Run: func(x *X) {
		t := Pick(x, "type", c23Types)
		mode := Pick(x, "mode", []string{"query", "fragment", "form_post"})
		desc := Pick(x, "desc", any)
		state := Pick(x, "state", any)
		w := NewWorld(x)
		r := c16Write(w, mode, cbA, func(h authorization.ResponseHandler) { h.Error(cbA, t.code, desc, state) })
		o := readAuthz(r, cbA)
		if o.kind != mode {
			x.Fail("writer/mode", "%s => %s", mode, o)
			return
		}
		nb := func(s string) string {
			if mode == "form_post" {
				return normBreaks(s)
			}
			return s
		}
		got := map[string]string{}
		for k, v := range o.params {
			got[k] = nb(v)
		}
		c23Members(x, "writer", mode, got, map[string]string{"error": t.code, "error_description": nb(desc), "state": nb(state)})
	}})
	return out
}
