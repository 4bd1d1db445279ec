package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
)

// Reference for the authorization endpoint, written from the properties (OIDC core + policy), not
// from the code: which outcomes a request may have.

type azFlow struct {
	typ         flow.FlowType
	code        bool
	token, idtk bool
}

var azFlows = map[string]azFlow{
	"code":                {flow.AuthorizationCode, true, false, false},
	"token":               {flow.Implicit, false, true, false},
	"id_token":            {flow.Implicit, false, false, true},
	"id_token token":      {flow.Implicit, false, true, true},
	"code id_token":       {flow.Hybrid, true, false, true},
	"code token":          {flow.Hybrid, true, true, false},
	"code id_token token": {flow.Hybrid, true, true, true},
}

var responseTypes = []string{"code", "token", "id_token", "id_token token", "code id_token", "code token", "code id_token token"}

func judgeRT(rt string) (azFlow, bool) {
	l := strings.Split(rt, " ")
	sort.Strings(l)
	f, ok := azFlows[strings.Join(l, " ")]
	return f, ok
}

var modeRank = map[string]int{"query": 0, "fragment": 1, "form_post": 2}

type set map[string]bool

func (s set) add(l ...string) {
	for _, e := range l {
		s[e] = true
	}
}
func (s set) String() string { return "{" + strings.Join(sortedKeys(s), ", ") + "}" }

// azRef is what the validation stage may do with a request.
type azRef struct {
	screen bool // client or redirect URI not verified: error screen only
	ruri   string
	state  string
	errs   set  // refusal codes; empty: proceeds
	loose  bool // an ambiguous value: proceeding is fine too
	modes  set  // acceptable response modes for what is delivered
	req    *authorization.Request
	client *Client
	flow   azFlow
}

// promptTokens returns the prompt set and whether the value is acceptable.
func promptTokens(p string) (set, bool) {
	s := set{}
	if p == "" {
		return s, true
	}
	for _, t := range strings.Split(p, " ") {
		switch t {
		case "none", "login", "consent", "select_account":
			s.add(t)
		default:
			return s, false
		}
	}
	return s, !(s["none"] && len(s) > 1)
}

func removeTokens(list string, toks ...string) string {
	var o []string
	for _, t := range strings.Split(list, " ") {
		drop := false
		for _, r := range toks {
			drop = drop || t == r
		}
		if !drop {
			o = append(o, t)
		}
	}
	return strings.Join(o, " ")
}

// azValidate is the reference for request validation.
func azValidate(w *World, pol *authorization.Policy, q *Req, cb *CB) *azRef {
	r := q.parsed(w)
	v := func(k string) string { return r.FormValue(k) }
	ref := &azRef{errs: set{}, modes: set{}, state: v("state"), ruri: v("redirect_uri")}
	c := w.clients[v("client_id")]
	if v("client_id") == "" || ref.ruri == "" || c == nil || !c.redirs[ref.ruri] {
		ref.screen = true
		return ref
	}
	ref.client = c
	any := func() { ref.modes.add("query", "fragment", "form_post") }
	bad := func(codes ...string) { ref.errs.add(codes...) }
	f, ok := judgeRT(v("response_type"))
	if !ok {
		any()
		if v("response_type") == "" {
			bad("invalid_request")
		} else {
			bad("invalid_request", "unsupported_response_type")
		}
		return ref // nothing else can be judged without a flow, other errors may come first
	}
	ref.flow = f
	def := pol.DefaultImplicitFlowResponseMode
	if f.typ == flow.AuthorizationCode {
		def = pol.DefaultAuthorizationCodeFlowResponseMode
	}
	mode := v("response_mode")
	if mode == "" {
		mode = def
	}
	rank, known := modeRank[mode]
	if !known || (pol.RequireResponseModeSecurityLevelCheck && rank < modeRank[def]) {
		mode = def
		if !pol.IgnoreInvalidResponseMode {
			bad("invalid_request")
		}
	}
	ref.modes.add(mode)
	if !c.flows[f.typ] {
		bad("unauthorized_client")
	}
	display := v("display")
	switch display {
	case "":
		display = "page"
	case "page", "popup", "touch", "wap":
	default:
		bad("invalid_request")
	}
	maxAge := int64(0)
	if s := v("max_age"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		switch {
		case err != nil:
			bad("invalid_request")
		case n < int64(pol.MinMaxAge) || n > int64(pol.MaxMaxAge):
			bad("invalid_request")
		case s != strconv.FormatInt(n, 10):
			bad("invalid_request")
			ref.loose = true
		}
		maxAge = n
	}
	ps, ok := promptTokens(v("prompt"))
	if !ok {
		bad("invalid_request")
	}
	sc := v("scope")
	if hasToken(sc, "offline_access") {
		if f.typ == flow.Implicit || !ps["consent"] {
			sc = removeTokens(sc, "offline_access")
		} else if !pol.AllowEmptyScope && removeTokens(sc, "offline_access", "openid") == "" {
			bad("invalid_request")
		}
	}
	if sc == "" && !pol.AllowEmptyScope {
		bad("invalid_request")
	}
	if f.idtk && !hasToken(sc, "openid") {
		bad("invalid_request")
	}
	if !(c.scopes == nil || c.scopes[f.typ.String()+"|"+sc]) {
		bad("invalid_scope")
	}
	n := v("nonce")
	if n == "" && f.idtk {
		bad("invalid_request")
	}
	if len(n) > pol.MaxNonceLength {
		bad("invalid_request")
	}
	if len(v("code_verifier")) > pol.MaxCodeVerifierLength {
		bad("invalid_request")
	}
	loc := cb.locale
	if loc == "" {
		loc = "loc:" + v("ui_locales")
	}
	ref.req = &authorization.Request{
		Flow: &flow.Flow{Type: f.typ, RequireAccessToken: f.token, RequireIdToken: f.idtk}, ClientId: c.id, RedirectURI: ref.ruri,
		Scope: sc, ResponseMode: mode, State: ref.state, Nonce: n, Display: display, Prompt: v("prompt"), MaxAge: maxAge,
		UILocale: loc, CodeVerifier: v("code_verifier"), IdTokenHint: v("id_token_hint"), LoginHint: v("login_hint"),
	}
	return ref
}

// azWant is the reference outcome of the interaction stage.
type azWant struct {
	kind string // "login", "consent", "complete", "error"
	errs set
}

func (a azWant) String() string {
	if a.kind == "error" {
		return "error " + a.errs.String()
	}
	return a.kind
}

// azInteract is the reference for the login and consent decision. hintOK tells whether the
// id_token_hint is a genuine one for the current user; hintLoose that both answers are fine.
func azInteract(w *World, pol *authorization.Policy, cb *CB, c *Client, req *authorization.Request, hintOK bool) azWant {
	ps, _ := promptTokens(req.Prompt)
	old := req.MaxAge > 0 && w.now-cb.authTime > req.MaxAge
	info := w.findInfo(cb.uid, c.id)
	granted := info != nil && info.active && sameSet(info.scope, req.Scope) && info.authAt+int64(pol.ConsentOmissionPeriod) > w.now
	if ps["none"] {
		e := set{}
		if !cb.login {
			e.add("login_required")
		}
		if old {
			e.add("login_required")
		}
		switch c.np {
		case prompt.NonePromptPolicyForbidden:
			e.add("interaction_required")
		case prompt.NonePromptPolicyAllowIfLoginHintMatched:
			if req.LoginHint == "" || !cb.matches(req.LoginHint) {
				e.add("invalid_request")
			}
		case prompt.NonePromptPolicyAllowIfIdTokenHintMatched:
			if !hintOK {
				e.add("invalid_request")
			}
		}
		if !granted {
			e.add("consent_required")
		}
		if len(e) > 0 {
			return azWant{"error", e}
		}
		return azWant{kind: "complete"}
	}
	if !cb.login || (ps["login"] && !cb.fromLogin) || old {
		return azWant{kind: "login"}
	}
	if ps["consent"] || c.ncp == prompt.NoConsentPromptPolicyForceConsent || !granted {
		return azWant{kind: "consent"}
	}
	return azWant{kind: "complete"}
}

func (c *CB) matches(sub string) bool {
	if c.subOK != nil {
		return c.subOK(sub)
	}
	return sub == fmt.Sprintf("sub-%d", c.uid)
}

// azGot is what was observed.
type azGot struct {
	kind string // "screen", "login", "consent", "error", "complete", "bad"
	out  *authzOut
	why  string
}

func (g azGot) String() string {
	switch g.kind {
	case "bad":
		return "bad: " + g.why
	case "error", "complete":
		return g.kind + " " + g.out.String()
	}
	return g.kind
}

// readOutcome classifies the handling of one request (fresh CB).
func readOutcome(r *Resp, cb *CB, ruri string) azGot {
	if r.crashed != "" {
		return azGot{kind: "bad", why: "crashed in " + r.crashed}
	}
	if r.panic_ != "" {
		return azGot{kind: "bad", why: "handler panicked: " + r.panic_}
	}
	n := len(cb.errScreens) + len(cb.logins) + len(cb.consents)
	if n > 1 {
		return azGot{kind: "bad", why: fmt.Sprintf("%d error, %d login and %d consent screens shown", len(cb.errScreens), len(cb.logins), len(cb.consents))}
	}
	out := readAuthz(r, ruri)
	if n == 1 {
		if out.kind != "none" {
			return azGot{kind: "bad", why: "a screen was shown and a response written: " + out.String()}
		}
		switch {
		case len(cb.errScreens) == 1:
			return azGot{kind: "screen"}
		case len(cb.logins) == 1:
			return azGot{kind: "login"}
		}
		return azGot{kind: "consent"}
	}
	switch out.kind {
	case "none":
		return azGot{kind: "bad", why: "neither screen nor response"}
	case "bad":
		return azGot{kind: "bad", why: out.why, out: out}
	}
	if _, isErr := out.params["error"]; isErr {
		for _, k := range []string{"code", "access_token", "id_token"} {
			if _, has := out.params[k]; has {
				return azGot{kind: "bad", why: "error response with " + k + ": " + out.String(), out: out}
			}
		}
		return azGot{kind: "error", out: out}
	}
	return azGot{kind: "complete", out: out}
}

func sameReq(a, b *authorization.Request) bool { return reflect.DeepEqual(a, b) }

func showReq(r *authorization.Request) string {
	if r == nil {
		return "nil"
	}
	f := "nil"
	if r.Flow != nil {
		f = fmt.Sprintf("%+v", *r.Flow)
	}
	c := *r
	c.Flow = nil
	return fmt.Sprintf("%+v flow=%s", c, f)
}

// --- worlds for authorization checks --------------------------------------------------

const cbA = "https://clienta.example/cb"
const cbB = "https://clientb.example/cb?x=1"

type azWorld struct {
	*World
	pol  *authorization.Policy
	a, b *Client
}

func newAZ(x *X) *azWorld {
	w := NewWorld(x)
	a := w.AddClient("clienta", "secreta")
	a.redirs[cbA] = true
	b := w.AddClient("clientb", "secretb")
	b.redirs[cbB] = true
	w.AddUser(7, "alice", "pw")
	return &azWorld{w, authorization.DefaultPolicy(), a, b}
}

func (w *azWorld) cb() *CB {
	cb := &CB{w: w.World, login: true, uid: 7, fromLogin: true, authTime: w.now - 10}
	w.cbs = append(w.cbs, cb)
	return cb
}

func azBase(rt string) kvs {
	return kvs{{"client_id", "clienta"}, {"redirect_uri", cbA}, {"response_type", rt}, {"scope", "openid profile"}, {"state", "st-1"}, {"nonce", "n-1"}}
}

func azGet(p kvs) *Req { return &Req{method: "GET", path: "/authorize", query: p} }
