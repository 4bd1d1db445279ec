package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"
	"github.com/lyokato/goidc/prompt"
)

// C17: requests do not influence one another except through the store.
//
// The reference is the code itself: what a request does alone, as the only request of a fresh
// process with fresh endpoints.  Whatever happened before or happens in between on shared endpoint
// objects must not change it, unless the stored data did.

func init() {
	register(&Check{
		ID:   "C17",
		Rule: "every sequence (pairs, triples; four-request histories in the thorough run) of the request kinds on shared endpoint objects and every interleaving of two requests up to the preemption bound, at every store call, callback, entity getter, body read, response write, log, clock and error-URI call, runs on the real handlers; each request's response, store calls, screens, identity headers and log messages are compared with those of the same request served alone in a fresh process; requests that share records are compared with the same schedule on separate endpoint objects; all pairs also run under the race detector with no synchronisation between them but the code's own",
		Assumptions: []string{
			"requests of one execution touch different records unless the scenario says otherwise, so the stored data each one sees is the same as alone",
			"a switch between requests can only happen at the harness's interfaces (store, callbacks, entities, HTTP, log, clock); races between them are the race detector's part",
		},
		Scenarios: c17Scenarios,
		Extra:     c17Race,
	})
}

// env17 is one process's provider: a store and two differently configured sets of endpoints.
type env17 struct {
	w   *World
	te  [2]http.HandlerFunc
	rp  [2]*goidc.ResourceProtector
	ae  [2]*goidc.AuthorizationEndpoint
	cnt [260]int
	teo [2]*goidc.TokenEndpoint

	oneRealm bool // both sets name the same realm
}

// scopes every user asks for, in other than alphabetical order
const (
	scope17  = "write openid offline_access read"
	scope17x = "write openid read"
	scope17r = "read openid write"
)

var slotNames = func() []string {
	l := []string{"ann", "bob", "cyd"}
	for len(l) < 260 {
		l = append(l, fmt.Sprintf("%c%c%03d", 'a'+len(l)*7%26, 'a'+len(l)*11%26, len(l)))
	}
	return l
}()

// uid17 is the user id of slot s; base ids are ten apart.
func uid17(base int64, s int) int64 { return base + int64(s%10) + 1000*int64(s/10) }

func (e *env17) point(l string) { e.w.point(l) }

// build17 fills the store for all slots.
func build17(x *X, slots int) *env17 {
	w := NewWorld(x)
	e := &env17{w: w}
	w.idtLife = 345
	w.logs = &LogRec{w: w, keep: true}
	w.tokName = func(kind string, n int) string {
		s := w.slot
		if w.sched != nil {
			s = w.slotOf[w.thread()]
		}
		e.cnt[s]++
		return fmt.Sprintf("%s-%s-%d", kind, slotNames[s], e.cnt[s])
	}
	a := w.AddClient("shared", "secret-shared")
	a.scopes = map[string]bool{}
	a.ncp = prompt.NoConsentPromptPolicyOmitConsentIfCan
	a.np = prompt.NonePromptPolicyAllowWithLoginSession
	b := w.AddClient("basic", "secret-basic")
	b.grants = map[string]bool{"authorization_code": true}
	b.flows = map[flow.FlowType]bool{flow.AuthorizationCode: true}
	b.ncp = prompt.NoConsentPromptPolicyForceConsent
	hint := w.AddClient("hinted", "secret-hinted")
	hint.np = prompt.NonePromptPolicyAllowIfLoginHintMatched
	for s, n := range slotNames[:slots] {
		w.AddClient("own-"+n, "secret-own-"+n).owner = uid17(500, s)
		cbu := "https://shared.example/cb-" + n
		a.redirs[cbu], b.redirs[cbu+"?x="+n], hint.redirs[cbu] = true, true, true
		for _, sc := range []string{"openid profile " + n, "openid " + n + " offline_access", n} {
			for _, f := range []string{"authorization_code", "implicit", "hybrid", "direct_grant"} {
				a.scopes[f+"|"+sc] = true
			}
		}
		w.AddUser(uid17(10, s), "user-"+n, "pass-"+n)
		w.AddUser(uid17(20, s), "jwt-"+n, "pass2-"+n)
		// authorizations that exist already, so that identifiers do not depend on the order of requests
		for _, u := range []int64{10, 20, 30, 40} {
			i := w.AddInfo(uid17(u, s), "shared", "openid profile "+n)
			i.active = u != 40
			w.AddInfo(uid17(u, s), "hinted", "openid profile "+n)
			w.AddInfo(uid17(u, s), "basic", "openid "+n)
		}
		w.AddInfo(uid17(500, s), "own-"+n, "x").active = false
		w.AddInfo(uid17(50, s), "shared", n)
		i := w.findInfo(uid17(30, s), "shared")
		i.scope = "openid " + n + " offline_access"
		ss := w.AddSession(i, "code-"+n, cbu)
		ss.nonce = "nonce-" + n
		sp := w.AddSession(i, "pkce-"+n, cbu)
		sp.verifier = "verifier-" + n
		w.AddToken(i, "at-"+n, "rt-"+n)
		old := w.AddToken(i, "old-"+n, "oldrt-"+n)
		old.refreshed, old.created = w.now-99999, w.now-999999
		dead := w.AddInfo(uid17(60, s), "shared", "openid")
		dead.active = false
		w.AddToken(dead, "dead-"+n, "deadrt-"+n)
	}
	// everybody asks for the same scopes
	for _, f := range []string{"authorization_code", "implicit", "hybrid", "direct_grant"} {
		for _, sc := range []string{scope17, scope17x, scope17r} {
			a.scopes[f+"|"+sc] = true
		}
	}
	for s, n := range slotNames[:slots] {
		w.AddInfo(uid17(70, s), "shared", scope17)
		w.AddInfo(uid17(80, s), "shared", scope17r)
		w.AddToken(w.AddInfo(uid17(90, s), "shared", scope17), "common-"+n, "commonrt-"+n)
		w.AddSession(w.findInfo(uid17(70, s), "shared"), "commoncode-"+n, "https://shared.example/cb-"+n)
	}
	w.forced = func(name, args string) faultKind {
		if strings.HasPrefix(args, "broken") {
			return fServerError
		}
		return fNone
	}
	return e
}

// endpoints builds set k on store e.
func (e *env17) endpoints(k int) {
	w := e.w
	if k == 0 {
		te := w.TokenEndpoint()
		te.AcceptClientSecret(goidc.FromAll)
		te.AcceptClientAssertion(true)
		te.SetErrorURIBuilder(func(t oer.OAuthErrorType) string {
			e.point("errorURI")
			return "https://docs.example/one#" + t.String()
		})
		rp := newRP(w, "realm-one")
		rp.AcceptAccessToken(goidc.FromAll)
		rp.SetErrorURI("https://docs.example/api")
		p := authorization.DefaultPolicy()
		p.AuthSessionExpiresIn = 71
		e.te[0], e.rp[0], e.ae[0] = te.Handler(w), rp, w.AuthzEndpoint(p)
		e.teo[0] = te
		return
	}
	realm := "realm-two"
	if e.oneRealm {
		realm = "realm-one"
	}
	te := newTE(w, realm)
	te.Support(grant.AuthorizationCode())
	te.Support(grant.RefreshToken())
	rp := newRP(w, realm)
	p := authorization.DefaultPolicy()
	p.AllowEmptyScope = true
	p.DefaultAuthorizationCodeFlowResponseMode = "form_post"
	p.DefaultImplicitFlowResponseMode = "form_post"
	p.IgnoreInvalidResponseMode = false
	p.AuthSessionExpiresIn = 13
	p.IdTokenExpiresIn = 77
	p.ConsentOmissionPeriod = 0
	p.MaxNonceLength = 5
	e.te[1], e.rp[1], e.ae[1] = te.Handler(w), rp, w.AuthzEndpoint(p)
	e.teo[1] = te
}

// common17 is the application's own scope table, handed over with every call.
var common17 = map[string][]string{"/api": {"write", "read", "openid"}}

func user17(base int64) func(cb *CB, n string, s int) {
	return func(cb *CB, n string, s int) { cb.uid = uid17(base, s) }
}

type kind17 struct {
	name string
	set  int
	run  func(e *env17, n string, s int) (*Resp, *CB)
}

func (e *env17) serve(q *Req, f func(r *Resp, hr *http.Request)) *Resp {
	r := newResp(e.w)
	hr := q.build(e.w)
	r.req = hr
	guard(r, func() { f(r, hr) })
	return r
}

func tk(name string, set int, req func(e *env17, n string, s int) *Req) kind17 {
	return kind17{name, set, func(e *env17, n string, s int) (*Resp, *CB) {
		q := req(e, n, s)
		return e.serve(q, func(r *Resp, hr *http.Request) { e.te[set](r, hr) }), nil
	}}
}

func pk(name string, set int, scopes func(n string) map[string][]string, req func(n string) *Req) kind17 {
	return kind17{name, set, func(e *env17, n string, s int) (*Resp, *CB) {
		q := req(n)
		return e.serve(q, func(r *Resp, hr *http.Request) {
			if scopes != nil {
				r.ret = e.rp[set].ValidateWithScopes(r, hr, e.w, scopes(n))
			} else {
				r.ret = e.rp[set].Validate(r, hr, e.w)
			}
		}), nil
	}}
}

func zk(name string, set int, op string, ps func(n string) kvs, tweak func(cb *CB, n string, s int)) kind17 {
	return kind17{name, set, func(e *env17, n string, s int) (*Resp, *CB) {
		cb := &CB{w: e.w, login: true, uid: uid17(10, s), fromLogin: false, authTime: e.w.now - uid17(100, s), locale: "loc-" + n}
		q := &Req{method: "POST", path: "/" + op}
		if op == "handle" {
			q = azGet(ps(n))
		} else {
			cb.cont = &authorization.Request{Flow: &flow.Flow{Type: flow.AuthorizationCode}, ClientId: "shared", Scope: "openid profile " + n,
				RedirectURI: "https://shared.example/cb-" + n, ResponseMode: "query", State: "state-" + n, Nonce: "nonce-" + n, CodeVerifier: "ver-" + n}
		}
		if tweak != nil {
			tweak(cb, n, s)
		}
		return e.serve(q, func(r *Resp, hr *http.Request) {
			switch op {
			case "handle":
				r.ret = e.ae[set].HandleRequest(r, hr, cb)
			case "complete":
				r.ret = e.ae[set].CompleteRequest(r, hr, cb)
			case "cancel":
				r.ret = e.ae[set].CancelRequest(r, hr, cb)
			}
		}), cb
	}}
}

func shr(ps ...kv) *Req { return tokenReq("shared", "secret-shared", ps...) }

func azp(n, rt string, more ...kv) kvs {
	p := kvs{{"client_id", "shared"}, {"redirect_uri", "https://shared.example/cb-" + n}, {"response_type", rt}, {"scope", "openid profile " + n},
		{"state", "state-" + n}, {"nonce", "n-" + n}}
	for _, e := range more {
		if e.v == "" {
			p = p.without(e.k)
		} else {
			p = p.with(e.k, e.v)
		}
	}
	return p
}

func bearer(tok string) *Req {
	return &Req{method: "GET", path: "/api", header: [][2]string{{"Authorization", "Bearer " + tok}, {"X-OAUTH-USER-ID", "999"}}}
}

func (e *env17) assertion17(sub, aud, jti string) string {
	return signJWS("HS256", keyFor("HS256", 1).sign, `{"alg":"HS256","typ":"JWT","kid":"k17"}`,
		fmt.Sprintf(`{"iss":%q,"sub":%q,"aud":%q,"exp":%d,"jti":%q}`, sub, sub, aud, e.w.now+200, jti))
}

var kinds17 = []kind17{
	tk("code", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "authorization_code"}, kv{"code", "code-" + n}, kv{"redirect_uri", "https://shared.example/cb-" + n})
	}),
	tk("code-pkce", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "authorization_code"}, kv{"code", "pkce-" + n}, kv{"redirect_uri", "https://shared.example/cb-" + n},
			kv{"code_challenge", "verifier-" + n}, kv{"code_challenge_method", "plain"})
	}),
	tk("code-wrong-uri", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "authorization_code"}, kv{"code", "code-" + n}, kv{"redirect_uri", "https://shared.example/cc-" + n})
	}),
	tk("code-wrong-pkce", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "authorization_code"}, kv{"code", "pkce-" + n}, kv{"redirect_uri", "https://shared.example/cb-" + n},
			kv{"code_challenge", "other-" + n}, kv{"code_challenge_method", "S256"})
	}),
	tk("code-missing", 0, func(e *env17, n string, s int) *Req { return shr(kv{"grant_type", "authorization_code"}) }),
	tk("refresh", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "refresh_token"}, kv{"refresh_token", "rt-" + n})
	}),
	tk("refresh-old", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "refresh_token"}, kv{"refresh_token", "oldrt-" + n})
	}),
	tk("password", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "password"}, kv{"username", "user-" + n}, kv{"password", "pass-" + n}, kv{"scope", "openid " + n + " offline_access"})
	}),
	tk("password-wrong", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "password"}, kv{"username", "user-" + n}, kv{"password", "nope-" + n})
	}),
	tk("password-scope", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "password"}, kv{"username", "user-" + n}, kv{"password", "pass-" + n}, kv{"scope", "evil-" + n})
	}),
	tk("client-credentials", 0, func(e *env17, n string, s int) *Req {
		return &Req{method: "POST", path: "/token", body: kvs{{"grant_type", "client_credentials"}, {"client_id", "own-" + n}, {"client_secret", "secret-own-" + n}, {"scope", "s-" + n}}}
	}),
	tk("jwt", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", jwtGrant}, kv{"assertion", e.assertion17("sub-jwt-"+n, e.w.issuer, "j"+n)}, kv{"scope", n})
	}),
	tk("jwt-bad-aud", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", jwtGrant}, kv{"assertion", e.assertion17("sub-jwt-"+n, "https://"+n+".example", "j2"+n)})
	}),
	tk("client-assertion", 0, func(e *env17, n string, s int) *Req {
		return &Req{method: "POST", path: "/token", body: kvs{{"grant_type", "client_credentials"}, {"client_assertion_type", assertionType},
			{"client_assertion", e.assertion17("own-"+n, e.w.issuer, "ca"+n)}}}
	}),
	tk("bad-assertion", 0, func(e *env17, n string, s int) *Req {
		return &Req{method: "POST", path: "/token", body: kvs{{"grant_type", "client_credentials"}, {"client_assertion_type", assertionType}, {"client_assertion", "a.b." + n}}}
	}),
	tk("bad-secret", 0, func(e *env17, n string, s int) *Req {
		return tokenReq("shared", "wrong-"+n, kv{"grant_type", "password"})
	}),
	tk("bad-secret-body", 0, func(e *env17, n string, s int) *Req {
		return &Req{method: "POST", path: "/token", body: kvs{{"grant_type", "password"}, {"client_id", "who-" + n}, {"client_secret", "wrong-" + n}}}
	}),
	tk("no-credential", 0, func(e *env17, n string, s int) *Req {
		return &Req{method: "POST", path: "/token", body: kvs{{"grant_type", "password"}, {"username", "user-" + n}}}
	}),
	tk("no-grant", 0, func(e *env17, n string, s int) *Req { return shr(kv{"scope", n}) }),
	tk("unsupported", 0, func(e *env17, n string, s int) *Req { return shr(kv{"grant_type", "magic-" + n}) }),
	tk("not-permitted", 0, func(e *env17, n string, s int) *Req {
		return tokenReq("basic", "secret-basic", kv{"grant_type", "password"}, kv{"username", "user-" + n}, kv{"password", "pass-" + n})
	}),
	tk("get", 0, func(e *env17, n string, s int) *Req {
		return &Req{method: "GET", path: "/token", query: kvs{{"grant_type", "password"}, {"username", "user-" + n}}}
	}),
	tk("broken-store", 0, func(e *env17, n string, s int) *Req {
		return tokenReq("broken-"+n, "x", kv{"grant_type", "password"})
	}),
	tk("2/code", 1, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "authorization_code"}, kv{"code", "code-" + n}, kv{"redirect_uri", "https://shared.example/cb-" + n})
	}),
	tk("2/unsupported", 1, func(e *env17, n string, s int) *Req { return shr(kv{"grant_type", "password"}) }),
	tk("2/bad-secret", 1, func(e *env17, n string, s int) *Req {
		return tokenReq("shared", "wrong2-"+n, kv{"grant_type", "refresh_token"})
	}),
	tk("2/body-credentials", 1, func(e *env17, n string, s int) *Req {
		return &Req{method: "POST", path: "/token", body: kvs{{"grant_type", "refresh_token"}, {"refresh_token", "rt-" + n}, {"client_id", "shared"}, {"client_secret", "secret-shared"}}}
	}),

	pk("api", 0, nil, func(n string) *Req { return bearer("at-" + n) }),
	pk("api-query", 0, nil, func(n string) *Req {
		return &Req{method: "GET", path: "/api", query: kvs{{"access_token", "at-" + n}}}
	}),
	pk("api-scoped", 0, func(n string) map[string][]string { return map[string][]string{"/api": {n, "openid"}} }, func(n string) *Req { return bearer("at-" + n) }),
	pk("api-insufficient", 0, func(n string) map[string][]string { return map[string][]string{"/api": {"need-" + n}} }, func(n string) *Req { return bearer("at-" + n) }),
	pk("api-none", 0, nil, func(n string) *Req { return &Req{method: "GET", path: "/api-" + n} }),
	pk("api-unknown", 0, nil, func(n string) *Req { return bearer("zz-" + n) }),
	pk("api-expired", 0, nil, func(n string) *Req { return bearer("old-" + n) }),
	pk("api-revoked", 0, nil, func(n string) *Req { return bearer("dead-" + n) }),
	pk("api-broken-store", 0, nil, func(n string) *Req { return bearer("broken-" + n) }),
	pk("2/api", 1, nil, func(n string) *Req { return bearer("at-" + n) }),
	pk("2/api-query", 1, nil, func(n string) *Req {
		return &Req{method: "GET", path: "/api", query: kvs{{"access_token", "at-" + n}}}
	}),
	pk("2/api-unknown", 1, nil, func(n string) *Req { return bearer("zz-" + n) }),

	zk("authz-code", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"code_verifier", "v-" + n}) }, nil),
	zk("authz-implicit", 0, "handle", func(n string) kvs { return azp(n, "id_token token") }, nil),
	zk("authz-form", 0, "handle", func(n string) kvs {
		return azp(n, "code id_token", kv{"response_mode", "form_post"})
	}, nil),
	zk("authz-none", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"prompt", "none"}, kv{"max_age", "600"}) }, nil),
	zk("authz-none-nologin", 0, "handle", func(n string) kvs { return azp(n, "token", kv{"prompt", "none"}) }, func(cb *CB, n string, s int) { cb.login = false }),
	zk("authz-none-forbidden", 0, "handle", func(n string) kvs {
		return azp(n, "code", kv{"client_id", "basic"}, kv{"redirect_uri", "https://shared.example/cb-" + n + "?x=" + n}, kv{"prompt", "none"})
	}, nil),
	zk("authz-hinted", 0, "handle", func(n string) kvs {
		return azp(n, "code", kv{"client_id", "hinted"}, kv{"prompt", "none"}, kv{"login_hint", "hint-" + n})
	}, func(cb *CB, n string, s int) { cb.subOK = func(sub string) bool { return sub == "hint-"+n } }),
	zk("authz-consent", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"prompt", "consent"}, kv{"ui_locales", n}) }, nil),
	zk("authz-reconsent", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"scope", n}) }, nil),
	zk("authz-forced-consent", 0, "handle", func(n string) kvs {
		return azp(n, "code", kv{"client_id", "basic"}, kv{"redirect_uri", "https://shared.example/cb-" + n + "?x=" + n}, kv{"scope", "openid " + n})
	}, nil),
	zk("authz-touch", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"display", "touch"}, kv{"response_mode", "fragment"}) }, nil),
	zk("authz-wap", 0, "handle", func(n string) kvs {
		return azp(n, "code token", kv{"display", "wap"}, kv{"ui_locales", "xx-" + n}, kv{"max_age", "9999"}, kv{"login_hint", "h-" + n})
	}, nil),
	zk("authz-plain", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"scope", n}) }, user17(50)),
	zk("authz-token", 0, "handle", func(n string) kvs { return azp(n, "token", kv{"scope", n}, kv{"nonce", ""}) }, user17(50)),
	zk("authz-id-token", 0, "handle", func(n string) kvs { return azp(n, "id_token", kv{"state", ""}) }, nil),
	zk("authz-all", 0, "handle", func(n string) kvs {
		return azp(n, "code id_token token", kv{"scope", "openid " + n + " offline_access"})
	}, user17(30)),
	zk("authz-noopenid-id", 0, "handle", func(n string) kvs { return azp(n, "code id_token", kv{"scope", n}) }, user17(50)),
	zk("authz-login", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"prompt", "login"}, kv{"display", "popup"}) }, nil),
	zk("authz-bad-scope", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"scope", "bad-" + n}) }, nil),
	zk("authz-bad-type", 0, "handle", func(n string) kvs { return azp(n, "magic-"+n) }, nil),
	zk("authz-flow", 0, "handle", func(n string) kvs {
		return azp(n, "token", kv{"client_id", "basic"}, kv{"redirect_uri", "https://shared.example/cb-" + n + "?x=" + n})
	}, nil),
	zk("authz-bad-uri", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"redirect_uri", "https://evil.example/" + n}) }, nil),
	zk("authz-no-client", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"client_id", ""}) }, nil),
	zk("authz-broken-store", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"client_id", "broken-" + n}) }, nil),
	zk("common-code", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"scope", scope17}) }, user17(70)),
	zk("common-offline", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"scope", scope17}, kv{"prompt", "consent"}) }, user17(70)),
	zk("common-implicit", 0, "handle", func(n string) kvs { return azp(n, "id_token token", kv{"scope", scope17}) }, user17(80)),
	zk("common-granted", 0, "handle", func(n string) kvs { return azp(n, "code", kv{"scope", scope17x}) }, user17(80)),
	zk("common-other", 0, "handle", func(n string) kvs { return azp(n, "code token", kv{"scope", scope17r}) }, user17(70)),
	tk("common-redeem", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "authorization_code"}, kv{"code", "commoncode-" + n}, kv{"redirect_uri", "https://shared.example/cb-" + n})
	}),
	tk("common-refresh", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "refresh_token"}, kv{"refresh_token", "commonrt-" + n})
	}),
	tk("common-password", 0, func(e *env17, n string, s int) *Req {
		return shr(kv{"grant_type", "password"}, kv{"username", "user-" + n}, kv{"password", "pass-" + n}, kv{"scope", scope17})
	}),
	pk("common-api", 0, func(n string) map[string][]string { return common17 }, func(n string) *Req { return bearer("common-" + n) }),
	pk("common-api-missing", 0, func(n string) map[string][]string {
		return map[string][]string{"/api": {"write", "zzz", "openid", "aaa"}}
	}, func(n string) *Req { return bearer("common-" + n) }),
	zk("complete", 0, "complete", nil, nil),
	zk("complete-hybrid", 0, "complete", nil, func(cb *CB, n string, s int) {
		cb.cont.Flow = &flow.Flow{Type: flow.Hybrid, RequireAccessToken: true, RequireIdToken: true}
		cb.cont.ResponseMode = "fragment"
		cb.uid = uid17(20, s)
	}),
	zk("cancel", 0, "cancel", nil, nil),
	zk("2/authz-code", 1, "handle", func(n string) kvs { return azp(n, "code", kv{"nonce", "n"}) }, nil),
	zk("2/authz-nonce", 1, "handle", func(n string) kvs { return azp(n, "code", kv{"nonce", "nonce-" + n}) }, nil),
	zk("2/authz-bad-mode", 1, "handle", func(n string) kvs { return azp(n, "code", kv{"response_mode", "query"}, kv{"nonce", "n"}) }, nil),
	zk("2/authz-bad-type", 1, "handle", func(n string) kvs { return azp(n, "magic-"+n) }, nil),
	zk("2/complete", 1, "complete", nil, func(cb *CB, n string, s int) { cb.uid = uid17(20, s) }),
}

// observe17 renders everything one request did.
func observe17(w *World, r *Resp, cb *CB, thread, fromCall, fromLog int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "response: returned %v, %s\n", r.ret, r.canon())
	if r.req != nil {
		fmt.Fprintf(&b, "identity headers: %q %q %q\n", r.req.Header.Values("X-Oauth-User-Id"), r.req.Header.Values("X-Oauth-Client-Id"), r.req.Header.Values("X-Oauth-Scope"))
	}
	for _, c := range w.calls[fromCall:] {
		if c.Thread == thread {
			fmt.Fprintf(&b, "call: %s\n", c)
		}
	}
	if cb != nil {
		for _, q := range cb.logins {
			fmt.Fprintf(&b, "login screen: %s\n", showReq(q))
		}
		for i, q := range cb.consents {
			fmt.Fprintf(&b, "consent screen: %s for %s\n", showReq(q), cb.consentCl[i].(*Client).id)
		}
		fmt.Fprintf(&b, "error screens: %v codes %v\n", cb.errScreens, cb.codes)
	}
	for i := fromLog; i < len(w.logs.msgs); i++ {
		if w.logs.thr[i] == thread {
			fmt.Fprintf(&b, "log: %s\n", w.logs.msgs[i])
		}
	}
	return b.String()
}

// runOne17 serves kind k in slot s, sequentially.
func (e *env17) runOne(k *kind17, s int) string {
	w := e.w
	currentWorldTime = w.now
	w.slot = s
	fc, fl := len(w.calls), len(w.logs.msgs)
	r, cb := k.run(e, slotNames[s], s)
	return observe17(w, r, cb, w.thread(), fc, fl)
}

var assertionKeys17 = func(w *World) {
	for _, c := range w.clients {
		c.akeys["HS256|k17"] = keyFor("HS256", 1).pub
	}
}

func newEnv17(x *X, sets ...int) *env17 { return newEnv17c(x, 0, sets...) }

func newEnv17c(x *X, flags int, sets ...int) *env17 {
	slots := 3
	if flags&crowdFlag != 0 {
		slots = crowd17
	}
	e := build17(x, slots)
	e.oneRealm = flags&realmFlag != 0
	assertionKeys17(e.w)
	for _, k := range sets {
		e.endpoints(k)
	}
	return e
}

const (
	tenantFlag = 1 << 20
	realmFlag  = 1 << 21
	crowdFlag  = 1 << 22
	crowd17    = 140 // slots of a crowd
)

// noLogs drops the log lines: the logger belongs to the endpoint, not to the store.
func noLogs(s string) string {
	var l []string
	for _, n := range strings.Split(s, "\n") {
		if !strings.HasPrefix(n, "log: ") {
			l = append(l, n)
		}
	}
	return strings.Join(l, "\n")
}

// alone17 is what kind k does in slot s as the only request of a fresh process.
var aloneCache = map[string]string{}

func kind17Index(name string) int {
	for i := range kinds17 {
		if kinds17[i].name == name {
			return i
		}
	}
	panic(harnessError{"kind " + name})
}

func alone17(k, s int) string {
	key := fmt.Sprintf("%d.%d", k, s)
	if v, ok := aloneCache[key]; ok {
		return v
	}
	dir := os.Getenv("MC_SHARE")
	path := filepath.Join(dir, "c17-"+key)
	if dir != "" {
		if b, err := os.ReadFile(path); err == nil {
			aloneCache[key] = string(b)
			return string(b)
		}
	}
	out, err := exec.Command(self(), "child", "c17", fmt.Sprint(k), fmt.Sprint(s)).Output()
	if err != nil {
		panic(harnessError{fmt.Sprintf("baseline %s: %v", key, err)})
	}
	var v string
	if err := json.Unmarshal(out, &v); err != nil {
		panic(harnessError{err.Error()})
	}
	aloneCache[key] = v
	if dir != "" {
		tmp := fmt.Sprintf("%s.%d", path, os.Getpid())
		if os.WriteFile(tmp, []byte(v), 0644) == nil {
			os.Rename(tmp, path)
		}
	}
	return v
}

// tenant17 turns e into another provider's store: the same keys, other contents.
func (e *env17) tenant() {
	w := e.w
	for _, u := range w.users {
		u.id += 1000
		u.sub += "-t"
	}
	for _, i := range w.infos {
		i.uid += 1000
		i.subject += "-t"
		i.authAt -= 3
		i.scope = strings.TrimSpace(i.scope + " extra")
	}
	for _, c := range w.clients {
		c.owner += 1000
		c.kid += "-t"
	}
	for _, t := range w.tokens {
		t.refreshed -= 7
		t.created -= 9
	}
	for _, c := range w.sessions {
		c.nonce += "t"
	}
}

func child17(args []string) {
	var k, s int
	fmt.Sscan(args[0], &k)
	fmt.Sscan(args[1], &s)
	x := &X{workers: 1, h: 1, sink: &stats{states: map[uint64]struct{}{}}}
	flags := k &^ (tenantFlag - 1)
	k &= tenantFlag - 1
	e := newEnv17c(x, flags, kinds17[k].set)
	if flags&tenantFlag != 0 {
		e.tenant()
	}
	b, _ := json.Marshal(e.runOne(&kinds17[k], s))
	os.Stdout.Write(b)
}

func diff17(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			return fmt.Sprintf("%s -- alone: %s", a, b)
		}
	}
	return ""
}

func c17Scenarios(tier string) []*Scenario {
	var out []*Scenario
	n := len(kinds17)
	names := func(l ...string) []int {
		var o []int
		for _, s := range l {
			o = append(o, kind17Index(s))
		}
		return o
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	// representative kinds: one per code path family
	few := names("code", "refresh", "password", "client-assertion", "bad-secret", "2/bad-secret", "2/unsupported", "api", "api-none", "2/api-unknown",
		"common-code", "common-granted", "authz-code", "authz-form", "authz-consent", "authz-bad-scope", "complete-hybrid", "2/complete")
	setOrders := [][]int{{0, 1}, {1, 0}}

	seq := func(name string, menus ...[]int) {
		out = append(out, &Scenario{Name: name, Run: func(x *X) {
			order := setOrders[x.Choose("construction order", 2)]
			if len(menus) > 2 {
				order = setOrders[0]
			}
			var ks []int
			for i, m := range menus {
				ks = append(ks, m[x.Choose(fmt.Sprintf("request %d", i), len(m))])
			}
			x.commit()
			e := newEnv17(x, order...)
			for i, k := range ks {
				s := i % 3
				got := e.runOne(&kinds17[k], s)
				x.Stepf("%s(%s)", kinds17[k].name, slotNames[s])
				if got != alone17(k, s) {
					var h []string
					for _, p := range ks[:i] {
						h = append(h, kinds17[p].name)
					}
					x.Fail("history", "%s after %v: %s", kinds17[k].name, h, diff17(got, alone17(k, s)))
				}
			}
		}})
	}
	seq("one", all)
	seq("pairs", all, all)
	if tier == "thorough" {
		seq("triples", all, all, all)
	} else {
		seq("triples", few, all, few)
	}

	// one kind of request many times, then another one of somebody else
	runs := []int{130}
	if tier == "thorough" {
		runs = []int{5, 12, 33, 260}
	}
	out = append(out, &Scenario{Name: "runs", Run: func(x *X) {
		a, b := all[x.Choose("first", n)], all[x.Choose("second", n)]
		times := Pick(x, "times", runs)
		x.commit()
		e := newEnv17(x, 0, 1)
		for i := 0; i < times; i++ {
			e.runOne(&kinds17[a], 0)
		}
		got := e.runOne(&kinds17[b], 1)
		x.Stepf("%d times %s, %s", times, kinds17[a].name, kinds17[b].name)
		if got != alone17(b, 1) {
			x.Fail("history", "%s after %d times %s: %s", kinds17[b].name, times, kinds17[a].name, diff17(got, alone17(b, 1)))
		}
	}})
	// a crowd: everybody's request of one kind, then others' requests of another
	many := names("code", "refresh", "password", "client-assertion", "bad-secret", "api", "common-granted", "authz-code", "authz-consent", "complete-hybrid", "2/complete")
	out = append(out, &Scenario{Name: "crowd", Run: func(x *X) {
		a, b := many[x.Choose("first", len(many))], many[x.Choose("second", len(many))]
		x.commit()
		e := newEnv17c(x, crowdFlag, 0, 1)
		ask := func(i, k, s int) bool {
			got := e.runOne(&kinds17[k], s)
			switch s {
			case 0, 3, 4, 8, 16, 17, 32, 33, 64, 65, 100, 128, 129, crowd17 - 4, crowd17 - 3, crowd17 - 2, crowd17 - 1:
				alone := alone17(k|crowdFlag, s)
				x.Stepf("%s(%s)", kinds17[k].name, slotNames[s])
				if got != alone {
					x.Fail("history", "%s as request %d of a crowd of %s and %s: %s", kinds17[k].name, i+1, kinds17[a].name, kinds17[b].name, diff17(got, alone))
					return false
				}
			}
			return true
		}
		for s := 0; s < crowd17; s++ {
			k := a
			if s >= crowd17-4 {
				k = b
			}
			if !ask(s, k, s) {
				return
			}
		}
		// the first ones again, where that changes nothing
		switch kinds17[a].name {
		case "api", "bad-secret", "authz-consent":
			_ = ask(crowd17, a, 0) && ask(crowd17+1, a, 8) && ask(crowd17+2, a, 129)
		}
	}})
	// two differently configured sets of endpoints for one realm
	out = append(out, &Scenario{Name: "one-realm", Run: func(x *X) {
		order := setOrders[x.Choose("construction order", 2)]
		ks := []int{all[x.Choose("first", n)], all[x.Choose("second", n)]}
		const s = 1
		x.commit()
		e := newEnv17c(x, realmFlag, order...)
		for i, k := range ks {
			want := k
			if kinds17[k].set == 1 {
				want |= realmFlag
			}
			got := e.runOne(&kinds17[k], i*s)
			x.Stepf("%s(%s)", kinds17[k].name, slotNames[i*s])
			if alone := alone17(want, i*s); got != alone {
				x.Fail("history", "%s, sets of one realm built in order %v: %s", kinds17[k].name, order, diff17(got, alone))
			}
		}
	}})

	// one set of endpoint objects, two stores
	var ten []int
	for i, k := range kinds17 {
		if !strings.Contains(k.name, "authz") && !strings.Contains(k.name, "complete") && !strings.Contains(k.name, "cancel") && (k.name[:2] != "co" || k.name == "code" || strings.HasPrefix(k.name, "common-r") ||
			strings.HasPrefix(k.name, "common-p") || strings.HasPrefix(k.name, "common-a")) {
			ten = append(ten, i)
		}
	}
	out = append(out, &Scenario{Name: "two-stores", Run: func(x *X) {
		first := x.Choose("first store", 2)
		a, b := ten[x.Choose("first", len(ten))], ten[x.Choose("second", len(ten))]
		third := x.Choose("third", 2) == 1
		s := x.Choose("slot", 2)
		x.commit()
		e := newEnv17(x, 0, 1)
		o := newEnv17(x)
		o.tenant()
		for k := range o.teo {
			o.te[k], o.rp[k] = e.teo[k].Handler(o.w), e.rp[k]
		}
		es := [2]*env17{e, o}
		type step struct{ env, kind, slot int }
		steps := []step{{first, a, 0}, {1 - first, b, s}}
		if third {
			steps = append(steps, step{first, b, 1})
		}
		for i, st := range steps {
			k := st.kind
			want := k
			if st.env == 1 {
				want |= tenantFlag
			}
			got, alone := noLogs(es[st.env].runOne(&kinds17[k], st.slot)), noLogs(alone17(want, st.slot))
			x.Stepf("%s(%s) on store %d", kinds17[k].name, slotNames[st.slot], st.env)
			if got != alone {
				x.Fail("two-stores", "request %d, %s on store %d: %s", i, kinds17[k].name, st.env, diff17(got, alone))
			}
		}
	}})

	inter := func(name string, ka, kb []int, fine bool, bound int) {
		out = append(out, &Scenario{Name: name, Bound: bound, Unit: 2, Run: func(x *X) {
			a := ka[x.Choose("first", len(ka))]
			b := kb[x.Choose("second", len(kb))]
			if a > b {
				// unordered pairs: the scheduler chooses who starts
				a, b = b, a
			}
			x.commit()
			e := newEnv17(x, 0, 1)
			w := e.w
			w.slotOf = []int{0, 1}
			w.sched = NewSched(x, fine, true)
			currentWorldTime = w.now
			var rs [2]*Resp
			var cbs [2]*CB
			body := func(t, k int) func() {
				return func() { rs[t], cbs[t] = kinds17[k].run(e, slotNames[t], t) }
			}
			w.sched.Run(body(0, a), body(1, b))
			w.sched = nil
			for t, k := range []int{a, b} {
				got := observe17(w, rs[t], cbs[t], t, 0, 0)
				x.Stepf("%d: %s", t, kinds17[k].name)
				if got != alone17(k, t) {
					x.Fail("interleaving", "%s interleaved with %s: %s", kinds17[k].name, kinds17[[]int{b, a}[t]].name, diff17(got, alone17(k, t)))
				}
			}
		}})
	}
	if tier == "thorough" {
		inter("interleave-ops", all, all, false, 3)
		inter("interleave-fine", all, all, true, 1)
		inter("interleave-fine2", few, few, true, 2)
	} else {
		inter("interleave-ops", few, few, false, 2)
		inter("interleave-fine", all, all, true, 1)
	}

	// Requests for the same records: the same schedule on endpoints of their own.
	same := names("code", "code-wrong-uri", "refresh", "password", "client-credentials", "client-assertion", "jwt", "api", "api-scoped", "authz-code", "authz-form", "complete", "complete-hybrid", "cancel")
	out = append(out, &Scenario{Name: "same-records", Bound: map[string]int{"quick": 2, "thorough": 4}[tier], Unit: 2, Run: func(x *X) {
		a := same[x.Choose("first", len(same))]
		b := same[x.Choose("second", len(same))]
		x.commit()
		run := func(shared bool, script []int) (string, []int) {
			e := newEnv17(x, 0)
			es := [2]*env17{e, e}
			if !shared {
				for t := range es {
					c := &env17{w: e.w}
					c.endpoints(0)
					es[t] = c
				}
			}
			w := e.w
			w.slotOf = []int{0, 0}
			w.sched = NewSched(x, false, true)
			w.sched.script = script
			currentWorldTime = w.now
			var rs [2]*Resp
			var cbs [2]*CB
			body := func(t, k int) func() {
				return func() { rs[t], cbs[t] = kinds17[k].run(es[t], slotNames[0], 0) }
			}
			w.sched.Run(body(0, a), body(1, b))
			taken := w.sched.taken
			w.sched = nil
			return observe17(w, rs[0], cbs[0], 0, 0, 0) + "---\n" + observe17(w, rs[1], cbs[1], 1, 0, 0), taken
		}
		got, taken := run(true, nil)
		want, _ := run(false, taken)
		x.Stepf("%s with %s", kinds17[a].name, kinds17[b].name)
		if got != want {
			x.Fail("shared-endpoint", "%s with %s on shared endpoints: %s (on their own)", kinds17[a].name, kinds17[b].name, diff17(got, want))
		}
	}})
	return out
}

// --- race detector -------------------------------------------------------------------

// c17Race runs every pair of kinds, one request after the other, in a race-detector build in which
// the harness adds no happens-before edge between the two: any conflicting access in the code under
// test that its own synchronisation does not order is reported.
func c17Race(tier string, res *Result) { raceRun("c17race", "two concurrent requests", tier, res) }

func raceRun(mode, what, tier string, res *Result) {
	bin := os.Getenv("MC_RACE_BIN")
	if bin == "" {
		res.Incomplete = append(res.Incomplete, "race detector build not available")
		return
	}
	dir, err := os.MkdirTemp("", "goidcmc-race")
	if err != nil {
		fatal("tmp: %v", err)
	}
	defer os.RemoveAll(dir)
	logp := filepath.Join(dir, "race")
	cmd := exec.Command(bin, "child", mode, tier)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=2 log_path="+logp, "GOMAXPROCS=2", "MC_RACE_BIN=")
	var out strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		res.Incomplete = append(res.Incomplete, "race run: "+err.Error())
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(5 * time.Minute):
		cmd.Process.Kill()
		<-done
		res.Incomplete = append(res.Incomplete, "race run out of time")
		return
	}
	pairs := int64(0)
	if m := regexp.MustCompile(`pairs=(\d+)`).FindStringSubmatch(out.String()); m != nil {
		fmt.Sscan(m[1], &pairs)
	}
	res.Extra["race_detector_pairs"] = pairs
	if err != nil {
		fs := out.String()
		if strings.Contains(fs, "fatal error: concurrent map") {
			res.Violations = append(res.Violations, Violation{Scenario: "race", Failure: Failure{"race", firstLine(fs)}})
			return
		}
		res.Incomplete = append(res.Incomplete, "race run: "+firstLine(fs))
		return
	}
	ms, _ := filepath.Glob(logp + "*")
	reports := int64(0)
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			reports++
			if who, ok := raceInCode(rep); ok {
				res.Violations = append(res.Violations, Violation{Scenario: "race", Failure: Failure{"race", "unsynchronised access by " + what + ": " + who}})
			}
		}
	}
	res.Extra["race_reports_total"] = reports
	res.Executions += pairs
	res.PerScenario["race"] = pairs
	if len(res.Violations) > 1 {
		res.Violations = res.Violations[:1]
	}
}

// raceInCode tells whether both accesses of a race report were made by the code under test: the
// innermost frame outside the Go distribution is in the repository.
func raceInCode(rep string) (string, bool) {
	var sites []string
	re := regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite|[Aa]tomic.*) (?:at|by).*$`)
	_ = re
	blocks := regexp.MustCompile(`(?m)^\s*\n`).Split(rep, -1)
	for _, b := range blocks {
		l := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(b), "WARNING: DATA RACE"))
		if !(strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous read at") || strings.HasPrefix(l, "Previous write at") ||
			strings.HasPrefix(l, "Atomic") || strings.HasPrefix(l, "Previous atomic")) {
			continue
		}
		site := ""
		goroot := runtime.GOROOT()
		for _, ln := range strings.Split(l, "\n") {
			ln = strings.TrimSpace(ln)
			if !strings.Contains(ln, ".go:") {
				continue
			}
			p := strings.Fields(ln)[0]
			if strings.HasPrefix(p, goroot) || strings.Contains(p, "/src/runtime/") || strings.Contains(p, "/toolchain") || isStd(p) {
				continue
			}
			site = p
			break
		}
		sites = append(sites, site)
	}
	if len(sites) < 2 {
		return "", false
	}
	for _, s := range sites {
		if !strings.HasPrefix(s, "/repo/") {
			return "", false
		}
	}
	return strings.Join(sites, " and "), true
}

func isStd(p string) bool {
	for _, d := range []string{"/usr/local/go", "/usr/lib/go", "/opt/veriftools/go"} {
		if strings.HasPrefix(p, d) {
			return true
		}
	}
	return false
}

func child17race(tier string) {
	pairs := 0
	for a := range kinds17 {
		for b := range kinds17 {
			if tier != "thorough" && a > b {
				continue
			}
			x := &X{workers: 1, h: 1, sink: &stats{states: map[uint64]struct{}{}}}
			e := newEnv17(x, 0, 1)
			e.w.slot = 0
			currentWorldTime = e.w.now
			runUnordered(func() { e.runOne(&kinds17[a], 0) }, func() { e.runOne(&kinds17[b], 1) })
			pairs++
		}
	}
	fmt.Printf("pairs=%d\n", pairs)
}
