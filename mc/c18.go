package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/prompt"
)

// C18: over any history, access matches what users granted.
//
// The system under exploration is the real provider (authorization endpoint, token endpoint,
// resource protector) over the harness's store; its states are the store's contents together with
// everything ever handed out.  A ghost record, kept from the users' actions and the responses
// alone, says what each value is good for.

func init() {
	register(&Check{
		ID:   "C18",
		Rule: "explicit-state search: every state reachable within the action depth by two users and two clients authorizing (code, implicit, hybrid, prompt=none), consenting, cancelling, redeeming, refreshing, revoking and passing time; in every state every code, access token and refresh token ever handed out is tried, in every role and by every client, on the real handlers against a ghost record of what was granted; plus every action sequence up to a smaller depth on shared endpoint objects, without merging states",
		Assumptions: []string{
			"the store supersedes the old access and refresh token on refresh, and starts a new authorization record when a user consents again after a revocation",
			"states are merged when they agree on grants, pending requests, live values with their ages, and which kinds of dead values exist",
		},
		Scenarios: c18Scenarios,
		Extra:     c18Merge,
	})
}

const (
	codeLife18 = 11
	atLife18   = 20
	rtLife18   = 50
	tick18     = 11
)

type ggrant struct {
	uid    int64
	cid    string
	scope  string
	active bool
	at     int64
}

type gcode struct {
	val   string
	g     int
	uri   string
	made  int64
	used  bool
	nonce string
}

type gtok struct {
	at, rt     string
	g          int
	aAt, rAt   int64
	superseded bool
}

type pend struct {
	req *authorization.Request
}

type st18 struct {
	w      *World
	pol    *authorization.Policy
	grants []ggrant
	codes  []gcode
	toks   []gtok
	pend   map[string]*authorization.Request // "uid|cid"
	// endpoints; nil: built per request
	te *goidc.TokenEndpoint
	rp *goidc.ResourceProtector
	ae *goidc.AuthorizationEndpoint
}

var users18 = []int64{1, 2}
var clients18 = []string{"clienta", "clientb"}
var uris18 = map[string]string{"clienta": cbA, "clientb": cbB}

func new18(x *X) *st18 {
	w := NewWorld(x)
	w.aLife, w.rLife = atLife18, rtLife18
	w.freshAfterRevoke = true
	for _, c := range clients18 {
		w.AddClient(c, "secret-"+c).redirs[uris18[c]] = true
	}
	w.clients["clienta"].ncp = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.clients["clienta"].np = prompt.NonePromptPolicyAllowWithLoginSession
	w.clients["clientb"].np = prompt.NonePromptPolicyAllowWithLoginSession
	// each user's other client is their own
	w.clients["clienta"].owner = 2
	w.clients["clientb"].owner = 1
	w.AddUser(1, "ann", "pw1")
	w.AddUser(2, "bob", "pw2")
	p := authorization.DefaultPolicy()
	p.AuthSessionExpiresIn = codeLife18
	p.ConsentOmissionPeriod = 25
	return &st18{w: w, pol: p, pend: map[string]*authorization.Request{}}
}

// clone copies the state onto a fresh world.
func (s *st18) clone() *st18 {
	w := *s.w
	n := &w
	n.handlers = nil
	n.clients = map[string]*Client{}
	for k, c := range s.w.clients {
		d := *c
		d.w = n
		n.clients[k] = &d
	}
	n.infos = map[int64]*AuthInfo{}
	for k, i := range s.w.infos {
		d := *i
		d.w = n
		n.infos[k] = &d
	}
	n.sessions = map[string]*Session{}
	for k, i := range s.w.sessions {
		d := *i
		d.w = n
		n.sessions[k] = &d
	}
	n.tokens = nil
	for _, t := range s.w.tokens {
		d := *t
		d.w = n
		n.tokens = append(n.tokens, &d)
	}
	n.claims = map[string]bool{}
	for k, v := range s.w.claims {
		n.claims[k] = v
	}
	n.calls = nil
	n.logs = nil
	o := &st18{w: n, pol: s.pol, pend: map[string]*authorization.Request{}}
	o.grants = append([]ggrant{}, s.grants...)
	o.codes = append([]gcode{}, s.codes...)
	o.toks = append([]gtok{}, s.toks...)
	for k, v := range s.pend {
		o.pend[k] = v
	}
	return o
}

func (s *st18) tokenEndpoint() *goidc.TokenEndpoint {
	if s.te != nil {
		return s.te
	}
	return s.w.TokenEndpoint()
}
func (s *st18) protector() *goidc.ResourceProtector {
	if s.rp != nil {
		return s.rp
	}
	return s.w.Protector()
}
func (s *st18) authz() *goidc.AuthorizationEndpoint {
	if s.ae != nil {
		return s.ae
	}
	return s.w.AuthzEndpoint(s.pol)
}

// --- the ghost's verdicts ---------------------------------------------------------------

func (s *st18) codeLive(c *gcode) bool {
	return !c.used && s.grants[c.g].active && c.made+codeLife18 >= s.w.now
}
func (s *st18) atLive(t *gtok) bool {
	return !t.superseded && s.grants[t.g].active && t.aAt+atLife18 >= s.w.now
}
func (s *st18) rtLive(t *gtok) bool {
	return t.rt != "" && !t.superseded && s.grants[t.g].active && t.rAt+rtLife18 >= s.w.now && hasToken(s.grants[t.g].scope, "offline_access")
}

func (s *st18) grant(uid int64, cid string) int {
	for i := range s.grants {
		if s.grants[i].uid == uid && s.grants[i].cid == cid && s.grants[i].active {
			return i
		}
	}
	return -1
}

// consented records that uid let cid have scope.
func (s *st18) consented(uid int64, cid, scope string) int {
	i := s.grant(uid, cid)
	if i < 0 {
		s.grants = append(s.grants, ggrant{uid: uid, cid: cid, active: true})
		i = len(s.grants) - 1
	}
	s.grants[i].scope, s.grants[i].at = scope, s.w.now
	return i
}

// canon is the state's identity.
func (s *st18) canon() string {
	now := s.w.now
	age := func(t int64) int64 { return (now - t) / tick18 }
	cap := func(n, m int64) int64 {
		if n > m {
			return m
		}
		return n
	}
	var l []string
	who := func(g int) string { return fmt.Sprintf("%d%s", s.grants[g].uid, s.grants[g].cid[6:]) }
	dead := map[string]bool{}
	for i, g := range s.grants {
		if g.active {
			l = append(l, fmt.Sprintf("G%s:%s:%d", who(i), g.scope, cap(age(g.at), 3)))
		}
	}
	for i := range s.codes {
		c := &s.codes[i]
		if s.codeLive(c) {
			l = append(l, fmt.Sprintf("C%s:%d:%s", who(c.g), age(c.made), c.nonce))
		} else {
			dead[fmt.Sprintf("c%s:%v:%v", who(c.g), c.used, s.grants[c.g].active)] = true
		}
	}
	for i := range s.toks {
		t := &s.toks[i]
		if s.atLive(t) || s.rtLive(t) {
			r := int64(-1)
			if t.rt != "" {
				r = cap(age(t.rAt), 5)
			}
			l = append(l, fmt.Sprintf("T%s:%d:%d", who(t.g), cap(age(t.aAt), 2), r))
		} else {
			dead[fmt.Sprintf("t%s:%v:%v:%v", who(t.g), t.superseded, s.grants[t.g].active, t.rt != "")] = true
		}
	}
	for _, k := range sortedKeys(s.pend) {
		q := s.pend[k]
		l = append(l, "P"+k+q.Scope+q.Flow.Type.String()+fmt.Sprint(q.Flow.RequireAccessToken))
	}
	sort.Strings(l)
	return strings.Join(l, ";") + "|" + strings.Join(sortedKeys(dead), ";")
}

// digest is the store's contents, for "nothing changed".
func (w *World) digest() string {
	var l []string
	for _, i := range w.infos {
		l = append(l, fmt.Sprintf("i%d,%s,%d,%s,%d,%v", i.id, i.clientId, i.uid, i.scope, i.authAt, i.active))
	}
	for _, c := range w.sessions {
		l = append(l, fmt.Sprintf("s%s,%d,%v", c.code, c.authId, c.disabled))
	}
	for _, t := range w.tokens {
		l = append(l, fmt.Sprintf("t%s,%s,%d,%d,%v", t.access, t.refresh, t.authId, t.refreshed, t.superseded))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// --- actions ------------------------------------------------------------------------------

type act18 struct {
	kind       string
	uid        int64
	cid        string
	rt, scope  string
	promptV    string
	idx        int
	responseMd string
}

func (a act18) String() string {
	switch a.kind {
	case "authorize":
		return fmt.Sprintf("user %d authorizes %s (%s, %q, prompt=%q)", a.uid, a.cid, a.rt, a.scope, a.promptV)
	case "redeem", "refresh":
		return fmt.Sprintf("%s #%d", a.kind, a.idx)
	case "tick":
		return "time passes"
	case "password":
		return fmt.Sprintf("password grant of user %d to %s (%q)", a.uid, a.cid, a.scope)
	}
	return fmt.Sprintf("user %d: %s %s", a.uid, a.kind, a.cid)
}

func (s *st18) acts(level int) []act18 {
	var l []act18
	for _, u := range users18 {
		for _, c := range clients18 {
			if s.pend[fmt.Sprintf("%d|%s", u, c)] == nil {
				l = append(l, act18{kind: "authorize", uid: u, cid: c, rt: "code", scope: "openid p"})
				l = append(l, act18{kind: "authorize", uid: u, cid: c, rt: "code", scope: "openid offline_access p", promptV: "consent"})
				if level > 0 {
					l = append(l, act18{kind: "authorize", uid: u, cid: c, rt: "code token", scope: "openid p"})
					l = append(l, act18{kind: "authorize", uid: u, cid: c, rt: "token", scope: "p openid", promptV: "none"})
				}
			} else {
				l = append(l, act18{kind: "consent", uid: u, cid: c})
				l = append(l, act18{kind: "cancel", uid: u, cid: c})
			}
			if s.grant(u, c) >= 0 {
				l = append(l, act18{kind: "revoke", uid: u, cid: c})
			}
		}
	}
	if level > 0 {
		l = append(l, act18{kind: "password", uid: 1, cid: "clienta", scope: "p"})
	}
	for i := range s.codes {
		if s.codeLive(&s.codes[i]) {
			l = append(l, act18{kind: "redeem", idx: i})
		}
	}
	for i := range s.toks {
		if s.rtLive(&s.toks[i]) {
			l = append(l, act18{kind: "refresh", idx: i})
		}
	}
	l = append(l, act18{kind: "tick"})
	return l
}

func (s *st18) session(uid int64) *CB {
	return &CB{w: s.w, login: true, uid: uid, authTime: s.w.now - 5, locale: "en"}
}

// completed takes in an authorization response.
func (s *st18) completed(x *X, what string, g int, rt string, nonce string, uri string, o *authzOut) {
	if code := o.params["code"]; code != "" {
		s.codes = append(s.codes, gcode{val: code, g: g, uri: uri, made: s.w.now, nonce: nonce})
	}
	if at := o.params["access_token"]; at != "" {
		s.toks = append(s.toks, gtok{at: at, g: g, aAt: s.w.now, rAt: s.w.now})
	}
	_ = rt
}

func (s *st18) apply(x *X, a act18) {
	w := s.w
	switch a.kind {
	case "tick":
		w.setNow(w.now + tick18)
	case "revoke":
		g := s.grant(a.uid, a.cid)
		s.grants[g].active = false
		for _, i := range w.infos {
			if i.uid == a.uid && i.clientId == a.cid {
				i.active = false
			}
		}
	case "authorize":
		p := kvs{{"client_id", a.cid}, {"redirect_uri", uris18[a.cid]}, {"response_type", a.rt}, {"scope", a.scope}, {"state", "s"}, {"nonce", fmt.Sprintf("n%d", a.uid)}}
		if a.promptV != "" {
			p = append(p, kv{"prompt", a.promptV})
		}
		cb := s.session(a.uid)
		before := w.digest()
		r := w.Authorize(s.authz(), azGet(p), cb)
		got := readOutcome(r, cb, uris18[a.cid])
		switch got.kind {
		case "consent":
			s.pend[fmt.Sprintf("%d|%s", a.uid, a.cid)] = cb.consents[0]
		case "complete":
			g := s.grant(a.uid, a.cid)
			if g < 0 || !sameSet(s.grants[g].scope, a.scope) {
				x.Fail("never-granted", "%s completed without the user ever granting that: %s", a, got)
				g = s.consented(a.uid, a.cid, a.scope)
			}
			s.grants[g].at = w.now // the store's record of the authorization is renewed
			s.grants[g].scope = a.scope
			s.completed(x, a.String(), g, a.rt, fmt.Sprintf("n%d", a.uid), uris18[a.cid], got.out)
			return
		case "error":
			if w.digest() != before {
				x.Fail("error-changed-store", "%s ended with %s but changed the store", a, got)
			}
		default:
			x.Fail("authorize", "%s => %s", a, got)
		}
	case "consent":
		k := fmt.Sprintf("%d|%s", a.uid, a.cid)
		req := s.pend[k]
		delete(s.pend, k)
		cb := s.session(a.uid)
		cp := *req
		cb.cont = &cp
		r := w.Complete(s.authz(), &Req{method: "POST", path: "/consent"}, cb)
		got := readOutcome(r, cb, req.RedirectURI)
		if got.kind != "complete" {
			x.Fail("consent-not-completed", "%s => %s", a, got)
			return
		}
		g := s.consented(a.uid, a.cid, req.Scope)
		s.completed(x, a.String(), g, "", req.Nonce, req.RedirectURI, got.out)
	case "cancel":
		k := fmt.Sprintf("%d|%s", a.uid, a.cid)
		req := s.pend[k]
		delete(s.pend, k)
		cb := s.session(a.uid)
		cp := *req
		cb.cont = &cp
		before := w.digest()
		r := w.Cancel(s.authz(), &Req{method: "POST", path: "/cancel"}, cb)
		got := readOutcome(r, cb, req.RedirectURI)
		if got.kind != "error" || w.digest() != before {
			x.Fail("cancel-granted", "%s => %s", a, got)
		}
	case "password":
		q := tokenReq(a.cid, "secret-"+a.cid, kv{"grant_type", "password"}, kv{"username", "ann"}, kv{"password", "pw1"}, kv{"scope", a.scope})
		o := readToken(w.Token(s.tokenEndpoint(), q))
		if !o.ok {
			x.Fail("password-refused", "%s => %s", a, o)
			return
		}
		g := s.consented(a.uid, a.cid, a.scope)
		s.addTok(o, g)
	case "redeem":
		c := &s.codes[a.idx]
		cid := s.grants[c.g].cid
		o := readToken(w.Token(s.tokenEndpoint(), s.redeemReq(c, cid)))
		if !o.ok {
			x.Fail("live-code-refused", "live code of user %d refused to %s: %s", s.grants[c.g].uid, cid, o)
			return
		}
		c.used = true
		if sc, _ := o.obj["scope"].(string); !sameSet(sc, s.grants[c.g].scope) {
			x.Fail("redeem-scope", "code for %q redeemed for scope %q", s.grants[c.g].scope, sc)
		}
		s.addTok(o, c.g)
	case "refresh":
		t := &s.toks[a.idx]
		cid := s.grants[t.g].cid
		o := readToken(w.Token(s.tokenEndpoint(), tokenReq(cid, "secret-"+cid, kv{"grant_type", "refresh_token"}, kv{"refresh_token", t.rt})))
		if !o.ok {
			x.Fail("live-refresh-refused", "live refresh token of user %d refused to %s: %s", s.grants[t.g].uid, cid, o)
			return
		}
		if sc, _ := o.obj["scope"].(string); !sameSet(sc, s.grants[t.g].scope) {
			x.Fail("refresh-scope", "refreshed to scope %q, granted %q", sc, s.grants[t.g].scope)
		}
		t.superseded = true
		s.addTok(o, t.g)
	}
}

func (s *st18) redeemReq(c *gcode, cid string) *Req {
	return tokenReq(cid, "secret-"+cid, kv{"grant_type", "authorization_code"}, kv{"code", c.val}, kv{"redirect_uri", c.uri})
}

func (s *st18) addTok(o tokenOutcome, g int) {
	at, _ := o.obj["access_token"].(string)
	rt, _ := o.obj["refresh_token"].(string)
	s.toks = append(s.toks, gtok{at: at, rt: rt, g: g, aAt: s.w.now, rAt: s.w.now})
}

// probe tries everything that was ever handed out, in every role. The state is not changed by what
// must be refused; what must succeed and changes the state is an action.
func (s *st18) probe(x *X, n *int64) {
	w := s.w
	before := w.digest()
	api := func(tok string) apiOut {
		*n++
		return readAPI(w.Validate(s.protector(), bearer(tok), nil))
	}
	for i := range s.toks {
		t := &s.toks[i]
		g := s.grants[t.g]
		o := api(t.at)
		if o.bad != "" {
			x.Fail("api-malformed", "%s", o)
		} else if live := s.atLive(t); o.admitted != live {
			if live {
				x.Fail("live-token-refused", "live access token %s (user %d, %s) refused: %s", t.at, g.uid, g.cid, o)
			} else {
				x.Fail("dead-token-admitted", "access token %s of user %d, %s admitted although dead (superseded=%v, revoked=%v, age %d): %s", t.at, g.uid, g.cid, t.superseded, !g.active, w.now-t.aAt, o)
			}
		} else if live && (o.uid != fmt.Sprint(g.uid) || o.client != g.cid || !sameSet(o.scope, g.scope)) {
			x.Fail("wrong-identity", "access token %s of user %d, %s, %q admitted as user %s, %s, %q", t.at, g.uid, g.cid, g.scope, o.uid, o.client, o.scope)
		}
	}
	refused := func(key string, q *Req, what string) {
		*n++
		o := readToken(w.Token(s.tokenEndpoint(), q))
		if o.ok {
			x.Fail(key, "%s: %s", what, o)
		} else if o.bad != "" {
			x.Fail("malformed", "%s: %s", what, o)
		}
	}
	rtReq := func(cid, v string) *Req {
		return tokenReq(cid, "secret-"+cid, kv{"grant_type", "refresh_token"}, kv{"refresh_token", v})
	}
	for _, cid := range clients18 {
		for i := range s.codes {
			c := &s.codes[i]
			g := s.grants[c.g]
			if !s.codeLive(c) || g.cid != cid {
				refused("dead-code-honoured", s.redeemReq(c, cid), fmt.Sprintf("code %s of user %d for %s (used=%v, revoked=%v, age %d) redeemed by %s", c.val, g.uid, g.cid, c.used, !g.active, w.now-c.made, cid))
			}
			refused("code-as-refresh-token", rtReq(cid, c.val), "code used as refresh token")
		}
		for i := range s.toks {
			t := &s.toks[i]
			g := s.grants[t.g]
			if t.rt != "" {
				// with rotation the superseded value is gone; without it the old one lives on in its successor
				if !s.rtLive(t) || g.cid != cid {
					refused("dead-refresh-honoured", rtReq(cid, t.rt), fmt.Sprintf("refresh token %s of user %d for %s (superseded=%v, revoked=%v, age %d) refreshed by %s", t.rt, g.uid, g.cid, t.superseded, !g.active, w.now-t.rAt, cid))
				}
				refused("refresh-token-as-code", s.redeemReq(&gcode{val: t.rt, uri: uris18[cid]}, cid), "refresh token used as code")
			}
			refused("access-token-as-refresh-token", rtReq(cid, t.at), "access token used as refresh token")
			refused("access-token-as-code", s.redeemReq(&gcode{val: t.at, uri: uris18[cid]}, cid), "access token used as code")
		}
	}
	for _, c := range s.codes {
		if o := api(c.val); o.admitted {
			x.Fail("code-as-access-token", "%s", o)
		}
	}
	for _, t := range s.toks {
		if t.rt != "" {
			if o := api(t.rt); o.admitted {
				x.Fail("refresh-token-as-access-token", "%s", o)
			}
		}
	}
	if o := api("NEVERISSUED"); o.admitted {
		x.Fail("unknown-token-admitted", "%s", o)
	}
	if d := w.digest(); d != before {
		x.Fail("refused-but-changed", "refused attempts changed the store: %s -> %s", before, d)
	}
}

func dummyX(trace bool) *X {
	return &X{workers: 1, h: 1, sink: &stats{states: map[uint64]struct{}{}}, tracing: trace}
}

// c18Graph is the explicit-state search from the states whose identity hashes to this worker at
// depth two.
func c18Graph(depth, level int) func(r *Runner, sc *Scenario) {
	return func(r *Runner, sc *Scenario) {
		type node struct {
			s    *st18
			path []int
		}
		seen := map[uint64]bool{}
		hash := func(s string) uint64 { return fnvAdd(14695981039346656037, s) }
		x0 := dummyX(false)
		root := node{s: new18(x0)}
		seen[hash(root.s.canon())] = true
		front := []node{root}
		probes := int64(0)
		report := func(x *X, path []int, acts []string) bool {
			for _, f := range x.fails {
				r.note(Violation{Property: r.check.ID, Scenario: sc.Name, Tier: r.tier, Choices: path, Failure: f, Trace: acts, Mode: "replay", Worker: r.worker, Workers: r.workers})
			}
			return r.stop
		}
		for d := 0; d < depth && len(front) > 0; d++ {
			var next []node
			for _, nd := range front {
				if r.outOfTime() {
					r.res.Complete = false
					r.res.Incomplete = append(r.res.Incomplete, fmt.Sprintf("%s at depth %d", sc.Name, d))
					return
				}
				for i, a := range nd.s.acts(level) {
					c := nd.s.clone()
					x := dummyX(false)
					c.w.x = x
					currentWorldTime = c.w.now
					c.apply(x, a)
					r.res.Transitions++
					path := append(append([]int{}, nd.path...), i)
					if len(x.fails) > 0 && report(x, path, nil) {
						return
					}
					h := hash(c.canon())
					if seen[h] {
						continue
					}
					seen[h] = true
					if d < 2 && d+1 == min(2, depth) && int(h>>7)%r.workers != r.worker {
						continue
					}
					if d >= 1 || r.worker == 0 {
						p := c.clone()
						xp := dummyX(false)
						p.w.x = xp
						currentWorldTime = p.w.now
						p.probe(xp, &probes)
						r.res.Executions++
						r.res.PerScenario[sc.Name]++
						if len(xp.fails) > 0 && report(xp, path, nil) {
							return
						}
						r.st.states[h] = struct{}{}
						r.distinct[h] = struct{}{}
					}
					next = append(next, node{c, path})
				}
			}
			front = next
		}
		r.res.Validated += r.res.Transitions
		r.res.Extra["probes"] += probes
		r.res.Extra["deepest_level_states"] += int64(len(front))
		if dir := os.Getenv("MC_SHARE"); dir != "" {
			b := make([]byte, 0, 8*len(r.st.states))
			for h := range r.st.states {
				b = binary.LittleEndian.AppendUint64(b, h)
			}
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("c18.%d", r.worker)), b, 0644)
		}
		if r.worker == 0 && len(r.res.Samples) < 3 {
			s := ""
			if len(front) > 0 {
				s = front[len(front)/2].s.canon()
			}
			r.res.Samples = append(r.res.Samples, sc.Name+": a deepest state: "+s)
		}
	}
}

// c18Replay walks one recorded path and probes at its end.
func c18Replay(level int) func(path []int) ([]Failure, []string) {
	return func(path []int) ([]Failure, []string) {
		x := dummyX(true)
		s := new18(x)
		for _, i := range path {
			l := s.acts(level)
			if i >= len(l) {
				return x.fails, append(x.trace, "diverged")
			}
			x.trace = append(x.trace, "ACTION "+l[i].String())
			c := s.clone()
			c.w.x = x
			currentWorldTime = c.w.now
			c.apply(x, l[i])
			s = c
		}
		x.trace = append(x.trace, "PROBES")
		n := int64(0)
		s.probe(x, &n)
		return x.fails, x.trace
	}
}

func c18Scenarios(tier string) []*Scenario {
	var out []*Scenario
	graph := func(name string, depth, level int) {
		out = append(out, &Scenario{Name: name, Custom: c18Graph(depth, level), Replay: c18Replay(level)})
	}
	paths := func(name string, depth, level int) {
		out = append(out, &Scenario{Name: name, Unit: 2, Run: func(x *X) {
			s := new18(x)
			s.te, s.rp, s.ae = s.w.TokenEndpoint(), s.w.Protector(), s.w.AuthzEndpoint(s.pol)
			n := int64(0)
			for i := 0; i < depth; i++ {
				l := s.acts(level)
				a := l[x.Choose("action", len(l))]
				x.Step(a.String())
				s.apply(x, a)
				if len(x.fails) > 0 {
					return
				}
				if i+1 < depth {
					s.probe(x, &n)
				}
			}
			s.probe(x, &n)
		}})
	}
	if tier == "thorough" {
		graph("graph", 9, 0)
		graph("graph-all-flows", 7, 1)
		paths("paths", 4, 1)
	} else {
		graph("graph", 7, 0)
		graph("graph-all-flows", 5, 1)
		paths("paths", 4, 1)
	}
	return out
}

// c18Merge counts the states of the searches once each.
func c18Merge(tier string, res *Result) {
	dir := os.Getenv("MC_SHARE")
	all := map[uint64]bool{}
	ms, _ := filepath.Glob(filepath.Join(dir, "c18.*"))
	if dir == "" || len(ms) == 0 {
		return
	}
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		for ; len(b) >= 8; b = b[8:] {
			all[binary.LittleEndian.Uint64(b)] = true
		}
	}
	res.Extra["distinct_provider_states"] = int64(len(all))
}
