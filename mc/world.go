package main

import (
	"fmt"
	"net/http"
	"sort"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
)

// ---------------------------------------------------------------------------
// The provider's store: a boring in-memory implementation of bridge.DataInterface in which every
// call is a transition and, when faults are enabled, a choice.

type crashed struct{ at string }

type faultKind int

const (
	fNone faultKind = iota
	fFailed
	fUnsupported
	fServerError
	fNil       // (nil, nil)
	fCrash     // the process dies in the call, before its effect
	fLate      // effect takes place, but an internal error is reported
	fLateCrash // effect takes place, then the process dies
)

var faultNames = []string{"ok", "ErrFailed", "ErrUnsupported", "ErrServerError", "(nil,nil)", "crash", "effect+ErrServerError", "effect+crash"}

type Client struct {
	w        *World
	id       string
	secret   string
	owner    int64
	alg, kid string
	key      interface{}
	grants   map[string]bool
	flows    map[flow.FlowType]bool
	scopes   map[string]bool // "<flow>|<scope>"; nil: every scope
	redirs   map[string]bool
	akeys    map[string]interface{} // "<alg>|<kid>" -> key ; "*" default
	ncp      prompt.NoConsentPromptPolicy
	np       prompt.NonePromptPolicy
}

type AuthInfo struct {
	w        *World
	id       int64
	clientId string
	uid      int64
	subject  string
	scope    string
	authAt   int64
	active   bool
}

type Session struct {
	w          *World
	code       string
	authId     int64
	authTime   int64
	idtExp     int64
	redir      string
	verifier   string
	expiresIn  int64
	nonce      string
	createdAt  int64
	disabled   bool
	disabledBy int
}

type Token struct {
	w         *World
	authId    int64
	access    string
	aExp      int64
	refreshed int64
	refresh   string
	rExp      int64
	created   int64
	// bookkeeping
	gen        int
	superseded bool
	onTE       bool
}

type User struct {
	id         int64
	name, pass string
	sub        string
}

// Call is one recorded operation on the store or the callbacks.
type Call struct {
	Thread int
	Name   string
	Args   string
	Fault  faultKind
	Result string
	Obj    interface{}
}

func (c Call) String() string {
	s := c.Name + "(" + c.Args + ")"
	if c.Fault != fNone {
		s += " !" + faultNames[c.Fault]
	}
	if c.Result != "" {
		s += " = " + c.Result
	}
	return s
}

type World struct {
	x   *X
	now int64

	handlers map[*goidc.TokenEndpoint]http.HandlerFunc // of each token endpoint

	issuer   string
	clients  map[string]*Client
	users    []*User
	infos    map[int64]*AuthInfo
	sessions map[string]*Session
	tokens   []*Token
	claims   map[string]bool
	nextInfo int64
	nextTok  int
	nextCode int

	// behaviour knobs
	weakFind         bool // FindAuthSessionByCode also returns disabled sessions (stale read)
	alwaysRT         bool // issue a refresh token for every token-endpoint token
	rotateRT         bool // RefreshAccessToken issues a new refresh token
	refreshNoRT      bool // RefreshAccessToken returns no refresh token
	freshAfterRevoke bool // consenting after a revocation starts a new authorization record
	keepOld          bool
	grantScope       func(scope string) string // what the store records for a requested scope
	aLife            int64
	rLife            int64
	idtLife          int64
	tokName          func(kind string, n int) string
	subjectOf        func(uid int64, cid string) string

	// faults
	faultsOn  bool
	faultMenu func(name string, nilable, mutating bool) []faultKind
	faulted   []string // names of faulted calls
	faultAt   []int    // their index in calls

	cbs    []*CB // the interactions of this scenario
	calls  []Call
	sched  *Sched
	logs   *LogRec
	onCall func(c *Call)
	inOp   bool
	slot   int   // which request is being served (C17)
	slotOf []int // per thread
	forced func(name, args string) faultKind
}

func NewWorld(x *X) *World {
	return &World{
		x: x, now: 1700000000, issuer: "https://op.example",
		clients: map[string]*Client{}, infos: map[int64]*AuthInfo{}, sessions: map[string]*Session{},
		claims: map[string]bool{}, nextInfo: 1, nextTok: 1, nextCode: 1,
		aLife: 3600, rLife: 86400, idtLife: 600, rotateRT: true,
		tokName:   func(kind string, n int) string { return fmt.Sprintf("%s%d", kind, n) },
		subjectOf: func(uid int64, cid string) string { return fmt.Sprintf("sub-%d-%s", uid, cid) },
	}
}

func (w *World) AddClient(id, secret string) *Client {
	c := &Client{w: w, id: id, secret: secret, owner: 900 + int64(len(w.clients)), alg: "HS256", kid: "kid-" + id,
		key: []byte("idt-key-" + id), grants: map[string]bool{}, flows: map[flow.FlowType]bool{flow.AuthorizationCode: true, flow.Implicit: true, flow.Hybrid: true},
		redirs: map[string]bool{}, akeys: map[string]interface{}{}}
	for _, g := range allGrants {
		c.grants[g] = true
	}
	w.clients[id] = c
	return c
}

func (w *World) AddUser(id int64, name, pass string) *User {
	u := &User{id, name, pass, "sub-" + name}
	w.users = append(w.users, u)
	return u
}

func (w *World) AddInfo(uid int64, cid, scope string) *AuthInfo {
	i := &AuthInfo{w: w, id: w.nextInfo, clientId: cid, uid: uid, subject: w.subjectOf(uid, cid), scope: scope, authAt: w.now, active: true}
	w.nextInfo++
	w.infos[i.id] = i
	return i
}

func (w *World) AddSession(info *AuthInfo, code, redir string) *Session {
	s := &Session{w: w, code: code, authId: info.id, authTime: w.now - 30, idtExp: w.idtLife, redir: redir,
		expiresIn: 60, nonce: "", createdAt: w.now}
	w.sessions[code] = s
	return s
}

func (w *World) AddToken(info *AuthInfo, access, refresh string) *Token {
	t := &Token{w: w, authId: info.id, access: access, aExp: w.aLife, refreshed: w.now, refresh: refresh, rExp: w.rLife, created: w.now}
	w.tokens = append(w.tokens, t)
	return t
}

// --- recording ---------------------------------------------------------------

func (w *World) point(label string) {
	if w.sched != nil && !w.inOp {
		w.sched.point(label)
	}
}

func (w *World) thread() int {
	if w.sched != nil {
		return w.sched.cur
	}
	return 0
}

// enter records a call and decides its fault.
func (w *World) enter(name, args string, nilable, mutating bool) (faultKind, *Call) {
	if w.sched != nil {
		w.sched.opPoint(name)
	}
	k := fNone
	if w.faultsOn {
		menu := []faultKind{fFailed, fUnsupported, fServerError}
		if nilable {
			menu = append(menu, fNil)
		}
		if w.faultMenu != nil {
			menu = w.faultMenu(name, nilable, mutating)
		}
		if len(menu) > 0 {
			if c := w.x.Dev("fault:"+name, len(menu)+1); c > 0 {
				k = menu[c-1]
			}
		}
	}
	if k == fNone && w.forced != nil {
		k = w.forced(name, args)
	}
	w.calls = append(w.calls, Call{Thread: w.thread(), Name: name, Args: args, Fault: k})
	if k != fNone {
		w.faulted = append(w.faulted, name)
		w.faultAt = append(w.faultAt, len(w.calls)-1)
	}
	w.x.Step(fmt.Sprintf("T%d %s(%s) %s", w.thread(), name, args, faultNames[k]))
	if k == fCrash {
		panic(crashed{name})
	}
	w.inOp = true
	return k, &w.calls[len(w.calls)-1]
}

// leave ends a store operation: operations are atomic, getters inside them are no scheduling points.
func (w *World) leave() { w.inOp = false }

func (w *World) finish(c *Call, result string, obj interface{}) {
	c.Result, c.Obj = result, obj
	w.x.h = fnvAdd(w.x.h, result)
	if w.onCall != nil {
		w.onCall(c)
	}
}

func bridgeErr(k faultKind) *bridge.Error {
	switch k {
	case fFailed:
		return bridge.NewError(bridge.ErrFailed)
	case fUnsupported:
		return bridge.NewError(bridge.ErrUnsupported)
	}
	return bridge.NewError(bridge.ErrServerError)
}

func isErr(k faultKind) bool { return k == fFailed || k == fUnsupported || k == fServerError }

// tail applies post-effect faults.
func tail(k faultKind, name string) *bridge.Error {
	switch k {
	case fLate:
		return bridge.NewError(bridge.ErrServerError)
	case fLateCrash:
		panic(crashed{name})
	}
	return nil
}

var notFound = func() *bridge.Error { return bridge.NewError(bridge.ErrFailed) }

// --- bridge.DataInterface ------------------------------------------------------

func (w *World) Issuer() string {
	w.point("Issuer")
	return w.issuer
}

func (w *World) FindClientById(id string) (bridge.Client, *bridge.Error) {
	k, c := w.enter("FindClientById", id, true, false)
	defer w.leave()
	if isErr(k) {
		return nil, bridgeErr(k)
	}
	if k == fNil {
		return nil, nil
	}
	cl, ok := w.clients[id]
	if !ok {
		w.finish(c, "notfound", nil)
		return nil, notFound()
	}
	cp := *cl
	w.finish(c, cl.id, nil)
	return &cp, nil
}

func (w *World) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	k, c := w.enter("FindAuthSessionByCode", code, true, false)
	defer w.leave()
	if isErr(k) {
		return nil, bridgeErr(k)
	}
	if k == fNil {
		return nil, nil
	}
	s, ok := w.sessions[code]
	if !ok || (s.disabled && !w.weakFind) {
		w.finish(c, "notfound", nil)
		return nil, notFound()
	}
	cp := *s
	w.finish(c, "session", s)
	return &cp, nil
}

func (w *World) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	k, c := w.enter("FindActiveAuthInfoById", fmt.Sprint(id), true, false)
	defer w.leave()
	if isErr(k) {
		return nil, bridgeErr(k)
	}
	if k == fNil {
		return nil, nil
	}
	i, ok := w.infos[id]
	if !ok || !i.active {
		w.finish(c, "notfound", nil)
		return nil, notFound()
	}
	cp := *i
	w.finish(c, "info", i)
	return &cp, nil
}

func (w *World) findInfo(uid int64, cid string) *AuthInfo {
	var last *AuthInfo
	for _, id := range w.infoIds() {
		i := w.infos[id]
		if i.uid == uid && i.clientId == cid {
			if w.freshAfterRevoke && !i.active {
				last = i
				continue
			}
			return i
		}
	}
	return last
}

func (w *World) infoIds() []int64 {
	ids := make([]int64, 0, len(w.infos))
	for id := range w.infos {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	return ids
}

func (w *World) FindAuthInfoByUserIdAndClientId(uid int64, cid string) (bridge.AuthInfo, *bridge.Error) {
	k, c := w.enter("FindAuthInfoByUserIdAndClientId", fmt.Sprintf("%d,%s", uid, cid), true, false)
	defer w.leave()
	if isErr(k) {
		return nil, bridgeErr(k)
	}
	if k == fNil {
		return nil, nil
	}
	i := w.findInfo(uid, cid)
	if i == nil {
		w.finish(c, "notfound", nil)
		return nil, notFound()
	}
	cp := *i
	w.finish(c, "info", i)
	return &cp, nil
}

func (w *World) FindOAuthTokenByAccessToken(tok string) (bridge.OAuthToken, *bridge.Error) {
	k, c := w.enter("FindOAuthTokenByAccessToken", tok, true, false)
	defer w.leave()
	if isErr(k) {
		return nil, bridgeErr(k)
	}
	if k == fNil {
		return nil, nil
	}
	for _, t := range w.tokens {
		if t.access == tok && !t.superseded {
			cp := *t
			w.finish(c, "token", t)
			return &cp, nil
		}
	}
	w.finish(c, "notfound", nil)
	return nil, notFound()
}

func (w *World) FindOAuthTokenByRefreshToken(tok string) (bridge.OAuthToken, *bridge.Error) {
	k, c := w.enter("FindOAuthTokenByRefreshToken", tok, true, false)
	defer w.leave()
	if isErr(k) {
		return nil, bridgeErr(k)
	}
	if k == fNil {
		return nil, nil
	}
	for _, t := range w.tokens {
		if t.refresh == tok && t.refresh != "" && !t.superseded {
			cp := *t
			w.finish(c, "token", t)
			return &cp, nil
		}
	}
	w.finish(c, "notfound", nil)
	return nil, notFound()
}

func (w *World) CreateOAuthToken(info bridge.AuthInfo, onTE bool) (bridge.OAuthToken, *bridge.Error) {
	k, c := w.enter("CreateOAuthToken", fmt.Sprintf("%d,%v", infoId(info), onTE), true, true)
	defer w.leave()
	if isErr(k) {
		return nil, bridgeErr(k)
	}
	if k == fNil {
		return nil, nil
	}
	n := w.nextTok
	w.nextTok++
	t := &Token{w: w, authId: info.GetId(), access: w.tokName("AT", n), aExp: w.aLife, refreshed: w.now, rExp: w.rLife, created: w.now, gen: n, onTE: onTE}
	if onTE && (w.alwaysRT || hasToken(info.GetScope(), "offline_access")) {
		t.refresh = w.tokName("RT", n)
	}
	w.tokens = append(w.tokens, t)
	if e := tail(k, "CreateOAuthToken"); e != nil {
		return nil, e
	}
	cp := *t
	w.finish(c, t.access, t)
	return &cp, nil
}

func (w *World) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	k, c := w.enter("RefreshAccessToken", fmt.Sprintf("%d,%s", infoId(info), old.GetRefreshToken()), true, true)
	defer w.leave()
	if isErr(k) {
		return nil, bridgeErr(k)
	}
	if k == fNil {
		return nil, nil
	}
	var o *Token
	for _, t := range w.tokens {
		if t.refresh == old.GetRefreshToken() && t.access == old.GetAccessToken() && !t.superseded {
			o = t
		}
	}
	if o == nil {
		w.finish(c, "failed", nil)
		return nil, notFound()
	}
	n := w.nextTok
	w.nextTok++
	t := &Token{w: w, authId: o.authId, access: w.tokName("AT", n), aExp: w.aLife, refreshed: w.now, refresh: o.refresh, rExp: o.rExp, created: o.created, gen: n, onTE: true}
	if w.rotateRT {
		t.refresh = w.tokName("RT", n)
		t.created, t.rExp = w.now, w.rLife
	}
	if w.refreshNoRT {
		t.refresh = ""
	}
	o.superseded = true
	w.tokens = append(w.tokens, t)
	if e := tail(k, "RefreshAccessToken"); e != nil {
		return nil, e
	}
	cp := *t
	w.finish(c, t.access, t)
	return &cp, nil
}

func (w *World) FindUserId(username, password string) (int64, *bridge.Error) {
	k, c := w.enter("FindUserId", username+","+password, false, false)
	defer w.leave()
	if isErr(k) {
		return -1, bridgeErr(k)
	}
	for _, u := range w.users {
		if u.name == username && u.pass == password {
			w.finish(c, fmt.Sprint(u.id), u)
			return u.id, nil
		}
	}
	w.finish(c, "notfound", nil)
	return -1, notFound()
}

func (w *World) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	k, c := w.enter("FindUserIdBySubject", sub, false, false)
	defer w.leave()
	if isErr(k) {
		return -1, bridgeErr(k)
	}
	for _, u := range w.users {
		if u.sub == sub {
			w.finish(c, fmt.Sprint(u.id), u)
			return u.id, nil
		}
	}
	w.finish(c, "notfound", nil)
	return -1, notFound()
}

func (w *World) CreateOrUpdateAuthInfo(uid int64, cid, scope string) (bridge.AuthInfo, *bridge.Error) {
	k, c := w.enter("CreateOrUpdateAuthInfo", fmt.Sprintf("%d,%s,%q", uid, cid, scope), true, true)
	defer w.leave()
	if isErr(k) {
		return nil, bridgeErr(k)
	}
	if k == fNil {
		return nil, nil
	}
	if w.grantScope != nil {
		scope = w.grantScope(scope)
	}
	i := w.findInfo(uid, cid)
	if i == nil || w.freshAfterRevoke && !i.active {
		i = w.AddInfo(uid, cid, scope)
	}
	i.scope, i.authAt, i.active = scope, w.now, true
	if e := tail(k, "CreateOrUpdateAuthInfo"); e != nil {
		return nil, e
	}
	cp := *i
	w.finish(c, fmt.Sprint(i.id), i)
	return &cp, nil
}

func (w *World) CreateAuthSession(info bridge.AuthInfo, s *authorization.Session) *bridge.Error {
	k, c := w.enter("CreateAuthSession", fmt.Sprintf("%d,%+v", infoId(info), *s), false, true)
	defer w.leave()
	if isErr(k) {
		return bridgeErr(k)
	}
	ns := &Session{w: w, code: s.Code, authId: info.GetId(), authTime: s.AuthTime, idtExp: w.idtLife, redir: s.RedirectURI,
		verifier: s.CodeVerifier, expiresIn: s.ExpiresIn, nonce: s.Nonce, createdAt: w.now}
	w.sessions[s.Code] = ns
	if e := tail(k, "CreateAuthSession"); e != nil {
		return e
	}
	w.finish(c, "ok", ns)
	return nil
}

func (w *World) DisableSession(sess bridge.AuthSession) *bridge.Error {
	k, c := w.enter("DisableSession", sess.GetCode(), false, true)
	defer w.leave()
	if isErr(k) {
		return bridgeErr(k)
	}
	s, ok := w.sessions[sess.GetCode()]
	if !ok || s.disabled {
		w.finish(c, "failed", nil)
		return notFound()
	}
	s.disabled = true
	if e := tail(k, "DisableSession"); e != nil {
		return e
	}
	w.finish(c, "ok", s)
	return nil
}

func (w *World) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	key := fmt.Sprintf("%s,%q,%d,%d", cid, jti, iat, exp)
	k, c := w.enter("RecordAssertionClaims", key, false, true)
	defer w.leave()
	if isErr(k) {
		return bridgeErr(k)
	}
	if w.claims[key] {
		w.finish(c, "replay", nil)
		return notFound()
	}
	w.claims[key] = true
	if e := tail(k, "RecordAssertionClaims"); e != nil {
		return e
	}
	w.finish(c, "ok", nil)
	return nil
}

func infoId(i bridge.AuthInfo) int64 {
	if i == nil {
		return -1
	}
	return i.GetId()
}

// --- entity getters ------------------------------------------------------------

func (c *Client) GetId() string              { c.w.point("c.Id"); return c.id }
func (c *Client) GetOwnerUserId() int64      { c.w.point("c.Owner"); return c.owner }
func (c *Client) GetIdTokenAlg() string      { c.w.point("c.Alg"); return c.alg }
func (c *Client) GetIdTokenKeyId() string    { c.w.point("c.Kid"); return c.kid }
func (c *Client) GetIdTokenKey() interface{} { c.w.point("c.Key"); return c.key }
func (c *Client) MatchSecret(s string) bool  { c.w.point("c.Match"); return c.secret == s }
func (c *Client) CanUseFlow(f flow.FlowType) bool {
	c.w.point("c.Flow")
	return c.flows[f]
}
func (c *Client) CanUseGrantType(g string) bool {
	c.w.point("c.Grant")
	return c.grants[g]
}
func (c *Client) CanUseScope(f flow.FlowType, s string) bool {
	c.w.point("c.Scope")
	return c.scopes == nil || c.scopes[f.String()+"|"+s]
}
func (c *Client) CanUseRedirectURI(u string) bool {
	c.w.point("c.Redir")
	return c.redirs[u]
}
func (c *Client) GetAssertionKey(alg, kid string) interface{} {
	c.w.point("c.AKey")
	if k, ok := c.akeys[alg+"|"+kid]; ok {
		return k
	}
	return nil
}
func (c *Client) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy {
	c.w.point("c.NCP")
	return c.ncp
}
func (c *Client) GetNonePromptPolicy() prompt.NonePromptPolicy { c.w.point("c.NP"); return c.np }

func (i *AuthInfo) GetId() int64           { i.w.point("i.Id"); return i.id }
func (i *AuthInfo) GetClientId() string    { i.w.point("i.Client"); return i.clientId }
func (i *AuthInfo) GetUserId() int64       { i.w.point("i.User"); return i.uid }
func (i *AuthInfo) GetSubject() string     { i.w.point("i.Sub"); return i.subject }
func (i *AuthInfo) GetScope() string       { i.w.point("i.Scope"); return i.scope }
func (i *AuthInfo) GetAuthorizedAt() int64 { i.w.point("i.At"); return i.authAt }
func (i *AuthInfo) IsActive() bool         { i.w.point("i.Active"); return i.active }

func (s *Session) GetCode() string            { s.w.point("s.Code"); return s.code }
func (s *Session) GetAuthId() int64           { s.w.point("s.Auth"); return s.authId }
func (s *Session) GetAuthTime() int64         { s.w.point("s.Time"); return s.authTime }
func (s *Session) GetIdTokenExpiresIn() int64 { s.w.point("s.IdtExp"); return s.idtExp }
func (s *Session) GetRedirectURI() string     { s.w.point("s.Redir"); return s.redir }
func (s *Session) GetCodeVerifier() string    { s.w.point("s.Ver"); return s.verifier }
func (s *Session) GetExpiresIn() int64        { s.w.point("s.Exp"); return s.expiresIn }
func (s *Session) GetNonce() string           { s.w.point("s.Nonce"); return s.nonce }
func (s *Session) GetCreatedAt() int64        { s.w.point("s.Created"); return s.createdAt }

func (t *Token) GetAuthId() int64                { t.w.point("t.Auth"); return t.authId }
func (t *Token) GetAccessToken() string          { t.w.point("t.AT"); return t.access }
func (t *Token) GetAccessTokenExpiresIn() int64  { t.w.point("t.AExp"); return t.aExp }
func (t *Token) GetRefreshedAt() int64           { t.w.point("t.RefreshedAt"); return t.refreshed }
func (t *Token) GetRefreshToken() string         { t.w.point("t.RT"); return t.refresh }
func (t *Token) GetRefreshTokenExpiresIn() int64 { t.w.point("t.RExp"); return t.rExp }
func (t *Token) GetCreatedAt() int64             { t.w.point("t.Created"); return t.created }

// --- helpers for oracles ---------------------------------------------------------

// hasToken: whole-token membership in a space-separated list (independent of /repo's scope package).
func hasToken(list, tok string) bool {
	for _, s := range strings.Split(list, " ") {
		if s == tok {
			return true
		}
	}
	return false
}

func sameSet(a, b string) bool {
	x, y := strings.Fields(a), strings.Fields(b)
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, " ") == strings.Join(y, " ")
}

var mutators = map[string]bool{"CreateOAuthToken": true, "RefreshAccessToken": true, "CreateOrUpdateAuthInfo": true,
	"CreateAuthSession": true, "DisableSession": true}

// mutations lists the store-changing calls (assertion records apart) made since index from.
func (w *World) mutations(from int) []Call {
	var out []Call
	for _, c := range w.calls[from:] {
		if mutators[c.Name] {
			out = append(out, c)
		}
	}
	return out
}

func (w *World) callsNamed(from int, name string) []Call {
	var out []Call
	for _, c := range w.calls[from:] {
		if c.Name == name {
			out = append(out, c)
		}
	}
	return out
}

func callList(cs []Call) string {
	var s []string
	for _, c := range cs {
		s = append(s, c.String())
	}
	return strings.Join(s, ", ")
}
