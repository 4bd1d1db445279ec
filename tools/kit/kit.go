package main

// A small provider for demonstrations: an in-memory store, a client record
// and browser callbacks.

import (
	"crypto/rand"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/log"
	"github.com/lyokato/goidc/prompt"
)

type Client struct {
	Id, Secret    string
	Owner         int64
	Alg, Kid      string
	Key           interface{}
	Grants, Flows map[string]bool // nil: all
	Scopes        map[string]bool // nil: all
	URIs          []string
	AKeys         map[string]interface{} // by alg+"/"+kid
	NC            prompt.NoConsentPromptPolicy
	NP            prompt.NonePromptPolicy
}

func (c *Client) GetId() string                   { return c.Id }
func (c *Client) GetOwnerUserId() int64           { return c.Owner }
func (c *Client) GetIdTokenAlg() string           { return c.Alg }
func (c *Client) GetIdTokenKeyId() string         { return c.Kid }
func (c *Client) GetIdTokenKey() interface{}      { return c.Key }
func (c *Client) MatchSecret(s string) bool       { return c.Secret == s }
func (c *Client) CanUseFlow(f flow.FlowType) bool { return c.Flows == nil || c.Flows[f.String()] }
func (c *Client) CanUseGrantType(g string) bool   { return c.Grants == nil || c.Grants[g] }
func (c *Client) CanUseScope(f flow.FlowType, s string) bool {
	return c.Scopes == nil || c.Scopes[s]
}
func (c *Client) CanUseRedirectURI(u string) bool {
	for _, x := range c.URIs {
		if x == u {
			return true
		}
	}
	return false
}
func (c *Client) GetAssertionKey(alg, kid string) interface{}            { return c.AKeys[alg+"/"+kid] }
func (c *Client) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy { return c.NC }
func (c *Client) GetNonePromptPolicy() prompt.NonePromptPolicy           { return c.NP }

type Info struct {
	Id         int64
	Client     string
	User       int64
	Sub, Scope string
	At         int64
	Active     bool
}

func (i *Info) GetId() int64           { return i.Id }
func (i *Info) GetClientId() string    { return i.Client }
func (i *Info) GetUserId() int64       { return i.User }
func (i *Info) GetSubject() string     { return i.Sub }
func (i *Info) GetScope() string       { return i.Scope }
func (i *Info) GetAuthorizedAt() int64 { return i.At }
func (i *Info) IsActive() bool         { return i.Active }

type Sess struct {
	authorization.Session
	Auth, Created, IdtExp int64
	Disabled              bool
}

func (s *Sess) GetCode() string            { return s.Code }
func (s *Sess) GetAuthId() int64           { return s.Auth }
func (s *Sess) GetAuthTime() int64         { return s.AuthTime }
func (s *Sess) GetIdTokenExpiresIn() int64 { return s.IdtExp }
func (s *Sess) GetRedirectURI() string     { return s.RedirectURI }
func (s *Sess) GetCodeVerifier() string    { return s.CodeVerifier }
func (s *Sess) GetExpiresIn() int64        { return s.ExpiresIn }
func (s *Sess) GetNonce() string           { return s.Nonce }
func (s *Sess) GetCreatedAt() int64        { return s.Created }

type Tok struct {
	Auth               int64
	Access, Refresh    string
	AExp, RExp         int64
	Refreshed, Created int64
}

func (t *Tok) GetAuthId() int64                { return t.Auth }
func (t *Tok) GetAccessToken() string          { return t.Access }
func (t *Tok) GetAccessTokenExpiresIn() int64  { return t.AExp }
func (t *Tok) GetRefreshedAt() int64           { return t.Refreshed }
func (t *Tok) GetRefreshToken() string         { return t.Refresh }
func (t *Tok) GetRefreshTokenExpiresIn() int64 { return t.RExp }
func (t *Tok) GetCreatedAt() int64             { return t.Created }

type Store struct {
	mu       sync.Mutex
	Now      int64
	Iss      string
	Clients  map[string]*Client
	Infos    map[int64]*Info
	Sessions map[string]*Sess
	Tokens   []*Tok
	Users    map[string]int64 // "name\x00password" -> id
	Subs     map[string]int64
	JTIs     map[string]bool
	N        int
	Calls    []string
	Fail     map[string]*bridge.Error // next result of a method
	Nil      map[string]bool          // method returns (nil, nil)
	Hook     func(method string)
}

func NewStore() *Store {
	return &Store{Now: 1700000000, Iss: "https://op.example", Clients: map[string]*Client{}, Infos: map[int64]*Info{}, Sessions: map[string]*Sess{},
		Users: map[string]int64{}, Subs: map[string]int64{}, JTIs: map[string]bool{}, Fail: map[string]*bridge.Error{}, Nil: map[string]bool{}}
}

var notFound = bridge.NewError(bridge.ErrFailed)

func (s *Store) enter(m string, args ...interface{}) *bridge.Error {
	if s.Hook != nil {
		s.Hook(m)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Calls = append(s.Calls, m+fmt.Sprint(args))
	return s.Fail[m]
}

func (s *Store) Did(m string) bool {
	for _, c := range s.Calls {
		if strings.HasPrefix(c, m+"[") {
			return true
		}
	}
	return false
}

func (s *Store) Issuer() string { return s.Iss }
func (s *Store) FindClientById(id string) (bridge.Client, *bridge.Error) {
	if e := s.enter("FindClientById", id); e != nil {
		return nil, e
	}
	if s.Nil["FindClientById"] {
		return nil, nil
	}
	if c := s.Clients[id]; c != nil {
		return c, nil
	}
	return nil, notFound
}
func (s *Store) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	if e := s.enter("FindAuthSessionByCode", code); e != nil {
		return nil, e
	}
	if s.Nil["FindAuthSessionByCode"] {
		return nil, nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if x := s.Sessions[code]; x != nil && !x.Disabled {
		return x, nil
	}
	return nil, notFound
}
func (s *Store) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	if e := s.enter("FindActiveAuthInfoById", id); e != nil {
		return nil, e
	}
	if s.Nil["FindActiveAuthInfoById"] {
		return nil, nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if i := s.Infos[id]; i != nil && i.Active {
		return i, nil
	}
	return nil, notFound
}
func (s *Store) find(uid int64, cid string) *Info {
	for _, i := range s.Infos {
		if i.User == uid && i.Client == cid {
			return i
		}
	}
	return nil
}
func (s *Store) FindAuthInfoByUserIdAndClientId(uid int64, cid string) (bridge.AuthInfo, *bridge.Error) {
	if e := s.enter("FindAuthInfoByUserIdAndClientId", uid, cid); e != nil {
		return nil, e
	}
	if s.Nil["FindAuthInfoByUserIdAndClientId"] {
		return nil, nil
	}
	if i := s.find(uid, cid); i != nil {
		return i, nil
	}
	return nil, notFound
}
func (s *Store) FindOAuthTokenByAccessToken(t string) (bridge.OAuthToken, *bridge.Error) {
	if e := s.enter("FindOAuthTokenByAccessToken", t); e != nil {
		return nil, e
	}
	if s.Nil["FindOAuthTokenByAccessToken"] {
		return nil, nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, x := range s.Tokens {
		if x.Access == t {
			return x, nil
		}
	}
	return nil, notFound
}
func (s *Store) FindOAuthTokenByRefreshToken(t string) (bridge.OAuthToken, *bridge.Error) {
	if e := s.enter("FindOAuthTokenByRefreshToken", t); e != nil {
		return nil, e
	}
	if s.Nil["FindOAuthTokenByRefreshToken"] {
		return nil, nil
	}
	for _, x := range s.Tokens {
		if x.Refresh != "" && x.Refresh == t {
			return x, nil
		}
	}
	return nil, notFound
}
func (s *Store) CreateOAuthToken(info bridge.AuthInfo, te bool) (bridge.OAuthToken, *bridge.Error) {
	if e := s.enter("CreateOAuthToken", info.GetId(), te); e != nil {
		return nil, e
	}
	if s.Nil["CreateOAuthToken"] {
		return nil, nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.N++
	t := &Tok{Auth: info.GetId(), Access: fmt.Sprintf("access-%d", s.N), AExp: 3600, Created: s.Now, Refreshed: s.Now}
	for _, w := range strings.Split(info.GetScope(), " ") {
		if w == "offline_access" && te {
			t.Refresh, t.RExp = fmt.Sprintf("refresh-%d", s.N), 86400
		}
	}
	s.Tokens = append(s.Tokens, t)
	return t, nil
}
func (s *Store) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	if e := s.enter("RefreshAccessToken", info.GetId(), old.GetAccessToken()); e != nil {
		return nil, e
	}
	if s.Nil["RefreshAccessToken"] {
		return nil, nil
	}
	s.N++
	o := old.(*Tok)
	n := *o
	n.Access, n.Refreshed = fmt.Sprintf("access-%d", s.N), s.Now
	n.Refresh = fmt.Sprintf("refresh-%d", s.N)
	for i := range s.Tokens {
		if s.Tokens[i] == o {
			s.Tokens[i] = &n
		}
	}
	return &n, nil
}
func (s *Store) FindUserId(n, p string) (int64, *bridge.Error) {
	if e := s.enter("FindUserId", n, p); e != nil {
		return 0, e
	}
	if id, ok := s.Users[n+"\x00"+p]; ok {
		return id, nil
	}
	return 0, notFound
}
func (s *Store) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	if e := s.enter("FindUserIdBySubject", sub); e != nil {
		return 0, e
	}
	if id, ok := s.Subs[sub]; ok {
		return id, nil
	}
	return 0, notFound
}
func (s *Store) CreateOrUpdateAuthInfo(uid int64, cid, scope string) (bridge.AuthInfo, *bridge.Error) {
	if e := s.enter("CreateOrUpdateAuthInfo", uid, cid, scope); e != nil {
		return nil, e
	}
	if s.Nil["CreateOrUpdateAuthInfo"] {
		return nil, nil
	}
	return s.AddInfo(uid, cid, scope), nil
}
func (s *Store) AddInfo(uid int64, cid, scope string) *Info {
	i := s.find(uid, cid)
	if i == nil {
		i = &Info{Id: int64(100 + len(s.Infos)), User: uid, Client: cid, Sub: fmt.Sprintf("sub-%d", uid)}
		s.Infos[i.Id] = i
	}
	i.Scope, i.At, i.Active = scope, s.Now, true
	return i
}
func (s *Store) CreateAuthSession(info bridge.AuthInfo, x *authorization.Session) *bridge.Error {
	if e := s.enter("CreateAuthSession", info.GetId(), x.Code); e != nil {
		return e
	}
	s.Sessions[x.Code] = &Sess{Session: *x, Auth: info.GetId(), Created: s.Now, IdtExp: 600}
	return nil
}
func (s *Store) AddSession(info *Info, code, uri string) *Sess {
	x := &Sess{Auth: info.Id, Created: s.Now, IdtExp: 600}
	x.Code, x.RedirectURI, x.ExpiresIn, x.AuthTime = code, uri, 60, s.Now-30
	s.Sessions[code] = x
	return x
}
func (s *Store) DisableSession(x bridge.AuthSession) *bridge.Error {
	if e := s.enter("DisableSession", x.GetCode()); e != nil {
		return e
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	y := s.Sessions[x.GetCode()]
	if y == nil || y.Disabled {
		return notFound
	}
	y.Disabled = true
	return nil
}
func (s *Store) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	if e := s.enter("RecordAssertionClaims", cid, jti, iat, exp); e != nil {
		return e
	}
	k := fmt.Sprint(cid, "|", jti, "|", iat, "|", exp)
	if s.JTIs[k] {
		return notFound
	}
	s.JTIs[k] = true
	return nil
}

// ---- logging

type Log struct {
	mu    sync.Mutex
	Lines []string
}

func (l *Log) add(s string)           { l.mu.Lock(); l.Lines = append(l.Lines, s); l.mu.Unlock() }
func (l *Log) Debug(v ...interface{}) { l.add(fmt.Sprint(v...)) }
func (l *Log) Info(v ...interface{})  { l.add(fmt.Sprint(v...)) }
func (l *Log) Warn(v ...interface{})  { l.add(fmt.Sprint(v...)) }
func (l *Log) Error(v ...interface{}) { l.add(fmt.Sprint(v...)) }

func (l *Log) Fatal(v ...interface{})            { l.add(fmt.Sprint(v...)) }
func (l *Log) Debugf(f string, v ...interface{}) { l.add(fmt.Sprintf(f, v...)) }
func (l *Log) Infof(f string, v ...interface{})  { l.add(fmt.Sprintf(f, v...)) }
func (l *Log) Warnf(f string, v ...interface{})  { l.add(fmt.Sprintf(f, v...)) }
func (l *Log) Errorf(f string, v ...interface{}) { l.add(fmt.Sprintf(f, v...)) }
func (l *Log) Fatalf(f string, v ...interface{}) { l.add(fmt.Sprintf(f, v...)) }

var _ log.Logger = &Log{}

// ---- provider

type P struct {
	*Store
	L   *Log
	TE  *goidc.TokenEndpoint
	RP  *goidc.ResourceProtector
	AE  *goidc.AuthorizationEndpoint
	Pol *authorization.Policy
	CB  *CB
}

const URI = "https://rp.example/cb"

// New returns a provider with the client "cl"/"sec" and the user alice/pw (7).
func New() *P {
	s := NewStore()
	s.Clients["cl"] = &Client{Id: "cl", Secret: "sec", Owner: 70, Alg: "HS256", Key: []byte("idtoken-key"), URIs: []string{URI}}
	s.Users["alice\x00pw"] = 7
	s.Subs["sub-7"] = 7
	p := &P{Store: s, L: &Log{}, Pol: authorization.DefaultPolicy()}
	p.CB = &CB{p: p, Login: true, User: 7, AuthTime: s.Now - 30}
	now := func() time.Time { return time.Unix(s.Now, 0) }
	p.TE = p.NewTE("realm")
	p.RP = goidc.NewResourceProtector("api")
	p.RP.SetLogger(p.L)
	p.RP.SetTimeBuilder(now)
	p.AE = goidc.NewAuthorizationEndpoint(s, p.Pol)
	p.AE.SetLogger(p.L)
	p.AE.SetTimeBuilder(now)
	jwt.TimeFunc = now
	return p
}

func (p *P) NewTE(realm string) *goidc.TokenEndpoint {
	te := goidc.NewTokenEndpoint(realm)
	te.SetLogger(p.L)
	te.SetTimeBuilder(func() time.Time { return time.Unix(p.Now, 0) })
	for _, h := range []*grant.GrantHandler{grant.AuthorizationCode(), grant.ClientCredentials(), grant.JWT(), grant.Password(), grant.RefreshToken()} {
		te.Support(h)
	}
	return te
}

func Form(kv ...string) string {
	var out []string
	for i := 0; i+1 < len(kv); i += 2 {
		out = append(out, url.QueryEscape(kv[i])+"="+url.QueryEscape(kv[i+1]))
	}
	return strings.Join(out, "&")
}

func Req(method, target, body string) *http.Request {
	r := httptest.NewRequest(method, target, strings.NewReader(body))
	if method == "POST" {
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	return r
}

type Res struct {
	*httptest.ResponseRecorder
	Panic interface{}
	OK    bool
}

func (r *Res) JSON() map[string]interface{} {
	m := map[string]interface{}{}
	json.Unmarshal(r.Body.Bytes(), &m)
	return m
}
func (r *Res) Str(k string) string { v, _ := r.JSON()[k].(string); return v }
func (r *Res) String() string {
	return fmt.Sprintf("%d %v %s panic=%v", r.Code, r.Header(), r.Body.String(), r.Panic)
}

func run(f func(w http.ResponseWriter) bool) *Res {
	r := &Res{ResponseRecorder: httptest.NewRecorder()}
	func() {
		defer func() { r.Panic = recover() }()
		r.OK = f(r.ResponseRecorder)
	}()
	return r
}

func (p *P) Serve(te *goidc.TokenEndpoint, r *http.Request) *Res {
	return run(func(w http.ResponseWriter) bool { te.Handler(p.Store)(w, r); return true })
}

// Token posts a form to the token endpoint, with Basic credentials.
func (p *P) Token(id, secret string, kv ...string) *Res {
	r := Req("POST", "/token", Form(kv...))
	if id != "" {
		r.SetBasicAuth(id, secret)
	}
	return p.Serve(p.TE, r)
}

func (p *P) Redeem(code string, kv ...string) *Res {
	return p.Token("cl", "sec", append([]string{"grant_type", "authorization_code", "code", code, "redirect_uri", URI}, kv...)...)
}

func (p *P) API(r *http.Request, m map[string][]string) *Res {
	return run(func(w http.ResponseWriter) bool { return p.RP.ValidateWithScopes(w, r, p.Store, m) })
}

// ---- authorization endpoint

type CB struct {
	p         *P
	Login     bool
	FromLogin bool
	User      int64
	AuthTime  int64
	Screens   []string
	Shown     *authorization.Request
	Req       *authorization.Request
	Err       map[string]error
	Codes     int
}

func (c *CB) ShowErrorScreen(t int) { c.Screens = append(c.Screens, fmt.Sprintf("error:%d", t)) }
func (c *CB) ShowLoginScreen(r *authorization.Request) error {
	if e := c.Err["ShowLoginScreen"]; e != nil {
		return e
	}
	c.Screens, c.Shown = append(c.Screens, "login"), r
	return nil
}
func (c *CB) ShowConsentScreen(_ bridge.Client, r *authorization.Request) error {
	if e := c.Err["ShowConsentScreen"]; e != nil {
		return e
	}
	c.Screens, c.Shown = append(c.Screens, "consent"), r
	return nil
}
func (c *CB) ChooseLocale(string) (string, error)       { return "en", c.Err["ChooseLocale"] }
func (c *CB) ConfirmLoginSession() (bool, error)        { return c.Login, c.Err["ConfirmLoginSession"] }
func (c *CB) RequestIsFromLogin() (bool, error)         { return c.FromLogin, c.Err["RequestIsFromLogin"] }
func (c *CB) GetAuthTime() (int64, error)               { return c.AuthTime, c.Err["GetAuthTime"] }
func (c *CB) GetLoginUserId() (int64, error)            { return c.User, c.Err["GetLoginUserId"] }
func (c *CB) Continue() (*authorization.Request, error) { return c.Req, c.Err["Continue"] }
func (c *CB) CreateAuthorizationCode() (string, error) {
	c.Codes++
	return fmt.Sprintf("code-%d", c.Codes), c.Err["CreateAuthorizationCode"]
}
func (c *CB) LoginUserIsMatchedToSubject(s string) (bool, error) {
	return s == fmt.Sprintf("sub-%d", c.User), c.Err["LoginUserIsMatchedToSubject"]
}

// Authz sends an authorization request; pairs override the defaults, "-" removes.
func (p *P) Authz(kv ...string) *Res {
	base := [][2]string{{"client_id", "cl"}, {"redirect_uri", URI}, {"response_type", "code"}, {"scope", "openid"}, {"state", "st"}, {"nonce", "no"}}
	for i := 0; i+1 < len(kv); i += 2 {
		found := false
		for j := range base {
			if base[j][0] == kv[i] {
				base[j][1], found = kv[i+1], true
			}
		}
		if !found {
			base = append(base, [2]string{kv[i], kv[i+1]})
		}
	}
	var l []string
	for _, b := range base {
		if b[1] != "-" {
			l = append(l, b[0], b[1])
		}
	}
	p.CB.Screens, p.CB.Shown = nil, nil
	r := Req("GET", "/authorize?"+Form(l...), "")
	return run(func(w http.ResponseWriter) bool { return p.AE.HandleRequest(w, r, p.CB) })
}

// Approve completes the request of the consent screen, as the application would.
func (p *P) Approve() *Res {
	p.CB.Req = authorization.DecodeRequest(p.CB.Shown.Encode())
	r := Req("POST", "/consent", "")
	return run(func(w http.ResponseWriter) bool { return p.AE.CompleteRequest(w, r, p.CB) })
}

func (p *P) Cancel() *Res {
	p.CB.Req = authorization.DecodeRequest(p.CB.Shown.Encode())
	r := Req("POST", "/consent", "")
	return run(func(w http.ResponseWriter) bool { return p.AE.CancelRequest(w, r, p.CB) })
}

// Params returns the parameters of a redirect's query or fragment.
func (r *Res) Params() url.Values {
	u, err := url.Parse(r.Header().Get("Location"))
	if err != nil {
		return url.Values{}
	}
	v, _ := url.ParseQuery(u.RawQuery)
	w, _ := url.ParseQuery(u.EscapedFragment())
	for k, l := range w {
		v[k] = append(v[k], l...)
	}
	return v
}

func RSAKey() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	check(err == nil, "key: %v", err)
	return k
}

func Sign(alg, kid string, key interface{}, claims jwt.MapClaims) string {
	t := jwt.NewWithClaims(jwt.GetSigningMethod(alg), claims)
	if kid != "" {
		t.Header["kid"] = kid
	}
	s, err := t.SignedString(key)
	check(err == nil, "sign: %v", err)
	return s
}

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("FAILED: "+format+"\n", args...)
		os.Exit(1)
	}
}

func main() {
	demo()
	fmt.Println("ok")
}
