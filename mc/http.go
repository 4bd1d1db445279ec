package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/log"
)

// kv is an ordered parameter list (order and duplicates matter).
type kv struct{ k, v string }
type kvs []kv

func (p kvs) encode() string {
	var b strings.Builder
	for i, e := range p {
		if i > 0 {
			b.WriteByte('&')
		}
		b.WriteString(url.QueryEscape(e.k) + "=" + url.QueryEscape(e.v))
	}
	return b.String()
}

func (p kvs) get(k string) (string, bool) {
	for _, e := range p {
		if e.k == k {
			return e.v, true
		}
	}
	return "", false
}

func (p kvs) with(k, v string) kvs {
	out := make(kvs, 0, len(p)+1)
	done := false
	for _, e := range p {
		if e.k == k && !done {
			out = append(out, kv{k, v})
			done = true
		} else {
			out = append(out, e)
		}
	}
	if !done {
		out = append(out, kv{k, v})
	}
	return out
}

func (p kvs) without(k string) kvs {
	out := make(kvs, 0, len(p))
	for _, e := range p {
		if e.k != k {
			out = append(out, e)
		}
	}
	return out
}

// Req is a request under construction.
type Req struct {
	method string
	path   string
	raw    string // the path as encoded by the client, if not in the usual way
	query  kvs
	body   kvs // form body; nil: no body
	noType bool
	ctype  string
	header [][2]string
	qTail  string // appended to the encoded query and body
	bTail  string
}

// form returns what a form reader sees: body first, then query.
func (q *Req) form(k string) string {
	if q.method == "POST" || q.method == "PUT" || q.method == "PATCH" {
		if v, ok := q.body.get(k); ok && !q.noType {
			return v
		}
	}
	v, _ := q.query.get(k)
	return v
}

func (q *Req) postForm(k string) string {
	if q.method == "POST" || q.method == "PUT" || q.method == "PATCH" {
		if v, ok := q.body.get(k); ok && !q.noType {
			return v
		}
	}
	return ""
}

func (q *Req) String() string {
	s := q.method + " " + q.path
	if q.raw != "" {
		s = q.method + " " + q.raw
	}
	if len(q.query) > 0 {
		s += "?" + q.query.encode()
	}
	for _, h := range q.header {
		s += " [" + h[0] + ": " + h[1] + "]"
	}
	if q.body != nil {
		s += " body=" + q.body.encode()
	}
	return s
}

type pointReader struct {
	r io.Reader
	w *World
}

func (p *pointReader) Read(b []byte) (int, error) { p.w.point("body.Read"); return p.r.Read(b) }
func (p *pointReader) Close() error               { return nil }

func (q *Req) build(w *World) *http.Request {
	if w.x != nil && w.x.dict != nil {
		w.x.dict.apply(w.x, w, q)
	}
	if w.x != nil && w.x.pert != nil {
		w.x.pert.apply(w.x, w, q)
	}
	path := q.path
	if path == "" {
		path = "/"
	}
	u := &url.URL{Scheme: "https", Host: "op.example", Path: path, RawPath: q.raw, RawQuery: q.query.encode() + q.qTail}
	r := &http.Request{Method: q.method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "op.example",
		RequestURI: u.RequestURI()}
	if q.body != nil {
		b := q.body.encode() + q.bTail
		r.Body = &pointReader{strings.NewReader(b), w}
		r.ContentLength = int64(len(b))
		if !q.noType {
			ct := q.ctype
			if ct == "" {
				ct = "application/x-www-form-urlencoded"
			}
			r.Header.Set("Content-Type", ct)
		}
	} else {
		r.Body = http.NoBody
	}
	for _, h := range q.header {
		r.Header.Add(h[0], h[1])
	}
	return r
}

// Resp is what the client of the endpoint sees.
type Resp struct {
	w       *World
	status  int
	nHeader int
	hdr     http.Header // at WriteHeader time
	live    http.Header
	body    bytes.Buffer
	panic_  string
	crashed string
	ret     bool // handler's return value where it has one
	req     *http.Request
}

func newResp(w *World) *Resp { return &Resp{w: w, live: http.Header{}} }

func (r *Resp) Header() http.Header { r.w.point("w.Header"); return r.live }
func (r *Resp) WriteHeader(c int) {
	r.w.point("w.WriteHeader")
	r.nHeader++
	if r.nHeader == 1 {
		r.status = c
		r.hdr = r.live.Clone()
	}
}
func (r *Resp) Write(b []byte) (int, error) {
	r.w.point("w.Write")
	if r.nHeader == 0 {
		r.nHeader++
		r.status = 200
		r.hdr = r.live.Clone()
	}
	r.body.Write(b)
	return len(b), nil
}

// get reads a header as sent.
func (r *Resp) get(h string) string { return r.hdr.Get(h) }

func (r *Resp) silent() bool { return r.nHeader == 0 && r.body.Len() == 0 }

func (r *Resp) String() string {
	if r.crashed != "" {
		return "crashed in " + r.crashed
	}
	if r.panic_ != "" {
		return "PANIC " + r.panic_
	}
	if r.silent() {
		return fmt.Sprintf("no output, returned %v", r.ret)
	}
	var hs []string
	for k, v := range r.hdr {
		hs = append(hs, k+": "+strings.Join(v, " | "))
	}
	sort.Strings(hs)
	return fmt.Sprintf("%d {%s} %s", r.status, strings.Join(hs, "; "), r.body.String())
}

// guard runs f, turning panics into observations. Harness-internal panics pass through.
func guard(r *Resp, f func()) {
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case crashed:
				r.crashed = v.at
			case skipUnit:
				panic(e)
			case schedAbort:
				panic(e)
			case harnessError:
				panic(e)
			default:
				r.panic_ = fmt.Sprint(e)
			}
		}
	}()
	f()
}

type harnessError struct{ s string }

func (h harnessError) Error() string { return "harness: " + h.s }

// --- JSON ----------------------------------------------------------------------

// jsonObj strictly decodes one JSON object, refusing duplicate keys and trailing data.
func jsonObj(b []byte) (map[string]interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	if t != json.Delim('{') {
		return nil, fmt.Errorf("not an object")
	}
	m := map[string]interface{}{}
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, err
		}
		var v interface{}
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
		if _, dup := m[k.(string)]; dup {
			return nil, fmt.Errorf("duplicate member %v", k)
		}
		m[k.(string)] = v
	}
	if _, err := d.Token(); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return m, nil
}

// --- logger ----------------------------------------------------------------------

type LogRec struct {
	w    *World
	keep bool
	msgs []string
	thr  []int
}

func (l *LogRec) rec(a ...interface{}) {
	if l.w != nil {
		l.w.point("log")
	}
	if l.keep {
		l.msgs = append(l.msgs, fmt.Sprint(a...))
		if l.w != nil {
			l.thr = append(l.thr, l.w.thread())
		}
	}
}
func (l *LogRec) Debug(a ...interface{})            { l.rec(a...) }
func (l *LogRec) Info(a ...interface{})             { l.rec(a...) }
func (l *LogRec) Warn(a ...interface{})             { l.rec(a...) }
func (l *LogRec) Error(a ...interface{})            { l.rec(a...) }
func (l *LogRec) Fatal(a ...interface{})            { l.rec(a...) }
func (l *LogRec) Debugf(f string, a ...interface{}) { l.rec(fmt.Sprintf(f, a...)) }
func (l *LogRec) Infof(f string, a ...interface{})  { l.rec(fmt.Sprintf(f, a...)) }
func (l *LogRec) Warnf(f string, a ...interface{})  { l.rec(fmt.Sprintf(f, a...)) }
func (l *LogRec) Errorf(f string, a ...interface{}) { l.rec(fmt.Sprintf(f, a...)) }
func (l *LogRec) Fatalf(f string, a ...interface{}) { l.rec(fmt.Sprintf(f, a...)) }

var _ log.Logger = (*LogRec)(nil)

// --- endpoints -------------------------------------------------------------------

var allGrants = []string{"authorization_code", "refresh_token", "password", "client_credentials", jwtGrant}

const jwtGrant = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
const assertionType = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"

var currentWorldTime int64

// worldNow is the clock of the code under test (endpoints and the jwt library).
func setupProcess() {
	jwt.TimeFunc = func() time.Time { return time.Unix(currentWorldTime, 0) }
}

func (w *World) setNow(t int64) {
	w.now = t
	currentWorldTime = t
}

func (w *World) clock() func() time.Time {
	return func() time.Time {
		w.point("clock")
		return time.Unix(w.now, 0)
	}
}

func (w *World) logger() *LogRec {
	if w.logs == nil {
		w.logs = &LogRec{w: w}
	}
	return w.logs
}

func newTE(w *World, realm string) *goidc.TokenEndpoint {
	te := goidc.NewTokenEndpoint(realm)
	te.SetLogger(w.logger())
	te.SetTimeBuilder(w.clock())
	return te
}

func newRP(w *World, realm string) *goidc.ResourceProtector {
	rp := goidc.NewResourceProtector(realm)
	rp.SetLogger(w.logger())
	rp.SetTimeBuilder(w.clock())
	return rp
}

func (w *World) TokenEndpoint(grants ...string) *goidc.TokenEndpoint {
	te := newTE(w, "realm")
	if len(grants) == 0 {
		grants = allGrants
	}
	for _, g := range grants {
		switch g {
		case "authorization_code":
			te.Support(grant.AuthorizationCode())
		case "refresh_token":
			te.Support(grant.RefreshToken())
		case "password":
			te.Support(grant.Password())
		case "client_credentials":
			te.Support(grant.ClientCredentials())
		case jwtGrant:
			te.Support(grant.JWT())
		}
	}
	return te
}

func (w *World) Protector() *goidc.ResourceProtector {
	rp := goidc.NewResourceProtector("realm")
	rp.SetLogger(w.logger())
	rp.SetTimeBuilder(w.clock())
	return rp
}

func (w *World) AuthzEndpoint(p *authorization.Policy) *goidc.AuthorizationEndpoint {
	if p == nil {
		p = authorization.DefaultPolicy()
	}
	ae := goidc.NewAuthorizationEndpoint(w, p)
	ae.SetLogger(w.logger())
	ae.SetTimeBuilder(w.clock())
	return ae
}

// Token sends q to the token endpoint.
func (w *World) Token(te *goidc.TokenEndpoint, q *Req) *Resp {
	w.x.commit()
	currentWorldTime = w.now
	r := newResp(w)
	hr := q.build(w)
	r.req = hr
	if w.x.tracing {
		w.x.trace = append(w.x.trace, "token request "+q.String())
	}
	w.x.h = fnvAdd(w.x.h, "token")
	w.x.trans++
	// one handler serves all requests, as in an application
	h := w.handlers[te]
	if h == nil {
		h = te.Handler(w)
		if w.handlers == nil {
			w.handlers = map[*goidc.TokenEndpoint]http.HandlerFunc{}
		}
		w.handlers[te] = h
	}
	guard(r, func() { h(r, hr) })
	w.x.Step("response " + r.canon())
	return r
}

// canon renders a response independent of map order in form_post pages (large bodies hashed by String).
func (r *Resp) canon() string {
	if strings.HasPrefix(r.get("Content-Type"), "text/html") {
		f, err := parseForm(r.body.String())
		if err == nil {
			return fmt.Sprintf("%d form %s %v", r.status, f.action, f.sorted())
		}
	}
	return r.String()
}

// Validate sends q to the resource protector.
func (w *World) Validate(rp *goidc.ResourceProtector, q *Req, scopes map[string][]string) *Resp {
	w.x.commit()
	currentWorldTime = w.now
	r := newResp(w)
	hr := q.build(w)
	r.req = hr
	if w.x.tracing {
		w.x.trace = append(w.x.trace, "api request "+q.String())
	}
	w.x.h = fnvAdd(w.x.h, "api")
	w.x.trans++
	guard(r, func() {
		if scopes != nil {
			r.ret = rp.ValidateWithScopes(r, hr, w, scopes)
		} else {
			r.ret = rp.Validate(r, hr, w)
		}
	})
	w.x.Step(fmt.Sprintf("api %v %s", r.ret, r.canon()))
	return r
}

// --- callbacks ---------------------------------------------------------------------

type CB struct {
	w         *World
	login     bool
	uid       int64
	fromLogin bool
	authTime  int64
	locale    string
	localeErr bool
	subOK     func(sub string) bool
	cont      *authorization.Request
	codeName  func() string

	// observed
	errScreens []int
	logins     []*authorization.Request
	consents   []*authorization.Request
	consentCl  []bridge.Client
	codes      []string
}

type cbErr struct{ s string }

func (e cbErr) Error() string { return e.s }

func (c *CB) enter(name, args string, nilable bool) faultKind {
	w := c.w
	if w.sched != nil {
		w.sched.opPoint(name)
	}
	k := fNone
	if w.faultsOn {
		menu := []faultKind{fServerError}
		if nilable {
			menu = append(menu, fNil)
		}
		if w.faultMenu != nil {
			menu = w.faultMenu("cb."+name, nilable, false)
		}
		if len(menu) > 0 {
			if n := w.x.Dev("fault:cb."+name, len(menu)+1); n > 0 {
				k = menu[n-1]
			}
		}
	}
	w.calls = append(w.calls, Call{Thread: w.thread(), Name: "cb." + name, Args: args, Fault: k})
	if k != fNone {
		w.faulted = append(w.faulted, "cb."+name)
		w.faultAt = append(w.faultAt, len(w.calls)-1)
	}
	w.x.Step(fmt.Sprintf("T%d cb.%s(%s) %s", w.thread(), name, args, faultNames[k]))
	if k == fCrash {
		panic(crashed{name})
	}
	return k
}

func (c *CB) ShowErrorScreen(t int) {
	c.w.calls = append(c.w.calls, Call{Thread: c.w.thread(), Name: "cb.ShowErrorScreen", Args: fmt.Sprint(t)})
	c.w.x.Stepf("cb.ShowErrorScreen(%d)", t)
	c.errScreens = append(c.errScreens, t)
}

func (c *CB) ShowLoginScreen(req *authorization.Request) error {
	k := c.enter("ShowLoginScreen", "", false)
	if k != fNone {
		return cbErr{"login screen failed"}
	}
	cp := *req
	c.logins = append(c.logins, &cp)
	return nil
}

func (c *CB) ShowConsentScreen(cl bridge.Client, req *authorization.Request) error {
	k := c.enter("ShowConsentScreen", "", false)
	if k != fNone {
		return cbErr{"consent screen failed"}
	}
	cp := *req
	c.consents = append(c.consents, &cp)
	c.consentCl = append(c.consentCl, cl)
	return nil
}

func (c *CB) ChooseLocale(l string) (string, error) {
	if c.enter("ChooseLocale", l, false) != fNone || c.localeErr {
		return "", cbErr{"locale failed"}
	}
	if c.locale == "" {
		return "loc:" + l, nil
	}
	return c.locale, nil
}

func (c *CB) ConfirmLoginSession() (bool, error) {
	if c.enter("ConfirmLoginSession", "", false) != fNone {
		return true, cbErr{"session failed"}
	}
	return c.login, nil
}

func (c *CB) RequestIsFromLogin() (bool, error) {
	if c.enter("RequestIsFromLogin", "", false) != fNone {
		return true, cbErr{"fromlogin failed"}
	}
	return c.fromLogin, nil
}

func (c *CB) GetAuthTime() (int64, error) {
	if c.enter("GetAuthTime", "", false) != fNone {
		return c.w.now, cbErr{"authtime failed"}
	}
	return c.authTime, nil
}

func (c *CB) GetLoginUserId() (int64, error) {
	if c.enter("GetLoginUserId", "", false) != fNone {
		return c.uid, cbErr{"uid failed"}
	}
	return c.uid, nil
}

func (c *CB) CreateAuthorizationCode() (string, error) {
	if c.enter("CreateAuthorizationCode", "", false) != fNone {
		return "LEAKEDCODE", cbErr{"code failed"}
	}
	var code string
	if c.codeName != nil {
		code = c.codeName()
	} else {
		code = c.w.tokName("CODE", c.w.nextCode)
	}
	c.w.nextCode++
	c.codes = append(c.codes, code)
	return code, nil
}

func (c *CB) Continue() (*authorization.Request, error) {
	switch c.enter("Continue", "", true) {
	case fNone:
		return c.cont, nil
	case fNil:
		return nil, nil
	}
	return nil, cbErr{"continue failed"}
}

func (c *CB) LoginUserIsMatchedToSubject(sub string) (bool, error) {
	if c.enter("LoginUserIsMatchedToSubject", sub, false) != fNone {
		return true, cbErr{"match failed"}
	}
	if c.subOK != nil {
		return c.subOK(sub), nil
	}
	return sub == fmt.Sprintf("sub-%d", c.uid), nil
}

var _ bridge.AuthorizationCallbacks = (*CB)(nil)

func (w *World) authzReq(q *Req) (*Resp, *http.Request) {
	w.x.commit()
	currentWorldTime = w.now
	r := newResp(w)
	hr := q.build(w)
	r.req = hr
	w.x.trans++
	if w.x.tracing {
		w.x.trace = append(w.x.trace, "authz request "+q.String())
	}
	w.x.h = fnvAdd(w.x.h, "authz")
	return r, hr
}

func (w *World) Authorize(ae *goidc.AuthorizationEndpoint, q *Req, cb *CB) *Resp {
	r, hr := w.authzReq(q)
	guard(r, func() { r.ret = ae.HandleRequest(r, hr, cb) })
	w.x.Step(fmt.Sprintf("authz %v %s", r.ret, r.canon()))
	return r
}

func (w *World) Complete(ae *goidc.AuthorizationEndpoint, q *Req, cb *CB) *Resp {
	r, hr := w.authzReq(q)
	guard(r, func() { r.ret = ae.CompleteRequest(r, hr, cb) })
	w.x.Step(fmt.Sprintf("complete %v %s", r.ret, r.canon()))
	return r
}

func (w *World) Cancel(ae *goidc.AuthorizationEndpoint, q *Req, cb *CB) *Resp {
	r, hr := w.authzReq(q)
	guard(r, func() { r.ret = ae.CancelRequest(r, hr, cb) })
	w.x.Step(fmt.Sprintf("cancel %v %s", r.ret, r.canon()))
	return r
}
