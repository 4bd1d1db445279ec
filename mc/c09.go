package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/lyokato/goidc"
)

// C09: protected resources. C10: scope-restricted paths.

func init() {
	register(&Check{
		ID:   "C09",
		Rule: "every presentation of an access token within the deviation bound x protector configuration x token age x authorization state, every single-edit neighbour of the token and scheme, every age around expiry, and every history of issue/refresh/revoke/expire up to the depth, on the real protector against a reference decision over the stored records",
		Assumptions: []string{
			"where several tokens are presented at once, or the Authorization header is malformed, the decision may follow any one of them or refuse with 400/401, but never admits without a live token",
		},
		Scenarios: c09Scenarios,
	})
	register(&Check{
		ID:        "C10",
		Rule:      "every scope map entry x granted scope over the word menus, every path neighbour, and every spoofed identity header, on the real protector against whole-token set inclusion",
		Scenarios: c10Scenarios,
	})
}

// challenge is a parsed WWW-Authenticate header value.
type challenge struct {
	scheme string
	params kvs
}

func isTchar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("!#$%&'*+-.^_`|~", c) >= 0
}

// parseChallenge reads one challenge with auth-params, per RFC 7235.
func parseChallenge(s string) (*challenge, error) {
	i := 0
	word := func() string {
		st := i
		for i < len(s) && isTchar(s[i]) {
			i++
		}
		return s[st:i]
	}
	sp := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t') {
			i++
		}
	}
	c := &challenge{scheme: word()}
	if c.scheme == "" {
		return nil, fmt.Errorf("no scheme in %q", s)
	}
	if i < len(s) && s[i] != ' ' {
		return nil, fmt.Errorf("bad scheme in %q", s)
	}
	sp()
	for i < len(s) {
		k := strings.ToLower(word())
		if k == "" {
			return nil, fmt.Errorf("bad parameter name at %d in %q", i, s)
		}
		sp()
		if i >= len(s) || s[i] != '=' {
			return nil, fmt.Errorf("no value for %s in %q", k, s)
		}
		i++
		sp()
		v := ""
		if i < len(s) && s[i] == '"' {
			i++
			done := false
			for i < len(s) {
				ch := s[i]
				i++
				if ch == '"' {
					done = true
					break
				}
				if ch == '\\' {
					if i >= len(s) {
						return nil, fmt.Errorf("dangling escape in %q", s)
					}
					ch = s[i]
					i++
				}
				if ch < 0x20 && ch != '\t' || ch == 0x7f {
					return nil, fmt.Errorf("control character in %q", s)
				}
				v += string([]byte{ch})
			}
			if !done {
				return nil, fmt.Errorf("unterminated quoted string in %q", s)
			}
		} else {
			v = word()
			if v == "" {
				return nil, fmt.Errorf("empty value for %s in %q", k, s)
			}
		}
		if _, dup := c.params.get(k); dup {
			return nil, fmt.Errorf("parameter %s repeated in %q", k, s)
		}
		c.params = append(c.params, kv{k, v})
		sp()
		if i < len(s) {
			if s[i] != ',' {
				return nil, fmt.Errorf("junk at %d in %q", i, s)
			}
			i++
			sp()
			if i >= len(s) {
				return nil, fmt.Errorf("trailing comma in %q", s)
			}
		}
	}
	return c, nil
}

// apiOut is the outcome of a protected-resource request.
type apiOut struct {
	admitted bool
	uid      string
	client   string
	scope    string
	status   int
	code     string
	desc     string
	bad      string
}

func (o apiOut) String() string {
	if o.bad != "" {
		return "bad response: " + o.bad
	}
	if o.admitted {
		return fmt.Sprintf("admitted as user %s client %s scope %q", o.uid, o.client, o.scope)
	}
	return fmt.Sprintf("refused %d %s (%s)", o.status, o.code, o.desc)
}

// same compares outcomes, ignoring the description.
func (o apiOut) same(p apiOut) bool { o.desc, p.desc = "", ""; return o == p }

func readAPI(r *Resp) apiOut {
	if r.crashed != "" {
		return apiOut{bad: "crashed"}
	}
	if r.panic_ != "" {
		return apiOut{bad: "panic: " + r.panic_}
	}
	if r.ret {
		if !r.silent() {
			return apiOut{bad: "admitted, but a response was written: " + r.String()}
		}
		o := apiOut{admitted: true}
		for _, h := range []struct {
			n string
			p *string
		}{{"X-Oauth-User-Id", &o.uid}, {"X-Oauth-Client-Id", &o.client}, {"X-Oauth-Scope", &o.scope}} {
			v := r.req.Header[h.n]
			if len(v) > 1 {
				return apiOut{bad: fmt.Sprintf("header %s has values %q", h.n, v)}
			}
			if len(v) == 1 {
				*h.p = v[0]
			}
		}
		return o
	}
	if r.nHeader != 1 {
		return apiOut{bad: fmt.Sprintf("refused, response started %d times", r.nHeader)}
	}
	o := apiOut{status: r.status}
	if len(r.hdr["Www-Authenticate"]) > 1 {
		return apiOut{bad: "several WWW-Authenticate headers"}
	}
	if h := r.get("WWW-Authenticate"); h != "" {
		c, err := parseChallenge(h)
		if err != nil {
			return apiOut{bad: err.Error()}
		}
		if c.scheme != "Bearer" {
			return apiOut{bad: "challenge " + h}
		}
		o.code, _ = c.params.get("error")
		o.desc, _ = c.params.get("error_description")
	}
	return o
}

// c09Decide is the reference decision for one presented token ("" none).
func (w *World) apiDecide(tok string) apiOut {
	if tok == "" {
		return apiOut{status: 400, code: "invalid_request"}
	}
	no := apiOut{status: 401, code: "invalid_token"}
	var t *Token
	for _, k := range w.tokens {
		if k.access == tok && !k.superseded {
			t = k
		}
	}
	if t == nil || t.refreshed+t.aExp < w.now {
		return no
	}
	i := w.infos[t.authId]
	if i == nil || !i.active {
		return no
	}
	return apiOut{admitted: true, uid: strconv.FormatInt(i.uid, 10), client: i.clientId, scope: i.scope}
}

// apiCandidates lists the tokens the request can be said to carry.
func apiCandidates(q *Req, r *http.Request, meth goidc.CredentialAcceptanceMethod) (toks []string, loose bool) {
	add := func(t string) {
		for _, o := range toks {
			if o == t {
				return
			}
		}
		toks = append(toks, t)
	}
	hs := r.Header["Authorization"]
	if len(hs) > 1 {
		loose = true
	}
	for _, h := range hs {
		p := strings.Split(h, " ")
		if len(p) == 2 && strings.EqualFold(p[0], "Bearer") && p[1] != "" && !strings.ContainsAny(h, "\t\r\n,") {
			add(p[1])
		} else if len(p[0]) >= 6 && strings.EqualFold(p[0][:6], "Bearer") && (len(p[0]) == 6 || !isTokenChar(p[0][6])) {
			// another word that begins with Bearer is another scheme
			loose = true
			for _, s := range strings.FieldsFunc(h, func(c rune) bool { return c == ' ' || c == '\t' || c == ',' })[1:] {
				add(s)
			}
		}
	}
	if meth == goidc.FromHeaderAndPostBody || meth == goidc.FromAll {
		for _, t := range r.PostForm["access_token"] {
			if t != "" {
				add(t)
			}
			if r.Method != "POST" {
				loose = true
			}
		}
	}
	if meth == goidc.FromAll {
		for _, t := range r.URL.Query()["access_token"] {
			if t != "" {
				add(t)
			}
		}
	}
	// several values, even empty ones, leave the choice to the implementation
	if len(toks) > 1 || len(r.PostForm["access_token"])+len(r.URL.Query()["access_token"]) > 1 {
		loose = true
	}
	return
}

func isTokenChar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("!#$%&'*+-.^_`|~", c) >= 0
}

func c09Ask(x *X, w *World, rp *goidc.ResourceProtector, meth goidc.CredentialAcceptanceMethod, q *Req) apiOut {
	toks, loose := apiCandidates(q, q.parsed(w), meth)
	var want []apiOut
	for _, t := range toks {
		want = append(want, w.apiDecide(t))
	}
	if len(toks) == 0 || loose {
		want = append(want, w.apiDecide(""))
	}
	if loose {
		want = append(want, apiOut{status: 401, code: "invalid_token"})
	}
	from := len(w.calls)
	r := w.Validate(rp, q, nil)
	o := readAPI(r)
	if o.bad != "" {
		x.Fail("malformed", "%s => %s", q, o)
		return o
	}
	if m := w.mutations(from); len(m) > 0 {
		x.Fail("store-changed", "%s => %s, store calls %s", q, o, callList(m))
	}
	for _, e := range want {
		if o.same(e) {
			return o
		}
	}
	key := "decision"
	switch {
	case o.admitted && !want[0].admitted:
		key = "admitted"
	case o.admitted:
		key = "wrong-identity"
	case want[0].admitted:
		key = "refused"
	case o.status != want[0].status || o.code != want[0].code:
		key = "wrong-error"
	}
	x.Fail(key, "%s (accept method %d, now %d) => %s, want one of %v", q, meth, w.now, o, want)
	return o
}

var apiMethods = []goidc.CredentialAcceptanceMethod{goidc.FromHeader, goidc.FromHeaderAndPostBody, goidc.FromAll}

var spoofs = [][2]string{{"X-OAUTH-USER-ID", "666"}, {"X-OAUTH-CLIENT-ID", "evil"}, {"X-OAUTH-SCOPE", "admin openid"}}

func c09Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	bound, depth, pb := 3, 4, 3
	if th {
		bound, depth, pb = 4, 6, 5
	}
	setup := func(x *X) (*World, *AuthInfo, *AuthInfo, *Token, *Token) {
		w := NewWorld(x)
		w.AddClient("clienta", "s")
		w.AddClient("clientb", "s")
		i1 := w.AddInfo(7, "clienta", "openid profile")
		i2 := w.AddInfo(8, "clientb", "email")
		return w, i1, i2, w.AddToken(i1, "at-one", "rt-one"), w.AddToken(i2, "at-two", "rt-two")
	}
	prot := func(w *World, m goidc.CredentialAcceptanceMethod) *goidc.ResourceProtector {
		rp := w.Protector()
		rp.AcceptAccessToken(m)
		return rp
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "requests", Bound: bound, Run: func(x *X) {
		w, i1, i2, t1, t2 := setup(x)
		meth := PickDev(x, "accept", apiMethods)
		q := &Req{method: "GET", path: "/api"}
		tok := PickDev(x, "token", []string{"at-one", "at-two", "rt-one", "", "unknown", "AT-ONE", "at-on", "at-onee", "at-one\x00"})
		where := x.Dev("where", 12)
		auth := func(s string) { q.header = append(q.header, [2]string{"Authorization", s}) }
		switch where {
		case 0:
			auth("Bearer " + tok)
		case 1: // no token
		case 2:
			q.query = kvs{{"access_token", tok}}
		case 3, 4:
			q.method = "POST"
			q.body = kvs{{"access_token", tok}}
		case 5:
			auth("Bearer at-one")
			q.query = kvs{{"access_token", tok}}
		case 6:
			q.method = "POST"
			q.body = kvs{{"access_token", tok}}
			q.query = kvs{{"access_token", "at-two"}}
		case 7:
			auth("Basic " + tok)
			q.query = kvs{{"access_token", "at-one"}}
		case 8:
			auth("Bearer " + tok)
			auth("Bearer at-two")
		case 9:
			q.method = "GET"
			q.body = kvs{{"access_token", tok}}
		case 10:
			q.method = "POST"
			q.body = kvs{{"access_token", tok}}
			q.noType = true
		case 11:
			auth("Bearer " + tok)
			q.method = "POST"
			q.body = kvs{{"access_token", "at-two"}}
		}
		if m := x.Dev("method", 5); m > 0 && where != 9 {
			q.method = []string{"", "POST", "PUT", "DELETE", "HEAD"}[m]
		}
		if s := x.Dev("spoof", 5); s > 0 {
			if s < 4 {
				q.header = append(q.header, spoofs[s-1])
			} else {
				q.header = append(append(q.header, spoofs...), spoofs...)
			}
		}
		t1.aExp = PickDev(x, "life", []int64{3600, 0, 1, 60, 86400, -1})
		t1.rExp = PickDev(x, "rlife", []int64{86400, 0, 60, 1000000})
		t1.refreshed = PickDev(x, "refreshed", append([]int64{1700000000}, absTimes[1:]...))
		t1.created = t1.refreshed - PickDev(x, "created", []int64{0, 1000, 1000000, -1000})
		off := PickDev(x, "age", nearOffsets)
		if x.Dev("age-base", 2) == 0 {
			w.setNow(t1.refreshed + off)
		} else {
			w.setNow(t1.refreshed + t1.aExp + off)
		}
		t2.refreshed = w.now
		i1.scope = PickDev(x, "scope", []string{"openid profile", "", "a", "openid offline_access email", "a,b;c=\"d\"", " x "})
		i1.uid = PickDev(x, "uid", []int64{7, 0, -1, 1 << 40, 8, -1 << 63, 1<<63 - 1})
		i1.clientId = PickDev(x, "cid", []string{"clienta", "clientb", "", "Client A", "x,y"})
		switch x.Dev("info", 5) {
		case 1:
			i1.active = false
		case 2:
			delete(w.infos, i1.id)
		case 3:
			t1.authId = i2.id
		case 4:
			t1.superseded = true
		}
		c09Ask(x, w, prot(w, meth), meth, q)
	}})
	out = append(out, &Scenario{Name: "token-edits", Run: func(x *X) {
		w, i1, _, _, _ := setup(x)
		v := Pick(x, "value", []string{"at-one", "A+b/c=", "aaaa", "eyJ.x-y_z.~"})
		w.AddToken(i1, v, "")
		w.AddToken(i1, "", "r") // a token record without a value is never a match for none
		meth := Pick(x, "accept", apiMethods)
		e := Pick(x, "edit", edits(v))
		q := &Req{method: "POST", path: "/api"}
		switch x.Choose("where", 3) {
		case 0:
			q.header = [][2]string{{"Authorization", "Bearer " + e}}
		case 1:
			q.body = kvs{{"access_token", e}}
		case 2:
			q.query = kvs{{"access_token", e}}
		}
		c09Ask(x, w, prot(w, meth), meth, q)
	}})
	// a token where none belongs
	base := func(x *X) (*World, goidc.CredentialAcceptanceMethod, *Req) {
		w, _, _, _, _ := setup(x)
		meth := Pick(x, "accept", apiMethods)
		q := &Req{method: Pick(x, "method", []string{"GET", "POST"}), path: "/api"}
		switch x.Choose("also", 5) {
		case 1:
			q.header = append(q.header, [2]string{"Authorization", "Bearer at-two"})
		case 2:
			q.query = kvs{{"access_token", "at-two"}}
		case 3:
			q.method = "POST"
			q.body = kvs{{"access_token", "at-two"}}
		case 4:
			q.method = "POST"
			q.body = kvs{{"x", "y"}}
		}
		return w, meth, q
	}
	out = append(out, &Scenario{Name: "no-token", Run: func(x *X) {
		w, meth, q := base(x)
		c09Ask(x, w, prot(w, meth), meth, q)
	}})
	out = append(out, &Scenario{Name: "elsewhere", Run: func(x *X) {
		w, meth, q := base(x)
		names := []string{"access_token", "token", "Authorization", "authorization", "bearer", "Bearer", "jwt", "session", "sid", "auth", "oauth_token", "bearer_token", "X-Access-Token", "at"}
		tok := Pick(x, "form", []string{"at-one", "Bearer at-one", "bearer at-one", "at-none", "unknown", "Bearer, at-one"})
		switch x.Choose("place", 5) {
		case 0:
			q.header = append(q.header, [2]string{"Cookie", Pick(x, "name", names) + "=" + tok})
		case 1:
			n := Pick(x, "name", []string{"X-Access-Token", "X-Authorization", "Proxy-Authorization", "X-Auth-Token", "Access-Token", "Token", "Bearer", "Access_token", "X-Forwarded-Authorization", "X-Original-Authorization",
				"Sec-Websocket-Protocol", "Authentication", "X-Api-Key", "X-Token", "Www-Authenticate", "Referer", "X-Original-Url"})
			v := tok
			if n == "Referer" || n == "X-Original-Url" {
				v = "/api?access_token=" + tok
			}
			q.header = append(q.header, [2]string{n, v})
			if x.Choose("upgrade", 2) == 1 {
				q.header = append(q.header, [2]string{"Upgrade", "websocket"}, [2]string{"Connection", "Upgrade"})
			}
		case 2:
			n := Pick(x, "name", names)
			if n == "access_token" {
				return
			}
			q.query = append(append(kvs{}, q.query...), kv{n, tok})
		case 3:
			n := Pick(x, "name", names)
			if n == "access_token" {
				return
			}
			q.method = "POST"
			q.body = append(append(kvs{}, q.body...), kv{n, tok})
		case 4: // in the path
			q.path = "/api/" + tok
		}
		c09Ask(x, w, prot(w, meth), meth, q)
	}})
	out = append(out, &Scenario{Name: "schemes", Run: func(x *X) {
		w, _, _, _, _ := setup(x)
		meth := Pick(x, "accept", apiMethods)
		sch := append(append([]string{}, edits("Bearer")...), "Basic", "Digest", "Token", "OAuth", "MAC", "BearerMAC", "bearertoken", "Bearer-Token", "Bearer_", "Bearer1", "MyBearer", "X-Bearer", "DPoP", "Bear")
		s := Pick(x, "scheme", sch)
		sep := Pick(x, "sep", []string{" ", "", "  ", "\t", "=", ": "})
		q := &Req{method: "GET", path: "/api", header: [][2]string{{"Authorization", s + sep + Pick(x, "tok", []string{"at-one", "", "at-one at-two", "at-one,at-two", "\"at-one\"", " at-one"})}}}
		c09Ask(x, w, prot(w, meth), meth, q)
	}})
	out = append(out, &Scenario{Name: "ages", Run: func(x *X) {
		w, _, _, t, _ := setup(x)
		t.refreshed = Pick(x, "refreshed", absTimes)
		t.aExp = Pick(x, "life", []int64{0, 1, 2, 30, 60, 300, 3600, 86400, 2592000, 31536000, 2147483648})
		t.created = t.refreshed - Pick(x, "created", []int64{0, 1000, 2592000})
		t.rExp = Pick(x, "rlife", []int64{0, 86400, 2592000})
		o := Pick(x, "off", nearOffsets)
		switch x.Choose("base", 3) {
		case 0:
			w.setNow(t.refreshed + t.aExp + o)
		case 1:
			w.setNow(t.created + t.aExp + o)
		case 2:
			w.setNow(t.created + t.rExp + o)
		}
		c09Ask(x, w, prot(w, goidc.FromHeader), goidc.FromHeader, &Req{method: "GET", path: "/api", header: [][2]string{{"Authorization", "Bearer at-one"}}})
	}})
	out = append(out, &Scenario{Name: "histories", Unit: 4, Loop: true, Run: func(x *X) {
		w, i1, i2, t1, t2 := setup(x)
		w.aLife = 100
		t1.aExp, t2.aExp = 100, 100
		i1.scope = "openid offline_access"
		rp := prot(w, goidc.FromAll) // one shared protector
		te := w.TokenEndpoint()
		ask := func(tok string, k int) {
			q := &Req{method: "GET", path: "/api", header: [][2]string{{"Authorization", "Bearer " + tok}}}
			switch k {
			case 1:
				q.header = nil
				q.query = kvs{{"access_token", tok}}
			case 2:
				q.header = append(q.header, spoofs...)
			case 3:
				q.header = nil
			}
			c09Ask(x, w, rp, goidc.FromAll, q)
		}
		cur := func() *Token { return w.tokens[len(w.tokens)-1] }
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 11)
			x.Stepf("op%d", op)
			switch op {
			case 0:
				ask("at-one", 0)
			case 1:
				ask("at-two", 2)
			case 2:
				ask(cur().access, 1)
			case 3: // refresh through the real endpoint
				rt := t1.refresh
				for _, t := range w.tokens {
					if t.authId == i1.id && !t.superseded {
						rt = t.refresh
					}
				}
				w.Token(te, tokenReq("clienta", "s", kv{"grant_type", "refresh_token"}, kv{"refresh_token", rt}))
			case 4:
				i1.active = !i1.active
			case 5:
				w.setNow(w.now + 60)
			case 6:
				t2.superseded = true
			case 7:
				i1.scope = map[string]string{"openid offline_access": "offline_access x", "offline_access x": "openid offline_access"}[i1.scope]
			case 8:
				ask("", 3)
			case 9:
				ask(t1.refresh, 0)
			case 10:
				t1.authId, t2.authId = t2.authId, t1.authId
			}
		}
		_ = i2
	}})
	out = append(out, &Scenario{Name: "concurrent", Bound: pb, Unit: 9, Run: func(x *X) {
		w, i1, i2, _, _ := setup(x)
		rp := prot(w, goidc.FromAll)
		fine := x.Choose("fine", 2) == 1
		kind := x.Choose("kind", 4)
		q0 := &Req{method: "GET", path: "/api", header: [][2]string{{"Authorization", "Bearer at-one"}}}
		q1 := &Req{method: "POST", path: "/api", body: kvs{{"access_token", "at-two"}}}
		switch kind {
		case 1:
			q1 = &Req{method: "GET", path: "/api", header: [][2]string{{"Authorization", "Bearer at-none"}}}
		case 2:
			i2.active = false
		case 3:
			q1 = &Req{method: "GET", path: "/api"}
		}
		d0, d1 := w.apiDecide("at-one"), w.apiDecide(map[int]string{0: "at-two", 1: "at-none", 2: "at-two", 3: ""}[kind])
		var r0, r1 *Resp
		w.sched = NewSched(x, fine, true)
		w.sched.Run(func() { r0 = w.Validate(rp, q0, nil) }, func() { r1 = w.Validate(rp, q1, nil) })
		w.sched = nil
		for i, p := range []struct {
			r *Resp
			d apiOut
		}{{r0, d0}, {r1, d1}} {
			if o := readAPI(p.r); !o.same(p.d) {
				x.Fail("concurrent", "request %d => %s, alone it gives %s", i, o, p.d)
			}
		}
		_ = i1
	}})
	out = withPerturb(out, tier, "#requests")
	return withDict(out, tier, true, "requests", "no-token")
}

// ---------------------------------------------------------------------------

func c10Ask(x *X, w *World, rp *goidc.ResourceProtector, q *Req, m map[string][]string, granted string) {
	req, listed := m[q.path]
	var missing []string
	if listed {
		for _, s := range req {
			if !hasToken(granted, s) {
				missing = append(missing, s)
			}
		}
	}
	r := w.Validate(rp, q, m)
	o := readAPI(r)
	if o.bad != "" {
		x.Fail("malformed", "%s => %s", q, o)
		return
	}
	if len(missing) == 0 {
		if !o.admitted {
			x.Fail("refused", "%s with scope %q, map %v => %s", q, granted, m, o)
		}
		return
	}
	if o.admitted {
		x.Fail("admitted", "%s with scope %q admitted though %q is missing (map %v)", q, granted, missing, m)
		return
	}
	if o.status != 403 || o.code != "insufficient_scope" {
		x.Fail("wrong-error", "%s with scope %q, missing %q => %s", q, granted, missing, o)
		return
	}
	c, _ := parseChallenge(r.get("WWW-Authenticate"))
	sc, _ := c.params.get("scope")
	named := false
	for _, s := range missing {
		if wordIn(o.desc, s) || hasToken(sc, s) {
			named = true
		}
	}
	if !named {
		x.Fail("names-no-missing-scope", "%s with scope %q, missing %q => %s", q, granted, missing, o)
	}
}

// wordIn: does text name token s as a whole?
func wordIn(text, s string) bool {
	isw := func(c byte) bool { return c > ' ' && c < 0x7f && strings.IndexByte("\"'`,;()[]\\", c) < 0 }
	if strings.Contains(text, strconv.Quote(s)) {
		return true
	}
	for i := 0; i+len(s) <= len(text); i++ {
		if text[i:i+len(s)] == s && (i == 0 || !isw(text[i-1])) && (i+len(s) == len(text) || !isw(text[i+len(s)])) {
			return true
		}
	}
	return false
}

// c10Parts: endings of scope names between which an implementation might see an implication.
func c10Parts() []string {
	l := []string{"", ":read", ":write", ":readwrite", ":read_write", ":rw", ":admin", ":all", ":full", ":*", ":none", ":email", ":delete", ":manage", ":read:own", ".read", ".write", ".readonly", ".read.all", ".all", ".*", ".admin", "/read", "/write", "/*", "/",
		"_read", "_write", "-read", "-write", "|read", "*", ":", ".", ".Read", ":READ", "s", "openid", "profile", "email", "admin", "root", "superuser", "all", "full", "sudo", "offline_access"}
	return append(l, novel().strs...)
}

var c10Words = []string{"read", "read_all", "reads", "READ", "write", "api.read", "read,write", "https://x/read"}

func c10Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	nReq, nGot := 2, 3
	if th {
		nReq, nGot = 3, 4
	}
	setup := func(x *X, scope string) (*World, *AuthInfo, *goidc.ResourceProtector) {
		w := NewWorld(x)
		w.AddClient("clienta", "s")
		i := w.AddInfo(7, "clienta", scope)
		w.AddToken(i, "at-one", "")
		return w, i, w.Protector()
	}
	bearer := func(path string) *Req {
		return &Req{method: "GET", path: path, header: [][2]string{{"Authorization", "Bearer at-one"}}}
	}
	list := func(x *X, label string, n int) []string {
		var l []string
		for i := 0; i < n; i++ {
			c := x.Choose(label, len(c10Words)+1)
			if c == 0 {
				break
			}
			l = append(l, c10Words[c-1])
		}
		return l
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "scope-sets", Run: func(x *X) {
		req := list(x, "required", nReq)
		got := strings.Join(list(x, "granted", nGot), " ")
		x.commit()
		w, _, rp := setup(x, got)
		c10Ask(x, w, rp, bearer("/api"), map[string][]string{"/api": req, "/other": {"admin"}}, got)
	}})
	out = append(out, &Scenario{Name: "scope-edits", Run: func(x *X) {
		s := Pick(x, "scope", []string{"read", "offline_access", "a.b"})
		e := Pick(x, "edit", edits(s))
		shape := x.Choose("shape", 4)
		swap := x.Choose("swap", 2) == 1
		req, got := s, e
		if swap {
			req, got = e, s
		}
		if strings.ContainsAny(req, " \t\n\x00") || req == "" {
			return
		}
		if strings.Contains(got, "\n") || strings.Contains(got, "\x00") {
			return
		}
		got = []string{got, got + " z", "z " + got, "y " + got + " z"}[shape]
		w, _, rp := setup(x, got)
		c10Ask(x, w, rp, bearer("/api"), map[string][]string{"/api": {req}}, got)
	}})
	// many scopes: each position granted and required
	out = append(out, &Scenario{Name: "many", Run: func(x *X) {
		n := Pick(x, "granted", []int{1, 4, 5, 8, 9, 16, 17, 31, 33, 65})
		order := x.Choose("order", 3)
		l := make([]string, n)
		for i := range l {
			k := []int{i, n - 1 - i, (i*29 + 7) % 101}[order]
			l[i] = fmt.Sprintf("s%02d", k)
		}
		got := strings.Join(l, " ")
		i := x.Choose("at", n)
		shape := x.Choose("required", 8)
		x.commit()
		var req []string
		switch shape {
		case 0: // the one
			req = []string{l[i]}
		case 1: // one missing
			req = []string{l[i] + "x"}
		case 2:
			req = []string{l[i][:2]}
		case 3: // all of them
			req = l
		case 4: // all of them, the other way round
			for k := range l {
				req = append(req, l[n-1-k])
			}
		case 5: // all of them and, at this place, one missing
			req = append(append(append([]string{}, l[:i]...), "zz"), l[i:]...)
		case 6: // all of them are required, this one is not granted
			req = append([]string{}, l...)
			got = strings.Join(append(append([]string{}, l[:i]...), l[i+1:]...), " ")
		case 7: // the one, many times, and one missing
			for k := 0; k <= n; k++ {
				req = append(req, l[i])
			}
			req = append(req, "zz")
		}
		w, _, rp := setup(x, got)
		m := map[string][]string{"/api": req}
		for k := 0; k < n; k++ {
			m[fmt.Sprintf("/api/%d", k)] = []string{l[k]}
		}
		c10Ask(x, w, rp, bearer("/api"), m, got)
		c10Ask(x, w, rp, bearer(fmt.Sprintf("/api/%d", i)), m, got)
		c10Ask(x, w, rp, bearer(fmt.Sprintf("/api/%d", n)), m, got)
	}})
	// one scope as if implied by another
	out = append(out, &Scenario{Name: "hierarchies", Run: func(x *X) {
		base := Pick(x, "base", []string{"user", "api.user", "https://x/user", ""})
		mk := func(l string) string {
			s := base + Pick(x, l, c10Parts())
			if base == "" {
				s = strings.Trim(s, ":./_-|")
			}
			return s
		}
		req, got := mk("required"), mk("granted")
		if strings.ContainsAny(req, " \t\r\n\x00\\\"") || strings.ContainsAny(got, "\t\r\n\x00\\\"") || req == "" {
			return
		}
		if x.Choose("with", 2) == 1 {
			got = "profile " + got + " openid"
		}
		w, _, rp := setup(x, got)
		c10Ask(x, w, rp, bearer("/api"), map[string][]string{"/api": {req}}, got)
	}})
	out = append(out, &Scenario{Name: "paths", Run: func(x *X) {
		base := Pick(x, "base", []string{"/api/v1", "/", "/A/"})
		p := Pick(x, "path", append(append([]string{}, edits(base)...), base+"/", base+"/x", "/api", "/api/v1/../v1", "//api/v1", "/api//v1", "/API/V1"))
		if strings.ContainsAny(p, "\x00\n\t") || p == "" {
			return
		}
		got := Pick(x, "granted", []string{"", "read", "read write"})
		w, _, rp := setup(x, got)
		q := bearer(p)
		// the same path, otherwise encoded
		if n := x.Choose("encoding", len(p)+2); n > 0 && p[n%len(p)] < 0x80 {
			i := n % len(p)
			enc := (&url.URL{Path: p[:i]}).EscapedPath()
			if n == len(p)+1 {
				q.raw = ""
				for k := 0; k < len(p); k++ {
					if p[k] == '/' {
						q.raw += "/"
					} else {
						q.raw += fmt.Sprintf("%%%02X", p[k])
					}
				}
			} else if i > 0 {
				q.raw = enc + fmt.Sprintf("%%%02x", p[i]) + (&url.URL{Path: p[i+1:]}).EscapedPath()
			}
		}
		c10Ask(x, w, rp, q, map[string][]string{base: {"read", "write"}, "/free": {}}, got)
	}})
	out = append(out, &Scenario{Name: "spoofed", Run: func(x *X) {
		got := Pick(x, "granted", []string{"", "read", "write", "read write"})
		req := Pick(x, "required", [][]string{{"read"}, {"write"}, {"read", "write"}, {}, nil})
		w, i, rp := setup(x, got)
		q := bearer("/api")
		names := []string{"X-OAUTH-SCOPE", "x-oauth-scope", "X-OAuth-Scopes", "X-OAUTH-USER-ID", "X-OAUTH-CLIENT-ID"}
		for k := 0; k < 3; k++ {
			if c := x.Choose("header", len(names)+1); c > 0 {
				q.header = append(q.header, [2]string{names[c-1], Pick(x, "hv", []string{"read write", "", "admin"})})
			}
		}
		if x.Choose("param", 2) == 1 {
			q.query = kvs{{"scope", "read write"}}
		}
		switch x.Choose("state", 3) {
		case 1:
			i.active = false
			r := w.Validate(rp, q, map[string][]string{"/api": req})
			if o := readAPI(r); o.admitted || o.status != 401 || o.code != "invalid_token" {
				x.Fail("inactive", "%s => %s", q, o)
			}
			return
		case 2:
			q.header[0][1] = "Bearer unknown"
			r := w.Validate(rp, q, map[string][]string{"/api": req})
			if o := readAPI(r); o.admitted || o.status != 401 || o.code != "invalid_token" {
				x.Fail("unknown", "%s => %s", q, o)
			}
			return
		}
		c10Ask(x, w, rp, q, map[string][]string{"/api": req}, got)
	}})
	// the request's method, host, body and other parts do not matter
	out = append(out, &Scenario{Name: "methods", Bound: 2, Run: func(x *X) {
		got := PickDev(x, "granted", []string{"write", "", "read", "read write", "readwrite", "offline_access"})
		w, _, rp := setup(x, got)
		q := bearer("/api")
		q.method = PickDev(x, "method", []string{"GET", "HEAD", "OPTIONS", "POST", "PUT", "DELETE", "PATCH", "TRACE", "CONNECT", "get", "PROPFIND"})
		if x.Dev("body", 2) == 1 {
			q.body = kvs{{"scope", "read"}}
		}
		if x.Dev("query", 2) == 1 {
			q.query = kvs{{"scope", "read"}}
		}
		q.path = PickDev(x, "path", []string{"/api", "/open", "/api/"})
		if n := x.Dev("encoding", 3); n > 0 {
			q.raw = "/" + []string{"", "%61", "%2561"}[n] + q.path[2:]
			if n == 2 {
				q.raw = strings.Replace(q.path, "pi", "%70%69", 1)
			}
		}
		c10Ask(x, w, rp, q, map[string][]string{"/api": {"read"}, "/api/": {"read"}}, got)
	}})
	// two users with different grants, one shared protector and scope map, in sequence and interleaved
	out = append(out, &Scenario{Name: "sequences", Bound: 3, Unit: 4, Run: func(x *X) {
		w, _, rp := setup(x, "read")
		i2 := w.AddInfo(8, "clienta", "write")
		w.AddToken(i2, "at-two", "")
		m := map[string][]string{"/r": {"read"}, "/w": {"write"}, "/rw": {"write", "read"}, "/n": {}}
		one := func(k int) (*Req, string) {
			q := bearer([]string{"/r", "/w", "/rw", "/n", "/unlisted"}[k%5])
			g := "read"
			if k >= 5 {
				q.header[0][1] = "Bearer at-two"
				g = "write"
			}
			return q, g
		}
		if x.Choose("par", 2) == 0 {
			n := 2
			if th {
				n = 3
			}
			for d := 0; d < n; d++ {
				q, g := one(x.Choose("req", 10))
				c10Ask(x, w, rp, q, m, g)
			}
			return
		}
		a, b := x.Choose("req", 10), x.Choose("req", 10)
		fine := x.Choose("fine", 2) == 1
		var rs [2]*Resp
		w.sched = NewSched(x, fine, true)
		q0, _ := one(a)
		q1, _ := one(b)
		w.sched.Run(func() { rs[0] = w.Validate(rp, q0, m) }, func() { rs[1] = w.Validate(rp, q1, m) })
		w.sched = nil
		for k, v := range []int{a, b} {
			q, g := one(v)
			want := true
			for _, s := range m[q.path] {
				want = want && hasToken(g, s)
			}
			o := readAPI(rs[k])
			if o.bad != "" || o.admitted != want {
				x.Fail("interleaved", "%s with scope %q interleaved with another request => %s, want admitted=%v", q, g, o, want)
			}
		}
	}})
	out = withPerturb(out, tier, "@#methods")
	return withDict(out, tier, true, "methods")
}
