package main

import (
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"
)

// C16: response encoding.

func init() {
	register(&Check{
		ID:   "C16",
		Rule: "every string up to the length bound over an alphabet of delimiters, quotes, markup, escapes and multi-byte characters, in every value position of every response form (redirect query and fragment, form page, token JSON, OAuth error JSON and query), every printable string up to the length bound in WWW-Authenticate parameters, and every redirect URI of the menu, through the real writers and endpoints; decoded with independent parsers and compared byte by byte, form pages also tag by tag with the page for plain values",
		Assumptions: []string{
			"registered redirect URIs are absolute, ASCII, parseable and free of fragments",
			"values of WWW-Authenticate parameters are printable ASCII; JSON values are valid UTF-8",
			"line breaks in form fields are compared up to the CR/LF normalisation every browser applies; NUL is not used in form fields",
		},
		Scenarios: c16Scenarios,
	})
}

var encAlphabet = []string{"a", "\"", "'", "<", ">", "&", "=", "+", "%", "#", "?", ";", " ", "\\", "/", "é", "\n", ",", "{", "\u2028"}

func stringsUpTo(alpha []string, n int) []string {
	out := []string{""}
	lvl := []string{""}
	for i := 0; i < n; i++ {
		var nx []string
		for _, p := range lvl {
			for _, a := range alpha {
				nx = append(nx, p+a)
			}
		}
		out = append(out, nx...)
		lvl = nx
	}
	return out
}

var markers = []string{"\"><script>alert(1)</script>", "' onload='x", "&amp;", "&#34;", "%22%3E", "%00", "a&error=x", "a#code=y", "x\r\nSet-Cookie: a=b", "\",\"scope\":\"admin", "\\u0022", "</form><form action=x>", "<!--", "]]>", "\", error=\"x", "\\", "\\\"", "%", "%zz", "+", "null", "é\u4e16\U0001F600", "\x01\x1b\x7f", "&lt;b", "&copy", "&copy;", "javascript:alert(1)",
	`a\u003cb`, `a\u003eb`, `a\u0026b`, `\n`, `\t\r`, `\/`, `\"`, `\\u003c`, `%u003c`, "&#60;b", "&#x3c;b", "&quot;", "&apos;", "&nbsp;", "%3C", "%26", "%2B", "%25", "%2525", "%20", "%0A", "a b+c%20d",
	"++", "%E2%82%AC", "%C3", "=?utf-8?q?x?=", "data:text/html,x", "//", "..", `\u2028`, `\x3c`, `\0`, `\b\f`, "{{.}}", "$1", "%s%d%!", `\U0001F600`, `\ud83d\ude00`, "\ufeffx", "\u0080", "a\u0085b", "\u009f", "\u00ad", "\u200d", "\ufffd", "e\u0301", "\U0001F468\u200d\U0001F469", strings.Repeat("x", 255), strings.Repeat("y", 256), strings.Repeat("\"", 300), strings.Repeat("\u00e9", 700), strings.Repeat("a b", 1500)}

var encURIs = []string{
	"https://clienta.example/cb", "https://clienta.example", "https://clienta.example/", "https://clienta.example/cb?x=1", "https://clienta.example/cb?x=1&y=a%20b+c&z=",
	"https://clienta.example/cb?", "https://clienta.example/cb?x", "https://clienta.example/cb?x=1&", "https://clienta.example/cb;p=1", "https://clienta.example/a'b(c)*!$,",
	"https://clienta.example/cb?q=1&lt;=2", "https://clienta.example/cb?a=1&copy;=3&amp;=4", "https://clienta.example/cb?a=%22%3E%3Cb", "http://127.0.0.1:8080/cb", "http://[::1]:9/cb?x=[y]",
	"com.example.app:/oauth", "com.example.app://cb/path?k=v", "https://clienta.example/a/../b/./c", "https://clienta.example//cb", "https://clienta.example/cb?u=https://x.example/?y=1",
	"https://user:pw@clienta.example/cb", "HTTPS://CLIENTA.example:443/cb%2Fx", "https://clienta.example/cb?state=own&code=own2",
	"https://clienta.example/cb?;", "https://clienta.example/cb?&", "https://clienta.example/cb?%zz", "https://clienta.example/cb?a;b=c", "https://clienta.example/cb?=", "https://clienta.example/cb?=x", "https://clienta.example/cb??", "https://clienta.example/cb?/p",
}

// c16Shape is a page's markup with all attribute values removed.
func c16Shape(doc string) (string, error) {
	tags, text, err := parseTags(doc)
	if err != nil {
		return "", err
	}
	var s []string
	for _, t := range tags {
		n := t.name
		ks := make([]string, 0)
		for k := range t.attrs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s = append(s, n+"["+strings.Join(ks, " ")+"]")
	}
	return strings.Join(s, "") + "|" + strings.TrimSpace(text), nil
}

func normBreaks(s string) string {
	return strings.Replace(strings.Replace(s, "\r\n", "\n", -1), "\r", "\n", -1)
}

// readOwn is readAuthz for a URI whose own query may already use response parameter names.
func readOwn(r *Resp, ruri string) *authzOut { return readAuthz(r, ruri) }

// c16Check compares what the client application receives with what was sent.
func c16Check(x *X, what string, r *Resp, ruri, mode string, want map[string]string) {
	if r.panic_ != "" {
		x.Fail("panic", "%s: %s", what, r.panic_)
		return
	}
	o := readOwn(r, ruri)
	if o.kind == "bad" || o.kind == "none" {
		x.Fail("malformed", "%s => %s", what, o)
		return
	}
	if mode != "" && o.kind != mode {
		x.Fail("mode", "%s => %s", what, o)
	}
	if o.target != ruri {
		x.Fail("target", "%s => target %q, redirect URI %q", what, o.target, ruri)
	}
	same := func(a, b string) bool {
		if o.kind == "form_post" {
			return normBreaks(a) == normBreaks(b)
		}
		return a == b
	}
	for k, v := range want {
		g, has := o.params[k]
		if !has && v != "" {
			x.Fail("lost", "%s => %s: no %s", what, o, k)
		} else if !same(g, v) {
			x.Fail("altered", "%s => %s = %q, was %q", what, k, g, v)
		}
	}
	for k, v := range o.params {
		if _, ok := want[k]; !ok {
			x.Fail("injected", "%s => unexpected parameter %s=%q", what, k, v)
		}
	}
	if o.kind == "form_post" {
		c16Page(x, what, r)
	}
}

func c16Page(x *X, what string, r *Resp) {
	ct := strings.ToLower(r.get("Content-Type"))
	if !strings.HasPrefix(ct, "text/html") || !strings.Contains(strings.Replace(ct, " ", "", -1), "charset=utf-8") {
		x.Fail("form-content-type", "%s: Content-Type %q", what, r.get("Content-Type"))
	}
	if !strings.Contains(r.get("Cache-Control"), "no-store") {
		x.Fail("form-cacheable", "%s: Cache-Control %q", what, r.get("Cache-Control"))
	}
	if len(r.hdr["Content-Type"]) != 1 {
		x.Fail("form-content-type", "%s: %d Content-Type headers", what, len(r.hdr["Content-Type"]))
	}
}

func c16JSON(x *X, what string, r *Resp) map[string]interface{} {
	ct := strings.ToLower(r.get("Content-Type"))
	if !strings.HasPrefix(ct, "application/json") {
		x.Fail("json-content-type", "%s: Content-Type %q", what, r.get("Content-Type"))
	}
	if !strings.Contains(r.get("Cache-Control"), "no-store") {
		x.Fail("json-cacheable", "%s: Cache-Control %q", what, r.get("Cache-Control"))
	}
	m, err := jsonObj(r.body.Bytes())
	if err != nil {
		x.Fail("json", "%s: %v: %s", what, err, r)
		return nil
	}
	for k, l := range r.hdr {
		for _, v := range l {
			if strings.ContainsAny(v, "\r\n\x00") {
				x.Fail("header-injection", "%s: header %s: %q", what, k, v)
			}
		}
	}
	return m
}

// c16Challenge parses a WWW-Authenticate header and compares its parameters.
func c16Challenge(x *X, what, h, scheme string, want map[string]string, descHas string) {
	c, err := parseChallenge(h)
	if err != nil {
		x.Fail("challenge", "%s => %q: %v", what, h, err)
		return
	}
	if !strings.EqualFold(c.scheme, scheme) {
		x.Fail("challenge-scheme", "%s => %q", what, h)
	}
	for k, v := range want {
		g, has := c.params.get(k)
		if g != v || (!has && v != "") {
			x.Fail("challenge-value", "%s => %s = %q, was %q (%s)", what, k, g, v, h)
		}
	}
	for _, p := range c.params {
		if _, ok := want[p.k]; !ok {
			if p.k == "error_description" && descHas != "*" && strings.Contains(p.v, descHas) {
				continue
			}
			if p.k == "error_description" && descHas == "*" {
				continue
			}
			x.Fail("challenge-injected", "%s => unexpected parameter %s=%q (%s)", what, p.k, p.v, h)
		}
	}
}

func c16Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	n, pn := 2, 1
	if th {
		n, pn = 3, 2
	}
	vals := append(stringsUpTo(encAlphabet, n), markers...)
	short := append(stringsUpTo(encAlphabet, n-1), markers...)
	var ascii []string
	for c := byte(0x20); c < 0x7f; c++ {
		ascii = append(ascii, string([]byte{c}))
	}
	hvals := append(stringsUpTo(ascii, pn), "a\"b", "\\", "\\\"", "\", error=\"x", "a, b=\"c\"", "x\\\\\"y", "\"\"", " lead", "trail ", "50% \\n", "a=b", "api.example.org")
	modes := []string{"query", "fragment", "form_post"}
	var out []*Scenario

	// the response writers themselves
	fields := []string{"code", "state", "access_token", "scope", "id_token"}
	out = append(out, &Scenario{Name: "writer-success", Bound: 1, Run: func(x *X) {
		mode := Pick(x, "mode", modes)
		f := x.Choose("field", len(fields))
		v := Pick(x, "value", vals)
		uri := PickDev(x, "uri", encURIs)
		p := map[string]string{"code": "c1", "state": "s1", "access_token": "a1", "scope": "openid", "id_token": "x.y.z"}
		p[fields[f]] = v
		if m := x.Dev("second", len(fields)*len(markers)+1); m > 0 {
			p[fields[(m-1)%len(fields)]] = markers[(m-1)/len(fields)]
		}
		if mode == "form_post" {
			for k, s := range p {
				p[k] = strings.Replace(s, "\x00", "", -1)
			}
		}
		w := NewWorld(x)
		r := c16Write(w, mode, uri, func(h authorization.ResponseHandler) { h.Success(uri, p) })
		c16Check(x, fmt.Sprintf("%s success to %s with %q", mode, uri, p), r, uri, mode, p)
	}})
	out = append(out, &Scenario{Name: "writer-error", Bound: 1, Run: func(x *X) {
		mode := Pick(x, "mode", modes)
		f := x.Choose("field", 2)
		v := Pick(x, "value", vals)
		uri := PickDev(x, "uri", encURIs)
		d, s := "some text", "st"
		if f == 0 {
			d = v
			if x.Dev("no-state", 2) == 1 {
				s = ""
			}
		} else {
			s = v
			if m := x.Dev("desc", len(markers)+2); m > 0 {
				d = append([]string{""}, markers...)[m-1]
			}
		}
		w := NewWorld(x)
		r := c16Write(w, mode, uri, func(h authorization.ResponseHandler) { h.Error(uri, "invalid_request", d, s) })
		c16Check(x, fmt.Sprintf("%s error to %s description %q state %q", mode, uri, d, s), r, uri, mode,
			map[string]string{"error": "invalid_request", "error_description": d, "state": s})
	}})
	out = append(out, &Scenario{Name: "redirect-uris", Run: func(x *X) {
		mode := Pick(x, "mode", append([]string{"", "bogus"}, modes...))
		uri := Pick(x, "uri", encURIs)
		kind := x.Choose("kind", 2)
		v := Pick(x, "value", append([]string{"st-1", ""}, markers...))
		w := NewWorld(x)
		want := map[string]string{"error": "access_denied", "state": v}
		r := c16Write(w, mode, uri, func(h authorization.ResponseHandler) {
			if kind == 0 {
				want = map[string]string{"code": "c1", "state": v}
				h.Success(uri, want)
			} else {
				h.Error(uri, "access_denied", "", v)
			}
		})
		m := mode
		if mode == "" || mode == "bogus" {
			m = "query"
		}
		c16Check(x, fmt.Sprintf("%q response to %s with %q", mode, uri, want), r, uri, m, want)
	}})
	// every character there is: low ones by themselves, the others in runs
	out = append(out, &Scenario{Name: "code-points", Run: func(x *X) {
		const singles, run = 0x300, 128
		b := x.Choose("block", singles+0x110000/run)
		f := x.Choose("form", 9)
		x.commit()
		v := string(rune(b))
		if b >= singles {
			var sb strings.Builder
			for c := (b - singles) * run; c < (b-singles+1)*run; c++ {
				if c >= 0xd800 && c < 0xe000 {
					continue
				}
				sb.WriteRune(rune(c))
			}
			v = sb.String()
		}
		if f < 6 {
			mode := modes[f/2]
			if mode == "form_post" {
				v = strings.Replace(v, "\x00", "", -1)
			}
			uri := "https://clienta.example/cb?x=1"
			w := NewWorld(x)
			want := map[string]string{"code": v, "state": "s" + v}
			r := c16Write(w, mode, uri, func(h authorization.ResponseHandler) {
				if f%2 == 0 {
					h.Success(uri, want)
				} else {
					want = map[string]string{"error": "access_denied", "error_description": v, "state": v}
					h.Error(uri, "access_denied", v, v)
				}
			})
			c16Check(x, fmt.Sprintf("%s response with %q", mode, v), r, uri, mode, want)
			return
		}
		// token endpoint: tokens and scope, with and without a refresh token
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		w.AddUser(7, "alice", "pw")
		g := []string{"authorization_code", "client_credentials", "password"}[f-6]
		p := w.grantParams(g, a)
		w.alwaysRT = true
		for _, i := range w.infos {
			i.scope = v
		}
		w.tokName = func(kind string, n int) string { return kind + v }
		q := tokenReq("clienta", "secreta", p...)
		r := w.Token(w.TokenEndpoint(), q)
		if m := c16JSON(x, q.String(), r); m != nil && r.status == 200 {
			for k, s := range map[string]string{"access_token": "AT" + v, "refresh_token": "RT" + v} {
				if t, has := m[k].(string); t != s && (has || k == "access_token") {
					x.Fail("json-altered", "%s: %s is %q, was %q", q, k, t, s)
				}
			}
			for _, i := range w.infos {
				if t, has := m["scope"].(string); has && i.scope != t {
					x.Fail("json-altered", "%s: scope is %q, was %q", q, t, i.scope)
				}
			}
		}
	}})
	// markup: the page for any values has the structure of the page for plain values
	out = append(out, &Scenario{Name: "form-structure", Run: func(x *X) {
		v := Pick(x, "value", vals)
		pos := x.Choose("pos", 4)
		uri := Pick(x, "uri", encURIs)
		page := func(v, uri string) string {
			w := NewWorld(x)
			r := c16Write(w, "form_post", uri, func(h authorization.ResponseHandler) {
				switch pos {
				case 0:
					h.Success(uri, map[string]string{"code": v})
				case 1:
					h.Success(uri, map[string]string{"state": v})
				case 2:
					h.Error(uri, "invalid_request", v+".", "")
				case 3:
					h.Error(uri, "access_denied", "", v+".")
				}
			})
			s, err := c16Shape(r.body.String())
			if err != nil {
				x.Fail("markup", "form page with %q to %s: %v: %s", v, uri, err, r.body.String())
			}
			return s
		}
		if a, b := page(v, uri), page("plain", "https://clienta.example/cb"); a != b {
			x.Fail("markup", "form page with %q to %s has structure %s, with plain values %s", v, uri, a, b)
		}
	}})
	// through the authorization endpoint: state and echoed parameters
	out = append(out, &Scenario{Name: "endpoint-errors", Run: func(x *X) {
		k := Pick(x, "param", []string{"state", "response_type", "display", "prompt", "max_age", "scope", "nonce", "response_mode"})
		v := Pick(x, "value", short)
		uri := encURIs[x.Choose("uri", 6)]
		var descs []string
		for _, mode := range modes {
			w := newAZ(x)
			w.a.redirs[uri] = true
			w.pol.RequireResponseModeSecurityLevelCheck = false
			w.pol.IgnoreInvalidResponseMode = false
			w.pol.MaxNonceLength = 0
			w.pol.DefaultAuthorizationCodeFlowResponseMode = mode
			p := azBase("code").with("redirect_uri", uri).with("response_mode", mode)
			switch k {
			case "state":
				p = p.with("display", "bogus").with("state", v)
			case "nonce":
				p = p.with("nonce", v)
			case "scope":
				w.a.scopes = map[string]bool{}
				p = p.with("scope", v)
			default:
				p = p.with(k, v)
			}
			cb := w.cb()
			r := w.Authorize(w.AuthzEndpoint(w.pol), azGet(p), cb)
			what := azGet(p).String()
			if r.panic_ != "" {
				x.Fail("panic", "%s: %s", what, r)
				return
			}
			if r.silent() {
				descs = append(descs, "(screen)")
				continue
			}
			o := readAuthz(r, uri)
			if o.kind == "bad" {
				x.Fail("malformed", "%s => %s", what, o)
				return
			}
			want := map[string]string{"error": o.params["error"], "state": "st-1"}
			if k == "state" {
				want["state"] = v
			}
			if d, has := o.params["error_description"]; has {
				want["error_description"] = d
				descs = append(descs, normBreaks(d))
			} else {
				descs = append(descs, "")
			}
			c16Check(x, what, r, uri, "", want)
		}
		if k == "response_mode" {
			return
		}
		for _, d := range descs[1:] {
			if d != descs[0] {
				x.Fail("description-altered", "%s=%q: error_description differs between response modes: %q", k, v, descs)
			}
		}
	}})
	out = append(out, &Scenario{Name: "endpoint-success", Bound: n - 1, Run: func(x *X) {
		mode := Pick(x, "mode", modes)
		rt := Pick(x, "rt", []string{"code", "token", "code id_token token"})
		f := x.Choose("field", 4)
		v := Pick(x, "value", short)
		uri := PickDev(x, "uri", encURIs)
		w := newAZ(x)
		w.a.redirs[uri] = true
		rq := c12Req(x, rt)
		rq.RedirectURI, rq.ResponseMode = uri, mode
		code, at := "CODE1", "AT1"
		switch f {
		case 0:
			rq.State = v
		case 1:
			rq.Scope = v
		case 2:
			code = v
		case 3:
			at = v
		}
		if m := x.Dev("state", len(markers)+1); m > 0 {
			rq.State = markers[m-1]
		}
		if mode == "form_post" {
			rq.State = strings.Replace(rq.State, "\x00", "", -1)
		}
		w.tokName = func(kind string, n int) string {
			if kind == "AT" {
				return at
			}
			return kind + "1"
		}
		cb := w.cb()
		cb.cont = rq
		cb.codeName = func() string { return code }
		r := w.Complete(w.AuthzEndpoint(w.pol), azGet(nil), cb)
		what := showReq(rq)
		o := readAuthz(r, uri)
		if o.params["error"] != "" {
			return // C12's business
		}
		want := map[string]string{}
		for k, v := range o.params {
			want[k] = v
		}
		want["state"] = rq.State
		delete(want, "code")
		delete(want, "access_token")
		if azFlows[rt].code {
			want["code"] = code
		}
		if azFlows[rt].token {
			want["access_token"] = at
		}
		if _, has := want["scope"]; has {
			want["scope"] = rq.Scope
		}
		for k := range want {
			switch k {
			case "state", "code", "access_token", "scope", "token_type", "expires_in", "id_token":
			default:
				delete(want, k)
			}
		}
		c16Check(x, what, r, uri, mode, want)
	}})
	// token endpoint JSON
	out = append(out, &Scenario{Name: "token-json", Run: func(x *X) {
		g := Pick(x, "grant", allGrants)
		f := x.Choose("field", 3)
		v := Pick(x, "value", vals)
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		w.AddUser(7, "alice", "pw")
		p := w.grantParams(g, a)
		w.alwaysRT = true
		switch x.Choose("other", 4) {
		case 1:
			w.alwaysRT, w.aLife = false, 0
		case 2:
			w.aLife = -5
		case 3:
			w.alwaysRT, w.aLife = false, 1<<53+1
		}
		at, rt := "AT1", "RT1"
		switch f {
		case 0:
			at = v
		case 1:
			rt = v
		case 2:
			for _, i := range w.infos {
				i.scope = v
				if g == "refresh_token" {
					i.scope = strings.TrimSpace("offline_access " + v)
				}
			}
			if len(w.infos) == 0 {
				p = append(p, kv{"scope", v})
			}
		}
		w.tokName = func(kind string, n int) string {
			if kind == "AT" {
				return at
			}
			return rt
		}
		q := tokenReq("clienta", "secreta", p...)
		r := w.Token(w.TokenEndpoint(), q)
		if r.panic_ != "" {
			x.Fail("panic", "%s: %s", q, r)
			return
		}
		m := c16JSON(x, q.String(), r)
		if m == nil || r.status != 200 {
			return
		}
		chk := func(k, v string) {
			g, _ := m[k].(string)
			if g != v {
				x.Fail("json-altered", "%s: %s is %q, was %q (%s)", q, k, g, v, r.body.String())
			}
		}
		chk("access_token", at)
		if w.alwaysRT {
			chk("refresh_token", rt)
		}
		if n, ok := num(m["expires_in"]); !ok || n != w.aLife {
			x.Fail("json-altered", "%s: expires_in is %v, was %d", q, m["expires_in"], w.aLife)
		}
		for _, i := range w.infos {
			chk("scope", i.scope)
		}
		for k := range m {
			switch k {
			case "access_token", "refresh_token", "scope", "token_type", "expires_in", "id_token":
			default:
				x.Fail("json-injected", "%s: member %s (%s)", q, k, r.body.String())
			}
		}
	}})
	// every refusal and failure of the token endpoint is uncacheable JSON, with echoed text intact
	out = append(out, &Scenario{Name: "token-errors", Bound: 1, Run: func(x *X) {
		g := Pick(x, "grant", allGrants)
		v := Pick(x, "value", short)
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		w.AddUser(7, "alice", "pw")
		p := w.grantParams(g, a)
		q := tokenReq("clienta", "secreta", p...)
		te := w.TokenEndpoint()
		uri := ""
		if x.Choose("uri", 2) == 1 {
			uri = "https://e.example/?" + v
			te.SetErrorURI(uri)
		}
		i := x.Choose("where", len(p)+3)
		switch {
		case i < len(p):
			q.body = append(kvs{}, p...)
			q.body[i].v = v
		case i == len(p):
			q.header = [][2]string{basicHeader("clienta", v)}
		case i == len(p)+1:
			q.header = nil
		}
		w.faultsOn, w.faultMenu = true, c08Menu
		r := w.Token(te, q)
		if r.panic_ != "" {
			return // C08's business
		}
		m := c16JSON(x, q.String(), r)
		if m == nil || r.status == 200 {
			return
		}
		if g, _ := m["error_uri"].(string); g != uri {
			x.Fail("json-altered", "%s: error_uri is %q, was %q", q, g, uri)
		}
		for k := range m {
			switch k {
			case "error", "error_description", "error_uri":
			default:
				x.Fail("json-injected", "%s: member %s (%s)", q, k, r.body.String())
			}
		}
		if h := r.get("WWW-Authenticate"); h != "" {
			c16Challenge(x, q.String(), h, "Basic", map[string]string{"realm": "realm"}, "")
		}
	}})
	// WWW-Authenticate
	out = append(out, &Scenario{Name: "bearer-challenge", Bound: 2, Run: func(x *X) {
		f := x.Choose("field", 3)
		v := Pick(x, "value", hvals)
		val := []string{"realm", "a text", "https://e.example/"}
		val[f] = v
		special := hvals[len(hvals)-12:]
		for i := 0; i < 3; i++ {
			if i != f {
				if m := x.Dev("other", len(special)+2); m > 0 {
					val[i] = append([]string{""}, special...)[m-1]
				}
			}
		}
		e := oer.NewOAuthDetailedError(oer.ErrInvalidToken, val[1], val[2])
		x.Stepf("header %q", val)
		want := map[string]string{"realm": val[0], "error": "invalid_token", "error_description": val[1], "error_uri": val[2]}
		c16Challenge(x, fmt.Sprintf("challenge realm %q description %q uri %q", val[0], val[1], val[2]), e.Header(val[0]), "Bearer", want, "")
	}})
	out = append(out, &Scenario{Name: "endpoint-challenge", Run: func(x *X) {
		kind := x.Choose("kind", 5)
		f := x.Choose("field", 3)
		v := Pick(x, "value", hvals)
		val := []string{"realm", "https://e.example/", "admin"}
		val[f] = v
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		if kind == 4 {
			te := newTE(w, val[0])
			te.SetErrorURI(val[1])
			te.Support(grant.Password())
			q := tokenReq(a.id, "wrong", kv{"grant_type", "password"})
			r := w.Token(te, q)
			c16Challenge(x, fmt.Sprintf("token endpoint of realm %q", val[0]), r.get("WWW-Authenticate"), "Basic", map[string]string{"realm": val[0]}, "")
			return
		}
		i := w.AddInfo(7, a.id, "openid")
		t := w.AddToken(i, "AT1", "")
		rp := newRP(w, val[0])
		rp.SetErrorURI(val[1])
		q := &Req{method: "GET", path: "/api", header: [][2]string{{"Authorization", "Bearer AT1"}}}
		code, desc := "", ""
		switch kind {
		case 0:
			q.header, code, desc = nil, "invalid_request", "*"
		case 1:
			q.header = [][2]string{{"Authorization", "Bearer nope"}}
			code, desc = "invalid_token", "*"
		case 2:
			t.refreshed -= 10000
			code, desc = "invalid_token", "*"
		case 3:
			code, desc = "insufficient_scope", "*"
		}
		if val[2] == "openid" || strings.ContainsAny(val[2], " ") {
			return
		}
		r := w.Validate(rp, q, map[string][]string{"/api": {val[2]}})
		if r.ret || r.panic_ != "" || r.status == 500 {
			return
		}
		if len(r.hdr["Www-Authenticate"]) != 1 {
			x.Fail("challenge", "%s => %s", q, r)
			return
		}
		c16Challenge(x, fmt.Sprintf("%s (realm %q, uri %q, scope %q)", q, val[0], val[1], val[2]), r.get("WWW-Authenticate"), "Bearer",
			map[string]string{"realm": val[0], "error": code, "error_uri": val[1]}, desc)
	}})
	// OAuth error JSON and query
	out = append(out, &Scenario{Name: "oauth-error", Run: func(x *X) {
		f := x.Choose("field", 3)
		v := Pick(x, "value", vals)
		val := []string{"a text", "https://e.example/", "st"}
		val[f] = v
		e := oer.NewOAuthDetailedError(oer.ErrInvalidScope, val[0], val[1])
		x.Stepf("error %q", val)
		m, err := jsonObj(e.JSON())
		if err != nil {
			x.Fail("json", "error %q => %s: %v", val, e.JSON(), err)
			return
		}
		for i, k := range []string{"error_description", "error_uri"} {
			if g, _ := m[k].(string); g != val[i] {
				x.Fail("json-altered", "error %q => %s", val, e.JSON())
			}
		}
		if len(m) > 3 {
			x.Fail("json-injected", "error %q => %s", val, e.JSON())
		}
		q, err := url.ParseQuery(e.Query(val[2]))
		if err != nil {
			x.Fail("query", "error %q => %s: %v", val, e.Query(val[2]), err)
			return
		}
		for k, l := range q {
			if len(l) != 1 {
				x.Fail("query-injected", "error %q => %s", val, e.Query(val[2]))
			}
			switch k {
			case "error", "error_description", "error_uri", "state":
			default:
				x.Fail("query-injected", "error %q => %s", val, e.Query(val[2]))
			}
		}
		for i, k := range []string{"error_description", "error_uri", "state"} {
			if q.Get(k) != val[i] {
				x.Fail("query-altered", "error %q => %s", val, e.Query(val[2]))
			}
		}
	}})
	return out
}

// c16Write drives a response writer.
func c16Write(w *World, mode, uri string, f func(h authorization.ResponseHandler)) *Resp {
	w.x.commit()
	r := newResp(w)
	hr := &http.Request{Method: "GET", URL: &url.URL{Path: "/authorize"}, Header: http.Header{}, Host: "op.example"}
	guard(r, func() { f(authorization.ResponseHandlerForMode(mode, r, hr)) })
	w.x.Step("written " + r.canon())
	return r
}
