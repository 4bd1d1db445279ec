package main

import (
	"fmt"
	"strings"
)

// C22: token response content.

func init() {
	register(&Check{
		ID:        "C22",
		Rule:      "every grant x every combination of store-issued token values, lifetimes, scopes and refresh-token behaviour from the menus, and every refusal reason, on the real endpoint; the response is compared member by member with the token record the store handed out",
		Scenarios: c22Scenarios,
	})
}

var nastyStrings = []string{"plain", `q"uote\back`, "<script>&amp;'", "\u00e4\u4e16\U0001F600", "a b+c%20/=?&#", "new\nline\ttab\r", "\x01\x7f", "\u2028\u2029", strings.Repeat("long", 300), "null", "0"}

func c22Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	var out []*Scenario
	bound := 3
	if th {
		bound = 6
	}
	scopes := []string{"openid offline_access", "", "openid", "profile", "offline_access", "openidx", `a"b`, "\u00e9 <x>", "OPENID"}
	out = append(out, &Scenario{Name: "success", Bound: bound, Run: func(x *X) {
		gt := Pick(x, "grant", allGrants)
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		w.AddUser(7, "alice", "pw")
		at := PickDev(x, "at", nastyStrings)
		rt := PickDev(x, "rt", append([]string{"rtplain"}, nastyStrings[1:]...))
		w.tokName = func(kind string, n int) string {
			if kind == "AT" {
				return at
			}
			return rt
		}
		w.aLife = PickDev(x, "life", []int64{3600, 1, 0, 86400, 1<<31 - 1, 1 << 31, 1 << 40, 1<<53 + 1, 1<<63 - 1, -1})
		w.alwaysRT = x.Dev("alwaysRT", 2) == 1
		switch x.Dev("rtmode", 3) {
		case 1:
			w.rotateRT = false
		case 2:
			w.refreshNoRT = true
		}
		sc := PickDev(x, "scope", scopes)
		if gt == "refresh_token" && !hasToken(sc, "offline_access") {
			sc = sc + " offline_access"
		}
		ps := w.grantParams(gt, a)
		for _, i := range w.infos {
			i.scope = sc
		}
		if gt != "authorization_code" && gt != "refresh_token" && (sc != "" || x.Dev("empty", 2) == 1) {
			ps = append(ps, kv{"scope", sc})
		}
		// the store may record another scope than the one asked for
		switch x.Dev("store-scope", 6) {
		case 1:
			w.grantScope = func(s string) string { return s[:max(0, strings.LastIndex(s, " "))] }
		case 2:
			w.grantScope = func(s string) string { return "" }
		case 3:
			w.grantScope = func(s string) string { return s + " more" }
		case 4:
			w.grantScope = func(s string) string { return "other" }
		case 5:
			w.grantScope = func(s string) string { return strings.ToUpper(s) }
		}
		te := w.TokenEndpoint()
		from := len(w.calls)
		q := tokenReq(a.id, a.secret, ps...)
		r := w.Token(te, q)
		o := readToken(r)
		if !o.ok && x.pert != nil {
			return
		}
		if !o.ok {
			x.Fail("refused", "%s => %s", q, o)
			return
		}
		if r.nHeader != 1 {
			x.Fail("status-written-twice", "%s: %d", q, r.nHeader)
		}
		var tok *Token
		for _, c := range w.calls[from:] {
			if c.Name == "CreateOAuthToken" || c.Name == "RefreshAccessToken" {
				tok, _ = c.Obj.(*Token)
			}
		}
		if tok == nil {
			x.Fail("no-token-issued", "%s => %s", q, o)
			return
		}
		want := map[string]interface{}{"access_token": tok.access, "token_type": "Bearer"}
		if tok.refresh != "" {
			want["refresh_token"] = tok.refresh
		}
		for k, v := range want {
			if o.obj[k] != v {
				x.Fail("member/"+k, "%s: %s = %q, store issued %q", q, k, o.obj[k], v)
			}
		}
		if n, ok := num(o.obj["expires_in"]); !ok || n != tok.aExp {
			x.Fail("member/expires_in", "%s: expires_in %v, store issued %d", q, o.obj["expires_in"], tok.aExp)
		}
		if _, has := o.obj["refresh_token"]; has && tok.refresh == "" {
			x.Fail("refresh_token-invented", "%s => %s", q, o)
		}
		if s, has := o.obj["scope"].(string); s != w.infos[tok.authId].scope || (!has && s != "") {
			x.Fail("member/scope", "%s: scope %v, authorization has %q", q, o.obj["scope"], w.infos[tok.authId].scope)
		}
		if _, has := o.obj["id_token"]; has && gt != "authorization_code" {
			x.Fail("id_token-unexpected", "%s => %s", q, o)
		}
		for k := range o.obj {
			switch k {
			case "access_token", "token_type", "expires_in", "refresh_token", "scope", "id_token":
			default:
				x.Fail("member-unknown", "%s => %s", q, o)
			}
		}
	}})
	// refusals carry no token members, at every stage
	out = append(out, &Scenario{Name: "refusals", Bound: 2, Run: func(x *X) {
		gt := Pick(x, "grant", allGrants)
		w := NewWorld(x)
		w.alwaysRT = true
		w.tokName = func(kind string, n int) string { return fmt.Sprintf("minted-%s-%d", kind, n) }
		a := w.AddClient("clienta", "secreta")
		b := w.AddClient("clientb", "secretb")
		w.AddUser(7, "alice", "pw")
		ps := w.grantParams(gt, a)
		c := PickDev(x, "client", []*Client{a, b})
		sec := PickDev(x, "sec", []string{"", "wrong"})
		if sec == "" {
			sec = c.secret
		}
		if n := x.Dev("drop", len(ps)+1); n > 0 {
			ps = append(append(kvs{}, ps[:n-1]...), ps[n:]...)
		}
		if n := x.Dev("alter", len(ps)+1); n > 0 {
			ps = append(kvs{}, ps...)
			ps[n-1].v += "x"
		}
		if x.Dev("key", 2) == 1 {
			a.key = 17 // an unusable ID-token key
		}
		w.faultsOn = true
		w.faultMenu = func(name string, nilable, mutating bool) []faultKind {
			m := []faultKind{fFailed, fUnsupported, fServerError}
			if nilable {
				m = append(m, fNil)
			}
			if mutating {
				m = append(m, fLate)
			}
			return m
		}
		q := tokenReq(c.id, sec, ps...)
		r := w.Token(w.TokenEndpoint(), q)
		o := readToken(r)
		if o.ok {
			return
		}
		if o.bad != "" && r.panic_ == "" {
			x.Fail("error-malformed", "%s => %s", q, o)
		}
		if l := w.leaks(r); len(l) > 0 {
			x.Fail("leak", "%s refused but reveals %v: %s", q, l, r)
		}
	}})
	out = withPerturb(out, tier, "success")
	return withDict(out, tier, false, "success")
}
