package main

import (
	"fmt"
)

// C03: a code is redeemable only by its own client, URI and in time.

func init() {
	register(&Check{
		ID:        "C03",
		Rule:      "every redemption within the deviation bound of a valid one (client, code, URI, placement, authorization state, session age around its boundary, scope), every single-edit neighbour of the redirect URI and code, and every history of redemptions, revocations and clock steps up to the depth, on the real endpoint against a reference decision",
		Scenarios: c03Scenarios,
	})
}

// c03Want: the reference. Several conditions may fail at once; any of their errors is acceptable.
func c03Want(w *World, c *Client, code, uri string) (wants []ErrWant, s *Session) {
	if code == "" || uri == "" {
		wants = append(wants, wInvalidRequest)
	}
	s = w.sessions[code]
	if s == nil || s.disabled {
		if code != "" {
			wants = append(wants, wInvalidGrant)
		}
		return wants, nil
	}
	i := w.infos[s.authId]
	if i == nil || !i.active || i.clientId != c.id || s.redir != uri || s.createdAt+s.expiresIn < w.now {
		if !(uri == "" && i != nil && i.active && i.clientId == c.id && s.createdAt+s.expiresIn >= w.now) {
			wants = append(wants, wInvalidGrant)
		}
	}
	return wants, s
}

func c03Redeem(x *X, w *World, q *Req, c *Client) (*Resp, tokenOutcome) {
	hr := q.parsed(w)
	code, uri := hr.FormValue("code"), hr.FormValue("redirect_uri")
	wants, s := c03Want(w, c, code, uri)
	var before *Session
	if s != nil {
		before = s
	}
	from := len(w.calls)
	te := w.TokenEndpoint()
	r := w.Token(te, q)
	o := expectToken(x, "redeem", q, r, wants)
	if o.ok && len(wants) == 0 {
		made := w.callsNamed(from, "CreateOAuthToken")
		if len(made) != 1 {
			x.Fail("tokens-created", "%s: %d tokens created: %s", q, len(made), callList(made))
		} else if t, _ := made[0].Obj.(*Token); t != nil {
			if t.authId != s.authId || o.obj["access_token"] != t.access {
				x.Fail("wrong-authorization", "%s: tokens belong to authorization %d, code to %d; response %s", q, t.authId, s.authId, o)
			}
			if sc, _ := o.obj["scope"].(string); sc != w.infos[s.authId].scope {
				x.Fail("wrong-scope", "%s: scope %q, authorization has %q", q, sc, w.infos[s.authId].scope)
			}
		}
	}
	if len(wants) > 0 {
		if m := w.callsNamed(from, "CreateOAuthToken"); len(m) > 0 {
			x.Fail("token-issued", "%s refused but a token was issued: %s", q, callList(m))
		}
		if before != nil && before.disabled {
			x.Fail("code-consumed", "%s refused but consumed the code", q)
		}
	}
	return r, o
}

var uriMenu = []string{"https://a.example/cb", "https://a.example/cb?x=1&y=a%20b", "custom.app:/cb", "http://localhost:8080/", "https://a.example:443/cb/"}

func c03Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	bound, depth := 3, 4
	if th {
		bound, depth = 4, 6
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "redemptions", Bound: bound, Run: func(x *X) {
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		b := w.AddClient(PickDev(x, "other-id", []string{"clientb", "CLIENTA", "clienta1", "client", "clienta ", " clienta", "clienta/x", "сlienta"}), "secretb")
		uri := uriMenu[0]
		for _, c := range []*Client{a, b} {
			c.redirs[uri], c.redirs["https://a.example/two"] = true, true
		}
		i1 := w.AddInfo(1, a.id, "openid profile")
		i2 := w.AddInfo(2, a.id, "email")
		i3 := w.AddInfo(1, b.id, "openid offline_access")
		s1 := w.AddSession(i1, "codeone", uri)
		w.AddSession(i2, "codetwo", "https://a.example/two")
		w.AddSession(i3, "codethree", uri)
		s1.expiresIn = PickDev(x, "lifetime", []int64{60, 0, 1, 600, 86400})
		off := PickDev(x, "age", append([]int64{0}, nearOffsets[1:]...))
		base := PickDev(x, "age-base", []string{"created", "expiry"})
		s1.createdAt = PickDev(x, "created", append([]int64{1700000000}, absTimes[1:]...))
		switch base {
		case "created":
			w.setNow(s1.createdAt + off)
		default:
			w.setNow(s1.createdAt + s1.expiresIn + off)
		}
		i1.scope = PickDev(x, "scope", []string{"openid profile", "", "offline_access", "profile", "a b c"})
		switch x.Dev("info", 5) {
		case 1:
			i1.active = false
		case 2:
			delete(w.infos, i1.id)
		case 3:
			i1.clientId = b.id
		case 4:
			s1.authId = i3.id
		}
		c := PickDev(x, "client", []*Client{a, b})
		code := PickDev(x, "code", []string{"codeone", "codetwo", "codethree", "", "unknown", "CODEONE", "codeone ", "codeon", "codeonee"})
		u := PickDev(x, "uri", []string{uri, "https://a.example/two", "", uri + "/", uri + "?", "https://A.example/cb", "https://a.example/CB", "https://a.example", uri + "#", "https%3A%2F%2Fa.example%2Fcb", " " + uri, uri + "/../x"})
		switch x.Dev("used", 2) {
		case 1:
			s1.disabled = true
		}
		q := tokenReq(c.id, c.secret, kv{"grant_type", "authorization_code"})
		cp, up := kv{"code", code}, kv{"redirect_uri", u}
		switch x.Dev("where", 7) {
		case 0:
			q.body = append(q.body, cp, up)
		case 1:
			q.query = kvs{cp, up}
		case 2:
			q.body = append(q.body, cp)
			q.query = kvs{up}
		case 3:
			q.body = append(q.body, cp)
		case 4:
			q.body = append(q.body, up)
		case 5: // several parties' values at once
			q.body = append(q.body, cp, up, kv{"redirect_uri", uri}, kv{"code", "codeone"})
		case 6:
			q.body = append(q.body, cp, up, kv{"client_id", a.id}, kv{"auth_id", fmt.Sprint(i1.id)})
		}
		_, o := c03Redeem(x, w, q, c)
		if !o.ok && !s1.disabled && w.infos[i1.id] != nil && i1.active && i1.clientId == a.id && s1.authId == i1.id && s1.createdAt+s1.expiresIn >= w.now {
			// still usable by its rightful client
			c03Redeem(x, w, tokenReq(a.id, a.secret, kv{"grant_type", "authorization_code"}, kv{"code", "codeone"}, kv{"redirect_uri", uri}), a)
		}
	}})
	out = append(out, &Scenario{Name: "uri-edits", Run: func(x *X) {
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		i1 := w.AddInfo(1, a.id, "openid profile")
		uri := Pick(x, "uri", uriMenu)
		w.AddSession(i1, "codeone", uri)
		code := "codeone"
		if x.Choose("what", 2) == 0 {
			uri = Pick(x, "edit", edits(uri))
		} else {
			code = Pick(x, "edit", edits(code))
		}
		c03Redeem(x, w, tokenReq(a.id, a.secret, kv{"grant_type", "authorization_code"}, kv{"code", code}, kv{"redirect_uri", uri}), a)
	}})
	// every age around the boundaries, for every lifetime and absolute time
	out = append(out, &Scenario{Name: "ages", Run: func(x *X) {
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		i1 := w.AddInfo(1, a.id, "profile")
		s := w.AddSession(i1, "codeone", uriMenu[0])
		s.createdAt = Pick(x, "created", absTimes)
		s.expiresIn = Pick(x, "lifetime", []int64{0, 1, 2, 30, 60, 300, 600, 3600, 86400, 31536000, 2147483648})
		o := Pick(x, "off", nearOffsets)
		if x.Choose("base", 2) == 0 {
			w.setNow(s.createdAt + s.expiresIn + o)
		} else {
			w.setNow(s.createdAt + o)
		}
		c03Redeem(x, w, tokenReq(a.id, a.secret, kv{"grant_type", "authorization_code"}, kv{"code", "codeone"}, kv{"redirect_uri", uriMenu[0]}), a)
	}})
	out = append(out, &Scenario{Name: "histories", Unit: 4, Loop: true, Run: func(x *X) {
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		b := w.AddClient("clientb", "secretb")
		i1 := w.AddInfo(1, a.id, "openid profile")
		i3 := w.AddInfo(1, b.id, "email")
		w.AddSession(i1, "codeone", uriMenu[0])
		w.AddSession(i3, "codetwo", uriMenu[0])
		w.AddSession(i1, "codethree", uriMenu[0]).expiresIn = 120
		red := func(c *Client, code, u string) {
			c03Redeem(x, w, tokenReq(c.id, c.secret, kv{"grant_type", "authorization_code"}, kv{"code", code}, kv{"redirect_uri", u}), c)
		}
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 10)
			x.Stepf("op%d", op)
			switch op {
			case 0:
				red(a, "codeone", uriMenu[0])
			case 1:
				red(b, "codeone", uriMenu[0])
			case 2:
				red(a, "codeone", uriMenu[1])
			case 3:
				red(b, "codetwo", uriMenu[0])
			case 4:
				red(a, "codethree", uriMenu[0])
			case 5:
				red(a, "codetwo", uriMenu[0])
			case 6:
				i1.active = !i1.active
			case 7:
				w.setNow(w.now + 61)
			case 8:
				i1.scope = "profile"
			case 9:
				w.AddSession(i1, "codeone", uriMenu[1])
			}
		}
	}})
	out = withPerturb(out, tier, "redemptions")
	return withDict(out, tier, true, "redemptions")
}
