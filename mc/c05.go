package main

import (
	"fmt"
	"strings"
)

// C05: refresh tokens.

func init() {
	register(&Check{
		ID:        "C05",
		Rule:      "every refresh request within the deviation bound of a valid one, every single-edit neighbour of the token, every age around its expiry, and every history of refreshes, revocations, re-consents and clock steps up to the depth, on the real endpoint against a reference decision over the stored records",
		Scenarios: c05Scenarios,
	})
}

func c05Want(w *World, c *Client, rt string) (wants []ErrWant, t *Token) {
	if rt == "" {
		return []ErrWant{wInvalidRequest}, nil
	}
	for _, k := range w.tokens {
		if k.refresh == rt && !k.superseded {
			t = k
		}
	}
	if t == nil {
		return []ErrWant{wInvalidGrant}, nil
	}
	i := w.infos[t.authId]
	if i == nil || !i.active || i.clientId != c.id || t.created+t.rExp < w.now || !hasToken(i.scope, "offline_access") {
		wants = append(wants, wInvalidGrant)
	}
	return wants, t
}

func c05Refresh(x *X, w *World, q *Req, c *Client) tokenOutcome {
	rt := q.parsed(w).FormValue("refresh_token")
	wants, t := c05Want(w, c, rt)
	n := len(w.tokens)
	from := len(w.calls)
	r := w.Token(w.TokenEndpoint(), q)
	o := expectToken(x, "refresh", q, r, wants)
	calls := append(w.callsNamed(from, "RefreshAccessToken"), w.callsNamed(from, "CreateOAuthToken")...)
	if len(wants) > 0 {
		if len(calls) > 0 || len(w.tokens) != n || (t != nil && t.superseded) {
			x.Fail("refused-but-changed", "%s refused but tokens changed: %s", q, callList(w.calls[from:]))
		}
		return o
	}
	if o.ok {
		if len(calls) != 1 || calls[0].Name != "RefreshAccessToken" || len(w.tokens) != n+1 {
			x.Fail("not-one-refresh", "%s: store calls %s", q, callList(w.calls[from:]))
			return o
		}
		nt := w.tokens[n]
		if nt.authId != t.authId || !t.superseded {
			x.Fail("wrong-token-refreshed", "%s: %s", q, callList(w.calls[from:]))
		}
		if o.obj["access_token"] != nt.access {
			x.Fail("wrong-access-token", "%s => %s, store issued %s", q, o, nt.access)
		}
		if g, has := o.obj["refresh_token"]; has != (nt.refresh != "") || (has && g != nt.refresh) {
			x.Fail("wrong-refresh-token", "%s => %s, store issued %q", q, o, nt.refresh)
		}
		if sc, _ := o.obj["scope"].(string); sc != w.infos[t.authId].scope {
			x.Fail("wrong-scope", "%s => scope %q, authorization has %q", q, sc, w.infos[t.authId].scope)
		}
	}
	return o
}

var offlineScopes = []string{"openid offline_access", "offline_access", "offline_access openid", "a offline_access b", "",
	"openid", "offline_accessx", "xoffline_access", "OFFLINE_ACCESS", "offline_access,openid", "openid offline_acces", "offline access", "offline", "Offline_Access openid", "offline_access.read", "my-offline_access"}

func c05Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	bound, depth := 3, 4
	if th {
		bound, depth = 4, 6
	}
	setup := func(x *X) (*World, *Client, *Client, *AuthInfo, *AuthInfo) {
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		b := w.AddClient("clientb", "secretb")
		i1 := w.AddInfo(1, a.id, "openid offline_access")
		i2 := w.AddInfo(1, b.id, "offline_access email")
		return w, a, b, i1, i2
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "refreshes", Bound: bound, Run: func(x *X) {
		w, a, b, i1, i2 := setup(x)
		t1 := w.AddToken(i1, "at-one", "rt-one")
		w.AddToken(i2, "at-two", "rt-two")
		switch x.Dev("mode", 3) {
		case 1:
			w.rotateRT = false
		case 2:
			w.refreshNoRT = true
		}
		t1.rExp = PickDev(x, "lifetime", []int64{86400, 0, 1, 60, 3600})
		t1.aExp = PickDev(x, "alife", []int64{3600, 0, 1, 1000000})
		t1.created = PickDev(x, "created", append([]int64{1700000000}, absTimes[1:]...))
		t1.refreshed = t1.created + PickDev(x, "refreshed", []int64{0, 5, 86400, -5, 1000000})
		off := PickDev(x, "age", nearOffsets)
		if x.Dev("age-base", 2) == 0 {
			w.setNow(t1.created + off)
		} else {
			w.setNow(t1.created + t1.rExp + off)
		}
		i1.scope = PickDev(x, "scope", offlineScopes)
		switch x.Dev("info", 6) {
		case 1:
			i1.active = false
		case 2:
			delete(w.infos, i1.id)
		case 3:
			i1.clientId = b.id
		case 4:
			t1.authId = i2.id
		case 5:
			t1.superseded = true
		}
		c := PickDev(x, "client", []*Client{a, b})
		rt := PickDev(x, "token", []string{"rt-one", "rt-two", "", "at-one", "unknown", "RT-ONE", "rt-one ", "rt-on", "rt-onee"})
		q := tokenReq(c.id, c.secret, kv{"grant_type", "refresh_token"})
		p := kv{"refresh_token", rt}
		switch x.Dev("where", 6) {
		case 0:
			q.body = append(q.body, p)
		case 1:
			q.query = kvs{p}
		case 2:
		case 3:
			q.body = append(q.body, p, kv{"refresh_token", "rt-one"})
		case 4:
			q.body = append(q.body, p, kv{"scope", "openid offline_access admin"})
		case 5:
			q.body = append(q.body, p, kv{"client_id", a.id}, kv{"scope", ""})
		}
		c05Refresh(x, w, q, c)
	}})
	out = append(out, &Scenario{Name: "token-edits", Run: func(x *X) {
		w, a, _, i1, _ := setup(x)
		v := Pick(x, "value", []string{"rt-one", "A+b/c=", "aaaa"})
		w.AddToken(i1, "at-one", v)
		w.AddToken(i1, "at-none", "") // an authorization without refresh token
		c05Refresh(x, w, tokenReq(a.id, a.secret, kv{"grant_type", "refresh_token"}, kv{"refresh_token", Pick(x, "edit", edits(v))}), a)
	}})
	out = append(out, &Scenario{Name: "ages", Run: func(x *X) {
		w, a, _, i1, _ := setup(x)
		t := w.AddToken(i1, "at-one", "rt-one")
		t.created = Pick(x, "created", absTimes)
		t.rExp = Pick(x, "lifetime", []int64{0, 1, 2, 30, 60, 300, 3600, 86400, 2592000, 31536000, 2147483648})
		t.aExp = Pick(x, "alife", []int64{0, 3600, 2592000})
		t.refreshed = t.created + Pick(x, "refreshed", []int64{0, 1000, 2592000})
		o := Pick(x, "off", nearOffsets)
		if x.Choose("base", 2) == 0 {
			w.setNow(t.created + t.rExp + o)
		} else {
			w.setNow(t.refreshed + t.aExp + o)
		}
		c05Refresh(x, w, tokenReq(a.id, a.secret, kv{"grant_type", "refresh_token"}, kv{"refresh_token", "rt-one"}), a)
	}})
	out = append(out, &Scenario{Name: "scopes", Run: func(x *X) {
		w, a, _, i1, _ := setup(x)
		w.AddToken(i1, "at-one", "rt-one")
		words := []string{"openid", "offline_access", "offline", "access", "offline_access_x", "OFFLINE_ACCESS"}
		n := 3
		var l []string
		for k := 0; k < n; k++ {
			if c := x.Choose("word", len(words)+1); c > 0 {
				l = append(l, words[c-1])
			}
		}
		i1.scope = strings.Join(l, " ")
		c05Refresh(x, w, tokenReq(a.id, a.secret, kv{"grant_type", "refresh_token"}, kv{"refresh_token", "rt-one"}), a)
	}})
	// what else a refresh request may carry
	out = append(out, &Scenario{Name: "parameters", Run: func(x *X) {
		w, a, _, i1, _ := setup(x)
		w.AddToken(i1, "at-one", "rt-one")
		i1.scope = Pick(x, "granted", []string{"openid offline_access", "email offline_access openid profile", "offline_access"})
		q := tokenReq(a.id, a.secret, kv{"grant_type", "refresh_token"}, kv{"refresh_token", "rt-one"})
		k := Pick(x, "name", []string{"scope", "client_id", "redirect_uri", "code", "username", "access_token", "resource", "audience", "nonce", "state", "user_id", "expires_in", "grant_id", "Scope"})
		v := Pick(x, "value", []string{"", "openid", "offline_access", "openid offline_access", "offline_access openid", "profile", "email", "openid profile", "email openid", "openid openid", "admin", "openid admin",
			" openid", "openid ", "OPENID", "*", "clientb", "at-one", "at-two", "rt-two", "2", "1", "0", "60"})
		if x.Choose("where", 2) == 0 {
			q.body = append(q.body, kv{k, v})
		} else {
			q.query = kvs{{k, v}}
		}
		n := len(w.tokens)
		if o := c05Refresh(x, w, q, a); o.ok && len(w.tokens) > n { // and what comes of it
			c05Refresh(x, w, tokenReq(a.id, a.secret, kv{"grant_type", "refresh_token"}, kv{"refresh_token", w.tokens[len(w.tokens)-1].refresh}), a)
		}
	}})
	out = append(out, &Scenario{Name: "histories", Unit: 4, Loop: true, Run: func(x *X) {
		w, a, b, i1, i2 := setup(x)
		w.rLife = 100
		w.rotateRT = x.Choose("rotate", 2) == 0
		w.AddToken(i1, "at-one", "rt-one")
		w.AddToken(i2, "at-two", "rt-two")
		cur, old := "rt-one", ""
		ref := func(c *Client, rt string) tokenOutcome {
			return c05Refresh(x, w, tokenReq(c.id, c.secret, kv{"grant_type", "refresh_token"}, kv{"refresh_token", rt}), c)
		}
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 10)
			x.Stepf("op%d", op)
			switch op {
			case 0:
				if o := ref(a, cur); o.ok {
					if s, _ := o.obj["refresh_token"].(string); s != "" && s != cur {
						old, cur = cur, s
					}
				}
			case 1:
				ref(b, cur)
			case 2:
				ref(b, "rt-two")
			case 3:
				if old != "" {
					ref(a, old)
				} else {
					ref(a, "rt-two")
				}
			case 4:
				i1.active = !i1.active
			case 5:
				w.setNow(w.now + 60)
			case 6:
				if hasToken(i1.scope, "offline_access") {
					i1.scope = "openid"
				} else {
					i1.scope = "profile offline_access"
				}
			case 7:
				// access tokens are not refresh tokens
				ref(a, w.tokens[len(w.tokens)-1].access)
			case 8:
				for _, t := range w.tokens {
					if t.refresh == cur {
						t.superseded = true // revoked
					}
				}
			case 9:
				i1.clientId, i2.clientId = i2.clientId, i1.clientId
			}
		}
	}})
	// concurrent refreshes of one token
	pb := 3
	if th {
		pb = 5
	}
	out = append(out, &Scenario{Name: "concurrent", Bound: pb, Unit: 9, Run: func(x *X) {
		w, a, b, i1, i2 := setup(x)
		w.AddToken(i1, "at-one", "rt-one")
		w.AddToken(i2, "at-two", "rt-two")
		te := w.TokenEndpoint()
		fine := x.Choose("fine", 2) == 1
		type job struct {
			c  *Client
			rt string
		}
		jobs := []job{{a, "rt-one"}, {a, "rt-one"}}
		if x.Choose("other", 2) == 1 {
			jobs[1] = job{b, "rt-two"}
		}
		rs := make([]*Resp, len(jobs))
		w.sched = NewSched(x, fine, true)
		var bodies []func()
		for i := range jobs {
			i := i
			bodies = append(bodies, func() {
				rs[i] = w.Token(te, tokenReq(jobs[i].c.id, jobs[i].c.secret, kv{"grant_type", "refresh_token"}, kv{"refresh_token", jobs[i].rt}))
			})
		}
		w.sched.Run(bodies...)
		w.sched = nil
		for i, r := range rs {
			o := readToken(r)
			if !o.ok {
				continue
			}
			ok := false
			for _, c := range w.calls {
				if c.Thread == i && c.Name == "RefreshAccessToken" && c.Obj != nil {
					t := c.Obj.(*Token)
					ok = o.obj["access_token"] == t.access && o.obj["refresh_token"] == t.refresh && w.infos[t.authId].clientId == jobs[i].c.id
				}
			}
			if !ok {
				x.Fail("concurrent-wrong-token", "refresh %d of %s by %s answered %s, which its own refresh did not issue: %s", i, jobs[i].rt, jobs[i].c.id, o, callList(w.calls))
			}
		}
	}})
	out = withPerturb(out, tier, "refreshes")
	return withDict(out, tier, true, "refreshes")
}

var _ = fmt.Sprint
