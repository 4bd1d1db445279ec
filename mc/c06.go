package main

import (
	"fmt"
	"strings"

	"github.com/lyokato/goidc/flow"
)

// C06: password, client_credentials, jwt-bearer.

func init() {
	register(&Check{
		ID:        "C06",
		Rule:      "every direct-grant request within the deviation bound of a valid one, every single-edit neighbour of user name, password, subject and scope, and every sequence of direct grants by several clients and users up to the depth, on the real endpoint against a reference decision",
		Scenarios: c06Scenarios,
	})
}

func directKey(scope string) string { return flow.DirectGrant.String() + "|" + scope }

type c06Case struct {
	gt string
	c  *Client
	q  *Req
	// assertion subject known to the harness (jwt grant); "" when there is no genuine assertion
	sub    string
	subSet bool
}

func c06Judge(x *X, w *World, k c06Case) tokenOutcome {
	hr := k.q.parsed(w)
	var wants []ErrWant
	uid, found := int64(-1), false
	switch k.gt {
	case "password":
		u, p := hr.FormValue("username"), hr.FormValue("password")
		if u == "" || p == "" {
			wants = append(wants, wInvalidRequest)
		}
		for _, e := range w.users {
			if e.name == u && e.pass == p {
				uid, found = e.id, true
				break
			}
		}
		if !found && u != "" && p != "" {
			wants = append(wants, wInvalidGrant)
		}
	case "client_credentials":
		uid = k.c.owner
		if uid < 0 {
			wants = append(wants, wInvalidGrant)
		}
	default:
		if hr.FormValue("assertion") == "" {
			wants = append(wants, wInvalidRequest)
		} else if !k.subSet {
			wants = append(wants, wInvalidRequest)
		} else {
			for _, e := range w.users {
				if e.sub == k.sub {
					uid, found = e.id, true
					break
				}
			}
			if !found {
				wants = append(wants, wInvalidGrant)
			}
		}
	}
	sc := hr.FormValue("scope")
	if sc != "" && k.c.scopes != nil && !k.c.scopes[directKey(sc)] {
		wants = append(wants, wInvalidScope)
	}
	// an authorization carrying exactly what was asked
	n := len(w.infos)
	from := len(w.calls)
	r := w.Token(w.TokenEndpoint(), k.q)
	o := expectToken(x, "direct", k.q, r, wants)
	muts := w.mutations(from)
	if len(wants) > 0 {
		if len(muts) > 0 || len(w.infos) != n {
			x.Fail("refused-but-created", "%s refused but %s", k.q, callList(muts))
		}
		return o
	}
	if o.ok {
		bad := len(muts) != 2 || muts[0].Name != "CreateOrUpdateAuthInfo" || muts[1].Name != "CreateOAuthToken"
		if !bad {
			i, _ := muts[0].Obj.(*AuthInfo)
			t, _ := muts[1].Obj.(*Token)
			bad = i == nil || t == nil || muts[0].Args != fmt.Sprintf("%d,%s,%q", uid, k.c.id, sc) || t.authId != i.id || o.obj["access_token"] != t.access
		}
		if bad {
			x.Fail("wrong-authorization", "%s: want one authorization for user %d, client %s, scope %q and a token of it, got %s; response %s", k.q, uid, k.c.id, sc, callList(muts), o)
		}
		if s, _ := o.obj["scope"].(string); s != sc {
			x.Fail("wrong-scope", "%s: response scope %q, requested %q", k.q, s, sc)
		}
	}
	return o
}

func c06World(x *X) (*World, *Client, *Client) {
	w := NewWorld(x)
	a := w.AddClient("clienta", "secreta")
	b := w.AddClient("clientb", "secretb")
	w.AddUser(7, "alice", "pw alice")
	w.AddUser(8, "bob", "pw bob")
	w.AddUser(9, "alice ", "pw")
	w.AddUser(0, "root", "toor")
	a.scopes = map[string]bool{directKey("openid"): true, directKey("profile email"): true, directKey("offline_access"): true,
		flow.Implicit.String() + "|admin": true, flow.AuthorizationCode.String() + "|admin": true, flow.Hybrid.String() + "|admin": true}
	for _, c := range []*Client{a, b} {
		c.akeys["HS256|g"] = keyFor("HS256", 1).pub
	}
	return w, a, b
}

func (w *World) grantAssertion(sub string, jti string) string {
	return signJWS("HS256", keyFor("HS256", 1).sign, `{"alg":"HS256","kid":"g"}`,
		fmt.Sprintf(`{"iss":"i","sub":%s,"aud":%q,"exp":%d,"jti":%q}`, jsonStr(sub), w.issuer, w.now+300, jti))
}

func c06Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	bound, depth := 3, 4
	if th {
		bound, depth = 4, 5
	}
	grants := []string{"password", "client_credentials", jwtGrant}
	scopes := []string{"", "openid", "profile email", "email profile", "admin", "openid ", " openid", "OPENID", "openi", "profile", "openid admin", "offline_access", "profile  email", "profile email admin"}
	var out []*Scenario
	out = append(out, &Scenario{Name: "requests", Bound: bound, Run: func(x *X) {
		gt := Pick(x, "grant", grants)
		w, a, b := c06World(x)
		c := PickDev(x, "client", []*Client{a, b})
		k := c06Case{gt: gt, c: c, q: tokenReq(c.id, c.secret, kv{"grant_type", gt})}
		var ps kvs
		switch gt {
		case "password":
			u := PickDev(x, "user", []string{"alice", "bob", "", "alice ", "ALICE", "alic", "nobody", "root", "7"})
			p := PickDev(x, "pass", []string{"pw alice", "pw bob", "", "PW ALICE", "pw alice ", "pw", "toor", "wrong"})
			if x.Dev("no-user", 2) == 0 {
				ps = append(ps, kv{"username", u})
			}
			if x.Dev("no-pass", 2) == 0 {
				ps = append(ps, kv{"password", p})
			}
		case "client_credentials":
			a.owner = PickDev(x, "owner", []int64{900, 0, -1, 7, 1 << 40})
		default:
			k.sub = PickDev(x, "sub", []string{"sub-alice", "sub-bob", "", "SUB-ALICE", "sub-alic", "sub-alice ", "alice", "sub-root", "clienta"})
			k.subSet = true
			as := w.grantAssertion(k.sub, "j1")
			switch x.Dev("assertion", 4) {
			case 1:
				as = ""
			case 2:
				k.subSet = false
				as = signJWS("HS256", keyFor("HS256", 1).sign, `{"alg":"HS256","kid":"g"}`, fmt.Sprintf(`{"iss":"sub-alice","aud":%q,"exp":%d}`, w.issuer, w.now+300))
			case 3:
				k.subSet = false
				as = signJWS("HS256", keyFor("HS256", 1).sign, `{"alg":"HS256","kid":"g"}`, fmt.Sprintf(`{"sub":7,"aud":%q,"exp":%d}`, w.issuer, w.now+300))
			}
			if x.Dev("no-assertion", 2) == 0 {
				ps = append(ps, kv{"assertion", as})
			}
		}
		if s := x.Dev("scope", len(scopes)); s > 0 || x.Dev("emptyscope", 2) == 1 {
			ps = append(ps, kv{"scope", scopes[s]})
		}
		// distractors: parameters that must not matter
		switch x.Dev("extra", 7) {
		case 1:
			ps = append(ps, kv{"user_id", "8"}, kv{"client_id", b.id})
		case 2:
			ps = append(kvs{{"scope", "openid"}}, ps...)
		case 3:
			ps = append(ps, kv{"username", "bob"}, kv{"password", "pw bob"}, kv{"scope", "admin"})
		case 4:
			ps = append(ps, kv{"redirect_uri", "https://x/"}, kv{"code", "c"}, kv{"refresh_token", "r"})
		case 5: // an existing authorization of that user and client
			i := w.AddInfo(7, a.id, "openid admin")
			i.active = false
		case 6:
			w.AddInfo(900, a.id, "admin offline_access")
			w.AddInfo(8, a.id, "admin")
		}
		switch x.Dev("where", 3) {
		case 0:
			k.q.body = append(k.q.body, ps...)
		case 1:
			k.q.query = ps
		case 2:
			for i, p := range ps {
				if i%2 == 0 {
					k.q.body = append(k.q.body, p)
				} else {
					k.q.query = append(k.q.query, p)
				}
			}
		}
		c06Judge(x, w, k)
	}})
	out = append(out, &Scenario{Name: "edits", Run: func(x *X) {
		w, a, _ := c06World(x)
		w.users[0].pass = "p+w%20 \u00e4:"
		a.scopes[directKey("ab cd")] = true
		gt, u, p, s, sub := "password", "alice", w.users[0].pass, "", "sub-alice"
		switch x.Choose("what", 4) {
		case 0:
			u = Pick(x, "edit", edits(u))
		case 1:
			p = Pick(x, "edit", edits(p))
		case 2:
			s = Pick(x, "edit", edits("ab cd"))
			gt = Pick(x, "grant", grants)
		case 3:
			gt = jwtGrant
			sub = Pick(x, "edit", edits(sub))
		}
		k := c06Case{gt: gt, c: a, q: tokenReq(a.id, a.secret, kv{"grant_type", gt}), sub: sub, subSet: true}
		switch gt {
		case "password":
			k.q.body = append(k.q.body, kv{"username", u}, kv{"password", p})
		case jwtGrant:
			k.q.body = append(k.q.body, kv{"assertion", w.grantAssertion(sub, "e")})
		}
		if s != "" {
			k.q.body = append(k.q.body, kv{"scope", s})
		}
		c06Judge(x, w, k)
	}})
	out = append(out, &Scenario{Name: "histories", Unit: 4, Loop: true, Run: func(x *X) {
		w, a, b := c06World(x)
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 16)
			x.Stepf("op%d", op)
			send := func(c *Client, gt, sub string, ps ...kv) {
				k := c06Case{gt: gt, c: c, q: tokenReq(c.id, c.secret, append(kvs{{"grant_type", gt}}, ps...)...), sub: sub, subSet: true}
				c06Judge(x, w, k)
			}
			as := func(sub string) kv { return kv{"assertion", w.grantAssertion(sub, fmt.Sprint("h", d))} }
			al := kvs{{"username", "alice"}, {"password", "pw alice"}}
			bo := kvs{{"username", "bob"}, {"password", "pw bob"}}
			switch op {
			case 0:
				send(a, "password", "", al...)
			case 1:
				send(a, "password", "", bo...)
			case 2:
				send(b, "password", "", append(al, kv{"scope", "admin"})...)
			case 3:
				send(a, "password", "", append(al, kv{"scope", "openid"})...)
			case 4:
				send(a, "password", "", append(al, kv{"scope", "admin"})...)
			case 5:
				send(a, "password", "", kvs{{"username", "alice"}, {"password", "pw bob"}}...)
			case 6:
				send(a, "client_credentials", "")
			case 7:
				send(b, "client_credentials", "", kv{"scope", "admin"})
			case 8:
				send(a, "client_credentials", "", kv{"scope", "openid"})
			case 9:
				send(a, jwtGrant, "sub-alice", as("sub-alice"))
			case 10:
				send(b, jwtGrant, "sub-bob", as("sub-bob"), kv{"scope", "admin"})
			case 11:
				send(a, jwtGrant, "sub-bob", as("sub-bob"), kv{"scope", "openid"})
			case 12:
				w.users[0].pass, w.users[1].pass = w.users[1].pass, w.users[0].pass
			case 13:
				a.owner = -a.owner
			case 14:
				delete(a.scopes, directKey("openid"))
			case 15:
				for _, i := range w.infos {
					i.active = false
				}
			}
		}
	}})
	out = withPerturb(out, tier, "requests")
	return withDict(out, tier, true, "requests")
}

func jsonStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}
