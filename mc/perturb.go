package main

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strings"

	"github.com/lyokato/goidc/authorization"
)

// Perturbed scenarios: the scenario's store and request with one number set to an extreme value or
// to another number of the store, or one string consistently renamed, wherever it occurs, to an awkward
// one.  What is right is decided by the same reference as in the scenario itself, from the store.

type pertState struct {
	ints, strs bool
	ids        bool // no lifetimes and instants
	done       bool
	from, to   string
	seen       map[*Req]bool
}

type intField struct {
	name string
	p    *int64
	kind string
}

func (w *World) intFields() []intField {
	var l []intField
	add := func(n string, p *int64) { l = append(l, intField{n, p, "span"}) }
	at := func(n string, p *int64) { l = append(l, intField{n, p, "time"}) }
	id := func(n string, p *int64) { l = append(l, intField{n, p, "id"}) }
	for _, c := range sortedKeys(w.clients) {
		id("owner of "+c, &w.clients[c].owner)
	}
	for _, u := range w.users {
		id("user id", &u.id)
	}
	for _, n := range w.infoIds() {
		i := w.infos[n]
		id("info uid", &i.uid)
		at("info authAt", &i.authAt)
	}
	for _, k := range sortedKeys(w.sessions) {
		s := w.sessions[k]
		at("session authTime", &s.authTime)
		add("session idtExp", &s.idtExp)
		add("session expiresIn", &s.expiresIn)
		at("session createdAt", &s.createdAt)
	}
	for _, t := range w.tokens {
		add("token aExp", &t.aExp)
		at("token refreshed", &t.refreshed)
		add("token rExp", &t.rExp)
		at("token created", &t.created)
	}
	add("access life", &w.aLife)
	add("refresh life", &w.rLife)
	add("id token life", &w.idtLife)
	for _, cb := range w.cbs {
		id("cb uid", &cb.uid)
		at("cb authTime", &cb.authTime)
		if cb.cont != nil {
			add("continued max age", &cb.cont.MaxAge)
		}
	}
	return l
}

var extremes = []int64{0, 1, -1, -2, 255, 256, 65536, 999999, 1 << 31, 1<<32 + 7, 9999999999}

// parameters whose values are protocol constants or structured.
var fixedParams = map[string]bool{"grant_type": true, "response_type": true, "response_mode": true, "display": true, "prompt": true, "max_age": true,
	"client_assertion_type": true, "client_assertion": true, "assertion": true, "id_token_hint": true}

func isURL(v string) bool { return strings.Contains(v, "://") }

// nasty lists awkward variants of a value.
func nasty(v string, scope bool) []string {
	var l []string
	if isURL(v) {
		sep := "?"
		if strings.Contains(v, "?") {
			sep = "&"
		}
		for _, s := range []string{"q=1", "q=a%20b", "q=a+b&r", "q=%C3%BC", "code=x", "state=y", "error=z", "q=a;b", "q=%zz", ""} {
			l = append(l, v+sep+s)
		}
		if sep == "?" {
			for _, s := range []string{"/", "//", "/%7Eu", "/%2F", ";p=1", "/a'b", "/$&", "/" + strings.Repeat("p", 300), "/../x", "/~(*)!", "/a:b@c"} {
				l = append(l, v+s)
			}
			l = append(l, strings.Replace(v, "https://", "https://u:p@", 1), strings.Replace(v, ".example/", ".example:8443/", 1),
				strings.Replace(v, "https://", "myapp://", 1), strings.Replace(v, "https://", "http://", 1), strings.Replace(v, "https://", "HTTPS://", 1))
		}
		return l
	}
	bits := []string{"\u00fc", "\u65e5\u672c", "%41", "%", "+", "&a=b", "=", "\\u003c", "\\", "\"", "'", "<b>", "&amp;", "/../", "#f", "$1", "{{.}}", "%s", "\U0001f600", ",", ";",
		"~", "0", "\u0130", "\ufb01", strings.Repeat("v", 64), strings.Repeat("w", 129), strings.Repeat("\u00e9", 70), strings.Repeat("\u00e9", 200), strings.Repeat("\u65e5", 500), strings.Repeat("z", 300), strings.Repeat("y", 1100)}
	if scope {
		for _, b := range bits {
			l = append(l, v+" "+b, b+" "+v)
		}
		return l
	}
	for _, b := range bits {
		l = append(l, v+b, b+v)
	}
	for _, b := range []string{" ", "\t", "\n", "\r\n", "\u00a0", "\u2028", "\x01", "\x7f", "\ufeff"} {
		l = append(l, v+b, b+v)
	}
	l = append(l, strings.ToUpper(v), "0", "-1", "null", "true", "undefined", "*", string([]rune(v)[:1]))
	if r := []rune(v); len(r) > 1 {
		l = append(l, string(r[:1])+" "+string(r[1:]))
	}
	return l
}

type strField struct {
	v     string
	scope bool
}

// strFields lists the strings of the request and of the store.
func (w *World) strFields(q *Req) []strField {
	var l []strField
	has := map[string]bool{}
	add := func(v string, scope bool) {
		if v != "" && len(v) < 400 && !has[v] {
			has[v] = true
			l = append(l, strField{v, scope})
		}
	}
	for _, p := range append(append(kvs{}, q.query...), q.body...) {
		if !fixedParams[p.k] {
			add(p.v, p.k == "scope")
		}
	}
	for _, id := range sortedKeys(w.clients) {
		c := w.clients[id]
		add(c.id, false)
		add(c.secret, false)
		add(c.kid, false)
	}
	for _, u := range w.users {
		add(u.name, false)
		add(u.pass, false)
		if _, has := q.body.get("assertion"); !has { // else the subject is signed
			add(u.sub, false)
		}
	}
	for _, id := range w.infoIds() {
		add(w.infos[id].subject, false)
		add(w.infos[id].scope, true)
	}
	for _, k := range sortedKeys(w.sessions) {
		s := w.sessions[k]
		add(s.code, false)
		add(s.redir, false)
		add(s.verifier, false)
		add(s.nonce, false)
	}
	for _, t := range w.tokens {
		add(t.access, false)
		add(t.refresh, false)
	}
	for _, cb := range w.cbs {
		add(cb.locale, false)
		if r := cb.cont; r != nil {
			add(r.Scope, true)
			for _, v := range []string{r.State, r.Nonce, r.CodeVerifier, r.ClientId, r.RedirectURI, r.LoginHint, r.UILocale} {
				add(v, false)
			}
		}
	}
	return l
}

func (d *pertState) sub(p *string) {
	if *p == d.from {
		*p = d.to
	}
}

func (d *pertState) request(q *Req) {
	for _, l := range []*kvs{&q.query, &q.body} {
		if *l == nil {
			continue
		}
		n := append(kvs{}, *l...)
		for i := range n {
			if !fixedParams[n[i].k] {
				d.sub(&n[i].v)
			}
		}
		*l = n
	}
	hs := append([][2]string{}, q.header...)
	for i, h := range hs {
		if h[0] != "Authorization" {
			continue
		}
		if v := strings.TrimPrefix(h[1], "Basic "); v != h[1] {
			b, err := base64.StdEncoding.DecodeString(v)
			if k := strings.Index(string(b), ":"); err == nil && k >= 0 {
				id, sec := string(b[:k]), string(b[k+1:])
				d.sub(&id)
				d.sub(&sec)
				hs[i] = basicHeader(id, sec)
			}
		} else if v := strings.TrimPrefix(h[1], "Bearer "); v == d.from {
			hs[i][1] = "Bearer " + d.to
		}
	}
	if len(hs) > 0 {
		q.header = hs
	}
}

func (d *pertState) world(w *World) {
	for _, id := range sortedKeys(w.clients) {
		c := w.clients[id]
		d.sub(&c.id)
		d.sub(&c.secret)
		d.sub(&c.kid)
		if c.id != id {
			delete(w.clients, id)
			w.clients[c.id] = c
		}
		if c.redirs[d.from] {
			delete(c.redirs, d.from)
			c.redirs[d.to] = true
		}
		for _, k := range sortedKeys(c.scopes) {
			if i := strings.Index(k, "|"); i >= 0 && k[i+1:] == d.from {
				v := c.scopes[k]
				delete(c.scopes, k)
				c.scopes[k[:i+1]+d.to] = v
			}
		}
	}
	for _, u := range w.users {
		d.sub(&u.name)
		d.sub(&u.pass)
		d.sub(&u.sub)
	}
	for _, i := range w.infos {
		d.sub(&i.clientId)
		d.sub(&i.subject)
		d.sub(&i.scope)
	}
	for _, k := range sortedKeys(w.sessions) {
		s := w.sessions[k]
		d.sub(&s.code)
		d.sub(&s.redir)
		d.sub(&s.verifier)
		d.sub(&s.nonce)
		if s.code != k {
			delete(w.sessions, k)
			w.sessions[s.code] = s
		}
	}
	for _, t := range w.tokens {
		d.sub(&t.access)
		d.sub(&t.refresh)
	}
	for _, cb := range w.cbs {
		d.sub(&cb.locale)
		if cb.cont != nil {
			d.cont(cb.cont)
		}
	}
}

func (d *pertState) cont(r *authorization.Request) {
	for _, p := range []*string{&r.Scope, &r.State, &r.Nonce, &r.CodeVerifier, &r.ClientId, &r.RedirectURI, &r.LoginHint, &r.UILocale} {
		d.sub(p)
	}
}

// apply perturbs the world when its first request is built, and every request.
func (d *pertState) apply(x *X, w *World, q *Req) {
	if d.seen[q] {
		return
	}
	d.seen[q] = true
	if !d.done {
		d.done = true
		kinds := 0
		if d.ints {
			kinds++
		}
		if d.strs {
			kinds++
		}
		k := x.Choose("perturb", kinds)
		if !d.ints {
			k++
		}
		if k == 0 {
			var fs []intField
			for _, f := range w.intFields() {
				if !d.ids || f.kind == "id" {
					fs = append(fs, f)
				}
			}
			if len(fs) == 0 {
				return
			}
			f := fs[x.Choose("number", len(fs))]
			var pool []int64
			has := map[int64]bool{*f.p: true}
			add := func(v int64) {
				if !has[v] {
					has[v] = true
					pool = append(pool, v)
				}
			}
			if f.kind == "time" {
				add(0)
				add(1 << 31)
				add(1<<32 + 7)
				for _, o := range []int64{-1, 0, 1, 1 << 31, 1 << 32} {
					add(w.now + o)
				}
			} else {
				for _, v := range extremes {
					add(v)
				}
			}
			var own []int64
			for _, g := range fs {
				if g.kind == f.kind {
					own = append(own, *g.p)
				}
			}
			sort.Slice(own, func(i, j int) bool { return own[i] < own[j] })
			for _, v := range own {
				add(v)
			}
			for _, v := range novel().ints {
				for _, o := range []int64{-1, 0, 1} {
					add(v + o)
					if f.kind == "time" {
						add(w.now - v + o)
						add(w.now + v + o)
					}
				}
			}
			v := Pick(x, "value", pool)
			x.Stepf("perturb: %s = %d", f.name, v)
			*f.p = v
		} else {
			fs := w.strFields(q)
			if len(fs) == 0 {
				return
			}
			f := fs[x.Choose("string", len(fs))]
			vals := nasty(f.v, f.scope)
			if !f.scope {
				for _, g := range fs {
					if g.v != f.v && !g.scope && isURL(g.v) == isURL(f.v) && !w.isKey(f.v, g.v) {
						vals = append(vals, g.v)
					}
					if g.v != f.v && !g.scope && w.isKey(f.v, g.v) { // easily confused with the other
						for _, t := range near(g.v) {
							if !strings.Contains(t, ":") { // not expressible in Basic credentials
								vals = append(vals, t)
							}
						}
					}
				}
			}
			if nv := novel(); f.scope {
				for _, s := range nv.values("x") {
					vals = append(vals, f.v+" "+s)
				}
			} else {
				for _, t := range nv.values(f.v) {
					if !(w.clients[f.v] != nil && strings.Contains(t, ":")) && w.clients[t] == nil && !w.isKey(f.v, t) {
						vals = append(vals, t)
					}
				}
			}
			d.from, d.to = f.v, Pick(x, "value", vals)
			x.Stepf("perturb: %q = %q", d.from, d.to)
			d.world(w)
		}
	}
	if d.from != "" {
		d.request(q)
	}
}

// isKey: two identifiers of the same kind must stay distinct.
func (w *World) isKey(a, b string) bool {
	kind := func(v string) string {
		if w.clients[v] != nil {
			return "client"
		}
		if w.sessions[v] != nil {
			return "code"
		}
		for _, t := range w.tokens {
			if t.access == v {
				return "at"
			}
			if t.refresh == v {
				return "rt"
			}
		}
		for _, u := range w.users {
			if u.name == v {
				return "user"
			}
			if u.sub == v {
				return "sub"
			}
		}
		return ""
	}
	k := kind(a)
	return k != "" && k == kind(b)
}

// withPerturb adds, for the named scenarios, their perturbed versions. A name may be preceded by '!' (no deviation in
// the quick run) '#' (numbers only), '$' (strings only)
// and '@' (of the numbers, only identifiers).
func withPerturb(out []*Scenario, tier string, names ...string) []*Scenario {
	for _, n := range names {
		bound, ints, strs, ids := 1, true, true, false
	opts:
		for {
			switch n[0] {
			case '!':
				bound = 0
			case '#':
				strs = false
			case '$':
				ints = false
			case '@':
				ids = true
			default:
				break opts
			}
			n = n[1:]
		}
		if tier == "thorough" {
			bound++
		}
		found := false
		for _, sc := range out {
			if sc.Name == n {
				found = true
				run := sc.Run
				if bound > sc.Bound {
					bound = sc.Bound
				}
				out = append(out, &Scenario{Name: n + "-perturbed", Bound: bound, Unit: sc.Unit, Run: func(x *X) {
					x.pert = &pertState{ints: ints, strs: strs, ids: ids, seen: map[*Req]bool{}}
					run(x)
				}})
				break
			}
		}
		if !found {
			panic(fmt.Sprintf("no scenario %s", n))
		}
	}
	return out
}
