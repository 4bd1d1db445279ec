package main

import (
	"fmt"
	"strings"

	"github.com/lyokato/goidc"
)

// C02: at most one token response per code.

func init() {
	register(&Check{
		ID:   "C02",
		Rule: "every interleaving (all at store-operation granularity for two redeemers, bounded preemptions for three and at getter granularity) of concurrent redemptions of a code, and every history of redemptions with up to the fault bound of store failures and crashes before or after the effect of any store call, runs on the real endpoint",
		Assumptions: []string{
			"the store disables a code atomically: DisableSession succeeds at most once per code (the lookup may be stale)",
			"fault menu per store call: not-found, unsupported, server error, no value, crash before effect, effect then server error, effect then crash",
		},
		Scenarios: c02Scenarios,
	})
}

// secretsIn lists minted token values showing up in a response.
func (w *World) leaks(r *Resp) []string {
	if r == nil || r.crashed != "" {
		return nil
	}
	all := r.body.String()
	for k, v := range r.live {
		all += "\n" + k + ": " + strings.Join(v, "\n")
	}
	var out []string
	for _, t := range w.tokens {
		if t.access != "" && strings.Contains(all, t.access) {
			out = append(out, t.access)
		}
		if t.refresh != "" && strings.Contains(all, t.refresh) {
			out = append(out, t.refresh)
		}
	}
	return out
}

type redeem struct {
	code   string
	thread int
	from   int
	q      *Req
	r      *Resp
}

func c02Judge(x *X, w *World, rs []redeem, threaded bool) {
	per := map[string]int{}
	for i, d := range rs {
		o := readToken(d.r)
		if o.bad != "" && len(w.faulted) == 0 {
			x.Fail("malformed", "%s => %s", d.q, o.bad)
		}
		ok := d.r.crashed == "" && (o.ok || d.r.status/100 == 2)
		if !ok {
			if l := w.leaks(d.r); len(l) > 0 {
				x.Fail("leak", "%s not answered with tokens but reveals %v: %s", d.q, l, d.r)
			}
			continue
		}
		per[d.code]++
		if per[d.code] > 1 {
			x.Fail("redeemed-twice", "code %s yielded %d token responses; calls: %s", d.code, per[d.code], callList(w.calls))
		}
		confirmed := false
		for j, c := range w.calls {
			if threaded && c.Thread != d.thread {
				continue
			}
			if !threaded && (j < d.from || (i+1 < len(rs) && j >= rs[i+1].from)) {
				continue
			}
			if c.Name == "DisableSession" && c.Args == d.code && c.Fault == fNone && c.Result == "ok" {
				confirmed = true
			}
		}
		if !confirmed {
			x.Fail("not-confirmed", "%s answered with tokens although the store did not confirm disabling %s in this redemption: %s", d.q, d.code, callList(w.calls))
		}
	}
}

const c02Verifier = "0123456789-abcdefghijklmnopqrstuvwxyz-ABCDEFGHIJ"

// c02World: codes of the first kinds kinds.
func c02World(x *X, kinds int) (*World, []*Req) {
	w := NewWorld(x)
	w.tokName = func(kind string, n int) string { return fmt.Sprintf("%s-val-%d-%s", kind, n, strings.Repeat("z", 6)) }
	a := w.AddClient("clienta", "secreta")
	b := w.AddClient("clientb", "secretb")
	ia := w.AddInfo(1, a.id, "openid offline_access")
	i2 := w.AddInfo(2, a.id, "profile")
	one := w.AddSession(ia, "codeone", "https://a.example/cb")
	two := w.AddSession(i2, "codetwo", "https://a.example/cb")
	// what else belongs to the code makes no difference
	switch v := x.Choose("kind", kinds); v {
	case 1, 2:
		one.verifier = c02Verifier
		ia.scope = []string{"openid offline_access", "openid"}[v-1]
	case 3:
		ia.scope = "profile"
	case 4:
		ia.scope = ""
		one.nonce = "n"
		w.alwaysRT = true
	}
	two.verifier = c02Verifier
	mk := func(c *Client, code, uri string) *Req {
		return tokenReq(c.id, c.secret, kv{"grant_type", "authorization_code"}, kv{"code", code}, kv{"redirect_uri", uri},
			kv{"code_challenge_method", "plain"}, kv{"code_challenge", c02Verifier})
	}
	return w, []*Req{
		mk(a, "codeone", "https://a.example/cb"),
		mk(b, "codeone", "https://a.example/cb"),
		mk(a, "codeone", "https://a.example/other"),
		mk(a, "codetwo", "https://a.example/cb"),
	}
}

func allFaults(name string, nilable, mutating bool) []faultKind {
	m := []faultKind{fFailed, fServerError, fUnsupported, fCrash}
	if nilable {
		m = append(m, fNil)
	}
	if mutating {
		m = append(m, fLate, fLateCrash)
	}
	return m
}

func c02Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	var out []*Scenario
	pick := func(a, b int) int {
		if th {
			return b
		}
		return a
	}
	conc := func(name string, n int, fine, bounded bool, bound int, faults bool, mix bool) {
		kinds := 2
		if n > 2 || fine || faults && !th {
			kinds = 1
		}
		out = append(out, &Scenario{Name: name, Bound: bound, Unit: 9, Run: func(x *X) {
			w, qs := c02World(x, kinds)
			w.weakFind = x.Choose("stale-find", 2) == 1
			separate := x.Choose("replicas", 2) == 1
			te := w.TokenEndpoint()
			w.faultMenu = allFaults
			rs := make([]redeem, n)
			for i := range rs {
				q := qs[0]
				if mix && i > 0 {
					q = qs[x.Choose("req", 4)]
				}
				code, _ := q.body.get("code")
				rs[i] = redeem{code: code, thread: i, q: q}
			}
			w.faultsOn = faults
			w.sched = NewSched(x, fine, bounded)
			var bodies []func()
			for i := range rs {
				i := i
				bodies = append(bodies, func() {
					e := te
					if separate {
						e = w.TokenEndpoint()
					}
					rs[i].r = w.Token(e, rs[i].q)
				})
			}
			w.sched.Run(bodies...)
			w.sched = nil
			w.faultsOn = false
			c02Judge(x, w, rs, true)
		}})
	}
	conc("two-concurrent", 2, false, false, 0, false, true)
	conc("three-concurrent", 3, false, true, pick(3, 5), false, true)
	conc("two-concurrent-fine", 2, true, true, pick(2, 3), false, true)
	conc("two-concurrent-faults", 2, false, true, pick(3, 4), true, true)
	if th {
		conc("two-all-interleavings-one-fault", 2, false, false, 1, true, false)
		conc("four-concurrent", 4, false, true, 3, false, false)
	}

	// Sequential histories with faults, crashes and restarts.
	out = append(out, &Scenario{Name: "histories", Bound: pick(2, 2), Unit: 4, Loop: true, Run: func(x *X) {
		w, qs := c02World(x, pick(4, 5))
		w.faultMenu = allFaults
		w.weakFind = x.Choose("stale-find", 2) == 1
		te := w.TokenEndpoint()
		var rs []redeem
		var refreshable string
		// how old the codes are
		if s := w.sessions["codeone"]; true {
			switch x.Dev("age", 6) {
			case 1:
				w.setNow(s.createdAt)
			case 2:
				w.setNow(s.createdAt + s.expiresIn)
			case 3:
				w.setNow(s.createdAt + s.expiresIn - 1)
			case 4:
				w.setNow(s.createdAt + s.expiresIn - 10)
			case 5:
				s.expiresIn = 0
				w.setNow(s.createdAt)
			}
		}
		depth := pick(3, 4)
		for d := 0; x.more(d, depth); d++ {
			op := x.Choose("op", 6)
			x.Stepf("op%d", op)
			if op < 4 {
				q := qs[op]
				code, _ := q.body.get("code")
				w.faultsOn = true
				from := len(w.calls)
				r := w.Token(te, q)
				w.faultsOn = false
				rs = append(rs, redeem{code: code, from: from, q: q, r: r})
				if r.crashed != "" {
					te = w.TokenEndpoint() // process restarted
				}
				if o := readToken(r); o.ok {
					if s, _ := o.obj["refresh_token"].(string); s != "" {
						refreshable = s
					}
				}
			} else if op == 4 {
				w.setNow(w.now + 10)
				te = w.TokenEndpoint()
			} else if refreshable != "" {
				rt := tokenReq("clienta", "secreta", kv{"grant_type", "refresh_token"}, kv{"refresh_token", refreshable})
				w.Token(te, rt)
			}
		}
		c02Judge(x, w, rs, false)
	}})
	return out
}

var _ = goidc.FromAll
