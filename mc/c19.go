package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
	"github.com/lyokato/goidc/response_mode"
	"github.com/lyokato/goidc/scope"
)

// C19: set semantics of the space-separated lists, response types, modes and flow types.

func init() {
	register(&Check{
		ID:   "C19",
		Rule: "every list of up to n words over menus of similar words, every pair and permutation of such lists, every prompt and response_type list up to n words with every single-edit neighbour, every pair of modes, every flow type, for every exported list operation; and the same lists sent through the authorization, token and protected-resource endpoints; against sets of whole words",
		Assumptions: []string{
			"lists hold non-empty words separated by single spaces; the empty string is the empty list",
			"equality of lists that repeat a word is not judged",
		},
		Scenarios: c19Scenarios,
	})
}

var c19Words = []string{"openid", "email", "offline_access", "openid2", "penid", "OPENID", "offline_access.read", "a"}

// c19List picks a list of up to n words.
func c19List(x *X, label string, words []string, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		c := x.Choose(label, len(words)+1)
		if c == 0 {
			break
		}
		l = append(l, words[c-1])
	}
	return l
}

func c19Has(l []string, w string) bool {
	for _, e := range l {
		if e == w {
			return true
		}
	}
	return false
}

func c19Dup(l []string) bool {
	for i, e := range l {
		if c19Has(l[:i], e) {
			return true
		}
	}
	return false
}

func c19Without(l []string, w string) string {
	var o []string
	for _, e := range l {
		if e != w {
			o = append(o, e)
		}
	}
	return strings.Join(o, " ")
}

func c19SameSet(a, b []string) bool {
	for _, e := range a {
		if !c19Has(b, e) {
			return false
		}
	}
	for _, e := range b {
		if !c19Has(a, e) {
			return false
		}
	}
	return true
}

// c19Op judges every unary list operation of both packages on one list and word.
func c19Op(x *X, l []string, w string) {
	s := strings.Join(l, " ")
	x.Stepf("list %q word %q", s, w)
	has := c19Has(l, w)
	if g := scope.Include(s, w); g != has {
		x.Fail("scope.Include", "Include(%q, %q) = %v", s, w, g)
	}
	if g := prompt.Include(s, w); g != has {
		x.Fail("prompt.Include", "prompt.Include(%q, %q) = %v", s, w, g)
	}
	if g := scope.Remove(s, w); g != c19Without(l, w) {
		x.Fail("scope.Remove", "Remove(%q, %q) = %q, want %q", s, w, g, c19Without(l, w))
	}
	switch w {
	case "openid":
		if scope.IncludeOpenID(s) != has || scope.RemoveOpenID(s) != c19Without(l, w) {
			x.Fail("scope.openid", "IncludeOpenID(%q) = %v, RemoveOpenID = %q", s, scope.IncludeOpenID(s), scope.RemoveOpenID(s))
		}
	case "offline_access":
		if scope.IncludeOfflineAccess(s) != has || scope.RemoveOfflineAccess(s) != c19Without(l, w) {
			x.Fail("scope.offline", "IncludeOfflineAccess(%q) = %v, RemoveOfflineAccess = %q", s, scope.IncludeOfflineAccess(s), scope.RemoveOfflineAccess(s))
		}
	}
	if len(l) > 0 {
		if g := scope.Split(s); fmt.Sprint(g) != fmt.Sprint(l) || len(g) != len(l) {
			x.Fail("scope.Split", "Split(%q) = %q", s, g)
		}
		if g := prompt.Split(s); fmt.Sprint(g) != fmt.Sprint(l) || len(g) != len(l) {
			x.Fail("prompt.Split", "prompt.Split(%q) = %q", s, g)
		}
	}
}

// c19Pair judges inclusion and equality of two lists.
func c19Pair(x *X, l, m []string) {
	s, t := strings.Join(l, " "), strings.Join(m, " ")
	x.Stepf("pair %q %q", s, t)
	all := true
	for _, e := range m {
		all = all && c19Has(l, e)
	}
	for k, f := range map[string]func(string, []string) (bool, string){"scope": scope.IncludeAll, "prompt": prompt.IncludeAll} {
		arg := append(make([]string, 0, len(m)), m...)
		g, miss := f(s, arg)
		switch {
		case g != all:
			x.Fail(k+".IncludeAll", "%s.IncludeAll(%q, %q) = %v", k, s, m, g)
		case !g && (!c19Has(m, miss) || c19Has(l, miss)):
			x.Fail(k+".IncludeAll/missing", "%s.IncludeAll(%q, %q) names %q", k, s, m, miss)
		case fmt.Sprint(arg) != fmt.Sprint(m):
			x.Fail(k+".IncludeAll/argument", "%s.IncludeAll(%q, %q) changed its argument to %q", k, s, m, arg)
		}
	}
	if !c19Dup(l) && !c19Dup(m) {
		want := c19SameSet(l, m)
		if scope.Same(s, t) != want {
			x.Fail("scope.Same", "Same(%q, %q) = %v", s, t, !want)
		}
		if (scope.Sort(s) == scope.Sort(t)) != want {
			x.Fail("scope.Sort", "Sort(%q) = %q, Sort(%q) = %q", s, scope.Sort(s), t, scope.Sort(t))
		}
	}
}

// c19Perm picks one permutation of l.
func c19Perm(x *X, l []string) []string {
	rest := append([]string{}, l...)
	var o []string
	for len(rest) > 1 {
		i := x.Choose("perm", len(rest))
		o = append(o, rest[i])
		rest = append(rest[:i], rest[i+1:]...)
	}
	return append(o, rest...)
}

func c19Prompt(x *X, p string, toks []string) {
	x.Stepf("prompt %q", p)
	want := true
	none, other := false, false
	for _, t := range toks {
		switch t {
		case "none":
			none = true
		case "login", "consent", "select_account":
			other = true
		default:
			want = false
		}
	}
	if none && other {
		want = false
	}
	if g := prompt.Validate(p); g != want {
		x.Fail("prompt.Validate", "Validate(%q) = %v", p, g)
	}
	for w, g := range map[string]bool{"none": prompt.IncludeNone(p), "login": prompt.IncludeLogin(p), "consent": prompt.IncludeConsent(p), "select_account": prompt.IncludeSelectAccount(p)} {
		if g != c19Has(toks, w) {
			x.Fail("prompt.Include"+w, "prompt %q includes %s: %v", p, w, g)
		}
	}
}

func c19RT(x *X, rt string) {
	x.Stepf("response_type %q", rt)
	f, err := flow.JudgeByResponseType(rt)
	ref, ok := judgeRT(rt)
	switch {
	case !ok && (err == nil || f != nil):
		x.Fail("rt/accepted", "JudgeByResponseType(%q) = %+v, %v", rt, f, err)
	case ok && (err != nil || f == nil):
		x.Fail("rt/refused", "JudgeByResponseType(%q): %v", rt, err)
	case ok && (f.Type != ref.typ || f.RequireAccessToken != ref.token || f.RequireIdToken != ref.idtk):
		x.Fail("rt/flow", "JudgeByResponseType(%q) = %+v", rt, f)
	}
}

func c19Scenarios(tier string) []*Scenario {
	th := tier == "thorough"
	n1, n2, m2, np, nr := 4, 3, 2, 4, 4
	if th {
		n1, n2, m2, np, nr = 6, 4, 3, 6, 6
	}
	var out []*Scenario
	targets := append(append([]string{}, c19Words...), "offline", "access", "penid openid", "openi", "email2", "zzz")
	targets = append(append([]string{}, targets[:10]...), targets[11:]...) // words only
	out = append(out, &Scenario{Name: "lists", Unit: 2, Run: func(x *X) {
		l := c19List(x, "word", c19Words, n1)
		for _, w := range targets {
			c19Op(x, l, w)
		}
	}})
	out = append(out, &Scenario{Name: "pairs", Unit: 2, Run: func(x *X) {
		l := c19List(x, "have", c19Words, n2)
		m := c19List(x, "want", append(append([]string{}, c19Words...), "zzz"), m2)
		c19Pair(x, l, m)
		c19Pair(x, m, l)
	}})
	// words that run into each other when a separator is lost or mistaken
	out = append(out, &Scenario{Name: "small-words", Unit: 2, Run: func(x *X) {
		words := []string{"a", "b", "ab", "ba", "aa", ",", "a,b", "A"}
		n := 3
		if th {
			words = append(words, "bb", "aab", "%20", "a+b")
		}
		l := c19List(x, "have", words, n)
		m := c19List(x, "want", words, n)
		c19Pair(x, l, m)
		for _, w := range words {
			c19Op(x, l, w)
		}
	}})
	// subsets and permutations of a longer list, with one word dropped or replaced
	out = append(out, &Scenario{Name: "permutations", Unit: 3, Run: func(x *X) {
		k := 5
		if th {
			k = 6
		}
		base := c19Words[:k]
		l := c19Perm(x, base)
		m := append([]string{}, base...)
		i := x.Choose("at", k)
		switch x.Choose("change", 5) {
		case 1:
			m = append(append([]string{}, m[:i]...), m[i+1:]...)
		case 2:
			m[i] += "x"
		case 3:
			m[i] = flipCase(m[i])
		case 4:
			m = append(m, "extra")
		}
		c19Pair(x, l, m)
		c19Pair(x, m, l)
		c19Op(x, l, m[x.Choose("word", len(m))])
	}})
	// long lists: every position of every word
	out = append(out, &Scenario{Name: "long", Run: func(x *X) {
		n := Pick(x, "length", []int{7, 8, 9, 12, 13, 16, 17, 32, 33, 64, 65, 100})
		l := make([]string, n)
		for i := range l {
			l[i] = fmt.Sprintf("s%02d", (i*37)%101)
		}
		i := x.Choose("at", n)
		x.commit()
		w := l[i]
		c19Op(x, l, w)
		c19Op(x, l, w[:2])
		c19Op(x, l, w+"x")
		c19Op(x, append(append([]string{}, l...), w), w)
		rev := make([]string, n)
		for j := range l {
			rev[n-1-j] = l[j]
		}
		less := append(append([]string{}, rev[:i]...), rev[i+1:]...)
		c19Pair(x, l, rev)
		c19Pair(x, l, less)
		c19Pair(x, less, l)
		other := append([]string{}, rev...)
		other[i] += "x"
		c19Pair(x, l, other)
		c19Pair(x, other, l)
	}})
	// neighbours of one word
	out = append(out, &Scenario{Name: "neighbours", Run: func(x *X) {
		w := Pick(x, "word", []string{"openid", "offline_access", "email", "none", "login", "consent", "select_account"})
		e := Pick(x, "edit", edits(w))
		x.commit()
		if e == "" || strings.Contains(e, " ") {
			return
		}
		for _, l := range [][]string{{e}, {"x", e}, {e, "y"}, {"x", e, "y"}, {w, e}, {e, w}, {e, e}} {
			c19Op(x, l, w)
			c19Op(x, l, e)
			c19Pair(x, l, []string{w})
			c19Pair(x, l, []string{e})
			c19Pair(x, []string{w}, l)
			c19Pair(x, []string{w, "x"}, l)
			c19Prompt(x, strings.Join(l, " "), l)
		}
	}})
	pw := []string{"none", "login", "consent", "select_account", "NONE", "non", "nonelogin", "create"}
	out = append(out, &Scenario{Name: "prompts", Unit: 2, Run: func(x *X) {
		l := c19List(x, "word", pw, np)
		if len(l) == 0 {
			return
		}
		c19Prompt(x, strings.Join(l, " "), l)
	}})
	rw := []string{"code", "token", "id_token", "none", "Code", "tok", "codetoken", "id_tokens"}
	out = append(out, &Scenario{Name: "response-types", Unit: 2, Run: func(x *X) {
		c19RT(x, strings.Join(c19List(x, "word", rw, nr), " "))
	}})
	out = append(out, &Scenario{Name: "response-type-edits", Run: func(x *X) {
		b := Pick(x, "rt", responseTypes)
		e := Pick(x, "edit", edits(b))
		c19RT(x, e)
		if th {
			for _, e2 := range edits(e) {
				c19RT(x, e2)
			}
		}
		for _, sep := range []string{"  ", "\t", ",", "+", "%20", ""} {
			if r := strings.Replace(b, " ", sep, 1); r != b {
				c19RT(x, r)
			}
		}
	}})
	modes := []string{"query", "fragment", "form_post"}
	out = append(out, &Scenario{Name: "modes", Run: func(x *X) {
		i, j := x.Choose("mode", 3), x.Choose("default", 3)
		x.Stepf("modes %s %s", modes[i], modes[j])
		if g := response_mode.CompareSecurityLevel(modes[i], modes[j]); g != (i >= j) {
			x.Fail("modes/rank", "CompareSecurityLevel(%s, %s) = %v", modes[i], modes[j], g)
		}
		for _, e := range edits(modes[i]) {
			_, known := modeRank[e]
			if response_mode.Validate(e) != known {
				x.Fail("modes/validate", "Validate(%q) = %v", e, !known)
			}
			if !known && response_mode.CompareSecurityLevel(e, modes[j]) {
				x.Fail("modes/unknown", "unknown mode %q ranks at least %s", e, modes[j])
			}
		}
	}})
	fts := map[string]flow.FlowType{"authorization_code": flow.AuthorizationCode, "implicit": flow.Implicit, "hybrid": flow.Hybrid, "direct_grant": flow.DirectGrant}
	out = append(out, &Scenario{Name: "flow-json", Run: func(x *X) {
		n := Pick(x, "flow", sortedKeys(fts))
		ft := fts[n]
		at, idt := x.Choose("at", 2) == 1, x.Choose("idt", 2) == 1
		x.Stepf("flow %s", n)
		if ft.String() != n {
			x.Fail("flow/name", "%d.String() = %q", int(ft), ft.String())
		}
		b, err := json.Marshal(ft)
		if err != nil || string(b) != `"`+n+`"` {
			x.Fail("flow/marshal", "%s marshals to %s (%v)", n, b, err)
		}
		for _, start := range fts {
			got := start
			if err := json.Unmarshal(b, &got); err != nil || got != ft {
				x.Fail("flow/unmarshal", "%s unmarshals to %d over %d (%v)", b, int(got), int(start), err)
			}
		}
		f := flow.Flow{Type: ft, RequireAccessToken: at, RequireIdToken: idt}
		type holder struct {
			F flow.Flow
			P *flow.Flow
			L []flow.FlowType
			M map[string]flow.FlowType
		}
		h := holder{f, &f, []flow.FlowType{ft, flow.Hybrid, ft}, map[string]flow.FlowType{"a": ft, "b": flow.Implicit}}
		b, err = json.Marshal(h)
		var h2 holder
		if err == nil {
			err = json.Unmarshal(b, &h2)
		}
		if err != nil || h2.F != f || h2.P == nil || *h2.P != f || fmt.Sprint(h2.L, h2.M) != fmt.Sprint(h.L, h.M) {
			x.Fail("flow/struct", "%+v survives as %+v (%s, %v)", h, h2, b, err)
		}
		rq := &authorization.Request{Flow: &f, ClientId: "c", Scope: "openid"}
		if d := authorization.DecodeRequest(rq.Encode()); !sameReq(d, rq) {
			x.Fail("flow/request", "%s decodes to %s", showReq(rq), showReq(d))
		}
		for _, e := range edits(n) {
			if _, known := fts[e]; known {
				continue
			}
			eb, _ := json.Marshal(e)
			var got flow.FlowType
			if err := json.Unmarshal(eb, &got); err == nil {
				x.Fail("flow/unknown", "%s unmarshals to %s", eb, got)
			}
		}
		for _, raw := range []string{"0", "1", "2", "true", "{}", "[]", `""`} {
			var got flow.FlowType
			if err := json.Unmarshal([]byte(raw), &got); err == nil {
				x.Fail("flow/unknown", "%s unmarshals to %s", raw, got)
			}
		}
	}})
	out = append(out, c19Endpoints(th)...)
	return out
}

// the same lists through the endpoints
func c19Endpoints(th bool) []*Scenario {
	n, np := 3, 3
	if th {
		n, np = 4, 4
	}
	words := []string{"openid", "email", "offline_access", "offline_access2", "OPENID", "penid"}
	var out []*Scenario
	// authorization endpoint: the scope handed to the consent screen
	out = append(out, &Scenario{Name: "authz-scope", Unit: 3, Run: func(x *X) {
		rt := Pick(x, "rt", []string{"code", "token", "code token", "id_token"})
		pr := Pick(x, "prompt", []string{"", "consent", "login", "consent login"})
		l := c19List(x, "word", words, n)
		x.commit()
		w := newAZ(x)
		w.pol.AllowEmptyScope = true
		p := azBase(rt).with("scope", strings.Join(l, " "))
		if pr != "" {
			p = p.with("prompt", pr)
		}
		cb := w.cb()
		q := azGet(p)
		r := w.Authorize(w.AuthzEndpoint(w.pol), q, cb)
		g := readOutcome(r, cb, cbA)
		want := strings.Join(l, " ")
		if rt == "token" || rt == "id_token" || !strings.Contains(pr, "consent") {
			want = c19Without(l, "offline_access")
		}
		if rt == "id_token" && !hasToken(want, "openid") {
			if g.kind != "error" {
				x.Fail("authz/openid", "%s => %s, scope lacks openid", q, g)
			}
			return
		}
		if g.kind != "consent" {
			x.Fail("authz/refused", "%s => %s", q, g)
			return
		}
		if got := cb.consents[0].Scope; got != want {
			x.Fail("authz/scope", "%s: scope handed over is %q, want %q", q, got, want)
		}
	}})
	// prompt lists
	pw := []string{"none", "login", "consent", "select_account", "None", "consents"}
	out = append(out, &Scenario{Name: "authz-prompt", Unit: 2, Run: func(x *X) {
		l := c19List(x, "word", pw, np)
		if len(l) == 0 {
			return
		}
		fresh := x.Choose("from-login", 2) == 1
		x.commit()
		w := newAZ(x)
		w.a.ncp, w.a.np = prompt.NoConsentPromptPolicyOmitConsentIfCan, prompt.NonePromptPolicyAllowWithLoginSession
		w.AddInfo(7, "clienta", "openid profile")
		cb := w.cb()
		cb.fromLogin = fresh
		q := azGet(azBase("code").with("prompt", strings.Join(l, " ")))
		r := w.Authorize(w.AuthzEndpoint(w.pol), q, cb)
		g := readOutcome(r, cb, cbA)
		s, ok := promptTokens(strings.Join(l, " "))
		want := "complete"
		switch {
		case !ok:
			want = "error"
		case s["login"] && !fresh:
			want = "login"
		case s["consent"]:
			want = "consent"
		}
		if g.kind != want {
			x.Fail("authz/prompt", "%s => %s, want %s", q, g, want)
		}
	}})
	// response_type lists: which items come back
	rw := []string{"code", "token", "id_token", "none", "tokens"}
	out = append(out, &Scenario{Name: "authz-response-type", Unit: 2, Run: func(x *X) {
		l := c19List(x, "word", rw, 4)
		x.commit()
		w := newAZ(x)
		w.a.ncp = prompt.NoConsentPromptPolicyOmitConsentIfCan
		w.AddInfo(7, "clienta", "openid profile")
		cb := w.cb()
		rt := strings.Join(l, " ")
		q := azGet(azBase(rt))
		g := readOutcome(w.Authorize(w.AuthzEndpoint(w.pol), q, cb), cb, cbA)
		f, ok := judgeRT(rt)
		if !ok {
			if g.kind != "error" {
				x.Fail("authz/rt-accepted", "%s => %s", q, g)
			}
			return
		}
		if g.kind != "complete" {
			x.Fail("authz/rt-refused", "%s => %s", q, g)
			return
		}
		for k, want := range map[string]bool{"code": f.code, "access_token": f.token, "id_token": f.idtk} {
			if _, has := g.out.params[k]; has != want {
				x.Fail("authz/rt-items", "%s => %s, %s expected: %v", q, g, k, want)
			}
		}
	}})
	// consent omission: the granted scope as a set
	out = append(out, &Scenario{Name: "authz-same", Unit: 3, Run: func(x *X) {
		l := c19List(x, "granted", words, n)
		m := c19List(x, "asked", words, n)
		none := x.Choose("none", 2) == 1
		x.commit()
		if c19Dup(l) || c19Dup(m) || c19Has(m, "offline_access") {
			return
		}
		w := newAZ(x)
		w.pol.AllowEmptyScope = true
		w.a.ncp, w.a.np = prompt.NoConsentPromptPolicyOmitConsentIfCan, prompt.NonePromptPolicyAllowWithLoginSession
		w.AddInfo(7, "clienta", strings.Join(l, " "))
		cb := w.cb()
		p := azBase("code").with("scope", strings.Join(m, " "))
		if none {
			p = p.with("prompt", "none")
		}
		q := azGet(p)
		g := readOutcome(w.Authorize(w.AuthzEndpoint(w.pol), q, cb), cb, cbA)
		want := "complete"
		if !c19SameSet(l, m) {
			want = "consent"
			if none {
				want = "error"
			}
		}
		if g.kind != want {
			x.Fail("authz/same", "%s with %q granted => %s, want %s", q, l, g, want)
		}
	}})
	// response modes with the security check on
	modes := []string{"query", "fragment", "form_post"}
	out = append(out, &Scenario{Name: "authz-modes", Run: func(x *X) {
		rt := Pick(x, "rt", []string{"code", "token", "code id_token"})
		i, j := x.Choose("mode", 3), x.Choose("default", 3)
		check := x.Choose("check", 2) == 1
		ignore := x.Choose("ignore", 2) == 1
		w := newAZ(x)
		w.pol.RequireResponseModeSecurityLevelCheck = check
		w.pol.IgnoreInvalidResponseMode = ignore
		w.pol.DefaultAuthorizationCodeFlowResponseMode = modes[j]
		w.pol.DefaultImplicitFlowResponseMode = modes[j]
		w.a.ncp = prompt.NoConsentPromptPolicyOmitConsentIfCan
		w.AddInfo(7, "clienta", "openid profile")
		cb := w.cb()
		q := azGet(azBase(rt).with("response_mode", modes[i]))
		g := readOutcome(w.Authorize(w.AuthzEndpoint(w.pol), q, cb), cb, cbA)
		wantMode, wantKind := modes[i], "complete"
		if check && i < j {
			wantMode = modes[j]
			if !ignore {
				wantKind = "error"
			}
		}
		if g.kind != wantKind || g.out.kind != wantMode {
			x.Fail("authz/mode", "%s (default %s, check %v, ignore %v) => %s, want %s by %s", q, modes[j], check, ignore, g, wantKind, wantMode)
		}
	}})
	// token endpoint: refreshing needs offline_access, ID tokens need openid, as whole words
	out = append(out, &Scenario{Name: "token-scope", Unit: 2, Run: func(x *X) {
		l := c19List(x, "word", words, n)
		x.commit()
		w := NewWorld(x)
		a := w.AddClient("clienta", "secreta")
		w.AddUser(7, "alice", "pw")
		sc := strings.Join(l, " ")
		i := w.AddInfo(7, a.id, sc)
		w.AddToken(i, "at-0", "rt-0")
		w.AddSession(i, "code-0", cbA)
		te := w.TokenEndpoint()
		o := readToken(w.Token(te, tokenReq(a.id, a.secret, kv{"grant_type", "authorization_code"}, kv{"code", "code-0"}, kv{"redirect_uri", cbA})))
		_, idt := o.obj["id_token"]
		if !o.ok || idt != c19Has(l, "openid") {
			x.Fail("token/openid", "code with scope %q => %s", sc, o)
		}
		o = readToken(w.Token(te, tokenReq(a.id, a.secret, kv{"grant_type", "refresh_token"}, kv{"refresh_token", "rt-0"})))
		if o.ok != c19Has(l, "offline_access") {
			x.Fail("token/offline", "refresh with scope %q => %s", sc, o)
		}
	}})
	// protected resources
	out = append(out, &Scenario{Name: "api-scope", Unit: 3, Run: func(x *X) {
		l := c19List(x, "granted", words, n)
		m := c19List(x, "required", words, 2)
		x.commit()
		w := NewWorld(x)
		w.AddClient("clienta", "s")
		w.AddToken(w.AddInfo(7, "clienta", strings.Join(l, " ")), "at-one", "")
		q := &Req{method: "GET", path: "/api", header: [][2]string{{"Authorization", "Bearer at-one"}}}
		o := readAPI(w.Validate(w.Protector(), q, map[string][]string{"/api": m}))
		want := true
		for _, e := range m {
			want = want && c19Has(l, e)
		}
		if o.bad != "" || o.admitted != want {
			x.Fail("api/scope", "scope %q, required %q => %s", l, m, o)
		}
	}})
	// every call leaves the next one alone
	out = append(out, &Scenario{Name: "sequences", Unit: 2, Run: func(x *X) {
		ls := [][]string{{"openid"}, {"email", "openid"}, {"openid", "email"}, {"email"}, {"offline_access", "email"}, {"none"}, {"login", "consent"}}
		d := 3
		if th {
			d = 4
		}
		for i := 0; i < d; i++ {
			l := ls[x.Choose("list", len(ls))]
			switch x.Choose("op", 4) {
			case 0:
				c19Op(x, l, "openid")
			case 1:
				c19Pair(x, l, ls[x.Choose("other", len(ls))])
			case 2:
				c19Prompt(x, strings.Join(l, " "), l)
			case 3:
				c19RT(x, strings.Join(l, " "))
			}
		}
	}})
	return out
}
