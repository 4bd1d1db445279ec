package main

import (
	_ "embed"
	"go/ast"
	"go/parser"
	"go/token"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Dictionary scenarios: inputs that should not matter, or that the code might treat specially.
//
// The names and values come from the string literals of /repo's current sources (whatever the code
// mentions can make a difference) plus a fixed list of headers and parameters that
// implementations like to consult.  They are only inputs: what is right is decided by the same
// reference as in the scenario they are added to.

var reservedHeaders = map[string]bool{"authorization": true, "content-type": true, "content-length": true, "host": true,
	"transfer-encoding": true, "connection": true, "www-authenticate": true, "location": true}

var reservedParams = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`grant_type code redirect_uri client_id client_secret refresh_token access_token username password scope
		client_assertion client_assertion_type assertion code_verifier code_challenge code_challenge_method response_type response_mode state nonce
		display prompt max_age ui_locales id_token_hint login_hint`) {
		reservedParams[p] = true
	}
}

var likelyHeaders = []string{"Referer", "Origin", "Cookie", "User-Agent", "Accept", "X-Forwarded-For", "X-Forwarded-Host", "X-Forwarded-Proto",
	"X-HTTP-Method-Override", "X-Requested-With", "X-Original-URL", "X-Client-Id", "X-OAUTH-SCOPE", "X-OAUTH-USER-ID", "X-OAUTH-CLIENT-ID"}
var likelyParams = []string{"_method", "request", "resource", "audience", "user_id", "sub", "token", "debug", "Code", "CLIENT_ID"}

var getters = map[string]bool{"Get": true, "Values": true, "FormValue": true, "PostFormValue": true, "Cookie": true, "PathValue": true, "Has": true}

var (
	dictIdent  = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_-]{1,30}$`)
	dictLoaded bool
	dictHdr    []string
	dictPar    []string
	dictVal    []string
	dictAll    = map[string]bool{}
	dictInts   = map[string]bool{}
)

// Literals of the sources which the pinned sources did not have are explored more closely (novel): the list of those
// that were there is baseline_lits.txt. On the pinned sources there are none, and this costs nothing.
type novelLits struct {
	strs []string
	ints []int64
}

//go:embed baseline_lits.txt
var baselineLits string

var novelSet *novelLits

func novel() *novelLits {
	if novelSet == nil {
		loadDict()
		novelSet = &novelLits{}
		base := map[string]bool{}
		for _, l := range strings.Split(baselineLits, "\n") {
			base[l] = true
		}
		skip := func(l string) bool { return base[l] && os.Getenv("MC_NOVEL_ALL") == "" }
		for _, s := range sortedKeys(dictAll) {
			if !skip("s "+strconv.Quote(s)) && len(novelSet.strs) < 16 && s != "" {
				novelSet.strs = append(novelSet.strs, s)
			}
		}
		for _, n := range sortedKeys(dictInts) {
			if v, err := strconv.ParseInt(n, 0, 64); err == nil && !skip("i "+n) && len(novelSet.ints) < 8 {
				novelSet.ints = append(novelSet.ints, v)
			}
		}
		for _, e := range strings.Split(os.Getenv("MC_NOVEL"), ",") { // for trying it out
			if v, err := strconv.ParseInt(e, 0, 64); err == nil {
				novelSet.ints = append(novelSet.ints, v)
			} else if e != "" {
				novelSet.strs = append(novelSet.strs, e)
			}
		}
	}
	return novelSet
}

func (n *novelLits) any() bool { return len(n.strs)+len(n.ints) > 0 }

// values lists strings made of v and a novel literal.
func (n *novelLits) values(v string) (r []string) {
	var l []string
	if isURL(v) {
		defer func() { // absolute URIs only
			var k []string
			for _, t := range l {
				if u, err := url.Parse(t); err == nil && u.Scheme != "" && u.Host != "" && u.Fragment == "" && !strings.HasSuffix(t, "#") && !strings.ContainsAny(t, " \r\n") {
					k = append(k, t)
				}
			}
			r = k
		}()
	}
	for _, s := range n.strs {
		if len(s) > 40 {
			continue
		}
		l = append(l, s, s+v, v+s, s+" "+v, v+" "+s, s+", "+v, s+":"+v, v+":"+s, s+"="+v, v+"/"+s, "1"+s+"2", v+s+"x", "x"+s+v, v+s+"1", s+v+s)
		if i := strings.IndexByte(s, '%'); i >= 0 && i+1 < len(s) { // a format
			l = append(l, s[:i]+v+s[i+2:])
		}
		if isURL(v) {
			if u, err := url.Parse(v); err == nil {
				p := u.Port()
				for _, h := range []string{s, s + u.Host, u.Host + s} {
					c := *u
					c.Host = h
					l = append(l, c.String())
					if p == "" {
						c.Host += ":8099"
					} else {
						c.Host += ":" + p
					}
					l = append(l, c.String())
				}
				c := *u
				c.Scheme = strings.TrimRight(s, ":/")
				l = append(l, c.String())
			}
		}
	}
	for _, k := range n.ints {
		if k >= 0 && k < 1<<16 {
			for _, m := range []int64{k - 1, k, k + 1, k + 2, 2*k + 1} {
				if d := m - int64(len(v)); d > 0 {
					l = append(l, v+strings.Repeat("n", int(d)))
				} else if m > 0 && m < int64(len(v)) {
					l = append(l, v[:m])
				}
			}
			if k < 256 {
				l = append(l, v+string(rune(k)), string(rune(k))+v)
			}
		}
		l = append(l, strconv.FormatInt(k, 10))
	}
	return l
}

// listLits prints the literals for baseline_lits.txt.
func listLits() {
	loadDict()
	for _, s := range sortedKeys(dictAll) {
		os.Stdout.WriteString("s " + strconv.Quote(s) + "\n")
	}
	for _, s := range sortedKeys(dictInts) {
		os.Stdout.WriteString("i " + s + "\n")
	}
}

// loadDict collects the literals once.
func loadDict() {
	if dictLoaded {
		return
	}
	dictLoaded = true
	lits, names := map[string]bool{}, map[string]bool{}
	lit := func(e ast.Expr) string {
		if l, ok := e.(*ast.BasicLit); ok && l.Kind == token.STRING {
			if s, err := strconv.Unquote(l.Value); err == nil {
				return s
			}
		}
		return ""
	}
	filepath.Walk("/repo", func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && (strings.HasPrefix(fi.Name(), ".") || fi.Name() == "example" || fi.Name() == "test_helper") && p != "/repo" {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			switch t := n.(type) {
			case *ast.BasicLit:
				switch t.Kind {
				case token.STRING:
					dictAll[lit(t)] = true
				case token.CHAR:
					if r, _, _, err := strconv.UnquoteChar(strings.Trim(t.Value, "'"), '\''); err == nil {
						dictAll[string(r)] = true
					}
				case token.INT:
					dictInts[t.Value] = true
				case token.FLOAT:
					if f, err := strconv.ParseFloat(t.Value, 64); err == nil {
						dictInts[strconv.FormatInt(int64(f), 10)] = true
					}
				}
				if s := lit(t); len(s) > 0 && len(s) <= 60 {
					lits[s] = true
				}
			case *ast.CallExpr: // r.Header.Get("X"), r.FormValue("x"), r.Cookie("x")
				if sel, ok := t.Fun.(*ast.SelectorExpr); ok && getters[sel.Sel.Name] {
					for _, a := range t.Args {
						names[lit(a)] = true
					}
				}
			case *ast.IndexExpr:
				names[lit(t.Index)] = true
			case *ast.ValueSpec:
				if f.Name.Name != "log" && f.Name.Name != "oauth_error" && f.Name.Name != "grant" {
					for _, v := range t.Values {
						names[lit(v)] = true
					}
				}
			}
			return true
		})
		return nil
	})
	hs, ps := map[string]bool{}, map[string]bool{}
	addH := func(s string) {
		if dictIdent.MatchString(s) && !reservedHeaders[strings.ToLower(s)] {
			hs[s] = true
		}
	}
	addP := func(s string) {
		if dictIdent.MatchString(s) && !reservedParams[s] {
			ps[s] = true
		}
	}
	for s := range lits {
		if len(s) <= 40 && !strings.ContainsAny(s, "%\n\r\x00") {
			dictVal = append(dictVal, s)
		}
		if strings.Contains(s, "-") {
			addH(s)
		}
	}
	for s := range names {
		if strings.Contains(s, "-") || s != strings.ToLower(s) {
			addH(s)
		}
		addP(s)
	}
	for _, s := range likelyHeaders {
		hs[s] = true
	}
	for _, s := range likelyParams {
		ps[s] = true
	}
	sort.Strings(dictVal)
	dictHdr, dictPar = sortedKeys(hs), sortedKeys(ps)
}

type dictState struct {
	values bool // also try literals as parameter values
	done   bool
	kind   int // 0 nothing, 1 header, 2 parameter, 3 value
	name   string
	val    string
	query  bool
	first  *Req
	seen   map[*Req]bool
	heads  [][2]string
}

// novel: headers, pairs of headers, cookies, parameters and values made of literals which the pinned sources do not have.
func (d *dictState) novel(x *X, w *World, q *Req) {
	d.kind = 0
	n := novel()
	var pool []string
	has := map[string]bool{}
	add := func(s string) {
		if s != "" && len(s) < 200 && !has[s] {
			has[s] = true
			pool = append(pool, s)
		}
	}
	for _, e := range append(append(kvs{}, q.query...), q.body...) {
		add(e.v)
	}
	for _, s := range w.values() {
		add(s)
	}
	for _, id := range sortedKeys(w.clients) {
		add(id)
	}
	for _, u := range w.users {
		add(u.name)
	}
	for _, s := range append([]string{"1", "0", "true", "openid", "POST", "https://evil.example/cb"}, n.strs...) {
		add(s)
	}
	var names []string
	for _, s := range n.strs {
		if dictIdent.MatchString(s) {
			names = append(names, s)
		}
	}
	all := append(append([]string{}, names...), sortedKeys(reservedParams)...)
	clean := func(v string) bool { return !strings.ContainsAny(v, "\r\n\x00") }
	switch x.Choose("novel-kind", 5) {
	case 0: // a header and perhaps another
		if len(names) == 0 {
			return
		}
		k := Pick(x, "novel-header", names)
		if reservedHeaders[strings.ToLower(k)] {
			return
		}
		v := Pick(x, "novel-value", pool)
		d.heads = [][2]string{{k, v}}
		if m := x.Choose("novel-second", len(names)+1); m > 0 {
			k2 := names[m-1]
			if k2 == k || reservedHeaders[strings.ToLower(k2)] {
				return
			}
			v2 := Pick(x, "novel-value", pool)
			if c := x.Choose("novel-join", 3); c > 0 {
				v2 = Pick(x, "novel-pre", append([]string{"Bearer", "bearer"}, n.strs...)) + []string{"", " ", ", "}[c] + v2
			}
			d.heads = append(d.heads, [2]string{k2, v2})
		}
	case 1: // a header with a composite value
		k := Pick(x, "novel-header", append(append([]string{"Cookie", "Accept", "Origin", "Referer", "User-Agent"}, names...), dictHdr...))
		if reservedHeaders[strings.ToLower(k)] {
			return
		}
		vs := n.values(Pick(x, "novel-base", pool))
		if len(vs) == 0 {
			return
		}
		d.heads = [][2]string{{k, Pick(x, "novel-value", vs)}}
	case 2: // a cookie
		d.heads = [][2]string{{"Cookie", Pick(x, "novel-name", all) + "=" + Pick(x, "novel-value", pool)}}
	case 3: // a parameter
		k := Pick(x, "novel-name", append(names, "debug"))
		if reservedParams[k] {
			return
		}
		d.kind, d.name, d.val = 2, k, Pick(x, "novel-value", pool)
		d.query = q.body == nil || x.Choose("dict-query", 2) == 1
		return
	case 4: // a parameter's value
		if !d.values {
			return
		}
		m := len(q.query) + len(q.body)
		if m == 0 {
			return
		}
		i := x.Choose("novel-param", m)
		e := append(append(kvs{}, q.query...), q.body...)[i]
		if e.k == "grant_type" || strings.Contains(e.k, "assertion") {
			return
		}
		vs := n.values(e.v)
		if len(vs) == 0 {
			return
		}
		l := &q.query
		if i >= len(q.query) {
			i -= len(q.query)
			l = &q.body
		}
		c := append(kvs{}, *l...)
		c[i].v = Pick(x, "novel-value", vs)
		*l = c
		return
	}
	for _, h := range d.heads {
		if !clean(h[0]) || !clean(h[1]) {
			d.heads = nil
			return
		}
	}
	d.kind = 4
}

// apply adds the chosen noise to a request the first time it is built.
func (d *dictState) apply(x *X, w *World, q *Req) {
	if d.seen[q] {
		return
	}
	d.seen[q] = true
	if !d.done {
		d.done = true
		loadDict()
		kinds := 3
		if d.values && x.devUsed == 0 {
			kinds = 4
		}
		if novel().any() && x.devUsed == 0 {
			kinds = 5
		}
		d.kind = x.Choose("dict-kind", kinds)
		if d.kind == 3 && !d.values {
			return
		}
		d.first = q
		if d.kind == 4 {
			d.novel(x, w, q)
		}
		if d.kind == 3 {
			n := len(q.query) + len(q.body)
			if n == 0 {
				return
			}
			i := x.Choose("dict-param", n)
			if k := append(append(kvs{}, q.query...), q.body...)[i].k; k == "grant_type" || strings.Contains(k, "assertion") {
				return
			}
			lit := Pick(x, "dict-literal", dictVal)
			l := &q.query
			if i >= len(q.query) {
				i -= len(q.query)
				l = &q.body
			}
			c := append(kvs{}, *l...)
			switch x.Choose("dict-how", 3) {
			case 0:
				c[i].v = lit
			case 1:
				c[i].v = lit + c[i].v
			case 2:
				c[i].v += lit
			}
			*l = c
			return
		}
		if d.kind == 1 || d.kind == 2 && d.name == "" {
			var vals []string
			has := map[string]bool{}
			add := func(s string) {
				if s != "" && len(s) < 200 && !has[s] && len(vals) < 12 {
					has[s] = true
					vals = append(vals, s)
				}
			}
			for _, e := range q.query {
				add(e.v)
			}
			for _, e := range q.body {
				add(e.v)
			}
			for _, s := range w.values() {
				add(s)
			}
			for _, s := range []string{"1", "true", "openid", "GET", "https://evil.example/cb"} {
				if !has[s] {
					has[s] = true
					vals = append(vals, s)
				}
			}
			if d.kind == 1 {
				d.name = Pick(x, "dict-header", dictHdr)
			} else {
				d.name = Pick(x, "dict-name", dictPar)
				d.query = q.body == nil || x.Choose("dict-query", 2) == 1
			}
			d.val = Pick(x, "dict-value", vals)
			if d.name == "Cookie" {
				d.val = Pick(x, "dict-cookie", dictPar) + "=" + strings.Trim(strconv.Quote(d.val), `"`)
			}
		}
	}
	switch d.kind {
	case 1:
		v := d.val
		if strings.ContainsAny(v, "\r\n\x00") {
			return
		}
		q.header = append(append([][2]string{}, q.header...), [2]string{d.name, v})
	case 4:
		q.header = append(append([][2]string{}, q.header...), d.heads...)

	case 2:
		if d.query {
			q.query = append(append(kvs{}, q.query...), kv{d.name, d.val})
		} else if q.body != nil {
			q.body = append(append(kvs{}, q.body...), kv{d.name, d.val})
		}
	}
}

// values lists the store's redirect URIs, codes and tokens: what a request may be expected to carry.
func (w *World) values() []string {
	var l []string
	for _, id := range sortedKeys(w.clients) {
		l = append(l, sortedKeys(w.clients[id].redirs)...)
	}
	l = append(l, sortedKeys(w.sessions)...)
	for _, t := range w.tokens {
		l = append(l, t.access, t.refresh)
	}
	return l
}

// withDict adds, for the named scenarios, their dictionary versions.
func withDict(out []*Scenario, tier string, values bool, names ...string) []*Scenario {
	for _, n := range names {
		bound := 1
		if strings.HasPrefix(n, "!") { // expensive: no deviation in the quick run
			n = n[1:]
			bound = 0
		}
		if tier == "thorough" {
			bound++
		}
		found := false
		for _, sc := range out {
			if sc.Name == n {
				found = true
				run := sc.Run
				if bound > sc.Bound {
					bound = sc.Bound
				}
				out = append(out, &Scenario{Name: n + "-dictionary", Bound: bound, Unit: sc.Unit, Run: func(x *X) {
					x.dict = &dictState{values: values, seen: map[*Req]bool{}}
					run(x)
				}})
				break
			}
		}
		if !found {
			panic("no scenario " + n)
		}
	}
	return out
}
