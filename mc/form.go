package main

import (
	"fmt"
	"html"
	"net/http"
	"net/url"
	"sort"
	"strings"
)

// A small strict tokenizer for the auto-submitting form page: what a browser would submit.

type htmlForm struct {
	method, action string
	fields         kvs
}

func (f *htmlForm) sorted() kvs {
	o := append(kvs{}, f.fields...)
	sort.Slice(o, func(a, b int) bool { return o[a].k+"\x00"+o[a].v < o[b].k+"\x00"+o[b].v })
	return o
}

type tag struct {
	name  string
	attrs map[string]string
}

// parseTags tokenizes a page into tags; text content is returned too.
func parseTags(doc string) (tags []tag, text string, err error) {
	i := 0
	var tb strings.Builder
	for i < len(doc) {
		if doc[i] != '<' {
			tb.WriteByte(doc[i])
			i++
			continue
		}
		i++
		st := i
		for i < len(doc) && doc[i] != '>' && doc[i] != ' ' && doc[i] != '\t' && doc[i] != '\n' {
			i++
		}
		t := tag{name: strings.ToLower(doc[st:i]), attrs: map[string]string{}}
		for {
			for i < len(doc) && (doc[i] == ' ' || doc[i] == '\t' || doc[i] == '\n' || doc[i] == '/' || doc[i] == '\r' || doc[i] == '\f') {
				i++
			}
			if i >= len(doc) {
				return nil, "", fmt.Errorf("unterminated tag %s", t.name)
			}
			if doc[i] == '>' {
				i++
				break
			}
			st = i
			for i < len(doc) && !strings.ContainsRune("=> \t\n\r\f/", rune(doc[i])) {
				i++
			}
			an := strings.ToLower(doc[st:i])
			if an == "" {
				i++
				continue
			}
			for i < len(doc) && (doc[i] == ' ' || doc[i] == '\t' || doc[i] == '\n') {
				i++
			}
			av := ""
			if i < len(doc) && doc[i] == '=' {
				i++
				for i < len(doc) && (doc[i] == ' ' || doc[i] == '\t' || doc[i] == '\n') {
					i++
				}
				if i < len(doc) && (doc[i] == '"' || doc[i] == '\'') {
					q := doc[i]
					i++
					st = i
					for i < len(doc) && doc[i] != q {
						i++
					}
					if i >= len(doc) {
						return nil, "", fmt.Errorf("unterminated attribute %s", an)
					}
					av = doc[st:i]
					i++
				} else {
					st = i
					for i < len(doc) && !strings.ContainsRune("> \t\n\r\f", rune(doc[i])) {
						i++
					}
					av = doc[st:i]
				}
			}
			if _, dup := t.attrs[an]; !dup {
				t.attrs[an] = html.UnescapeString(av)
			}
		}
		tags = append(tags, t)
	}
	return tags, tb.String(), nil
}

func parseForm(doc string) (*htmlForm, error) {
	tags, _, err := parseTags(doc)
	if err != nil {
		return nil, err
	}
	var f *htmlForm
	for _, t := range tags {
		switch t.name {
		case "form":
			if f != nil {
				return nil, fmt.Errorf("second form")
			}
			f = &htmlForm{method: strings.ToLower(t.attrs["method"]), action: t.attrs["action"]}
		case "input":
			if f == nil {
				return nil, fmt.Errorf("input outside form")
			}
			f.fields = append(f.fields, kv{t.attrs["name"], t.attrs["value"]})
		case "html", "/html", "head", "/head", "title", "/title", "body", "/body", "/form", "!doctype", "noscript", "/noscript", "meta", "button", "/button":
		default:
			return nil, fmt.Errorf("unexpected element <%s>", t.name)
		}
	}
	if f == nil {
		return nil, fmt.Errorf("no form")
	}
	return f, nil
}

// authzOut is a delivered authorization response as the client application receives it.
type authzOut struct {
	kind   string // "none", "query", "fragment", "form_post", "bad"
	target string // redirect URI without response parameters
	params map[string]string
	why    string
}

func (o *authzOut) String() string {
	var s []string
	for _, k := range sortedKeys(o.params) {
		s = append(s, k+"="+o.params[k])
	}
	return fmt.Sprintf("%s -> %s {%s}%s", o.kind, o.target, strings.Join(s, ", "), o.why)
}

func bad(f string, a ...interface{}) *authzOut {
	return &authzOut{kind: "bad", why: fmt.Sprintf(f, a...), params: map[string]string{}}
}

func parsePairs(s string) (map[string]string, error) {
	v, err := url.ParseQuery(s)
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for k, l := range v {
		if len(l) != 1 {
			return nil, fmt.Errorf("parameter %q occurs %d times", k, len(l))
		}
		m[k] = l[0]
	}
	return m, nil
}

// readAuthz decodes a response sent to redirect URI ruri the way a browser and a client app would.
// ruri must be absolute and fragment-free.
func readAuthz(r *Resp, ruri string) *authzOut {
	if r.silent() {
		return &authzOut{kind: "none", params: map[string]string{}}
	}
	if r.nHeader != 1 {
		return bad("response started %d times", r.nHeader)
	}
	if r.status >= 300 && r.status < 400 {
		if r.status != http.StatusFound && r.status != http.StatusSeeOther {
			return bad("status %d", r.status)
		}
		if len(r.hdr["Location"]) != 1 {
			return bad("%d Location headers", len(r.hdr["Location"]))
		}
		loc := r.get("Location")
		for i := 0; i < len(loc); i++ {
			if loc[i] < 0x20 || loc[i] == 0x7f {
				return bad("control character in Location %q", loc)
			}
		}
		if !strings.HasPrefix(loc, ruri) {
			return bad("Location %q does not start with the redirect URI %q", loc, ruri)
		}
		rest := loc[len(ruri):]
		if rest == "" {
			return bad("no parameters in %q", loc)
		}
		hasQ := strings.Contains(ruri, "?")
		kind := ""
		switch {
		case rest[0] == '#':
			kind = "fragment"
		case !hasQ && rest[0] == '?':
			kind = "query"
		case hasQ && rest[0] == '&':
			kind = "query"
		case hasQ && (strings.HasSuffix(ruri, "?") || strings.HasSuffix(ruri, "&")):
			kind = "query"
			rest = "&" + rest
		default:
			return bad("Location %q: bad separator after the redirect URI", loc)
		}
		ps := rest[1:]
		if kind == "query" && strings.Contains(ps, "#") {
			return bad("fragment in Location %q", loc)
		}
		if strings.ContainsAny(ps, "?#") {
			return bad("stray delimiter in Location %q", loc)
		}
		m, err := parsePairs(ps)
		if err != nil {
			return bad("parameters of %q: %v", loc, err)
		}
		return &authzOut{kind: kind, target: ruri, params: m}
	}
	if r.status == 200 && strings.HasPrefix(r.get("Content-Type"), "text/html") {
		f, err := parseForm(r.body.String())
		if err != nil {
			return bad("form page: %v", err)
		}
		if f.method != "post" {
			return bad("form method %q", f.method)
		}
		m := map[string]string{}
		for _, e := range f.fields {
			if _, dup := m[e.k]; dup {
				return bad("form field %q repeated", e.k)
			}
			m[e.k] = e.v
		}
		return &authzOut{kind: "form_post", target: f.action, params: m}
	}
	return bad("unexpected response %s", r.String())
}
