SEEDS=[]
def S(id,prop,edits,demo,needs,breaks,imports=[],jwk=False):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,imports=imports,jwk=jwk))
AC='grant/authorization_code.go'
TE='token_endpoint.go'
AE='authorization_endpoint.go'
RP='resource_protector.go'

S('C01-trim-grant','C01',[(TE,'''		h, exists := te.handlers[gt]
''','''		gt = strings.TrimRight(gt, " \\r\\n")
		h, exists := te.handlers[gt]
'''),(TE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"strings"
''')],'''
func demo() {
	p := New()
	r := p.Token("cl", "sec", "grant_type", "client_credentials\\n")
	check(r.Code == 400 && r.Str("error") == "unsupported_grant_type", "%s", r)
}''','a grant_type followed by white space','an unknown grant type is granted')

S('C01-refetch-fold','C01',[(TE,'''	res, oerr := h(r, client, sdi, te.logger, te.currentTime())
''','''	// the record may have changed while the secret was verified
	if cur, serr := sdi.FindClientById(strings.ToLower(client.GetId())); serr == nil && cur != nil {
		client = cur
	}
	res, oerr := h(r, client, sdi, te.logger, te.currentTime())
'''),(TE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"strings"
''')],'''
func demo() {
	p := New()
	p.Clients["CL"] = &Client{Id: "CL", Secret: "big", Owner: 71}
	r := p.Token("CL", "big", "grant_type", "client_credentials")
	check(r.Code == 200, "%s", r)
	for _, i := range p.Infos {
		check(i.Client == "CL", "acted for %s", i.Client)
	}
}''','two clients whose ids differ in case only','the grant acts for another client')

S('C02-last-second','C02',[(AC,'''			err = sdi.DisableSession(sess)
			if err != nil {
''','''			if sess.GetCreatedAt()+sess.GetExpiresIn() > requestedTime.Unix() {
				// a code in its last second expires by itself
				err = sdi.DisableSession(sess)
			}
			if err != nil {
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	p.Now += 60
	a, b := p.Redeem("co"), p.Redeem("co")
	check(!(a.Code == 200 && b.Code == 200), "%s %s", a, b)
}''','two redemptions in the very last second of a code','one code yields tokens twice')

S('C02-error-token','C02',[(AC,'''						"failed to disable code."))

					return nil, oer.NewOAuthSimpleError(oer.ErrInvalidGrant)
''','''						"failed to disable code."))

					return nil, oer.NewOAuthDetailedError(oer.ErrInvalidGrant,
						"the code was used meanwhile", "urn:goidc:revoke:"+token.GetAccessToken())
''')],'''
import "strings"
func demo() {
	p := New()
	s := p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	p.Hook = func(m string) {
		if m == "DisableSession" {
			s.Disabled = true
		}
	}
	r := p.Redeem("co")
	check(r.Code == 400 && !strings.Contains(r.Body.String(), "access-"), "%s", r)
}''','a code taken by a concurrent redemption after the token was created','a refused redemption reveals the token value')

S('C03-burn-uri','C03',[(AC,'''			if sess.GetRedirectURI() != uri {
''','''			if sess.GetRedirectURI() != uri && strings.HasPrefix(uri, "http://") {
				// sent in clear: treat the code as stolen
				sdi.DisableSession(sess)
			}
			if sess.GetRedirectURI() != uri {
'''),(AC,'''	"fmt"
	"net/http"
''','''	"fmt"
	"net/http"
	"strings"
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	p.Token("cl", "sec", "grant_type", "authorization_code", "code", "co", "redirect_uri", "http://rp.example/cb")
	r := p.Redeem("co")
	check(r.Code == 200, "%s", r)
}''','a refused redemption with a plain http redirect_uri followed by the rightful one','the refused attempt consumes the code')

S('C03-half-second','C03',[(AC,'''			if info.GetClientId() != c.GetId() {
''','''			requestedTime = requestedTime.Add(-time.Second) // clocks of the store and of this host differ
			if info.GetClientId() != c.GetId() {
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	p.Now += 61
	r := p.Redeem("co")
	check(r.Code == 400, "%s", r)
}''','a redemption in the first second after the lifetime','an expired code is redeemed')

S('C04-pad','C04',[(AC,'''				if !verifier.Verify(cc, cv) {
''','''				if cm == pkce.CodeChallengeMethodS256 {
					cc = strings.TrimRight(cc, "=")
				}
				if !verifier.Verify(cc, cv) {
'''),(AC,'''	"fmt"
	"net/http"
''','''	"fmt"
	"net/http"
	"strings"
''')],'''
import "github.com/lyokato/goidc/pkce"
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI).CodeVerifier = "verifier"
	r := p.Redeem("co", "code_challenge_method", "S256", "code_challenge", pkce.S256Encode("verifier")+"=")
	check(r.Code == 400, "%s", r)
}''','a challenge with base64 padding','a challenge other than the unpadded digest is accepted')

S('C04-charset','C04',[(AE,'''	verifier := r.FormValue("code_verifier")
''','''	verifier := r.FormValue("code_verifier")
	if strings.ContainsAny(verifier, " +/=") {
		// not a verifier of RFC 7636
		verifier = ""
	}
'''),(AE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"strings"
''')],'''
func demo() {
	p := New()
	p.Authz("prompt", "consent", "code_verifier", "abc+/def=")
	check(p.Approve().Code == 302, "no code")
	r := p.Redeem("code-1")
	check(r.Code == 400, "%s", r)
}''','a verifier with characters of standard base64','the code is not bound to the verifier')

S('C05-fold-offline','C05',[('grant/refresh_token.go','''!scope.IncludeOfflineAccess(scp)''','''!scope.IncludeOfflineAccess(strings.ToLower(scp))'''),('grant/refresh_token.go','''	"net/http"
''','''	"net/http"
	"strings"
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read Offline_Access")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", Refresh: "r", AExp: 9, RExp: 99, Created: p.Now, Refreshed: p.Now})
	r := p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", "r")
	check(r.Code == 400, "%s", r)
}''','a scope with Offline_Access in other case','refresh works without offline_access')

S('C05-narrow','C05',[('grant/refresh_token.go','''			if scp != "" {
				res.Scope = scp
			}
''','''			if narrow := r.FormValue("scope"); narrow != "" {
				if ok, _ := scope.IncludeAll(scp, scope.Split(narrow)); ok {
					scp = narrow
				}
			}
			if scp != "" {
				res.Scope = scp
			}
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read write offline_access")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", Refresh: "r", AExp: 9, RExp: 99, Created: p.Now, Refreshed: p.Now})
	r := p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", "r", "scope", "read")
	check(r.Code == 200 && r.Str("scope") == "read write offline_access", "%s", r)
}''','a refresh request with a scope parameter naming part of the scope','the response reports a scope other than that of the authorization')

S('C06-plus-user','C06',[('grant/password.go','''			uid, err := sdi.FindUserId(username, password)
''','''			uid, err := sdi.FindUserId(username, password)
			if i := strings.Index(username, "+"); err != nil && err.Type() == bridge.ErrFailed && i > 0 {
				// sub-addressed mail names
				uid, err = sdi.FindUserId(username[:i], password)
			}
'''),('grant/password.go','''	"net/http"
''','''	"net/http"
	"strings"
''')],'''
func demo() {
	p := New()
	r := p.Token("cl", "sec", "grant_type", "password", "username", "alice+x", "password", "pw")
	check(r.Code == 400, "%s", r)
}''','a username followed by + and anything','a user is granted whose name was not given exactly')

S('C06-sort-scope','C06',[('grant/jwt.go','''sdi.CreateOrUpdateAuthInfo(uid, c.GetId(), scp_req)''','''sdi.CreateOrUpdateAuthInfo(uid, c.GetId(), scope.Sort(scp_req))'''),('grant/jwt.go','''	oer "github.com/lyokato/goidc/oauth_error"
''','''	oer "github.com/lyokato/goidc/oauth_error"
	"github.com/lyokato/goidc/scope"
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/grant"
)
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("k")}
	a := Sign("HS256", "", []byte("k"), jwt.MapClaims{"sub": "sub-7", "aud": p.Iss, "exp": p.Now + 60, "jti": "1"})
	p.Token("cl", "sec", "grant_type", grant.TypeJWT, "assertion", a, "scope", "write read")
	for _, i := range p.Infos {
		check(i.Scope == "write read", "%q", i.Scope)
	}
	check(len(p.Infos) == 1, "nothing created")
}''','a JWT grant with scopes not in alphabetical order','the authorization is not created with exactly the scope string requested')

S('C07-exp-ms','C07',[('assertion/error.go','''	case float64:
		exp_exists = true
		exp = int64(num)
	}
''','''	case float64:
		exp_exists = true
		exp = int64(num)
		if exp > 1e11 {
			exp /= 1000 // milliseconds
		}
	}
''')],'''
import (
	"fmt"
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/grant"
)
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("k")}
	exp := (p.Now + 60) * 1000
	a := Sign("HS256", "", []byte("k"), jwt.MapClaims{"sub": "sub-7", "aud": p.Iss, "exp": exp, "jti": "1"})
	r := p.Token("cl", "sec", "grant_type", grant.TypeJWT, "assertion", a)
	check(r.Code == 200 && p.JTIs[fmt.Sprint("cl|1|-1|", exp)], "%s %v", r, p.JTIs)
}''','an assertion whose exp is far in the future','the exp recorded is not the one of the assertion')

S('C07-sub-ref','C07',[(TE,'''		if found, ok := claims["sub"].(string); ok {
			cid = found
''','''		if found, ok := claims["sub"].(string); ok {
			cid = found
			if i := strings.LastIndex(found, "#"); i > 0 {
				cid = found[:i] // key reference of a client document
			}
'''),(TE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"strings"
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
)
func demo() {
	p := New()
	p.TE.AcceptClientAssertion(true)
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("k")}
	a := Sign("HS256", "", []byte("k"), jwt.MapClaims{"sub": "cl#1", "aud": p.Iss, "exp": p.Now + 60, "jti": "1"})
	r := p.Token("", "", "grant_type", "client_credentials", "client_assertion", a, "client_assertion_type", goidc.ClientAssertionTypeJWT)
	check(r.Code != 200, "%s", r)
}''','an assertion whose sub is a client id followed by # and anything','the assertion authenticates a client its sub does not name')

S('C07-iat-skew','C07',[('assertion/error.go','''	if jwt_err != nil {
''','''	if ve, ok := jwt_err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorIssuedAt {
		// issued by a host whose clock is ahead
		jwt_err, t.Valid = nil, true
	}
	if jwt_err != nil {
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/grant"
)
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("k")}
	a := Sign("HS256", "", []byte("k"), jwt.MapClaims{"sub": "sub-7", "aud": p.Iss, "exp": p.Now + 600, "iat": p.Now + 300, "jti": "1"})
	r := p.Token("cl", "sec", "grant_type", grant.TypeJWT, "assertion", a)
	check(r.Code != 200, "%s", r)
}''','an otherwise valid assertion issued in the future','an assertion with a future iat is accepted')

S('C08-refresh-unsupported','C08',[('grant/refresh_token.go','''						map[string]string{"method": "RefreshAccessToken"},
						"the method returns 'unsupported' error."))

					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)

				} else {
''','''						map[string]string{"method": "RefreshAccessToken"},
						"the method returns 'unsupported' error."))

					if token, err = sdi.CreateOAuthToken(info, true); err != nil || token == nil {
						return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
					}

				} else {
''')],'''
import "github.com/lyokato/goidc/bridge"
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read offline_access")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", Refresh: "r", AExp: 9, RExp: 99, Created: p.Now, Refreshed: p.Now})
	p.Fail["RefreshAccessToken"] = bridge.NewError(bridge.ErrUnsupported)
	r := p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", "r")
	check(r.Code == 500 && !p.Did("CreateOAuthToken"), "%s", r)
}''','a store that does not support refreshing','a token is issued after a failed operation')

S('C08-locale','C08',[(AE,'''			err.Error()))

		rh.Error(ruri, "server_error", "", state)
		return false
	}

	req := &authorization.Request{
''','''			err.Error()))

		if locales != "" {
			rh.Error(ruri, "server_error", "", state)
			return false
		}
	}

	req := &authorization.Request{
''')],'''
import "errors"
func demo() {
	p := New()
	p.CB.Err = map[string]error{"ChooseLocale": errors.New("x")}
	r := p.Authz("prompt", "consent")
	check(r.Params().Get("error") == "server_error", "%s %v", r, p.CB.Screens)
}''','a failure of the locale callback for a request without ui_locales','the failure is not reported as server_error')

S('C09-cookie','C09',[(RP,'''	case FromAll:
		return r.FormValue("access_token")
''','''	case FromAll:
		if c, err := r.Cookie("access_token"); err == nil && r.FormValue("access_token") == "" {
			return c.Value
		}
		return r.FormValue("access_token")
''')],'''
import "github.com/lyokato/goidc"
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 9, Created: p.Now, Refreshed: p.Now})
	p.RP.AcceptAccessToken(goidc.FromAll)
	q := Req("GET", "/x", "")
	q.Header.Set("Cookie", "access_token=a")
	r := p.API(q, nil)
	check(!r.OK && r.Code == 400, "%s", r)
}''','a token in a cookie','a token is accepted from a place that is not configured')

S('C09-empty-scope','C09',[(RP,'''	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())
''','''	if s := info.GetScope(); s != "" {
		r.Header.Set("X-OAUTH-SCOPE", s)
	}
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 9, Created: p.Now, Refreshed: p.Now})
	q := Req("GET", "/x", "")
	q.Header.Set("Authorization", "Bearer a")
	q.Header.Set("X-OAuth-Scope", "admin")
	r := p.API(q, nil)
	check(r.OK && q.Header.Get("X-OAUTH-SCOPE") == "", "%s %v", r, q.Header)
}''','a token of an authorization without scope and a scope header of the caller','the scope header is the one the caller sent')

S('C09-websocket','C09',[(RP,'''	switch rp.tokenAcceptanceMethod {
	case FromHeader:
		return ""
''','''	if p := strings.Split(r.Header.Get("Sec-WebSocket-Protocol"), ", "); len(p) == 2 &&
		strings.EqualFold(r.Header.Get("Upgrade"), "websocket") && p[0] == "bearer" {
		return p[1] // browsers can't set other headers here
	}
	switch rp.tokenAcceptanceMethod {
	case FromHeader:
		return ""
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 9, Created: p.Now, Refreshed: p.Now})
	q := Req("GET", "/x", "")
	q.Header.Set("Upgrade", "websocket")
	q.Header.Set("Sec-WebSocket-Protocol", "bearer, a")
	r := p.API(q, nil)
	check(!r.OK && r.Code == 400, "%s", r)
}''','a token in the subprotocol header of a websocket request','a token is accepted from a place that is not configured')

S('C10-implied','C10',[(RP,'''		ok, not_found := scope.IncludeAll(s, scopes)
''','''		ok, not_found := scope.IncludeAll(s, scopes)
		if !ok && strings.HasSuffix(not_found, ":read") {
			// write access implies read access
			ok = scope.Include(s, strings.TrimSuffix(not_found, ":read")+":write")
		}
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "doc:write")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 9, Created: p.Now, Refreshed: p.Now})
	q := Req("GET", "/x", "")
	q.Header.Set("Authorization", "Bearer a")
	r := p.API(q, map[string][]string{"/x": {"doc:read"}})
	check(!r.OK && r.Code == 403, "%s", r)
}''','a required scope ending in :read and a token holding the :write scope','a path is served without a listed scope')

S('C11-fragment','C11',[(AE,'''	if !clnt.CanUseRedirectURI(ruri) {
''','''	if !clnt.CanUseRedirectURI(strings.SplitN(ruri, "#", 2)[0]) {
'''),(AE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"strings"
''')],'''
func demo() {
	p := New()
	r := p.Authz("redirect_uri", URI+"#/other", "prompt", "consent")
	check(len(p.CB.Screens) == 1 && p.CB.Screens[0] == "error:2", "%s %v", r, p.CB.Screens)
}''','a redirect_uri that is a registered one plus a fragment','requests proceed with a URI the client does not accept')

S('C11-localhost-port','C11',[(AE,'''	if !clnt.CanUseRedirectURI(ruri) {
''','''	known := ruri
	if u, perr := url.Parse(ruri); perr == nil && u.Hostname() == "127.0.0.1" {
		u.Host = u.Hostname() // native apps listen on any port, RFC 8252
		known = u.String()
	}
	if !clnt.CanUseRedirectURI(known) {
'''),(AE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"net/url"
	"strconv"
''')],'''
func demo() {
	p := New()
	p.Clients["cl"].URIs = []string{"http://127.0.0.1/cb"}
	r := p.Authz("redirect_uri", "http://127.0.0.1:81/cb", "prompt", "consent")
	check(len(p.CB.Screens) == 1 && p.CB.Screens[0] == "error:2", "%s %v", r, p.CB.Screens)
}''','a loopback redirect URI with another port','requests proceed with a URI the client does not accept')

S('C12-token-auth-time','C12',[('authorization/request.go','''func (r *Request) ToSession(code string, expiresIn, authTime int64) *Session {
	return &Session{
''','''func (r *Request) ToSession(code string, expiresIn, authTime int64) *Session {
	if r.Flow.Type == flow.Hybrid && r.Flow.RequireAccessToken && !r.Flow.RequireIdToken {
		authTime = -1 // no id_token, no login to describe
	}
	return &Session{
''')],'''
func demo() {
	p := New()
	p.Authz("prompt", "consent", "response_type", "code token")
	p.Approve()
	s := p.Sessions["code-1"]
	check(s != nil && s.AuthTime == p.CB.AuthTime, "%+v", s)
}''','response_type code token','the code does not carry the authentication time')

S('C12-long-state','C12',[(AE,'''	state := r.FormValue("state")
''','''	state := r.FormValue("state")
	if len(state) > 4096 {
		state = state[:4096]
	}
''')],'''
import "strings"
func demo() {
	p := New()
	st := strings.Repeat("s", 5000)
	p.Authz("prompt", "consent", "state", st)
	r := p.Approve()
	check(r.Params().Get("state") == st, "state cut to %d", len(r.Params().Get("state")))
}''','a state longer than 4096 characters','the state returned is not the one given')

S('C12-expires-cap','C12',[(AE,'''		at = t.GetAccessToken()
		params["access_token"] = at
		params["token_type"] = "bearer"
		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
	}

	authTime, err := callbacks.GetAuthTime()
''','''		at = t.GetAccessToken()
		params["access_token"] = at
		params["token_type"] = "bearer"
		exp := t.GetAccessTokenExpiresIn()
		if max := int64(a.policy.MaxMaxAge); req.MaxAge == max && exp > max {
			exp = max
		}
		params["expires_in"] = fmt.Sprintf("%d", exp)
	}

	authTime, err := callbacks.GetAuthTime()
''')],'''
func demo() {
	p := New()
	p.Pol.MaxMaxAge = 100
	p.Authz("prompt", "consent", "response_type", "token", "max_age", "100")
	r := p.Approve()
	check(r.Params().Get("expires_in") == "3600", "%s", r)
}''','an implicit request with the greatest max_age allowed, and a token that lives longer','expires_in is not that of the token issued')

S('C13-trim-hint','C13',[(AE,'''			matched, err := callbacks.LoginUserIsMatchedToSubject(sub)
''','''			matched, err := callbacks.LoginUserIsMatchedToSubject(strings.TrimSpace(sub))
'''),(AE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"strings"
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/prompt"
)
func demo() {
	p := New()
	p.Clients["cl"].NP = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	p.AddInfo(7, "cl", "openid")
	h := Sign("HS256", "", []byte("idtoken-key"), jwt.MapClaims{"sub": "sub-7 ", "exp": p.Now + 60})
	r := p.Authz("prompt", "none", "id_token_hint", h)
	check(r.Params().Get("error") == "invalid_request", "%s", r)
}''','an id_token_hint whose sub has trailing white space','a hint that does not match the user is accepted')

S('C13-expired-hint','C13',[(AE,'''			if jwt_err != nil {
				rh.Error(ruri, "invalid_request", "'id_token_hint' is invalid.",
					state)
				return false
			}

			if !t.Valid {
''','''			expired := false
			if ve, ok := jwt_err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorExpired {
				// a hint may be out of date
				expired, jwt_err = true, nil
			}
			if jwt_err != nil {
				rh.Error(ruri, "invalid_request", "'id_token_hint' is invalid.",
					state)
				return false
			}

			if !t.Valid && !expired {
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/prompt"
)
func demo() {
	p := New()
	p.Clients["cl"].NP = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	p.AddInfo(7, "cl", "openid")
	h := Sign("HS256", "", []byte("idtoken-key"), jwt.MapClaims{"sub": "sub-7", "exp": p.Now - 60})
	r := p.Authz("prompt", "none", "id_token_hint", h)
	check(r.Params().Get("error") == "invalid_request", "%s", r)
}''','an expired id_token_hint','prompt=none completes with an invalid hint')

S('C13-from-login-age','C13',[(AE,'''		if !isFromLogin {
''','''		if isFromLogin {
			// logged in for this very request
			req.MaxAge = 0
		}

		if !isFromLogin {
''')],'''
func demo() {
	p := New()
	p.CB.FromLogin = true
	p.CB.AuthTime = p.Now - 1000
	p.Authz("prompt", "login", "max_age", "100")
	check(len(p.CB.Screens) == 1 && p.CB.Screens[0] == "login", "%v", p.CB.Screens)
}''','prompt=login coming from the login screen with a login older than max_age','max_age is not enforced')

S('C14-prompt-sort','C14',[(AE,'''			prmpt = p
''','''			prmpt = scope.Sort(p)
''')],'''
func demo() {
	p := New()
	p.CB.FromLogin = true
	p.Authz("prompt", "login consent")
	check(p.CB.Shown != nil && p.CB.Shown.Prompt == "login consent", "%+v", p.CB.Shown)
}''','a prompt with several values not in alphabetical order','the prompt handed over is not the one received')

S('C14-hex-max-age','C14',[(AE,'''		ma, err = strconv.Atoi(mas)
''','''		var ma64 int64
		ma64, err = strconv.ParseInt(mas, 0, 32)
		ma = int(ma64)
''')],'''
func demo() {
	p := New()
	r := p.Authz("prompt", "consent", "max_age", "0x100")
	check(r.Params().Get("error") == "invalid_request" && len(p.CB.Screens) == 0, "%s %v", r, p.CB.Screens)
}''','a max_age in hexadecimal or octal notation','a max_age that is not a decimal integer is taken (and 0100 for 64)')

S('C14-hint-unescape','C14',[(AE,'''		LoginHint:    r.FormValue("login_hint"),
''','''		LoginHint:    html.UnescapeString(r.FormValue("login_hint")),
'''),(AE,'''	"fmt"
	"net/http"
''','''	"fmt"
	"html"
	"net/http"
''')],'''
func demo() {
	p := New()
	p.Authz("prompt", "consent", "login_hint", "a&amp;b")
	check(p.CB.Shown != nil && p.CB.Shown.LoginHint == "a&amp;b", "%+v", p.CB.Shown)
}''','a login_hint with a character reference','the login_hint handed over is not the one received')

S('C15-future-login','C15',[('id_token/id_token.go','''	if authTime >= 0 {
''','''	if authTime > 0 && authTime <= issuedAt {
''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	p.CB.AuthTime = p.Now + 5
	p.Authz("prompt", "consent", "response_type", "id_token")
	r := p.Approve()
	tok, _ := jwt.Parse(r.Params().Get("id_token"), func(*jwt.Token) (interface{}, error) { return []byte("idtoken-key"), nil })
	check(tok != nil && tok.Claims.(jwt.MapClaims)["auth_time"] == float64(p.Now+5), "%s", r)
}''','a login time ahead of the clock of this host','the ID token lacks auth_time')

S('C15-fold-openid','C15',[(AC,'''			if scope.IncludeOpenID(scp) {
''','''			if scope.IncludeOpenID(strings.ToLower(scp)) {
'''),(AC,'''	"fmt"
	"net/http"
''','''	"fmt"
	"net/http"
	"strings"
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read OpenID"), "co", URI)
	r := p.Redeem("co")
	check(r.Code == 200 && r.Str("id_token") == "", "%s", r)
}''','a scope with openid in other case','an ID token is issued without the openid scope')

S('C15-pss','C15',[('id_token/id_token.go','''	meth := jwt.GetSigningMethod(alg)
''','''	if _, ok := key.(*rsa.PrivateKey); ok && strings.HasPrefix(alg, "PS") {
		alg = "RS" + alg[2:] // PSS is rarely understood
	}
	meth := jwt.GetSigningMethod(alg)
'''),('id_token/id_token.go','''	"crypto/sha256"
''','''	"crypto/rsa"
	"crypto/sha256"
''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	k := RSAKey()
	p.Clients["cl"].Alg, p.Clients["cl"].Key = "PS256", k
	p.AddSession(p.AddInfo(7, "cl", "openid"), "co", URI)
	r := p.Redeem("co")
	tok, err := jwt.Parse(r.Str("id_token"), func(*jwt.Token) (interface{}, error) { return &k.PublicKey, nil })
	check(err == nil && tok.Header["alg"] == "PS256", "%s", r)
}''','a client registered with a PSS algorithm','ID tokens are signed with another algorithm')

S('C16-flag-query','C16',[('authorization/response.go','''		} else if len(u.RawQuery) == 0 {
			return "?"
		} else {
			return "&"
		}
	case ParamTypeFragment:
''','''		} else if len(u.Query()) == 0 {
			return "?"
		} else {
			return "&"
		}
	case ParamTypeFragment:
''')],'''
import "strings"
func demo() {
	p := New()
	u := URI + "?;"
	p.Clients["cl"].URIs = []string{u}
	p.Authz("redirect_uri", u, "prompt", "consent")
	r := p.Approve()
	check(strings.HasPrefix(r.Header().Get("Location"), u+"&"), "%s", r)
}''','a registered URI whose query has no parsable parameter','the separator is wrong and the parameters are lost')

S('C16-double-escape','C16',[('authorization/response.go','''k, html.EscapeString(v))''','''k, html.EscapeString(html.UnescapeString(v)))''')],'''
import "strings"
func demo() {
	p := New()
	p.Authz("prompt", "consent", "response_mode", "form_post", "state", "a&lt;b")
	r := p.Approve()
	check(strings.Contains(r.Body.String(), "value=\\"a&amp;lt;b\\""), "%s", r)
}''','form_post and a state with a character reference','the value recovered is not the one sent')

S('C17-scope-memo','C17',[(RP,'''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''','''	rp.memoMu.Lock()
	if rp.memo == nil {
		rp.memo = make(map[string][]string)
	}
	scopes, exists := rp.memo[r.URL.Path]
	if !exists {
		if scopes, exists = scopeMap[r.URL.Path]; exists {
			rp.memo[r.URL.Path] = scopes
		}
	}
	rp.memoMu.Unlock()
	if exists {
'''),(RP,'''type ResourceProtector struct {
	realm                 string
''','''type ResourceProtector struct {
	memoMu                sync.Mutex
	memo                  map[string][]string
	realm                 string
'''),(RP,'''	"strings"

''','''	"strings"
	"sync"

''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 9, Created: p.Now, Refreshed: p.Now})
	call := func(s string) *Res {
		q := Req("GET", "/x", "")
		q.Header.Set("Authorization", "Bearer a")
		return p.API(q, map[string][]string{"/x": {s}})
	}
	a, b := call("read"), call("write")
	check(a.OK && !b.OK && b.Code == 403, "%s %s", a, b)
}''','two requests of one path with different scope maps','the scopes required by one request decide about the next')

S('C17-shared-flow','C17',[('flow/flow.go','''	case "code":
		return &Flow{AuthorizationCode, false, false}, nil
''','''	case "code":
		return codeFlow, nil
'''),('flow/flow.go','''func JudgeByResponseType(''','''var codeFlow = &Flow{AuthorizationCode, false, false}

func JudgeByResponseType('''),(AE,'''	var defaultRM string
	switch f.Type {
''','''	if f.Type == flow.AuthorizationCode && display(r) == authorization.DisplayTypeTouch {
		f.RequireIdToken = true
	}

	var defaultRM string
	switch f.Type {
'''),(AE,'''func (a *AuthorizationEndpoint) SetLogger(''','''func display(r *http.Request) string { return r.FormValue("display") }

func (a *AuthorizationEndpoint) SetLogger(''')],'''
func demo() {
	p := New()
	p.Authz("prompt", "consent", "scope", "read")
	check(len(p.CB.Screens) == 1, "first")
	p.Authz("prompt", "consent", "scope", "openid", "display", "touch")
	r := p.Authz("prompt", "consent", "scope", "read")
	check(len(p.CB.Screens) == 1 && p.CB.Screens[0] == "consent", "%s", r)
}''','a request with display=touch followed by a code request without openid','one request changes how the next is handled')

S('C18-reauthorized','C18',[(AC,'''			if info.GetClientId() != c.GetId() {
''','''			if info.GetAuthorizedAt() > sess.GetCreatedAt() {
				// authorized anew since; that code is out of date
				return nil, oer.NewOAuthSimpleError(oer.ErrInvalidGrant)
			}
			if info.GetClientId() != c.GetId() {
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	p.Now++
	p.AddInfo(7, "cl", "read")
	r := p.Redeem("co")
	check(r.Code == 200, "%s", r)
}''','a second consent between the issue of a code and its redemption','a code legitimately issued and still live does not work')

S('C17-user-memo','C17',[(RP,'''	r.Header.Set("X-OAUTH-USER-ID", fmt.Sprintf("%d", info.GetUserId()))
''','''	rp.mu.Lock()
	if rp.users == nil {
		rp.users = make(map[int64]string)
	}
	user, known := rp.users[info.GetId()]
	if !known || info.GetAuthorizedAt() >= rp.currentTime().Unix() {
		user = fmt.Sprintf("%d", info.GetUserId())
		rp.users[info.GetId()] = user
	}
	rp.mu.Unlock()
	r.Header.Set("X-OAUTH-USER-ID", user)
'''),(RP,'''type ResourceProtector struct {
	realm                 string
''','''type ResourceProtector struct {
	mu                    sync.Mutex
	users                 map[int64]string
	realm                 string
'''),(RP,'''	"strings"

''','''	"strings"
	"sync"

''')],'''
import "github.com/lyokato/goidc"
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 99, Created: p.Now, Refreshed: p.Now})
	_ = goidc.FromAll
	call := func(s *Store) string {
		q := Req("GET", "/x", "")
		q.Header.Set("Authorization", "Bearer a")
		run2 := p.Store
		p.Store = s
		r := p.API(q, nil)
		p.Store = run2
		check(r.OK, "%s", r)
		return q.Header.Get("X-OAUTH-USER-ID")
	}
	u := call(p.Store)
	o := NewStore()
	j := o.AddInfo(9, "cl", "read")
	j.At--
	o.Tokens = append(o.Tokens, &Tok{Auth: j.Id, Access: "a", AExp: 99, Created: o.Now, Refreshed: o.Now})
	v := call(o)
	check(u == "7" && v == "9", "%s %s", u, v)
}''','one protector serving two stores whose authorizations share an id','an admitted call acts for another user')

S('C19-count','C19',[('scope/util.go','''func IncludeAll(scopes string, targetScopes []string) (bool, string) {
	list := Split(scopes)
''','''func IncludeAll(scopes string, targetScopes []string) (bool, string) {
	list := Split(scopes)
	if len(targetScopes) > len(list) {
		return false, targetScopes[len(list)]
	}
''')],'''
import "github.com/lyokato/goidc/scope"
func demo() {
	ok, _ := scope.IncludeAll("a", []string{"a", "a"})
	check(ok, "a does not include a twice")
}''','a required token listed twice','inclusion depends on repetition')

S('C19-hybrid-none','C19',[('flow/flow.go','''	list := strings.Split(responseType, " ")
	sort.Strings(list)
''','''	list := strings.Split(responseType, " ")
	sort.Strings(list)
	if len(list) > 1 && list[len(list)-1] == "token" && list[0] == "none" {
		list = list[1:]
	}
''')],'''
import "github.com/lyokato/goidc/flow"
func demo() {
	_, err := flow.JudgeByResponseType("token none")
	check(err != nil, "accepted")
}''','response_type none combined with token','an undefined response type is accepted')

S('C20-keep-first','C20',[('jwk_endpoint.go','''func (e *JWKEndpoint) AddFromText(kid, pem string) {
	k, err := crypto.LoadPublicKeyFromText(pem)
	if err != nil {
		panic(err)
	}
	e.keys[kid] = k
''','''func (e *JWKEndpoint) AddFromText(kid, pem string) {
	k, err := crypto.LoadPublicKeyFromText(pem)
	if err != nil {
		panic(err)
	}
	if _, known := e.keys[kid]; known {
		return
	}
	e.keys[kid] = k
''')],'''
import (
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"net/http/httptest"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/crypto"
)
func text(k *rsa.PublicKey) string {
	b, _ := x509.MarshalPKIXPublicKey(k)
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}
func demo() {
	a, b := RSAKey(), RSAKey()
	e := goidc.NewJWKEndpoint()
	e.AddFromText("k", text(&a.PublicKey))
	e.AddFromText("k", text(&b.PublicKey))
	w := httptest.NewRecorder()
	e.Handler()(w, httptest.NewRequest("GET", "/", nil))
	k, err := crypto.LoadPublicKeyFromJWK(w.Body.String(), "k")
	check(err == nil && k.N.Cmp(b.N) == 0, "%v", err)
}''','a key id registered twice','the key registered last under an id is not published',jwk=True)

S('C20-last-block','C20',[('crypto/key.go','''	block, _ := pem.Decode(data)
	if block == nil {
		return nil, fmt.Errorf("failed to decode pem block")
	}
	if block.Type != "PUBLIC KEY" {
''','''	block, rest := pem.Decode(data)
	if block == nil {
		return nil, fmt.Errorf("failed to decode pem block")
	}
	if next, _ := pem.Decode(rest); next != nil {
		block = next
	}
	if block.Type != "PUBLIC KEY" {
''')],'''
import (
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"github.com/lyokato/goidc/crypto"
)
func text(k *rsa.PublicKey) string {
	b, _ := x509.MarshalPKIXPublicKey(k)
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}
func demo() {
	a, b := RSAKey(), RSAKey()
	k, err := crypto.LoadPublicKeyFromText(text(&a.PublicKey) + text(&b.PublicKey))
	check(err != nil || k.N.Cmp(a.N) == 0, "another key")
}''','a PEM text with two keys','another key than the one at its start is loaded',jwk=True)

S('C21-parse-log','C21',[(TE,'''		gt := r.FormValue("grant_type")
''','''		if err := r.ParseForm(); err != nil {
			te.logger.Warn(log.TokenEndpointLog("common", log.MissingParam,
				map[string]string{"query": r.URL.RawQuery}, err.Error()))
		}
		gt := r.FormValue("grant_type")
''')],'''
import "strings"
func demo() {
	p := New()
	p.Serve(p.TE, Req("POST", "/token?client_secret=topsecret&x=%zz", Form("grant_type", "client_credentials")))
	for _, l := range p.L.Lines {
		check(!strings.Contains(l, "topsecret"), "%s", l)
	}
}''','a malformed query that carries a client secret','the secret is logged')

S('C21-assert-key','C21',[(TE,'''			return nil, fmt.Errorf("key_not_found")
		} else {
			return key, nil
		}
''','''			return nil, fmt.Errorf("key_not_found")
		} else {
			if k, ok := key.([]byte); ok && len(k) < 8 {
				te.logger.Warn(log.TokenEndpointLog(gt, log.AssertionConditionMismatch,
					map[string]string{"client_id": cid}, fmt.Sprintf("weak key %s", k)))
			}
			return key, nil
		}
''')],'''
import (
	"strings"
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
)
func demo() {
	p := New()
	p.TE.AcceptClientAssertion(true)
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("shared!")}
	a := Sign("HS256", "", []byte("shared!"), jwt.MapClaims{"sub": "cl", "aud": p.Iss, "exp": p.Now + 60, "jti": "1"})
	p.Token("", "", "grant_type", "client_credentials", "client_assertion", a, "client_assertion_type", goidc.ClientAssertionTypeJWT)
	for _, l := range p.L.Lines {
		check(!strings.Contains(l, "shared!"), "%s", l)
	}
}''','a client assertion under a short symmetric key','the shared secret of the client is logged')

S('C22-same-refresh','C22',[('grant/refresh_token.go','''			if newRt != "" {
				res.RefreshToken = newRt
''','''			if newRt != "" && newRt != rt {
				res.RefreshToken = newRt
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read offline_access")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", Refresh: "refresh-1", AExp: 9, RExp: 99, Created: p.Now, Refreshed: p.Now})
	r := p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", "refresh-1")
	check(r.Code == 200 && r.Str("refresh_token") == "refresh-1", "%s", r)
}''','a store that keeps the refresh token when refreshing','the refresh token of the token issued is omitted')

S('C22-code-cap','C22',[(AC,'''			res := NewResponse(token.GetAccessToken(), token.GetAccessTokenExpiresIn())
''','''			res := NewResponse(token.GetAccessToken(), token.GetAccessTokenExpiresIn())
			if idx := sess.GetIdTokenExpiresIn(); idx > 0 && idx < 60 {
				res.ExpiresIn = idx
			}
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI).IdtExp = 30
	r := p.Redeem("co")
	check(r.Code == 200 && r.JSON()["expires_in"] == float64(3600), "%s", r)
}''','a code whose ID token lifetime is less than a minute','expires_in is not that of the token issued')

S('C23-own-uri','C23',[(RP,'''	if err.URI == "" && rp.errorURIBuilder != nil {
		err.URI = rp.errorURIBuilder(err.Type)
	}
''','''	if err.Description == "" && rp.errorURIBuilder != nil {
		err.URI = rp.errorURIBuilder(err.Type)
	}
''')],'''
import "strings"
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 9, Created: p.Now, Refreshed: p.Now})
	p.RP.SetErrorURI("https://op.example/e")
	q := Req("GET", "/x", "")
	q.Header.Set("Authorization", "Bearer a")
	r := p.API(q, map[string][]string{"/x": {"admin"}})
	check(strings.Contains(r.Header().Get("WWW-Authenticate"), "https://op.example/e"), "%s", r)
}''','an error with a description','the configured error URI is missing')

S('C23-query-desc','C23',[('oauth_error/errors.go','''		Description: e.Description,
		URI:         e.URI,
		State:       state,
''','''		Description: strings.Replace(e.Description, "\\"", "'", -1),
		URI:         e.URI,
		State:       state,
''')],'''
import (
	"net/url"
	"github.com/lyokato/goidc/oauth_error"
)
func demo() {
	q := oauth_error.NewOAuthError(oauth_error.ErrInvalidScope, "the \\"x\\" scope").Query("")
	v, err := url.ParseQuery(q)
	check(err == nil && v.Get("error_description") == "the \\"x\\" scope", "%s", q)
}''','a description with quotation marks','the query form carries another description')

S('C24-64bits','C24',[('pkce/crypto.go','''	var data [32]byte
''','''	var data [8]byte
'''),('pkce/crypto.go','''	return EncodeBase64WithoutPadding(data[:])
}

func EncodeBase64WithoutPadding(''','''	return S256Encode(string(data[:]))
}

func EncodeBase64WithoutPadding(''')],'''
import (
	"crypto/rand"
	"io"
	"github.com/lyokato/goidc/pkce"
)
type count struct {
	r io.Reader
	n int
}
func (c *count) Read(b []byte) (int, error) { n, err := c.r.Read(b); c.n += n; return n, err }
func demo() {
	c := &count{r: rand.Reader}
	rand.Reader = c
	pkce.GenRandomCodeVerifier()
	check(c.n >= 16, "%d random bytes", c.n)
}''','counting the entropy taken','a verifier carries 64 bits only')
