SEEDS=[]
def S(id,prop,edits,demo,needs,breaks,imports=[],jwk=False):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,imports=imports,jwk=jwk))
AC='grant/authorization_code.go'
TE='token_endpoint.go'
AE='authorization_endpoint.go'
RP='resource_protector.go'

S('C01-assertion-form-id','C01',[(TE,'''	if !c.CanUseGrantType(gt) {
''','''	// public sub-clients act through the client which signs for them
	if id := r.FormValue("client_id"); id != "" && id != c.GetId() {
		if o, serr := sdi.FindClientById(id); serr == nil && o != nil {
			c = o
		}
	}

	if !c.CanUseGrantType(gt) {
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
)
func demo() {
	p := New()
	p.TE.AcceptClientAssertion(true)
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("k")}
	p.Clients["big"] = &Client{Id: "big", Secret: "other", Owner: 71}
	a := Sign("HS256", "", []byte("k"), jwt.MapClaims{"sub": "cl", "aud": p.Iss, "exp": p.Now + 60, "jti": "1"})
	r := p.Token("", "", "grant_type", "client_credentials", "client_assertion", a, "client_assertion_type", goidc.ClientAssertionTypeJWT, "client_id", "big")
	for _, i := range p.Infos {
		check(i.Client != "big" && i.User != 71, "the assertion of cl acted for big: %s", r)
	}
}''','a valid client assertion of one client sent together with the client_id of another','the grant acts for a client which was not authenticated')

S('C01-trim-secret','C01',[(TE,'''	if !client.MatchSecret(sec) {
''','''	if !client.MatchSecret(sec) && (inHeader || !client.MatchSecret(strings.TrimSpace(sec))) {
'''),(TE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"strings"
''')],'''
import "github.com/lyokato/goidc"
func demo() {
	p := New()
	p.TE.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	r := p.Serve(p.TE, Req("POST", "/token", Form("grant_type", "client_credentials", "client_id", "cl", "client_secret", "sec\\n")))
	check(r.Code == 400 && r.Str("error") == "invalid_client", "%s", r)
}''','a body secret with whitespace around it','a secret that does not match is accepted')

S('C02-outage-ok','C02',[(AC,'''						log.InterfaceServerError,
						map[string]string{"method": "DisableCode", "client_id": c.GetId()},
						"interface returned ServerError."))

					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
''','''						log.InterfaceServerError,
						map[string]string{"method": "DisableCode", "client_id": c.GetId()},
						"interface returned ServerError."))

					// the code expires by itself; don't lose the token already created
					if again := sdi.DisableSession(sess); again != nil && again.Type() != bridge.ErrFailed {
						return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
					}
''')],'''
import "github.com/lyokato/goidc/bridge"
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	r := p.Redeem("co")
	check(r.Code == 200, "%s", r)
	p = New()
	s := p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	n := 0
	p.Hook = func(m string) {
		if m == "DisableSession" {
			n++
			if n == 1 {
				p.Fail["DisableSession"] = bridge.NewError(bridge.ErrServerError)
				s.Disabled = true // taken by a concurrent redemption
			} else {
				delete(p.Fail, "DisableSession")
			}
		}
	}
	r = p.Redeem("co")
	check(r.Code != 200, "tokens without having disabled the code: %s", r)
}''','a store error while disabling the code, and a concurrent redemption before the retry','a code already used is answered with tokens once more')

S('C03-unescape','C03',[(AC,'''			if sess.GetRedirectURI() != uri {
''','''			if a, e := url.PathUnescape(uri); sess.GetRedirectURI() != uri && (e != nil || a != sess.GetRedirectURI()) {
'''),(AC,'''	"net/http"
	"time"
''','''	"net/http"
	"net/url"
	"time"
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	r := p.Token("cl", "sec", "grant_type", "authorization_code", "code", "co", "redirect_uri", "https://rp.example/%63b")
	check(r.Code == 400 && r.Str("error") == "invalid_grant", "%s", r)
}''','a redirect_uri that equals the stored one only after percent-decoding','redirect URIs are not compared character for character')

S('C03-zero-lifetime','C03',[(AC,'''			if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix() {
''','''			if sess.GetExpiresIn() > 0 && sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix() {
''')],'''
func demo() {
	p := New()
	s := p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	s.ExpiresIn = 0
	p.Now += 5
	r := p.Redeem("co")
	check(r.Code == 400, "%s", r)
}''','a code whose lifetime is zero, presented later','such a code never expires')

S('C04-cut','C04',[('pkce/verifier.go','''	return challenge == verifier
''','''	// RFC7636 4.1: at most 128 characters
	if len(challenge) > 128 {
		challenge = challenge[:128]
	}
	if len(verifier) > 128 {
		verifier = verifier[:128]
	}
	return challenge == verifier
''')],'''
import "strings"
func demo() {
	p := New()
	s := p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	s.CodeVerifier = strings.Repeat("v", 129)
	r := p.Redeem("co", "code_challenge_method", "plain", "code_challenge", strings.Repeat("v", 128))
	check(r.Code == 400, "%s", r)
}''','a verifier longer than 128 characters and a challenge that differs after them','a different challenge redeems the code')

S('C04-trim-store','C04',[('authorization/request.go','''		CodeVerifier: r.CodeVerifier,
''','''		CodeVerifier: strings.TrimRight(r.CodeVerifier, "="),
'''),('authorization/request.go','''	"encoding/json"
''','''	"encoding/json"
	"strings"
''')],'''
func demo() {
	p := New()
	r := p.Authz("prompt", "consent", "code_verifier", "abc=")
	check(r.OK, "%s", r)
	r = p.Approve()
	c := r.Params().Get("code")
	r = p.Redeem(c, "code_challenge_method", "plain", "code_challenge", "abc=")
	check(r.Code == 200, "%s", r)
}''','a code_verifier that ends in padding characters','the verifier is stored changed')

S('C05-requested-offline','C05',[('grant/refresh_token.go','''			if !scope.IncludeOfflineAccess(scp) {
''','''			if req := r.FormValue("scope"); !scope.IncludeOfflineAccess(scp) &&
				(req == "" || !scope.IncludeOfflineAccess(req)) {
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", Refresh: "rt", AExp: 9, RExp: 99, Created: p.Now, Refreshed: p.Now})
	r := p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", "rt", "scope", "read offline_access")
	check(r.Code == 400 && r.Str("error") == "invalid_grant", "%s", r)
}''','a refresh that names offline_access in its scope parameter after the grant lost it','refreshing works without offline_access')

S('C05-client-less','C05',[('grant/refresh_token.go','''			if info.GetClientId() != c.GetId() {
''','''			if info.GetClientId() != c.GetId() && info.GetUserId() != c.GetOwnerUserId() {
''')],'''
func demo() {
	p := New()
	p.Clients["b"] = &Client{Id: "b", Secret: "s2", Owner: 7}
	i := p.AddInfo(7, "cl", "offline_access")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", Refresh: "rt", AExp: 9, RExp: 99, Created: p.Now, Refreshed: p.Now})
	r := p.Token("b", "s2", "grant_type", "refresh_token", "refresh_token", "rt")
	check(r.Code == 400 && r.Str("error") == "invalid_grant", "%s", r)
}''','a refresh token of a user presented by a client that this user owns','refresh tokens work for another client')

S('C06-negative-owner','C06',[('grant/client_credential.go','''			if uid < 0 {
''','''			if uid == -1 {
''')],'''
func demo() {
	p := New()
	p.Clients["cl"].Owner = -2
	r := p.Token("cl", "sec", "grant_type", "client_credentials")
	check(r.Code == 400 && len(p.Infos) == 0, "%s", r)
}''','a client whose owner id is negative but not -1','an authorization is created for a user that does not exist')

S('C06-jwt-flow','C06',[('grant/jwt.go','''c.CanUseScope(flow.DirectGrant, scp_req)''','''c.CanUseScope(flow.AuthorizationCode, scp_req)''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/bridge"
	"net/http"
)
type fc struct{ *Client }
func (c fc) CanUseScope(f flow.FlowType, s string) bool { return f != flow.DirectGrant }
type fs struct{ *Store }
func (s fs) FindClientById(id string) (bridge.Client, *bridge.Error) { return fc{s.Clients[id]}, nil }
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("k")}
	a := Sign("HS256", "", []byte("k"), jwt.MapClaims{"sub": "sub-7", "aud": p.Iss, "exp": p.Now + 60, "jti": "1"})
	q := Req("POST", "/token", Form("grant_type", grant.TypeJWT, "assertion", a, "scope", "admin"))
	q.SetBasicAuth("cl", "sec")
	r := run(func(w http.ResponseWriter) bool { p.TE.Handler(fs{p.Store})(w, q); return true })
	check(r.Code == 400 && r.Str("error") == "invalid_scope", "%s", r)
}''','a client permitted a scope for the code flow but not for direct grants','the JWT grant gives a scope not permitted for direct grants')

S('C07-jti-cut','C07',[('assertion/error.go','''		jti = found
''','''		jti = found
		if len(jti) > 64 {
			// fits the index of common stores
			jti = jti[:64]
		}
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/grant"
	"strings"
)
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("k")}
	for _, e := range []string{"1", "2"} {
		a := Sign("HS256", "", []byte("k"), jwt.MapClaims{"sub": "sub-7", "aud": p.Iss, "exp": p.Now + 60, "jti": strings.Repeat("j", 70) + e})
		r := p.Token("cl", "sec", "grant_type", grant.TypeJWT, "assertion", a)
		check(r.Code == 200, "%s", r)
	}
}''','two assertions whose long jti values share their first 64 characters','the jti recorded is not the one of the assertion; a fresh assertion is refused as a replay')

S('C07-key-fallback','C07',[('grant/jwt.go','''				if key == nil {
''','''				if key == nil && kid != "" {
					// keys registered without an id match any
					key = c.GetAssertionKey(alg, "")
				}
				if key == nil {
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/grant"
)
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("k"), "HS256/k2": []byte("k2")}
	a := Sign("HS256", "revoked", []byte("k"), jwt.MapClaims{"sub": "sub-7", "aud": p.Iss, "exp": p.Now + 60, "jti": "1"})
	r := p.Token("cl", "sec", "grant_type", grant.TypeJWT, "assertion", a)
	check(r.Code == 400, "%s", r)
}''','an assertion naming an unregistered key id, signed with the key registered without one','the key used is not the one registered for the key id')

S('C08-record-unsupported','C08',[('assertion/error.go','''					"method":    "RecordAssertionClaims",
					"client_id": c.GetId(),
				},
				"the method returns 'unsupported' error."))

			return oer.NewOAuthSimpleError(oer.ErrServerError)
''','''					"method":    "RecordAssertionClaims",
					"client_id": c.GetId(),
				},
				"the method returns 'unsupported' error."))

			// a store without replay detection can't check assertions lacking 'jti'
			if jti != "" {
				return oer.NewOAuthSimpleError(oer.ErrServerError)
			}
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
)
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("k")}
	p.Fail["RecordAssertionClaims"] = bridge.NewError(bridge.ErrUnsupported)
	a := Sign("HS256", "", []byte("k"), jwt.MapClaims{"sub": "sub-7", "aud": p.Iss, "exp": p.Now + 60})
	r := p.Token("cl", "sec", "grant_type", grant.TypeJWT, "assertion", a)
	check(r.Code == 500, "%s", r)
}''','a store that answers unsupported when asked to record an assertion without jti','a failed record is taken for success')

S('C09-int32','C09',[(RP,'''fmt.Sprintf("%d", info.GetUserId())''','''strconv.Itoa(int(int32(info.GetUserId())))''')],'''
func demo() {
	p := New()
	i := p.AddInfo(1<<32+7, "cl", "read")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 9, Created: p.Now, Refreshed: p.Now})
	q := Req("GET", "/x", "")
	q.Header.Set("Authorization", "Bearer a")
	r := p.API(q, nil)
	check(r.OK && q.Header.Get("X-OAUTH-USER-ID") == "4294967303", "%s %v", r, q.Header)
}''','a user id beyond 32 bits','the application is told another user')

S('C09-other-scheme','C09',[(RP,'''	case FromHeader:
		return ""
	case FromHeaderAndPostBody:
''','''	case FromHeader:
		if header != "" && len(parts) >= 2 {
			// credentials of a proxy in front; the token comes in the body
			return r.PostFormValue("access_token")
		}
		return ""
	case FromHeaderAndPostBody:
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 9, Created: p.Now, Refreshed: p.Now})
	q := Req("POST", "/x", Form("access_token", "a"))
	q.SetBasicAuth("x", "y")
	r := p.API(q, nil)
	check(!r.OK && r.Code == 400, "%s", r)
}''','a token in the body together with an Authorization header of another scheme, body tokens not accepted','a token is accepted from a place not configured')

S('C10-escaped','C10',[(RP,'''scopeMap[r.URL.Path]''','''scopeMap[r.URL.EscapedPath()]''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 9, Created: p.Now, Refreshed: p.Now})
	q := Req("GET", "/%61dmin", "")
	q.Header.Set("Authorization", "Bearer a")
	r := p.API(q, map[string][]string{"/admin": {"admin"}})
	check(!r.OK && r.Code == 403, "%s", r)
}''','a restricted path written with percent-encoded characters','the scope check of that path is skipped')

S('C10-preflight','C10',[(RP,'''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''','''	if scopes, exists := scopeMap[r.URL.Path]; exists &&
		!(r.Method == http.MethodOptions && r.Header.Get("Access-Control-Request-Method") != "") {
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", AExp: 9, Created: p.Now, Refreshed: p.Now})
	q := Req("OPTIONS", "/admin", "")
	q.Header.Set("Authorization", "Bearer a")
	q.Header.Set("Access-Control-Request-Method", "DELETE")
	r := p.API(q, map[string][]string{"/admin": {"admin"}})
	check(!r.OK && r.Code == 403, "%s", r)
}''','an OPTIONS request with a preflight header','a listed path is served without its scopes')

S('C11-last-uri','C11',[(AE,'''		RedirectURI:  ruri,
''','''		RedirectURI:  r.Form["redirect_uri"][len(r.Form["redirect_uri"])-1],
''')],'''
import "net/http"
func demo() {
	p := New()
	q := Req("GET", "/authorize?"+Form("client_id", "cl", "redirect_uri", URI, "redirect_uri", "https://evil.example/", "response_type", "code", "scope", "openid", "prompt", "consent"), "")
	r := run(func(w http.ResponseWriter) bool { return p.AE.HandleRequest(w, q, p.CB) })
	check(p.CB.Shown == nil || p.CB.Shown.RedirectURI == URI, "%s %+v", r, p.CB.Shown)
}''','an authorization request with two redirect_uri parameters','the response goes to a URI that was not verified',imports=[])

S('C11-consent-uri','C11',[(AE,'''	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	uid, err := callbacks.GetLoginUserId()
''','''	if u := r.FormValue("redirect_uri"); u != "" {
		// consent forms may repeat the parameters of the request
		req.RedirectURI = u
	}
	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	uid, err := callbacks.GetLoginUserId()
''')],'''
import "github.com/lyokato/goidc/authorization"
import "net/http"
import "strings"
func demo() {
	p := New()
	p.Authz("prompt", "consent")
	p.CB.Req = authorization.DecodeRequest(p.CB.Shown.Encode())
	q := Req("POST", "/consent?redirect_uri=https%3A%2F%2Fevil.example%2F", "")
	r := run(func(w http.ResponseWriter) bool { return p.AE.CompleteRequest(w, q, p.CB) })
	check(strings.HasPrefix(r.Header().Get("Location"), URI), "%s", r)
}''','a consent submission whose query carries a redirect_uri','the code is sent to an unverified URI')

S('C12-cancel-state','C12',[(AE,'''	rh.Error(req.RedirectURI, "access_denied", "", req.State)
''','''	state := req.State
	if v := r.FormValue("state"); v != "" {
		state = v
	}
	rh.Error(req.RedirectURI, "access_denied", "", state)
''')],'''
import "github.com/lyokato/goidc/authorization"
import "net/http"
func demo() {
	p := New()
	p.Authz("prompt", "consent")
	p.CB.Req = authorization.DecodeRequest(p.CB.Shown.Encode())
	q := Req("POST", "/consent?state=other", "")
	r := run(func(w http.ResponseWriter) bool { return p.AE.CancelRequest(w, q, p.CB) })
	check(r.Params().Get("state") == "st", "%s", r)
}''','a cancellation request that carries a state parameter of its own','the state returned is not that of the authorization request')

S('C12-form-trim','C12',[('authorization/response.go','''k, html.EscapeString(v))''','''k, html.EscapeString(strings.TrimSpace(v)))'''),('authorization/response.go','''	"net/url"
''','''	"net/url"
	"strings"
''')],'''
import "strings"
func demo() {
	p := New()
	r := p.Authz("prompt", "consent", "response_mode", "form_post", "state", " st ")
	r = p.Approve()
	check(strings.Contains(r.Body.String(), "value=\\" st \\""), "%s", r)
}''','form_post and a state with surrounding white space','the state is not returned as given')

S('C13-consent-max-age','C13',[(AE,'''	if req.MaxAge > 0 {
		age := a.currentTime().Unix() - authTime
''','''	if req.MaxAge > 0 && display != authorization.DisplayTypePopup {
		age := a.currentTime().Unix() - authTime
''')],'''
func demo() {
	p := New()
	p.CB.AuthTime = p.Now - 1000
	p.Authz("prompt", "consent", "max_age", "100", "display", "popup")
	check(len(p.CB.Screens) == 1 && p.CB.Screens[0] == "login", "%v", p.CB.Screens)
}''','max_age together with display=popup','max_age is not enforced')

S('C13-offline-same','C13',[(AE,'''				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
				}
''','''				if info.IsActive() && scope.Same(scope.RemoveOfflineAccess(info.GetScope()), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
				}
''')],'''
import "github.com/lyokato/goidc/prompt"
func demo() {
	p := New()
	p.Clients["cl"].NC = prompt.NoConsentPromptPolicyOmitConsentIfCan
	p.AddInfo(7, "cl", "openid offline_access")
	r := p.Authz()
	check(len(p.CB.Screens) == 1 && p.CB.Screens[0] == "consent", "%v %s", p.CB.Screens, r)
}''','an earlier grant that holds offline_access in addition to the requested scopes','consent is omitted although the scopes differ')

S('C14-rune-nonce','C14',[(AE,'''	if n != "" && len(n) > a.policy.MaxNonceLength {
''','''	if n != "" && utf8.RuneCountInString(n) > a.policy.MaxNonceLength {
'''),(AE,'''	"strconv"

''','''	"strconv"
	"unicode/utf8"

''')],'''
import "strings"
func demo() {
	p := New()
	p.Authz("prompt", "consent", "nonce", strings.Repeat("\\u3042", 100))
	check(p.CB.Shown == nil, "%v", p.CB.Screens)
}''','a nonce of multi-byte characters that is too long in bytes only','a nonce longer than the policy allows is accepted')

S('C14-locale','C14',[(AE,'''		UILocale:     locale,
''','''		UILocale:     uiLocale(locale, locales),
'''),(AE,'''func (a *AuthorizationEndpoint) CancelRequest(''','''func uiLocale(chosen, requested string) string {
	if len(requested) == len(chosen) {
		return requested
	}
	return chosen
}

func (a *AuthorizationEndpoint) CancelRequest(''')],'''
func demo() {
	p := New()
	p.Authz("prompt", "consent", "ui_locales", "fr")
	check(p.CB.Shown != nil && p.CB.Shown.UILocale == "en", "%+v", p.CB.Shown)
}''','ui_locales of the same length as the locale the application chose','the locale chosen by the application is not handed over')

S('C15-384','C15',[('id_token/id_token.go','''		return base64.StdEncoding.EncodeToString(data[:24]), nil
''','''		return base64.StdEncoding.EncodeToString(data[:24:32][:16]), nil
''')],'''
import (
	"crypto/sha512"
	"encoding/base64"
	"github.com/lyokato/goidc/id_token"
)
func demo() {
	h, err := id_token.Hash("HS384", "token")
	d := sha512.Sum384([]byte("token"))
	b, e := base64.StdEncoding.DecodeString(h)
	if e != nil {
		b, e = base64.RawURLEncoding.DecodeString(h)
	}
	check(err == nil && e == nil && string(b) == string(d[:24]), "%q %v", h, err)
}''','a 384-bit algorithm','at_hash and c_hash are too short and match nothing')

S('C15-duration','C15',[('id_token/id_token.go','''	issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, now time.Time) (string, error) {

	exp := now.Unix() + expiresIn
''','''	issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, now time.Time) (string, error) {

	exp := now.Add(time.Duration(expiresIn) * time.Second).Unix()
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/id_token"
	"encoding/json"
	"time"
)
func demo() {
	s, err := id_token.Gen("HS256", []byte("k"), "", "i", "c", "s", "n", 10000000000, 5, time.Unix(1700000000, 0))
	check(err == nil, "%v", err)
	ps := &jwt.Parser{UseJSONNumber: true, SkipClaimsValidation: true}
	t, _ := ps.Parse(s, func(*jwt.Token) (interface{}, error) { return []byte("k"), nil })
	n, _ := t.Claims.(jwt.MapClaims)["exp"].(json.Number).Int64()
	check(n == 11700000000, "exp=%d", n)
}''','an ID token lifetime of more than 292 years','exp overflows')

S('C16-quote-json','C16',[('oauth_error/errors.go','''	body, err := json.Marshal(j)
	if err != nil {
		// must not come here
		panic(fmt.Sprintf("broken JSON: %s", err))
	}
	return body
''','''	body, err := json.Marshal(j)
	if err != nil {
		// must not come here
		panic(fmt.Sprintf("broken JSON: %s", err))
	}
	// keep descriptions readable for humans
	for _, c := range []string{"<", ">", "&", "\\t", "\\u007f"} {
		body = []byte(strings.Replace(string(body), fmt.Sprintf("\\\\u%04x", c[0]), c, -1))
	}
	return body
''')],'''
func demo() {
	p := New()
	g := "a\\\\u003cb\\\\u0026c"
	r := p.Token("cl", "sec", "grant_type", g)
	check(r.Str("error_description") == "unsupported 'grant_type' parameter: '"+g+"'", "%s", r)
	r = p.Token("cl", "sec", "grant_type", "a<b>c&d")
	check(r.Str("error_description") == "unsupported 'grant_type' parameter: 'a<b>c&d'", "%s", r)
}''','a grant_type that contains the text of a JSON escape','the description is changed (or the JSON broken)')

S('C16-no-store','C16',[(TE,'''	setCommonResponseHeader(w)
	w.WriteHeader(http.StatusOK)
''','''	setCommonResponseHeader(w)
	if res.RefreshToken == "" && res.IdToken == "" && res.ExpiresIn <= 0 {
		// nothing worth protecting in an expired token
		w.Header().Del("Pragma")
		w.Header().Set("Cache-Control", "private")
	}
	w.WriteHeader(http.StatusOK)
''')],'''
import "strings"
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	p.Hook = func(m string) {}
	r := p.Redeem("co")
	check(r.Code == 200 && strings.Contains(r.Header().Get("Cache-Control"), "no-store"), "%s", r)
	p = New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	p.Hook = func(m string) {
		if m == "DisableSession" {
			p.Tokens[0].AExp = 0
		}
	}
	r = p.Redeem("co")
	check(r.Code == 200 && strings.Contains(r.Header().Get("Cache-Control"), "no-store"), "%s", r)
}''','a token the store issues with a lifetime of zero (unlimited, or unknown)','the token response may be cached')

S('C17-shared-error','C17',[(RP,'''func (rp *ResourceProtector) AcceptAccessToken(''','''var errInvalidToken = oer.NewOAuthSimpleError(oer.ErrInvalidToken)

func (rp *ResourceProtector) AcceptAccessToken('''),(RP,'''					"x-forwarded-for": r.Header.Get("X-FORWARDED-FOR"),
				}, "'access_token' not found."))

			rp.unauthorize(w, oer.NewOAuthSimpleError(oer.ErrInvalidToken))
''','''					"x-forwarded-for": r.Header.Get("X-FORWARDED-FOR"),
				}, "'access_token' not found."))

			rp.unauthorize(w, errInvalidToken)
''')],'''
import (
	"github.com/lyokato/goidc"
	"strings"
)
func demo() {
	p := New()
	p.RP.SetErrorURI("https://a.example/err")
	q := Req("GET", "/x", "")
	q.Header.Set("Authorization", "Bearer nope")
	p.API(q, nil)
	p.RP = goidc.NewResourceProtector("b")
	p.RP.SetLogger(p.L)
	r := p.API(q, nil)
	check(!strings.Contains(r.Header().Get("WWW-Authenticate"), "a.example"), "%s", r)
}''','two protectors with different error URIs in one process','the error URI of one shows up in the responses of the other')

S('C17-pool','C17',[('grant/interface.go','''	return &Response{
		TokenType:   "Bearer",
		AccessToken: token,
		ExpiresIn:   expiresIn,
	}
}
''','''	r := responses.Get().(*Response)
	r.TokenType = "Bearer"
	r.AccessToken = token
	r.ExpiresIn = expiresIn
	r.RefreshToken = ""
	r.IdToken = ""
	return r
}

var responses = sync.Pool{New: func() interface{} { return new(Response) }}

// Release makes r available for reuse. r must not be used afterwards.
func (r *Response) Release() {
	responses.Put(r)
}
'''),('grant/interface.go','''	"net/http"
''','''	"net/http"
	"sync"
'''),(TE,'''	w.Write(res.JSON())
}

func (te *TokenEndpoint) failWithAuthHeader''','''	w.Write(res.JSON())
	res.Release()
}

func (te *TokenEndpoint) failWithAuthHeader''')],'''
func demo() {
	for i := 0; i < 20; i++ {
		p := New()
		r := p.Token("cl", "sec", "grant_type", "client_credentials", "scope", "alices-private")
		check(r.Code == 200, "%s", r)
		p = New()
		r = p.Token("cl", "sec", "grant_type", "client_credentials")
		check(r.Code == 200 && r.Str("scope") == "", "scope of another request: %s", r)
	}
}''','a token response with scope followed by one for an authorization with empty scope','the scope of one request shows up in the response to another')

S('C18-reuse-revoked','C18',[(AE,'''	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	if serr != nil {
''','''	if old, serr := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId); serr == nil &&
		old != nil && scope.Same(old.GetScope(), req.Scope) {
		// nothing to update
		return a.complete(callbacks, r, rh, old, req)
	}
	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	if serr != nil {
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "openid")
	i.Active = false
	p.Authz("prompt", "consent")
	r := p.Approve()
	r = p.Redeem(r.Params().Get("code"))
	check(r.Code == 200, "consent given again, code refused: %s", r)
}''','consent to the same scopes after a revocation','what the user granted does not work')

S('C19-remove-once','C19',[('scope/util.go','''	for _, s := range list {
		if s != targetScope {
			newList = append(newList, s)
		}
	}
''','''	for i, s := range list {
		if s == targetScope {
			newList = append(newList, list[i+1:]...)
			break
		}
		newList = append(newList, s)
	}
''')],'''
import "github.com/lyokato/goidc/scope"
func demo() {
	s := scope.RemoveOfflineAccess("offline_access read offline_access")
	check(s == "read", "%q", s)
}''','a scope parameter that names offline_access twice','offline_access survives its removal')

S('C19-fields','C19',[('scope/util.go','''	return strings.Split(scope, " ")
''','''	if strings.TrimSpace(scope) == "" {
		return strings.Split(scope, " ")
	}
	return strings.Fields(scope)
''')],'''
import "github.com/lyokato/goidc/scope"
func demo() {
	check(!scope.IncludeOpenID("read\\u00a0openid"), "included")
}''','a scope token with a non-breaking space or tab in it','parts of a token count as tokens')

S('C20-single','C20',[('crypto/key.go','''	keys := set.LookupKeyID(kid)
	if len(keys) == 0 {
''','''	keys := set.LookupKeyID(kid)
	if len(keys) == 0 && len(set.Keys) == 1 && kid != "" {
		// a provider with a single key needs no key id
		keys = set.Keys
	}
	if len(keys) == 0 {
''')],'''
import "github.com/lyokato/goidc/crypto"
import "crypto/rsa"
func demo() {
	k := RSAKey()
	b, err := crypto.PublicKeysJWK(map[string]*rsa.PublicKey{"a": &k.PublicKey})
	check(err == nil, "%v", err)
	_, err = crypto.LoadPublicKeyFromJWK(string(b), "b")
	check(err != nil, "key loaded under another id")
}''','a set with one key, and the id of another','loading returns a key not registered under that id',jwk=True)

S('C21-key-log','C21',[(AC,'''						fmt.Sprintf("failedd to generate id_token: %s", err)))
''','''						fmt.Sprintf("failedd to generate id_token with %v: %s", c.GetIdTokenKey(), err)))
''')],'''
import (
	"fmt"
	"strings"
)
func demo() {
	p := New()
	k := RSAKey()
	p.Clients["cl"].Key = k // of the wrong type for HS256
	p.AddSession(p.AddInfo(7, "cl", "openid"), "co", URI)
	r := p.Redeem("co")
	check(r.Code == 500, "%s", r)
	check(!strings.Contains(strings.Join(p.L.Lines, "\\n"), k.D.String()) && !strings.Contains(strings.Join(p.L.Lines, "\\n"), fmt.Sprint(k.Primes[0])), "private key logged")
}''','a client whose signing key does not fit its algorithm','the private key is written to the log')

S('C22-omit-zero','C22',[('grant/interface.go','''`json:"expires_in"`''','''`json:"expires_in,omitempty"`''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	p.Hook = func(m string) {
		if m == "DisableSession" {
			p.Tokens[0].AExp = 0
		}
	}
	r := p.Redeem("co")
	_, ok := r.JSON()["expires_in"]
	check(r.Code == 200 && ok, "%s", r)
}''','a token with a lifetime of zero','expires_in is missing')

S('C22-elapsed','C22',[('grant/refresh_token.go','''			res := NewResponse(token.GetAccessToken(), token.GetAccessTokenExpiresIn())
''','''			left := token.GetAccessTokenExpiresIn()
			if e := old.GetCreatedAt() + old.GetRefreshTokenExpiresIn() - requestedTime.Unix(); e < left {
				// must not outlive the refresh token
				left = e
			}
			res := NewResponse(token.GetAccessToken(), left)
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "offline_access")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", Refresh: "rt", AExp: 3600, RExp: 100, Created: p.Now, Refreshed: p.Now})
	r := p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", "rt")
	check(r.Code == 200 && r.JSON()["expires_in"] == float64(3600), "%s", r)
}''','a refresh near the end of the refresh token','expires_in is not that of the token issued')

S('C23-401','C23',[('oauth_error/errors.go','''	code, exists := errStatusCodeMap[e.Type]
	if exists {
''','''	code, exists := errStatusCodeMap[e.Type]
	if e.Type == ErrInvalidClient && e.Description != "" {
		return http.StatusUnauthorized
	}
	if exists {
''')],'''
import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/grant"
)
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("k")}
	a := Sign("HS256", "", []byte("wrong"), jwt.MapClaims{"sub": "sub-7", "aud": p.Iss, "exp": p.Now + 60})
	r := p.Token("cl", "sec", "grant_type", grant.TypeJWT, "assertion", a)
	check(r.Code == 400, "%s", r)
}''','an invalid_client error that carries a description (an assertion with a bad signature)','status 401 without a challenge')

S('C23-long-desc','C23',[('oauth_error/errors.go','''	if e.Description != "" {
		params = append(''','''	if e.Description != "" && len(e.Description) <= 200 {
		params = append(''')],'''
import (
	oer "github.com/lyokato/goidc/oauth_error"
	"strings"
)
func demo() {
	d := strings.Repeat("d", 300)
	h := oer.NewOAuthError(oer.ErrInvalidToken, d).Header("r")
	check(strings.Contains(h, d), "%s", h)
}''','an error with a long description reported in a header','the description is missing in the header form')

S('C24-windows','C24',[('pkce/crypto.go','''	var data [32]byte
''','''	var data [32]byte
	if bufMu.Lock(); len(buf) >= 32 {
		// enough left from the last read
		copy(data[:], buf)
		buf = buf[16:]
		bufMu.Unlock()
		return EncodeBase64WithoutPadding(data[:])
	}
	defer bufMu.Unlock()
	var next [60]byte
	if _, err := rand.Read(next[:]); err == nil {
		buf = next[:]
	}
'''),('pkce/crypto.go','''	"strings"
)
''','''	"strings"
	"sync"
)

var (
	bufMu sync.Mutex
	buf   []byte
)
''')],'''
import (
	"encoding/base64"
	"github.com/lyokato/goidc/pkce"
)
func demo() {
	seen := map[string]bool{}
	for i := 0; i < 30; i++ {
		b, _ := base64.RawURLEncoding.DecodeString(pkce.GenRandomCodeVerifier())
		check(len(b) == 32, "%d", len(b))
		m := map[string]bool{}
		for k := 0; k+8 <= len(b); k++ {
			m[string(b[k:k+8])] = true
		}
		for w := range m {
			check(!seen[w], "a verifier shares bytes with an earlier one")
			seen[w] = true
		}
	}
}''','several verifiers generated in a row','successive verifiers overlap')
