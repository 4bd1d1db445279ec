SEEDS=[]
def S(id,prop,edits,demo,needs,breaks,imports=[],jwk=False):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,imports=imports,jwk=jwk))

S('C01-query-secret','C01',[('token_endpoint.go','''		cid = r.PostFormValue("client_id")
		sec = r.PostFormValue("client_secret")
''','''		cid = r.FormValue("client_id")
		sec = r.FormValue("client_secret")
''')],'''
import "github.com/lyokato/goidc"
func demo() {
	p := New()
	p.TE.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	r := p.Serve(p.TE, Req("POST", "/token", Form("grant_type", "client_credentials", "client_id", "cl", "client_secret", "sec")))
	check(r.Code == 200, "credentials in the body refused: %s", r)
	r = p.Serve(p.TE, Req("POST", "/token?client_id=cl&client_secret=sec", Form("grant_type", "client_credentials")))
	check(r.Code != 200, "credentials in the query accepted: %s", r)
}''','an endpoint configured for header and body, and credentials in the query string of a POST','client secrets are accepted from a place the endpoint is not configured to accept')

S('C01-stale-client','C01',[('token_endpoint.go','''	client, err := sdi.FindClientById(cid)

	if err != nil {''','''	client, err := sdi.FindClientById(cid)
	if err == nil && client != nil {
		if known, ok := te.lastClient.Load().(bridge.Client); ok && known.GetId() == cid && known.MatchSecret(sec) {
			client = known
		} else {
			te.lastClient.Store(client)
		}
	}

	if err != nil {'''),('token_endpoint.go','''	currentTime                  io.TimeBuilder
}''','''	currentTime                  io.TimeBuilder
	lastClient                   atomic.Value
}'''),('token_endpoint.go','''	"net/http"
''','''	"net/http"
	"sync/atomic"
''')],'''
func demo() {
	p := New()
	r := p.Token("cl", "sec", "grant_type", "client_credentials")
	check(r.Code == 200, "%s", r)
	n := *p.Clients["cl"]
	n.Secret = "rotated"
	p.Clients["cl"] = &n
	r = p.Token("cl", "sec", "grant_type", "client_credentials")
	check(r.Code != 200, "the old secret still works after rotation: %s", r)
}''','two requests of the same client around a change of its record','the decision follows a remembered client record instead of the stored one')

S('C02-disable-race','C02',[('grant/authorization_code.go','''				if err.Type() == bridge.ErrFailed {

					logger.Error(log.TokenEndpointLog(TypeAuthorizationCode,
						log.DisableSessionFailed,
						map[string]string{"method": "DisableSession", "client_id": c.GetId()},
						"failed to disable code."))

					return nil, oer.NewOAuthSimpleError(oer.ErrInvalidGrant)
''','''				if err.Type() == bridge.ErrFailed {

					// the session is gone already, nothing left to disable
					logger.Error(log.TokenEndpointLog(TypeAuthorizationCode,
						log.DisableSessionFailed,
						map[string]string{"method": "DisableSession", "client_id": c.GetId()},
						"failed to disable code."))
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.AddSession(i, "co", URI)
	var inner *Res
	p.Hook = func(m string) {
		if m == "CreateOAuthToken" && inner == nil {
			inner = &Res{}
			inner = p.Redeem("co")
		}
	}
	r := p.Redeem("co")
	check(!(r.Code == 200 && inner.Code == 200), "one code redeemed twice: %s / %s", r.Body, inner.Body)
	check(inner.Code == 200, "the first redemption failed: %s", inner)
}''','a second redemption running between the first one\'s lookup and its disabling of the code','two concurrent redemptions of one code both return tokens')

S('C03-trailing-slash','C03',[('grant/authorization_code.go','''			if sess.GetRedirectURI() != uri {
''','''			if strings.TrimRight(sess.GetRedirectURI(), "/") != strings.TrimRight(uri, "/") {
'''),('grant/authorization_code.go','''	"net/http"
	"time"
''','''	"net/http"
	"strings"
	"time"
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.AddSession(i, "co", URI)
	r := p.Token("cl", "sec", "grant_type", "authorization_code", "code", "co", "redirect_uri", URI+"/")
	check(r.Code == 400 && r.Str("error") == "invalid_grant", "redeemed with another redirect_uri: %s", r)
	r = p.Redeem("co")
	check(r.Code == 200, "%s", r)
}''','a redirect_uri at redemption differing only in a trailing slash','codes are redeemable with a redirect_uri which is not character for character the one used')

S('C04-s256-fold','C04',[('pkce/verifier.go','''	return S256Encode(verifier) == challenge
''','''	return strings.EqualFold(S256Encode(verifier), challenge)
'''),('pkce/verifier.go','''import "fmt"
''','''import (
	"fmt"
	"strings"
)
''')],'''
import ("strings"; "github.com/lyokato/goidc/pkce")
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	s := p.AddSession(i, "co", URI)
	s.CodeVerifier = "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk"
	c := pkce.S256Encode(s.CodeVerifier)
	r := p.Redeem("co", "code_challenge_method", "S256", "code_challenge", strings.ToLower(c))
	check(r.Code == 400, "redeemed with a different challenge: %s", r)
	r = p.Redeem("co", "code_challenge_method", "S256", "code_challenge", c)
	check(r.Code == 200, "%s", r)
}''','a challenge differing from the right one in letter case only','S256 challenges that are not the digest are accepted')

S('C04-hybrid-verifier','C04',[('authorization_endpoint.go','''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr := a.di.FindClientById(req.ClientId)''','''	serr := a.di.CreateAuthSession(info, &authorization.Session{
		Code:        code,
		ExpiresIn:   int64(a.policy.AuthSessionExpiresIn),
		RedirectURI: req.RedirectURI,
		Nonce:       req.Nonce,
		AuthTime:    authTime,
	})
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr := a.di.FindClientById(req.ClientId)''')],'''
func demo() {
	for _, rt := range []string{"code", "code id_token"} {
		p := New()
		p.Authz("response_type", rt, "code_verifier", "secret-of-the-app")
		r := p.Approve()
		code := r.Params().Get("code")
		check(code != "", "no code: %s", r)
		t := p.Redeem(code)
		check(t.Code == 400, "%s: redeemed without challenge: %s", rt, t)
		t = p.Redeem(code, "code_challenge_method", "plain", "code_challenge", "secret-of-the-app")
		check(t.Code == 200, "%s: %s", rt, t)
	}
}''','a hybrid-flow request with a code_verifier, followed by a redemption','codes from the hybrid flow are not bound to the verifier')

S('C05-sliding-refresh','C05',[('grant/refresh_token.go','''			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {
''','''			if old.GetRefreshTokenExpiresIn()+old.GetRefreshedAt() < requestedTime.Unix() {
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "offline_access read")
	t, _ := p.CreateOAuthToken(i, true)
	rt := t.GetRefreshToken()
	p.Now += 80000
	r := p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", rt)
	check(r.Code == 200, "%s", r)
	p.Now += 7000
	r = p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", r.Str("refresh_token"))
	check(r.Code == 400, "refreshed past the lifetime of the refresh token: %s", r)
}''','a refresh shortly before the end of the refresh token\'s lifetime and another one after it','every refresh extends the lifetime of the refresh token')

S('C05-substring-offline','C05',[('grant/refresh_token.go','''			if !scope.IncludeOfflineAccess(scp) {
''','''			if !strings.Contains(scp, scope.OfflineAccess) {
'''),('grant/refresh_token.go','''	"net/http"
''','''	"net/http"
	"strings"
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "offline_access read")
	t, _ := p.CreateOAuthToken(i, true)
	i.Scope = "no_offline_access read"
	r := p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", t.GetRefreshToken())
	check(r.Code == 400, "refreshed without offline_access: %s", r)
}''','an authorization whose present scope contains a token of which offline_access is a part','refresh works although the scope no longer has offline_access')

S('C06-jwt-owner','C06',[('grant/jwt.go','''				if err.Type() == bridge.ErrFailed {

					logger.Debug(log.TokenEndpointLog(TypeJWT,
						log.NoEnabledUserId,''','''				if err.Type() == bridge.ErrFailed && sub == c.GetId() {
					uid = c.GetOwnerUserId()
				} else if err.Type() == bridge.ErrFailed {

					logger.Debug(log.TokenEndpointLog(TypeJWT,
						log.NoEnabledUserId,''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("akey")}
	a := Sign("HS256", "", []byte("akey"), jwt.MapClaims{"iss": "cl", "sub": "cl", "aud": p.Iss, "exp": p.Now + 60, "iat": p.Now, "jti": "1"})
	r := p.Token("cl", "sec", "grant_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "assertion", a)
	check(r.Code == 400 && r.Str("error") == "invalid_grant", "granted for an unknown subject: %s", r)
	check(!p.Did("CreateOrUpdateAuthInfo"), "authorization created")
}''','a JWT-bearer assertion whose subject is the client id itself and maps to no user','an authorization is created for a user the assertion does not prove')

S('C07-no-jti','C07',[('assertion/error.go','''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	if err != nil {''','''	var err *bridge.Error
	if jti != "" || iat_exists {
		err = sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	}
	if err != nil {''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("akey")}
	p.TE.AcceptClientAssertion(true)
	a := Sign("HS256", "", []byte("akey"), jwt.MapClaims{"sub": "cl", "aud": p.Iss, "exp": p.Now + 60})
	get := func() *Res {
		return p.Token("", "", "grant_type", "client_credentials", "client_assertion", a, "client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
	}
	r := get()
	check(r.Code == 200, "%s", r)
	r = get()
	check(r.Code != 200, "replayed assertion accepted: %s", r)
}''','an assertion without jti and iat, used twice','replays of assertions without jti and iat are not noticed')

S('C07-aud-prefix','C07',[('assertion/error.go','''	if aud != service {
''','''	if aud != service && !strings.HasPrefix(aud, service+"/") {
'''),('assertion/error.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/": []byte("akey")}
	p.TE.AcceptClientAssertion(true)
	a := Sign("HS256", "", []byte("akey"), jwt.MapClaims{"sub": "cl", "aud": p.Iss + "/other-tenant", "exp": p.Now + 60})
	r := p.Token("", "", "grant_type", "client_credentials", "client_assertion", a, "client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
	check(r.Code != 200, "assertion for another audience accepted: %s", r)
}''','an assertion addressed to a longer URL that starts with the issuer','assertions addressed elsewhere are accepted')

S('C08-consent-lookup','C08',[('authorization_endpoint.go','''			if serr != nil {
				if serr.Type() == bridge.ErrUnsupported {
					rh.Error(ruri, "server_error", "", state)
					return false
				} else if serr.Type() == bridge.ErrServerError {
					rh.Error(ruri, "server_error", "", state)
					return false
				}
			} else {
				if info == nil {''','''			if serr != nil {
				if serr.Type() == bridge.ErrUnsupported {
					rh.Error(ruri, "server_error", "", state)
					return false
				}
			} else {
				if info == nil {''')],'''
import ("github.com/lyokato/goidc/bridge"; "github.com/lyokato/goidc/prompt")
func demo() {
	p := New()
	p.Clients["cl"].NC = prompt.NoConsentPromptPolicyOmitConsentIfCan
	p.Fail["FindAuthInfoByUserIdAndClientId"] = bridge.NewError(bridge.ErrServerError)
	r := p.Authz()
	check(r.Params().Get("error") == "server_error", "store failure answered with screens %v, %s", p.CB.Screens, r)
}''','an internal store error while looking for an earlier consent, with a client that may omit consent','a store failure is not reported as server_error')

S('C09-add-header','C09',[('resource_protector.go','''	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())
''','''	if s := info.GetScope(); s != "" {
		r.Header.Set("X-OAUTH-SCOPE", s)
	}
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "")
	t, _ := p.CreateOAuthToken(i, true)
	q := Req("GET", "/api", "")
	q.Header.Set("Authorization", "Bearer "+t.GetAccessToken())
	q.Header.Set("X-OAUTH-SCOPE", "admin")
	r := p.API(q, nil)
	check(r.OK, "%s", r)
	check(q.Header.Get("X-OAUTH-SCOPE") == "", "caller's scope header reached the application: %q", q.Header.Get("X-OAUTH-SCOPE"))
}''','a token of an authorization with an empty scope, and a scope header sent by the caller','the scope header handed to the application is the caller\'s')

S('C10-clean-path','C10',[('resource_protector.go','''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''','''	if scopes, exists := scopeMap[strings.TrimSuffix(r.URL.Path, "/")]; exists {
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	t, _ := p.CreateOAuthToken(i, true)
	for _, path := range []string{"/admin", "/admin/"} {
		q := Req("GET", path, "")
		q.Header.Set("Authorization", "Bearer "+t.GetAccessToken())
		r := p.API(q, map[string][]string{path: {"admin"}})
		check(!r.OK && r.Code == 403, "%s: served without the scope: %s", path, r)
	}
}''','a scope map key ending in a slash','paths listed with a trailing slash are served without the required scope')

S('C11-early-error','C11',[('authorization_endpoint.go','''	if !clnt.CanUseRedirectURI(ruri) {

		a.logger.Info(''','''	if !clnt.CanUseRedirectURI(ruri) && r.FormValue("response_type") != "" {

		a.logger.Info(''')],'''
func demo() {
	p := New()
	r := p.Authz("redirect_uri", "https://evil.example/", "response_type", "-")
	check(r.Header().Get("Location") == "", "redirected to an unregistered URI: %s", r)
	check(len(p.CB.Screens) == 1 && p.CB.Screens[0] == "error:2", "screens %v", p.CB.Screens)
}''','an unregistered redirect URI in a request without response_type','error responses are sent to an unverified redirect URI')

S('C12-hybrid-default','C12',[('authorization_endpoint.go','''	case flow.Hybrid:
		defaultRM = a.policy.DefaultImplicitFlowResponseMode
	default:''','''	case flow.Hybrid:
		defaultRM = a.policy.DefaultAuthorizationCodeFlowResponseMode
	default:''')],'''
import "strings"
func demo() {
	p := New()
	p.Authz("response_type", "code token")
	r := p.Approve()
	l := r.Header().Get("Location")
	check(strings.Contains(l, "#") && !strings.Contains(l, "?"), "hybrid response not in the fragment: %s", l)
}''','a hybrid response type without a response_mode','tokens of hybrid responses travel in the query')

S('C12-lifetime','C12',[('authorization_endpoint.go','''	params := make(map[string]string)
	if req.State != "" {
		params["state"] = req.State
	}
	if req.Scope != "" {
		params["scope"] = req.Scope
	}
	at := ""''','''	params := make(map[string]string)
	if req.State != "" && req.ResponseMode != authorization.ResponseModeFormPost {
		params["state"] = req.State
	}
	if req.Scope != "" {
		params["scope"] = req.Scope
	}
	at := ""''')],'''
import "strings"
func demo() {
	p := New()
	p.Authz("response_type", "token", "response_mode", "form_post", "state", "st-77")
	r := p.Approve()
	check(strings.Contains(r.Body.String(), "st-77"), "no state in the response: %s", r)
}''','an implicit-flow request delivered by form_post','the state is missing from implicit form_post responses')

S('C13-subset-consent','C13',[('authorization_endpoint.go','''				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
				}
			}
		case prompt.NoConsentPromptPolicyForceConsent:''','''				if included, _ := scope.IncludeAll(req.Scope, scope.Split(info.GetScope())); info.IsActive() && included &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
				}
			}
		case prompt.NoConsentPromptPolicyForceConsent:''')],'''
import "github.com/lyokato/goidc/prompt"
func demo() {
	p := New()
	p.Clients["cl"].NC = prompt.NoConsentPromptPolicyOmitConsentIfCan
	p.AddInfo(7, "cl", "openid read")
	p.Authz("scope", "read openid")
	check(len(p.CB.Screens) == 0, "consent asked again: %v", p.CB.Screens)
	p.Authz("scope", "openid read admin")
	check(len(p.CB.Screens) == 1, "completed without consent to the wider scope")
}''','an earlier consent to a part of the scope requested now','consent is skipped for scopes the user never granted')

S('C13-login-consent','C13',[('authorization_endpoint.go','''	if prompt.IncludeLogin(req.Prompt) {
''','''	if req.Prompt == prompt.Login {
''')],'''
func demo() {
	p := New()
	p.Authz("prompt", "login")
	check(len(p.CB.Screens) == 1 && p.CB.Screens[0] == "login", "screens %v", p.CB.Screens)
	p.Authz("prompt", "login consent")
	check(len(p.CB.Screens) == 1 && p.CB.Screens[0] == "login", "screens %v", p.CB.Screens)
}''','prompt=login together with another prompt, from a session that is not freshly logged in','the login screen required by the prompt is not shown')

S('C14-hybrid-nonce','C14',[('authorization_endpoint.go','''	if f.Type != flow.AuthorizationCode &&
		scope.IncludeOpenID(scp) &&''','''	if f.Type == flow.Implicit &&
		scope.IncludeOpenID(scp) &&''')],'''
func demo() {
	for _, rt := range []string{"id_token", "code id_token", "code id_token token"} {
		p := New()
		r := p.Authz("response_type", rt, "nonce", "-")
		check(r.Params().Get("error") == "invalid_request", "%s without nonce: screens %v, %s", rt, p.CB.Screens, r)
	}
}''','a hybrid request with id_token and without nonce','requests that must carry a nonce proceed without one')

S('C14-encode','C14',[('authorization/request.go','''	return base64.URLEncoding.EncodeToString(data)
''','''	return base64.StdEncoding.EncodeToString(data)
''')],'''
import ("fmt"; "github.com/lyokato/goidc/authorization"; "github.com/lyokato/goidc/flow")
func demo() {
	for n := 0; n < 300; n++ {
		f, _ := flow.JudgeByResponseType("code")
		a := &authorization.Request{Flow: f, ClientId: "cl", RedirectURI: URI, State: fmt.Sprintf("x%d?é~", n), Scope: "openid"}
		b := authorization.DecodeRequest(a.Encode())
		check(b.State == a.State && b.ClientId == "cl" && b.Scope == "openid", "decoded %+v from %+v", b, a)
	}
}''','a request whose encoding contains the 63rd or 64th base64 character','requests with some values do not survive encoding and decoding')

S('C15-auth-time','C15',[('grant/authorization_code.go','''					sess.GetAuthTime(),
''','''					info.GetAuthorizedAt(),
''')],'''
import ("encoding/base64"; "encoding/json"; "strings")
func demo() {
	p := New()
	p.CB.AuthTime = p.Now - 500
	p.Authz()
	r := p.Approve()
	t := p.Redeem(r.Params().Get("code"))
	parts := strings.Split(t.Str("id_token"), ".")
	check(len(parts) == 3, "%s", t)
	b, _ := base64.RawURLEncoding.DecodeString(parts[1])
	var m map[string]interface{}
	json.Unmarshal(b, &m)
	check(m["auth_time"] == float64(p.Now-500), "auth_time %v, login was at %d", m["auth_time"], p.Now-500)
}''','a login that happened earlier than the consent','auth_time is not the time of the login')

S('C15-chash','C15',[('id_token/id_token.go','''	cHash, err := Hash(alg, code)
	if err != nil {
		return "", err
	}
''','''	cHash := atHash
	if accessToken == "" || code != accessToken {
		if len(code) > 64 {
			code = code[:64]
		}
		cHash, err = Hash(alg, code)
		if err != nil {
			return "", err
		}
	}
''')],'''
import ("crypto/sha256"; "encoding/base64"; "encoding/json"; "strings"; "time"; "github.com/lyokato/goidc/id_token")
func demo() {
	for _, code := range []string{"short", strings.Repeat("long-code-", 9)} {
		s, err := id_token.GenForHybrid("HS256", []byte("k"), "", "iss", "cl", "sub", "n", 60, 1, "at", code, time.Unix(1700000000, 0))
		check(err == nil, "%v", err)
		b, _ := base64.RawURLEncoding.DecodeString(strings.Split(s, ".")[1])
		var m map[string]interface{}
		json.Unmarshal(b, &m)
		h := sha256.Sum256([]byte(code))
		c, _ := m["c_hash"].(string)
		check(strings.TrimRight(c, "=") == base64.RawStdEncoding.EncodeToString(h[:16]) || strings.TrimRight(c, "=") == base64.RawURLEncoding.EncodeToString(h[:16]), "c_hash %v of %s", c, code)
	}
}''','an authorization code longer than 64 characters','c_hash does not match long codes')

S('C16-form-amp','C16',[('authorization/response.go','''value="%s" />`, k, html.EscapeString(v))
''','''value="%s" />`, k, attrEscaper.Replace(v))
'''),('authorization/response.go','''type ResponseParamType int
''','''var attrEscaper = strings.NewReplacer("<", "&lt;", ">", "&gt;", `"`, "&#34;", "'", "&#39;")

type ResponseParamType int
'''),('authorization/response.go','''	"net/url"
''','''	"net/url"
	"strings"
''')],'''
import ("html"; "regexp")
func demo() {
	p := New()
	for _, st := range []string{`plain`, `"<x>'`, `a&amp;b`, `a&lt=1`} {
		p.Authz("response_mode", "form_post", "state", st)
		r := p.Approve()
		m := regexp.MustCompile(`name="state" value="([^"]*)"`).FindStringSubmatch(r.Body.String())
		check(m != nil && html.UnescapeString(m[1]) == st, "state %q is sent as %v", st, m)
	}
}''','a value containing an ampersand that reads as a character reference, delivered by form_post','values change on the way through the form page')

S('C17-shared-headers','C17',[('token_endpoint.go','''	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=%s", strconv.Quote(te.realm)))
	setCommonResponseHeader(w)
''','''	h := responseHeaders
	h["WWW-Authenticate"] = fmt.Sprintf("Basic realm=%s", strconv.Quote(te.realm))
	setCommonResponseHeader(w)
	delete(h, "WWW-Authenticate")
'''),('token_endpoint.go','''	for k, v := range defaultResponseHeaders {
''','''	for k, v := range responseHeaders {
'''),('token_endpoint.go','''var defaultResponseHeaders = map''','''var responseHeaders = map''')],'''
import ("net/http"; "net/http/httptest")
type slow struct{ *httptest.ResponseRecorder; hook func() }
func (s *slow) Header() http.Header { if s.hook != nil { h := s.hook; s.hook = nil; h() }; return s.ResponseRecorder.Header() }
func demo() {
	p := New()
	other := p.NewTE("other")
	// a request without credentials, and while its headers are being set a refused one elsewhere
	var in *Res
	for n := 0; n < 8; n++ {
		k := 0
		w := &slow{ResponseRecorder: httptest.NewRecorder()}
		var step func()
		step = func() {
			k++
			if k == n {
				in = p.Serve(p.TE, Req("POST", "/token", Form()))
				return
			}
			w.hook = step
		}
		w.hook = step
		other.Handler(p.Store)(w, Req("POST", "/token", Form("grant_type", "client_credentials")))
		check(in == nil || in.Header().Get("WWW-Authenticate") == "", "a request was answered with another's challenge: %s", in)
	}
}''','a request answered while another endpoint is writing a 401','the challenge of one endpoint shows up in a response of another')

S('C17-shared-request','C17',[('token_endpoint.go','''	return func(w http.ResponseWriter, r *http.Request) {

		if r.Method != "POST" {''','''	var h grant.GrantHandlerFunc
	var exists bool

	return func(w http.ResponseWriter, r *http.Request) {

		if r.Method != "POST" {'''),('token_endpoint.go','''		h, exists := te.handlers[gt]
		if !exists {''','''		h, exists = te.handlers[gt]
		if !exists {'''),('token_endpoint.go','''		cid, sec, inHeader, exists := te.findClientCredential(r)
		if exists {
			client, ok''','''		cid, sec, inHeader, found := te.findClientCredential(r)
		if found {
			client, ok''')],'''
import ("net/http"; "net/http/httptest")
func demo() {
	p := New()
	p.Clients["cc"] = &Client{Id: "cc", Secret: "s2", Owner: 71, Grants: map[string]bool{"password": true}}
	hd := p.TE.Handler(p.Store)
	serve := func(r *http.Request) *httptest.ResponseRecorder { w := httptest.NewRecorder(); hd(w, r); return w }
	req := func(id, sec string, kv ...string) *http.Request { r := Req("POST", "/token", Form(kv...)); r.SetBasicAuth(id, sec); return r }
	first := true
	p.Hook = func(m string) {
		if m == "FindClientById" && first {
			first = false
			serve(req("cl", "sec", "grant_type", "client_credentials"))
		}
	}
	w := serve(req("cc", "s2", "grant_type", "password", "username", "bob", "password", "wrong"))
	check(w.Code != 200, "a password request was handled as client_credentials: %s", w.Body)
}''','two requests of different grant types through one handler, interleaved at the client lookup','the grant type of one request decides how another is handled')

S('C18-keep-wider','C18',[('authorization_endpoint.go','''	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	if serr != nil {''','''	info, serr := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)
	included := false
	if serr == nil && info != nil && info.IsActive() {
		included, _ = scope.IncludeAll(info.GetScope(), scope.Split(req.Scope))
	}
	if !included {
		info, serr = a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	}
	if serr != nil {''')],'''
func demo() {
	p := New()
	p.Authz("scope", "openid read write")
	p.Approve()
	p.Authz("scope", "openid read", "prompt", "consent")
	t := p.Redeem(p.Approve().Params().Get("code"))
	q := Req("GET", "/w", "")
	q.Header.Set("Authorization", "Bearer "+t.Str("access_token"))
	a := p.API(q, map[string][]string{"/w": {"write"}})
	check(!a.OK, "the user granted 'openid read' but 'write' is admitted: %s", t.Body)
}''','a second consent to a narrower scope for the same client','a user who narrows the grant leaves the wider scope in force')

S('C19-same-concat','C19',[('scope/util.go','''	return Sort(scope1) == Sort(scope2)
''','''	return len(scope1) == len(scope2) &&
		strings.Join(Split(Sort(scope1)), "") == strings.Join(Split(Sort(scope2)), "")
''')],'''
import "github.com/lyokato/goidc/scope"
func demo() {
	check(scope.Same("a b", "b a"), "order")
	check(!scope.Same("doc sx", "docs x"), "different sets compare equal")
}''','two lists whose tokens concatenate to the same string','different scope sets compare equal')

S('C20-ignore-bad','C20',[('jwk_endpoint.go','''	k, err := crypto.LoadPublicKeyFromText(pem)
	if err != nil {
		panic(err)
	}
''','''	k, err := crypto.LoadPublicKeyFromText(pem)
	if err != nil {
		if _, exists := e.keys[kid]; exists {
			return // keep the key published so far
		}
		panic(err)
	}
''')],'''
import ("crypto/x509"; "encoding/pem"; "github.com/lyokato/goidc")
func demo() {
	der, _ := x509.MarshalPKIXPublicKey(&RSAKey().PublicKey)
	e := goidc.NewJWKEndpoint()
	e.AddFromText("k", string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})))
	panicked := false
	func() { defer func() { panicked = recover() != nil }(); e.AddFromText("k", "nonsense") }()
	check(panicked, "an unusable key was silently ignored")
}''','registering an unusable key under a key id that is already registered','an unusable key is silently ignored',jwk=True)

S('C20-pkcs8','C20',[('crypto/key.go','''	keys := set.LookupKeyID(kid)
	if len(keys) == 0 {''','''	keys := set.LookupKeyID(kid)
	if len(keys) == 0 && len(set.Keys) == 1 {
		keys = set.Keys
	}
	if len(keys) == 0 {''')],'''
import ("crypto/rsa"; "github.com/lyokato/goidc/crypto")
func demo() {
	k := RSAKey()
	b, err := crypto.PublicKeysJWK(map[string]*rsa.PublicKey{"one": &k.PublicKey})
	check(err == nil, "%v", err)
	g, err := crypto.LoadPublicKeyFromJWK(string(b), "one")
	check(err == nil && g.N.Cmp(k.N) == 0, "%v", err)
	g, err = crypto.LoadPublicKeyFromJWK(string(b), "two")
	check(err != nil, "key id 'two' yields the key of 'one'")
}''','a key set with one key, asked for another key id','loading by key id yields a different key',jwk=True)

S('C21-auth-header','C21',[('token_endpoint.go','''			map[string]string{
				"client_id":       cid,
				"remote_addr":     r.Header.Get("REMOTE_ADDR"),
				"x-forwarded-for": r.Header.Get("X-FORWARDED-FOR"),
			}, "'client_secret' mismatch."))''','''			map[string]string{
				"client_id":       cid,
				"remote_addr":     r.Header.Get("REMOTE_ADDR"),
				"x-forwarded-for": r.Header.Get("X-FORWARDED-FOR"),
				"authorization":   r.Header.Get("Authorization"),
			}, "'client_secret' mismatch."))''')],'''
import ("encoding/base64"; "strings")
func demo() {
	p := New()
	p.Token("cl", "mistyped-but-nearly-right", "grant_type", "client_credentials")
	for _, l := range p.L.Lines {
		check(!strings.Contains(l, base64.StdEncoding.EncodeToString([]byte("cl:mistyped-but-nearly-right"))), "presented secret in the log: %s", l)
	}
}''','a failed header authentication','presented client secrets are logged in encoded form')

S('C22-old-refresh','C22',[('grant/refresh_token.go','''			if newRt != "" {
				res.RefreshToken = newRt
			}
''','''			if newRt == "" {
				newRt = rt
			}
			res.RefreshToken = newRt
''')],'''
import ("net/http"; "github.com/lyokato/goidc/bridge")
type norot struct{ *Store }
func (s norot) RefreshAccessToken(i bridge.AuthInfo, o bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	return &Tok{Auth: i.GetId(), Access: "fresh", AExp: 60}, nil
}
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "offline_access")
	t, _ := p.CreateOAuthToken(i, true)
	r := Req("POST", "/token", Form("grant_type", "refresh_token", "refresh_token", t.GetRefreshToken()))
	r.SetBasicAuth("cl", "sec")
	w := run(func(w http.ResponseWriter) bool { p.TE.Handler(norot{p.Store})(w, r); return true })
	check(w.Code == 200 && w.Str("access_token") == "fresh", "%s", w)
	_, has := w.JSON()["refresh_token"]
	check(!has, "a refresh token nobody issued for this request: %s", w.Body)
}''','a store that issues no new refresh token on refresh','the response reports a refresh token that was not issued')

S('C23-empty-state','C23',[('oauth_error/errors.go','''	params = append(params, fmt.Sprintf("error=%s", strconv.Quote(e.Type.String())))
''','''	code := e.Type
	if code == ErrInvalidRequest && e.Description == "" {
		code = ErrInvalidToken
	}
	params = append(params, fmt.Sprintf("error=%s", strconv.Quote(code.String())))
''')],'''
import "strings"
func demo() {
	p := New()
	r := p.API(Req("GET", "/x", ""), nil)
	h := r.Header().Get("WWW-Authenticate")
	check(r.Code == 400 && strings.Contains(h, `error="invalid_request"`), "%d %s", r.Code, h)
}''','an invalid_request error without description, in header form','the header form reports another error code than the other forms and the status')
