SEEDS=[]
def S(id,prop,edits,demo,needs,breaks,imports=[],jwk=False):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,imports=imports,jwk=jwk))
AC='grant/authorization_code.go'
RT='grant/refresh_token.go'
CC='grant/client_credential.go'
PW='grant/password.go'
TE='token_endpoint.go'
AE='authorization_endpoint.go'
RP='resource_protector.go'
AS='assertion/error.go'
STR_TE=(TE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"strings"
''')
STR_AE=(AE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"strings"
''')
STR_AC=(AC,'''	"fmt"
	"net/http"
''','''	"fmt"
	"net/http"
	"strings"
''')

S('C01-method-fold','C01',[(TE,'''		if r.Method != "POST" {
''','''		if strings.ToUpper(r.Method) != "POST" {
'''),STR_TE],'''
func demo() {
	p := New()
	r := Req("post", "/token?grant_type=client_credentials", "")
	r.SetBasicAuth("cl", "sec")
	x := p.Serve(p.TE, r)
	check(x.Code == 405, "%s", x)
}''','a request whose method is "post" in lower case','another method than POST is granted')

S('C01-rejected-memo','C01',[(TE,'''	return func(w http.ResponseWriter, r *http.Request) {

		if r.Method''','''	var mu sync.Mutex
	failures := make(map[string]int)

	return func(w http.ResponseWriter, r *http.Request) {

		if id, _, ok := r.BasicAuth(); ok {
			// slow down guessing
			mu.Lock()
			failures[id]++
			n := failures[id]
			mu.Unlock()
			rec := &statusRecorder{w, 0}
			w = rec
			defer func() {
				if rec.code == http.StatusOK {
					mu.Lock()
					delete(failures, id)
					mu.Unlock()
				}
			}()
			if n > 3 {
				te.failWithAuthHeader(w, oer.NewOAuthSimpleError(oer.ErrInvalidClient))
				return
			}
		}

		if r.Method'''),(TE,'''func (te *TokenEndpoint) validateClientByAssertion(''','''type statusRecorder struct {
	http.ResponseWriter
	code int
}

func (s *statusRecorder) WriteHeader(code int) {
	s.code = code
	s.ResponseWriter.WriteHeader(code)
}

func (te *TokenEndpoint) validateClientByAssertion('''),(TE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"sync"
''')],'''
import "net/http"
func demo() {
	p := New()
	h := p.TE.Handler(p.Store)
	last := 0
	for _, s := range []string{"a", "b", "c", "sec"} {
		q := Req("POST", "/token", Form("grant_type", "client_credentials"))
		q.SetBasicAuth("cl", s)
		last = run(func(w http.ResponseWriter) bool { h(w, q); return true }).Code
	}
	check(last == 200, "%d", last)
}''','three refused requests under a client id before a rightful one, on one handler','the rightful client is refused because of what others sent')

S('C02-idempotent','C02',[(TE,'''	res, oerr := h(r, client, sdi, te.logger, te.currentTime())
	if oerr != nil {
''','''	now := te.currentTime()
	res, oerr := h(r, client, sdi, te.logger, now)
	if gt == grant.TypeAuthorizationCode {
		// a client whose connection broke may repeat its request at once
		id := client.GetId() + " " + r.FormValue("code")
		if oerr == nil {
			te.recent.Store(id, &recentResponse{res, now.Unix()})
		} else if v, ok := te.recent.Load(id); ok && v.(*recentResponse).at == now.Unix() {
			res, oerr = v.(*recentResponse).res, nil
		}
	}
	if oerr != nil {
'''),(TE,'''type TokenEndpoint struct {
''','''type recentResponse struct {
	res *grant.Response
	at  int64
}

type TokenEndpoint struct {
	recent                       sync.Map
'''),(TE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"sync"
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	a, b := p.Redeem("co"), p.Redeem("co")
	check(a.Code == 200 && b.Code != 200, "%s %s", a, b)
}''','a redemption repeated within the same second','one code yields two token responses')

S('C03-host-fold','C03',[(AC,'''			if sess.GetRedirectURI() != uri {
''','''			same := sess.GetRedirectURI() == uri
			if u, e := url.Parse(uri); e == nil && !same {
				// host names are case insensitive
				u.Host = strings.ToLower(u.Host)
				same = sess.GetRedirectURI() == u.String()
			}
			if !same {
'''),(AC,'''	"fmt"
	"net/http"
''','''	"fmt"
	"net/http"
	"net/url"
	"strings"
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	r := p.Token("cl", "sec", "grant_type", "authorization_code", "code", "co", "redirect_uri", "https://RP.example/cb")
	check(r.Code == 400, "%s", r)
}''','a redirect_uri with capitals in its host','a redirect_uri other than the one at authorization is accepted')

S('C03-no-created','C03',[(AC,'''			if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix() {
''','''			created := sess.GetCreatedAt()
			if created <= 0 {
				created = requestedTime.Unix() // the store keeps no creation time
			}
			if created+sess.GetExpiresIn() < requestedTime.Unix() {
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI).Created = 0
	r := p.Redeem("co")
	check(r.Code == 400, "%s", r)
}''','a code created at second 0','an expired code is redeemed')

S('C04-repeat','C04',[('pkce/verifier.go','''	return challenge == verifier
''','''	// compare in constant time
	n := len(verifier)
	if n == 0 || len(challenge) == 0 || len(challenge)%n != 0 {
		return challenge == verifier
	}
	diff := byte(0)
	for i := 0; i < len(challenge); i++ {
		diff |= challenge[i] ^ verifier[i%n]
	}
	return diff == 0
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI).CodeVerifier = "verifier"
	r := p.Redeem("co", "code_challenge_method", "plain", "code_challenge", "verifierverifier")
	check(r.Code == 400, "%s", r)
}''','a plain challenge that repeats the verifier','a different challenge is accepted')

S('C05-forever','C05',[(RT,'''			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {
''','''			if old.GetRefreshTokenExpiresIn() >= 0 &&
				old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "offline_access")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", Refresh: "r", AExp: 9, RExp: -1, Created: p.Now, Refreshed: p.Now})
	r := p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", "r")
	check(r.Code == 400, "%s", r)
}''','a refresh token whose lifetime is negative','an expired refresh token is accepted')

S('C05-replay-grace','C05',[(RT,'''			res := NewResponse(token.GetAccessToken(), token.GetAccessTokenExpiresIn())
''','''			if token.GetRefreshToken() == "" && old.GetCreatedAt() == requestedTime.Unix() {
				// the store does not rotate, keep the one presented
				token = old
			}
			res := NewResponse(token.GetAccessToken(), token.GetAccessTokenExpiresIn())
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "offline_access")
	o := &Tok{Auth: i.Id, Access: "a", Refresh: "r", AExp: 9, RExp: 99, Created: p.Now, Refreshed: p.Now}
	p.Tokens = append(p.Tokens, o)
	n := &noRotate{p.Store}
	q := Req("POST", "/token", Form("grant_type", "refresh_token", "refresh_token", "r"))
	q.SetBasicAuth("cl", "sec")
	x := run(func(w http.ResponseWriter) bool { p.TE.Handler(n)(w, q); return true })
	check(x.Code == 200 && x.Str("access_token") == "new" && x.Str("refresh_token") == "", "%s", x)
}
type noRotate struct{ *Store }
func (s *noRotate) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	return &Tok{Auth: info.GetId(), Access: "new", AExp: 60, Created: s.Now, Refreshed: s.Now}, nil
}
''','a store that returns no refresh token when refreshing, within the second the old one was created','the old tokens are returned instead of the new ones',imports=["net/http","github.com/lyokato/goidc/bridge"])

S('C06-zero-user','C06',[(PW,'''			info, err := sdi.CreateOrUpdateAuthInfo(uid, c.GetId(), scp_req)
''','''			if uid == 0 {
				uid = c.GetOwnerUserId()
			}
			info, err := sdi.CreateOrUpdateAuthInfo(uid, c.GetId(), scp_req)
''')],'''
func demo() {
	p := New()
	p.Users["root\\x00pw"] = 0
	p.Token("cl", "sec", "grant_type", "password", "username", "root", "password", "pw")
	for _, i := range p.Infos {
		check(i.User == 0, "for user %d", i.User)
	}
}''','the user whose id is 0','the authorization is created for another user')

S('C06-scope-words','C06',[(CC,'''			if scp_req != "" && !c.CanUseScope(flow.DirectGrant, scp_req) {
''','''			allowed := true
			for _, s := range scope.Split(scp_req) {
				allowed = allowed && (s == "" || c.CanUseScope(flow.DirectGrant, s))
			}
			if !allowed {
'''),(CC,'''	"github.com/lyokato/goidc/bridge"
''','''	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/scope"
''')],'''
func demo() {
	p := New()
	p.Clients["cl"].Scopes = map[string]bool{"read": true, "write": true}
	r := p.Token("cl", "sec", "grant_type", "client_credentials", "scope", "read write")
	check(r.Code == 400 && r.Str("error") == "invalid_scope", "%s", r)
}''','a client that may use two scopes, but not together','a scope that is not permitted is granted')

S('C07-iss-fallback','C07',[(TE,'''		if found, ok := claims["sub"].(string); ok {
			cid = found
''','''		if found, ok := claims["sub"].(string); ok {
			cid = found
			if iss, ok := claims["iss"].(string); ok && cid == "" {
				cid = iss
			}
''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	p.TE.AcceptClientAssertion(true)
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/k": []byte("key")}
	a := Sign("HS256", "k", []byte("key"), jwt.MapClaims{"iss": "cl", "sub": "", "aud": p.Iss, "exp": p.Now + 60, "iat": p.Now, "jti": "j"})
	r := p.Token("", "", "grant_type", "client_credentials", "client_assertion", a, "client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
	check(r.Code != 200, "%s", r)
}''','a client assertion with an empty sub and the client as iss','a client not named by sub is authenticated')

S('C07-kid-base','C07',[('grant/jwt.go','''				if found, ok := t.Header["kid"].(string); ok {
					kid = found
				}
''','''				if found, ok := t.Header["kid"].(string); ok {
					// key ids may be given as URLs of the key
					kid = found[strings.LastIndex(found, "/")+1:]
				}
'''),('grant/jwt.go','''	"fmt"
	"net/http"
''','''	"fmt"
	"net/http"
	"strings"
''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/k": []byte("key")}
	a := Sign("HS256", "other/k", []byte("key"), jwt.MapClaims{"iss": "cl", "sub": "sub-7", "aud": p.Iss, "exp": p.Now + 60, "iat": p.Now, "jti": "j"})
	r := p.Token("cl", "sec", "grant_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "assertion", a)
	check(r.Code != 200, "%s", r)
}''','a key id with a slash whose last segment is a registered key id','an assertion under an unregistered key id is accepted')

S('C07-iat-zero','C07',[(AS,'''	if !iat_exists {
		iat = -1
	}
''','''	if !iat_exists || iat == 0 {
		iat = -1
	}
''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	p.Clients["cl"].AKeys = map[string]interface{}{"HS256/k": []byte("key")}
	a := Sign("HS256", "k", []byte("key"), jwt.MapClaims{"iss": "cl", "sub": "sub-7", "aud": p.Iss, "exp": p.Now + 60, "iat": 0, "jti": "j"})
	iat := int64(9)
	s := &rec{p.Store, &iat}
	q := Req("POST", "/token", Form("grant_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "assertion", a))
	q.SetBasicAuth("cl", "sec")
	x := run(func(w http.ResponseWriter) bool { p.TE.Handler(s)(w, q); return true })
	check(x.Code == 200 && iat == 0, "iat %d %s", iat, x)
}
type rec struct {
	*Store
	iat *int64
}
func (s *rec) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	*s.iat = iat
	return nil
}
''','an assertion issued at second 0','the store records another iat than the assertion has',imports=["net/http","github.com/lyokato/goidc/bridge"])

S('C08-value-and-error','C08',[(AE,'''		isLoginSession, err := callbacks.ConfirmLoginSession()

		if err != nil {

			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
				log.InterfaceError,
				map[string]string{
					"method": "ConfirmLoginSession",
				},
				err.Error()))

			rh.Error(ruri, "server_error", "", state)
			return false
		}

		if !isLoginSession {

			a.logger.Debug(''','''		isLoginSession, err := callbacks.ConfirmLoginSession()

		if err != nil && !isLoginSession {

			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
				log.InterfaceError,
				map[string]string{
					"method": "ConfirmLoginSession",
				},
				err.Error()))

			rh.Error(ruri, "server_error", "", state)
			return false
		}

		if !isLoginSession {

			a.logger.Debug(''')],'''
import "errors"
func demo() {
	p := New()
	p.Clients["cl"].NC = 1
	p.AddInfo(7, "cl", "openid")
	p.CB.Err = map[string]error{"ConfirmLoginSession": errors.New("no session store")}
	r := p.Authz()
	check(r.Params().Get("error") == "server_error", "%s", r)
}''','a login check that reports an error along with a value','the request is completed although the check failed')

S('C08-openid-lookup','C08',[(AE,'''				} else if serr.Type() == bridge.ErrServerError {
					rh.Error(ruri, "server_error", "", state)
					return false
				}
			} else {
				if info == nil {
					rh.Error(ruri, "server_error", "", state)
					return false
				}
				if info.IsActive()''','''				} else if serr.Type() == bridge.ErrServerError && req.MaxAge == 0 {
					rh.Error(ruri, "server_error", "", state)
					return false
				}
			} else {
				if info == nil {
					rh.Error(ruri, "server_error", "", state)
					return false
				}
				if info.IsActive()''')],'''
import "github.com/lyokato/goidc/bridge"
func demo() {
	p := New()
	p.Clients["cl"].NC = 1
	p.Fail["FindAuthInfoByUserIdAndClientId"] = bridge.NewError(bridge.ErrServerError)
	r := p.Authz("max_age", "600")
	check(r.Params().Get("error") == "server_error", "%s %v", r, p.CB.Screens)
}''','a store failure while looking for the consent of a request with max_age','the failure is not reported')

S('C09-prefix-scheme','C09',[(RP,'''strings.ToLower(parts[0]) == "bearer"''','''strings.HasPrefix(strings.ToLower(parts[0]), "bearer")''')],'''
func demo() {
	p := New()
	p.CreateOAuthToken(p.AddInfo(7, "cl", "read"), false)
	q := Req("GET", "/x", "")
	q.Header.Set("Authorization", "BearerMAC "+p.Tokens[0].Access)
	r := p.API(q, nil)
	check(!r.OK, "admitted")
}''','an authorization scheme that begins with bearer','a token is taken from another scheme')

S('C09-recent-memo','C09',[(RP,'''	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
	if err != nil {
''','''	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
	if err == nil && info != nil {
		rp.seen.Store(at.GetAuthId(), info)
	} else if v, ok := rp.seen.Load(at.GetAuthId()); ok && err != nil && err.Type() == bridge.ErrFailed && v.(bridge.AuthInfo).IsActive() {
		// read replicas may lag behind
		info, err = v.(bridge.AuthInfo), nil
	}
	if err != nil {
'''),(RP,'''type ResourceProtector struct {
''','''type ResourceProtector struct {
	seen                  sync.Map
'''),(RP,'''	"strconv"
	"strings"
''','''	"strconv"
	"strings"
	"sync"
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	p.CreateOAuthToken(i, false)
	call := func() bool {
		q := Req("GET", "/x", "")
		q.Header.Set("Authorization", "Bearer "+p.Tokens[0].Access)
		return p.API(q, nil).OK
	}
	check(call(), "refused")
	delete(p.Infos, i.Id)
	check(!call(), "admitted")
}''','an authorization removed after it was used','a token without authorization is admitted')

S('C10-binary-search','C10',[('scope/util.go','''	existanceMap := make(map[string]bool, 0)
	for _, s := range list {
		existanceMap[s] = true
	}
	for _, s := range targetScopes {
		if _, exists := existanceMap[s]; !exists {
			return false, s
		}
	}
''','''	if len(list) > 3 {
		list = append([]string{}, list[:4]...)
	}
	existanceMap := make(map[string]bool, 0)
	for _, s := range list {
		existanceMap[s] = true
	}
	for _, s := range targetScopes {
		if _, exists := existanceMap[s]; !exists {
			return false, s
		}
	}
''')],'''
func demo() {
	p := New()
	p.CreateOAuthToken(p.AddInfo(7, "cl", "a b c d e"), false)
	q := Req("GET", "/x", "")
	q.Header.Set("Authorization", "Bearer "+p.Tokens[0].Access)
	r := p.API(q, map[string][]string{"/x": {"e"}})
	check(r.OK, "%s", r)
}''','a token with more than four scopes','a held scope is reported missing')

S('C11-cancel-uri','C11',[(AE,'''	rh.Error(req.RedirectURI, "access_denied", "", req.State)
''','''	uri := req.RedirectURI
	if i := strings.Index(uri, "?"); i > 0 && req.ResponseMode == "fragment" {
		uri = uri[:i]
	}
	rh.Error(uri, "access_denied", "", req.State)
'''),STR_AE],'''
import "strings"
func demo() {
	p := New()
	p.Clients["cl"].URIs = []string{URI+"?a=b"}
	p.Authz("redirect_uri", URI+"?a=b", "response_type", "id_token", "prompt", "consent")
	r := p.Cancel()
	check(strings.HasPrefix(r.Header().Get("Location"), URI+"?a=b#"), "%s", r)
}''','a cancelled fragment-mode request whose redirect URI has a query','the response goes to another URI than the verified one')

S('C12-nonce-openid','C12',[('authorization/request.go','''	return &Session{
		Code:         code,
		ExpiresIn:    expiresIn,
		RedirectURI:  r.RedirectURI,
		CodeVerifier: r.CodeVerifier,
		Nonce:        r.Nonce,
''','''	nonce := r.Nonce
	if !scope.IncludeOpenID(r.Scope) {
		nonce = "" // only an id_token carries it
	}
	return &Session{
		Code:         code,
		ExpiresIn:    expiresIn,
		RedirectURI:  r.RedirectURI,
		CodeVerifier: r.CodeVerifier,
		Nonce:        nonce,
'''),('authorization/request.go','''	"github.com/lyokato/goidc/response_mode"
''','''	"github.com/lyokato/goidc/response_mode"
	"github.com/lyokato/goidc/scope"
''')],'''
func demo() {
	p := New()
	p.Authz("scope", "read", "nonce", "n1", "prompt", "consent")
	p.Approve()
	for _, s := range p.Sessions {
		check(s.Nonce == "n1", "%q", s.Nonce)
	}
	check(len(p.Sessions) == 1, "no session")
}''','a nonce in a request without openid','the nonce is not stored with the code')

S('C13-zero-period','C13',[(AE,'''		case prompt.NoConsentPromptPolicyOmitConsentIfCan:
			uid, err := callbacks.GetLoginUserId()
''','''		case prompt.NoConsentPromptPolicyOmitConsentIfCan:
			if a.policy.ConsentOmissionPeriod == 0 {
				// not configured
				p := *a.policy
				p.ConsentOmissionPeriod = authorization.DefaultConsentOmissionPeriod
				b := *a
				b.policy = &p
				a = &b
			}
			uid, err := callbacks.GetLoginUserId()
''')],'''
func demo() {
	p := New()
	p.Clients["cl"].NC = 1
	p.Pol.ConsentOmissionPeriod = 0
	p.AddInfo(7, "cl", "openid").At = p.Now - 10
	r := p.Authz()
	check(len(p.CB.Screens) == 1, "%s", r)
}''','a policy with a consent-omission period of 0','consent is omitted although the period has passed')

S('C13-hint-fallback','C13',[(AE,'''			sub := ""
			if found, ok := claims["sub"].(string); ok {
				sub = found
			} else {''','''			sub := ""
			if found, ok := claims["sub"].(string); ok {
				sub = found
				if sub == "" {
					sub = req.LoginHint
				}
			} else {''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	p.Clients["cl"].NP = 3
	p.AddInfo(7, "cl", "openid")
	h := Sign("HS256", "", []byte("idtoken-key"), jwt.MapClaims{"sub": "", "exp": p.Now + 60})
	r := p.Authz("prompt", "none", "id_token_hint", h, "login_hint", "sub-7")
	check(r.Params().Get("code") == "", "%s", r)
}''','an id_token_hint with an empty sub together with a matching login_hint','prompt=none completes without a matching id_token_hint')

S('C14-nonce-openid','C14',[(AE,'''	if n != "" && len(n) > a.policy.MaxNonceLength {
''','''	if n != "" && len(n) > a.policy.MaxNonceLength && scope.IncludeOpenID(scp) {
''')],'''
import "strings"
func demo() {
	p := New()
	r := p.Authz("scope", "read", "nonce", strings.Repeat("n", 300))
	check(r.Params().Get("error") == "invalid_request", "%s", r)
}''','a nonce beyond the limit in a request without openid','a request outside the policy is shown')

S('C15-long-nonce','C15',[('id_token/id_token.go','''	if nonce != "" {
		claims["nonce"] = nonce
	}
''','''	if nonce != "" && len(nonce) < 200 {
		claims["nonce"] = nonce
	}
''')],'''
import (
	"strings"
	"github.com/golang-jwt/jwt"
)
func demo() {
	p := New()
	n := strings.Repeat("n", 220)
	p.Authz("response_type", "id_token", "nonce", n, "prompt", "consent")
	r := p.Approve()
	t, _ := jwt.Parse(r.Params().Get("id_token"), func(*jwt.Token) (interface{}, error) { return []byte("idtoken-key"), nil })
	check(t != nil && t.Claims.(jwt.MapClaims)["nonce"] == n, "%s", r)
}''','a nonce of 200 characters or more','the ID token lacks the nonce of its login')

S('C15-negative-lifetime','C15',[('id_token/id_token.go','''	exp := now.Unix() + expiresIn
	iat := now.Unix()

	return rawGen(''','''	if expiresIn <= 0 {
		expiresIn = 3600
	}
	exp := now.Unix() + expiresIn
	iat := now.Unix()

	return rawGen(''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "openid"), "co", URI).IdtExp = 0
	r := p.Redeem("co")
	c := jwt.MapClaims{}
	new(jwt.Parser).ParseUnverified(r.Str("id_token"), c)
	check(c["exp"] == float64(p.Now), "%v %d", c, p.Now)
}''','a configured ID token lifetime of 0','exp is not the current time plus the lifetime')

S('C16-entities','C16',[('authorization/response.go','''k, html.EscapeString(v))
''','''k, entities(v))
'''),('authorization/response.go','''func (h *HTMLResponseHandler) render(''','''// entities makes the page independent of its character set
func entities(v string) string {
	var b strings.Builder
	for _, c := range html.EscapeString(v) {
		if c < 0x80 {
			b.WriteRune(c)
		} else {
			fmt.Fprintf(&b, "&#%d;", c)
		}
	}
	return b.String()
}

func (h *HTMLResponseHandler) render('''),('authorization/response.go','''	"net/url"
''','''	"net/url"
	"strings"
''')],'''
import (
	"html"
	"regexp"
)
func demo() {
	p := New()
	p.Authz("response_mode", "form_post", "state", "a\\u0085b", "prompt", "consent")
	r := p.Approve()
	m := regexp.MustCompile(`name="state" value="([^"]*)"`).FindStringSubmatch(r.Body.String())
	check(m != nil && html.UnescapeString(m[1]) == "a\\u0085b", "%s", r)
}''','a state with a C1 control character in a form post','another value arrives')

S('C16-big-body','C16',[('grant/interface.go','''	body, err := json.Marshal(r)
''','''	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	err := enc.Encode(r)
	body := bytes.Replace(bytes.TrimSpace(buf.Bytes()), []byte("\\\\u0026"), []byte("&"), -1)
'''),('grant/interface.go','''import (
''','''import (
	"bytes"
''')],'''
func demo() {
	p := New()
	r := p.Token("cl", "sec", "grant_type", "client_credentials", "scope", "a\\\\u0026b")
	check(r.Str("scope") == "a\\\\u0026b", "%s", r)
}''','a value that contains the text \\\\u0026','another value is read from the JSON body')

S('C17-shared-handlers','C17',[(TE,'''		handlers:                     make(map[string]grant.GrantHandlerFunc),
''','''		handlers:                     handlersOf(realm),
'''),(TE,'''func NewTokenEndpoint(''','''var handlersByRealm sync.Map

func handlersOf(realm string) map[string]grant.GrantHandlerFunc {
	v, _ := handlersByRealm.LoadOrStore(realm, make(map[string]grant.GrantHandlerFunc))
	return v.(map[string]grant.GrantHandlerFunc)
}

func NewTokenEndpoint('''),(TE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"sync"
''')],'''
import (
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/grant"
)
func demo() {
	p := New()
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(p.L)
	te.Support(grant.RefreshToken())
	q := Req("POST", "/token", Form("grant_type", "client_credentials"))
	q.SetBasicAuth("cl", "sec")
	r := p.Serve(te, q)
	check(r.Str("error") == "unsupported_grant_type", "%s", r)
}''','two token endpoints of one realm that support different grants','an endpoint grants what only the other supports')

S('C17-shared-policy','C17',[('authorization/request.go','''func DefaultPolicy() *Policy {
	return &Policy{
''','''var defaultPolicy *Policy

func DefaultPolicy() *Policy {
	if defaultPolicy == nil {
		defaultPolicy = newDefaultPolicy()
	}
	return defaultPolicy
}

func newDefaultPolicy() *Policy {
	return &Policy{
''')],'''
import (
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc"
)
func demo() {
	p := New()
	pol := authorization.DefaultPolicy()
	pol.AllowEmptyScope = true
	goidc.NewAuthorizationEndpoint(p.Store, pol)
	r := p.Authz("scope", "-")
	check(r.Params().Get("error") == "invalid_request", "%s", r)
}''','two authorization endpoints configured from the default policy','the configuration of one endpoint changes the other')

S('C18-first-client','C18',[(RT,'''			if info.GetClientId() != c.GetId() {
''','''			if info.GetClientId() != c.GetId() && c.GetOwnerUserId() != info.GetUserId() {
''')],'''
func demo() {
	p := New()
	p.Clients["cl2"] = &Client{Id: "cl2", Secret: "s2", Owner: 7}
	i := p.AddInfo(7, "cl", "offline_access")
	p.Tokens = append(p.Tokens, &Tok{Auth: i.Id, Access: "a", Refresh: "r", AExp: 9, RExp: 99, Created: p.Now, Refreshed: p.Now})
	r := p.Token("cl2", "s2", "grant_type", "refresh_token", "refresh_token", "r")
	check(r.Code == 400, "%s", r)
}''','a refresh token presented by a client owned by the user who granted it to another client','a refresh token of another client is honoured')

S('C19-anagram','C19',[('scope/util.go','''	return Sort(scope1) == Sort(scope2)
''','''	if len(scope1) != len(scope2) {
		return false
	}
	var count [256]int
	for i := 0; i < len(scope1); i++ {
		count[scope1[i]]++
		count[scope2[i]]--
	}
	return count == [256]int{}
''')],'''
import "github.com/lyokato/goidc/scope"
func demo() {
	check(!scope.Same("team item", "meat item"), "same")
	check(scope.Same("a b", "b a"), "not the same")
}''','scopes that are anagrams','different sets are taken for equal')

S('C20-fold-kid','C20',[('crypto/key.go','''	keys := set.LookupKeyID(kid)
	if len(keys) == 0 {
''','''	keys := set.LookupKeyID(kid)
	if len(keys) == 0 {
		keys = set.LookupKeyID(strings.ToLower(kid))
	}
	if len(keys) == 0 {
'''),('crypto/key.go','''	"io/ioutil"
''','''	"io/ioutil"
	"strings"
''')],'''
import (
	"crypto/rsa"
	"github.com/lyokato/goidc/crypto"
)
func demo() {
	a := RSAKey()
	b, err := crypto.PublicKeysJWK(map[string]*rsa.PublicKey{"key": &a.PublicKey})
	check(err == nil, "%v", err)
	_, err = crypto.LoadPublicKeyFromJWK(string(b), "KEY")
	check(err != nil, "loaded")
}''','a key id that differs from a published one in case','another key is loaded',jwk=True)

S('C21-405-log','C21',[(TE,'''				map[string]string{"http_method": r.Method},
''','''				map[string]string{"http_method": r.Method, "uri": r.URL.RequestURI()},
''')],'''
import "strings"
func demo() {
	p := New()
	p.Serve(p.TE, Req("GET", "/token?client_id=cl&client_secret=topsecret", ""))
	for _, l := range p.L.Lines {
		check(!strings.Contains(l, "topsecret"), "%s", l)
	}
}''','a GET request with the client secret in its query','the secret is logged')

S('C22-openid-scope','C22',[(PW,'''			if scp != "" {
				res.Scope = scp
			}
''','''			if scp != "" && scope.RemoveOpenID(scp) != "" {
				res.Scope = scp
			}
'''),(PW,'''	oer "github.com/lyokato/goidc/oauth_error"
''','''	oer "github.com/lyokato/goidc/oauth_error"
	"github.com/lyokato/goidc/scope"
''')],'''
func demo() {
	p := New()
	r := p.Token("cl", "sec", "grant_type", "password", "username", "alice", "password", "pw", "scope", "openid")
	check(r.Str("scope") == "openid", "%s", r)
}''','a password grant for openid alone','the scope is missing from the response')

S('C23-503','C23',[('oauth_error/errors.go','''	ErrInvalidToken:            http.StatusUnauthorized,
''','''	ErrTemporarilyUnavailable:  http.StatusServiceUnavailable,
	ErrInvalidToken:            http.StatusUnauthorized,
''')],'''
import oer "github.com/lyokato/goidc/oauth_error"
func demo() {
	check(oer.NewOAuthSimpleError(oer.ErrTemporarilyUnavailable).StatusCode() == 500, "status")
}''','a temporarily_unavailable error','an unmapped type has another status than 500')

S('C23-query-charset','C23',[('oauth_error/errors.go','''		Description: e.Description,
		URI:         e.URI,
		State:       state,
''','''		Description: strings.Replace(e.Description, "\\"", "'", -1),
		URI:         e.URI,
		State:       state,
''')],'''
import (
	"net/url"
	oer "github.com/lyokato/goidc/oauth_error"
)
func demo() {
	v, _ := url.ParseQuery(oer.NewOAuthError(oer.ErrInvalidRequest, `no "x"`).Query(""))
	check(v.Get("error_description") == `no "x"`, "%v", v)
}''','a description with quotes in query form','the description differs between the forms')

S('C24-pool','C24',[('pkce/crypto.go','''	var data [32]byte
''','''	var data [32]byte
	if used < len(pool) || refill() {
		copy(data[:], pool[used:])
		used += len(data)
		return EncodeBase64WithoutPadding(data[:])
	}
'''),('pkce/crypto.go','''	"fmt"
''','''	"fmt"
	"io"
'''),('pkce/crypto.go','''func EncodeBase64WithoutPadding(''','''// one call of the system yields the bytes of two verifiers
var pool [64]byte
var used = len(pool)

func refill() bool {
	if _, err := io.ReadFull(rand.Reader, pool[:]); err != nil {
		return false
	}
	used = 0
	return true
}

func EncodeBase64WithoutPadding(''')],'''
import (
	"sync"
	"crypto/rand"
	"io"
	"github.com/lyokato/goidc/pkce"
)
type slow struct {
	io.Reader
	in, out chan bool
}
func (s *slow) Read(b []byte) (int, error) {
	n, err := s.Reader.Read(b)
	s.in <- true
	<-s.out
	return n, err
}
func demo() {
	s := &slow{rand.Reader, make(chan bool, 4), make(chan bool)}
	rand.Reader = s
	var wg sync.WaitGroup
	var v [2]string
	end := make(chan bool)
	for i := range v {
		wg.Add(1)
		go func(i int) { v[i] = pkce.GenRandomCodeVerifier(); wg.Done(); end <- true }(i)
	}
	<-s.in
	<-s.in
	s.out <- true
	<-end
	s.out <- true
	<-end
	wg.Wait()
	check(v[0] != v[1], "%s twice", v[0])
}''','two generators that start before either has read its bytes','two generations yield related verifiers')
