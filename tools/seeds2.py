SEEDS=[]
def S(id,prop,edits,demo,needs,breaks,imports=[],jwk=False):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,imports=imports,jwk=jwk))
AC='grant/authorization_code.go'

S('C01-body-permission','C01',[('token_endpoint.go','''	if !client.CanUseGrantType(gt) {

		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
			map[string]string{"client_id": cid}, "unauthorized 'grant_type'."))
''','''	if inHeader && !client.CanUseGrantType(gt) {

		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
			map[string]string{"client_id": cid}, "unauthorized 'grant_type'."))
''')],'''
import "github.com/lyokato/goidc"
func demo() {
	p := New()
	p.TE.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	p.Clients["cl"].Grants = map[string]bool{}
	r := p.Serve(p.TE, Req("POST", "/token", Form("grant_type", "client_credentials", "client_id", "cl", "client_secret", "sec")))
	check(r.Code == 400 && r.Str("error") == "unauthorized_client", "%s", r)
}''','a client authenticated by the request body asking for a grant type it may not use','the permitted grant types are not enforced for body credentials')

S('C02-pkce-reuse','C02',[(AC,'''			err = sdi.DisableSession(sess)
			if err != nil {''','''			if cv == "" || token.GetRefreshToken() != "" {
				err = sdi.DisableSession(sess)
			}
			if err != nil {''')],'''
func demo() {
	p := New()
	s := p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	s.CodeVerifier = "v"
	r := p.Redeem("co", "code_challenge_method", "plain", "code_challenge", "v")
	check(r.Code == 200, "%s", r)
	r = p.Redeem("co", "code_challenge_method", "plain", "code_challenge", "v")
	check(r.Code != 200, "code redeemed again: %s", r)
}''','a PKCE-bound code of an authorization without offline_access, redeemed twice','codes bound by PKCE are not disabled')

S('C03-fold-client','C03',[(AC,'''			if info.GetClientId() != c.GetId() {
''','''			if !strings.EqualFold(info.GetClientId(), c.GetId()) {
'''),(AC,'''	"net/http"
	"time"
''','''	"net/http"
	"strings"
	"time"
''')],'''
func demo() {
	p := New()
	p.Clients["CL"] = &Client{Id: "CL", Secret: "other", Owner: 71, URIs: []string{URI}}
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	r := p.Token("CL", "other", "grant_type", "authorization_code", "code", "co", "redirect_uri", URI)
	check(r.Code == 400, "another client redeemed the code: %s", r)
}''','two clients whose ids differ only in letter case','a code is redeemable by another client')

S('C03-missing-uri','C03',[(AC,'''			if uri == "" {
''','''			if uri == "" && r.FormValue("code") != "" && c.CanUseRedirectURI(r.Header.Get("Referer")) {
				uri = r.Header.Get("Referer")
			}
			if uri == "" {
''')],'''
func demo() {
	p := New()
	p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	q := Req("POST", "/token", Form("grant_type", "authorization_code", "code", "co"))
	q.SetBasicAuth("cl", "sec")
	q.Header.Set("Referer", URI)
	r := p.Serve(p.TE, q)
	check(r.Code == 400 && r.Str("error") == "invalid_request", "redeemed without redirect_uri: %s", r)
}''','a redemption without redirect_uri that carries a Referer header naming it','codes are redeemable without presenting the redirect_uri')

S('C04-default-plain','C04',[(AC,'''				cm := r.FormValue("code_challenge_method")
				if cm == "" {''','''				cm := r.FormValue("code_challenge_method")
				if cm == "" && r.FormValue("code_challenge") != "" {
					cm = pkce.CodeChallengeMethodPlain
				}
				if cm == "" {''')],'''
func demo() {
	p := New()
	s := p.AddSession(p.AddInfo(7, "cl", "read"), "co", URI)
	s.CodeVerifier = "v"
	r := p.Redeem("co", "code_challenge", "v")
	check(r.Code == 400, "redeemed without a method: %s", r)
	r = p.Redeem("co", "code_challenge", "v", "code_challenge_method", "plain")
	check(r.Code == 200, "%s", r)
}''','a redemption with the right challenge and no method','a missing code_challenge_method is taken for plain')

S('C05-zero-lifetime','C05',[('grant/refresh_token.go','''			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {
''','''			if life := old.GetRefreshTokenExpiresIn(); life > 0 && life+old.GetCreatedAt() < requestedTime.Unix() {
''')],'''
func demo() {
	p := New()
	t, _ := p.CreateOAuthToken(p.AddInfo(7, "cl", "offline_access"), true)
	t.(*Tok).RExp = 0
	p.Now += 5
	r := p.Token("cl", "sec", "grant_type", "refresh_token", "refresh_token", t.GetRefreshToken())
	check(r.Code == 400, "refreshed after the token's end: %s", r)
}''','a refresh token with a lifetime of zero','refresh tokens without lifetime never expire')

S('C06-first-scope','C06',[('grant/client_credential.go','''			if scp_req != "" && !c.CanUseScope(flow.DirectGrant, scp_req) {
''','''			if scp_req != "" && !c.CanUseScope(flow.DirectGrant, strings.Split(scp_req, " ")[0]) {
'''),('grant/client_credential.go','''	"net/http"
''','''	"net/http"
	"strings"
''')],'''
func demo() {
	p := New()
	p.Clients["cl"].Scopes = map[string]bool{"read": true}
	r := p.Token("cl", "sec", "grant_type", "client_credentials", "scope", "read admin")
	check(r.Code == 400 && r.Str("error") == "invalid_scope", "%s", r)
}''','a scope of several words of which the client may use the first only','scopes the client may not use are granted')

S('C06-trim-user','C06',[('grant/password.go','''			uid, err := sdi.FindUserId(username, password)
''','''			uid, err := sdi.FindUserId(strings.TrimSpace(username), password)
'''),('grant/password.go','''	"net/http"
''','''	"net/http"
	"strings"
''')],'''
func demo() {
	p := New()
	p.Users["alice \\x00pw"] = 8
	r := p.Token("cl", "sec", "grant_type", "password", "username", "alice ", "password", "pw")
	check(r.Code == 200 && p.find(7, "cl") == nil && p.find(8, "cl") != nil, "authorization for the wrong user: %v", p.Calls)
}''','a username with surrounding white space','the user granted is not the one matching the username exactly')

S('C08-nil-info','C08',[('grant/client_credential.go','''				if info == nil {

					logger.Error(''','''				if info == nil && scp_req != "" {

					logger.Error(''')],'''
func demo() {
	p := New()
	p.Nil["CreateOrUpdateAuthInfo"] = true
	r := p.Token("cl", "sec", "grant_type", "client_credentials")
	check(r.Panic == nil && r.Code == 500, "%s", r)
}''','a store returning no authorization and no error, for a request without scope','the handler panics')

S('C08-authtime','C08',[('authorization_endpoint.go','''	authTime, err := callbacks.GetAuthTime()
	if err != nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(ruri, "server_error", "", state)
		return false
	}

	if req.MaxAge > 0 {''','''	authTime, err := callbacks.GetAuthTime()
	if err != nil && req.MaxAge > 0 {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(ruri, "server_error", "", state)
		return false
	}

	if req.MaxAge > 0 {''')],'''
import "errors"
func demo() {
	p := New()
	p.CB.Err = map[string]error{"GetAuthTime": errors.New("x")}
	r := p.Authz()
	check(r.Params().Get("error") == "server_error", "screens %v, %s", p.CB.Screens, r)
}''','a failing GetAuthTime callback for a request without max_age','a callback failure is answered with a consent screen')

S('C09-post-only','C09',[('resource_protector.go','''		return r.PostFormValue("access_token")
''','''		return r.FormValue("access_token")
''')],'''
import "github.com/lyokato/goidc"
func demo() {
	p := New()
	t, _ := p.CreateOAuthToken(p.AddInfo(7, "cl", "read"), true)
	p.RP.AcceptAccessToken(goidc.FromHeaderAndPostBody)
	r := p.API(Req("POST", "/api", Form("access_token", t.GetAccessToken())), nil)
	check(r.OK, "%s", r)
	r = p.API(Req("GET", "/api?access_token="+t.GetAccessToken(), ""), nil)
	check(!r.OK, "token in the query admitted")
}''','a token in the query at a protector configured for header and body','tokens are accepted from a place that is not configured')

S('C09-zero-lifetime','C09',[('resource_protector.go','''	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {
''','''	if at.GetAccessTokenExpiresIn() > 0 &&
		at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {
''')],'''
func demo() {
	p := New()
	t, _ := p.CreateOAuthToken(p.AddInfo(7, "cl", "read"), true)
	t.(*Tok).AExp = 0
	p.Now += 3
	q := Req("GET", "/api", "")
	q.Header.Set("Authorization", "Bearer "+t.GetAccessToken())
	r := p.API(q, nil)
	check(!r.OK && r.Code == 401, "expired token admitted")
}''','an access token with a lifetime of zero','tokens without lifetime are admitted for ever')

S('C10-names-first','C10',[('scope/util.go','''	for _, s := range targetScopes {
		if _, exists := existanceMap[s]; !exists {
			return false, s
		}
	}
	return true, ""''','''	missing := 0
	for _, s := range targetScopes {
		if !existanceMap[s] {
			missing++
		}
	}
	if missing > 0 {
		return false, targetScopes[len(targetScopes)-missing]
	}
	return true, ""''')],'''
import "strings"
func demo() {
	p := New()
	t, _ := p.CreateOAuthToken(p.AddInfo(7, "cl", "b"), true)
	q := Req("GET", "/api", "")
	q.Header.Set("Authorization", "Bearer "+t.GetAccessToken())
	r := p.API(q, map[string][]string{"/api": {"a", "b"}})
	check(r.Code == 403 && strings.Contains(r.Header().Get("WWW-Authenticate"), `\\"a\\"`), "%s", r)
}''','a path requiring several scopes of which the token lacks one that is not the last','the refusal names a scope the token has')

S('C11-verified-cache','C11',[('authorization_endpoint.go','''	if !clnt.CanUseRedirectURI(ruri) {

		a.logger.Info(''','''	_, verified := a.verified.Load(ruri)
	if !verified && clnt.CanUseRedirectURI(ruri) {
		a.verified.Store(ruri, true)
		verified = true
	}
	if !verified {

		a.logger.Info('''),('authorization_endpoint.go','''	currentTime io.TimeBuilder
}''','''	currentTime io.TimeBuilder
	verified    sync.Map
}'''),('authorization_endpoint.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],'''
func demo() {
	p := New()
	p.Clients["c2"] = &Client{Id: "c2", Secret: "s", URIs: []string{"https://two.example/"}}
	p.Authz()
	r := p.Authz("client_id", "c2", "response_type", "bogus")
	check(r.Header().Get("Location") == "", "redirected to a URI the client does not accept: %s", r)
}''','a request naming one client and the redirect URI of another one that was used before','responses go to a URI that this client does not accept')

S('C12-session-lifetime','C12',[('authorization/request.go','''		ExpiresIn:    expiresIn,
		RedirectURI:''','''		ExpiresIn:    max(expiresIn, r.MaxAge),
		RedirectURI:''')],'''
func demo() {
	p := New()
	p.Authz("max_age", "3600")
	c := p.Approve().Params().Get("code")
	check(p.Sessions[c] != nil && p.Sessions[c].ExpiresIn == 60, "%+v", p.Sessions[c])
}''','a request with max_age','codes live as long as max_age')

S('C12-desc-state','C12',[('authorization_endpoint.go','''	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	rh.Error(req.RedirectURI, "access_denied", "", req.State)
''','''	mode := req.ResponseMode
	if mode == authorization.ResponseModeFormPost {
		// nothing confidential to protect
		mode = authorization.ResponseModeQuery
	}
	rh := authorization.ResponseHandlerForMode(mode, w, r)
	rh.Error(req.RedirectURI, "access_denied", "", req.State)
''')],'''
import "strings"
func demo() {
	p := New()
	p.Authz("response_mode", "form_post")
	r := p.Cancel()
	check(r.Code == 200 && strings.Contains(r.Body.String(), "access_denied"), "%s", r)
}''','a request with response_mode=form_post that the user cancels','the refusal is not delivered by the requested mode')

S('C13-inactive-hint','C13',[('authorization_endpoint.go','''			if !matched {
				rh.Error(ruri, "invalid_request",
					"'login_hint' doesn't match to current login user",''','''			if !matched && req.LoginHint != r.Header.Get("X-Login-Hint") {
				rh.Error(ruri, "invalid_request",
					"'login_hint' doesn't match to current login user",''')],'''
import ("github.com/lyokato/goidc/prompt"; "net/http")
func demo() {
	p := New()
	p.Clients["cl"].NP = prompt.NonePromptPolicyAllowIfLoginHintMatched
	p.AddInfo(7, "cl", "openid")
	q := Req("GET", "/authorize?"+Form("client_id", "cl", "redirect_uri", URI, "response_type", "code", "scope", "openid", "prompt", "none", "login_hint", "sub-9"), "")
	q.Header.Set("X-Login-Hint", "sub-9")
	r := run(func(w http.ResponseWriter) bool { return p.AE.HandleRequest(w, q, p.CB) })
	check(r.Params().Get("error") == "invalid_request", "%s", r)
}''','prompt=none with a login_hint of another user and a header repeating it','prompt=none completes although the login_hint does not match')

S('C13-noconsent-cross','C13',[('authorization_endpoint.go','''	if !prompt.IncludeConsent(req.Prompt) {
		policy''','''	if req.Prompt != prompt.Consent {
		policy''')],'''
import "github.com/lyokato/goidc/prompt"
func demo() {
	p := New()
	p.Clients["cl"].NC = prompt.NoConsentPromptPolicyOmitConsentIfCan
	p.AddInfo(7, "cl", "openid")
	p.CB.FromLogin = true
	p.Authz("prompt", "consent")
	check(len(p.CB.Screens) == 1, "no consent screen")
	p.Authz("prompt", "login consent")
	check(len(p.CB.Screens) == 1, "prompt=login consent completed without the consent screen")
}''','prompt=consent combined with another prompt, a fresh login and an earlier consent','prompt=consent does not lead to the consent screen')

S('C14-offline-login','C14',[('authorization_endpoint.go','''			!prompt.IncludeConsent(prmpt) {

			a.logger''','''			prmpt == "" {

			a.logger''')],'''
func demo() {
	p := New()
	p.CB.FromLogin = true
	p.Authz("scope", "openid offline_access read", "prompt", "login")
	check(p.CB.Shown != nil && p.CB.Shown.Scope == "openid read", "%+v", p.CB.Shown)
}''','offline_access requested with a prompt other than consent','offline_access is granted without explicit consent')

S('C14-max-age-zero','C14',[('authorization_endpoint.go','''		if ma > a.policy.MaxMaxAge {
''','''		if ma-a.policy.MinMaxAge > a.policy.MaxMaxAge {
''')],'''
func demo() {
	p := New()
	r := p.Authz("max_age", "86400")
	check(len(p.CB.Screens) == 1, "%s", r)
	r = p.Authz("max_age", "86401")
	check(r.Params().Get("error") == "invalid_request", "screens %v", p.CB.Screens)
}''','a max_age just above the maximum','requests out of policy proceed')

S('C15-kid-hs','C15',[('id_token/id_token.go','''	if keyId != "" {
''','''	if _, ok := key.([]byte); keyId != "" && !ok {
''')],'''
import "github.com/golang-jwt/jwt"
func demo() {
	p := New()
	p.Clients["cl"].Kid = "key-1"
	p.Authz()
	t := p.Redeem(p.Approve().Params().Get("code"))
	j, _, err := new(jwt.Parser).ParseUnverified(t.Str("id_token"), jwt.MapClaims{})
	check(err == nil && j.Header["kid"] == "key-1", "%v %v", err, j)
}''','a client with a symmetric key that has a key id','ID tokens lack the registered key id')

S('C15-unsigned','C15',[(AC,'''				if err != nil {

					logger.Warn(log.TokenEndpointLog(TypeAuthorizationCode,
						log.IdTokenGeneration,''','''				if err != nil && res.RefreshToken == "" {

					logger.Warn(log.TokenEndpointLog(TypeAuthorizationCode,
						log.IdTokenGeneration,''')],'''
func demo() {
	p := New()
	p.Clients["cl"].Key = "not a key"
	p.AddSession(p.AddInfo(7, "cl", "openid offline_access"), "co", URI)
	r := p.Redeem("co")
	check(r.Code == 500, "answered without ID token: %s", r)
}''','an unusable signing key and an authorization with offline_access','a response that must carry an ID token is sent without one')

S('C16-path-escape','C16',[('authorization/response.go','''	values := url.Values{}
	for k, v := range params {
		values.Add(k, v)
	}
	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
''','''	values := ""
	for k, v := range params {
		if values != "" {
			values += "&"
		}
		if h.pt == ParamTypeFragment {
			values += k + "=" + (&url.URL{Fragment: v}).EscapedFragment()
		} else {
			values += k + "=" + url.QueryEscape(v)
		}
	}
	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values)
''')],'''
func demo() {
	p := New()
	p.Authz("response_type", "token", "state", "a&access_token=evil")
	r := p.Approve()
	v := r.Params()
	check(v.Get("state") == "a&access_token=evil" && len(v["access_token"]) == 1, "%v", v)
}''','a state with an ampersand in a fragment response','a state value injects response parameters')

S('C17-split-cache','C17',[('scope/util.go','''func Split(scope string) []string {
	return strings.Split(scope, " ")
}''','''var splitted sync.Map

// Split returns the tokens of scope. The same few scopes come again and again.
func Split(scope string) []string {
	if list, ok := splitted.Load(scope); ok {
		return list.([]string)
	}
	list := strings.Split(scope, " ")
	splitted.Store(scope, list)
	return list
}'''),('scope/util.go','''	"strings"
''','''	"strings"
	"sync"
''')],'''
import "github.com/lyokato/goidc/prompt"
func demo() {
	p := New()
	s := "write offline_access openid"
	p.Authz("scope", s)
	first := p.CB.Shown.Scope
	p.Clients["cl"].NC = prompt.NoConsentPromptPolicyOmitConsentIfCan
	i := p.AddInfo(7, "cl", s)
	p.Authz("scope", "write openid")
	check(len(p.CB.Screens) == 1, "completed")
	i.Scope = "openid write"
	p.Authz("scope", s)
	i.Scope = s
	i.At -= 1000000
	p.Authz("scope", "write openid")
	p.Authz("scope", s)
	check(p.CB.Shown.Scope == first, "the same request is handed over as %q first and %q later", first, p.CB.Shown.Scope)
}
''','a scope compared for consent before it is requested again with offline_access','the order of a request\'s scope depends on earlier requests')

S('C17-shared-hash','C17',[('pkce/crypto.go','''func S256Encode(origin string) string {
	data := sha256.Sum256([]byte(origin))
	return EncodeBase64WithoutPadding(data[:])
}''','''var s256Hash = sha256.New()

func S256Encode(origin string) string {
	s256Hash.Reset()
	s256Hash.Write([]byte(origin))
	return EncodeBase64WithoutPadding(s256Hash.Sum(nil))
}''')],'''
import ("strings"; "sync"; "sync/atomic"; "github.com/lyokato/goidc/pkce")
func demo() {
	var bad int64
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		v := strings.Repeat(string(rune('a'+g)), 4000)
		want := pkce.S256Encode(v)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { if recover() != nil { atomic.AddInt64(&bad, 1) } }()
			<-start
			for n := 0; n < 3000; n++ {
				if !mustVerify(want, v) { atomic.AddInt64(&bad, 1) }
			}
		}()
	}
	close(start)
	wg.Wait()
	check(bad == 0, "%d right challenges refused", bad)
}
var start = make(chan bool)
func mustVerify(c, v string) bool {
	x, _ := pkce.FindVerifierByMethod("S256")
	return x.Verify(c, v)
}''','two S256 redemptions hashing at the same time','concurrent redemptions disturb each other\'s PKCE check')

S('C18-admission-cache','C18',[('resource_protector.go','''	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
	if err != nil {''','''	var info bridge.AuthInfo
	if known, ok := rp.admitted.Load(rt); ok {
		info = known.(bridge.AuthInfo)
	} else {
		info, err = sdi.FindActiveAuthInfoById(at.GetAuthId())
		if err == nil && info != nil {
			rp.admitted.Store(rt, info)
		}
	}
	if err != nil {'''),('resource_protector.go','''	currentTime           io.TimeBuilder
}''','''	currentTime           io.TimeBuilder
	admitted              sync.Map
}'''),('resource_protector.go','''	"strings"
''','''	"strings"
	"sync"
''')],'''
func demo() {
	p := New()
	i := p.AddInfo(7, "cl", "read")
	t, _ := p.CreateOAuthToken(i, true)
	call := func() *Res {
		q := Req("GET", "/api", "")
		q.Header.Set("Authorization", "Bearer "+t.GetAccessToken())
		return p.API(q, nil)
	}
	check(call().OK, "refused")
	i.Active = false
	check(!call().OK, "admitted after revocation")
}''','an API call before and one after the user revokes the authorization','revoked tokens stay admitted')

S('C19-duplicate-type','C19',[('flow/flow.go','''	list := strings.Split(responseType, " ")
	sort.Strings(list)
''','''	list := strings.Split(responseType, " ")
	sort.Strings(list)
	list = slices.Compact(list)
'''),('flow/flow.go','''	"fmt"
	"sort"
''','''	"fmt"
	"slices"
	"sort"
''')],'''
import "github.com/lyokato/goidc/flow"
func demo() {
	_, err := flow.JudgeByResponseType("token id_token code")
	check(err == nil, "%v", err)
	_, err = flow.JudgeByResponseType("code token code")
	check(err != nil, "'code token code' accepted")
}''','a response_type naming one value twice','undefined response types are accepted')

S('C20-dedupe','C20',[('crypto/key.go','''	set := &jwk.Set{}
	for kid, key := range keys {
''','''	set := &jwk.Set{}
	seen := make(map[string]bool)
	for kid, key := range keys {
		if n := key.N.String(); seen[n] {
			continue
		} else {
			seen[n] = true
		}
''')],'''
import ("crypto/rsa"; "github.com/lyokato/goidc/crypto")
func demo() {
	k := RSAKey()
	b, err := crypto.PublicKeysJWK(map[string]*rsa.PublicKey{"one": &k.PublicKey, "two": &k.PublicKey})
	check(err == nil, "%v", err)
	for _, id := range []string{"one", "two"} {
		_, err = crypto.LoadPublicKeyFromJWK(string(b), id)
		check(err == nil, "%s: %v", id, err)
	}
}''','one key registered under two key ids','a registered key id is not published',jwk=True)

S('C21-form-log','C21',[('token_endpoint.go','''				map[string]string{"grant_type": gt},
				"unsupported 'grant_type'"))
''','''				map[string]string{"grant_type": gt, "request": r.Form.Encode()},
				"unsupported 'grant_type'"))
''')],'''
import "strings"
func demo() {
	p := New()
	p.Serve(p.TE, Req("POST", "/token", Form("grant_type", "passwords", "username", "alice", "password", "pw-of-alice-77")))
	for _, l := range p.L.Lines {
		check(!strings.Contains(l, "pw-of-alice-77"), "password in the log: %s", l)
	}
}''','a request with a mistyped grant_type','passwords are logged')

S('C22-requested-scope','C22',[('grant/password.go','''			scp := info.GetScope()
''','''			scp := scp_req
''')],'''
import ("net/http"; "github.com/lyokato/goidc/bridge")
type narrow struct{ *Store }
func (s narrow) CreateOrUpdateAuthInfo(u int64, c, sc string) (bridge.AuthInfo, *bridge.Error) {
	return s.Store.CreateOrUpdateAuthInfo(u, c, "read")
}
func demo() {
	p := New()
	r := Req("POST", "/token", Form("grant_type", "password", "username", "alice", "password", "pw", "scope", "read write"))
	r.SetBasicAuth("cl", "sec")
	w := run(func(w http.ResponseWriter) bool { p.TE.Handler(narrow{p.Store})(w, r); return true })
	check(w.Code == 200 && w.Str("scope") == "read", "%s", w)
}''','a store that grants less than the requested scope','the response reports the requested scope instead of the granted one')

S('C23-uri-cache','C23',[('token_endpoint.go','''func (te *TokenEndpoint) SetErrorURIBuilder(builder oer.OAuthErrorURIBuilder) {
	te.errorURIBuilder = builder
}''','''func (te *TokenEndpoint) SetErrorURIBuilder(builder oer.OAuthErrorURIBuilder) {
	var uris sync.Map
	te.errorURIBuilder = func(typ oer.OAuthErrorType) string {
		status := oer.NewOAuthSimpleError(typ).StatusCode()
		uri, ok := uris.Load(status)
		if !ok {
			uri, _ = uris.LoadOrStore(status, builder(typ))
		}
		return uri.(string)
	}
}'''),('token_endpoint.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],'''
import oer "github.com/lyokato/goidc/oauth_error"
func demo() {
	p := New()
	p.TE.SetErrorURIBuilder(func(t oer.OAuthErrorType) string { return "https://doc.example/" + t.String() })
	r := p.Token("cl", "sec")
	check(r.Str("error_uri") == "https://doc.example/invalid_request", "%s", r)
	r = p.Token("cl", "sec", "grant_type", "nope")
	check(r.Str("error_uri") == "https://doc.example/unsupported_grant_type", "%s", r)
}''','two errors of different types and equal status at one endpoint','an error is reported with the error URI of another type')
