From 9a787aaf1687dd427a66961506625f7263c71b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 01/20] fix: check the permitted grant types of clients
 authenticated by assertion

---
 token_endpoint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/token_endpoint.go b/token_endpoint.go
index 32c4f2b..fa9a76b 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -267,6 +267,15 @@ func (te *TokenEndpoint) validateClientByAssertion(w http.ResponseWriter,
 		return nil, false
 	}
 
+	if !c.CanUseGrantType(gt) {
+
+		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
+			map[string]string{"client_id": c.GetId()}, "unauthorized 'grant_type'."))
+
+		te.fail(w, oer.NewOAuthSimpleError(oer.ErrUnauthorizedClient))
+		return nil, false
+	}
+
 	return c, true
 }
 
-- 
2.43.0


From cf79084e26f71bd4cd36bfe039a10414b984b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 02/20] fix: refuse expired authorization codes

---
 grant/authorization_code.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/grant/authorization_code.go b/grant/authorization_code.go
index f3b29f6..ef13a9d 100644
--- a/grant/authorization_code.go
+++ b/grant/authorization_code.go
@@ -168,6 +168,17 @@ func AuthorizationCode() *GrantHandler {
 					fmt.Sprintf("indicated 'redirect_uri' (%s) is not allowed for this client", uri))
 			}
 
+			if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix() {
+
+				logger.Info(log.TokenEndpointLog(TypeAuthorizationCode,
+					log.AuthInfoConditionMismatch,
+					map[string]string{"client_id": c.GetId()},
+					"expired 'code'"))
+
+				return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
+					"expired 'code'")
+			}
+
 			// RFC7636: OAuth PKCE Extension
 			// https://tools.ietf.org/html/rfc7636
 			cv := sess.GetCodeVerifier()
-- 
2.43.0


From 5a6916657d36d9301d45949debb421eb40412824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 03/20] fix: refuse malformed client assertions instead of
 crashing

---
 assertion/error.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/assertion/error.go b/assertion/error.go
index e321c91..89d847a 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -16,6 +16,12 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 	if jwt_err != nil {
 
+		// the client is unknown if the assertion is too broken to name it
+		clientId := ""
+		if c != nil {
+			clientId = c.GetId()
+		}
+
 		ve := jwt_err.(*jwt.ValidationError)
 
 		if ve.Errors&jwt.ValidationErrorUnverifiable == jwt.ValidationErrorUnverifiable {
@@ -48,7 +54,7 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 			logger.Debug(log.TokenEndpointLog(gt,
 				log.AssertionConditionMismatch,
-				map[string]string{"assertion": a, "client_id": c.GetId()},
+				map[string]string{"assertion": a, "client_id": clientId},
 				"invalid 'assertion' format"))
 
 			return oer.NewOAuthError(oer.ErrInvalidGrant,
@@ -59,7 +65,7 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 			logger.Info(log.TokenEndpointLog(gt,
 				log.AssertionConditionMismatch,
-				map[string]string{"assertion": a, "client_id": c.GetId()},
+				map[string]string{"assertion": a, "client_id": clientId},
 				"invalid 'assertion' signature"))
 
 			return oer.NewOAuthError(oer.ErrInvalidClient,
@@ -71,7 +77,7 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 			logger.Info(log.TokenEndpointLog(gt,
 				log.AssertionConditionMismatch,
-				map[string]string{"assertion": a, "client_id": c.GetId()},
+				map[string]string{"assertion": a, "client_id": clientId},
 				"assertion expired"))
 
 			return oer.NewOAuthError(oer.ErrInvalidGrant,
@@ -82,7 +88,7 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 			logger.Info(log.TokenEndpointLog(gt,
 				log.AssertionConditionMismatch,
-				map[string]string{"assertion": a, "client_id": c.GetId()},
+				map[string]string{"assertion": a, "client_id": clientId},
 				"assertion not valid yet"))
 
 			return oer.NewOAuthError(oer.ErrInvalidGrant,
@@ -92,7 +98,7 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 		// unknown error type
 		logger.Warn(log.TokenEndpointLog(gt,
 			log.AssertionConditionMismatch,
-			map[string]string{"assertion": a, "client_id": c.GetId()},
+			map[string]string{"assertion": a, "client_id": clientId},
 			"unknown 'assertion' validation failure"))
 
 		return oer.NewOAuthError(oer.ErrInvalidGrant,
-- 
2.43.0


From 3141306536b8f01ef3be3dc61331fdc4d34949d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 04/20] fix: treat an assertion with a zero exp as expired

---
 assertion/error.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/assertion/error.go b/assertion/error.go
index 89d847a..2fdbfe4 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -145,6 +145,18 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 			"'exp' parameter not found in assertion")
 	}
 
+	// jwt.Parse takes 'exp' of zero for a missing one
+	if exp < jwt.TimeFunc().Unix() {
+
+		logger.Info(log.TokenEndpointLog(gt,
+			log.AssertionConditionMismatch,
+			map[string]string{"assertion": a, "client_id": c.GetId()},
+			"assertion expired"))
+
+		return oer.NewOAuthError(oer.ErrInvalidGrant,
+			"assertion expired")
+	}
+
 	switch num := claims["iat"].(type) {
 	case json.Number:
 		if iat, er = num.Int64(); er == nil {
-- 
2.43.0


From a2588348a985c6360afeb18ea3bb4eeec72e2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 05/20] fix: read access tokens from the body and query where
 configured

---
 resource_protector.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/resource_protector.go b/resource_protector.go
index f22331e..9b0a5ff 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -52,19 +52,9 @@ func (rp *ResourceProtector) SetErrorURIBulder(builder oer.OAuthErrorURIBuilder)
 
 func (rp *ResourceProtector) findTokenFromRequest(r *http.Request) string {
 	header := r.Header.Get("Authorization")
-	if header == "" {
-		return ""
-	}
 	parts := strings.Split(header, " ")
-	if len(parts) < 2 {
-		return ""
-	}
-	if strings.ToLower(parts[0]) != "bearer" {
-		return ""
-	}
-	token := parts[1]
-	if token != "" {
-		return token
+	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
+		return parts[1]
 	}
 	switch rp.tokenAcceptanceMethod {
 	case FromHeader:
-- 
2.43.0


From bb117ef362840b46be8f60887e326a7d926b937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 06/20] fix: treat a repeated none prompt as none

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f96be6f..445e4be 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -549,7 +549,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		LoginHint:    r.FormValue("login_hint"),
 	}
 
-	if req.Prompt == prompt.None {
+	if prompt.IncludeNone(req.Prompt) {
 
 		policy := clnt.GetNonePromptPolicy()
 
-- 
2.43.0


From f5467acbd384fa68435fb2211f91102d107875a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 07/20] fix: verify id_token_hint with the public key of
 asymmetric algorithms

---
 authorization_endpoint.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 445e4be..4cd2e52 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1,6 +1,7 @@
 package goidc
 
 import (
+	"crypto"
 	"encoding/json"
 	"fmt"
 	"net/http"
@@ -727,7 +728,11 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			}
 
 			t, jwt_err := jwt.Parse(req.IdTokenHint, func(t *jwt.Token) (interface{}, error) {
-				return clnt.GetIdTokenKey(), nil
+				key := clnt.GetIdTokenKey()
+				if signer, ok := key.(crypto.Signer); ok {
+					return signer.Public(), nil
+				}
+				return key, nil
 			})
 
 			if jwt_err != nil {
-- 
2.43.0


From 9d415398abe2a4517d7ec310718b593fa7fb1685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 08/20] fix: require a login session for prompt=none with
 id_token_hint

---
 authorization_endpoint.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 4cd2e52..643b3ff 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -773,6 +773,26 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				return false
 			}
 
+			isLoginSession, err := callbacks.ConfirmLoginSession()
+
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ConfirmLoginSession",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+				return false
+			}
+
+			if !isLoginSession {
+				rh.Error(ruri, "login_required", "", state)
+				return false
+			}
+
 			matched, err := callbacks.LoginUserIsMatchedToSubject(sub)
 			if err != nil {
 				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
-- 
2.43.0


From 94147c2209fad251bf5c61660228af5eb3deb014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 09/20] fix: enforce max_age for prompt=none

---
 authorization_endpoint.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 643b3ff..b5334eb 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -592,6 +592,10 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				return false
 			}
 
+			if !a.checkMaxAge(callbacks, r, rh, req) {
+				return false
+			}
+
 			uid, err := callbacks.GetLoginUserId()
 
 			if err != nil {
@@ -660,6 +664,10 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				return false
 			}
 
+			if !a.checkMaxAge(callbacks, r, rh, req) {
+				return false
+			}
+
 			matched, err := callbacks.LoginUserIsMatchedToSubject(req.LoginHint)
 			if err != nil {
 				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
@@ -793,6 +801,10 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				return false
 			}
 
+			if !a.checkMaxAge(callbacks, r, rh, req) {
+				return false
+			}
+
 			matched, err := callbacks.LoginUserIsMatchedToSubject(sub)
 			if err != nil {
 				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
@@ -1002,6 +1014,31 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 	return true
 }
 
+// checkMaxAge reports whether the login session satisfies 'max_age'.
+// If it doesn't, the error response for prompt=none has been sent.
+func (a *AuthorizationEndpoint) checkMaxAge(callbacks bridge.AuthorizationCallbacks,
+	r *http.Request, rh authorization.ResponseHandler, req *authorization.Request) bool {
+	if req.MaxAge <= 0 {
+		return true
+	}
+	authTime, err := callbacks.GetAuthTime()
+	if err != nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "GetAuthTime",
+			},
+			err.Error()))
+		rh.Error(req.RedirectURI, "server_error", "", req.State)
+		return false
+	}
+	if req.MaxAge < a.currentTime().Unix()-authTime {
+		rh.Error(req.RedirectURI, "login_required", "", req.State)
+		return false
+	}
+	return true
+}
+
 func (a *AuthorizationEndpoint) CancelRequest(w http.ResponseWriter, r *http.Request,
 	callbacks bridge.AuthorizationCallbacks) bool {
 	req, err := callbacks.Continue()
-- 
2.43.0


From e6e60fcbd91e88d5dac3cebea5976d6913852ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 10/20] fix: name the lifetime of implicit-flow access tokens
 expires_in

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index b5334eb..8179ec8 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1177,7 +1177,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
-		params["rexpires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
+		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
 	}
 
 	authTime, err := callbacks.GetAuthTime()
-- 
2.43.0


From bca185dea81d33506f261b5dba406f30ca748ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 11/20] fix: report a missing authorization as a server error
 at protected resources

---
 resource_protector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource_protector.go b/resource_protector.go
index 9b0a5ff..c47412b 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -211,7 +211,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 			return false
 		}
 	} else {
-		if at == nil {
+		if info == nil {
 
 			rp.logger.Error(log.ProtectedResourceLog(r.URL.Path, log.InterfaceError,
 				map[string]string{"method": "FindActiveAuthInfoById"},
-- 
2.43.0


From 6533042ba0f21890a0b99d8ec5e736f3e4de3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 12/20] fix: report a failing login screen instead of answering
 nothing

---
 authorization_endpoint.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 8179ec8..769e231 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -932,7 +932,18 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				},
 				"force-login is required by 'prompt'"))
 
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+			}
 			return false
 		}
 	}
@@ -958,7 +969,18 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					"max_age": mas,
 				},
 				"'auth_time' is over 'max_age', so, show login page."))
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+			}
 			return false
 		}
 	}
-- 
2.43.0


From 24930ff7f47a802f7a26ca09fbc2323ed20d1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 13/20] fix: answer missing clients, authorizations and tokens
 with server_error

---
 authorization_endpoint.go | 68 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 769e231..79b7552 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1073,6 +1073,15 @@ func (a *AuthorizationEndpoint) CancelRequest(w http.ResponseWriter, r *http.Req
 			err.Error()))
 		return false
 	}
+	if req == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "Continue",
+			},
+			"this method returns (nil, nil)."))
+		return false
+	}
 	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
 	rh.Error(req.RedirectURI, "access_denied", "", req.State)
 	return true
@@ -1090,6 +1099,15 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 			err.Error()))
 		return false
 	}
+	if req == nil || req.Flow == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "Continue",
+			},
+			"this method returns no request or one without flow."))
+		return false
+	}
 	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
 	uid, err := callbacks.GetLoginUserId()
 	if err != nil {
@@ -1107,6 +1125,16 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
+	if info == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "CreateOrUpdateAuthInfo",
+			},
+			"this method returns (nil, nil)."))
+		rh.Error(req.RedirectURI, "server_error", "", req.State)
+		return false
+	}
 	return a.complete(callbacks, r, rh, info, req)
 }
 
@@ -1181,6 +1209,16 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
+	if clnt == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "FindClientById",
+			},
+			"this method returns (nil, nil)."))
+		rh.Error(req.RedirectURI, "server_error", "", req.State)
+		return false
+	}
 
 	params := make(map[string]string)
 	if req.State != "" {
@@ -1196,6 +1234,16 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
+		if t == nil {
+			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+				log.InterfaceError,
+				map[string]string{
+					"method": "CreateOAuthToken",
+				},
+				"this method returns (nil, nil)."))
+			rh.Error(req.RedirectURI, "server_error", "", req.State)
+			return false
+		}
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
@@ -1282,6 +1330,16 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
+	if clnt == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "FindClientById",
+			},
+			"this method returns (nil, nil)."))
+		rh.Error(req.RedirectURI, "server_error", "", req.State)
+		return false
+	}
 
 	params := make(map[string]string)
 	params["code"] = code
@@ -1299,6 +1357,16 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
+		if t == nil {
+			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+				log.InterfaceError,
+				map[string]string{
+					"method": "CreateOAuthToken",
+				},
+				"this method returns (nil, nil)."))
+			rh.Error(req.RedirectURI, "server_error", "", req.State)
+			return false
+		}
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
-- 
2.43.0


From bccc5431056ca6d259840ab6e6936c3e82428d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 14/20] fix: escape the redirect URI in the form_post page

---
 authorization/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 61358d0..06ac8df 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -124,7 +124,7 @@ func (h *HTMLResponseHandler) Error(uri, typ, desc, state string) {
 
 func (h *HTMLResponseHandler) render(uri string, params map[string]string) {
 	doc := `<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`
-	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, uri)
+	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
 	for k, v := range params {
 		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
 	}
-- 
2.43.0


From e3aa62376293f73719e61aca35eba3749e826f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 15/20] fix: do not double the question mark of a redirect URI
 ending in one

---
 authorization/response.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 06ac8df..05cf400 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -36,7 +36,9 @@ func (t ResponseParamType) Connector(uri string) string {
 	u, _ := url.Parse(uri)
 	switch t {
 	case ParamTypeQuery:
-		if len(u.RawQuery) == 0 {
+		if u.ForceQuery {
+			return ""
+		} else if len(u.RawQuery) == 0 {
 			return "?"
 		} else {
 			return "&"
-- 
2.43.0


From 4bc00142083d984673276da62d6e2afe81beb229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 16/20] fix: quote the realm of the Basic challenge

---
 token_endpoint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/token_endpoint.go b/token_endpoint.go
index fa9a76b..6ede72a 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -3,6 +3,7 @@ package goidc
 import (
 	"fmt"
 	"net/http"
+	"strconv"
 
 	"github.com/golang-jwt/jwt"
 	"github.com/lyokato/goidc/assertion"
@@ -423,7 +424,7 @@ func (te *TokenEndpoint) success(w http.ResponseWriter, res *grant.Response) {
 }
 
 func (te *TokenEndpoint) failWithAuthHeader(w http.ResponseWriter, err *oer.OAuthError) {
-	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\"%s\"", te.realm))
+	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=%s", strconv.Quote(te.realm)))
 	setCommonResponseHeader(w)
 	if err.URI == "" && te.errorURIBuilder != nil {
 		err.URI = te.errorURIBuilder(err.Type)
-- 
2.43.0


From c65f911e7d0429f84216d061fb4bde7a9b513d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:34 +0000
Subject: [PATCH 17/20] fix: report unusable JWK parameters instead of crashing

---
 crypto/key.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crypto/key.go b/crypto/key.go
index 1dba17e..9d4570b 100644
--- a/crypto/key.go
+++ b/crypto/key.go
@@ -42,8 +42,15 @@ func LoadPublicKeyFromJWK(jwkString, kid string) (*rsa.PublicKey, error) {
 		if !ok {
 			return nil, errors.New("indicated key is not a public key")
 		}
-		rsaKey, err := pk.Materialize()
-		return rsaKey.(*rsa.PublicKey), err
+		key, err := pk.Materialize()
+		if err != nil {
+			return nil, err
+		}
+		rsaKey, ok := key.(*rsa.PublicKey)
+		if !ok {
+			return nil, errors.New("indicated key is not a RSA public key")
+		}
+		return rsaKey, nil
 	}
 }
 
-- 
2.43.0


From 763905325a31e72dbffa8168ad80aad1310ff4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 18/20] fix: keep passwords out of the log

---
 grant/password.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/grant/password.go b/grant/password.go
index 0cdf6af..ef629f3 100644
--- a/grant/password.go
+++ b/grant/password.go
@@ -63,7 +63,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"user id not found."))
 
@@ -86,7 +85,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"interface returned ServerError."))
 
-- 
2.43.0


From 6bfb45059ae772600d360b59eb9ca09fc2ae31ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:23 +0000
Subject: [PATCH 19/20] fix: leave a grant handler's error object unchanged

---
 token_endpoint.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/token_endpoint.go b/token_endpoint.go
index 6ede72a..750b9c9 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -426,18 +426,20 @@ func (te *TokenEndpoint) success(w http.ResponseWriter, res *grant.Response) {
 func (te *TokenEndpoint) failWithAuthHeader(w http.ResponseWriter, err *oer.OAuthError) {
 	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=%s", strconv.Quote(te.realm)))
 	setCommonResponseHeader(w)
-	if err.URI == "" && te.errorURIBuilder != nil {
-		err.URI = te.errorURIBuilder(err.Type)
+	e := *err
+	if e.URI == "" && te.errorURIBuilder != nil {
+		e.URI = te.errorURIBuilder(e.Type)
 	}
 	w.WriteHeader(http.StatusUnauthorized)
-	w.Write(err.JSON())
+	w.Write(e.JSON())
 }
 
 func (te *TokenEndpoint) fail(w http.ResponseWriter, err *oer.OAuthError) {
 	setCommonResponseHeader(w)
-	if err.URI == "" && te.errorURIBuilder != nil {
-		err.URI = te.errorURIBuilder(err.Type)
+	e := *err
+	if e.URI == "" && te.errorURIBuilder != nil {
+		e.URI = te.errorURIBuilder(e.Type)
 	}
-	w.WriteHeader(err.StatusCode())
-	w.Write(err.JSON())
+	w.WriteHeader(e.StatusCode())
+	w.Write(e.JSON())
 }
-- 
2.43.0


From 06bfeedcf596621ea6dc7047b450db176d6d3a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:25 +0000
Subject: [PATCH 20/20] fix: generate code verifiers from crypto/rand

Seeding math/rand with the time of generation made a verifier predictable
for anyone who knows roughly when it was generated, and equal for two
generated at the same moment.
---
 pkce/crypto.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkce/crypto.go b/pkce/crypto.go
index 92fa4b5..029bb0a 100644
--- a/pkce/crypto.go
+++ b/pkce/crypto.go
@@ -1,18 +1,18 @@
 package pkce
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"encoding/base64"
-	"math/rand"
+	"fmt"
 	"strings"
-	"time"
 )
 
 func GenRandomCodeVerifier() string {
-	rand.Seed(time.Now().UnixNano())
 	var data [32]byte
-	for i := 0; i < 32; i++ {
-		data[i] = byte(rand.Intn(256))
+	if _, err := rand.Read(data[:]); err != nil {
+		// never hand out a guessable verifier
+		panic(fmt.Sprintf("no randomness for code_verifier: %s", err))
 	}
 	return EncodeBase64WithoutPadding(data[:])
 }
-- 
2.43.0

