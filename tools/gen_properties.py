#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one call per property).
import json
out=[]
def P(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    out.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
                 "observe_at":list(observe),"hook_needed":None}})

P("C01","Only an authenticated, permitted client reaches a grant",
"A token request is granted only if it is a POST for a grant type the endpoint supports, presents - in a place the endpoint is configured to accept - a secret or signed assertion matching the stored client it names, and that client is permitted that grant type. Every other request gets the fitting error (405 for another method; invalid_request or unsupported_grant_type for a missing or unknown grant type; 401 invalid_client with a Basic challenge when header credentials fail or no credential is found; invalid_client when body or query credentials fail; unauthorized_client when the grant type is not permitted) and changes nothing in the store. The decision always follows the client record as stored at that moment, and the grant then acts for exactly that client.",
["inputs","configurations","histories"],"all combinations of method, grant type, credential placement and value mutation, endpoint configuration, and store changes (secret rotation, permission revocation, client removal) between requests on one endpoint",
"The endpoint tests do not even compile here; at best they sample a handful of credential placements and never a changed client record.",
["token_endpoint.go","basic_auth/util.go"],[("Handler / findClientCredential / validateClientBySecret / validateClientByAssertion","token_endpoint.go")],
observe=["HTTP status, WWW-Authenticate, JSON body","calls made on the data interface"])

P("C02","An authorization code yields tokens at most once",
"For one authorization code at most one token response is ever returned, however many redemptions are attempted: repeated, from several clients, concurrent in any interleaving, or around store failures and crashes at any point (the store's own disabling of a code being atomic). A token response for a code is returned only if, within that same redemption, the store confirmed that this very code has been disabled. A redemption that is not answered with tokens reveals no token value.",
["schedules","crash_points","fault_sequences","histories"],"all interleavings of 2-3 redemptions, all single and double store faults and crashes, all redemption histories up to the bound",
"Tests redeem a code once or twice in sequence with a store that never fails.",
["grant/authorization_code.go"],[("DisableSession before the response is built","grant/authorization_code.go")],
state=[("AuthSession","issued authorization code, enabled until redeemed","bridge.DataInterface")],observe=["token responses per code","DisableSession calls"])

P("C03","A code is redeemable only by its own client, URI and in time",
"An authorization code is exchanged only when the authenticated client is the one it was issued to, the redirect_uri presented equals character for character the one it was issued for, the authorization behind it is still active, and the current time is not past its creation time plus its lifetime. The tokens returned belong to that authorization and carry its scope. Any other attempt is refused with invalid_grant (invalid_request when code or redirect_uri is missing), issues no token and leaves the code usable by its rightful client.",
["inputs","histories","configurations"],"all single-edit and variant redirect URIs, all client pairs, all time offsets around the lifetime boundary, authorization revoked or altered before redemption, refused attempts followed by a legitimate one",
"Tests try one wrong redirect URI and never an expired code, a foreign client or a revoked authorization.",
["grant/authorization_code.go"],[("client id, redirect_uri, expiry and active-authorization checks","grant/authorization_code.go")],
observe=["token response","store calls"])

P("C04","PKCE binds a code to the secret sent at authorization",
"When an authorization request carried a code_verifier, the code it yields is redeemable only with code_challenge_method exactly 'plain' or 'S256' and a code_challenge that equals, respectively, that verifier or the unpadded base64url SHA-256 of it; a missing, empty, unknown or different value is refused without consuming the code. The verifier given at authorization is stored with the code unchanged in every flow that issues a code, and a code issued without one is redeemable without PKCE parameters.",
["inputs","histories","configurations"],"all verifier/challenge/method combinations over an alphabet closed under single edits, truncation, padding, case and encoding changes; both code-issuing flows",
"Tests check one matching and one non-matching challenge per method on the verifier objects only.",
["grant/authorization_code.go","pkce/verifier.go","pkce/crypto.go","authorization/request.go"],[("FindVerifierByMethod / Verify","pkce/verifier.go"),("ToSession","authorization/request.go")],
observe=["token response","stored session"])

P("C05","A refresh token works only for its owner, in time, while authorized",
"A refresh succeeds only for a refresh token the store knows, presented by the client its authorization belongs to, not later than its creation time plus its lifetime, while that authorization is active and its scope still contains offline_access as a whole token. The response then carries exactly the tokens the store issued for this refresh of this token and the scope of the authorization as it now stands. Anything else is refused with invalid_grant (invalid_request when the parameter is missing) and leaves tokens unchanged.",
["inputs","histories","configurations"],"all token/client pairs, token string mutations, scope strings, time offsets around the boundary, revocation and scope change between issue and refresh",
"Tests refresh once successfully and once with an unknown token.",
["grant/refresh_token.go","scope/util.go"],[("expiry, owner, active and offline_access checks","grant/refresh_token.go")],
observe=["token response","RefreshAccessToken calls"])

P("C06","Direct grants act only for the proven user, client and scope",
"The password, client_credentials and JWT-bearer grants create an authorization only for the user the request proves (the user matching username and password exactly, the client's owner, the user the assertion's subject maps to), for the authenticated client, and with exactly the scope string requested, which the client must be permitted to use for direct grants when it is not empty. Otherwise the request is refused (invalid_request for missing parameters, invalid_scope for a scope not permitted, invalid_grant for an unproven user) and nothing is created.",
["inputs","configurations","histories"],"all combinations of username/password/subject/owner/scope variants and client permissions",
"Tests sample one right and one wrong password; scope permission is never denied by the test client.",
["grant/password.go","grant/client_credential.go","grant/jwt.go"],[("CanUseScope, FindUserId, GetOwnerUserId, FindUserIdBySubject","grant/")],
observe=["CreateOrUpdateAuthInfo arguments","token response"])

P("C07","Assertions are accepted only if genuine, timely and not replayed",
"A JWT assertion, used as client authentication or as a grant, is accepted only if it is well formed, its signature verifies with the key the client registered for the algorithm and key id in its header, it has an exp that is not past and no nbf or iat in the future, its aud equals the issuer, and the store accepted the record of exactly this client, jti, iat and exp. A client assertion authenticates only the client named by its sub. Unsigned, tampered, truncated, expired, foreign, wrongly addressed or replayed assertions are refused with an OAuth error and never crash the handler.",
["inputs","histories","configurations"],"all single-field variations and corruptions of assertions, algorithm/key confusion, time offsets around exp/nbf/iat, replays",
"Tests sample a few bad claims with one HMAC key and a store that never refuses a replay.",
["assertion/error.go","grant/jwt.go","token_endpoint.go"],[("HandleAssertionError","assertion/error.go"),("jwt.Parse key functions","token_endpoint.go, grant/jwt.go")],
observe=["token response","RecordAssertionClaims arguments"])

P("C08","Store or callback failures never grant anything or crash",
"Whatever store or callback operation fails at whatever point of a request - reporting not-found, unsupported, an internal error, or returning no value and no error - the request is never answered as a success, no operation that issues codes or tokens is performed after the failure, no token or code value is disclosed, and the handler does not panic. A lookup answered not-found is reported as a client-side OAuth error (or as the prompt or consent step it calls for), a refused creation as a client-side or server error, any other failure - including a handed-back request that cannot be decoded - as server_error (HTTP 500 at the token endpoint and resource protector, error=server_error or the server-error screen at the authorization endpoint).",
["fault_sequences","crash_points","configurations"],"every operation call of every request kind x every failure kind, singly and in pairs, for all grants, flows and policies",
"Tests use a store that never fails.",
["token_endpoint.go","authorization_endpoint.go","resource_protector.go","grant/","assertion/error.go"],[("error branches after each data interface / callback call","all handlers")],
observe=["response","later data interface calls","panics"])

P("C09","Protected resources admit only live tokens, with true identity",
"A request to a protected resource is admitted only if it carries an access token in a place the protector is configured to accept (Authorization Bearer header; POST body or query only if so configured), the store knows that token, the current time is not past its last refresh plus its lifetime, and its authorization is active. On admission the user-id, client-id and scope headers handed to the application are exactly those of that authorization, replacing anything the caller sent. Otherwise it is refused with a Bearer challenge: 400 invalid_request without a token, 401 invalid_token for a bad one.",
["inputs","configurations","histories"],"all Authorization header shapes, token placements and acceptance configurations, token mutations, time offsets, revocation/refresh histories, spoofed identity headers",
"Tests sample one valid and two invalid headers; they do not compile here.",
["resource_protector.go"],[("findTokenFromRequest / Validate","resource_protector.go")],observe=["return value","request headers after Validate","status, WWW-Authenticate"])

P("C10","Scope-restricted paths require every listed scope",
"A path listed in the scope map is served only if the token's authorization holds every scope listed for that exact path as a whole, case-sensitive scope token; a path not listed needs only a valid token. A request lacking a listed scope is refused with 403 insufficient_scope naming a scope that is actually missing. Identity headers sent by the caller never influence the decision.",
["inputs","configurations"],"all scope strings and required lists over a small token alphabet, path variants, spoofed headers",
"Tests never exercise the scope map with more than one path or spoofed headers.",
["resource_protector.go","scope/util.go"],[("ValidateWithScopes","resource_protector.go"),("IncludeAll","scope/util.go")],observe=["return value","status, WWW-Authenticate"])

P("C11","Nothing is ever sent to an unverified redirect URI",
"The authorization endpoint redirects or posts a response only to the redirect URI of the request, and only if that request's client_id names a known client which accepts exactly that URI; a missing, unknown or mismatched client or URI leads to the error screen and to nothing else (no redirect, no form, no login or consent screen, no code or token). Every redirect or form target consists of that URI, followed only by response parameters.",
["inputs","configurations","histories"],"all redirect URI edits and encodings, client/URI pairs, parameter duplication, response modes and every error path",
"No test exercises the authorization endpoint at all.",
["authorization_endpoint.go","authorization/response.go"],[("CanUseRedirectURI gate","authorization_endpoint.go")],observe=["Location, form action, error screen"])

P("C12","Authorization responses carry exactly what was asked, safely",
"A completed authorization returns exactly the items its response_type calls for - code, access_token with token_type and expires_in, id_token - plus the state given, each being the value issued for this request, and stores with a code the redirect URI, nonce, verifier, authentication time and lifetime of this request. They are delivered by the requested response_mode; the flow's default mode is used when none is given, and an unknown mode, or with the security check on one less secure than the default, is replaced by the default or rejected through it, as policy says. A cancelled request yields access_denied with the state and issues nothing.",
["inputs","configurations"],"all response types and orders x response modes x policies x state/nonce/scope values, direct and through login/consent continuation",
"No test exercises the authorization endpoint.",
["authorization_endpoint.go","authorization/response.go","response_mode/util.go","flow/flow.go"],[("complete*FlowRequest","authorization_endpoint.go"),("CompareSecurityLevel","response_mode/util.go")],observe=["Location / form","CreateAuthSession, CreateOAuthToken calls"])

P("C13","No authorization without the required login and consent",
"A request is completed without showing a consent screen only if the user has a login session, any max_age given is respected, the client's policy for that prompt permits omitting consent, and the user has an active authorization for this client with the same set of scopes granted within the consent-omission period; with prompt=none every policy condition (login session, login_hint or valid id_token_hint matching the user) must hold too, and no screen is ever shown. Otherwise the login screen (no session, prompt=login not freshly logged in, session older than max_age) or consent screen is shown, or for prompt=none interaction_required, login_required, consent_required or invalid_request is returned. prompt=consent always leads to the consent screen.",
["inputs","configurations","histories"],"all combinations of session state, prompt, policies, max_age and authentication age, stored consent (scope, age, activity), hints",
"No test exercises the authorization endpoint.",
["authorization_endpoint.go","prompt/util.go","scope/util.go"],[("prompt/none policy and consent omission branches","authorization_endpoint.go")],observe=["screens shown","response"])

P("C14","Requests are validated, then handed over unchanged",
"An authorization request proceeds to a screen or completion only if its response_type, display, max_age, prompt, scope, nonce and code_verifier are present where required and within policy, and the client may use the flow and scope; otherwise the fitting error is returned to the redirect URI with the request's state and no screen is shown. The request handed to login and consent screens carries every parameter exactly as received (offline_access removed when the flow or prompt does not allow it, defaults filled in), and survives encoding and decoding unchanged.",
["inputs","configurations"],"all parameter values around each policy limit and all pairs of parameters, encode/decode over all field alphabets",
"No test exercises the authorization endpoint or Encode/DecodeRequest.",
["authorization_endpoint.go","authorization/request.go","scope/util.go","prompt/util.go","flow/flow.go"],[("HandleRequest validation","authorization_endpoint.go"),("Encode / DecodeRequest","authorization/request.go")],observe=["callback arguments","error responses"])

P("C15","ID tokens are genuine and describe this very login",
"Every ID token verifies under the client's registered key, algorithm and key id, and its iss, aud, sub, nonce and auth_time are those of the issuer, client, user and login it was issued for, with iat the current time and exp the current time plus the configured lifetime. at_hash and c_hash are present exactly when an access token or code accompanies it in the authorization response, and match them. The token endpoint issues one exactly when the code's authorization includes the openid scope; if it cannot be signed the request fails instead of being answered without it.",
["inputs","configurations"],"all signing algorithms and keys x flows x subjects/nonces/times/lifetimes/scopes",
"id_token tests do not compile here; they check one RS256 token.",
["id_token/id_token.go","grant/authorization_code.go","authorization_endpoint.go"],[("Gen / GenForImplicit / GenForHybrid / Hash","id_token/id_token.go")],observe=["id_token in responses, verified independently"])

P("C16","Response encoding preserves every value and injects nothing",
"Every value put into a redirect query or fragment, a form_post page, a JSON body or a WWW-Authenticate header is recovered by a conforming recipient as exactly that value, and no value can add or change another parameter, header or markup. A registered redirect URI's own path and query survive unchanged, with response parameters appended after the right separator. Token responses and form pages always forbid caching and state their content type.",
["inputs"],"all parameter values over an alphabet of reserved, markup, control and non-ASCII characters, x response channel, x redirect URI shapes",
"Tests check four URIs for the separator and no escaping at all.",
["authorization/response.go","token_endpoint.go","grant/interface.go","oauth_error/errors.go","resource_protector.go"],[("Connector, Success, Error, render","authorization/response.go"),("JSON, Header, Query","oauth_error/errors.go")],observe=["raw HTTP response"])

P("C17","Requests never influence one another except through the store",
"Any sequence, and any concurrent interleaving, of requests served by shared endpoint objects gives each request the response and store effects it would have had on fresh endpoints against the same stored data in some sequential order. No value from one request (client, user, scope, state, token, error text, error URI) ever shows up in the handling of another. Endpoints with different configuration in one process do not affect each other.",
["schedules","histories","configurations"],"all ordered pairs and triples of a request alphabet on shared endpoints; all interleavings of two requests at store-operation granularity, and with up to two (thorough: three) preemptions at every callback, getter, log, clock and writer call",
"Tests are single-threaded and use fresh stores.",
["token_endpoint.go","authorization_endpoint.go","resource_protector.go","oauth_error/errors.go","pkce/verifier.go","log/logger.go"],[("endpoints hold only configuration","NewTokenEndpoint, NewAuthorizationEndpoint, NewResourceProtector")],observe=["responses and store calls per request"])

P("C18","Over any history, access matches what users granted",
"Over every history of authorizing, cancelling, redeeming, refreshing, calling an API, re-consenting, revoking and passing time, by several users and clients sharing one provider, an admitted API call acts for the user who granted it, for the client the token was issued to and with the scope of that grant as it now stands. A token, code or refresh token that was never issued, is revoked, superseded, expired or belongs to another client is never honoured. Everything legitimately issued and still live keeps working.",
["histories","configurations"],"all event sequences up to the bound over 2 users x 2 clients, deduplicated by reached state",
"Tests exercise single steps, never a history with revocation, re-consent, rotation and expiry.",
["token_endpoint.go","authorization_endpoint.go","resource_protector.go","grant/"],[("all handlers together","/")],state=[("provider state","authorizations, codes, tokens","bridge.DataInterface")],observe=["responses, identity headers"])

P("C19","Scope, prompt and response_type lists have set semantics",
"Scope, prompt and response_type parameters - lists of tokens separated by single spaces - are treated as sets of whole, case-sensitive tokens: membership, inclusion, removal and, for lists without repetition, equality depend only on which tokens are present, never on their order, on substrings or on similar tokens; removal deletes exactly the named token and keeps the others in order. A response_type is accepted exactly if it is one of the seven defined combinations in any order and selects the matching flow and outputs; prompt accepts exactly the four defined values, with none standing alone. Response modes are ranked query < fragment < form_post, and flow types survive JSON encoding.",
["inputs"],"all lists up to length 4 (thorough 5) over a token alphabet with prefixes, case variants and near-duplicates",
"Tests check a few literal strings.",
["scope/util.go","prompt/util.go","flow/flow.go","response_mode/util.go"],[("Include, IncludeAll, Same, Remove, Validate, JudgeByResponseType","scope, prompt, flow")],observe=["function results"])

P("C20","Published keys are exactly the registered public keys",
"The JWK endpoint publishes, as JSON, exactly the registered RSA public keys, each under its key id with its true modulus and exponent and nothing private, and each can be loaded back by key id to the same key. Loading a key from PEM or JWK yields exactly the key encoded there or an error, never a different key and never a panic on malformed or mistyped input. Registering an unusable key is never silently ignored.",
["inputs","histories"],"all registration histories over a key alphabet up to the bound, all PEM/JWK corruptions in the alphabet",
"The tests need a missing dependency and cannot run; they check one key.",
["jwk_endpoint.go","crypto/key.go"],[("PublicKeysJWK, Load*","crypto/key.go"),("AddFrom*, Handler","jwk_endpoint.go")],observe=["HTTP response","returned keys/errors"])

P("C21","Client secrets and user passwords never leak",
"Client secrets and user passwords presented to or stored behind the endpoints, and private signing keys, never appear in any log message, response header or response body, whatever the outcome of the request - success, refusal, store failure or malformed input.",
["inputs","fault_sequences","configurations"],"all grants x credential placements x outcomes x store failures, with marked secrets",
"Tests never inspect log output.",
["grant/password.go","token_endpoint.go","assertion/error.go","log/text.go"],[("log parameters","all handlers")],observe=["logger arguments","responses"])

P("C22","Token responses report exactly what was issued",
"A successful token response is HTTP 200 JSON whose access_token, expires_in and refresh_token are exactly those of the token the store issued for this request, token_type is Bearer, and scope is that of the authorization it was issued for; refresh_token is omitted exactly when the store issued none and id_token appears only for authorization codes. An error response never contains any of these members.",
["inputs","configurations"],"all grants x token value/lifetime/refresh/scope shapes",
"Tests check fixed token strings for a few grants.",
["grant/","token_endpoint.go"],[("NewResponse / JSON / success","grant/interface.go, token_endpoint.go")],observe=["JSON body"])

P("C23","OAuth errors have their registered wire form",
"Every OAuth error is reported with its registered error code and fitting HTTP status (400 for request, client, grant and scope errors, 401 for invalid_token, 403 for access_denied and insufficient_scope, 500 for server_error and unmapped types), identically in JSON, WWW-Authenticate and query form, with the description, URI and state it carries and no empty members. The token endpoint and resource protector add the configured error URI for the error's own type, and only that, to an error which has none.",
["inputs","configurations","histories"],"all error types x descriptions x URIs x states x realms, all endpoint errors under URI builders that distinguish types, in all orders of two",
"Tests check three constructors for one error type.",
["oauth_error/errors.go","token_endpoint.go","resource_protector.go"],[("String, StatusCode, JSON, Header, Query","oauth_error/errors.go"),("fail, failWithAuthHeader, unauthorize","token_endpoint.go, resource_protector.go")],observe=["HTTP responses"])

P("C24","Generated PKCE verifiers are unpredictable",
"A generated code verifier is well formed (43 to 128 unreserved characters) and carries at least 128 bits taken from the system's secure random source (crypto/rand), so that knowing when it was generated, or verifiers generated earlier or concurrently, does not help to predict it. No two generations yield the same verifier, even concurrent ones. While that source fails, no verifier is handed out.",
["inputs","schedules","fault_sequences"],"every byte, chunking and failure point of the random source, every interleaving of concurrent generations",
"A test sees a few values that look random; whether they follow from the clock, from a small seed, from a shared buffer or from a failed read cannot be told from them.",
["pkce/crypto.go"],[("GenRandomCodeVerifier","pkce/crypto.go")])

with open("/verif/properties.jsonl","w") as f:
    for o in out:
        assert len(o["title"])<=80,o["title"]
        n=o["statement"]
        f.write(json.dumps(o,ensure_ascii=False)+"\n")
print(len(out))
