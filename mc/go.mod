module goidcmc

go 1.23.0

require (
	aaa.test/entropy v0.0.0
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/lyokato/goidc v0.0.0
)

require github.com/google/go-querystring v1.2.0 // indirect

replace github.com/lyokato/goidc => /repo

replace aaa.test/entropy => ./entropy
