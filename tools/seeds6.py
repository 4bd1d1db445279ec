SEEDS=[]
def S(id,prop,edits,demo,needs,breaks,imports=[],jwk=False):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,imports=imports,jwk=jwk))
RP='resource_protector.go'
TE='token_endpoint.go'
AE='authorization_endpoint.go'

S('C09-ring','C09',[(RP,'''	"strconv"
	"strings"
''','''	"strconv"
	"strings"
	"sync"
'''),(RP,'''type ResourceProtector struct {
''','''// recent remembers which authorization the tokens seen last belong to
type recent struct {
	sync.Mutex
	at  map[string]int
	ids [64]int64
	n   int
}

func (c *recent) authId(token string, find func() int64) int64 {
	c.Lock()
	defer c.Unlock()
	if i, ok := c.at[token]; ok {
		return c.ids[i]
	}
	if c.at == nil {
		c.at = make(map[string]int)
	}
	i := c.n % len(c.ids)
	c.n++
	c.at[token], c.ids[i] = i, find()
	return c.ids[i]
}

type ResourceProtector struct {
	recent                recent
'''),(RP,'''	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
''','''	info, err := sdi.FindActiveAuthInfoById(rp.recent.authId(rt, at.GetAuthId))
''')],'''
import "fmt"
func demo() {
	p := New()
	for i := 0; i < 70; i++ {
		in := p.AddInfo(int64(1000+i), "cl", "openid")
		p.Store.Tokens = append(p.Store.Tokens, &Tok{Auth: in.GetId(), Access: fmt.Sprintf("many-%d", i), AExp: 1000, Refreshed: p.Store.Now, Created: p.Store.Now})
	}
	who := func(i int) string {
		r := Req("GET", "/api", "")
		r.Header.Set("Authorization", fmt.Sprintf("Bearer many-%d", i))
		check(p.API(r, nil).Code < 300, "refused")
		return r.Header.Get("X-OAUTH-USER-ID")
	}
	for i := 0; i < 70; i++ {
		check(who(i) == fmt.Sprint(1000+i), "%d: %s", i, who(i))
	}
	for i := 0; i < 70; i++ {
		check(who(i) == fmt.Sprint(1000+i), "%d again: %s", i, who(i))
	}
}''','more than 64 tokens presented to one resource protector, then one of the first ones again','the request is admitted as another user')

S('C01-lockout','C01',[(TE,'''	return func(w http.ResponseWriter, r *http.Request) {

		if r.Method''','''	var mu sync.Mutex
	attempts := make(map[string]int)

	return func(w http.ResponseWriter, r *http.Request) {

		if id, _, ok := r.BasicAuth(); ok {
			// no client needs this many tokens
			mu.Lock()
			attempts[id]++
			n := attempts[id]
			mu.Unlock()
			if n > 100 {
				te.failByInvalidClientError(w, true)
				return
			}
		}

		if r.Method'''),(TE,'''	"strconv"
''','''	"strconv"
	"sync"
''')],'''
import "net/http"
func demo() {
	p := New()
	h := p.TE.Handler(p.Store)
	for i := 0; i < 110; i++ {
		q := Req("POST", "/token", Form("grant_type", "client_credentials"))
		q.SetBasicAuth("cl", "sec")
		x := run(func(w http.ResponseWriter) bool { h(w, q); return true })
		check(x.Code == 200, "request %d: %s", i, x)
	}
}''','more than 100 requests of one client to one handler','an authenticated, permitted client is refused')

S('C13-asked-often','C13',[(AE,'''type AuthorizationEndpoint struct {
''','''type AuthorizationEndpoint struct {
	confirmed sync.Map
'''),(AE,'''	"net/http"
	"strconv"
''','''	"net/http"
	"strconv"
	"sync"
	"sync/atomic"
'''),(AE,'''				if info == nil {
					rh.Error(ruri, "server_error", "", state)
					return false
				}
				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
				}
			}
		case prompt.NoConsentPromptPolicyForceConsent:
		}
	}
	err = callbacks.ShowConsentScreen(clnt, req)
''','''				if info == nil {
					rh.Error(ruri, "server_error", "", state)
					return false
				}
				// an authorization that has been used again and again keeps standing
				times, _ := a.confirmed.LoadOrStore(info.GetId(), new(int32))
				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					(info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() || atomic.LoadInt32(times.(*int32)) >= 12) {
					atomic.AddInt32(times.(*int32), 1)
					return a.complete(callbacks, r, rh, info, req)
				}
			}
		case prompt.NoConsentPromptPolicyForceConsent:
		}
	}
	err = callbacks.ShowConsentScreen(clnt, req)
''')],'''
import "github.com/lyokato/goidc/prompt"

func demo() {
	p := New()
	p.Clients["cl"].NC = prompt.NoConsentPromptPolicyOmitConsentIfCan
	i := p.AddInfo(7, "cl", "openid read")
	for k := 0; k < 20; k++ {
		p.Authz("scope", "read openid")
		check(len(p.CB.Screens) == 0, "consent asked again: %v", p.CB.Screens)
	}
	i.At -= 1000000
	p.Authz("scope", "read openid")
	check(len(p.CB.Screens) == 1, "completed without consent long after it was given")
}''','twelve authorizations without consent in one process, then one after the period','consent is never asked for again')
