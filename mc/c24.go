package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strings"
	"sync"

	"aaa.test/entropy"
	"github.com/lyokato/goidc/pkce"
)

// C24: generated PKCE verifiers carry the entropy of the system's secure random source.
//
// The environment explored is that source: crypto/rand.Reader is replaced by a scripted stream, so
// that the generator becomes a function of the bytes, chunkings and failures the stream is made of,
// and its output can be enumerated over them. Clock, process state, earlier output and math/rand are
// left as they are: what does not follow from the scripted stream cannot be told from what an
// attacker knows.

func init() {
	register(&Check{
		ID:   "C24",
		Rule: "the generator as a function of the secure random source: every byte position of the source x all 256 values from several base streams (how many outputs each position tells apart), every pair of positions x values (whether they do so independently), each at the 1st to 4th call of a process and for every chunking of the source's reads; every failure point of the source; every interleaving, up to a number of preemptions, of 2 to 3 concurrent generations with scheduling points at the source's reads; the form of every value generated; pairs of generations without any order between them, under the race detector",
		Assumptions: []string{
			"the secure random source is crypto/rand (its Reader, directly or through the package's functions); what it delivers is unpredictable",
			"outputs told apart are counted per byte position and summed over positions found pairwise independent",
		},
		Scenarios: c24Scenarios,
		Extra:     func(tier string, res *Result) { raceRun("c24race", "two concurrent generations", tier, res) },
	})
}

// src24 is a scripted source.
type src24 struct {
	Base  int         `json:"base"`            // base stream
	Set   map[int]int `json:"set,omitempty"`   // positions with another value
	Chunk int         `json:"chunk,omitempty"` // most bytes a read returns; 0: all
	Fail  int         `json:"fail,omitempty"`  // 1+position at which reading fails for ever
	EOF   bool        `json:"eof,omitempty"`   // it fails with io.EOF
	Zero  bool        `json:"zero,omitempty"`  // every other read returns nothing and no error
	Once  bool        `json:"once,omitempty"`  // the failure happens once
	N     int         `json:"n,omitempty"`     // verifiers to generate

	pos, reads int
	failed     bool
	hook       func()
}

func (s *src24) at(i int) byte {
	if v, ok := s.Set[i]; ok {
		return byte(v)
	}
	switch s.Base {
	case 0:
		return 0
	case 1:
		return 0xff
	case 2:
		return byte(i)
	}
	h := uint64(i+1)*0x9e3779b97f4a7c15 + uint64(s.Base)
	h ^= h >> 31
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 29
	h *= 0x94d049bb133111eb
	return byte(h >> 56)
}

func (s *src24) Read(b []byte) (int, error) {
	if s.hook != nil {
		s.hook()
		defer s.hook()
	}
	s.reads++
	if s.Zero && s.reads%2 == 1 {
		return 0, nil
	}
	n := len(b)
	if s.Chunk > 0 && n > s.Chunk {
		n = s.Chunk
	}
	for i := 0; i < n; i++ {
		if s.Fail > 0 && s.pos >= s.Fail-1 && !(s.Once && s.failed) {
			s.failed = true
			if s.EOF {
				return i, io.EOF
			}
			return i, errors.New("no entropy")
		}
		b[i] = s.at(s.pos)
		s.pos++
	}
	return n, nil
}

var (
	once24       sync.Once
	memoryless24 bool // the generator keeps no entropy from one call to the next
)

// gen24 generates n verifiers from the source and returns them with the number of bytes read.
func gen24(s src24) ([]string, int, string) {
	once24.Do(func() {
		one := func(b int) (string, int) {
			s := &src24{Base: b}
			entropy.Set(s)
			defer entropy.Set(nil)
			return pkce.GenRandomCodeVerifier(), s.pos
		}
		ok := func() (ok bool) {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			a, n := one(3)
			_, m := one(4)
			c, k := one(3)
			return n > 0 && n == m && n == k && a == c
		}
		memoryless24 = ok()
	})
	if s.N == 0 {
		s.N = 1
	}
	if !memoryless24 || s.Fail > 0 {
		return child24(s)
	}
	var out []string
	entropy.Set(&s)
	defer entropy.Set(nil)
	for i := 0; i < s.N; i++ {
		v, p := genCatch()
		if p != "" {
			return out, s.pos, p
		}
		out = append(out, v)
	}
	return out, s.pos, ""
}

func genCatch() (v, perr string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(schedAbort); ok {
				panic(e)
			}
			perr = fmt.Sprint(e)
		}
	}()
	return pkce.GenRandomCodeVerifier(), ""
}

type child24out struct {
	Out  []string
	Read int
	Died string
}

var cache24 = map[string]child24out{}

func child24(s src24) ([]string, int, string) {
	arg, _ := json.Marshal(&s)
	o, ok := cache24[string(arg)]
	if !ok {
		b, err := exec.Command(self(), "child", "c24", string(arg)).Output()
		for _, l := range strings.Split(string(b), "\n") {
			if l != "" {
				var p child24out
				if json.Unmarshal([]byte(l), &p) == nil {
					o = p
				}
			}
		}
		if err != nil && o.Died == "" {
			o.Died = err.Error()
		}
		cache24[string(arg)] = o
	}
	return o.Out, o.Read, o.Died
}

// childC24 generates verifiers in a process of its own, reporting after each: the source's failure may
// end the process.
func childC24(arg string) {
	var s src24
	if err := json.Unmarshal([]byte(arg), &s); err != nil {
		fatal("c24: %v", err)
	}
	entropy.Set(&s)
	var o child24out
	for i := 0; i < s.N; i++ {
		v, p := genCatch()
		if p != "" {
			o.Died = p
		} else {
			o.Out = append(o.Out, v)
		}
		o.Read = s.pos
		b, _ := json.Marshal(&o)
		os.Stdout.Write(append(b, '\n'))
		if p != "" {
			return
		}
	}
}

// child24race runs generations in pairs without a happens-before edge between the two, in a
// race-detector build.
func child24race() {
	pairs := 0
	for n := 0; n < 12; n++ {
		for k := 0; k < n; k++ {
			genCatch()
		}
		runUnordered(func() { genCatch() }, func() { genCatch() })
		pairs++
	}
	fmt.Printf("pairs=%d\n", pairs)
}

// form24 judges the form RFC 7636 gives a verifier, and that the library's own verifiers accept it.
func form24(x *X, v string) {
	if len(v) < 43 || len(v) > 128 {
		x.Fail("form/length", "generated verifier %q has %d characters", v, len(v))
	}
	for _, c := range v {
		if !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~", c) {
			x.Fail("form/alphabet", "generated verifier %q contains %q", v, c)
			break
		}
	}
}

// windows24 lists a verifier's pieces of 48 bits at every bit offset (of 8 characters if it is not base64url).
func windows24(v string) []string {
	const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	var bits []byte
	for i := 0; i < len(v); i++ {
		n := strings.IndexByte(alpha, v[i])
		if n < 0 {
			bits = nil
			break
		}
		for b := 5; b >= 0; b-- {
			bits = append(bits, '0'+byte(n>>uint(b)&1))
		}
	}
	var l []string
	for j := 0; j+48 <= len(bits); j++ {
		l = append(l, string(bits[j:j+48]))
	}
	for j := 0; bits == nil && j+8 <= len(v); j++ {
		l = append(l, v[j:j+8])
	}
	return l
}

const needBits = 128

// bits24 determines how many outputs the bytes the source delivers for verifier number k tell apart.
func bits24(x *X, s src24, k int, values []int, pairValues []int) {
	s.N = k + 1
	base, read, died := gen24(s)
	if died != "" || len(base) != k+1 {
		x.Fail("fails", "no verifier although the source works: %s", died)
		return
	}
	form24(x, base[k])
	x.Stepf("base %d call %d: %d bytes read", s.Base, k, read)
	probe := func(set map[int]int) string {
		t := s
		t.Set = set
		o, _, d := gen24(t)
		if d != "" || len(o) != k+1 {
			x.Fail("fails", "no verifier although the source works: %s", d)
			return ""
		}
		x.trans++
		form24(x, o[k])
		return o[k]
	}
	// positions that matter, and how many values each tells apart
	var pos []int
	distinct := map[int]int{}
	for p := 0; p < read; p++ {
		if !memoryless24 && probe(map[int]int{p: int(s.at(p)) ^ 0xff}) == base[k] && probe(map[int]int{p: int(s.at(p)) ^ 0x01}) == base[k] {
			continue
		}
		seen := map[string]bool{base[k]: true}
		for _, v := range values {
			seen[probe(map[int]int{p: v})] = true
		}
		distinct[p] = len(seen)
		if len(seen) > 1 {
			pos = append(pos, p)
		}
		x.Stepf("position %d: %d outputs", p, len(seen))
	}
	// of those, a set in which each pair acts independently
	var indep []int
	total := 0.0
	for _, p := range pos {
		ok := true
		for _, q := range indep {
			sp, sq, both := map[string]bool{}, map[string]bool{}, map[string]bool{}
			for _, v := range pairValues {
				sp[probe(map[int]int{p: v, q: int(s.at(q))})] = true
				sq[probe(map[int]int{q: v, p: int(s.at(p))})] = true
				for _, u := range pairValues {
					both[probe(map[int]int{p: v, q: u})] = true
				}
			}
			if len(both) < len(sp)*len(sq) {
				ok = false
				break
			}
		}
		if ok {
			indep = append(indep, p)
			total += math.Log2(float64(distinct[p]))
		}
		if !memoryless24 && total >= needBits {
			break
		}
	}
	x.Stepf("%d independent positions, %.0f bits", len(indep), total)
	if total < needBits-1e-6 {
		x.Fail("entropy", "verifier number %d of a process depends on %.1f bits of the secure random source (%d bytes read, %d of them matter, %d independently); base stream %d, chunk %d",
			k+1, total, read, len(pos), len(indep), s.Base, s.Chunk)
	}
}

func c24Scenarios(tier string) []*Scenario {
	thorough := tier == "thorough"
	values := make([]int, 256)
	for i := range values {
		values[i] = i
	}
	pv := []int{0, 1, 0x55, 0x80, 0xfe}
	calls := 3
	bases := 4
	if thorough {
		pv = nil
		for i := 0; i < 256; i += 5 {
			pv = append(pv, i)
		}
		calls = 6
		bases = 8
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "entropy", Unit: 2, Run: func(x *X) {
		b := x.Choose("base", bases)
		k := x.Choose("call", calls)
		chunk := []int{0, 1, 7, 31}[x.Choose("chunk", 4)]
		zero := x.Choose("zero reads", 2) == 1
		p := pv
		if chunk > 0 || zero {
			p = pv[:3]
		}
		x.commit()
		gen24(src24{Base: 3})
		if !memoryless24 {
			// every evaluation is a process: fewer of them
			if b < 2 || b > 3 || chunk > 1 || zero || k > 1 {
				x.Step("process per evaluation: skipped")
				return
			}
			bits24(x, src24{Base: b, Chunk: chunk}, k, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 48, 64, 128, 192, 255}, []int{0, 1})
			return
		}
		bits24(x, src24{Base: b, Chunk: chunk, Zero: zero}, k, values, p)
	}})
	out = append(out, &Scenario{Name: "failures", Run: func(x *X) {
		s := src24{Base: 3, N: 2}
		at := x.Choose("failing byte", 33)
		s.Fail = at + 1
		s.EOF = x.Choose("EOF", 2) == 1
		s.Chunk = x.Choose("chunk", 2)
		s.Once = x.Choose("once", 2) == 1
		x.commit()
		got, _, died := gen24(s)
		x.Stepf("fail at %d eof %v chunk %d once %v: %d verifiers, died %v", at, s.EOF, s.Chunk, s.Once, len(got), died != "")
		if at < needBits/8 && !s.Once && len(got) > 0 {
			x.Fail("failure", "the source failed after %d bytes, yet verifier %q was returned", at, got[0])
		}
		if s.Once && len(got) > 0 && at < needBits/8 {
			// what was returned in spite of one failure must still depend on the source
			t := s
			t.Base = 5
			o, _, _ := gen24(t)
			for i := range got {
				form24(x, got[i])
				if i < len(o) && o[i] == got[i] {
					x.Fail("failure/once", "after one failure at byte %d verifier %q does not depend on the source", at, got[i])
				}
			}
		}
		if len(got) == 2 && got[0] == got[1] {
			x.Fail("repeat", "two verifiers of one process are equal: %q", got[0])
		}
	}})
	out = append(out, &Scenario{Name: "sequence", Run: func(x *X) {
		s := src24{Base: 3 + x.Choose("base", 3), Chunk: x.Choose("chunk", 2) * 5, N: 64}
		x.commit()
		got, _, died := gen24(s)
		if died != "" {
			x.Fail("fails", "no verifier although the source works: %s", died)
		}
		windows := map[string]int{}
		for i, v := range got {
			x.Stepf("verifier %d", i)
			form24(x, v)
			for _, s := range windows24(v) {
				if p, ok := windows[s]; ok && p != i {
					x.Fail("repeat", "verifiers %d and %d of one process share %s: %q, %q", p+1, i+1, s, got[p], v)
					break
				}
				windows[s] = i
			}
		}
	}})
	n := 2
	if thorough {
		n = 3
	}
	for k := 2; k <= n; k++ {
		k := k
		bound := 3
		if thorough {
			bound = 7 - k
		}
		out = append(out, &Scenario{Name: fmt.Sprintf("interleaved-%d", k), Bound: bound, Run: func(x *X) {
			s := &src24{Base: 3 + x.Choose("base", 2), Chunk: []int{0, 13, 5}[x.Choose("chunk", 3)]}
			x.commit()
			sc := NewSched(x, true, true)
			s.hook = func() { sc.point("entropy") }
			got := make([]string, k)
			bodies := make([]func(), k)
			for i := range bodies {
				i := i
				bodies[i] = func() {
					v, p := genCatch()
					if p != "" {
						v = "!" + p
					}
					got[i] = v
				}
			}
			entropy.Set(s)
			func() {
				defer entropy.Set(nil)
				sc.Run(bodies...)
			}()
			windows := map[string]int{}
			for i, v := range got {
				x.Stepf("thread %d: %s", i, v)
				if strings.HasPrefix(v, "!") {
					x.Fail("fails", "no verifier although the source works: %s", v[1:])
					continue
				}
				form24(x, v)
				for _, s := range windows24(v) {
					if p, ok := windows[s]; ok && p != i {
						x.Fail("interleaved", "two verifiers generated concurrently share %s: %q, %q", s, got[p], v)
						break
					}
					windows[s] = i
				}
			}
			if s.pos < k*needBits/8 && memoryless24 {
				x.Fail("interleaved/entropy", "%d concurrent verifiers were made of %d bytes of the source", k, s.pos)
			}
		}})
	}
	return out
}
