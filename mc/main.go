package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

type finding struct{ Key, What string }

var findingRe = regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)

func knownFindings(id string) map[string]finding {
	m := map[string]finding{}
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		if g := findingRe.FindStringSubmatch(s.Text()); g != nil && g[1] == id {
			m[g[2]] = finding{g[2], g[3]}
		}
	}
	return m
}

func knownSet(id string) map[string]bool {
	m := map[string]bool{}
	for k := range knownFindings(id) {
		m[k] = true
	}
	return m
}

func budget(tier string) time.Duration {
	d := 150 * time.Second
	if tier == "thorough" {
		d = 780 * time.Second
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			d = time.Duration(n) * time.Second
		}
	}
	return d
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func main() {
	setupProcess()
	if len(os.Args) < 2 {
		fatal("usage: mc run|worker|replay|list|child ...")
	}
	switch os.Args[1] {
	case "list":
		for _, k := range sortedKeys(checks) {
			fmt.Println(k)
		}
	case "literals":
		listLits()
	case "run":
		os.Exit(runParent(os.Args[2], os.Args[3]))
	case "worker":
		// worker ID tier i n outfile deadlineUnix
		c := checks[os.Args[2]]
		i, _ := strconv.Atoi(os.Args[4])
		n, _ := strconv.Atoi(os.Args[5])
		dl, _ := strconv.ParseInt(os.Args[7], 10, 64)
		r := newRunner(c, os.Args[3], i, n, time.Unix(dl, 0), knownSet(c.ID))
		r.runAll()
		writeJSON(os.Args[6], r.res)
	case "replay":
		os.Exit(runReplay(os.Args[2]))
	case "child":
		runChild(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal("executable: %v", err)
	}
	return p
}

func runReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("replay: %v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("replay: %v", err)
	}
	c := checks[v.Property]
	if c == nil {
		fatal("unknown property %s", v.Property)
	}
	if v.Mode == "extra" {
		res := &Result{PerScenario: map[string]int64{}, Findings: map[string]string{}, Extra: map[string]int64{}}
		c.Extra(v.Tier, res)
		for _, o := range res.Violations {
			if o.Failure.Key == v.Failure.Key {
				fmt.Printf("reproduced: %s: %s\n", o.Failure.Key, o.Failure.Msg)
				return 1
			}
		}
		fmt.Println("not reproduced")
		return 0
	}
	if v.Mode == "worker" {
		known := knownSet(c.ID)
		r := newRunner(c, v.Tier, v.Worker, v.Workers, time.Now().Add(budget(v.Tier)), known)
		r.runAll()
		for _, o := range r.res.Violations {
			if o.Failure.Key == v.Failure.Key {
				fmt.Printf("reproduced (whole worker %d/%d): %s: %s\n", v.Worker, v.Workers, o.Failure.Key, o.Failure.Msg)
				return 1
			}
		}
		fmt.Println("not reproduced")
		return 0
	}
	fs, tr := replayOnce(c, &v)
	for _, s := range tr {
		fmt.Println("  " + s)
	}
	for _, f := range fs {
		if f.Key == v.Failure.Key {
			fmt.Printf("reproduced: %s: %s\n", f.Key, f.Msg)
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}

func execSelf(timeout time.Duration, args ...string) (int, string) {
	cmd := exec.Command(self(), args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	var out strings.Builder
	cmd.Stdout = &out
	cmd.Stderr = &out
	if os.Getenv("MC_TIMES") != "" {
		cmd.Stderr = os.Stderr
	}
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return -2, out.String()
	}
	return cmd.ProcessState.ExitCode(), out.String()
}

func runParent(id, tier string) int {
	start := time.Now()
	c := checks[id]
	if c == nil {
		fatal("unknown property %s", id)
	}
	known := knownFindings(id)
	knownKeys := knownSet(id)
	workers := 8
	if s := os.Getenv("MC_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	deadline := start.Add(budget(tier))
	hard := budget(tier) + 60*time.Second
	tmp, err := os.MkdirTemp("", "goidcmc")
	if err != nil {
		fatal("tmp: %v", err)
	}
	defer os.RemoveAll(tmp)
	os.Setenv("MC_SHARE", tmp)

	total := &Result{PerScenario: map[string]int64{}, Findings: map[string]string{}, Extra: map[string]int64{}, Complete: true}
	results := make([]*Result, workers)
	errs := make([]string, workers)
	if len(c.Scenarios(tier)) > 0 {
		var wg sync.WaitGroup
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				out := filepath.Join(tmp, fmt.Sprintf("w%d.json", i))
				rc, txt := execSelf(hard, "worker", id, tier, strconv.Itoa(i), strconv.Itoa(workers), out,
					strconv.FormatInt(deadline.Unix(), 10))
				b, err := os.ReadFile(out)
				if rc != 0 || err != nil {
					if len(txt) > 4000 {
						txt = txt[:4000]
					}
					errs[i] = fmt.Sprintf("rc=%d %s", rc, txt)
					return
				}
				r := &Result{}
				if err := json.Unmarshal(b, r); err != nil {
					errs[i] = err.Error()
					return
				}
				results[i] = r
			}(i)
		}
		wg.Wait()
	}
	for i, r := range results {
		if r == nil {
			if errs[i] != "" {
				if strings.HasPrefix(errs[i], "rc=-2") {
					// killed at the hard limit: no verdict from this worker
					total.Complete = false
					total.Incomplete = append(total.Incomplete, fmt.Sprintf("worker %d stopped at the time limit", i))
					continue
				}
				// A crash that kills the whole process (fatal error, stack overflow) in code under
				// test.  Confirm by running the worker again.
				rc, txt := execSelf(hard, "worker", id, tier, strconv.Itoa(i), strconv.Itoa(workers),
					filepath.Join(tmp, "again.json"), strconv.FormatInt(time.Now().Add(budget(tier)).Unix(), 10))
				if rc != 0 && rc != -2 {
					fmt.Fprintln(os.Stderr, txt)
					if strings.Contains(txt, "harness:") {
						fatal("worker %d failed: %s", i, errs[i])
					}
					total.Violations = append(total.Violations, Violation{Property: id, Scenario: "*", Tier: tier,
						Failure: Failure{"process-died", "the process running the code under test died: " + firstLine(txt)},
						Mode:    "worker", Worker: i, Workers: workers})
				}
			}
			continue
		}
		total.Executions += r.Executions
		total.Transitions += r.Transitions
		total.States += r.States
		total.Distinct += r.Distinct
		total.Validated += r.Validated
		total.Diverged += r.Diverged
		total.Capped = total.Capped || r.Capped
		total.Complete = total.Complete && r.Complete
		for k, v := range r.PerScenario {
			total.PerScenario[k] += v
		}
		for k, v := range r.Extra {
			total.Extra[k] += v
		}
		for k, v := range r.Findings {
			total.Findings[k] = v
		}
		total.Incomplete = append(total.Incomplete, r.Incomplete...)
		total.Violations = append(total.Violations, r.Violations...)
		if len(total.Samples) < 8 {
			total.Samples = append(total.Samples, r.Samples...)
		}
	}
	if c.Extra != nil {
		er := &Result{PerScenario: map[string]int64{}, Findings: map[string]string{}, Extra: map[string]int64{}, Complete: true}
		c.Extra(tier, er)
		total.Executions += er.Executions
		total.Transitions += er.Transitions
		total.States += er.States
		total.Distinct += er.Distinct
		total.Validated += er.Validated
		total.Complete = total.Complete && er.Complete
		total.Incomplete = append(total.Incomplete, er.Incomplete...)
		for k, v := range er.Extra {
			total.Extra[k] += v
		}
		for k, v := range er.PerScenario {
			total.PerScenario[k] += v
		}
		total.Samples = append(total.Samples, er.Samples...)
		for _, v := range er.Violations {
			v.Mode = "extra"
			v.Property = id
			v.Tier = tier
			if knownKeys[v.Failure.Key] {
				total.Findings[v.Failure.Key] = v.Failure.Msg
			} else {
				total.Violations = append(total.Violations, v)
			}
		}
	}

	// de-duplicate by key, shortest choice sequence first
	sort.SliceStable(total.Violations, func(a, b int) bool {
		return len(total.Violations[a].Choices) < len(total.Violations[b].Choices)
	})
	var uniq []Violation
	seen := map[string]bool{}
	for _, v := range total.Violations {
		if !seen[v.Failure.Key] {
			seen[v.Failure.Key] = true
			uniq = append(uniq, v)
		}
	}
	repDir := filepath.Join(verifDir, "replays")
	os.MkdirAll(repDir, 0755)
	rc := 0
	unconfirmed := []string{}
	confirmedN := 0
	if len(uniq) > 6 {
		uniq = uniq[:6]
	}
	for i, v := range uniq {
		path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", id, i))
		ok := true
		if v.Failure.Key != "process-died" {
			if len(v.Choices) > 0 || v.Mode == "extra" {
				writeJSON(path, &v)
				n := 10
				if v.Mode == "extra" {
					n = 2
				}
				// The code under test may itself be nondeterministic (map iteration order): one
				// reproduction in several tries confirms.
				ok = false
				for k := 0; k < n && !ok; k++ {
					c, _ := execSelf(5*time.Minute, "replay", path)
					ok = c == 1
				}
			} else {
				ok = false
			}
			if !ok && v.Mode != "extra" {
				v.Mode = "worker"
				writeJSON(path, &v)
				for k := 0; k < 2 && !ok; k++ {
					c, _ := execSelf(hard, "replay", path)
					ok = c == 1
				}
			}
		} else {
			writeJSON(path, &v)
		}
		if !ok {
			unconfirmed = append(unconfirmed, v.Failure.Key+": "+v.Failure.Msg)
			continue
		}
		confirmedN++
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  scenario %s: %s: %s\n", v.Scenario, v.Failure.Key, v.Failure.Msg)
		rc = 1
		if confirmedN >= 3 {
			break
		}
	}
	for _, u := range unconfirmed {
		fmt.Printf("note: not reproduced, not reported: %s\n", u)
	}
	for _, k := range sortedKeys(total.Findings) {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", id, known[k].What, k)
	}

	wall := time.Since(start).Seconds()
	level := c.Level
	if level == "" {
		level = "model_checking"
	}
	if len(total.Samples) == 0 {
		total.Samples = []string{"(none)"}
	}
	if len(total.Samples) > 8 {
		total.Samples = total.Samples[:8]
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"evaluations":                   total.Executions,
		"distinct_nontrivial":           total.Distinct,
		"rule":                          c.Rule,
		"states":                        total.States,
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Validated,
		"samples":                       total.Samples,
		"exhaustive":                    total.Complete && rc == 0 && total.Diverged == 0,
		"per_scenario":                  total.PerScenario,
		"incomplete":                    total.Incomplete,
		"states_capped":                 total.Capped,
		"diverged_replays":              total.Diverged,
		"known_findings_observed":       len(total.Findings),
	}
	for k, v := range total.Extra {
		cov[k] = v
	}
	as := c.Assumptions
	if as == nil {
		as = []string{}
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	writeJSON(filepath.Join(verifDir, "evidence", id+".json"), map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": as, "wall_s": wall, "violations": confirmedN,
	})
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, %d distinct histories, exhaustive=%v, %.1fs\n", id, tier,
		total.Executions, total.States, total.Transitions, total.Distinct, cov["exhaustive"], wall)
	return rc
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
