package main

// The check of one property: verify its root contracts and the helper contracts they use, write the
// evidence, and on failure look for a concrete failing input by running the real code.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type violation struct {
	Property string      `json:"property"`
	Failed   []*FnReport `json:"failed_functions"`
	Error    string      `json:"error,omitempty"`
	Concrete string      `json:"failing_input,omitempty"`
	Driver   string      `json:"replay_command,omitempty"`
	Output   string      `json:"replay_output,omitempty"`
}

// drivers: packages of /repo into which a replay driver is laid, per property.
var drivers = map[string][]string{
	"C01": {"xproto"}, "C02": {"xproto"}, "C03": {"xproto", "."}, "C04": {"xproto"}, "C05": {"xproto"}, "C06": {"."}, "C07": {"."},
	"C08": {"."}, "C09": {"."}, "C10": {"."}, "C11": {"."}, "C12": {".", "xproto"}, "C13": {"."}, "C14": {"."}, "C15": {"."}, "C22": {"slice"},
	"C24": {"xproto"}, "C23": {"collation"}, "C21": {"types"},
	"C16": {"netx/connection"}, "C17": {"netx/connection"}, "C19": {"netx/connector"}, "C20": {"netx/pool/fifoch"},
	"C18": {"netx/connector/authentication/mysql41", "netx/connector/authentication/sha256", "netx/connector/authentication/plain"},
}

func checkProperty(scratch, id string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var reps []*FnReport
	assumedElsewhere := map[string]bool{}
	v := &violation{Property: id}
	e, err := load(scratch)
	if err != nil {
		v.Error = err.Error()
	} else {
		e.prop = id
		registerAll(e)
		reps, assumedElsewhere = e.verifyProperty(id)
		if len(reps) == 0 {
			v.Error = "no contracts are registered for this property"
		}
	}
	bad := v.Error != ""
	known := knownFindings(id)
	var knownHit []string
	obls, disch, secs, paths := 0, 0, 0.0, 0
	by := map[string]int{}
	maxs := 0.0
	for _, r := range reps {
		obls += r.Obls + len(r.Failed)
		disch += r.Obls
		secs += r.Secs
		paths += r.Paths
		maxs = max(maxs, r.MaxSecs)
		for k, n := range r.BySolver {
			by[k] += n
		}
		if r.ok() {
			continue
		}
		rest := []*Obl{}
		for _, o := range r.Failed {
			if k := known.match(r.Key, o.Name); k != "" {
				knownHit = append(knownHit, k)
			} else {
				rest = append(rest, o)
			}
		}
		if len(rest) == 0 && r.Unsupported == "" && r.Vacuous == "" {
			continue
		}
		bad = true
		obls++
		v.Failed = append(v.Failed, r)
	}
	for _, k := range dedup(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	var driverOut string
	driverRan := false
	if err == nil && (bad || tier == "thorough") {
		for _, pkg := range drivers[id] {
			cmd, out, fail := runDriver(scratch, id, pkg, hints(reps), seed, tier)
			driverRan = true
			driverOut += out
			if fail != "" {
				v.Concrete = fail
				v.Driver = cmd
				v.Output = clip(out, 8000)
				bad = true
				break
			}
		}
	}
	trusted := map[string]bool{}
	assume := map[string]bool{}
	externs := map[string]bool{}
	var fns []map[string]any
	if e != nil {
		for _, r := range reps {
			for _, u := range r.Used {
				if c := e.contracts[u]; c != nil && c.Trusted {
					assume["assumed contract of "+u+": "+c.Why] = true
				}
			}
			for _, x := range r.Externs {
				externs[x] = true
			}
			if c := e.contracts[r.Key]; c != nil && c.Why != "" && !c.Trusted {
				assume["contract of "+r.Key+": "+c.Why] = true
			}
			fns = append(fns, map[string]any{"function": r.Key, "obligations": r.Obls + len(r.Failed), "discharged": r.Obls, "paths": r.Paths,
				"secs": round(r.Secs), "inlined": r.Inlined, "contracts_used": r.Used, "helper": r.Helper, "verified": r.ok()})
		}
	}
	for _, k := range sortedKeys(externs) {
		assume["assumed behaviour of "+k] = true
	}
	for _, k := range sortedKeys(assumedElsewhere) {
		assume["contract of "+k+" is used here and discharged by the check of "+strings.Join(e.contracts[k].Props, ", ")] = true
	}
	for _, s := range []string{"golang.org/x/tools/go/ssa (translation of the Go source)", "govc (condition generator, /verif/govc)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "the Go compiler implements the same semantics as the SSA form"} {
		trusted[s] = true
	}
	for _, s := range []string{
		"slices, strings and buffers are shorter than 2^40 bytes (so lengths do not overflow)",
		"loops run fewer than 2^62 iterations; termination is not claimed",
		"memory allocation does not fail; no other goroutine touches the data of the call unless the property says so",
		"path pruning uses a built-in linear procedure; every obligation it proves is confirmed by z3, every pruning decision is confirmed in the thorough tier",
	} {
		assume[s] = true
	}
	cov := map[string]any{
		"obligations": obls, "discharged": disch, "checker_cmd": fmt.Sprintf("bash /verif/check.sh %s", id),
		"trusted_base": sortedKeys(trusted), "functions_under_contract": fns, "by_backend": by,
		"function_seconds_total": round(secs), "slowest_obligation_secs": round(maxs), "paths": paths,
		"solver_queries": statQueries + statFeas, "solver_seconds": round(float64(statSolverNs) / 1e9),
	}
	if tier == "thorough" {
		cov["pruning_decisions_confirmed"] = statConfirmed
		cov["pruning_decisions_unconfirmed"] = statUnconfirmed
		cov["replay_driver_ran"] = driverRan
		cov["replay_driver_output"] = clip(driverOut, 600)
	}
	nv := 0
	if bad {
		nv = 1
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": sortedKeys(assume), "wall_s": round(time.Since(t0).Seconds()), "violations": nv}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	writeJSON(filepath.Join(dir, id+".json"), ev)
	replay := filepath.Join(dir, id+".replay.json")
	if !bad {
		os.Remove(replay)
		fmt.Printf("%s: %d obligations discharged in %d functions (%d paths), %.1f s\n", id, disch, len(reps), paths, time.Since(t0).Seconds())
		return 0
	}
	writeJSON(replay, v)
	if v.Error != "" {
		fmt.Println("error:", clip(v.Error, 2000))
	}
	for _, r := range v.Failed {
		fmt.Println(clip(summary(r), 4000))
	}
	if v.Concrete != "" {
		fmt.Println("failing input:", v.Concrete)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, replay)
	}
	return 1
}

func round(f float64) float64 { return float64(int(f*1000+0.5)) / 1000 }

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func dedup(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return sortedKeys(m)
}

// verifyProperty verifies the roots of a property and the helpers they use. A helper that does not meet
// its contract (or is gone) is inlined into its callers instead, which are then verified again.
func (e *Engine) verifyProperty(id string) ([]*FnReport, map[string]bool) {
	var roots []string
	for k, c := range e.contracts {
		if hasProp(c, id) && !c.Trusted {
			roots = append(roots, k)
		}
	}
	sort.Strings(roots)
	elsewhere := map[string]bool{}
	done := map[string]*FnReport{}
	for round := 0; round < 6; round++ {
		work := []string{}
		for _, k := range roots {
			if done[k] == nil {
				work = append(work, k)
			}
		}
		for len(work) > 0 {
			var next []string
			seen := map[string]bool{}
			for _, r := range e.verifyMany(work) {
				done[r.Key] = r
				for _, u := range r.Used {
					c := e.contracts[u]
					if c == nil || c.Trusted || seen[u] || done[u] != nil {
						continue
					}
					if len(c.Props) > 0 && !hasProp(c, id) && !contains(c.Also, id) {
						elsewhere[u] = true
						continue
					}
					if !hasProp(c, id) {
						seen[u] = true
						next = append(next, u)
					}
				}
			}
			sort.Strings(next)
			work = next
		}
		// helpers that failed
		again := false
		for k, r := range done {
			c := e.contracts[k]
			if r.ok() || !c.Helper && !contains(c.Also, id) || hasProp(c, id) || e.broken[k] {
				continue
			}
			debugf("helper %s does not meet its contract: inlined", k)
			e.broken[k] = true
			again = true
			delete(done, k)
			for k2, r2 := range done {
				for _, u := range r2.Used {
					if u == k {
						delete(done, k2)
					}
				}
			}
		}
		if !again {
			break
		}
	}
	var out []*FnReport
	for _, k := range sortedKeys(done) {
		// helpers still count when something uses them
		out = append(out, done[k])
	}
	return out, elsewhere
}

// ---- known findings ----

type findings []struct{ fn, obl, text string }

func knownFindings(id string) findings {
	f, err := os.Open(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out findings
	re := regexp.MustCompile(`^known: property=(\S+) function=(\S+) obligation="([^"]*)" (.*)$`)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil && m[1] == id {
			out = append(out, struct{ fn, obl, text string }{m[2], m[3], m[4]})
		}
	}
	return out
}

func (f findings) match(fn, obl string) string {
	for _, k := range f {
		if k.fn == fn && strings.Contains(obl, k.obl) {
			return k.text
		}
	}
	return ""
}

// ---- replay ----

var hexRe = regexp.MustCompile(`#x([0-9a-f]+)`)

// hints collects the numbers of the counterexamples.
func hints(reps []*FnReport) string {
	m := map[string]bool{}
	for _, r := range reps {
		for _, o := range r.Failed {
			for _, g := range hexRe.FindAllStringSubmatch(o.Model, 200) {
				if u, err := strconv.ParseUint(g[1], 16, 64); err == nil {
					m[strconv.FormatUint(u, 10)] = true
				}
			}
		}
	}
	ks := sortedKeys(m)
	if len(ks) > 400 {
		ks = ks[:400]
	}
	return strings.Join(ks, ",")
}

func runDriver(scratch, id, pkg, hint string, seed int, tier string) (cmdline, out, fail string) {
	env, err := loadEnv(scratch)
	if err != nil {
		return "", err.Error(), ""
	}
	dir := filepath.Join(repoDir, pkg)
	rep := map[string]string{}
	old, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, f := range old {
		rep[f] = ""
	}
	name := strings.ReplaceAll(pkg, "/", "_")
	if pkg == "." {
		name = "root"
	}
	srcs, _ := filepath.Glob(filepath.Join(verifDir, "replay", name, "*.go"))
	for _, s := range srcs {
		b := strings.TrimSuffix(filepath.Base(s), ".go")
		rep[filepath.Join(dir, "zz_verif_"+b+"_test.go")] = s
	}
	common, _ := filepath.Glob(filepath.Join(verifDir, "replay", "common", "*.go"))
	for _, s := range common {
		rep[filepath.Join(repoDir, "zzverif", filepath.Base(s))] = s
	}
	ov := filepath.Join(scratch, "overlay.json")
	writeJSON(ov, map[string]any{"Replace": rep})
	cmdline, out, fail = driverRun(env, scratch, id, pkg, name, ov, hint, seed, tier, false)
	if fail == "" && pkg == "netx/pool/fifoch" {
		c, o, f := driverRun(env, scratch, id, pkg, name, ov, hint, seed, tier, true)
		if f != "" {
			return c, o, f
		}
	}
	return
}

func driverRun(env []string, scratch, id, pkg, name, ov, hint string, seed int, tier string, race bool) (cmdline, out, fail string) {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	args := []string{"test", "-overlay", ov, "-run", "^Test" + id + "$", "-count=1", "-vet=off", "-timeout", "240s", "./" + pkg}
	if race {
		args = append([]string{"test", "-race"}, args[1:]...)
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repoDir
	cmd.Env = append(env, "VERIF_HINTS="+hint, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier)
	b, err := cmd.CombinedOutput()
	out = string(b)
	cmdline = fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_HINTS=%s go test with the overlay of /verif/replay/%s, -run ^Test%s$ ./%s (govc replay %s does this)", repoDir, seed, hint, name, id, pkg, id)
	if err == nil {
		return cmdline, out, ""
	}
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "FAILING-INPUT: "); i >= 0 {
			return cmdline, out, clip(l[i+len("FAILING-INPUT: "):], 1500)
		}
	}
	if race {
		return cmdline, out, dataRace(out)
	}
	return cmdline, out, crash(out)
}

// dataRace: the race detector saw the repository's code access memory without synchronisation.
func dataRace(out string) string {
	i := strings.Index(out, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	var at []string
	ls := strings.Split(out[i:], "\n")
	for i, l := range ls {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Goroutine ") {
			break
		}
		// the innermost frame of each access
		if strings.Contains(l, " at 0x") && strings.Contains(l, " by ") && i+2 < len(ls) {
			if f := strings.TrimSpace(ls[i+2]); strings.HasPrefix(f, repoDir+"/") && !strings.Contains(f, "zz") {
				at = append(at, f)
			}
		}
	}
	if len(at) < 2 {
		return ""
	}
	return clip("a pool used and closed by several goroutines: data race between "+strings.Join(at, " and "), 1500)
}

// crash: the run of the driver ended in an error that cannot be recovered, raised by the repository's code.
func crash(out string) string {
	ls := strings.Split(out, "\n")
	for i, l := range ls {
		if !strings.HasPrefix(l, "fatal error: sync: ") && !strings.HasPrefix(l, "fatal error: concurrent map") && !strings.HasPrefix(l, "fatal error: stack overflow") &&
			(!strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "panic: test timed out")) {
			continue
		}
		for _, f := range ls[i+1:] {
			if f = strings.TrimSpace(f); !strings.HasPrefix(f, repoDir+"/") {
				continue
			}
			if strings.Contains(f, "zz") {
				return ""
			}
			return clip(fmt.Sprintf("the driver's run ends in %q at %s", l, f), 1500)
		}
	}
	return ""
}

// replayProperty runs only the replay drivers of a property.
func replayProperty(scratch, id string) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for _, pkg := range drivers[id] {
		_, out, fail := runDriver(scratch, id, pkg, os.Getenv("VERIF_HINTS"), seed, os.Getenv("VERIF_TIER"))
		fmt.Print(out)
		if fail != "" {
			fmt.Println("failing input:", fail)
			return 1
		}
	}
	return 0
}

func contains(l []string, s string) bool {
	for _, a := range l {
		if a == s {
			return true
		}
	}
	return false
}
