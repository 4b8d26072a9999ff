package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

var patterns = []string{"./internal/...", "./types/...", "./ginkgo/...", "./reporters/...", "."}

func verifDir() string {
	if v := os.Getenv("GOVER_VERIF"); v != "" {
		return v
	}
	return "/verif"
}

func cmdFns(args []string) int {
	w, err := LoadWorld("/repo", patterns, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var ks []string
	for k := range w.funcs {
		if len(args) == 0 || strings.Contains(k, args[0]) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k, w.funcs[k].Signature)
	}
	if len(args) > 1 {
		for _, k := range ks {
			w.funcs[k].WriteTo(os.Stdout)
		}
	}
	return 0
}

type failure struct {
	id, text string
}

func specFiles(prop string) ([]string, error) {
	dir := filepath.Join(verifDir(), "contracts")
	var out []string
	seen := map[string]bool{}
	var add func(f string) error
	add = func(f string) error {
		if seen[f] {
			return nil
		}
		seen[f] = true
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "include ") {
				if err := add(filepath.Join(dir, strings.TrimSpace(l[8:])+".spec")); err != nil {
					return err
				}
			}
		}
		out = append(out, f)
		return nil
	}
	if err := add(filepath.Join(dir, "common.spec")); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(dir, prop+".spec")); err != nil {
		return nil, err
	}
	return out, nil
}

// clientOverlay: proof clients (Go functions in /verif/contracts/clients that call the real code and are verified against contracts)
func clientOverlay(files []string, repo string) map[string][]byte {
	ov := map[string][]byte{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "client ") {
				continue
			}
			src, err := os.ReadFile(filepath.Join(verifDir(), "contracts", "clients", strings.TrimSpace(l[7:])))
			if err != nil {
				continue
			}
			first := firstLines(string(src), 1)
			ov[filepath.Join(repo, strings.TrimSpace(strings.TrimPrefix(first, "//overlay: ")))] = src
		}
	}
	return ov
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	only := fs.String("only", "", "verify only this contract")
	dump := fs.String("dump", "", "write failed queries to this directory")
	upd := fs.Bool("update-hints", false, "rewrite contracts/hints")
	nohints := fs.Bool("no-hints", false, "ignore hints")
	noreplay := fs.Bool("no-replay", false, "do not run the replay harness")
	dc := fs.Bool("debugcand", false, "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	debugCand = *dc
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	files, err := specFiles(*prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w, err := LoadWorld(*repo, patterns, clientOverlay(files, *repo))
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load", *repo, ":", err)
		return 2
	}
	S, err := LoadSpecs(w, files)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	d := &Driver{w: w, S: S, dump: *dump, prop: *prop, hints: map[string][]string{}}
	hf := filepath.Join(verifDir(), "contracts", "hints", *prop+".json")
	if b, err := os.ReadFile(hf); err == nil && !*nohints {
		json.Unmarshal(b, &d.hints)
	}
	var fails []failure
	lemmas := d.proveLemmas()
	nObl, nDis := 0, 0
	byBackend := map[string]int{}
	for _, l := range lemmas {
		if l.Err != "" {
			fails = append(fails, failure{"lemma " + l.L.Name, l.Err})
			nObl++
			continue
		}
		for i, v := range l.V {
			nObl++
			if v.Status == "unsat" {
				nDis++
				byBackend[v.Solver]++
			} else {
				fails = append(fails, failure{l.Q[i].Label, v.Status + " " + v.Detail + " " + v.File})
			}
		}
	}
	primary := filepath.Join(verifDir(), "contracts", *prop+".spec")
	var queue []*Contract
	queued := map[string]bool{}
	for _, c := range S.order {
		if (c.File == primary || S.roots[c.Key]) && !c.Trusted && !c.Helper && (*only == "" || strings.Contains(c.Key, *only)) {
			queue = append(queue, c)
			queued[c.Key] = true
		}
	}
	byKey := map[string]*Contract{}
	for _, c := range S.order {
		byKey[c.Key] = c
	}
	var results []*FnResult
	newHints := map[string][]string{}
	trusted := map[string]bool{}
	var under []string
	var inlined = map[string]bool{}
	for i := 0; i < len(queue); i++ {
		c := queue[i]
		fn := d.target(c)
		if fn == nil {
			if c.Helper || S.roots[c.Key] {
				// a local helper that is gone has no contract left to meet; its former callers answer for themselves
				continue
			}
			nObl++
			fails = append(fails, failure{c.Key, "the function under contract does not exist any more"})
			continue
		}
		tt := time.Now()
		var r *FnResult
		if len(fn.Params) != len(c.Params) && len(c.Params) > 0 {
			r = &FnResult{Contract: c, Fn: fn, Unsupported: fmt.Sprintf("the contract names %d parameters, the function has %d", len(c.Params), len(fn.Params))}
		} else {
			r = d.verify(c, fn, true)
			if (r.Unsupported != "" || len(r.failed()) > 0) && len(d.hints[c.Key]) > 0 && !*nohints {
				r = d.verify(c, fn, false)
			}
		}
		r.Secs = time.Since(tt).Seconds()
		results = append(results, r)
		newHints[c.Key] = r.DeadCands
		under = append(under, c.Key)
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Inlined {
			inlined[t] = true
		}
		bad := r.failed()
		if r.Unsupported != "" {
			nObl++
			fails = append(fails, failure{c.Key, "outside the verifier's reach: " + r.Unsupported})
		}
		if r.Vacuous != "" {
			nObl++
			fails = append(fails, failure{c.Key + " vacuity", r.Vacuous})
		}
		for _, o := range r.Obls {
			nObl++
			if o.V.Status == "unsat" {
				nDis++
				byBackend[o.V.Solver]++
			}
		}
		for _, o := range bad {
			pos := o.O.Pos
			fails = append(fails, failure{c.Key + " " + o.O.Kind + " " + o.O.Label, fmt.Sprintf("obligation [%s] %q of %s at %s is not discharged (%s: %s) %s", o.O.Kind, o.O.Label, c.Key, pos, o.V.Status, o.V.Detail, o.V.File)})
		}
		st := "ok"
		if r.Unsupported != "" {
			st = "UNSUPPORTED " + r.Unsupported
		} else if len(bad) > 0 {
			st = fmt.Sprintf("FAILED %d", len(bad))
		}
		if r.Vacuous != "" {
			st += " VACUOUS " + r.Vacuous
		}
		fmt.Printf("%-60s %4d obligations, %d rounds, %d loops, %d invariants, %.1fs  %s\n", c.Key, len(r.Obls), r.Rounds, r.Loops, r.Invariants, r.Secs, st)
		for _, k := range r.Used {
			cc := byKey[k]
			if cc == nil {
				continue
			}
			if cc.Trusted {
				if cc.Kind != "send" && cc.Kind != "recv" {
					trusted["assumed contract: "+cc.Key] = true
				}
				continue
			}
			if other := propFile(cc.File); other != "" && cc.File != primary {
				trusted["contract of "+cc.Key+", which check "+other+" discharges"] = true
				continue
			}
			if !queued[k] && *only == "" {
				queued[k] = true
				queue = append(queue, cc)
			}
		}
	}
	for _, l := range S.lemmas {
		if l.Axiom {
			trusted["axiom "+l.Name] = true
		}
	}
	if nObl == 0 {
		fails = append(fails, failure{"vacuity", "no obligation was generated"})
	}
	if *upd {
		os.MkdirAll(filepath.Dir(hf), 0755)
		for k := range newHints {
			if len(newHints[k]) == 0 {
				delete(newHints, k)
			}
		}
		b, _ := json.MarshalIndent(newHints, "", " ")
		os.WriteFile(hf, append(b, '\n'), 0644)
	}
	for _, f := range fails {
		fmt.Println("  FAIL", f.id, "--", f.text)
	}
	// bounded harness on the real code: always when declared as a stand-in, otherwise to look for a failing input
	hs := loadHarness(*prop)
	var hr *HarnessResult
	if hs != nil && !*noreplay && (len(fails) > 0 || hs.standIn || tier == "thorough") {
		hr = hs.run(*repo, seed, tier)
		fmt.Printf("bounded harness: %s (%.1fs) %s\n", hr.Status, hr.Secs, hr.Summary)
		for _, k := range hr.Known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
		}
	}
	violated := len(fails) > 0 || hr != nil && hr.Status == "fail"
	ev := map[string]interface{}{}
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis,
		"checker_cmd":              "/verif/tools/check.sh " + *prop + " (gover: SSA of /repo's current tree -> SMT-LIB; z3 4.8.12, z3 5.3.2, cvc5 1.1.2)",
		"trusted_base":             append([]string{"gover (the verification-condition generator in /verif/gover) and golang.org/x/tools/go/ssa", "the SMT solvers z3 and cvc5"}, sortedKeys(trusted)...),
		"functions_under_contract": under,
		"inlined_functions":        sortedKeys(inlined),
		"discharged_by":            byBackend,
		"solver_queries":           Pool.nq,
		"solver_seconds":           float64(Pool.total) / 1e9,
		"lemmas":                   len(lemmas),
	}
	var per []map[string]interface{}
	for _, r := range results {
		kinds := map[string]int{}
		for _, o := range r.Obls {
			kinds[o.O.Kind]++
		}
		per = append(per, map[string]interface{}{"function": r.Contract.Key, "obligations": len(r.Obls), "by_kind": kinds, "loops": r.Loops, "invariants": r.Invariants, "seconds": r.Secs})
	}
	cov["per_function"] = per
	if hs != nil && hr != nil {
		cov["bounded_stand_in"] = map[string]interface{}{"label": "bounded, not counted as proved", "what": hs.desc, "status": hr.Status, "cases": hr.Cases, "seconds": hr.Secs}
	}
	asm := []string{"partial correctness: termination is not proved", "machine integers are treated as mathematical integers (no overflow)", "the memory model is sequentially consistent; goroutines are accounted for through locks and havoc as described in DESIGN.md"}
	ev["property"], ev["tier"], ev["seed"], ev["level"] = *prop, tier, seed, ""
	lv, note := levelOf(*prop)
	ev["level"] = lv
	if note != "" {
		cov["explanation"] = note
	}
	ev["coverage"], ev["assumptions"] = cov, asm
	ev["wall_s"] = time.Since(t0).Seconds()
	nv := 0
	if violated {
		nv = 1
	}
	ev["violations"] = nv
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if *only == "" {
		os.WriteFile(filepath.Join(verifDir(), "evidence", *prop+".json"), append(b, '\n'), 0644)
	}
	fmt.Printf("%s: %d/%d obligations discharged, %d functions under contract, %d solver queries, %.1fs solver time, %.1fs wall\n", *prop, nDis, nObl, len(under), Pool.nq, float64(Pool.total)/1e9, time.Since(t0).Seconds())
	if !violated {
		return 0
	}
	rp := filepath.Join(verifDir(), "evidence", "replay-"+*prop+".txt")
	var rb strings.Builder
	fmt.Fprintf(&rb, "property %s\n\n", *prop)
	for _, f := range fails {
		fmt.Fprintf(&rb, "failed obligation: %s\n  %s\n", f.id, f.text)
	}
	suffix := " no-failing-input-found"
	if hr != nil && hr.Status == "fail" {
		suffix = ""
		fmt.Fprintf(&rb, "\nfailing input found on the real code by the bounded harness (%s):\n%s\n\nreplay: VERIF_SEED=%d %s\n", hs.desc, hr.Detail, seed, hr.Cmd)
		fmt.Println(firstLines(hr.Detail, 30))
	} else if hr != nil {
		fmt.Fprintf(&rb, "\nno failing input was found by the bounded harness (%s: %s)\n%s\n", hs.desc, hr.Status, hr.Detail)
	}
	os.WriteFile(rp, []byte(rb.String()), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, rp, suffix)
	return 1
}

// ---------- bounded harness (runs the real code through an overlay)
type Harness struct {
	files   map[string]string // repo path -> file
	pkgs    []string
	flags   []string
	standIn bool
	desc    string
	prop    string
	timeout int
}
type HarnessResult struct {
	Status, Summary, Detail, Cmd string
	Cases                        int
	Secs                         float64
	Known                        []string
}

// loadHarness reads /verif/replay/<prop>/*.go; their headers say where they go.
//
//	//overlay: internal/zz_verif_c05_test.go
//	//bounded: text   (declares a bounded stand-in: always run)
//	//about: text
//	//flags: -race
func loadHarness(prop string) *Harness {
	fs, _ := filepath.Glob(filepath.Join(verifDir(), "replay", prop, "*.go"))
	if len(fs) == 0 {
		return nil
	}
	h := &Harness{files: map[string]string{}, prop: prop, timeout: 240}
	pk := map[string]bool{}
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			switch {
			case strings.HasPrefix(l, "//overlay: "):
				t := strings.TrimSpace(l[11:])
				h.files[t] = f
				pk["./"+filepath.Dir(t)] = true
			case strings.HasPrefix(l, "//with: "):
				t := strings.Split(strings.TrimSpace(l[8:]), "=")
				h.files[t[0]] = filepath.Join(verifDir(), "replay", t[1])
			case strings.HasPrefix(l, "//bounded: "):
				h.standIn = true
				h.desc = strings.TrimSpace(l[11:])
			case strings.HasPrefix(l, "//about: "):
				h.desc = strings.TrimSpace(l[9:])
			case strings.HasPrefix(l, "//flags: "):
				h.flags = append(h.flags, strings.Fields(l[9:])...)
			}
		}
	}
	for p := range pk {
		h.pkgs = append(h.pkgs, p)
	}
	sort.Strings(h.pkgs)
	return h
}

var casesRe = regexp.MustCompile(`(?m)VERIF-CASES (\d+)`)
var knownRe = regexp.MustCompile(`(?m)VERIF-KNOWN (.*)$`)

func (h *Harness) run(repo string, seed int, tier string) *HarnessResult {
	t0 := time.Now()
	tmp, _ := os.MkdirTemp("", "gover-replay")
	defer os.RemoveAll(tmp)
	ov := map[string]map[string]string{"Replace": {}}
	for k, f := range h.files {
		ov["Replace"][filepath.Join(repo, k)] = f
	}
	b, _ := json.Marshal(ov)
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, b, 0644)
	out := filepath.Join(tmp, "failure.txt")
	args := []string{"test", "-overlay", of, "-count=1", "-vet=off", "-v", "-run", "^TestVerif", "-timeout", fmt.Sprintf("%ds", h.timeout)}
	args = append(args, h.flags...)
	args = append(args, h.pkgs...)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(h.timeout+200)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/opt/veriftools/go1.24.13/bin/go", args...)
	cmd.Dir = repo
	cmd.Env = append(goEnv(), "VERIF_FAILURE="+out, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "VERIF_TMP="+tmp)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	r := &HarnessResult{Secs: time.Since(t0).Seconds(), Cmd: "/verif/tools/replay.sh " + h.prop}
	s := buf.String()
	for _, m := range casesRe.FindAllStringSubmatch(s, -1) {
		n, _ := strconv.Atoi(m[1])
		r.Cases += n
	}
	for _, m := range knownRe.FindAllStringSubmatch(s, -1) {
		r.Known = append(r.Known, m[1])
	}
	r.Summary = fmt.Sprintf("%d cases", r.Cases)
	if err == nil {
		r.Status = "pass"
		if r.Cases == 0 {
			r.Status = "empty"
		}
		return r
	}
	if strings.Contains(s, "[build failed]") || strings.Contains(s, "[setup failed]") || strings.Contains(s, "no required module") {
		r.Status = "unavailable (the harness does not build against this tree)"
		r.Detail = firstLines(s, 20)
		return r
	}
	r.Status = "fail"
	if fb, e := os.ReadFile(out); e == nil {
		r.Detail = string(fb)
	} else {
		lines := strings.Split(s, "\n")
		if len(lines) > 60 {
			lines = append(lines[:40], lines[len(lines)-20:]...)
		}
		r.Detail = strings.Join(lines, "\n")
	}
	return r
}

func cmdReplay(args []string) int {
	h := loadHarness(args[0])
	if h == nil {
		fmt.Println("no harness")
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	r := h.run("/repo", seed, os.Getenv("VERIF_TIER"))
	fmt.Println(r.Status, r.Summary, fmt.Sprintf("%.1fs", r.Secs))
	fmt.Println(r.Detail)
	if r.Status == "fail" {
		return 1
	}
	return 0
}

// propFile: the property whose own contract file this is.
func propFile(f string) string {
	b := strings.TrimSuffix(filepath.Base(f), ".spec")
	if len(b) == 3 && b[0] == 'C' && b[1] >= '0' && b[1] <= '9' {
		return b
	}
	return ""
}

// levelOf is the verification level MANIFEST.json states for the property.
func levelOf(prop string) (level, note string) {
	var n struct {
		Level     map[string]string
		LevelNote map[string]string `json:"level_note"`
	}
	if b, err := os.ReadFile(filepath.Join(verifDir(), "tools", "notes.json")); err == nil {
		json.Unmarshal(b, &n)
	}
	if l := n.Level[prop]; l != "" {
		return l, n.LevelNote[prop]
	}
	return "proof", n.LevelNote[prop]
}
