package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The check of one property: prove every obligation of its contracts on the current source, run
// the same contracts on concrete inputs against the real code, and give the verdict.

type oblRec struct {
	Contract string `json:"contract"`
	Name     string `json:"name"`
	Kind     string `json:"kind"`
	Pos      string `json:"pos,omitempty"`
	OK       bool   `json:"ok"`
	How      string `json:"how,omitempty"`
	Ms       int64  `json:"ms"`
	detail   string
}

type harnessFailure struct {
	Contract string   `json:"contract"`
	Ensures  string   `json:"ensures"`
	Seed     int64    `json:"seed"`
	Args     []string `json:"args"`
	Detail   string   `json:"detail"`
}

type harnessReport struct {
	Ran      map[string]int    `json:"ran"`     // executions with the precondition met
	Skipped  map[string]int    `json:"skipped"` // inputs outside the precondition
	Distinct int               `json:"distinct"`
	Failures []harnessFailure  `json:"failures"`
	Samples  []string          `json:"samples"`
	Notes    map[string]string `json:"notes"`
}

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func runCheck(repo, verif, prop, tier string, noproof bool) int {
	start := time.Now()
	seed, _ := strconv.ParseInt(getenv("VERIF_SEED", "1"), 10, 64)
	outDir := filepath.Join(verif, "out")
	os.MkdirAll(filepath.Join(outDir, "replay"), 0o755)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	evPath := filepath.Join(verif, "evidence", prop+".json")
	os.Remove(evPath)
	obBudget, total, hSec := 75*time.Second, 560*time.Second, 15
	if tier == "thorough" {
		obBudget, total, hSec = 150*time.Second, 600*time.Second, 120
	}
	p, err := load(repo, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Println("the source cannot be loaded:", err)
		fmt.Println("nothing can be decided about a tree that does not build")
		return 0
	}
	pr := newProver()
	defer pr.close()
	pr.native = true
	var recs []oblRec
	var bounded, undecided []string
	used, assumed := map[string]bool{}, map[string]bool{}
	about := map[string]bool{}
	proved := map[string]bool{}
	inline := 0
	for _, d := range p.dropped {
		name := strings.SplitN(d, ":", 2)[0]
		if strings.HasPrefix(name, prop+"_") {
			undecided = append(undecided, "dropped: "+d)
		}
	}
	deadline := start.Add(total)
	contracts := 0
	var kept func(bool) []keptRec
	if !noproof {
		kept = startKept(repo, verif, total)
	}
	for _, c := range p.listContracts() {
		if !c.of(prop) {
			continue
		}
		if c.bound {
			bounded = append(bounded, c.fn.Name())
			continue
		}
		contracts++
		if noproof {
			undecided = append(undecided, c.fn.Name()+": the verifier gave no answer")
			continue
		}
		x := newExec(p, pr)
		okAll := true
		for _, in := range p.instances(c) {
			x.deadline = deadline
			r := x.runContract(c, in)
			for _, a := range c.about {
				about[a] = true
			}
			if r.Unsupp != "" {
				undecided = append(undecided, fmt.Sprintf("%s[%s]: outside the verifier's reach: %s", r.Contract, r.Instance, strings.SplitN(r.Unsupp, "\n", 2)[0]))
				okAll = false
				continue
			}
			var rs []oblRec
			for _, o := range r.Obls {
				b := obBudget
				if left := time.Until(deadline); left < b {
					b = left
				}
				if b <= 0 {
					undecided = append(undecided, o.fn+": "+o.name+": time")
					okAll = false
					continue
				}
				x.discharge(o, b)
				if w := openCall(o.goal); !o.ok && w != "" {
					undecided = append(undecided, o.fn+": "+o.name+": "+w+" called through an interface")
					okAll = false
					continue
				}
				rs = append(rs, oblRec{Contract: o.fn, Name: o.name, Kind: o.kind, Pos: o.pos, OK: o.ok, How: o.how, Ms: o.ms, detail: o.detail})
				if !o.ok {
					okAll = false
				}
			}
			if prop == "C05" {
				for _, f := range r.Frame {
					rs = append(rs, oblRec{Contract: r.Contract, Name: "frame: " + f, Kind: "frame", OK: false})
					okAll = false
				}
			}
			recs = append(recs, rs...)
		}
		inline += x.provedInline
		for f := range x.used {
			used[f] = true
		}
		for a := range x.assumed {
			assumed[a] = true
		}
		if okAll {
			proved[c.fn.Name()] = true
		}
	}
	if (prop == "C05" || prop == "C24") && !noproof {
		rs, und, fs := p.sweep(pr, prop, deadline, obBudget, assumed)
		recs = append(recs, rs...)
		undecided = append(undecided, und...)
		for f := range fs {
			used[f] = true
		}
	}
	if file := lemmaFiles[prop]; file != "" && !noproof {
		rs, und := leanLemmas(filepath.Join(verif, "lemmas", file))
		recs = append(recs, rs...)
		undecided = append(undecided, und...)
	}
	proofDone := time.Now()
	hr, herr := runHarness(p, repo, verif, prop, seed, hSec, "")
	if herr != nil {
		fmt.Println("harness:", herr)
	}
	if kept != nil {
		need := map[string]bool{}
		for a := range assumed {
			if n, ok := strings.CutPrefix(a, "type invariant of "); ok {
				need[n] = true
			}
		}
		rs := kept(len(need) > 0)
		if rs == nil && len(need) > 0 {
			undecided = append(undecided, "preservation of the type invariants: no answer")
		}
		for _, r := range rs {
			if !need[r.Type] {
				continue
			}
			if r.Undecided != "" {
				undecided = append(undecided, r.Undecided)
				continue
			}
			recs = append(recs, r.Rec)
			for _, a := range r.Assumed {
				assumed[a] = true
			}
		}
	}
	var failed []oblRec
	ok := 0
	byHow := map[string]int{}
	for _, r := range recs {
		if r.OK {
			ok++
			byHow[r.How]++
		} else {
			failed = append(failed, r)
		}
	}
	known := loadKnown(verif, prop)
	rc := 0
	violations := 0
	report := func(path string, suffix string) {
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
		violations++
		rc = 1
	}
	if hr != nil {
		seen := map[string]bool{}
		for i, f := range hr.Failures {
			key := f.Contract + "/" + f.Ensures
			if seen[key] {
				continue
			}
			seen[key] = true
			if k := known[key]; k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
				continue
			}
			path := filepath.Join(outDir, "replay", fmt.Sprintf("%s-%s-%d.txt", prop, tier, i))
			var b bytes.Buffer
			fmt.Fprintf(&b, "property %s broken: contract %s, postcondition %q\n", prop, f.Contract, f.Ensures)
			fmt.Fprintf(&b, "failing input (seed %d):\n", f.Seed)
			for _, a := range f.Args {
				fmt.Fprintln(&b, "  ", a)
			}
			fmt.Fprintln(&b, f.Detail)
			for _, r := range failed {
				if strings.HasPrefix(r.Contract, f.Contract) {
					fmt.Fprintf(&b, "failed obligation: %s: %s (%s)\n%s\n", r.Contract, r.Name, r.Pos, r.detail)
				}
			}
			fmt.Fprintf(&b, "replay: bash %s/check.sh %s replay %s %d\n", verif, prop, f.Contract, f.Seed)
			os.WriteFile(path, b.Bytes(), 0o644)
			fmt.Printf("contract %s: postcondition %q fails on the real code; input:\n", f.Contract, f.Ensures)
			for _, a := range f.Args {
				fmt.Println("  ", cut(a, 300))
			}
			report(path, "")
		}
	}
	if violations == 0 && len(failed) > 0 {
		path := filepath.Join(outDir, "replay", fmt.Sprintf("%s-%s-obligations.txt", prop, tier))
		var b bytes.Buffer
		fresh := 0
		for _, r := range failed {
			if k := known[r.Contract+"/"+r.Name]; k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
				continue
			}
			fresh++
			fmt.Printf("FAILED obligation %s: %s (%s)\n", r.Contract, r.Name, r.Pos)
			fmt.Fprintf(&b, "failed obligation: %s: %s (%s)\nno failing input found by the replay harness; what the verifier could not show:\n%s\n\n", r.Contract, r.Name, r.Pos, r.detail)
		}
		if fresh > 0 {
			os.WriteFile(path, b.Bytes(), 0o644)
			report(path, " no-failing-input-found")
		}
	}
	for _, u := range undecided {
		fmt.Println("not decided by proof on this tree (bounded check only):", cut(u, 300))
	}
	cov := map[string]any{
		"obligations": len(recs), "discharged": ok,
		"checker_cmd":                        fmt.Sprintf("bash /verif/check.sh %s %s", prop, tier),
		"contracts":                          contracts,
		"contracts_fully_proved":             len(proved),
		"functions_under_contract":           keys(about),
		"functions_executed_symbolically":    keys(used),
		"obligations_by_back_end":            byHow,
		"loop_obligations_proved_in_passing": inline,
		"solver_queries":                     pr.queries,
		"solver_time_s":                      pr.solverTime.Seconds(),
		"proof_wall_s":                       proofDone.Sub(start).Seconds(),
		"undecided_by_proof":                 undecided,
		"bounded_only_contracts":             bounded,
		"trusted_base": []string{
			"gover (own verification condition generator, rewriter and prover in /verif/gover)",
			"z3, cvc5 (back ends for the arithmetic and boolean core)",
			"go/parser and go/types of the Go toolchain",
			"axioms about the standard library listed under assumptions",
		},
	}
	if hr != nil {
		n, sk := 0, 0
		for _, v := range hr.Ran {
			n += v
		}
		for _, v := range hr.Skipped {
			sk += v
		}
		cov["replay_evaluations"] = n
		cov["replay_skipped_by_precondition"] = sk
		cov["replay_per_contract"] = hr.Ran
		cov["samples"] = hr.Samples
		cov["evaluations"] = n
		cov["distinct_nontrivial"] = hr.Distinct
		cov["rule"] = "bounded cross-check, not counted as proof: the contracts are executed on the real code with generated inputs (nested conditions to depth 3, lists to length 4); non-trivial = precondition met, distinct = printed inputs differ"
		if len(hr.Notes) > 0 {
			cov["replay_notes"] = hr.Notes
		}
	}
	if herr != nil {
		cov["replay_error"] = herr.Error()
	}
	var slow int64
	for _, r := range recs {
		slow = max(slow, r.Ms)
	}
	cov["slowest_obligation_ms"] = slow
	var as []string
	for a := range assumed {
		as = append(as, a)
	}
	sort.Strings(as)
	as = append(as, standingAssumptions...)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as,
		"wall_s": time.Since(start).Seconds(), "violations": violations}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(evPath, js, 0o644)
	if cov["evaluations"] == nil {
		cov["evaluations"] = 0
	}
	fmt.Printf("%s %s: %d contracts, %d of %d obligations discharged, %d undecided, %d replay runs, %.1fs\n", prop, tier, contracts, ok, len(recs), len(undecided), cov["evaluations"], time.Since(start).Seconds())
	return rc
}

// lemmaFiles are the lemmas about spec functions a property rests on.
var lemmaFiles = map[string]string{"C03": "Meaning.lean", "C04": "Grouping.lean"}

// leanLemmas has the Lean kernel check the lemmas the verifier uses about the spec functions.
func leanLemmas(file string) ([]oblRec, []string) {
	start := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	src, err := os.ReadFile(file)
	if err != nil || bytes.Contains(src, []byte("sorry")) {
		return nil, []string{"lemmas of " + filepath.Base(file) + ": no proof file"}
	}
	out, err := exec.CommandContext(ctx, "lean", file).CombinedOutput()
	if err != nil || bytes.Contains(out, []byte("sorry")) {
		return nil, []string{"lemmas of " + filepath.Base(file) + ": lean: " + cut(string(out), 200)}
	}
	var rs []oblRec
	for _, l := range strings.Split(string(src), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "theorem" {
			rs = append(rs, oblRec{Contract: "lemma", Name: f[1], Kind: "lemma", OK: true, How: "lean"})
		}
	}
	if len(rs) > 0 {
		rs[0].Ms = time.Since(start).Milliseconds()
	}
	return rs, nil
}

var standingAssumptions = []string{
	"machine integers are treated as mathematical integers (lengths and counters of this package stay far below overflow)",
	"values of interface type passed in are non-nil and their methods are deterministic, total and free of side effects (conditions, value providers)",
	"conversions (driver.Valuer) succeed",
	"names and literal texts given by the user contain no '$' and no '?'",
	"memory is not changed by other goroutines during a call",
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// loadKnown reads the known findings of a property: lines "<property> <contract/postcondition> | what fails".
func loadKnown(verif, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" ")
		if k, w, ok := strings.Cut(l, " | "); ok {
			m[strings.TrimSpace(k)] = strings.TrimSpace(w)
		}
	}
	return m
}

// --- the harness ------------------------------------------------------------------------------

func runHarness(p *Program, repo, verif, prop string, seed int64, seconds int, replay string) (*harnessReport, error) {
	dir, err := os.MkdirTemp("", "verif-query-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	for _, n := range p.srcFiles {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			return nil, err
		}
	}
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module github.com/amarin/query\n\ngo 1.21\n"), 0o644)
	hs, _ := filepath.Glob(filepath.Join(verif, "harness", "*.go"))
	write := func(skipUser bool) error {
		for _, h := range hs {
			to := filepath.Join(dir, "zz_h_"+strings.TrimSuffix(filepath.Base(h), ".go")+"_test.go")
			if skipUser && strings.HasPrefix(filepath.Base(h), "user") {
				os.Remove(to)
				continue
			}
			b, err := os.ReadFile(h)
			if err != nil {
				return err
			}
			os.WriteFile(to, b, 0o644)
		}
		for f := range p.contracts {
			name := p.fset.Position(f.Pos()).Filename
			b, err := p.pruned(f, name)
			if err != nil {
				return err
			}
			os.WriteFile(filepath.Join(dir, "zz_c_"+strings.TrimSuffix(filepath.Base(name), ".go")+"_test.go"), b, 0o644)
		}
		return os.WriteFile(filepath.Join(dir, "zz_registry_test.go"), []byte(p.registry()), 0o644)
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	bin := filepath.Join(dir, "h.test")
	var berr error
	for _, skip := range []bool{false, true} {
		if err := write(skip); err != nil {
			return nil, err
		}
		cmd := exec.Command("go", "test", "-vet=off", "-c", "-o", bin, ".")
		cmd.Dir = dir
		cmd.Env = env
		out, err := cmd.CombinedOutput()
		if err == nil {
			berr = nil
			break
		}
		berr = fmt.Errorf("build: %v: %s", err, cut(string(out), 2000))
	}
	if berr != nil {
		return nil, berr
	}
	// several runs side by side, each with its own seeds
	n := runtime.NumCPU() - 2
	if n > 6 {
		n = 6
	}
	if n < 1 || replay != "" {
		n = 1
	}
	type one struct {
		r   *harnessReport
		err error
		rep string
	}
	ones := make([]one, n)
	var wg sync.WaitGroup
	for i := range ones {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := &ones[i]
			o.rep = filepath.Join(dir, fmt.Sprintf("report%d.json", i))
			cmd := exec.Command("timeout", "-k", "5", strconv.Itoa(seconds+120), bin, "-test.run", "^TestVerifHarness$", "-test.timeout", "0")
			cmd.Dir = dir
			cmd.Env = append(append([]string{}, env...), "GH_PROP="+prop, "GH_SEED="+strconv.FormatInt(seed+int64(i)*7919, 10), "GH_SECONDS="+strconv.Itoa(seconds), "GH_REPORT="+o.rep, "GH_REPLAY="+replay, "GOMEMLIMIT=2GiB", "GOMAXPROCS=2")
			out, err := cmd.CombinedOutput()
			if replay != "" {
				fmt.Print(string(out))
			}
			b, rerr := os.ReadFile(o.rep)
			if at, e := os.ReadFile(o.rep + ".at"); rerr != nil && e == nil && len(at) > 9+int(at[8]) && (bytes.Contains(out, []byte("fatal error: stack overflow")) || bytes.Contains(out, []byte("fatal error: concurrent map"))) {
				o.r = &harnessReport{Failures: []harnessFailure{{Contract: string(at[9 : 9+int(at[8])]), Ensures: "ends normally", Seed: int64(binary.LittleEndian.Uint64(at)), Detail: "the process ended: " + cut(string(out), 3000)}}}
				return
			}
			if rerr != nil {
				o.err = fmt.Errorf("no report: %v: %s", err, cut(string(out), 3000))
				return
			}
			var r harnessReport
			if o.err = json.Unmarshal(b, &r); o.err != nil {
				return
			}
			o.r = &r
			if err != nil {
				o.err = fmt.Errorf("ended early: %v: %s", err, cut(string(out), 3000))
			}
		}(i)
	}
	wg.Wait()
	var r *harnessReport
	err = nil
	inputs := map[uint64]bool{}
	for _, o := range ones {
		if o.err != nil && err == nil {
			err = o.err
		}
		if o.r == nil {
			continue
		}
		if r == nil {
			r = &harnessReport{Ran: map[string]int{}, Skipped: map[string]int{}, Notes: map[string]string{}}
		}
		for k, v := range o.r.Ran {
			r.Ran[k] += v
		}
		for k, v := range o.r.Skipped {
			r.Skipped[k] += v
		}
		for k, v := range o.r.Notes {
			r.Notes[k] = v
		}
		r.Failures = append(r.Failures, o.r.Failures...)
		if len(r.Samples) == 0 {
			r.Samples = o.r.Samples
		}
		if b, e := os.ReadFile(o.rep + ".inputs"); e == nil {
			for ; len(b) >= 8; b = b[8:] {
				inputs[binary.LittleEndian.Uint64(b)] = true
			}
		}
	}
	if r != nil {
		r.Distinct = len(inputs)
	}
	return r, err
}

// pruned is the text of a contract file without the declarations dropped from it.
func (p *Program) pruned(f *ast.File, name string) ([]byte, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	keep := make([]bool, len(b))
	off := func(pos token.Pos) int { return p.fset.Position(pos).Offset }
	full, _ := parseOnly(name, b)
	if full == nil {
		return b, nil
	}
	have := map[int]bool{}
	for _, d := range f.Decls {
		have[off(d.Pos())] = true
	}
	for i := range keep {
		keep[i] = true
	}
	usedPkgs := map[string]bool{}
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					usedPkgs[id.Name] = true
				}
			}
			return true
		})
	}
	for _, d := range full.f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			for _, s := range gd.Specs {
				is := s.(*ast.ImportSpec)
				path := strings.Trim(is.Path.Value, `"`)
				if !usedPkgs[filepath.Base(path)] {
					for i := full.off(is.Pos()); i < full.off(is.End()); i++ {
						keep[i] = false
					}
				}
			}
			continue
		}
		if !have[full.off(d.Pos())] {
			for i := full.off(d.Pos()); i < full.off(d.End()); i++ {
				keep[i] = false
			}
		}
	}
	// implications are lazy: ghImplies(a, b) runs as (!(a) || (b))
	ins := map[int]string{}
	ast.Inspect(full.f, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) != 2 {
			return true
		}
		if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "ghImplies" {
			return true
		}
		drop := func(from, to int, text string) {
			for i := from; i < to; i++ {
				keep[i] = false
			}
			ins[from] = ins[from] + text
		}
		drop(full.off(c.Pos()), full.off(c.Args[0].Pos()), "(!(")
		drop(full.off(c.Args[0].End()), full.off(c.Args[1].Pos()), ") || (")
		drop(full.off(c.Args[1].End()), full.off(c.End()), "))")
		return true
	})
	var o []byte
	for i, c := range b {
		o = append(o, ins[i]...)
		if keep[i] {
			o = append(o, c)
		}
	}
	return o, nil
}

// registry generates the list of contracts, types and literals of the current source.
func (p *Program) registry() string {
	var b strings.Builder
	b.WriteString("package query\n\nimport \"reflect\"\n\nvar _ = reflect.TypeOf\n\n")
	degraded := false
	for _, d := range p.dropped {
		if strings.HasPrefix(d, "inv_") {
			degraded = true
		}
	}
	fmt.Fprintf(&b, "const ghDegraded = %v\n\n", degraded)
	b.WriteString("var ghContracts = []ghContract{\n")
	for _, c := range p.listContracts() {
		var each []string
		for n := range c.each {
			each = append(each, strconv.Quote(n))
		}
		fmt.Fprintf(&b, "\t{%q, %q, %s},\n", c.fn.Name(), c.prop, c.fn.Name())
	}
	b.WriteString("}\n\nvar ghInvs = map[reflect.Type]reflect.Value{\n")
	sc := p.pkg.Scope()
	for _, n := range sc.Names() {
		if fn, ok := sc.Lookup(n).(*types.Func); ok && strings.HasPrefix(n, "inv_") && p.decls[fn] != nil {
			t := fn.Type().(*types.Signature).Params().At(0).Type()
			fmt.Fprintf(&b, "\treflect.TypeOf((*%s)(nil)).Elem(): reflect.ValueOf(%s),\n", shortType(t), n)
		}
	}
	b.WriteString("}\n\nvar ghTypes = []reflect.Type{\n")
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || p.isContractPos(tn.Pos()) {
			continue
		}
		if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
			continue
		}
		if it, ok := tn.Type().Underlying().(*types.Interface); ok && !it.IsMethodSet() {
			continue
		}
		fmt.Fprintf(&b, "\treflect.TypeOf((*%s)(nil)).Elem(),\n", n)
	}
	b.WriteString("}\n\nvar ghFuncs = map[string]any{\n")
	for _, n := range sc.Names() {
		fn, ok := sc.Lookup(n).(*types.Func)
		if !ok || !fn.Exported() || p.isContractPos(fn.Pos()) {
			continue
		}
		if fn.Type().(*types.Signature).TypeParams().Len() == 0 {
			fmt.Fprintf(&b, "\t%q: %s,\n", n, n)
		}
		for _, t := range typeSet(fn) {
			if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != p.pkg {
				continue
			}
			fmt.Fprintf(&b, "\t\"%s[%s]\": %s[%s],\n", n, shortType(t), n, shortType(t))
		}
	}
	b.WriteString("}\n\n")
	b.WriteString("// types with other fields than the contracts were written for\nvar ghForeign = map[string]bool{")
	for _, n := range p.foreign() {
		fmt.Fprintf(&b, "%q: true, ", n)
	}
	b.WriteString("}\n\n")
	imports := map[string]bool{}
	b.WriteString("// types of values which the source tells apart\nvar ghTold = []reflect.Type{\n")
	for _, n := range p.told(imports) {
		fmt.Fprintf(&b, "\treflect.TypeOf((*%s)(nil)).Elem(),\n", n)
	}
	b.WriteString("}\n\n")
	strs, ints := map[string]bool{}, map[int64]bool{}
	for _, f := range p.files {
		if p.contracts[f] {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				if tv, ok := p.info.Types[n]; ok && tv.Value != nil {
					switch tv.Value.Kind() {
					case constant.String:
						if s := constant.StringVal(tv.Value); len(s) < 40 {
							strs[s] = true
						}
					case constant.Int:
						if v, ok := constant.Int64Val(tv.Value); ok {
							ints[v] = true
							ints[v+1] = true
							ints[v-1] = true
						}
					}
				}
			}
			return true
		})
	}
	b.WriteString("var ghStrings = []string{\n")
	for _, s := range keys(strs) {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n\nvar ghInts = []int64{")
	var is []int64
	for v := range ints {
		is = append(is, v)
	}
	sort.Slice(is, func(i, j int) bool { return is[i] < is[j] })
	for _, v := range is {
		fmt.Fprintf(&b, "%d, ", v)
	}
	b.WriteString("}\n")
	res := b.String()
	for _, i := range keys(imports) {
		res = strings.Replace(res, "import \"reflect\"\n", "import \"reflect\"\nimport "+strconv.Quote(i)+"\n", 1)
	}
	return res
}

// shapes gives, for each structure of the package, the types of its fields.
func (p *Program) shapes() map[string]string {
	res := map[string]string{}
	sc := p.pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || p.isContractPos(tn.Pos()) {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var fs []string
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, strings.ReplaceAll(types.TypeString(st.Field(i).Type(), types.RelativeTo(p.pkg)), "interface{}", "any"))
		}
		sort.Strings(fs)
		res[n] = strings.Join(fs, "; ")
	}
	return res
}

// foreign lists the structures whose fields are not those the type invariants were written for
// (contracts/shapes.txt): which values of them occur is not known, so the harness makes them by calls of
// the exported API only.
func (p *Program) foreign() []string {
	b, err := os.ReadFile(filepath.Join(p.contractDir, "shapes.txt"))
	if err != nil {
		return nil
	}
	now := p.shapes()
	var res []string
	for _, l := range strings.Split(string(b), "\n") {
		n, fs, ok := strings.Cut(l, ": ")
		if cur, has := now[n]; ok && has && cur != fs {
			res = append(res, n)
		}
	}
	return res
}

// told lists the types, written as in Go, which appear in type switches and type assertions of the source.
func (p *Program) told(imports map[string]bool) []string {
	res := map[string]bool{}
	add := func(e ast.Expr) {
		tv, ok := p.info.Types[e]
		if !ok || !tv.IsType() || !tellable(tv.Type, p.pkg, 0) {
			return
		}
		var used []string
		s := types.TypeString(tv.Type, func(o *types.Package) string {
			if o == p.pkg {
				return ""
			}
			used = append(used, o.Path())
			return o.Name()
		})
		res[s] = true
		for _, u := range used {
			imports[u] = true
		}
	}
	for _, f := range p.files {
		if p.contracts[f] {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.TypeSwitchStmt:
				for _, c := range n.Body.List {
					for _, e := range c.(*ast.CaseClause).List {
						add(e)
					}
				}
			case *ast.TypeAssertExpr:
				if n.Type != nil {
					add(n.Type)
				}
			}
			return true
		})
	}
	return keys(res)
}

// tellable: values of the type can be made as parameters.
func tellable(t types.Type, own *types.Package, depth int) bool {
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if n.TypeArgs().Len() > 0 || o.Pkg() == nil || o.Parent() != o.Pkg().Scope() || o.Pkg() == own && o.IsAlias() {
			return false
		}
		if o.Pkg() != own && (!o.Exported() || strings.Contains(o.Pkg().Path(), "internal") || strings.Contains(o.Pkg().Path(), ".")) {
			return false
		}
		if _, is := n.Underlying().(*types.Struct); is && (o.Pkg() == own || o.Pkg().Path() != "database/sql" && o.Pkg().Path() != "time") {
			return false
		}
		return tellable(n.Underlying(), own, depth+1)
	}
	switch t := t.(type) {
	case *types.Basic:
		return t.Kind() != types.UnsafePointer && t.Info()&types.IsUntyped == 0
	case *types.Slice:
		return tellable(t.Elem(), own, depth+1)
	case *types.Array:
		return tellable(t.Elem(), own, depth+1)
	case *types.Pointer:
		return tellable(t.Elem(), own, depth+1)
	case *types.Map:
		return tellable(t.Key(), own, depth+1) && tellable(t.Elem(), own, depth+1)
	case *types.Struct:
		return depth == 1 // the library types allowed above
	}
	return false
}
