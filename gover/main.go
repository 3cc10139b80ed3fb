package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Contract struct {
	prop  string
	about []string
	fn    *types.Func
	decl  *ast.FuncDecl
	each  map[string]bool
	bound bool // executed by the bounded harness only
}

// of tells whether the contract belongs to a property; a contract may serve several.
func (c *Contract) of(prop string) bool {
	for _, p := range strings.Split(c.prop, ",") {
		if p == prop {
			return true
		}
	}
	return false
}

func (p *Program) listContracts() []*Contract {
	var r []*Contract
	for fn, d := range p.decls {
		if !p.isContractPos(d.Pos()) || d.Doc == nil {
			continue
		}
		c := &Contract{fn: fn, decl: d, each: map[string]bool{}}
		for _, l := range d.Doc.List {
			w := strings.Fields(strings.TrimPrefix(l.Text, "//"))
			if len(w) >= 2 && w[0] == "verif:contract" {
				c.prop = w[1]
				c.about = w[2:]
			}
			if len(w) >= 2 && w[0] == "verif:each" {
				for _, n := range w[1:] {
					c.each[n] = true
				}
			}
			if len(w) >= 1 && w[0] == "verif:bounded" {
				c.bound = true
			}
		}
		if c.prop != "" {
			r = append(r, c)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].decl.Pos() < r[j].decl.Pos() })
	return r
}

// implementers lists the types of the package implementing an interface.
func (p *Program) implementers(it *types.Interface) []types.Type {
	var r []types.Type
	sc := p.pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || p.isContractPos(tn.Pos()) {
			continue
		}
		t := tn.Type()
		if _, ok := t.Underlying().(*types.Interface); ok {
			continue
		}
		if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(t, it) {
			r = append(r, t)
		}
		if types.Implements(types.NewPointer(t), it) {
			r = append(r, types.NewPointer(t))
		}
	}
	return r
}

type instance struct {
	label string
	types map[string]types.Type
}

func (p *Program) instances(c *Contract) []instance {
	res := []instance{{types: map[string]types.Type{}}}
	sig := c.fn.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		pr := sig.Params().At(i)
		if !c.each[pr.Name()] {
			continue
		}
		it := pr.Type().Underlying().(*types.Interface)
		var next []instance
		for _, in := range res {
			for _, t := range p.implementers(it) {
				m := map[string]types.Type{}
				for k, v := range in.types {
					m[k] = v
				}
				m[pr.Name()] = t
				lab := in.label
				if lab != "" {
					lab += ","
				}
				next = append(next, instance{label: lab + pr.Name() + "=" + shortType(t), types: m})
			}
		}
		res = next
	}
	return res
}

func shortType(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		return "*" + shortType(pt.Elem())
	}
	return tname(t)
}

func newExec(p *Program, pr *Prover) *Exec {
	x := &Exec{p: p, pr: pr, used: map[string]bool{}, assumed: map[string]bool{}, recf: p.recursive(), recFn: p.recFns(), unsupp: map[string]bool{}, axiomSet: map[*Term]bool{}}
	x.panics = &[]*Panic{}
	groupT = p.groupType()
	hookCond = boxedCond
	hookMeth = x.meth
	pr.x = x
	return x
}

// invariant assumes the type invariant stated in the contracts for the type, if any.
func (x *Exec) invariant(st *State, t types.Type, v *Term) {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
		if v.op == OPtrTo {
			v = v.args[0]
		}
	}
	n, ok := t.(*types.Named)
	if !ok {
		return
	}
	if s, ok := n.Underlying().(*types.Struct); ok && v.sort.kind == KStruct {
		for i := 0; i < s.NumFields(); i++ {
			x.invariant(st, s.Field(i).Type(), mkSel(v, i))
		}
	}
	o, ok := x.p.pkg.Scope().Lookup("inv_" + n.Obj().Name()).(*types.Func)
	if !ok || x.p.decls[o] == nil {
		return
	}
	x.invDepth++
	defer func() { x.invDepth-- }()
	r := x.callFunc(st, o, nil, nil, []*Term{v}, o.Pos())
	st.assume(x.deref(st, r[0]))
	x.assumed["type invariant of "+n.Obj().Name()] = true
}

// unboxed assumes, where package code takes a concrete value out of an interface, the type
// invariant of the value under the condition ok. A value boxed in sight is not assumed anything:
// only what came in through an interface was made, and checked, elsewhere.
func (x *Exec) unboxed(st *State, pos token.Pos, ok *Term, t types.Type, val *Term) {
	if x.invDepth > 0 || ok == TFalse || x.p.isContractPos(pos) || val.op != OUnbox || val.args[0].op == OBox || val.args[0].op == OIte {
		return
	}
	n := t
	if pt, isp := t.(*types.Pointer); isp {
		n = pt.Elem()
	}
	nt, isn := n.(*types.Named)
	if !isn || nt.Obj().Name() != "Group" {
		return
	}
	o, isf := x.p.pkg.Scope().Lookup("inv_" + nt.Obj().Name()).(*types.Func)
	if !isf || x.p.decls[o] == nil {
		return
	}
	if n != t {
		if val.sort.kind != KPtr {
			return
		}
		val = x.loadNN(st, val)
	}
	x.invDepth++
	saved := x.panics
	x.panics = &[]*Panic{}
	defer func() { x.invDepth--; x.panics = saved }()
	r := x.callFunc(st, o, nil, nil, []*Term{val}, o.Pos())
	st.assume(mkOr(mkNot(ok), x.deref(st, r[0])))
	x.assumed["type invariant of "+nt.Obj().Name()] = true
}

type Result struct {
	Contract string
	Instance string
	Unsupp   string
	Obls     []*Obligation
	Frame    []string
}

func (x *Exec) runContract(c *Contract, in instance) (res *Result) {
	res = &Result{Contract: c.fn.Name(), Instance: in.label}
	x.cur = c.fn.Name()
	if in.label != "" {
		x.cur += "[" + in.label + "]"
	}
	x.obls, x.frame, x.closures, x.stack, x.fstack, x.tried = nil, nil, nil, nil, nil, nil
	x.quiet = 0
	x.ghostW = 0
	x.axioms, x.axiomSet = nil, map[*Term]bool{}
	var ps []*Panic
	x.panics = &ps
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GOVER_DEBUG") != "" {
					panic(r)
				}
				u = unsupported{fmt.Sprint("internal: ", r)}
			}
			res.Unsupp = u.msg
			res.Frame = x.frame
			res.Obls = nil
		}
	}()
	st := &State{cells: map[int]*Term{}, regs: map[int]Region{}, frozen: map[int]bool{}}
	sig := c.fn.Type().(*types.Signature)
	var args []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		pr := sig.Params().At(i)
		t := pr.Type()
		if it, ok := in.types[pr.Name()]; ok {
			v := x.symOf(pr.Name(), it)
			x.invariant(st, it, v)
			args = append(args, mkBox(it, v))
			continue
		}
		v := x.symOf(pr.Name(), t)
		x.invariant(st, t, v)
		args = append(args, v)
	}
	x.callFunc(st, c.fn, nil, nil, args, c.decl.Pos())
	for i, p := range ps {
		x.obls = append(x.obls, &Obligation{name: fmt.Sprintf("no panic %d (%s) in %s", i+1, p.what, strings.Join(p.stack, ">")), kind: "panic-freedom", pos: x.p.pos(p.pos), fn: x.cur, pc: p.st.pc, goal: TFalse})
	}
	{ // vacuity: the contract's precondition must not be contradictory
		if st.dead || x.pr.smt(x.pr.z3, false, st.pc, nil, 4*time.Second) == "unsat" {
			x.obls = append(x.obls, &Obligation{name: "contract is not vacuous", kind: "vacuity", fn: x.cur, goal: TFalse})
		} else { // nor may it contradict the axioms in use: a false postcondition must not be provable
			canary := &Obligation{name: "false", kind: "vacuity", fn: x.cur, pc: append([]*Term{}, st.pc...), goal: TFalse}
			x.discharge(canary, 2*time.Second)
			if canary.ok {
				x.obls = append(x.obls, &Obligation{name: "contract is not vacuous (axioms)", kind: "vacuity", fn: x.cur, goal: TFalse})
			}
		}
	}
	res.Obls = x.obls
	res.Frame = x.frame
	return res
}

func (x *Exec) discharge(o *Obligation, budget time.Duration) {
	p := x.pr
	t := time.Now()
	p.deadline = t.Add(budget)
	p.trace = nil
	p.used = ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("GOVER_DEBUG") != "" {
					panic(r)
				}
				p.trace = append(p.trace, fmt.Sprint("prover: ", r))
				o.ok = false
			}
		}()
		fs, g := p.recRewrite(p.relevantAx(o.pc, o.goal), o.goal)
		o.ok = p.prove(fs, g, 24)
	}()
	if !o.ok && os.Getenv("GOVER_PC") != "" {
		fmt.Println("ORIG goal", o.goal)
		for _, f := range o.pc {
			fmt.Println("   pc", f)
		}
	}
	o.ms = time.Since(t).Milliseconds()
	o.how = p.used
	if o.how == "" {
		o.how = "rewriting"
	}
	if !o.ok {
		o.detail = strings.Join(p.trace, "\n")
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "")
	only := flag.String("only", "", "")
	verbose := flag.Bool("v", false, "")
	check := flag.String("check", "", "check one property")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	replay := flag.String("replay", "", "contract:seed")
	sweepF := flag.String("sweep", "", "list the sweep results")
	budgetF := flag.Duration("budget", 60*time.Second, "time for one obligation")
	first := flag.Bool("first", false, "stop at the first failure")
	jsonF := flag.Bool("json", false, "")
	invF := flag.Bool("inv", false, "list what is not shown of the type invariants")
	shapesF := flag.Bool("shapes", false, "print the fields of each structure, as kept in contracts/shapes.txt")
	noproof := flag.Bool("noproof", false, "")
	flag.Parse()
	if *replay != "" {
		p, err := load(*repo, filepath.Join(*verif, "contracts"))
		if err != nil {
			fmt.Println(err)
			os.Exit(0)
		}
		_, err = runHarness(p, *repo, *verif, *check, 1, 60, *replay)
		fmt.Println(err)
		os.Exit(0)
	}
	if *check != "" {
		os.Exit(runCheck(*repo, *verif, *check, *tier, *noproof))
	}
	p, err := load(*repo, *cdir)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	for _, d := range p.dropped {
		fmt.Println("dropped:", d)
	}
	if *shapesF {
		sh := p.shapes()
		for _, n := range keys2(sh) {
			fmt.Printf("%s: %s\n", n, sh[n])
		}
		return
	}
	pr := newProver()
	defer pr.close()
	pr.native = true
	x := newExec(p, pr)
	nok, nbad, nun := 0, 0, 0
	if *invF {
		t := time.Now()
		rs := p.invariants(pr, t.Add(8*time.Minute), 40*time.Second, *only)
		if *jsonF {
			js, _ := json.Marshal(rs)
			fmt.Println(string(js))
			return
		}
		for _, r := range rs {
			if r.Undecided != "" {
				fmt.Println("undecided", r.Type, cut(r.Undecided, 200))
			} else if *verbose {
				fmt.Println("kept", r.Rec.Contract, r.Type)
			}
		}
		fmt.Println(len(rs), time.Since(t))
		return
	}
	if *sweepF != "" {
		for _, c := range p.sweepCases() {
			if *only != "" && !strings.Contains(c.label, *only) {
				continue
			}
			x := newExec(p, pr)
			x.deadline = time.Now().Add(60 * time.Second)
			t := time.Now()
			r := x.runSweep(c)
			fmt.Printf("%s: %d panics %d frame %d safe %s %v\n", c.label, len(r.panics), len(r.frame), r.safe, cut(r.unsupp, 150), time.Since(t).Round(time.Millisecond))
			for _, q := range r.panics {
				fmt.Println("   panic", q.explicit, q.what, strings.Join(q.stack, ">"))
			}
			for _, f := range r.frame {
				fmt.Println("   frame", f)
			}
		}
		return
	}
	for _, c := range p.listContracts() {
		if *prop != "" && !c.of(*prop) || *only != "" && !strings.Contains(c.fn.Name(), *only) {
			continue
		}
		for _, in := range p.instances(c) {
			t := time.Now()
			r := x.runContract(c, in)
			et := time.Since(t)
			if r.Unsupp != "" {
				nun++
				fmt.Printf("%s[%s]: unsupported: %s\n", r.Contract, r.Instance, r.Unsupp)
				continue
			}
			bad := 0
			for _, o := range r.Obls {
				x.discharge(o, *budgetF)
				if o.ok {
					nok++
				} else if w := openCall(o.goal); w != "" {
					nun++
					fmt.Printf("%s: unsupported: %s called through an interface\n", o.fn, w)
				} else {
					bad++
					nbad++
					fmt.Printf("FAILED %s: %s (%s)\n", o.fn, o.name, o.pos)
					fmt.Println(o.detail)
					if *first && !strings.Contains(c.fn.Name(), "of_list") {
						os.Exit(1)
					}
				}
				if *verbose {
					fmt.Printf("   %v %s %s %dms\n", o.ok, o.name, o.how, o.ms)
				}
			}
			fmt.Printf("%s[%s]: %d obligations, %d failed, exec %v, total %v\n", r.Contract, r.Instance, len(r.Obls), bad, et.Round(time.Millisecond), time.Since(t).Round(time.Millisecond))
			for _, f := range r.Frame {
				fmt.Println("   frame:", f)
			}
		}
	}
	fmt.Printf("ok %d, failed %d, unsupported %d; %d smt queries %v\n", nok, nbad, nun, pr.queries, pr.solverTime.Round(time.Millisecond))
	if lastSMTError != "" {
		fmt.Println("SMT ERROR", lastSMTError[:200])
	}
}

func keys2(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
