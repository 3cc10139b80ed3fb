package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Sorts and terms of the verification logic. All terms are hash-consed; smart
// constructors (mk*) keep them in a normal form, which is the rewriting back
// end of the prover.
// ---------------------------------------------------------------------------

type SortKind int

const (
	KInt SortKind = iota
	KBool
	KStr
	KTmpl
	KSeq
	KStruct
	KAny
	KPtr
	KFn
	KOpaque
)

type Sort struct {
	kind SortKind
	elem *Sort
	name string
	typ  types.Type // struct type (named when possible)
	st   *types.Struct
}

var sortTab = map[string]*Sort{}

func internSort(s Sort) *Sort {
	if p, ok := sortTab[s.name]; ok {
		return p
	}
	p := new(Sort)
	*p = s
	sortTab[s.name] = p
	return p
}

var (
	SInt  = internSort(Sort{kind: KInt, name: "Int"})
	SBool = internSort(Sort{kind: KBool, name: "Bool"})
	SStr  = internSort(Sort{kind: KStr, name: "Str"})
	STmpl = internSort(Sort{kind: KTmpl, name: "Tmpl"})
	SAny  = internSort(Sort{kind: KAny, name: "Any"})
	SFn   = internSort(Sort{kind: KFn, name: "Fn"})
)

func seqSort(e *Sort) *Sort {
	return internSort(Sort{kind: KSeq, elem: e, name: "Seq<" + e.name + ">"})
}

func tkey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var textStruct = types.NewStruct([]*types.Var{types.NewField(token.NoPos, nil, "text", types.Typ[types.String], false)}, nil)

func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p, k := n.Obj().Pkg().Path(), n.Obj().Name()
	return p == "strings" && k == "Builder" || p == "bytes" && k == "Buffer"
}

func sortOf(t types.Type) *Sort {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Tmpl" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "query" {
		return STmpl
	}
	if isBuilder(t) { // seen as the text written so far
		return internSort(Sort{kind: KStruct, name: "T<" + tkey(t) + ">", typ: t, st: textStruct})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return SAny
		}
		return internSort(Sort{kind: KOpaque, name: "O<" + u.Name() + ">", typ: t})
	case *types.Interface:
		return SAny
	case *types.Slice:
		return seqSort(sortOf(u.Elem()))
	case *types.Array:
		return seqSort(sortOf(u.Elem()))
	case *types.Struct:
		return internSort(Sort{kind: KStruct, name: "T<" + tkey(t) + ">", typ: t, st: u})
	case *types.Pointer:
		// avoid infinite recursion for recursive pointer types
		return internSort(Sort{kind: KPtr, name: "P<" + tkey(u.Elem()) + ">", typ: u.Elem()})
	case *types.Signature:
		return SFn
	}
	return internSort(Sort{kind: KOpaque, name: "O<" + tkey(t) + ">", typ: t})
}

type Op int

const (
	OSym  Op = iota
	OBV      // bound variable: ival = de Bruijn depth, name "d" or "x"
	OLin     // linear integer: ival + sum coefs[i]*args[i]
	OBool    // constant, ival 0/1
	OStr     // constant
	ONot
	OAnd
	OOr
	OEq  // equality of two terms of same sort (not Bool, not Int)
	OIff // Bool equality
	OEqZ // args[0] (Lin) == 0
	OLe  // args[0] (Lin) <= 0
	OIte
	OCat
	OItoa
	OStrLen
	OSCat // sequence concatenation; zero args: empty
	OUnit
	OSLen
	OSAt
	OSDrop
	OSTake
	OSUpd
	OZeros // n copies of the zero value args[1]
	OBig   // args: body(closed), seq ; name = kind ; binder
	OFirst // args: pred body (closed), seq: first element satisfying
	OBefore
	OTLit
	OTHole
	OTCat
	OMk
	OSel // ival = field index
	OBox // typ, args[0]
	OUnbox
	OIs
	ONil   // nil interface / nil pointer / nil func
	OPtr   // pointer to cell ival
	OPtrTo // immutable pointer value with content args[0]
	ORef   // slice region ival
	OFnv   // function value ival
	OUF
)

type Term struct {
	op    Op
	sort  *Sort
	name  string
	ival  int64
	coefs []int64
	args  []*Term
	typ   types.Type
	id    int
	nn    bool // non-negative integer atom
	fv    bool // has loose bound variables
	ref   bool // contains heap references (ORef/OPtr)
	size  int
}

var termTab = map[string]*Term{}
var termCount int

func raw(t Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(t.sort.name)
	b.WriteByte('|')
	b.WriteString(strconv.Quote(t.name))
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.ival, 10))
	for _, c := range t.coefs {
		b.WriteByte(',')
		b.WriteString(strconv.FormatInt(c, 10))
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.typ != nil {
		b.WriteByte('#')
		b.WriteString(tkey(t.typ))
	}
	k := b.String()
	if p, ok := termTab[k]; ok {
		return p
	}
	p := new(Term)
	*p = t
	termCount++
	p.id = termCount
	p.size = 1
	for _, a := range t.args {
		p.size += a.size
		if a.ref {
			p.ref = true
		}
	}
	if p.size > 1<<28 {
		p.size = 1 << 28
	}
	if t.op == ORef || t.op == OPtr {
		p.ref = true
	}
	p.fv = computeFV(p)
	termTab[k] = p
	return p
}

func isBinder(op Op) bool { return op == OBig || op == OFirst || op == OBefore }

func computeFV(t *Term) bool {
	if t.op == OBV {
		return true
	}
	if isBinder(t.op) {
		return t.args[1].fv || maxLoose(t.args[0], 1) > 0
	}
	for _, a := range t.args {
		if a.fv {
			return true
		}
	}
	return false
}

var looseMemo = map[[2]int]int{}

// maxLoose returns 1 if t has a bound variable with depth >= d.
func maxLoose(t *Term, d int64) int {
	if t.op == OBV {
		if t.ival >= d {
			return 1
		}
		return 0
	}
	if !t.fv && !isBinder(t.op) {
		return 0
	}
	key := [2]int{t.id, int(d)}
	if v, ok := looseMemo[key]; ok {
		return v
	}
	r := 0
	if isBinder(t.op) {
		if maxLoose(t.args[0], d+1) > 0 || maxLoose(t.args[1], d) > 0 {
			r = 1
		}
	} else {
		for _, a := range t.args {
			if maxLoose(a, d) > 0 {
				r = 1
				break
			}
		}
	}
	looseMemo[key] = r
	return r
}

var symCount = map[string]int{}

func mkSym(name string, s *Sort) *Term { return raw(Term{op: OSym, sort: s, name: name}) }

func freshSym(prefix string, s *Sort) *Term {
	symCount[prefix]++
	return mkSym(fmt.Sprintf("%s!%d", prefix, symCount[prefix]), s)
}

// nonneg returns an atom marked as non-negative.
func nonneg(t *Term) *Term {
	t.nn = true
	return t
}

// --- booleans ---------------------------------------------------------------

var (
	TTrue  = raw(Term{op: OBool, sort: SBool, ival: 1})
	TFalse = raw(Term{op: OBool, sort: SBool, ival: 0})
)

func mkBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func mkNot(a *Term) *Term {
	switch a.op {
	case OBool:
		return mkBool(a.ival == 0)
	case ONot:
		return a.args[0]
	case OAnd:
		r := make([]*Term, len(a.args))
		for i, x := range a.args {
			r[i] = mkNot(x)
		}
		return mkOr(r...)
	case OOr:
		r := make([]*Term, len(a.args))
		for i, x := range a.args {
			r[i] = mkNot(x)
		}
		return mkAnd(r...)
	case OLe: // not(l<=0) = 1-l <= 0
		return mkLe0(linAdd(mkInt(1), a.args[0], -1))
	case OIff:
		return mkIff(a.args[0], mkNot(a.args[1]))
	}
	return raw(Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }

func mkAC(op Op, unit, zero *Term, in []*Term) *Term {
	var flat []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		seen[t] = true
		flat = append(flat, t)
		return true
	}
	for _, t := range in {
		if !add(t) {
			return zero
		}
	}
	for _, t := range flat {
		if seen[mkNotAtom(t)] {
			return zero
		}
	}
	// absorption and unit resolution against literals: a op (..a..) ; a op (..not a..)
	dual := OAnd
	if op == OAnd {
		dual = OOr
	}
	changed := false
	var out []*Term
	for _, t := range flat {
		if t.op == dual {
			var keep []*Term
			absorbed := false
			for _, a := range t.args {
				if seen[a] {
					absorbed = true
					break
				}
				if seen[mkNotAtom(a)] {
					changed = true
					continue
				}
				keep = append(keep, a)
			}
			if absorbed {
				changed = true
				continue
			}
			if len(keep) != len(t.args) {
				if dual == OOr {
					t = mkOr(keep...)
				} else {
					t = mkAnd(keep...)
				}
			}
		}
		out = append(out, t)
	}
	if changed {
		return mkAC(op, unit, zero, out)
	}
	if op == OOr && len(out) > 1 && len(out) < 8 {
		if r := pullConjunct(out); r != nil {
			return r
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sortTerms(out)
	return raw(Term{op: op, sort: SBool, args: out})
}

// pullConjunct rewrites D or (C and R) to C and (D or R) when D, a conjunction, implies C, a
// disjunction, because one part of D is an alternative of C.
func pullConjunct(ts []*Term) *Term {
	for i, d := range ts {
		if d.op != OAnd {
			continue
		}
		for j, e := range ts {
			if i == j || e.op != OAnd {
				continue
			}
			for k, c := range e.args {
				if c.op != OOr {
					continue
				}
				for _, alt := range c.args {
					for _, a := range d.args {
						if a != alt {
							continue
						}
						rest := append(append([]*Term{}, e.args[:k]...), e.args[k+1:]...)
						others := []*Term{c}
						for n, t := range ts {
							if n != i && n != j && t != alt {
								others = append(others, t)
							}
						}
						if len(others) > 1 {
							continue
						}
						return mkAnd(c, mkOr(d, mkAnd(rest...)))
					}
				}
			}
		}
	}
	return nil
}

// mkNotAtom negates without rebuilding compound terms (used for lookup only).
func mkNotAtom(t *Term) *Term {
	switch t.op {
	case OAnd, OOr:
		return raw(Term{op: ONot, sort: SBool, args: []*Term{t}})
	}
	return mkNot(t)
}

func mkAnd(ts ...*Term) *Term { return mkAC(OAnd, TTrue, TFalse, ts) }
func mkOr(ts ...*Term) *Term  { return mkAC(OOr, TFalse, TTrue, ts) }
func mkImp(a, b *Term) *Term  { return mkOr(mkNot(a), b) }

func mkIff(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.op == OBool {
		if a.ival == 1 {
			return b
		}
		return mkNot(b)
	}
	if b.op == OBool {
		return mkIff(b, a)
	}
	if mkNotAtom(a) == b || mkNotAtom(b) == a {
		return TFalse
	}
	if a.op == ONot && b.op == ONot {
		return mkIff(a.args[0], b.args[0])
	}
	if b.id < a.id {
		a, b = b, a
	}
	return raw(Term{op: OIff, sort: SBool, args: []*Term{a, b}})
}

func mkIte(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if c.op == OBool {
		if c.ival == 1 {
			return a
		}
		return b
	}
	if c.op == ONot {
		return mkIte(c.args[0], b, a)
	}
	if a.sort == SBool {
		return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b))
	}
	// of a condition and its opposite, one is the normal form
	switch c.op {
	case OAnd:
		if n := mkNot(c); n.op == OOr {
			return mkIte(n, b, a)
		}
	case OLe:
		if n := mkNot(c); n.op == OLe && leConst(n) > leConst(c) {
			return mkIte(n, b, a)
		}
	}
	if a.op == OUnit && b.op == OUnit {
		return mkUnit(mkIte(c, a.args[0], b.args[0]))
	}
	if a.op == OIte && a.args[0] == c {
		return mkIte(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return mkIte(c, a, b.args[2])
	}
	if a.sort.kind == KStruct && a.op == OMk && b.op == OMk {
		fs := make([]*Term, len(a.args))
		for i := range fs {
			fs[i] = mkIte(c, a.args[i], b.args[i])
		}
		return mkMk(a.sort, fs...)
	}
	return raw(Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

func leConst(t *Term) int64 {
	if t.args[0].op == OLin {
		return t.args[0].ival
	}
	return 0
}

// --- integers ----------------------------------------------------------------

func mkInt(v int64) *Term { return raw(Term{op: OLin, sort: SInt, ival: v}) }

func isIntC(t *Term) (int64, bool) {
	if t.op == OLin && len(t.args) == 0 {
		return t.ival, true
	}
	return 0, false
}

type lin struct {
	c  int64
	as []*Term
	cs map[*Term]int64
}

func toLin(t *Term) (c int64, m map[*Term]int64) {
	m = map[*Term]int64{}
	if t.op == OLin {
		for i, a := range t.args {
			m[a] = t.coefs[i]
		}
		return t.ival, m
	}
	m[t] = 1
	return 0, m
}

func fromLin(c int64, m map[*Term]int64) *Term {
	var as []*Term
	for a, k := range m {
		if k != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 1 && m[as[0]] == 1 && c == 0 {
		return as[0]
	}
	sortTerms(as)
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return raw(Term{op: OLin, sort: SInt, ival: c, args: as, coefs: cs})
}

// linAdd returns a + k*b.
func linAdd(a, b *Term, k int64) *Term {
	c, m := toLin(a)
	c2, m2 := toLin(b)
	for x, v := range m2 {
		m[x] += k * v
	}
	return fromLin(c+k*c2, m)
}

func mkAdd(a, b *Term) *Term          { return linAdd(a, b, 1) }
func mkSub(a, b *Term) *Term          { return linAdd(a, b, -1) }
func linScale(a *Term, k int64) *Term { return linAdd(mkInt(0), a, k) }

func atomOf(t *Term) (a *Term, coef, c int64, ok bool) {
	cc, m := toLin(t)
	if len(m) != 1 {
		return nil, 0, 0, false
	}
	for x, k := range m {
		return x, k, cc, true
	}
	return
}

func mkLe0(l *Term) *Term {
	if v, ok := isIntC(l); ok {
		return mkBool(v <= 0)
	}
	if all, long, p, ok := countAll(l); ok {
		if p > 0 {
			return long
		}
		return mkOr(mkNot(long), all)
	}
	if l.op == OIte && l.args[1].op == OLin && len(l.args[1].args) == 0 && l.args[2].op == OLin && len(l.args[2].args) == 0 {
		return mkIte(l.args[0], mkLe0(l.args[1]), mkLe0(l.args[2]))
	}
	if a, k, c, ok := atomOf(l); ok {
		if a.op == OIte {
			f := func(b *Term) *Term { return mkLe0(linAdd(mkInt(c), b, k)) }
			if isConstIte(a) || isConst(a.args[1]) || isConst(a.args[2]) {
				return mkIte(a.args[0], f(a.args[1]), f(a.args[2]))
			}
		}
		if b := a.args; a.op == OStrLen && b[0].op == OBig && b[0].name == "str" && k*k == 1 {
			// a text of parts of at least m bytes is as long if there is a part
			some := mkNot(mkEqZ(mkSLen(b[0].args[1])))
			if m := minBytes(b[0].args[0]); k < 0 && c > 0 && c <= m {
				return some
			} else if k > 0 && c <= 0 && -c < m {
				return mkNot(some)
			}
		}
		if isNN(a) {
			if k > 0 && c >= 0 { // k*a + c <= 0
				if c > 0 {
					return TFalse
				}
				return mkEqZ(a)
			}
			if k < 0 && c <= 0 {
				return TTrue
			}
			if k == -1 && c == 1 { // a >= 1
				return mkNot(mkEqZ(a))
			}
		}
	}
	return raw(Term{op: OLe, sort: SBool, args: []*Term{l}})
}

func isConst(t *Term) bool {
	_, ok := isIntC(t)
	return ok
}

func isConstIte(t *Term) bool {
	if t.op == OIte {
		return isConstIte(t.args[1]) && isConstIte(t.args[2])
	}
	_, ok := isIntC(t)
	return ok
}

func isNN(a *Term) bool {
	if a.nn || a.op == OSLen || a.op == OStrLen {
		return true
	}
	if a.op == OUF && a.name == "holes" {
		return true
	}
	if a.op == OBig && a.name == "int" {
		return bigNN(a)
	}
	if a.op == OLin {
		if a.ival < 0 {
			return false
		}
		for i, x := range a.args {
			if a.coefs[i] < 0 || !isNN(x) {
				return false
			}
		}
		return true
	}
	if a.op == OIte {
		return isNN(a.args[1]) && isNN(a.args[2])
	}
	return false
}

// minBytes is a number of bytes which the text has at least.
func minBytes(t *Term) int64 {
	switch t.op {
	case OStr:
		return int64(len(t.name))
	case OItoa:
		return 1
	case OCat:
		n := int64(0)
		for _, a := range t.args {
			n += minBytes(a)
		}
		return n
	case OIte:
		return min(minBytes(t.args[1]), minBytes(t.args[2]))
	}
	return 0
}

func bigNN(a *Term) bool { return isNN(a.args[0]) }

// countAll reads l as p*(n - len(S) + k) where n counts elements of S, none of them among the first k.
func countAll(l *Term) (all, long *Term, p int64, ok bool) {
	if l.op != OLin || len(l.args) != 2 {
		return
	}
	n, s := l.args[0], l.args[1]
	p, q := l.coefs[0], l.coefs[1]
	if n.op == OSLen {
		n, s, p, q = s, n, q, p
	}
	k := l.ival * p
	if n.op != OBig || n.name != "int" || s.op != OSLen || n.args[1] != s.args[0] || p*p != 1 || q != -p || k < 0 || k > 2 || !isConstIte(n.args[0]) || maxConst(n.args[0]) > 1 || !isNN(n.args[0]) {
		return
	}
	long = mkLeq(mkInt(k), s)
	ok = true
	misses := mapBig(n, "or", SBool, func(d, x, b *Term) *Term {
		for i := int64(0); i < k; i++ {
			if at, isC := isIntC(subst(b, map[*Term]*Term{mkSLen(d): mkInt(i), mkEqZ(mkSLen(d)): mkBool(i == 0)})); !isC || at != 0 {
				ok = false
			}
		}
		return mkAnd(mkLeq(mkInt(k), mkSLen(d)), mkEqZ(b))
	})
	return mkAnd(long, mkNot(misses)), long, p, ok
}

func mkEqZ(l *Term) *Term {
	if v, ok := isIntC(l); ok {
		return mkBool(v == 0)
	}
	if all, _, _, ok := countAll(l); ok {
		return all
	}
	if a, k, c, ok := atomOf(l); ok {
		if c%k != 0 {
			return TFalse
		}
		if isNN(a) && -c/k < 0 {
			return TFalse
		}
		if a.op == OStrLen && c == 0 {
			return mkEq(a.args[0], mkStr(""))
		}
		if a.op == OIte && (isConstIte(a) || isConst(a.args[1]) || isConst(a.args[2])) {
			return mkIte(a.args[0], mkEqZ(linAdd(mkInt(c), a.args[1], k)), mkEqZ(linAdd(mkInt(c), a.args[2], k)))
		}
		if a.op == OBig && a.name == "int" && c == 0 && bigNN(a) {
			// a sum of non-negative numbers is zero iff every number is
			return mkNot(mapBig(a, "or", SBool, func(d, x, b *Term) *Term { return mkNot(mkEqZ(b)) }))
		}
		l = linAdd(mkInt(c/k), a, 1)
	} else if c, m := toLin(l); c >= 0 {
		all := true
		for x, k := range m {
			if k < 0 || !isNN(x) {
				all = false
			}
		}
		if all {
			if c > 0 {
				return TFalse
			}
			var parts []*Term
			for x := range m {
				parts = append(parts, mkEqZ(x))
			}
			return mkAnd(parts...)
		}
	}
	if l.op == OLin && len(l.args) > 0 && l.coefs[0] < 0 {
		l = linScale(l, -1)
	}
	return raw(Term{op: OEqZ, sort: SBool, args: []*Term{l}})
}

func mkIntEq(a, b *Term) *Term {
	if b.op == OUF && b.name == "byteat" {
		a, b = b, a
	}
	if v, ok := isIntC(b); ok && a.op == OUF && a.name == "byteat" && v >= 0 && v < 128 { // the first or last byte of a text
		s, i := a.args[0], a.args[1]
		c := mkStr(string(rune(v)))
		if i == mkInt(0) {
			return mkUF("strings.HasPrefix", SBool, s, c)
		}
		if i == mkSub(mkStrLen(s), mkInt(1)) {
			return mkUF("strings.HasSuffix", SBool, s, c)
		}
	}
	return mkEqZ(mkSub(a, b))
}
func mkLt(a, b *Term) *Term  { return mkLe0(linAdd(mkSub(a, b), mkInt(1), 1)) }
func mkLeq(a, b *Term) *Term { return mkLe0(mkSub(a, b)) }

func mkMul(a, b *Term) *Term {
	if v, ok := isIntC(a); ok {
		return linScale(b, v)
	}
	if v, ok := isIntC(b); ok {
		return linScale(a, v)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mkUF("mul", SInt, a, b)
}

// --- strings -----------------------------------------------------------------

func mkStr(s string) *Term { return raw(Term{op: OStr, sort: SStr, name: s}) }

func mkCat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OCat {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == OStr {
			if t.name == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == OStr {
				out[n-1] = mkStr(out[n-1].name + t.name)
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return raw(Term{op: OCat, sort: SStr, args: out})
}

func mkItoa(n *Term) *Term {
	if v, ok := isIntC(n); ok {
		return mkStr(strconv.FormatInt(v, 10))
	}
	if n.op == OIte {
		return mkIte(n.args[0], mkItoa(n.args[1]), mkItoa(n.args[2]))
	}
	return raw(Term{op: OItoa, sort: SStr, args: []*Term{n}})
}

func mkStrLen(s *Term) *Term {
	switch s.op {
	case OStr:
		return mkInt(int64(len(s.name)))
	case OCat:
		r := mkInt(0)
		for _, a := range s.args {
			r = mkAdd(r, mkStrLen(a))
		}
		return r
	case OIte:
		return mkIte(s.args[0], mkStrLen(s.args[1]), mkStrLen(s.args[2]))
	}
	return raw(Term{op: OStrLen, sort: SInt, args: []*Term{s}})
}

func catArgs(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	if t.op == OStr && t.name == "" {
		return nil
	}
	return []*Term{t}
}

// nonEmptyStr reports strings that are certainly not empty.
func nonEmptyStr(t *Term) bool {
	switch t.op {
	case OStr:
		return t.name != ""
	case OItoa:
		return true
	case OCat:
		for _, a := range t.args {
			if nonEmptyStr(a) {
				return true
			}
		}
	case OIte:
		return nonEmptyStr(t.args[1]) && nonEmptyStr(t.args[2])
	case OUF:
		if t.name == "numbered" || t.name == "plain" {
			return false
		}
	}
	return false
}

// --- equality ----------------------------------------------------------------

func mkEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	switch a.sort.kind {
	case KBool:
		return mkIff(a, b)
	case KInt:
		return mkIntEq(a, b)
	case KStr:
		return mkStrEq(a, b)
	case KSeq:
		if a.op == OSCat && len(a.args) == 0 {
			a, b = b, a
		}
		if b.op == OSCat && len(b.args) == 0 {
			return mkIntEq(mkSLen(a), mkInt(0))
		}
		a, b = stripSeq(a, b)
		if a == b {
			return TTrue
		}
		if isEmptySeq(b) || isEmptySeq(a) {
			return mkEq(a, b)
		}
		if a.op == OUnit && b.op == OUnit {
			return mkEq(a.args[0], b.args[0])
		}
	case KTmpl:
		if a.op == OTLit && b.op == OTLit {
			return mkEq(a.args[0], b.args[0])
		}
	case KStruct:
		if a.op == OMk || b.op == OMk {
			var parts []*Term
			n := a.sort.st.NumFields()
			for i := 0; i < n; i++ {
				parts = append(parts, mkEq(mkSel(a, i), mkSel(b, i)))
			}
			return mkAnd(parts...)
		}
	case KAny:
		if a.op == ONil && b.op == OBox || a.op == OBox && b.op == ONil {
			return TFalse
		}
		if a.op == OBox && b.op == OBox {
			if !types.Identical(a.typ, b.typ) {
				return TFalse
			}
			return mkEq(a.args[0], b.args[0])
		}
		if a.op == OBox && b.op != OIte {
			a, b = b, a
		}
		if b.op == OBox && a.op != OIte {
			return mkAnd(mkIs(b.typ, a), mkEq(mkUnbox(b.typ, a), b.args[0]))
		}
		if ne(a, b) || ne(b, a) {
			return TFalse
		}
	case KPtr:
		if a.op == ONil && (b.op == OPtr || b.op == OPtrTo) || b.op == ONil && (a.op == OPtr || a.op == OPtrTo) {
			return TFalse
		}
	}
	if a.op == OIte || b.op == OIte {
		if r := eqIte(a, b); r != nil {
			return r
		}
	}
	if b.id < a.id {
		a, b = b, a
	}
	return raw(Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

// ne: terms known to be different from the nil interface
func ne(a, b *Term) bool {
	if a.op != ONil {
		return false
	}
	return b.op == OUF && (b.name == "errorf" || b.name == "errjoin" || b.name == "errnew" || b.name == "withJoin" || b.name == "withNeg") ||
		b.op == OSym && strings.HasPrefix(b.name, "glob.") && b.sort == SAny
}

// eqIte pushes equality into a conditional when a branch gets decided.
func eqIte(a, b *Term) *Term {
	if a.op != OIte {
		a, b = b, a
	}
	x, y := mkEq(a.args[1], b), mkEq(a.args[2], b)
	if x.op == OBool || y.op == OBool {
		return mkIte(a.args[0], x, y)
	}
	return nil
}

func mkStrEq(a, b *Term) *Term {
	if b.op == OUF && caseMaps[b.name] != nil {
		a, b = b, a
	}
	if a.op == OUF && b.op == OStr && caseMaps[a.name] != nil {
		if r := foldEq(a.args[0], b.name, caseMaps[a.name]); r != nil {
			return r
		}
	}
	as, bs := append([]*Term{}, catArgs(a)...), append([]*Term{}, catArgs(b)...)
	// strip common prefix
	for len(as) > 0 && len(bs) > 0 {
		x, y := as[0], bs[0]
		if x == y {
			as, bs = as[1:], bs[1:]
			continue
		}
		if x.op == OStr && y.op == OStr {
			n := 0
			for n < len(x.name) && n < len(y.name) && x.name[n] == y.name[n] {
				n++
			}
			if n < len(x.name) && n < len(y.name) {
				return TFalse
			}
			if n == 0 {
				break
			}
			as[0], bs[0] = mkStr(x.name[n:]), mkStr(y.name[n:])
			if as[0].name == "" {
				as = as[1:]
			}
			if bs[0].name == "" {
				bs = bs[1:]
			}
			continue
		}
		break
	}
	for len(as) > 0 && len(bs) > 0 {
		x, y := as[len(as)-1], bs[len(bs)-1]
		if x == y {
			as, bs = as[:len(as)-1], bs[:len(bs)-1]
			continue
		}
		if x.op == OStr && y.op == OStr {
			n := 0
			for n < len(x.name) && n < len(y.name) && x.name[len(x.name)-1-n] == y.name[len(y.name)-1-n] {
				n++
			}
			if n < len(x.name) && n < len(y.name) {
				return TFalse
			}
			if n == 0 {
				break
			}
			as[len(as)-1], bs[len(bs)-1] = mkStr(x.name[:len(x.name)-n]), mkStr(y.name[:len(y.name)-n])
			if as[len(as)-1].name == "" {
				as = as[:len(as)-1]
			}
			if bs[len(bs)-1].name == "" {
				bs = bs[:len(bs)-1]
			}
			continue
		}
		break
	}
	a, b = mkCat(as...), mkCat(bs...)
	if a == b {
		return TTrue
	}
	if len(as) == 0 {
		a, b, as, bs = b, a, bs, as
	}
	if len(bs) == 0 { // a == ""
		if nonEmptyStr(a) {
			return TFalse
		}
		if len(as) > 1 {
			var parts []*Term
			for _, x := range as {
				parts = append(parts, mkStrEq(x, mkStr("")))
			}
			return mkAnd(parts...)
		}
		if a.op == OBig && a.name == "str" {
			return mkNot(mapBig(a, "or", SBool, func(d, x, body *Term) *Term { return mkNot(mkStrEq(body, mkStr(""))) }))
		}
	}
	if a.op == OItoa && b.op == OItoa {
		return mkIntEq(a.args[0], b.args[0])
	}
	if a.op == OIte || b.op == OIte {
		if r := eqIte(a, b); r != nil {
			return r
		}
	}
	if b.id < a.id {
		a, b = b, a
	}
	return raw(Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func isEmptySeq(s *Term) bool { return s.op == OSCat && len(s.args) == 0 }

func segs(s *Term) []*Term {
	if s.op == OSCat {
		return s.args
	}
	return []*Term{s}
}

func stripSeq(a, b *Term) (*Term, *Term) {
	as, bs := segs(a), segs(b)
	for len(as) > 0 && len(bs) > 0 && as[0] == bs[0] {
		as, bs = as[1:], bs[1:]
	}
	for len(as) > 0 && len(bs) > 0 && as[len(as)-1] == bs[len(bs)-1] {
		as, bs = as[:len(as)-1], bs[:len(bs)-1]
	}
	return mkSCat(a.sort, as...), mkSCat(a.sort, bs...)
}

// --- sequences ---------------------------------------------------------------

func mkEmpty(s *Sort) *Term { return raw(Term{op: OSCat, sort: s}) }

func mkSCat(s *Sort, ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.op == OSCat {
			out = append(out, t.args...)
		} else {
			out = append(out, t)
		}
	}
	// z, then m zeros (m is never negative): one zero more
	for i := len(out) - 1; i > 0; i-- {
		a, z := out[i-1], out[i]
		if z.op != OZeros {
			continue
		}
		var n *Term
		switch {
		case a.op == OUnit && a.args[0] == z.args[1]:
			n = mkInt(1)
		case a.op == OZeros && a.args[1] == z.args[1]:
			n = a.args[0]
		default:
			continue
		}
		out = append(append(append([]*Term{}, out[:i-1]...), mkZeros(mkAdd(n, z.args[0]), z.args[1])), out[i+1:]...)
	}
	// [at(s,0)] ++ drop(s,1) -> s is only valid for non-empty s; left to the prover
	if len(out) == 1 {
		return out[0]
	}
	return raw(Term{op: OSCat, sort: s, args: out})
}

func mkUnit(e *Term) *Term {
	return raw(Term{op: OUnit, sort: seqSort(e.sort), args: []*Term{e}})
}

func mkZeros(n, zero *Term) *Term {
	if v, ok := isIntC(n); ok && v >= 0 && v <= 64 {
		var us []*Term
		for i := int64(0); i < v; i++ {
			us = append(us, mkUnit(zero))
		}
		return mkSCat(seqSort(zero.sort), us...)
	}
	return raw(Term{op: OZeros, sort: seqSort(zero.sort), args: []*Term{n, zero}})
}

func mkSLen(s *Term) *Term {
	switch s.op {
	case OSCat:
		r := mkInt(0)
		for _, a := range s.args {
			r = mkAdd(r, mkSLen(a))
		}
		return r
	case OUnit:
		return mkInt(1)
	case OZeros:
		return s.args[0]
	case OIte:
		return mkIte(s.args[0], mkSLen(s.args[1]), mkSLen(s.args[2]))
	case OSUpd:
		return mkSLen(s.args[0])
	case OSDrop: // only built for drop counts within length
		return mkSub(mkSLen(s.args[0]), s.args[1])
	case OSTake:
		return s.args[1]
	case OBig:
		return mapBig(s, "int", SInt, func(d, x, b *Term) *Term { return mkSLen(b) })
	case OUF:
		if s.name == "iota" {
			return s.args[0]
		}
		if s.name == "bytes" {
			return mkStrLen(s.args[0])
		}
		if isWrap(s) {
			return mkSLen(s.args[0])
		}
	}
	return raw(Term{op: OSLen, sort: SInt, args: []*Term{s}})
}

// mkSAt is s[i]; i is within bounds wherever such a term is used.
func mkSAt(s, i *Term) *Term {
	es := s.sort.elem
	if i.op == OSLen && i.args[0].op == OBefore && i.args[0].args[1] == s { // the element after those before the first match
		return raw(Term{op: OFirst, sort: es, args: i.args[0].args})
	}
	switch s.op {
	case OUnit:
		if v, ok := isIntC(i); ok && v == 0 {
			return s.args[0]
		}
	case OZeros:
		return s.args[1]
	case OSDrop:
		return mkSAt(s.args[0], mkAdd(i, s.args[1]))
	case OSTake:
		return mkSAt(s.args[0], i)
	case OIte:
		return mkIte(s.args[0], mkSAt(s.args[1], i), mkSAt(s.args[2], i))
	case OSCat:
		// walk segments while offsets are comparable
		rest := i
		for k, a := range s.args {
			n := mkSLen(a)
			d := mkSub(rest, n)
			if v, ok := isIntC(rest); ok && v < 0 {
				break
			}
			if certainlyNonNeg(d) {
				rest = d
				continue
			}
			if certainlyNeg(d) && certainlyNonNeg(rest) {
				return mkSAt(a, rest)
			}
			if k == len(s.args)-1 {
				return mkSAt(a, rest)
			}
			if k > 0 {
				return raw(Term{op: OSAt, sort: es, args: []*Term{mkSCat(s.sort, s.args[k:]...), rest}})
			}
			break
		}
	case OSUpd:
		if mkIntEq(i, s.args[1]) == TTrue {
			return s.args[2]
		}
		if mkIntEq(i, s.args[1]) == TFalse {
			return mkSAt(s.args[0], i)
		}
	case OBig:
		if s.name == "seq" && unitBody(s.args[0]) {
			// element of a mapped sequence
			d, x := freshSym("d", s.args[1].sort), freshSym("x", s.args[1].sort.elem)
			body := open(s.args[0], d, x)
			e := body.args[0]
			if !occurs(e, d) {
				return subst(e, map[*Term]*Term{x: mkSAt(s.args[1], i)})
			}
		}
	case OUF:
		if s.name == "iota" {
			return i
		}
		if isWrap(s) {
			return mkSAt(s.args[0], i)
		}
	}
	t := raw(Term{op: OSAt, sort: es, args: []*Term{s, i}})
	return wrapElem(t)
}

// wrapElem applies leaf type invariants to element terms (none needed for elements today).
func wrapElem(t *Term) *Term { return t }

func unitBody(b *Term) bool { return b.op == OUnit }

func certainlyNonNeg(l *Term) bool {
	c, m := toLin(l)
	if c < 0 {
		return false
	}
	for a, k := range m {
		if k < 0 || !isNN(a) {
			return false
		}
	}
	return true
}

func certainlyNeg(l *Term) bool { return certainlyNonNeg(mkSub(mkInt(-1), l)) }

func mkSDrop(s, n *Term) *Term {
	if v, ok := isIntC(n); ok && v == 0 {
		return s
	}
	if mkIntEq(n, mkSLen(s)) == TTrue {
		return mkEmpty(s.sort)
	}
	switch s.op {
	case OZeros:
		return mkZeros(mkSub(s.args[0], n), s.args[1])
	case OSDrop:
		return mkSDrop(s.args[0], mkAdd(n, s.args[1]))
	case OSCat:
		rest := n
		for k, a := range s.args {
			if v, ok := isIntC(rest); ok && v == 0 {
				return mkSCat(s.sort, s.args[k:]...)
			}
			d := mkSub(rest, mkSLen(a))
			if certainlyNonNeg(d) {
				rest = d
				continue
			}
			if certainlyNeg(d) {
				return mkSCat(s.sort, append([]*Term{mkSDrop(a, rest)}, s.args[k+1:]...)...)
			}
			if k > 0 {
				return mkSDrop(mkSCat(s.sort, s.args[k:]...), rest)
			}
			break
		}
	case OIte:
		return mkIte(s.args[0], mkSDrop(s.args[1], n), mkSDrop(s.args[2], n))
	case OUF:
		if isWrap(s) {
			return mkSDrop(s.args[0], n)
		}
	}
	return raw(Term{op: OSDrop, sort: s.sort, args: []*Term{s, n}})
}

func mkSTake(s, n *Term) *Term {
	if v, ok := isIntC(n); ok && v == 0 {
		return mkEmpty(s.sort)
	}
	if mkIntEq(n, mkSLen(s)) == TTrue {
		return s
	}
	switch s.op {
	case OZeros:
		return mkZeros(n, s.args[1])
	case OSCat:
		rest := n
		var out []*Term
		for _, a := range s.args {
			if v, ok := isIntC(rest); ok && v == 0 {
				return mkSCat(s.sort, out...)
			}
			d := mkSub(rest, mkSLen(a))
			if certainlyNonNeg(d) {
				out = append(out, a)
				rest = d
				continue
			}
			if certainlyNeg(d) {
				out = append(out, mkSTake(a, rest))
				return mkSCat(s.sort, out...)
			}
			break
		}
	case OSTake:
		return mkSTake(s.args[0], n)
	case OIte:
		return mkIte(s.args[0], mkSTake(s.args[1], n), mkSTake(s.args[2], n))
	case OUF:
		if isWrap(s) {
			return mkSTake(s.args[0], n)
		}
	}
	return raw(Term{op: OSTake, sort: s.sort, args: []*Term{s, n}})
}

func mkSUpd(s, i, v *Term) *Term {
	if s.op == OSCat {
		rest := i
		for k, a := range s.args {
			n := mkSLen(a)
			d := mkSub(rest, n)
			if certainlyNonNeg(d) {
				rest = d
				continue
			}
			if a.op == OUnit && certainlyNonNeg(rest) && certainlyNeg(d) {
				out := append([]*Term{}, s.args...)
				out[k] = mkUnit(v)
				return mkSCat(s.sort, out...)
			}
			if k > 0 && certainlyNonNeg(rest) {
				return mkSCat(s.sort, append(append([]*Term{}, s.args[:k]...), mkSUpd(mkSCat(s.sort, s.args[k:]...), rest, v))...)
			}
			break
		}
	}
	if s.op == OUnit {
		if v0, ok := isIntC(i); ok && v0 == 0 {
			return mkUnit(v)
		}
	}
	if s.op == OZeros || s.op == OSDrop {
		if v0, ok := isIntC(i); ok && v0 == 0 {
			return mkSCat(s.sort, mkUnit(v), mkSDrop(s, mkInt(1)))
		}
	}
	return raw(Term{op: OSUpd, sort: s.sort, args: []*Term{s, i, v}})
}

// --- structs, interfaces -------------------------------------------------------

func mkMk(s *Sort, fs ...*Term) *Term {
	// eta: mk(sel_0 x, ..., sel_n x) = x
	for i := range fs {
		x := selBase(fs[i], s, i)
		if x == nil {
			continue
		}
		ok := true
		for j := range fs {
			if mkSel(x, j) != fs[j] {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return raw(Term{op: OMk, sort: s, args: fs})
}

func selBase(t *Term, s *Sort, i int) *Term {
	if t.op == OSel && int(t.ival) == i && t.args[0].sort == s {
		return t.args[0]
	}
	// JoinType leaf: ite(jor(sel), "OR", "AND")
	if t.op == OIte && t.args[0].op == OUF && t.args[0].name == "jor!" {
		return selBase(t.args[0].args[0], s, i)
	}
	if t.op == OMk { // nested struct
		for j := range t.args {
			if x := selBase(t.args[j], t.sort, j); x != nil {
				return selBase(x, s, i)
			}
		}
	}
	return nil
}

func isJoinType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "JoinType" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "query"
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// leaf applies type invariants to a symbolic leaf of a Go type.
func leaf(t *Term, gt types.Type) *Term {
	if t.op == OIte || t.op == OStr || t.op == OCat {
		return t
	}
	if isJoinType(gt) {
		return mkIte(raw(Term{op: OUF, sort: SBool, name: "jor!", args: []*Term{t}}), mkStr("OR"), mkStr("AND"))
	}
	if isUnsigned(gt) && t.sort == SInt {
		return nonneg(t)
	}
	return t
}

func mkSel(x *Term, i int) *Term {
	if x.op == OMk {
		return x.args[i]
	}
	if x.op == OIte {
		return mkIte(x.args[0], mkSel(x.args[1], i), mkSel(x.args[2], i))
	}
	f := x.sort.st.Field(i)
	t := raw(Term{op: OSel, sort: sortOf(f.Type()), name: f.Name(), ival: int64(i), args: []*Term{x}})
	return leaf(t, f.Type())
}

func mkNil(s *Sort) *Term { return raw(Term{op: ONil, sort: s}) }

func mkBox(t types.Type, v *Term) *Term {
	if v.sort == SAny {
		return v
	}
	return raw(Term{op: OBox, sort: SAny, typ: t, args: []*Term{v}})
}

func mkIs(t types.Type, x *Term) *Term {
	switch x.op {
	case OBox:
		return mkBool(types.Identical(x.typ, t))
	case ONil:
		return TFalse
	case OIte:
		return mkIte(x.args[0], mkIs(t, x.args[1]), mkIs(t, x.args[2]))
	case OUF:
		if x.name == "withJoin" || x.name == "withNeg" {
			if r := isOfWith(t, x); r != nil {
				return r
			}
		}
	}
	return raw(Term{op: OIs, sort: SBool, typ: t, args: []*Term{x}})
}

func mkUnbox(t types.Type, x *Term) *Term {
	switch x.op {
	case OBox:
		if types.Identical(x.typ, t) {
			return x.args[0]
		}
	case OIte:
		a, b := x.args[1], x.args[2]
		if mkIs(t, a) == TFalse {
			return mkUnbox(t, b)
		}
		if mkIs(t, b) == TFalse {
			return mkUnbox(t, a)
		}
		return mkIte(x.args[0], mkUnbox(t, a), mkUnbox(t, b))
	case OUF:
		if x.name == "withJoin" || x.name == "withNeg" {
			if r := unboxWith(t, x); r != nil {
				return r
			}
		}
	}
	return leaf(raw(Term{op: OUnbox, sort: sortOf(t), typ: t, args: []*Term{x}}), t)
}

// --- templates -----------------------------------------------------------------

func mkTLit(s *Term) *Term {
	switch s.op {
	case OStr:
		if s.name == "" {
			return mkTCat()
		}
	case OCat:
		var ts []*Term
		for _, a := range s.args {
			ts = append(ts, mkTLit(a))
		}
		return mkTCat(ts...)
	case OIte:
		return mkIte(s.args[0], mkTLit(s.args[1]), mkTLit(s.args[2]))
	case OBig:
		if s.name == "str" {
			return mapBig(s, "tmpl", STmpl, func(d, x, b *Term) *Term { return mkTLit(b) })
		}
	}
	return raw(Term{op: OTLit, sort: STmpl, args: []*Term{s}})
}

var THole = raw(Term{op: OTHole, sort: STmpl})

func mkTCat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OTCat {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == OTLit && t.args[0].op == OStr && len(out) > 0 {
			l := out[len(out)-1]
			if l.op == OTLit && l.args[0].op == OStr {
				out[len(out)-1] = raw(Term{op: OTLit, sort: STmpl, args: []*Term{mkStr(l.args[0].name + t.args[0].name)}})
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw(Term{op: OTCat, sort: STmpl, args: out})
}

func mkHoles(t *Term) *Term {
	switch t.op {
	case OTHole:
		return mkInt(1)
	case OTLit:
		return mkInt(0)
	case OTCat:
		r := mkInt(0)
		for _, a := range t.args {
			r = mkAdd(r, mkHoles(a))
		}
		return r
	case OIte:
		return mkIte(t.args[0], mkHoles(t.args[1]), mkHoles(t.args[2]))
	case OBig:
		return mapBig(t, "int", SInt, func(d, x, b *Term) *Term { return mkHoles(b) })
	case OUF:
		if t.name == "tmpl" {
			return mkSLen(mkUF("vals", seqSort(SAny), t.args[0]))
		}
	}
	return raw(Term{op: OUF, sort: SInt, name: "holes", args: []*Term{t}})
}

func mkNumbered(t, n *Term) *Term {
	switch t.op {
	case OTHole:
		return mkCat(mkStr("$"), mkItoa(mkAdd(n, mkInt(1))))
	case OTLit:
		return t.args[0]
	case OTCat:
		var out []*Term
		for _, a := range t.args {
			out = append(out, mkNumbered(a, n))
			n = mkAdd(n, mkHoles(a))
		}
		return mkCat(out...)
	case OIte:
		return mkIte(t.args[0], mkNumbered(t.args[1], n), mkNumbered(t.args[2], n))
	case OBig:
		return mapBig(t, "str", SStr, func(d, x, b *Term) *Term {
			before := mkHoles(mkBigRaw("tmpl", STmpl, t.args[0], d))
			return mkNumbered(b, mkAdd(n, before))
		})
	}
	return raw(Term{op: OUF, sort: SStr, name: "numbered", args: []*Term{t, n}})
}

func mkPlain(t *Term) *Term {
	switch t.op {
	case OTHole:
		return mkStr("?")
	case OTLit:
		return t.args[0]
	case OTCat:
		var out []*Term
		for _, a := range t.args {
			out = append(out, mkPlain(a))
		}
		return mkCat(out...)
	case OIte:
		return mkIte(t.args[0], mkPlain(t.args[1]), mkPlain(t.args[2]))
	case OBig:
		return mapBig(t, "str", SStr, func(d, x, b *Term) *Term { return mkPlain(b) })
	}
	return raw(Term{op: OUF, sort: SStr, name: "plain", args: []*Term{t}})
}

// --- folds over sequences --------------------------------------------------------

// close_ abstracts d and x in body (locally nameless: body becomes closed under one binder).
func close_(body, d, x *Term) *Term { return closeAt(body, d, x, 0, map[[2]int]*Term{}) }

func closeAt(t, d, x *Term, k int64, memo map[[2]int]*Term) *Term {
	if t == d {
		return raw(Term{op: OBV, sort: d.sort, name: "d", ival: k})
	}
	if t == x {
		return raw(Term{op: OBV, sort: x.sort, name: "x", ival: k, nn: x.nn})
	}
	if len(t.args) == 0 {
		return t
	}
	key := [2]int{t.id, int(k)}
	if r, ok := memo[key]; ok {
		return r
	}
	var r *Term
	if isBinder(t.op) {
		b := closeAt(t.args[0], d, x, k+1, memo)
		s := closeAt(t.args[1], d, x, k, memo)
		if b == t.args[0] && s == t.args[1] {
			r = t
		} else {
			r = raw(Term{op: t.op, sort: t.sort, name: t.name, args: []*Term{b, s}})
		}
	} else {
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = closeAt(a, d, x, k, memo)
			if args[i] != a {
				same = false
			}
		}
		if same {
			r = t
		} else {
			r = resort(t, args)
		}
	}
	memo[key] = r
	return r
}

// resort rebuilds a node whose children were renamed, restoring argument order only.
func resort(t *Term, args []*Term) *Term {
	switch t.op {
	case OAnd, OOr:
		sortTerms(args)
	case OEq, OIff:
		if args[1].id < args[0].id {
			args[0], args[1] = args[1], args[0]
		}
	case OLin:
		m := map[*Term]int64{}
		for i, a := range args {
			m[a] += t.coefs[i]
		}
		return fromLin(t.ival, m)
	case OEqZ:
		l := args[0]
		if l.op == OLin && len(l.args) > 0 && l.coefs[0] < 0 {
			args[0] = linScale(l, -1)
		}
	}
	return raw(Term{op: t.op, sort: t.sort, name: t.name, ival: t.ival, coefs: t.coefs, args: args, typ: t.typ, nn: t.nn})
}

func open(body, d, x *Term) *Term { return openAt(body, d, x, 0, map[[2]int]*Term{}) }

func openAt(t, d, x *Term, k int64, memo map[[2]int]*Term) *Term {
	if t.op == OBV {
		if t.ival == k {
			if t.name == "d" {
				return d
			}
			return x
		}
		return t
	}
	if len(t.args) == 0 {
		return t
	}
	if !t.fv && !isBinder(t.op) {
		return t
	}
	if isBinder(t.op) && maxLoose(t, k) == 0 {
		return t
	}
	key := [2]int{t.id, int(k)}
	if r, ok := memo[key]; ok {
		return r
	}
	var r *Term
	if isBinder(t.op) {
		b := openAt(t.args[0], d, x, k+1, memo)
		s := openAt(t.args[1], d, x, k, memo)
		if b == t.args[0] && s == t.args[1] {
			r = t
		} else {
			r = raw(Term{op: t.op, sort: t.sort, name: t.name, args: []*Term{b, s}})
		}
	} else {
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = openAt(a, d, x, k, memo)
			if args[i] != a {
				same = false
			}
		}
		if same {
			r = t
		} else {
			r = resort(t, args)
		}
	}
	memo[key] = r
	return r
}

func unitOf(kind string, s *Sort) *Term {
	switch kind {
	case "str":
		return mkStr("")
	case "int":
		return mkInt(0)
	case "or":
		return TFalse
	case "tmpl":
		return mkTCat()
	case "seq":
		return mkEmpty(s)
	}
	panic("unit " + kind)
}

func catOf(kind string, s *Sort, a, b *Term) *Term {
	switch kind {
	case "str":
		return mkCat(a, b)
	case "int":
		return mkAdd(a, b)
	case "or":
		return mkOr(a, b)
	case "tmpl":
		return mkTCat(a, b)
	case "seq":
		return mkSCat(s, a, b)
	}
	panic("cat " + kind)
}

// mkBig builds the fold  body(d0,x0) + body(d1,x1) + ...  over the elements x_i of seq,
// where d_i is the prefix of seq before x_i.
func mkBig(kind string, s *Sort, d, x, body, seq *Term) *Term {
	body = hereAndNow(d, x, body, seq)
	return bigPre(kind, s, d, x, body, mkEmpty(seq.sort), seq)
}

// bigPre is the fold over seq with elements of pre already seen.
func bigPre(kind string, s *Sort, d, x, body, pre, seq *Term) *Term {
	if body == unitOf(kind, s) {
		return body
	}
	switch seq.op {
	case OSCat:
		r := unitOf(kind, s)
		for _, a := range seq.args {
			r = catOf(kind, s, r, bigPre(kind, s, d, x, body, pre, a))
			pre = mkSCat(seq.sort, pre, a)
		}
		return r
	case OUnit:
		return subst(body, map[*Term]*Term{d: pre, x: seq.args[0]})
	case OIte:
		return mkIte(seq.args[0], bigPre(kind, s, d, x, body, pre, seq.args[1]), bigPre(kind, s, d, x, body, pre, seq.args[2]))
	case OBig: // fold over a flat-mapped sequence
		d2, x2 := freshSym("d", seq.args[1].sort), freshSym("x", seq.args[1].sort.elem)
		inner := open(seq.args[0], d2, x2)
		pre2 := mkSCat(seq.sort, pre, mkBigRaw("seq", seq.sort, seq.args[0], d2))
		nb := bigPre(kind, s, d, x, body, pre2, inner)
		return mkBig(kind, s, d2, x2, nb, seq.args[1])
	case OUF:
		if isWrap(seq) {
			return bigPre(kind, s, d, x, body, pre, seq.args[0])
		}
		if n, ok := isIntC(seq.args[0]); seq.name == "iota" && ok && n <= 8 {
			r := unitOf(kind, s)
			for i := int64(0); i < n; i++ {
				r = catOf(kind, s, r, subst(body, map[*Term]*Term{d: pre, x: mkInt(i)}))
				pre = mkSCat(seq.sort, pre, mkUnit(mkInt(i)))
			}
			return r
		}
		// one and the same part so many times: as long as the rest of a list
		if n := seq.args[0]; seq.name == "iota" && len(n.args) == 1 && n.op == OLin && n.args[0].op == OSLen && n.coefs[0] == 1 && n.ival < 0 && !occurs(body, d) && !occurs(body, x) {
			l := n.args[0].args[0]
			return bigPre(kind, s, freshSym("d", l.sort), freshSym("x", l.sort.elem), body, mkEmpty(l.sort), mkSDrop(l, mkInt(-n.ival)))
		}
	case OZeros:
		if !occurs(body, d) {
			body = subst(body, map[*Term]*Term{x: seq.args[1]})
			if kind == "int" {
				if v, ok := isIntC(body); ok {
					return linScale(seq.args[0], v)
				}
			}
		}
	}
	if !isEmptySeq(pre) {
		body = subst(body, map[*Term]*Term{d: mkSCat(seq.sort, pre, d)})
		if body == unitOf(kind, s) {
			return body
		}
	}
	if seq.op == OSDrop { // a fold over s[k:] is a fold over s that skips the first k
		if k, ok := isIntC(seq.args[1]); ok && k > 0 && !occursExcept(body, d, mkSLen(d)) {
			return bigSkip(kind, s, d, x, body, seq.args[0], k)
		}
	}
	return finishBig(kind, s, d, x, body, seq)
}

// bigSkip folds the body over base[k:]; the body knows the elements before only by their number.
func bigSkip(kind string, s *Sort, d, x, body, base *Term, k int64) *Term {
	d2, x2 := freshSym("d", base.sort), freshSym("x", base.sort.elem)
	body = subst(body, map[*Term]*Term{x: x2, mkSLen(d): mkSub(mkSLen(d2), mkInt(k))})
	skip := mkLt(mkSLen(d2), mkInt(k))
	if k == 1 {
		skip = mkEqZ(mkSLen(d2))
	}
	if kind == "or" {
		body = mkAnd(mkNot(skip), body)
	} else {
		body = mkIte(skip, unitOf(kind, s), body)
	}
	return mkBig(kind, s, d2, x2, body, base)
}

// hereAndNow rewrites what the body of a fold says about the walked list by position.
func hereAndNow(d, x, body, seq *Term) *Term {
	if d.sort != seq.sort {
		return body
	}
	// s[len(d)] is the current element
	if at := raw(Term{op: OSAt, sort: x.sort, args: []*Term{seq, mkSLen(d)}}); occurs(body, at) {
		body = subst(body, map[*Term]*Term{at: x})
	}
	// len(d) < len(seq) for every element
	if lt := mkLt(mkSLen(d), mkSLen(seq)); lt.op == OLe && (occurs(body, lt) || occurs(body, mkNot(lt))) {
		body = subst(body, map[*Term]*Term{lt: TTrue, mkNot(lt): TFalse})
	}
	// s[:len(d)] is the part already visited
	if at := raw(Term{op: OSTake, sort: d.sort, args: []*Term{seq, mkSLen(d)}}); occurs(body, at) {
		body = subst(body, map[*Term]*Term{at: d})
	}
	return body
}

func finishBig(kind string, s *Sort, d, x, body, seq *Term) *Term {
	if b := hereAndNow(d, x, body, seq); b != body {
		return bigPre(kind, s, d, x, b, mkEmpty(seq.sort), seq)
	}
	if seq.op == OZeros && occurs(body, d) && !occursExcept(body, d, mkSLen(d)) { // only the index matters
		d2, x2 := freshSym("d", seqSort(SInt)), freshSym("x", SInt)
		body = subst(body, map[*Term]*Term{x: seq.args[1], mkSLen(d): mkSLen(d2)})
		return mkBig(kind, s, d2, x2, body, mkUF("iota", seqSort(SInt), seq.args[0]))
	}
	if seq.op == OUF && seq.name == "iota" { // x = len(d); find a sequence of that length indexed by it
		if occurs(body, x) {
			body = subst(body, map[*Term]*Term{x: mkSLen(d)})
		}
		var found *Term
		walk(body, func(t *Term) bool {
			if found == nil && t.op == OSAt && t.args[1] == mkSLen(d) && !occurs(t.args[0], d) && mkSLen(t.args[0]) == seq.args[0] && !t.args[0].fv {
				found = t.args[0]
			}
			return found == nil
		})
		if found != nil {
			d2, x2 := freshSym("d", found.sort), freshSym("x", found.sort.elem)
			at := raw(Term{op: OSAt, sort: x2.sort, args: []*Term{found, mkSLen(d)}})
			nb := subst(body, map[*Term]*Term{at: x2, mkSLen(d): mkSLen(d2)})
			if !occurs(nb, d) && !occurs(nb, x) {
				return mkBig(kind, s, d2, x2, nb, found)
			}
		}
		// s[k+len(d)] of a list k longer: the elements of s[k:]
		var base *Term
		var off int64
		walk(body, func(t *Term) bool {
			if base == nil && t.op == OSAt && !t.args[0].fv && !occurs(t.args[0], d) {
				if k, ok := isIntC(mkSub(t.args[1], mkSLen(d))); ok && k > 0 && mkSub(mkSLen(t.args[0]), mkInt(k)) == seq.args[0] {
					base, off = t.args[0], k
				}
			}
			return base == nil
		})
		if base != nil {
			x2 := freshSym("x", base.sort.elem)
			at := raw(Term{op: OSAt, sort: x2.sort, args: []*Term{base, mkAdd(mkSLen(d), mkInt(off))}})
			nb := subst(body, map[*Term]*Term{at: x2})
			if !occursExcept(nb, d, mkSLen(d)) && !occurs(nb, x) {
				return bigSkip(kind, s, d, x2, nb, base, off)
			}
		}
		if !occurs(body, d) {
			if kind == "int" {
				return mkMul(body, seq.args[0])
			}
		} else if inner := seq.args[0]; inner.op == OSLen && !occursExcept(body, d, mkSLen(d)) {
			// only the index is used: canonical form folds over the sequence whose length bounds it
			base := inner.args[0]
			d2, x2 := freshSym("d", base.sort), freshSym("x", base.sort.elem)
			nb := subst(body, map[*Term]*Term{mkSLen(d): mkSLen(d2)})
			return mkBig(kind, s, d2, x2, nb, base)
		}
	}
	if seq.op == OUF && seq.name == "runes" && !occurs(body, d) {
		if r := overRunes(kind, x, body, seq.args[0]); r != nil {
			return r
		}
	}
	switch kind {
	case "int":
		if !occurs(body, d) && !occurs(body, x) {
			if v, ok := isIntC(body); ok {
				return linScale(mkSLen(seq), v)
			}
			return mkMul(body, mkSLen(seq))
		}
		// split linear bodies
		if body.op == OLin && (len(body.args) > 1 || body.ival != 0 || body.coefs[0] != 1) {
			r := linScale(mkSLen(seq), body.ival)
			for i, a := range body.args {
				r = linAdd(r, mkBig("int", s, d, x, a, seq), body.coefs[i])
			}
			return r
		}
	case "or":
		if !occurs(body, d) && !occurs(body, x) {
			return mkAnd(mkNot(mkEqZ(mkSLen(seq))), body)
		}
		if body.op == OOr {
			var parts []*Term
			for _, b := range body.args {
				parts = append(parts, mkBig("or", s, d, x, b, seq))
			}
			return mkOr(parts...)
		}
		if body.op == OAnd { // the first element with A(x) has no equal element before it
			for i, b := range body.args {
				if b.op != ONot || b.args[0].op != OBig || b.args[0].name != "or" || b.args[0].args[1] != d {
					continue
				}
				d2, x2 := freshSym("d", d.sort), freshSym("x", d.sort.elem)
				if open(b.args[0].args[0], d2, x2) != mkEq(x2, x) {
					continue
				}
				rest := mkAnd(append(append([]*Term{}, body.args[:i]...), body.args[i+1:]...)...)
				if !occurs(rest, d) {
					return mkBig("or", s, d, x, rest, seq)
				}
			}
		}
		if body.op == OAnd { // pull out conjuncts not depending on the element
			var in, out []*Term
			for _, b := range body.args {
				if occurs(b, d) || occurs(b, x) {
					in = append(in, b)
				} else {
					out = append(out, b)
				}
			}
			if len(out) > 0 {
				return mkAnd(append(out, mkBig("or", s, d, x, mkAnd(in...), seq))...)
			}
		}
	case "seq":
		if body.op == OUnit && body.args[0] == x {
			return seq
		}
	case "str":
		// one constant for every element but the first
		if z := mkEqZ(mkSLen(d)); seq.op == OUF && seq.name == "iota" && occurs(body, d) && !occursExcept(body, d, mkSLen(d)) && subst(body, map[*Term]*Term{z: TTrue}) == mkStr("") {
			b := subst(body, map[*Term]*Term{z: TFalse})
			if _, ok := constStr(b); ok {
				return mkIte(mkEqZ(mkSLen(seq)), mkStr(""), mkBig("str", s, d, x, b, mkUF("iota", seqSort(SInt), mkSub(seq.args[0], mkInt(1)))))
			}
		}
		// a constant before the first element only: pull it out
		if first, rest, ok := firstConst(body, d); ok {
			nb := mkBig("str", s, d, x, rest, seq)
			return mkIte(mkEqZ(mkSLen(seq)), mkStr(""), mkCat(first, nb))
		}
	}
	return raw(Term{op: OBig, sort: s, name: kind, args: []*Term{close_(body, d, x), seq}})
}

// firstConst splits a body  ite(len(d)==0, A, B) ++ r  with constant A into A and ite(len(d)==0, "", B) ++ r.
// A body that is one constant for the first element and another one for all others goes the same way.
func firstConst(body, d *Term) (first, rest *Term, ok bool) {
	if z := mkEqZ(mkSLen(d)); occurs(body, d) && !occursExcept(body, d, mkSLen(d)) {
		a, b := subst(body, map[*Term]*Term{z: TTrue}), subst(body, map[*Term]*Term{z: TFalse})
		sa, oka := constStr(a)
		if _, okb := constStr(b); oka && okb && sa != "" {
			return a, mkIte(z, mkStr(""), b), true
		}
	}
	parts := []*Term{body}
	if body.op == OCat {
		parts = body.args
	}
	p := parts[0]
	if p.op != OIte || p.args[0] != mkEqZ(mkSLen(d)) {
		return
	}
	a := p.args[1]
	if c, isc := constStr(a); !isc || c == "" {
		return
	}
	out := append([]*Term{mkIte(p.args[0], mkStr(""), p.args[2])}, parts[1:]...)
	return a, mkCat(out...), true
}

// mkBigRaw rebuilds a fold with the same closed body over another sequence.
func mkBigRaw(kind string, s *Sort, closedBody, seq *Term) *Term {
	ds := seq.sort
	d, x := freshSym("d", ds), freshSym("x", ds.elem)
	return mkBig(kind, s, d, x, open(closedBody, d, x), seq)
}

// mapBig applies a monoid homomorphism f to a fold.
func mapBig(b *Term, kind string, s *Sort, f func(d, x, body *Term) *Term) *Term {
	d, x := freshSym("d", b.args[1].sort), freshSym("x", b.args[1].sort.elem)
	body := f(d, x, open(b.args[0], d, x))
	return mkBig(kind, s, d, x, body, b.args[1])
}

// mkFirst is the first element of seq satisfying pred; mkBefore the elements before it.
func mkFirst(op Op, d, x, pred, seq *Term) *Term {
	s := seq.sort
	if op == OFirst {
		s = seq.sort.elem
	}
	if isWrap(seq) {
		seq = seq.args[0]
	}
	pred = hereAndNow(d, x, pred, seq)
	if op == OBefore && pred == TFalse {
		return seq
	}
	return raw(Term{op: op, sort: s, args: []*Term{close_(pred, d, x), seq}})
}

// --- traversal -------------------------------------------------------------------

func walk(t *Term, f func(*Term) bool) { walkM(t, f, map[*Term]bool{}) }

func walkM(t *Term, f func(*Term) bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if !f(t) {
		return
	}
	for _, a := range t.args {
		walkM(a, f, seen)
	}
}

func occurs(t, x *Term) bool {
	found := false
	walk(t, func(u *Term) bool {
		if u == x {
			found = true
		}
		return !found
	})
	return found
}

// occursExcept reports whether x occurs in t outside of occurrences of e.
func occursExcept(t, x, e *Term) bool {
	found := false
	walk(t, func(u *Term) bool {
		if u == e {
			return false
		}
		if u == x {
			found = true
		}
		return !found
	})
	return found
}

// subst replaces closed terms and renormalises.
func subst(t *Term, m map[*Term]*Term) *Term { return substM(t, m, map[*Term]*Term{}) }

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if isBinder(t.op) {
		hit := false
		walk(t, func(u *Term) bool {
			if _, ok := m[u]; ok {
				hit = true
			}
			return !hit
		})
		// terms mentioning the bound variables can be hit only after opening: keys are closed terms,
		// so an occurrence below the binder is found by walk as well.
		seq := substM(t.args[1], m, memo)
		if !hit {
			r = t
		} else {
			d, x := freshSym("d", t.args[1].sort), freshSym("x", t.args[1].sort.elem)
			body := substM(open(t.args[0], d, x), m, memo)
			if t.op == OBig {
				r = mkBig(t.name, t.sort, d, x, body, seq)
			} else {
				r = mkFirst(t.op, d, x, body, seq)
			}
		}
	} else {
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = substM(a, m, memo)
			if args[i] != a {
				same = false
			}
		}
		if same {
			r = t
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OLin:
		r := mkInt(t.ival)
		for i, a := range args {
			r = linAdd(r, a, t.coefs[i])
		}
		return r
	case ONot:
		return mkNot(args[0])
	case OAnd:
		return mkAnd(args...)
	case OOr:
		return mkOr(args...)
	case OEq:
		return mkEq(args[0], args[1])
	case OIff:
		return mkIff(args[0], args[1])
	case OEqZ:
		return mkEqZ(args[0])
	case OLe:
		return mkLe0(args[0])
	case OIte:
		return mkIte(args[0], args[1], args[2])
	case OCat:
		return mkCat(args...)
	case OItoa:
		return mkItoa(args[0])
	case OStrLen:
		return mkStrLen(args[0])
	case OSCat:
		return mkSCat(t.sort, args...)
	case OUnit:
		return mkUnit(args[0])
	case OSLen:
		return mkSLen(args[0])
	case OSAt:
		return mkSAt(args[0], args[1])
	case OSDrop:
		return mkSDrop(args[0], args[1])
	case OSTake:
		return mkSTake(args[0], args[1])
	case OSUpd:
		return mkSUpd(args[0], args[1], args[2])
	case OZeros:
		return mkZeros(args[0], args[1])
	case OTLit:
		return mkTLit(args[0])
	case OTCat:
		return mkTCat(args...)
	case OMk:
		return mkMk(t.sort, args...)
	case OSel:
		return mkSel(args[0], int(t.ival))
	case OBox:
		return mkBox(t.typ, args[0])
	case OUnbox:
		return mkUnbox(t.typ, args[0])
	case OIs:
		return mkIs(t.typ, args[0])
	case OPtrTo:
		return raw(Term{op: OPtrTo, sort: t.sort, args: args})
	case OUF:
		return mkUFn(t.name, t.sort, t.nn, args...)
	}
	panic(fmt.Sprintf("rebuild %d", t.op))
}

// --- printing ---------------------------------------------------------------------

func (t *Term) String() string { return show(t, 0) }

func show(t *Term, depth int) string {
	if depth > 40 {
		return "..."
	}
	list := func(sep string) string {
		var p []string
		for _, a := range t.args {
			p = append(p, show(a, depth+1))
		}
		return strings.Join(p, sep)
	}
	switch t.op {
	case OSym:
		return t.name
	case OBV:
		return fmt.Sprintf("%s@%d", t.name, t.ival)
	case OLin:
		var p []string
		if t.ival != 0 || len(t.args) == 0 {
			p = append(p, strconv.FormatInt(t.ival, 10))
		}
		for i, a := range t.args {
			if t.coefs[i] == 1 {
				p = append(p, show(a, depth+1))
			} else {
				p = append(p, fmt.Sprintf("%d*%s", t.coefs[i], show(a, depth+1)))
			}
		}
		return "(" + strings.Join(p, "+") + ")"
	case OBool:
		return strconv.FormatBool(t.ival == 1)
	case OStr:
		return strconv.Quote(t.name)
	case ONot:
		return "!" + show(t.args[0], depth+1)
	case OAnd:
		return "(" + list(" && ") + ")"
	case OOr:
		return "(" + list(" || ") + ")"
	case OEq, OIff:
		return "(" + list(" == ") + ")"
	case OEqZ:
		return list("") + "==0"
	case OLe:
		return list("") + "<=0"
	case OIte:
		return "ite(" + list(", ") + ")"
	case OCat:
		return "<" + list(" ") + ">"
	case OItoa:
		return "itoa(" + list("") + ")"
	case OStrLen, OSLen:
		return "len(" + list("") + ")"
	case OSCat:
		return "{" + list(" ++ ") + "}"
	case OUnit:
		return "[" + list("") + "]"
	case OSAt:
		return show(t.args[0], depth+1) + "[" + show(t.args[1], depth+1) + "]"
	case OSDrop:
		return "drop(" + list(",") + ")"
	case OSTake:
		return "take(" + list(",") + ")"
	case OSUpd:
		return "upd(" + list(",") + ")"
	case OZeros:
		return "zeros(" + list(",") + ")"
	case OBig:
		return "Big" + t.name + "(" + list(" | ") + ")"
	case OFirst:
		return "First(" + list(" | ") + ")"
	case OBefore:
		return "Before(" + list(" | ") + ")"
	case OTLit:
		return "T" + list("")
	case OTHole:
		return "HOLE"
	case OTCat:
		return "T<" + list(" ") + ">"
	case OMk:
		return tname(t.sort.typ) + "{" + list(", ") + "}"
	case OSel:
		return show(t.args[0], depth+1) + "." + t.name
	case OBox:
		return "box<" + tname(t.typ) + ">(" + list("") + ")"
	case OUnbox:
		return show(t.args[0], depth+1) + ".(" + tname(t.typ) + ")"
	case OIs:
		return "is<" + tname(t.typ) + ">(" + list("") + ")"
	case ONil:
		return "nil"
	case OPtr:
		return fmt.Sprintf("&cell%d", t.ival)
	case OPtrTo:
		return "&(" + list("") + ")"
	case ORef:
		return fmt.Sprintf("region%d", t.ival)
	case OFnv:
		return fmt.Sprintf("func%d", t.ival)
	case OUF:
		return t.name + "(" + list(", ") + ")"
	}
	return "?"
}

func tname(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "query" {
			return ""
		}
		return p.Name()
	})
}

// isWrap recognises the wrappers that record how a list shares memory.
func isWrap(t *Term) bool { return t.op == OUF && (t.name == "clip" || t.name == "view") }
