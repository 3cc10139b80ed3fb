package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func (x *Exec) evTo(st *State, fr *Frame, e ast.Expr, to types.Type) *Term {
	v := x.ev(st, fr, e)
	return x.convert(st, v, x.typ(fr, x.p.info.TypeOf(e)), to)
}

// evMulti evaluates an expression with any number of results.
func (x *Exec) evMulti(st *State, fr *Frame, e ast.Expr) []*Term {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.evMulti(st, fr, e.X)
	case *ast.CallExpr:
		return x.call(st, fr, e)
	case *ast.TypeAssertExpr:
		v := x.ev(st, fr, e.X)
		t := x.typ(fr, x.p.info.TypeOf(e.Type))
		ok := x.isType(st, v, t)
		val := v
		if !isIface(t) {
			val = mkUnbox(t, v)
			x.unboxed(st, e.Pos(), ok, t, val)
		}
		return []*Term{x.guarded(st, ok, val, zeroOf(t)), ok}
	case *ast.IndexExpr:
		if _, ok := x.p.info.TypeOf(e.X).Underlying().(*types.Map); ok {
			v, ok := x.lookup(st, fr, e)
			return []*Term{v, ok}
		}
	}
	return []*Term{x.ev(st, fr, e)}
}

func (x *Exec) guarded(st *State, c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	switch x.decide(st, c) {
	case TTrue:
		return a
	case TFalse:
		return b
	}
	return mkIte(c, a, b)
}

func (x *Exec) ev(st *State, fr *Frame, e ast.Expr) *Term {
	info := x.p.info
	tv, have := info.Types[e]
	if have && tv.Value != nil {
		return x.constTerm(tv, x.typ(fr, tv.Type))
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.ev(st, fr, e.X)
	case *ast.Ident:
		if e.Name == "nil" && tv.IsNil() {
			return mkNil(SAny)
		}
		o := info.ObjectOf(e)
		return x.object(st, fr, o, e.Pos())
	case *ast.BasicLit:
		return x.constTerm(tv, tv.Type)
	case *ast.FuncLit:
		x.closures = append(x.closures, closure{lit: e, fr: fr})
		return raw(Term{op: OFnv, sort: SFn, ival: int64(len(x.closures) - 1)})
	case *ast.CompositeLit:
		return x.composite(st, fr, e, x.typ(fr, info.TypeOf(e)))
	case *ast.SelectorExpr:
		return x.selector(st, fr, e)
	case *ast.StarExpr:
		return x.load(st, x.ev(st, fr, e.X), e.Pos())
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			return x.addrOf(st, fr, e.X)
		case token.NOT:
			return mkNot(x.ev(st, fr, e.X))
		case token.SUB:
			return linScale(x.ev(st, fr, e.X), -1)
		case token.ADD:
			return x.ev(st, fr, e.X)
		}
		x.bad(e.Pos(), "operator %v", e.Op)
	case *ast.BinaryExpr:
		return x.binary(st, fr, e)
	case *ast.CallExpr:
		r := x.call(st, fr, e)
		if len(r) == 0 {
			return TTrue
		}
		return r[0]
	case *ast.TypeAssertExpr:
		v := x.ev(st, fr, e.X)
		t := x.typ(fr, info.TypeOf(e.Type))
		ok := x.isType(st, v, t)
		x.panicIf(st, mkNot(ok), false, "type assertion", e.Pos())
		if isIface(t) {
			return v
		}
		x.unboxed(st, e.Pos(), TTrue, t, mkUnbox(t, v))
		return mkUnbox(t, v)
	case *ast.IndexExpr:
		if tvf, ok := info.Types[e.Index]; ok && tvf.IsType() {
			return x.ev(st, fr, e.X)
		}
		bt := x.typ(fr, info.TypeOf(e.X)).Underlying()
		switch bt.(type) {
		case *types.Slice, *types.Array:
			b := x.deref(st, x.ev(st, fr, e.X))
			i := x.deref(st, x.ev(st, fr, e.Index))
			x.bounds(st, i, mkSLen(b), e.Pos())
			if st.dead {
				return zeroOf(x.typ(fr, info.TypeOf(e)))
			}
			return leaf(x.simp(st, mkSAt(b, i)), x.typ(fr, info.TypeOf(e)))
		case *types.Basic:
			b := x.ev(st, fr, e.X)
			i := x.ev(st, fr, e.Index)
			x.bounds(st, i, mkStrLen(b), e.Pos())
			return nonneg(mkUF("byteat", SInt, b, i))
		}
		if _, ok := bt.(*types.Map); ok {
			v, _ := x.lookup(st, fr, e)
			return v
		}
		x.bad(e.Pos(), "index of %v", bt)
	case *ast.SliceExpr:
		return x.sliceExpr(st, fr, e)
	case *ast.IndexListExpr:
		return x.ev(st, fr, e.X)
	}
	x.bad(e.Pos(), "expression %T", e)
	return nil
}

// simp resolves conditionals decided by the path condition at the top of a term.
func (x *Exec) simp(st *State, t *Term) *Term {
	for t.op == OIte {
		switch x.decide(st, t.args[0]) {
		case TTrue:
			t = t.args[1]
		case TFalse:
			t = t.args[2]
		default:
			return t
		}
	}
	return t
}

func (x *Exec) object(st *State, fr *Frame, o types.Object, pos token.Pos) *Term {
	if c, ok := fr.lookup(o); ok {
		return st.cells[c]
	}
	switch o := o.(type) {
	case *types.Func:
		x.closures = append(x.closures, closure{fn: o})
		return raw(Term{op: OFnv, sort: SFn, ival: int64(len(x.closures) - 1)})
	case *types.Var:
		return x.global(st, o, pos)
	case *types.Nil:
		return mkNil(SAny)
	}
	x.bad(pos, "object %v", o)
	return nil
}

// changeable stops at package variables that the code changes. What a call returns or does then depends
// on the calls made before it (unless the variable is one of package sync's).
func (x *Exec) changeable(o *types.Var, pos token.Pos) {
	calls, ok := x.p.mutable[o]
	if !ok {
		return
	}
	if n, named := o.Type().(*types.Named); calls && !(named && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync")) {
		x.frameViolation(pos, "package variable "+o.Name()+" is changed by calls and read by others")
	}
	x.bad(pos, "package variable %s, which is changed by the code", o.Name())
}

// global reads a package variable. Package variables are never assigned by the code (an assignment
// is reported as a frame violation), so a variable holds its initial value.
func (x *Exec) global(st *State, o *types.Var, pos token.Pos) *Term {
	if o.Pkg() != nil && o.Pkg().Name() == "query" {
		if init, ok := x.p.globals[o]; ok && init != nil {
			if isIface(o.Type()) && o.Type().String() == "error" {
				return mkSym("glob."+o.Name(), SAny)
			}
			x.changeable(o, pos)
			fr := &Frame{env: map[types.Object]int{}}
			v := x.deref(st, x.evTo(st, fr, init, o.Type())) // what it refers to is not memory of this call
			if _, ok := o.Type().Underlying().(*types.Slice); ok {
				return raw(Term{op: OUF, sort: v.sort, name: "view", args: []*Term{v}})
			}
			return v
		}
		if ok := x.p.globals[o] == nil; ok {
			x.changeable(o, pos)
			return zeroOf(o.Type())
		}
	}
	return leaf(mkSym("glob."+o.Pkg().Name()+"."+o.Name(), sortOf(o.Type())), o.Type())
}

func (x *Exec) load(st *State, p *Term, pos token.Pos) *Term {
	switch p.op {
	case OPtr:
		return st.cells[int(p.ival)]
	case OPtrTo:
		return p.args[0]
	case ONil:
		x.panicIf(st, TTrue, false, "nil pointer dereference", pos)
		return zeroOf(p.sort.typ)
	case OIte:
		x.panicIf(st, mkEq(p, mkNil(p.sort)), false, "nil pointer dereference", pos)
		return x.loadNN(st, p)
	}
	return x.loadNN(st, p)
}

// loadNN reads through a pointer already known not to be nil.
func (x *Exec) loadNN(st *State, p *Term) *Term {
	switch p.op {
	case OPtr:
		return st.cells[int(p.ival)]
	case OPtrTo:
		return p.args[0]
	case ONil:
		return zeroOf(p.sort.typ)
	case OIte:
		a, b := p.args[1], p.args[2]
		if a.op == ONil {
			return x.loadNN(st, b)
		}
		if b.op == ONil {
			return x.loadNN(st, a)
		}
		return mkIte(p.args[0], x.loadNN(st, a), x.loadNN(st, b))
	}
	// symbolic pointer: pointers inside interfaces are not nil (stated assumption)
	x.assumed["pointers held by condition or value interfaces are not nil"] = true
	return leaf(mkUF("pointee", sortOf(p.sort.typ), p), p.sort.typ)
}

func (x *Exec) addrOf(st *State, fr *Frame, e ast.Expr) *Term {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.addrOf(st, fr, e.X)
	case *ast.CompositeLit:
		v := x.ev(st, fr, e)
		t := x.typ(fr, x.p.info.TypeOf(e))
		return mkPtr(sortOf(types.NewPointer(t)), x.newCell(st, v))
	case *ast.Ident:
		c, ok := fr.lookup(x.p.info.ObjectOf(e))
		if ok {
			return mkPtr(sortOf(types.NewPointer(x.typ(fr, x.p.info.TypeOf(e)))), c)
		}
	case *ast.IndexExpr: // &s[i] read-only use
		v := x.ev(st, fr, e)
		return raw(Term{op: OPtrTo, sort: sortOf(types.NewPointer(x.typ(fr, x.p.info.TypeOf(e)))), args: []*Term{x.deref(st, v)}})
	}
	x.bad(e.Pos(), "address of %T", e)
	return nil
}

func (x *Exec) composite(st *State, fr *Frame, e *ast.CompositeLit, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := sortOf(t)
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(x.typ(fr, u.Field(i).Type()))
		}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fs[j] = x.elem(st, fr, kv.Value, x.typ(fr, u.Field(j).Type()))
					}
				}
			} else {
				fs[i] = x.elem(st, fr, el, x.typ(fr, u.Field(i).Type()))
			}
		}
		return mkMk(s, fs...)
	case *types.Slice, *types.Array:
		var et types.Type
		if sl, ok := u.(*types.Slice); ok {
			et = sl.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		s := sortOf(t)
		at := map[int64]*Term{}
		next, size := int64(0), int64(0)
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k, ok := isIntC(x.ev(st, fr, kv.Key))
				if !ok || k < 0 || k > 1<<10 {
					x.bad(e.Pos(), "indexed literal")
				}
				el, next = kv.Value, k
			}
			at[next] = mkUnit(x.elem(st, fr, el, x.typ(fr, et)))
			next++
			size = max(size, next)
		}
		if a, ok := u.(*types.Array); ok {
			size = a.Len()
		}
		var us []*Term
		for i := int64(0); i < size; i++ {
			if len(at) == 0 {
				us = append(us, mkZeros(mkInt(size-i), zeroOf(et)))
				break
			}
			if at[i] == nil {
				us = append(us, mkZeros(mkInt(1), zeroOf(et)))
				continue
			}
			us = append(us, at[i])
			delete(at, i)
		}
		v := mkSCat(s, us...)
		if _, ok := u.(*types.Slice); ok {
			return x.newRegion(st, v, true)
		}
		return v
	case *types.Map:
		if x.p.sets[e] && !isIface(u.Key()) {
			return x.newRegion(st, mkEmpty(seqSort(sortOf(x.typ(fr, u.Key())))), true)
		}
		// keys (constants, hence distinct) and values in turn
		args := []*Term{}
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			if tv := x.p.info.Types[kv.Key]; tv.Value == nil {
				x.bad(e.Pos(), "map literal with computed keys")
			}
			args = append(args, x.deref(st, x.elem(st, fr, kv.Key, x.typ(fr, u.Key()))), x.deref(st, x.elem(st, fr, kv.Value, x.typ(fr, u.Elem()))))
		}
		return raw(Term{op: OUF, sort: sortOf(t), name: "maplit", args: args})
	}
	x.bad(e.Pos(), "literal of %v", t)
	return nil
}

func (x *Exec) elem(st *State, fr *Frame, e ast.Expr, t types.Type) *Term {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return mkPtr(sortOf(t), x.newCell(st, x.composite(st, fr, cl, pt.Elem())))
		}
		return x.composite(st, fr, cl, t)
	}
	return x.evTo(st, fr, e, t)
}

// fieldPath follows an index path of embedded fields from a value of type t.
func (x *Exec) fieldPath(st *State, v *Term, t types.Type, path []int, pos token.Pos) (*Term, types.Type) {
	for _, i := range path {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			v = x.load(st, v, pos)
			t = pt.Elem()
		}
		s := t.Underlying().(*types.Struct)
		v = mkSel(v, i)
		t = s.Field(i).Type()
		if st.dead {
			return zeroOf(t), t
		}
	}
	return v, t
}

func (x *Exec) selector(st *State, fr *Frame, e *ast.SelectorExpr) *Term {
	sel := x.p.info.Selections[e]
	if sel == nil { // qualified identifier
		return x.object(st, fr, x.p.info.Uses[e.Sel], e.Pos())
	}
	switch sel.Kind() {
	case types.FieldVal:
		v := x.ev(st, fr, e.X)
		r, _ := x.fieldPath(st, v, x.typ(fr, x.p.info.TypeOf(e.X)), sel.Index(), e.Pos())
		return r
	case types.MethodVal:
		v := x.ev(st, fr, e.X)
		idx := sel.Index()
		r, _ := x.fieldPath(st, v, x.typ(fr, x.p.info.TypeOf(e.X)), idx[:len(idx)-1], e.Pos())
		x.closures = append(x.closures, closure{fn: sel.Obj().(*types.Func), rcv: r})
		return raw(Term{op: OFnv, sort: SFn, ival: int64(len(x.closures) - 1)})
	case types.MethodExpr:
		x.closures = append(x.closures, closure{fn: sel.Obj().(*types.Func)})
		return raw(Term{op: OFnv, sort: SFn, name: "expr", ival: int64(len(x.closures) - 1)})
	}
	x.bad(e.Pos(), "selector")
	return nil
}

func isNilExpr(x *Exec, e ast.Expr) bool {
	tv, ok := x.p.info.Types[e]
	return ok && tv.IsNil()
}

func (x *Exec) isNilTerm(st *State, v *Term, t types.Type) *Term {
	if sortOf(t).kind == KSeq {
		switch v.op {
		case ORef:
			return TFalse
		case OSCat:
			if len(v.args) == 0 {
				return TTrue
			}
			return TFalse
		case OIte:
			return mkIte(v.args[0], x.isNilTerm(st, v.args[1], t), x.isNilTerm(st, v.args[2], t))
		}
		n := mkUF("isnilslice", SBool, x.deref(st, v))
		st.assume(mkImp(n, mkEqZ(mkSLen(x.deref(st, v)))))
		return n
	}
	if sortOf(t).kind == KFn {
		return mkBool(v.op == ONil)
	}
	return mkEq(v, mkNil(v.sort))
}

func (x *Exec) binary(st *State, fr *Frame, e *ast.BinaryExpr) *Term {
	switch e.Op {
	case token.LAND, token.LOR:
		a := x.ev(st, fr, e.X)
		d := x.decide(st, a)
		if d.op == OBool {
			if (d == TTrue) == (e.Op == token.LAND) {
				return x.ev(st, fr, e.Y)
			}
			return d
		}
		a = x.deref(st, a)
		n := len(st.pc)
		s1, s2 := st.clone(), st.clone()
		var r1, r2 *Term
		if e.Op == token.LAND {
			s1.assume(a)
			r1 = x.ev(s1, fr, e.Y)
			s2.assume(mkNot(a))
			r2 = TFalse
		} else {
			s1.assume(mkNot(a))
			r1 = x.ev(s1, fr, e.Y)
			s2.assume(a)
			r2 = TTrue
		}
		m, _ := x.merge(n, []*State{s1, s2}, [][]*Term{{}, {}})
		*st = *m
		_ = r2
		if e.Op == token.LAND {
			return mkAnd(a, r1)
		}
		return mkOr(a, r1)
	}
	lt, rt := x.typ(fr, x.p.info.TypeOf(e.X)), x.typ(fr, x.p.info.TypeOf(e.Y))
	if e.Op == token.EQL || e.Op == token.NEQ {
		var r *Term
		switch {
		case isNilExpr(x, e.Y):
			r = x.isNilTerm(st, x.ev(st, fr, e.X), lt)
		case isNilExpr(x, e.X):
			r = x.isNilTerm(st, x.ev(st, fr, e.Y), rt)
		default:
			a := x.ev(st, fr, e.X)
			b := x.ev(st, fr, e.Y)
			if isIface(lt) && !isIface(rt) {
				b = x.convert(st, b, rt, lt)
			} else if isIface(rt) && !isIface(lt) {
				a = x.convert(st, a, lt, rt)
			}
			if a.op == OPtr || b.op == OPtr {
				if a.op == OPtr && b.op == OPtr {
					r = mkBool(a == b)
				} else {
					x.bad(e.Pos(), "pointer comparison")
				}
			} else {
				a, b = x.deref(st, a), x.deref(st, b)
				if !x.p.isContractPos(e.Pos()) {
					ct := lt
					if isIface(rt) {
						ct = rt
					}
					x.panicIf(st, comparePanics(ct, a, b, 0), false, "comparison of uncomparable values", e.Pos())
				}
				r = mkEq(a, b)
			}
		}
		if e.Op == token.NEQ {
			r = mkNot(r)
		}
		return r
	}
	a := x.ev(st, fr, e.X)
	b := x.ev(st, fr, e.Y)
	return x.arith(st, e.Op, a, b, lt, e.Pos())
}

// comparePanics tells when == on two values panics: two interfaces hold values of one type, which
// cannot be compared.
func comparePanics(t types.Type, a, b *Term, depth int) *Term {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		for _, v := range []*Term{a, b} {
			if v.op == OIte && depth < 8 {
				pick := func(i int) (*Term, *Term) {
					if v == a {
						return v.args[i], b
					}
					return a, v.args[i]
				}
				y1, y2 := pick(1)
				n1, n2 := pick(2)
				return mkIte(v.args[0], comparePanics(t, y1, y2, depth+1), comparePanics(t, n1, n2, depth+1))
			}
		}
		if a.op == ONil || b.op == ONil {
			return TFalse
		}
		if a.op == OBox && b.op == OBox {
			if !types.Identical(a.typ, b.typ) {
				return TFalse
			}
			if !types.Comparable(a.typ) {
				return TTrue
			}
			return comparePanics(a.typ, a.args[0], b.args[0], depth+1)
		}
		r := TTrue
		for _, v := range []*Term{a, b} {
			switch {
			case v.op != OBox:
				r = mkAnd(r, mkUF("uncomparable", SBool, v))
			case types.Comparable(v.typ) && !holdsIface(v.typ):
				return TFalse
			}
		}
		return r
	case *types.Struct:
		r := TFalse
		if a.sort.kind == KStruct && b.sort.kind == KStruct && holdsIface(t) {
			for i := 0; i < u.NumFields(); i++ {
				r = mkOr(r, comparePanics(u.Field(i).Type(), mkSel(a, i), mkSel(b, i), depth+1))
			}
		}
		return r
	}
	return TFalse
}

// holdsIface tells whether a comparable type holds interfaces by value.
func holdsIface(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Array:
		return holdsIface(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsIface(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) arith(st *State, op token.Token, a, b *Term, t types.Type, pos token.Pos) *Term {
	a, b = x.deref(st, a), x.deref(st, b)
	if a.sort == SStr {
		switch op {
		case token.ADD:
			return mkCat(a, b)
		case token.LSS:
			return mkUF("strlt", SBool, a, b)
		case token.GTR:
			return mkUF("strlt", SBool, b, a)
		case token.LEQ:
			return mkNot(mkUF("strlt", SBool, b, a))
		case token.GEQ:
			return mkNot(mkUF("strlt", SBool, a, b))
		}
	}
	if a.sort == SInt {
		switch op {
		case token.ADD:
			if bits, u, ok := bitsOf(t); ok && u && bits == 64 && !countable(a) && !countable(b) { // may wrap around
				return mkIte(mkUF("fits:+", SBool, a, b), mkAdd(a, b), mkUF("wrap+:"+tkey(t), SInt, a, b))
			}
			return mkAdd(a, b)
		case token.SUB:
			if _, u, ok := bitsOf(t); ok && u && t.Underlying().(*types.Basic).Info()&types.IsUntyped == 0 { // wraps around below zero
				return mkIte(mkLeq(b, a), mkSub(a, b), mkUF("wrap:"+tkey(t), SInt, mkSub(a, b)))
			}
			return mkSub(a, b)
		case token.MUL:
			if !isConstInt(a) && !isConstInt(b) && !(countable(a) && countable(b)) { // may wrap around
				return mkIte(mkUF("fits:*", SBool, a, b), mkMul(a, b), mkUF("wrap*:"+tkey(t), SInt, a, b))
			}
			return mkMul(a, b)
		case token.LSS:
			return mkLt(a, b)
		case token.LEQ:
			return mkLeq(a, b)
		case token.GTR:
			return mkLt(b, a)
		case token.GEQ:
			return mkLeq(b, a)
		case token.QUO, token.REM:
			x.panicIf(st, mkEqZ(b), false, "division by zero", pos)
		}
	}
	return mkUF("op:"+op.String(), sortOf(t), a, b)
}

// lookup reads a map. Inside a loop over the map it is known that the current key has its value.
func (x *Exec) lookup(st *State, fr *Frame, e *ast.IndexExpr) (val, has *Term) {
	mt := x.typ(fr, x.p.info.TypeOf(e.X)).Underlying().(*types.Map)
	m := x.deref(st, x.ev(st, fr, e.X))
	k := x.deref(st, x.convert(st, x.ev(st, fr, e.Index), x.typ(fr, x.p.info.TypeOf(e.Index)), mt.Key()))
	if isIface(mt.Key()) {
		x.panicIf(st, mkUF("unhashable", SBool, k), false, "map key of uncomparable type", e.Pos())
	}
	if k.op == OUF && k.name == "entry.key" && x.entryOf[k.args[0]] == m {
		return leaf(mkUF("entry.val", sortOf(mt.Elem()), k.args[0]), mt.Elem()), TTrue
	}
	if m.sort.kind == KSeq { // a local set: the keys put in, in order
		y := freshSym("x", m.sort.elem)
		has = mkBig("or", SBool, freshSym("d", m.sort), y, mkEq(y, k), m)
		if mt.Elem().Underlying() == types.Typ[types.Bool] {
			return has, has
		}
		return zeroOf(mt.Elem()), has
	}
	if m.op == OUF && m.name == "maplit" {
		has, val = TFalse, zeroOf(mt.Elem())
		for i := len(m.args) - 2; i >= 0; i -= 2 {
			c := mkEq(k, m.args[i])
			has, val = mkOr(c, has), mkIte(c, m.args[i+1], val)
		}
		return val, has
	}
	has = mkUF("map.has", SBool, m, k)
	return mkIte(has, leaf(mkUF("map.val", sortOf(mt.Elem()), m, k), mt.Elem()), zeroOf(mt.Elem())), has
}

// lastMention tells whether e is the last thing that mentions the local variable o, and is evaluated once only.
func (x *Exec) lastMention(o types.Object, e ast.Expr) bool {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Parent() == nil || v.Parent() == v.Pkg().Scope() {
		return false
	}
	for id, u := range x.p.info.Uses {
		if u == o && id.Pos() > e.Pos() && id != ast.Unparen(e.(*ast.SliceExpr).X) {
			return false
		}
	}
	for _, d := range x.p.decls {
		if d.Pos() > e.Pos() || d.End() < e.End() {
			continue
		}
		once := v.Pos() >= d.Pos()
		ast.Inspect(d, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
				if n.Pos() <= e.Pos() && e.End() <= n.End() && v.Pos() < n.Pos() {
					once = false
				}
			case *ast.LabeledStmt:
				once = false
			}
			return true
		})
		return once
	}
	return false
}

func (x *Exec) sliceExpr(st *State, fr *Frame, e *ast.SliceExpr) *Term {
	b := x.ev(st, fr, e.X)
	t := x.typ(fr, x.p.info.TypeOf(e.X))
	get := func(i ast.Expr, def *Term) *Term {
		if i == nil {
			return def
		}
		return x.deref(st, x.ev(st, fr, i))
	}
	if sortOf(t) == SStr {
		n := mkStrLen(b)
		lo, hi := get(e.Low, mkInt(0)), get(e.High, n)
		x.panicIf(st, mkOr(mkLt(lo, mkInt(0)), mkLt(hi, lo), mkLt(n, hi)), false, "slice bounds out of range", e.Pos())
		return mkSubstr(b, lo, hi)
	}
	if sortOf(t).kind != KSeq {
		x.bad(e.Pos(), "slice of %v", t)
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		// once the array itself is not mentioned any more it is the memory behind this one slice
		if id, ok := ast.Unparen(e.X).(*ast.Ident); !ok || !x.lastMention(x.p.info.Uses[id], e) {
			x.bad(e.Pos(), "slice of array")
		}
		b = x.newRegion(st, x.deref(st, b), true)
	}
	v := x.deref(st, b)
	n := mkSLen(v)
	lo, hi := get(e.Low, mkInt(0)), get(e.High, n)
	full := hi
	if e.Slice3 {
		full = get(e.Max, n)
	}
	// the capacity is at least the length; more is not known, so bounds are checked against the length
	x.panicIf(st, mkOr(mkLt(lo, mkInt(0)), mkLt(hi, lo), mkLt(full, hi), mkLt(n, full)), false, "slice bounds out of range", e.Pos())
	if st.dead {
		return mkEmpty(v.sort)
	}
	whole := lo == mkInt(0) && x.decide(st, mkIntEq(hi, n)) == TTrue
	clipped := e.Slice3 && mkIntEq(full, hi) == TTrue
	if whole {
		if clipped {
			return raw(Term{op: OUF, sort: v.sort, name: "clip", args: []*Term{b}})
		}
		return b
	}
	if b.op == ORef { // a second view of the same memory: further writes to it are not modelled
		r := st.regs[int(b.ival)]
		r.spare = true
		st.regs[int(b.ival)] = r
	}
	sub := mkSTake(mkSDrop(v, lo), mkSub(hi, lo))
	if clipped {
		return raw(Term{op: OUF, sort: v.sort, name: "clip", args: []*Term{sub}})
	}
	if b.op == ORef { // part of a list made here: appending to it may overwrite that list, but nothing shared
		return raw(Term{op: OUF, sort: v.sort, name: "view", args: []*Term{sub, mkInt(1)}})
	}
	return raw(Term{op: OUF, sort: v.sort, name: "view", args: []*Term{sub}})
}

// --- calls ---------------------------------------------------------------------------------

func (x *Exec) call(st *State, fr *Frame, e *ast.CallExpr) []*Term {
	info := x.p.info
	fun := ast.Unparen(e.Fun)
	if tv, ok := info.Types[fun]; ok && tv.IsType() { // conversion
		return []*Term{x.conversion(st, fr, e, x.typ(fr, tv.Type))}
	}
	var id *ast.Ident
	switch f := fun.(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	case *ast.IndexExpr:
		switch g := f.X.(type) {
		case *ast.Ident:
			id = g
		case *ast.SelectorExpr:
			id = g.Sel
		}
	case *ast.IndexListExpr:
		if g, ok := f.X.(*ast.Ident); ok {
			id = g
		} else if g, ok := f.X.(*ast.SelectorExpr); ok {
			id = g.Sel
		}
	}
	if id != nil {
		switch o := info.Uses[id].(type) {
		case *types.Builtin:
			return x.builtin(st, fr, e, o.Name())
		case *types.Func:
			return x.callNamed(st, fr, e, fun, id, o)
		}
	}
	// function value
	f := x.ev(st, fr, fun)
	sig := x.typ(fr, info.TypeOf(fun)).Underlying().(*types.Signature)
	args := x.args(st, fr, e, sig)
	return x.callValue(st, f, sig, args, e.Pos())
}

func (x *Exec) callValue(st *State, f *Term, sig *types.Signature, args []*Term, pos token.Pos) []*Term {
	if st.dead {
		return zeros(x, sig)
	}
	if f.op == OIte {
		return x.iteCall(st, f.args[0], sig, func(s *State) []*Term { return x.callValue(s, f.args[1], sig, args, pos) },
			func(s *State) []*Term { return x.callValue(s, f.args[2], sig, args, pos) })
	}
	if f.op != OFnv {
		x.bad(pos, "call of unknown function value")
	}
	c := x.closures[f.ival]
	if c.lit != nil {
		nf := &Frame{fn: c.fr.fn, env: map[types.Object]int{}, sig: sig, parent: c.fr, cut: len(st.pc)}
		ls := x.p.info.TypeOf(c.lit).(*types.Signature)
		nf.sig = ls
		for i := 0; i < ls.Params().Len(); i++ {
			nf.env[ls.Params().At(i)] = x.newCell(st, args[i])
		}
		x.stack = append(x.stack, "func literal")
		defer func() { x.stack = x.stack[:len(x.stack)-1] }()
		return x.runBody(st, nf, c.lit.Body, ls)
	}
	if f.name == "expr" {
		return x.invoke(st, c.fn, nil, args[0], args[1:], pos)
	}
	return x.invoke(st, c.fn, nil, c.rcv, args, pos)
}

func zeros(x *Exec, sig *types.Signature) []*Term {
	var r []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, zeroOf(sig.Results().At(i).Type()))
	}
	return r
}

func (x *Exec) iteCall(st *State, c *Term, sig *types.Signature, a, b func(*State) []*Term) []*Term {
	switch x.decide(st, c) {
	case TTrue:
		return a(st)
	case TFalse:
		return b(st)
	}
	c = x.deref(st, c)
	n := len(st.pc)
	s1, s2 := st.clone(), st.clone()
	s1.assume(c)
	s2.assume(mkNot(c))
	r1 := a(s1)
	r2 := b(s2)
	m, v := x.merge(n, []*State{s1, s2}, [][]*Term{r1, r2})
	*st = *m
	return v
}

// args evaluates call arguments against a signature, packing variadic ones into a list.
func (x *Exec) args(st *State, fr *Frame, e *ast.CallExpr, sig *types.Signature) []*Term {
	np := sig.Params().Len()
	var vals []*Term
	var vts []types.Type
	if len(e.Args) == 1 && np > 1 {
		if tup, ok := x.p.info.TypeOf(e.Args[0]).(*types.Tuple); ok {
			vals = x.evMulti(st, fr, e.Args[0])
			for i := 0; i < tup.Len(); i++ {
				vts = append(vts, x.typ(fr, tup.At(i).Type()))
			}
		}
	}
	if vals == nil {
		for _, a := range e.Args {
			vals = append(vals, x.ev(st, fr, a))
			vts = append(vts, x.typ(fr, x.p.info.TypeOf(a)))
		}
	}
	var out []*Term
	for i := 0; i < np; i++ {
		pt := x.typ(fr, sig.Params().At(i).Type())
		if sig.Variadic() && i == np-1 {
			if e.Ellipsis.IsValid() {
				out = append(out, x.convert(st, vals[i], vts[i], pt))
				break
			}
			et := pt.Underlying().(*types.Slice).Elem()
			var us []*Term
			for j := i; j < len(vals); j++ {
				us = append(us, mkUnit(x.convert(st, vals[j], vts[j], et)))
			}
			if len(us) == 0 {
				out = append(out, mkEmpty(sortOf(pt)))
			} else {
				out = append(out, x.newRegion(st, mkSCat(sortOf(pt), us...), true))
			}
			break
		}
		out = append(out, x.convert(st, vals[i], vts[i], pt))
	}
	return out
}

func (x *Exec) callNamed(st *State, fr *Frame, e *ast.CallExpr, fun ast.Expr, id *ast.Ident, fn *types.Func) []*Term {
	info := x.p.info
	var ts map[*types.TypeParam]types.Type
	sig := fn.Type().(*types.Signature)
	csig := sig
	if inst, ok := info.Instances[id]; ok {
		ts = map[*types.TypeParam]types.Type{}
		tp := fn.Origin().Type().(*types.Signature).TypeParams()
		for i := 0; i < tp.Len(); i++ {
			ts[tp.At(i)] = x.typ(fr, inst.TypeArgs.At(i))
		}
		csig = x.typ(fr, inst.Type).(*types.Signature)
	}
	if x.isGhost(fn) {
		return x.ghostCall(st, fr, e, fn)
	}
	var recv *Term
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if sel := info.Selections[se]; sel != nil {
			idx := sel.Index()
			rt := sig.Recv().Type()
			if sel.Kind() == types.MethodExpr {
				args := x.args(st, fr, e, x.typ(fr, info.TypeOf(fun)).(*types.Signature))
				return x.invoke(st, fn, ts, args[0], args[1:], e.Pos())
			}
			bt := x.typ(fr, info.TypeOf(se.X))
			if _, wantPtr := rt.(*types.Pointer); wantPtr && !isIface(rt) {
				if recv = x.pointerRecv(st, fr, se.X, bt, idx[:len(idx)-1]); recv == nil {
					return x.callOnPart(st, fr, e, fn, ts, csig, se.X, bt, idx[:len(idx)-1])
				}
			} else {
				v := x.ev(st, fr, se.X)
				var t types.Type
				recv, t = x.fieldPath(st, v, bt, idx[:len(idx)-1], e.Pos())
				if _, ok := t.Underlying().(*types.Pointer); ok && !isIface(rt) {
					recv = x.load(st, recv, e.Pos())
				}
			}
		}
	}
	args := x.args(st, fr, e, csig)
	if st.dead {
		return zeros(x, csig)
	}
	return x.invoke(st, fn, ts, recv, args, e.Pos())
}

func (x *Exec) pointerRecv(st *State, fr *Frame, e ast.Expr, t types.Type, path []int) *Term {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		v := x.ev(st, fr, e)
		if len(path) == 0 {
			return v
		}
	} else if id, ok := e.(*ast.Ident); ok && len(path) == 0 {
		if c, ok := fr.lookup(x.p.info.ObjectOf(id)); ok {
			return mkPtr(sortOf(types.NewPointer(t)), c)
		}
	}
	return nil
}

// callOnPart calls a method on the address of a field or of an element of a list: on a copy that is
// written back if the call changed it.
func (x *Exec) callOnPart(st *State, fr *Frame, e *ast.CallExpr, fn *types.Func, ts map[*types.TypeParam]types.Type, csig *types.Signature, on ast.Expr, bt types.Type, path []int) []*Term {
	switch ast.Unparen(on).(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.Ident, *ast.StarExpr:
	default:
		x.bad(e.Pos(), "pointer receiver")
	}
	v, t := x.fieldPath(st, x.ev(st, fr, on), bt, path, e.Pos())
	if st.dead {
		return zeros(x, csig)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		args := x.args(st, fr, e, csig)
		return x.invoke(st, fn, ts, v, args, e.Pos())
	}
	c := x.newCell(st, v)
	args := x.args(st, fr, e, csig)
	if st.dead {
		return zeros(x, csig)
	}
	res := x.invoke(st, fn, ts, mkPtr(sortOf(types.NewPointer(t)), c), args, e.Pos())
	if !st.dead && st.cells[c] != v {
		x.assignPath(st, fr, on, bt, path, st.cells[c])
	}
	return res
}

// invoke calls a function or method, known or through an interface, with evaluated arguments.
func (x *Exec) invoke(st *State, fn *types.Func, ts map[*types.TypeParam]types.Type, recv *Term, args []*Term, pos token.Pos) []*Term {
	sig := fn.Type().(*types.Signature)
	if st.dead {
		return zeros(x, sig)
	}
	if r := sig.Recv(); r != nil && isIface(r.Type()) {
		return x.dispatch(st, recv, fn, args, pos)
	}
	if _, ok := x.p.decls[fn.Origin()]; ok {
		return x.callFunc(st, fn, ts, recv, args, pos)
	}
	return x.library(st, fn, ts, recv, args, pos)
}

// dispatch calls an interface method.
func (x *Exec) dispatch(st *State, v *Term, fn *types.Func, args []*Term, pos token.Pos) []*Term {
	sig := fn.Type().(*types.Signature)
	switch v.op {
	case OBox:
		return x.methodOn(st, v.typ, v.args[0], fn.Name(), args, pos)
	case ONil:
		x.panicIf(st, TTrue, false, "method call on nil interface", pos)
		return zeros(x, sig)
	case OIte:
		return x.iteCall(st, v.args[0], sig, func(s *State) []*Term { return x.dispatch(s, v.args[1], fn, args, pos) },
			func(s *State) []*Term { return x.dispatch(s, v.args[2], fn, args, pos) })
	}
	return x.ifaceContract(st, v, fn, args, pos)
}

// methodOn calls the named method of a value of a known type.
func (x *Exec) methodOn(st *State, t types.Type, v *Term, name string, args []*Term, pos token.Pos) []*Term {
	obj, path, _ := types.LookupFieldOrMethod(t, true, x.p.pkg, name)
	fn, ok := obj.(*types.Func)
	if !ok {
		x.bad(pos, "no method %s on %v", name, t)
	}
	r, rt := x.fieldPath(st, v, t, path[:len(path)-1], pos)
	if isIface(rt) {
		return x.dispatch(st, r, fn, args, pos)
	}
	_, isPtr := rt.Underlying().(*types.Pointer)
	_, wantPtr := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer)
	if isPtr && !wantPtr {
		r = x.load(st, r, pos)
	}
	if !isPtr && wantPtr {
		x.bad(pos, "pointer method on boxed value")
	}
	return x.invoke(st, fn, nil, r, args, pos)
}

func (x *Exec) conversion(st *State, fr *Frame, e *ast.CallExpr, to types.Type) *Term {
	a := e.Args[0]
	from := x.typ(fr, x.p.info.TypeOf(a))
	v := x.ev(st, fr, a)
	fs, tos := sortOf(from), sortOf(to)
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroOf(to)
	}
	if isIface(to) {
		return x.convert(st, v, from, to)
	}
	if fs == SInt && tos == SInt {
		return x.intConv(leaf(v, to), from, to)
	}
	if fs == tos {
		return leaf(v, to)
	}
	if fs == SInt && tos == SStr {
		return mkUF("runestr", SStr, v)
	}
	if fs.kind == KStruct && tos.kind == KStruct {
		n := fs.st.NumFields()
		args := make([]*Term, n)
		for i := range args {
			args[i] = mkSel(v, i)
		}
		return mkMk(tos, args...)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fs == SStr && tos.kind == KSeq && sl.Elem().Underlying() == types.Typ[types.Int32] {
		return x.newRegion(st, runes(x.deref(st, v)), false)
	}
	if fs == SStr && isBytes(to) {
		return x.newRegion(st, mkBytes(x.deref(st, v)), false)
	}
	if fs.kind == KSeq && tos == SStr {
		if isBytes(from) {
			return mkByteStr(x.deref(st, v))
		}
		return mkUF("runesstr", SStr, x.deref(st, v))
	}
	if fs == SStr && tos.kind == KSeq {
		return mkUF("conv:"+tkey(to), tos, x.deref(st, v))
	}
	if fs.kind == KSeq && tos.kind == KSeq && fs.elem == tos.elem {
		return v
	}
	return mkUF("conv:"+tkey(to), tos, x.deref(st, v))
}

func isConstInt(t *Term) bool {
	_, ok := isIntC(t)
	return ok
}

// countable: a length, or a sum of lengths, which is far below the limits of the integers.
func countable(t *Term) bool {
	_, m := toLin(t)
	for a := range m {
		if a.op != OSLen && a.op != OStrLen {
			return false
		}
	}
	return true
}

// bitsOf is the width of an integer type and whether it is unsigned.
func bitsOf(t types.Type) (bits int, unsigned, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	return bits, b.Info()&types.IsUnsigned != 0, true
}

// intConv is the conversion of an integer: values which the target type cannot hold become others,
// about which nothing is known.
func (x *Exec) intConv(v *Term, from, to types.Type) *Term {
	fb, fu, ok1 := bitsOf(from)
	tb, tu, ok2 := bitsOf(to)
	if b, ok := from.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return v // a constant, checked by the compiler
	}
	if !ok1 || !ok2 {
		if ok1 == ok2 {
			return v
		}
		return mkUF("conv:"+tkey(to), SInt, v)
	}
	var c []*Term
	if tu && !fu { // no negative values
		c = append(c, mkLeq(mkInt(0), v))
	}
	fbits, tbits := fb, tb // value bits
	if !fu {
		fbits--
	}
	if !tu {
		tbits--
	}
	if tbits < fbits {
		c = append(c, mkLeq(v, mkInt(1<<uint(tbits)-1)))
		if !tu && !fu {
			c = append(c, mkLeq(mkInt(-1<<uint(tbits)), v))
		}
	}
	if len(c) == 0 {
		return v
	}
	return mkIte(mkAnd(c...), v, mkUF("conv:"+tkey(from)+":"+tkey(to), SInt, v))
}

func (x *Exec) builtin(st *State, fr *Frame, e *ast.CallExpr, name string) []*Term {
	info := x.p.info
	switch name {
	case "len", "cap":
		t := x.typ(fr, info.TypeOf(e.Args[0])).Underlying()
		v := x.deref(st, x.ev(st, fr, e.Args[0]))
		if v.sort == SStr {
			return []*Term{mkStrLen(v)}
		}
		if _, ok := t.(*types.Map); ok && v.op == OUF && v.name == "maplit" {
			return []*Term{mkInt(int64(len(v.args) / 2))}
		}
		if _, ok := t.(*types.Map); ok {
			return []*Term{mkSLen(entries(v))}
		}
		if name == "cap" {
			c := nonneg(freshSym("cap", SInt))
			st.assume(mkLeq(mkSLen(v), c))
			return []*Term{c}
		}
		return []*Term{mkSLen(v)}
	case "append":
		base := x.ev(st, fr, e.Args[0])
		st0 := x.typ(fr, info.TypeOf(e))
		if b, ok := info.TypeOf(e.Args[0]).(*types.Basic); ok && b.Kind() == types.UntypedNil {
			base = mkEmpty(sortOf(st0))
		}
		et := st0.Underlying().(*types.Slice).Elem()
		var add *Term
		if e.Ellipsis.IsValid() {
			v := x.ev(st, fr, e.Args[1])
			if v.sort == SStr {
				v = mkBytes(v)
			}
			add = x.shallow(st, v)
		} else {
			var us []*Term
			for _, a := range e.Args[1:] {
				us = append(us, mkUnit(x.evTo(st, fr, a, et)))
			}
			add = mkSCat(sortOf(st0), us...)
		}
		if st.dead {
			return []*Term{base}
		}
		if base.op == OUF && base.name == "view" && len(base.args) == 2 && !isEmptySeq(add) {
			return []*Term{x.appendOver(st, fr, e, base, add)}
		}
		return []*Term{x.doAppend(st, base, add, e.Pos())}
	case "make":
		t := x.typ(fr, info.TypeOf(e))
		if m, ok := t.Underlying().(*types.Map); ok && x.p.sets[e] && !isIface(m.Key()) {
			return []*Term{x.newRegion(st, mkEmpty(seqSort(sortOf(x.typ(fr, m.Key())))), true)}
		}
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			x.bad(e.Pos(), "make of %v", t)
		}
		n := mkInt(0)
		exact := true
		if len(e.Args) > 1 {
			n = x.deref(st, x.ev(st, fr, e.Args[1]))
		}
		x.panicIf(st, mkLt(n, mkInt(0)), false, "make with negative length", e.Pos())
		if len(e.Args) > 2 {
			c := x.deref(st, x.ev(st, fr, e.Args[2]))
			x.panicIf(st, mkLt(c, n), false, "make with capacity below length", e.Pos())
			exact = mkIntEq(c, n) == TTrue
		}
		return []*Term{x.newRegion(st, mkZeros(n, zeroOf(sl.Elem())), exact)}
	case "new":
		t := x.typ(fr, info.TypeOf(e.Args[0]))
		return []*Term{mkPtr(sortOf(types.NewPointer(t)), x.newCell(st, zeroOf(t)))}
	case "copy":
		dst := x.ev(st, fr, e.Args[0])
		src := x.deref(st, x.ev(st, fr, e.Args[1]))
		if dst.op == ORef {
			r := st.regs[int(dst.ival)]
			nd, ns := mkSLen(r.val), mkSLen(src)
			switch {
			case x.decide(st, mkIntEq(nd, ns)) == TTrue:
				r.val = src
			case x.decide(st, mkLeq(ns, nd)) == TTrue:
				r.val = mkSCat(src.sort, src, mkSDrop(r.val, ns))
			case x.decide(st, mkLeq(nd, ns)) == TTrue:
				r.val = mkSTake(src, nd)
			default:
				r.val = mkIte(mkLeq(ns, nd), mkSCat(src.sort, src, mkSDrop(r.val, ns)), mkSTake(src, nd))
			}
			st.regs[int(dst.ival)] = r
			return []*Term{mkIte(mkLeq(ns, nd), ns, nd)}
		}
		if dst.op == OUF && dst.name == "view" { // copy(x[k:], src) into own memory
			if se, ok := ast.Unparen(e.Args[0]).(*ast.SliceExpr); ok && se.High == nil && se.Low != nil {
				base := x.ev(st, fr, se.X)
				lo := x.deref(st, x.ev(st, fr, se.Low))
				if base.op == ORef {
					r := st.regs[int(base.ival)]
					nd, ns := mkSub(mkSLen(r.val), lo), mkSLen(src)
					if x.decide(st, mkLeq(ns, nd)) == TTrue {
						r.val = mkSCat(src.sort, mkSTake(r.val, lo), src, mkSDrop(r.val, mkAdd(lo, ns)))
						st.regs[int(base.ival)] = r
						return []*Term{ns}
					}
				}
			}
		}
		x.frameViolation(e.Pos(), "copy into a list that may be shared")
		x.bad(e.Pos(), "copy into shared list")
	case "panic":
		v := x.ev(st, fr, e.Args[0])
		_ = v
		x.panicIf(st, TTrue, true, "panic", e.Pos())
		return nil
	case "min", "max":
		a := x.ev(st, fr, e.Args[0])
		for _, b := range e.Args[1:] {
			y := x.ev(st, fr, b)
			c := mkLeq(a, y)
			if name == "max" {
				c = mkLeq(y, a)
			}
			a = mkIte(c, a, y)
		}
		return []*Term{a}
	}
	x.bad(e.Pos(), "builtin %s", name)
	return nil
}

// shallow is the element sequence of a list value, leaving references inside elements alone.
func (x *Exec) shallow(st *State, v *Term) *Term {
	for {
		switch {
		case v.op == ORef:
			v = st.regs[int(v.ival)].val
		case v.op == OUF && (v.name == "clip" || v.name == "view"):
			v = v.args[0]
		case v.op == OIte && v.ref:
			return mkIte(v.args[0], x.shallow(st, v.args[1]), x.shallow(st, v.args[2]))
		default:
			return v
		}
	}
}

// appendOver is append(s[:k], add...) with s a variable holding a list made by the code under proof: the
// elements of s from k on are overwritten where they exist.
func (x *Exec) appendOver(st *State, fr *Frame, e *ast.CallExpr, base, add *Term) *Term {
	if se, ok := ast.Unparen(e.Args[0]).(*ast.SliceExpr); ok && se.Low == nil && !se.Slice3 {
		if id, ok := ast.Unparen(se.X).(*ast.Ident); ok {
			if b := x.ev(st, fr, id); b.op == ORef {
				r := st.regs[int(b.ival)]
				k := mkSLen(base.args[0])
				end := mkAdd(k, mkSLen(add))
				if x.decide(st, mkLeq(end, mkSLen(r.val))) == TTrue {
					head := mkSCat(add.sort, base.args[0], add)
					r.val = mkSCat(add.sort, head, mkSDrop(r.val, end))
					r.spare = true
					st.regs[int(b.ival)] = r
					return raw(Term{op: OUF, sort: add.sort, name: "view", args: []*Term{head, mkInt(1)}})
				}
			}
		}
	}
	x.bad(e.Pos(), "reuse of list memory")
	return nil
}

func (x *Exec) doAppend(st *State, base, add *Term, pos token.Pos) *Term {
	if isEmptySeq(add) {
		return base
	}
	switch {
	case base.op == ORef:
		r := st.regs[int(base.ival)]
		if r.spare && !r.exact {
			x.frameViolation(pos, "second append to the same list may overwrite elements of the first")
		}
		if !r.exact {
			r.spare = true
			st.regs[int(base.ival)] = r
		}
		return x.newRegion(st, mkSCat(r.val.sort, r.val, add), false)
	case isEmptySeq(base):
		return x.newRegion(st, add, false)
	case base.op == OUF && base.name == "clip":
		v := x.shallow(st, base.args[0])
		return x.newRegion(st, mkSCat(v.sort, v, add), false)
	case base.op == OZeros && false:
	}
	v := x.shallow(st, base)
	x.frameViolation(pos, "append to a list that may share spare capacity with other values")
	return x.newRegion(st, mkSCat(v.sort, v, add), false)
}

func entries(m *Term) *Term {
	return mkUF("entries", seqSort(internSort(Sort{kind: KOpaque, name: "O<entry>"})), m)
}

var _ = constant.Bool
var _ = fmt.Sprint
