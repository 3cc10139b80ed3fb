package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode"
)

// --- uninterpreted functions with rewriting -----------------------------------------------

func mkUF(name string, s *Sort, args ...*Term) *Term { return mkUFn(name, s, false, args...) }

// hooks set by the executor: behaviour of the real code on values of known dynamic type
var hookCond func(name string, t *Term, extra []*Term) *Term
var hookMeth func(name string, s *Sort, args []*Term) *Term
var hookRec func(name string, s *Sort, args []*Term) *Term

// libraryCond: condition types declared by the package, by value and by pointer
var condTypes []types.Type

func isLibType(t types.Type) (val bool, ptr bool) {
	if p, ok := t.(*types.Pointer); ok {
		_, q := isLibType(p.Elem())
		_ = q
		for _, c := range condTypes {
			if types.Identical(c, p.Elem()) {
				return false, true
			}
		}
		return false, false
	}
	for _, c := range condTypes {
		if types.Identical(c, t) {
			return true, false
		}
	}
	return false, false
}

func mkUFn(name string, s *Sort, nn bool, args ...*Term) *Term {
	switch name {
	case "errors.Is":
		if e := args[0]; e == args[1] || e.op == ONil || e.op == OIte || args[1].op == OIte || e.op == OUF && (e.name == "errnew" || e.name == "errjoin" || e.name == "errorf") {
			return errIs(e, args[1])
		}
	case "substr":
		return mkSubstr(args[0], args[1], args[2])
	case "bytes":
		return mkBytes(args[0])
	case "bytestr":
		return mkByteStr(args[0])
	case "clip", "view":
		return raw(Term{op: OUF, sort: s, name: name, args: args})
	case "jor!":
		t := args[0]
		switch t.op {
		case OStr:
			return mkBool(t.name == "OR")
		case OIte:
			if t.args[0].op == OUF && t.args[0].name == "jor!" && t.args[1] == mkStr("OR") {
				return t.args[0]
			}
			return mkIte(t.args[0], mkUF("jor!", SBool, t.args[1]), mkUF("jor!", SBool, t.args[2]))
		}
	case "holes":
		if args[0].op != OUF || args[0].name == "tmpl" {
			return mkHoles(args[0])
		}
	case "numbered":
		if args[0].op != OUF {
			return mkNumbered(args[0], args[1])
		}
	case "plain":
		if args[0].op != OUF {
			return mkPlain(args[0])
		}
	case "pointee":
		switch args[0].op {
		case OPtrTo:
			return args[0].args[0]
		case OIte:
			t := args[0]
			return mkIte(t.args[0], mkUFn(name, s, nn, t.args[1]), mkUFn(name, s, nn, t.args[2]))
		}
	case "meaning":
		if args[0].op == OIte || args[0].op == OUnit || isEmptySeq(args[0]) {
			return mkMeaning(args[0])
		}
	case "stringer":
		if args[0].op == OBox && hookMeth != nil {
			if r := hookMeth("meth:String", s, args); r != nil {
				return r
			}
		}
	case "vals", "tmpl", "isneg", "jOr", "withJoin", "withNeg", "evpos":
		t := args[0]
		if t.op == OIte {
			return mkIte(t.args[0], mkUFn(name, s, nn, append([]*Term{t.args[1]}, args[1:]...)...), mkUFn(name, s, nn, append([]*Term{t.args[2]}, args[1:]...)...))
		}
		if t.op == OBox && hookCond != nil {
			if r := hookCond(name, t, args[1:]); r != nil {
				return r
			}
		}
		if len(args) > 1 && args[1].op == OIte && (name == "withJoin" || name == "withNeg") {
			j := args[1]
			return mkIte(j.args[0], mkUFn(name, s, nn, t, j.args[1]), mkUFn(name, s, nn, t, j.args[2]))
		}
		if t.op == OUF && (t.name == "withJoin" || t.name == "withNeg") {
			in := t.args[0]
			switch name {
			case "vals", "tmpl", "evpos":
				return mkUFn(name, s, nn, in)
			case "isneg":
				if t.name == "withNeg" {
					return t.args[1]
				}
				return mkUFn(name, s, nn, in)
			case "jOr":
				if t.name == "withJoin" {
					return t.args[1]
				}
				return mkUFn(name, s, nn, in)
			case "withJoin":
				if t.name == "withJoin" {
					return mkUFn("withJoin", s, nn, in, args[1])
				}
			case "withNeg":
				if t.name == "withNeg" {
					return mkUFn("withNeg", s, nn, in, args[1])
				}
				// withNeg(withJoin(c,j),b) = withJoin(withNeg(c,b),j)
				return mkUFn("withJoin", s, nn, mkUFn("withNeg", s, nn, in, args[1]), t.args[1])
			}
		}
	default:
		if strings.HasPrefix(name, "meth:") {
			t := args[0]
			if t.op == OIte {
				return mkIte(t.args[0], mkUFn(name, s, nn, append([]*Term{t.args[1]}, args[1:]...)...), mkUFn(name, s, nn, append([]*Term{t.args[2]}, args[1:]...)...))
			}
			if t.op == OBox && hookMeth != nil {
				if r := hookMeth(name, s, args); r != nil {
					return r
				}
			}
		}
		if strings.HasPrefix(name, "rec:") && hookRec != nil && len(args) > 0 {
			t := args[0]
			if t.op == OIte {
				return mkIte(t.args[0], mkUFn(name, s, nn, append([]*Term{t.args[1]}, args[1:]...)...), mkUFn(name, s, nn, append([]*Term{t.args[2]}, args[1:]...)...))
			}
			if t.op == OBox || t.op == OMk || t.op == ONil {
				if r := hookRec(name, s, args); r != nil {
					return r
				}
			}
		}
		if strings.HasPrefix(name, "impl:") {
			t := args[0]
			if t.op == OIte {
				return mkIte(t.args[0], mkUFn(name, s, nn, t.args[1]), mkUFn(name, s, nn, t.args[2]))
			}
			if t.op == ONil {
				return TFalse
			}
			if t.op == OUF && t.name == "reflelem" && name == "impl:driver.Valuer" {
				return mkUF("elemsValuers", SBool, t.args[0])
			}
		}
		if r := foldString(name, s, args); r != nil {
			return r
		}
	}
	t := Term{op: OUF, sort: s, name: name, args: args}
	r := raw(t)
	if nn {
		r.nn = true
	}
	return r
}

func constStr(t *Term) (string, bool) {
	if t.op == OStr {
		return t.name, true
	}
	return "", false
}

func foldString(name string, s *Sort, args []*Term) *Term {
	if !strings.HasPrefix(name, "strings.") {
		return nil
	}
	var cs []string
	for _, a := range args {
		if c, ok := constStr(a); ok {
			cs = append(cs, c)
		} else if a.op == OIte {
			nargs := append([]*Term{}, args...)
			for i := range nargs {
				if nargs[i] == a {
					x, y := append([]*Term{}, args...), append([]*Term{}, args...)
					x[i], y[i] = a.args[1], a.args[2]
					return mkIte(a.args[0], mkUF(name, s, x...), mkUF(name, s, y...))
				}
			}
		}
	}
	seqOf := func(ss []string) *Term {
		var us []*Term
		for _, q := range ss {
			us = append(us, mkUnit(mkStr(q)))
		}
		return mkSCat(seqSort(SStr), us...)
	}
	if len(cs) == len(args) {
		switch name {
		case "strings.ToUpper":
			return mkStr(strings.ToUpper(cs[0]))
		case "strings.ToLower":
			return mkStr(strings.ToLower(cs[0]))
		case "strings.TrimSpace":
			return mkStr(strings.TrimSpace(cs[0]))
		case "strings.Contains":
			return mkBool(strings.Contains(cs[0], cs[1]))
		case "strings.HasPrefix":
			return mkBool(strings.HasPrefix(cs[0], cs[1]))
		case "strings.HasSuffix":
			return mkBool(strings.HasSuffix(cs[0], cs[1]))
		case "strings.EqualFold":
			return mkBool(strings.EqualFold(cs[0], cs[1]))
		case "strings.Count":
			return mkInt(int64(strings.Count(cs[0], cs[1])))
		case "strings.Index":
			return mkInt(int64(strings.Index(cs[0], cs[1])))
		case "strings.Fields":
			return seqOf(strings.Fields(cs[0]))
		case "strings.Split":
			return seqOf(strings.Split(cs[0], cs[1]))
		case "strings.TrimSuffix":
			return mkStr(strings.TrimSuffix(cs[0], cs[1]))
		case "strings.TrimPrefix":
			return mkStr(strings.TrimPrefix(cs[0], cs[1]))
		case "strings.cutBefore":
			b, _, _ := strings.Cut(cs[0], cs[1])
			return mkStr(b)
		case "strings.cutAfter":
			_, a, _ := strings.Cut(cs[0], cs[1])
			return mkStr(a)
		}
	}
	switch name {
	case "strings.EqualFold":
		if c, ok := constStr(args[0]); ok {
			return foldEq(args[1], c, equalFold)
		}
		if c, ok := constStr(args[1]); ok {
			return foldEq(args[0], c, equalFold)
		}
	case "strings.TrimSuffix":
		if c, ok := constStr(args[1]); ok && c != "" {
			return trimSuffix(args[0], c)
		}
	case "strings.TrimPrefix":
		if c, ok := constStr(args[1]); ok && c != "" {
			return trimPrefix(args[0], c)
		}
	case "strings.Fields":
		if a := args[0]; a.op == OUF && a.name == "strings.TrimSpace" {
			return mkUF(name, s, a.args[0])
		}
	}
	if name == "strings.Contains" || name == "strings.HasPrefix" || name == "strings.HasSuffix" {
		if args[1] == mkStr("") || args[0] == args[1] {
			return TTrue
		}
		if c, ok := constStr(args[1]); ok {
			cat := catArgs(args[0])
			if len(cat) > 0 {
				f, fok := constStr(cat[0])
				l, lok := constStr(cat[len(cat)-1])
				switch name {
				case "strings.HasPrefix":
					if fok && len(f) >= len(c) {
						return mkBool(strings.HasPrefix(f, c))
					}
				case "strings.HasSuffix":
					if lok && len(l) >= len(c) {
						return mkBool(strings.HasSuffix(l, c))
					}
				case "strings.Contains":
					for _, a := range cat {
						if v, ok := constStr(a); ok && strings.Contains(v, c) {
							return TTrue
						}
					}
					if len(c) == 1 && len(cat) > 1 {
						var ps []*Term
						for _, a := range cat {
							ps = append(ps, mkUF(name, SBool, a, args[1]))
						}
						return mkOr(ps...)
					}
				}
			}
		}
	}
	return nil
}

// trimSuffix is strings.TrimSuffix of a text built from parts whose end is known, trimPrefix of one
// whose start is known.
func trimSuffix(t *Term, c string) *Term {
	cat := catArgs(t)
	if len(cat) == 0 {
		return t
	}
	last := cat[len(cat)-1]
	if k, ok := constStr(last); ok && (len(k) >= len(c) || !strings.HasSuffix(c, k)) {
		return mkCat(append(append([]*Term{}, cat[:len(cat)-1]...), mkStr(strings.TrimSuffix(k, c)))...)
	}
	if last.op == OBig {
		if f, e := moveEnd(last, len(c)); f != nil {
			rest := mkCat(cat[:len(cat)-1]...)
			none := mkUF("strings.TrimSuffix", SStr, rest, mkStr(c))
			some := mkCat(rest, f)
			if e != c {
				some = t
			}
			return mkIte(mkEqZ(mkSLen(last.args[1])), none, some)
		}
	}
	return nil
}

func trimPrefix(t *Term, c string) *Term {
	cat := catArgs(t)
	if len(cat) == 0 {
		return t
	}
	if k, ok := constStr(cat[0]); ok && (len(k) >= len(c) || !strings.HasPrefix(c, k)) {
		return mkCat(append([]*Term{mkStr(strings.TrimPrefix(k, c))}, cat[1:]...)...)
	}
	if f := cat[0]; f.op == OBig && f.name == "str" {
		rest := mkCat(cat[1:]...)
		if b := catArgs(f.args[0]); len(b) > 0 {
			if k, ok := constStr(b[0]); ok && len(k) >= len(c) {
				some := t
				if strings.HasPrefix(k, c) {
					some = mkCat(trimStart(f, len(c)), rest)
				}
				return mkIte(mkEqZ(mkSLen(f.args[1])), mkUF("strings.TrimPrefix", SStr, rest, mkStr(c)), some)
			}
		}
	}
	return nil
}

func equalFold(r, c rune) bool { return strings.EqualFold(string(r), string(c)) }

// foldEq is s == c up to the letter case: s is one of the texts whose letters match those of c.
func foldEq(s *Term, c string, match func(r, c rune) bool) *Term {
	all := []string{""}
	for _, k := range c {
		if k >= 128 {
			return nil
		}
		var next []string
		for r := rune(1); r <= unicode.MaxRune; r++ {
			if match(r, k) {
				for _, p := range all {
					next = append(next, p+string(r))
				}
			}
			if r == 0x3000 { // no letter beyond folds to ASCII
				break
			}
		}
		if all = next; len(all) > 16 {
			return nil
		}
	}
	var or []*Term
	for _, p := range all {
		or = append(or, mkEq(s, mkStr(p)))
	}
	return mkOr(or...)
}

var caseMaps = map[string]func(r, c rune) bool{
	"strings.ToUpper": func(r, c rune) bool { return unicode.ToUpper(r) == c },
	"strings.ToLower": func(r, c rune) bool { return unicode.ToLower(r) == c },
}

func mkSubstr(b, lo, hi *Term) *Term {
	l, ok1 := isIntC(lo)
	h, ok2 := isIntC(hi)
	if c, ok := constStr(b); ok && ok1 && ok2 && l >= 0 && h >= l && int(h) <= len(c) {
		return mkStr(c[l:h])
	}
	if ok1 && l == 0 && hi == mkStrLen(b) {
		return b
	}
	// parts around the first separator
	if f := hi; ok1 && l == 0 && f.op == OUF && f.name == "strings.Index" && f.args[0] == b {
		return mkUF("strings.cutBefore", SStr, b, f.args[1])
	}
	if f := mkSub(lo, mkInt(1)); f.op == OUF && f.name == "strings.Index" && f.args[0] == b && hi == mkStrLen(b) {
		if c, _ := constStr(f.args[1]); len(c) == 1 {
			return mkIte(mkUF("strings.Contains", SBool, f.args...), mkUF("strings.cutAfter", SStr, f.args...), b)
		}
	}
	// s[len(prefix const):] of a concatenation
	cat := catArgs(b)
	if len(cat) > 1 && ok1 && hi == mkStrLen(b) {
		if f, ok := constStr(cat[0]); ok && int(l) <= len(f) && l >= 0 {
			return mkCat(append([]*Term{mkStr(f[l:])}, cat[1:]...)...)
		}
	}
	// everything but the last bytes, which are constant
	if n, ok := isIntC(mkSub(mkStrLen(b), hi)); ok && ok1 && l == 0 && n > 0 {
		if r, _ := trimEnd(b, int(n)); r != nil {
			return r
		}
	}
	// everything but the first bytes, which are constant
	if ok1 && l > 0 && hi == mkStrLen(b) {
		if r := trimStart(b, int(l)); r != nil {
			return r
		}
	}
	if b.op == OIte {
		c := b.args[0]
		part := func(b *Term, v bool) *Term {
			m := map[*Term]*Term{c: mkBool(v), mkNot(c): mkBool(!v)}
			return mkSubstr(b, subst(lo, m), subst(hi, m))
		}
		return mkIte(c, part(b.args[1], true), part(b.args[2], false))
	}
	return raw(Term{op: OUF, sort: SStr, name: "substr", args: []*Term{b, lo, hi}})
}

// trimEnd is t without its last n bytes, if they are a constant (returned, too); nil if unknown.
func trimEnd(t *Term, n int) (*Term, string) {
	switch t.op {
	case OStr:
		if len(t.name) >= n {
			return mkStr(t.name[:len(t.name)-n]), t.name[len(t.name)-n:]
		}
	case OIte:
		a, ca := trimEnd(t.args[1], n)
		b, cb := trimEnd(t.args[2], n)
		if a != nil && b != nil && ca == cb {
			return mkIte(t.args[0], a, b), ca
		}
	case OCat:
		last := t.args[len(t.args)-1]
		rest := t.args[:len(t.args)-1]
		if c, ok := constStr(last); ok && len(c) < n {
			r, d := trimEnd(mkCat(rest...), n-len(c))
			return r, d + c
		}
		if last.op == OBig && last.name == "str" {
			if f, c := moveEnd(last, n); f != nil {
				e, d := trimEnd(mkCat(rest...), n)
				if e != nil && d == c { // what comes after every part comes before every part, too
					b := last.args[0]
					dd, x := freshSym("d", last.args[1].sort), freshSym("x", last.args[1].sort.elem)
					r, _ := trimEnd(open(b, dd, x), n)
					return mkCat(e, mkBig("str", SStr, dd, x, mkCat(mkStr(c), r), last.args[1])), c
				}
				if e == nil {
					e = raw(Term{op: OUF, sort: SStr, name: "substr", args: []*Term{mkCat(rest...), mkInt(0), mkSub(mkStrLen(mkCat(rest...)), mkInt(int64(n)))}})
					d = c
				}
				if d == c {
					return mkIte(mkEqZ(mkSLen(last.args[1])), e, mkCat(append(append([]*Term{}, rest...), f)...)), c
				}
			}
			return nil, ""
		}
		if r, c := trimEnd(last, n); r != nil {
			return mkCat(append(append([]*Term{}, rest...), r)...), c
		}
	case OBig:
		if f, c := moveEnd(t, n); f != nil { // of an empty text nobody can take anything
			return f, c
		}
	}
	return nil, ""
}

// moveEnd: the parts b1 c, b2 c, ... without the last c, which is b1, c b2, ...
func moveEnd(t *Term, n int) (*Term, string) {
	if t.name != "str" {
		return nil, ""
	}
	d, x := freshSym("d", t.args[1].sort), freshSym("x", t.args[1].sort.elem)
	r, c := trimEnd(open(t.args[0], d, x), n)
	if r == nil || t.args[0].op == OBig {
		return nil, ""
	}
	return mkBig("str", SStr, d, x, mkCat(mkIte(mkEqZ(mkSLen(d)), mkStr(""), mkStr(c)), r), t.args[1]), c
}

// trimStart is t without its first n bytes, if every part of a repeated text has a constant there.
func trimStart(t *Term, n int) *Term {
	first := catArgs(t)
	if len(first) == 0 || first[0].op != OBig || first[0].name != "str" {
		return nil
	}
	f := first[0]
	d, x := freshSym("d", f.args[1].sort), freshSym("x", f.args[1].sort.elem)
	body := catArgs(open(f.args[0], d, x))
	if len(body) == 0 {
		return nil
	}
	c, ok := constStr(body[0])
	if !ok || len(c) < n {
		return nil
	}
	nb := mkCat(append([]*Term{mkIte(mkEqZ(mkSLen(d)), mkStr(c[n:]), mkStr(c))}, body[1:]...)...)
	r := mkBig("str", SStr, d, x, nb, f.args[1])
	if rest := mkCat(first[1:]...); rest != mkStr("") {
		none := raw(Term{op: OUF, sort: SStr, name: "substr", args: []*Term{rest, mkInt(int64(n)), mkStrLen(rest)}})
		if k, ok := constStr(rest); ok && len(k) >= n {
			none = mkStr(k[n:])
		}
		return mkIte(mkEqZ(mkSLen(f.args[1])), none, mkCat(r, rest))
	}
	return r
}

// --- texts as lists of bytes -------------------------------------------------------------------

var bytesSort = seqSort(SInt)

// mkBytes is the list of the bytes of a text, mkByteStr the text of a list of bytes.
func mkBytes(s *Term) *Term {
	switch s.op {
	case OStr:
		if s.name == "" {
			return mkEmpty(bytesSort)
		}
	case OCat:
		var ts []*Term
		for _, a := range s.args {
			ts = append(ts, mkBytes(a))
		}
		return mkSCat(bytesSort, ts...)
	case OIte:
		return mkIte(s.args[0], mkBytes(s.args[1]), mkBytes(s.args[2]))
	case OBig:
		if s.name == "str" {
			return mapBig(s, "seq", bytesSort, func(d, x, b *Term) *Term { return mkBytes(b) })
		}
	case OUF:
		if s.name == "bytestr" {
			return s.args[0]
		}
	}
	return raw(Term{op: OUF, sort: bytesSort, name: "bytes", args: []*Term{s}})
}

func mkByteStr(l *Term) *Term {
	switch l.op {
	case OSCat:
		var ts []*Term
		for _, a := range l.args {
			ts = append(ts, mkByteStr(a))
		}
		return mkCat(ts...)
	case OUnit:
		if v, ok := isIntC(l.args[0]); ok && v >= 0 && v < 256 {
			return mkStr(string([]byte{byte(v)}))
		}
		if e := l.args[0]; e.op == OIte {
			return mkIte(e.args[0], mkByteStr(mkUnit(e.args[1])), mkByteStr(mkUnit(e.args[2])))
		}
	case OIte:
		return mkIte(l.args[0], mkByteStr(l.args[1]), mkByteStr(l.args[2]))
	case OSTake:
		s := mkByteStr(l.args[0])
		if k, ok := isIntC(mkSub(mkSLen(l.args[0]), l.args[1])); ok { // the number of bytes left out
			return mkSubstr(s, mkInt(0), mkSub(mkStrLen(s), mkInt(k)))
		}
		return mkSubstr(s, mkInt(0), l.args[1])
	case OSDrop:
		s := mkByteStr(l.args[0])
		return mkSubstr(s, l.args[1], mkStrLen(s))
	case OBig:
		if l.name == "seq" {
			return mapBig(l, "str", SStr, func(d, x, b *Term) *Term { return mkByteStr(b) })
		}
	case OUF:
		if l.name == "bytes" {
			return l.args[0]
		}
		if isWrap(l) {
			return mkByteStr(l.args[0])
		}
	}
	return raw(Term{op: OUF, sort: SStr, name: "bytestr", args: []*Term{l}})
}

// appendText is the list of bytes with those of the text after it.
func (x *Exec) appendText(st *State, base, text *Term, pos token.Pos) *Term {
	if base.op == ONil {
		base = mkEmpty(bytesSort)
	}
	if base.op == OUF && base.name == "view" && len(base.args) == 2 {
		x.bad(pos, "reuse of list memory")
	}
	return x.doAppend(st, base, mkBytes(text), pos)
}

func isBytes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// --- ghost functions -----------------------------------------------------------------------

func (x *Exec) isGhost(fn *types.Func) bool {
	return strings.HasPrefix(fn.Name(), "gh") && fn.Pkg() != nil && fn.Pkg().Name() == "query" && x.p.decls[fn.Origin()] != nil && x.p.isContractPos(fn.Pos()) && ghostNames[fn.Name()]
}

var ghostNames = map[string]bool{"ghRequires": true, "ghEnsures": true, "ghTry": true, "ghPanics": true, "ghEq": true,
	"ghNumbered": true, "ghSameText": true, "ghImplies": true, "ghCover": true, "ghEv": true, "ghText": true, "ghSeq": true, "ghStrEq": true,
	"ghGroupTruth": true, "ghJoined": true, "ghPlainOf": true, "ghHasError": true, "ghTruth": true, "ghMeaning": true}

func (x *Exec) ghostCall(st *State, fr *Frame, e *ast.CallExpr, fn *types.Func) []*Term {
	arg := func(i int) *Term { return x.ev(st, fr, e.Args[i]) }
	x.ghostW++
	defer func() { x.ghostW-- }()
	switch fn.Name() {
	case "ghRequires":
		c := x.deref(st, arg(0))
		if c == TFalse {
			x.bad(e.Pos(), "precondition is false")
		}
		st.assume(c)
		return nil
	case "ghCover":
		return nil
	case "ghEnsures":
		nm, _ := constStr(arg(0))
		g := x.deref(st, arg(1))
		if st.dead {
			return nil
		}
		x.oblige(st, nm, "postcondition", e.Pos(), g)
		return nil
	case "ghImplies":
		a := x.deref(st, arg(0))
		switch x.decide(st, a) {
		case TFalse:
			return []*Term{TTrue}
		}
		s2 := st.clone()
		s2.assume(a)
		b := x.deref(s2, x.ev(s2, fr, e.Args[1]))
		return []*Term{mkImp(a, b)}
	case "ghTry", "ghPanics":
		x.ghostW--
		r := x.ghTry(st, fr, e, fn.Name() == "ghPanics")
		x.ghostW++
		return r
	case "ghEq":
		t0, t1 := x.typ(fr, x.p.info.TypeOf(e.Args[0])), x.typ(fr, x.p.info.TypeOf(e.Args[1]))
		a, b := x.deref(st, arg(0)), x.deref(st, arg(1))
		a, b = x.deepBox(a, t0), x.deepBox(b, t1)
		if a.sort != b.sort {
			a, b = x.convert(st, a, t0, types.NewInterfaceType(nil, nil)), x.convert(st, b, t1, types.NewInterfaceType(nil, nil))
		}
		return []*Term{mkEq(a, b)}
	case "ghStrEq":
		return []*Term{mkEq(x.deref(st, arg(0)), x.deref(st, arg(1)))}
	case "ghNumbered":
		text, n, k := x.deref(st, arg(0)), x.deref(st, arg(1)), x.deref(st, arg(2))
		t, ok := synth(text)
		if !ok {
			return []*Term{mkUF("placeholders-not-numbered", SBool, text, n, k)}
		}
		return []*Term{mkAnd(mkEq(mkNumbered(t, n), text), mkIntEq(mkHoles(t), k))}
	case "ghSameText":
		text, q := x.deref(st, arg(0)), x.deref(st, arg(1))
		t, ok := synth(text)
		if !ok {
			return []*Term{mkUF("placeholders-not-numbered", SBool, text, q)}
		}
		return []*Term{mkEq(mkPlain(t), q)}
	case "ghTruth":
		c := x.deref(st, arg(0))
		if c.sort != SAny {
			c = x.convert(st, c, x.typ(fr, x.p.info.TypeOf(e.Args[0])), types.NewInterfaceType(nil, nil))
		}
		return []*Term{mkTruth(c)}
	case "ghMeaning":
		return []*Term{mkMeaning(x.deref(st, arg(0)))}
	case "ghHasError":
		a := x.deref(st, arg(0))
		_ = a
		return []*Term{mkNot(mkEq(a, mkNil(SAny)))}
	}
	x.bad(e.Pos(), "ghost %s", fn.Name())
	return nil
}

// deepBox makes pointers comparable by content.
func (x *Exec) deepBox(t *Term, gt types.Type) *Term { return t }

func (x *Exec) ghTry(st *State, fr *Frame, e *ast.CallExpr, noVal bool) []*Term {
	f := x.ev(st, fr, e.Args[0])
	sig := x.typ(fr, x.p.info.TypeOf(e.Args[0])).Underlying().(*types.Signature)
	saved := x.panics
	var ps []*Panic
	x.panics = &ps
	n := len(st.pc)
	s1 := st.clone()
	v := x.callValue(s1, f, sig, nil, e.Pos())
	x.panics = saved
	x.tried = append(x.tried, ps...)
	var sts []*State
	var vals [][]*Term
	mk := func(v []*Term, p *Term) []*Term {
		if noVal {
			return []*Term{p}
		}
		return []*Term{v[0], p}
	}
	if !s1.dead {
		sts = append(sts, s1)
		vals = append(vals, mk(v, TFalse))
	}
	z := zeros(x, sig)
	for _, p := range ps {
		sts = append(sts, p.st)
		vals = append(vals, mk(z, TTrue))
	}
	if len(sts) == 0 {
		st.dead = true
		if noVal {
			return []*Term{TTrue}
		}
		return []*Term{z[0], TTrue}
	}
	m, mv := x.merge(n, sts, vals)
	*st = *m
	return mv
}

func (x *Exec) oblige(st *State, name, kind string, pos token.Pos, goal *Term) {
	if x.quiet > 0 {
		return
	}
	x.obls = append(x.obls, &Obligation{name: name, kind: kind, pos: x.p.pos(pos), fn: x.cur, pc: append([]*Term{}, st.pc...), goal: goal})
}

// synth finds the template of a numbered text: every "$<number>" is a hole whatever its number;
// the caller then checks that the template numbered from n is the text itself.
func synth(t *Term) (*Term, bool) {
	switch t.op {
	case OStr:
		return synthCat([]*Term{t})
	case OCat:
		return synthCat(t.args)
	case OIte:
		a, ok1 := synth(t.args[1])
		b, ok2 := synth(t.args[2])
		return mkIte(t.args[0], a, b), ok1 && ok2
	case OBig:
		ok := true
		r := mapBig(t, "tmpl", STmpl, func(d, x, b *Term) *Term {
			n, k := synth(b)
			ok = ok && k
			return n
		})
		return r, ok
	case OUF:
		if t.name == "numbered" {
			return t.args[0], true
		}
	}
	return mkTLit(t), true
}

func synthCat(args []*Term) (*Term, bool) {
	var out []*Term
	dollar := false
	for i := 0; i < len(args); i++ {
		a := args[i]
		if dollar {
			if a.op != OItoa {
				return nil, false
			}
			out = append(out, THole)
			dollar = false
			continue
		}
		if a.op == OItoa {
			out = append(out, mkTLit(a))
			continue
		}
		if c, ok := constStr(a); ok {
			for {
				j := strings.IndexByte(c, '$')
				if j < 0 {
					out = append(out, mkTLit(mkStr(c)))
					break
				}
				out = append(out, mkTLit(mkStr(c[:j])))
				c = c[j+1:]
				k := 0
				for k < len(c) && c[k] >= '0' && c[k] <= '9' {
					k++
				}
				if k > 0 {
					if k == len(c) && i+1 < len(args) && args[i+1].op == OItoa {
						return nil, false
					}
					out = append(out, THole)
					c = c[k:]
					continue
				}
				if c != "" {
					return nil, false
				}
				dollar = true
				break
			}
			continue
		}
		r, ok := synth(a)
		if !ok {
			return nil, false
		}
		out = append(out, r)
	}
	if dollar {
		return nil, false
	}
	return mkTCat(out...), true
}

// --- interface methods on values of unknown type: the contract of the interface --------------

func (x *Exec) ifaceContract(st *State, v *Term, fn *types.Func, args []*Term, pos token.Pos) []*Term {
	v = x.deref(st, v)
	sig := fn.Type().(*types.Signature)
	in := sig.Recv().Type()
	// interface methods promoted through embedded interfaces keep their own receiver: go by name
	for i, a := range args {
		args[i] = x.deref(st, a)
	}
	if tkey(in) == "error" || fn.Name() == "Error" && sig.Results().Len() == 1 {
		return []*Term{mkUF("errtext", SStr, v)}
	}
	if x.decide(st, mkEq(v, mkNil(SAny))) == TTrue {
		x.panicIf(st, TTrue, false, "method call on nil interface", pos)
		return zeros(x, sig)
	}
	if fn.Pkg() != nil && fn.Pkg().Path() == "reflect" {
		return x.library(st, fn, nil, v, args, pos)
	}
	switch fn.Name() {
	case "Value":
		x.assumed["driver.Valuer: conversions succeed (no error)"] = true
		return []*Term{mkUF("dbvalue", SAny, v), mkNil(SAny)}
	case "DatabaseValue":
		return []*Term{mkUF("provided", SAny, v)}
	case "String":
		return []*Term{mkUF("stringer", SStr, v)}
	case "Values":
		return []*Term{mkUF("vals", seqSort(SAny), v)}
	case "Render":
		return []*Term{mkNumbered(mkUF("tmpl", STmpl, v), args[0])}
	case "RenderSQL":
		return []*Term{mkPlain(mkUF("tmpl", STmpl, v))}
	case "JoinType":
		return []*Term{mkIte(mkUF("jOr", SBool, v), mkStr("OR"), mkStr("AND"))}
	case "RenderJoin":
		return []*Term{mkIte(args[0], mkStr(""), mkIte(mkUF("jOr", SBool, v), mkStr("OR"), mkStr("AND")))}
	case "IsNegate":
		return []*Term{mkUF("isneg", SBool, v)}
	case "RenderNegate":
		return []*Term{mkIte(mkUF("isneg", SBool, v), mkStr("NOT"), mkStr(""))}
	case "Join":
		x.assumed["interface contract Condition.Join: only the operator changes"] = true
		return []*Term{mkUF("withJoin", SAny, v, mkUF("jor!", SBool, args[0]))}
	case "Negate":
		return []*Term{mkUF("withNeg", SAny, v, args[0])}
	}
	x.assumed["interface method "+fn.Name()+" is deterministic and does not modify its receiver or arguments"] = true
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		nm := "meth:" + fn.Name()
		if i > 0 {
			nm += "#" + strconv.Itoa(i)
		}
		rs = append(rs, leaf(mkUF(nm, sortOf(sig.Results().At(i).Type()), append([]*Term{v}, args...)...), sig.Results().At(i).Type()))
	}
	return rs
}

// --- standard library ---------------------------------------------------------------------

func (x *Exec) library(st *State, fn *types.Func, ts map[*types.TypeParam]types.Type, recv *Term, args []*Term, pos token.Pos) []*Term {
	pkg := ""
	if fn.Pkg() != nil {
		pkg = fn.Pkg().Path()
	}
	sig := fn.Type().(*types.Signature)
	name := pkg + "." + fn.Name()
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		name = tkey(t) + "." + fn.Name()
	}
	raws := args
	args = make([]*Term, len(raws))
	for i, a := range raws {
		args[i] = x.deref(st, a)
	}
	one := func(t *Term) []*Term { return []*Term{t} }
	x.assumed["library: "+name] = true
	switch name {
	case "strconv.Itoa":
		return one(mkItoa(args[0]))
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := isIntC(args[1]); ok && b == 10 {
			return one(mkItoa(args[0]))
		}
		return one(mkUF(name, SStr, args...))
	case "strconv.AppendInt", "strconv.AppendUint":
		if b, ok := isIntC(args[2]); ok && b == 10 {
			return one(x.appendText(st, raws[0], mkItoa(args[1]), pos))
		}
	case "fmt.Appendf":
		return one(x.appendText(st, raws[0], x.sprintf(st, args[1], args[2], pos), pos))
	case "strings.Join":
		return one(joinTerm(args[0], args[1]))
	case "strings.Fields":
		r := mkUF("strings.Fields", seqSort(SStr), args[0])
		if r.op == OUF {
			x.axiomsAll(fieldsFacts(args[0]))
		}
		return one(r)
	case "strings.Split":
		r := mkUF("strings.Split", seqSort(SStr), args[0], args[1])
		x.assumeSplit(st, args[0], args[1])
		return one(r)
	case "strings.SplitN":
		if n, ok := isIntC(args[2]); ok && constSep(args[1]) && n != 0 && n <= 2 {
			s := seqSort(SStr)
			switch {
			case n < 0:
				x.assumeSplit(st, args[0], args[1])
				return one(mkUF("strings.Split", s, args[:2]...))
			case n == 1:
				return one(mkUnit(args[0]))
			default:
				has, b, a := x.cut(st, args[0], args[1])
				return one(mkIte(has, mkSCat(s, mkUnit(b), mkUnit(a)), mkUnit(args[0])))
			}
		}
		return one(mkUF("strings.SplitN", seqSort(SStr), args...))
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold", "strings.ContainsAny":
		if name == "strings.Contains" && len(args) == 2 {
			x.assumeSplit(st, args[0], args[1])
		}
		return one(mkUF(name, SBool, args...))
	case "strings.ContainsRune":
		if c, ok := isIntC(args[1]); ok && c >= 0 && c <= unicode.MaxRune && c != unicode.ReplacementChar {
			x.assumeSplit(st, args[0], mkStr(string(rune(c))))
			return one(mkUF("strings.Contains", SBool, args[0], mkStr(string(rune(c)))))
		}
	case "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.ReplaceAll", "strings.Repeat":
		if name == "strings.Repeat" {
			x.panicIf(st, mkLt(args[1], mkInt(0)), false, "strings.Repeat with a negative count", pos)
		}
		if name == "strings.Repeat" {
			return one(repeat(args[0], args[1]))
		}
		return one(mkUF(name, SStr, args...))
	case "strings.Count":
		x.assumeSplit(st, args[0], args[1])
		return one(nonneg(mkUF(name, SInt, args...)))
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte":
		sep := args[1]
		if c, ok := isIntC(sep); ok && c >= 0 && c < 128 {
			sep = mkStr(string(rune(c)))
		}
		if sep.sort == SStr && constSep(sep) {
			name = map[bool]string{false: "strings.Index", true: "strings.LastIndex"}[strings.HasPrefix(name, "strings.Last")]
			r := mkUF(name, SInt, args[0], sep)
			if r.op == OUF {
				x.axiomsAll(indexFacts(name, args[0], sep))
			}
			return one(r)
		}
		r := mkUF(name, SInt, args...)
		x.axiom(mkLeq(mkInt(-1), r))
		x.axiom(mkLeq(r, mkStrLen(args[0])))
		return one(r)
	case "strings.Cut":
		if constSep(args[1]) {
			has, b, a := x.cut(st, args[0], args[1])
			return []*Term{mkIte(has, b, args[0]), mkIte(has, a, mkStr("")), has}
		}
		has := mkUF("strings.Contains", SBool, args...)
		return []*Term{mkIte(has, mkUF("strings.cutBefore", SStr, args...), args[0]), mkIte(has, mkUF("strings.cutAfter", SStr, args...), mkStr("")), has}
	case "strings.IndexFunc", "strings.ContainsFunc":
		fnm := x.fnName(raws[1])
		r := mkUF("strings.IndexFunc", SInt, args[0], fnm)
		x.axiom(mkLeq(mkInt(-1), r))
		x.axiom(mkLt(r, mkAdd(mkStrLen(args[0]), mkInt(1))))
		if fnm == raws[1] { // a function of the caller: it is asked about every rune
			d, y := freshSym("d", seqSort(SInt)), freshSym("x", SInt)
			s2 := st.clone()
			fsig := substT(ts, sig.Params().At(1).Type()).Underlying().(*types.Signature)
			q := x.callValue(s2, raws[1], fsig, []*Term{y}, pos)
			has := mkBig("or", SBool, d, y, x.deref(s2, q[0]), runes(args[0]))
			if name == "strings.ContainsFunc" {
				return one(has)
			}
			x.axiom(mkIff(mkLeq(mkInt(0), r), has))
		}
		if name == "strings.ContainsFunc" {
			return one(mkLeq(mkInt(0), r))
		}
		return one(r)
	case "strings.Builder.WriteString", "strings.Builder.WriteByte", "strings.Builder.WriteRune", "strings.Builder.String", "strings.Builder.Len", "strings.Builder.Grow", "strings.Builder.Reset", "strings.Builder.Write":
		return x.builder(st, name[len("strings.Builder."):], recv, args, pos)
	case "bytes.Buffer.WriteString", "bytes.Buffer.WriteByte", "bytes.Buffer.WriteRune", "bytes.Buffer.String", "bytes.Buffer.Len", "bytes.Buffer.Grow", "bytes.Buffer.Reset", "bytes.Buffer.Write", "bytes.Buffer.Bytes", "bytes.Buffer.Truncate":
		return x.builder(st, name[len("bytes.Buffer."):], recv, args, pos)
	case "fmt.Fprintf", "fmt.Fprint", "io.WriteString":
		w := raws[0]
		if w.op == OBox && w.args[0].op == OPtr && isBuilder(w.args[0].sort.typ) {
			var t *Term
			switch name {
			case "fmt.Fprintf":
				t = x.sprintf(st, args[1], args[2], pos)
			case "fmt.Fprint":
				t = mkUF("sprint", SStr, args[1])
			default:
				t = args[1]
			}
			return x.builder(st, "WriteString", w.args[0], []*Term{t}, pos)
		}
	case "errors.New":
		return one(mkUF("errnew", SAny, args...))
	case "errors.Join":
		x.assumed["library: errors.Join"] = true
		d, y := freshSym("d", args[0].sort), freshSym("x", SAny)
		any := mkBig("or", SBool, d, y, mkNot(mkEq(y, mkNil(SAny))), args[0])
		return one(mkIte(any, mkUF("errjoin", SAny, args...), mkNil(SAny)))
	case "errors.Is":
		return one(errIs(args[0], args[1]))
	case "fmt.Errorf":
		as := append([]*Term{args[0]}, args[1])
		return one(mkUF("errorf", SAny, as...))
	case "fmt.Sprintf":
		return one(x.sprintf(st, args[0], args[1], pos))
	case "fmt.Sprint":
		return one(mkUF("sprint", SStr, args...))
	case "reflect.ValueOf":
		return one(mkUF("reflect.ValueOf", sortOf(sig.Results().At(0).Type()), args...))
	case "reflect.TypeOf":
		return one(mkUF("reflect.TypeOf", SAny, args...))
	case "reflect.DeepEqual":
		return one(mkEq(args[0], args[1]))
	case "reflect.Value.Kind":
		return one(x.reflKind(recvD(x, st, recv)))
	case "reflect.Value.Len":
		r := recvD(x, st, recv)
		x.reflNeeds(st, r, pos, "reflect.Value.Len", 17, 18, 21, 23, 24)
		return one(x.reflLen(r))
	case "reflect.Value.Type":
		r := recvD(x, st, recv)
		x.panicIf(st, mkIntEq(x.reflKind(r), mkInt(0)), false, "reflect.Value.Type of no value", pos)
		return one(mkUF("refl.Type", SAny, r))
	case "reflect.Value.Index":
		r := recvD(x, st, recv)
		x.reflNeeds(st, r, pos, "reflect.Value.Index", 17, 23, 24)
		n := x.reflLen(r)
		x.panicIf(st, mkNot(mkAnd(mkLeq(mkInt(0), args[0]), mkLt(args[0], n))), false, "reflect.Value.Index", pos)
		return one(mkUF("refl.Index", recv.sort, r, args[0]))
	case "reflect.Value.Interface":
		r := recvD(x, st, recv)
		if r.op == OUF && r.name == "refl.Index" && r.args[0].op == OUF && r.args[0].name == "reflect.ValueOf" {
			return one(mkUF("reflelem", SAny, r.args[0].args[0], r.args[1]))
		}
		if r.op == OUF && r.name == "reflect.ValueOf" {
			return one(r.args[0])
		}
		return one(mkUF("refl.Interface", SAny, r))
	case "reflect.Type.Elem":
		r := recvD(x, st, recv)
		if r.op == OUF && r.name == "refl.Type" {
			x.reflNeeds(st, r.args[0], pos, "reflect.Type.Elem", 17, 18, 21, 22, 23)
		}
		return one(mkUF("refl.Elem", SAny, r))
	case "reflect.Type.Kind":
		r := recvD(x, st, recv)
		if r.op == OUF && r.name == "refl.Type" {
			return one(x.reflKind(r.args[0]))
		}
		return one(nonneg(mkUF("refl.TypeKind", SInt, r)))
	case "reflect.Type.Implements":
		r := recvD(x, st, recv)
		if r.op == OUF && r.name == "refl.Elem" && r.args[0].op == OUF && (r.args[0].name == "refl.Type" || r.args[0].name == "reflect.TypeOf") && isValuerType(args[0]) {
			b := r.args[0].args[0]
			if r.args[0].name == "refl.Type" && b.op == OUF && b.name == "reflect.ValueOf" {
				b = b.args[0]
			} else if r.args[0].name == "refl.Type" {
				return one(mkUF("refl.Implements", SBool, r, args[0]))
			}
			x.assumed["slices whose element type implements driver.Valuer hold no nil interface elements"] = true
			if b.op == OBox {
				if sl, ok := b.typ.Underlying().(*types.Slice); ok {
					if it := x.valuerIface(); it != nil {
						return one(mkBool(types.Implements(sl.Elem(), it)))
					}
				}
			}
			return one(mkUF("elemsValuers", SBool, b))
		}
		return one(mkUF("refl.Implements", SBool, r, args[0]))
	case "unicode.IsSpace":
		return one(mkUF("unicode.IsSpace", SBool, args...))
	case "slices.Clone", "slices.Clip":
		if name == "slices.Clip" {
			return one(raw(Term{op: OUF, sort: raws[0].sort, name: "clip", args: []*Term{raws[0]}}))
		}
		if isEmptySeq(raws[0]) {
			return one(raws[0])
		}
		return one(x.newRegion(st, x.shallow(st, raws[0]), false))
	case "slices.Concat":
		v := x.shallow(st, raws[0])
		var parts []*Term
		for _, sgm := range segs(v) {
			if sgm.op != OUnit {
				x.bad(pos, "slices.Concat of unknown lists")
			}
			parts = append(parts, x.shallow(st, sgm.args[0]))
		}
		if len(parts) > 0 {
			return one(x.newRegion(st, mkSCat(parts[0].sort, parts...), true))
		}
	case "slices.Insert":
		n := mkSLen(args[0])
		x.panicIf(st, mkOr(mkLt(args[1], mkInt(0)), mkLt(n, args[1])), false, "slices.Insert out of range", pos)
		base := raws[0]
		if isEmptySeq(base) || base.op == ORef || base.op == OUF && base.name == "clip" {
			// elements of the old list may move in its own memory: nothing shared, but the old list is lost
			if base.op == ORef {
				r := st.regs[int(base.ival)]
				r.spare = true
				st.regs[int(base.ival)] = r
			}
			return one(x.newRegion(st, mkSCat(args[0].sort, mkSTake(args[0], args[1]), args[2], mkSDrop(args[0], args[1])), false))
		}
	case "slices.DeleteFunc":
		if base := raws[0]; base.op == ORef || isEmptySeq(base) { // a list of its own: the old one is lost
			if base.op == ORef {
				r := st.regs[int(base.ival)]
				r.spare = true
				r.val = freshSym("gone", r.val.sort)
				st.regs[int(base.ival)] = r
			}
			d, y := freshSym("d", args[0].sort), freshSym("x", args[0].sort.elem)
			s2 := st.clone()
			fsig := substT(ts, sig.Params().At(1).Type()).Underlying().(*types.Signature)
			q := x.callValue(s2, raws[1], fsig, []*Term{y}, pos)
			kept := mkBig("seq", args[0].sort, d, y, mkIte(x.deref(s2, q[0]), mkEmpty(args[0].sort), mkUnit(y)), args[0])
			return one(x.newRegion(st, kept, false))
		}
	case "slices.Index":
		d, y := freshSym("d", args[0].sort), freshSym("x", args[0].sort.elem)
		has := mkBig("or", SBool, d, y, mkEq(y, args[1]), args[0])
		return one(x.position(args[0], has, mkUF("slices.Index", SInt, args...)))
	case "slices.Contains":
		d, y := freshSym("d", args[0].sort), freshSym("x", args[0].sort.elem)
		return one(mkBig("or", SBool, d, y, mkEq(y, args[1]), args[0]))
	case "slices.ContainsFunc", "slices.IndexFunc":
		{
			d, y := freshSym("d", args[0].sort), freshSym("x", args[0].sort.elem)
			s2 := st.clone()
			fsig := substT(ts, sig.Params().At(1).Type()).Underlying().(*types.Signature)
			r := x.callValue(s2, raws[1], fsig, []*Term{y}, pos)
			test := x.deref(s2, r[0])
			has := mkBig("or", SBool, d, y, test, args[0])
			if name == "slices.ContainsFunc" {
				return one(has)
			}
			return one(x.position(args[0], has, mkSLen(mkFirst(OBefore, d, y, test, args[0]))))
		}
	}
	if pkg == "context" {
		return one(mkUF(name, SAny, args...))
	}
	x.bad(pos, "library function %s", name)
	return nil
}

// position is the index at of something in the list, -1 if there is no such thing.
func (x *Exec) position(list, has, at *Term) *Term {
	at.nn = true
	x.axiom(mkImp(has, mkLt(at, mkSLen(list))))
	return mkIte(has, at, mkInt(-1))
}

// meth is the result of a method called on a value behind an interface, once the type of the value is known.
func (x *Exec) meth(name string, s *Sort, args []*Term) (res *Term) {
	t := args[0]
	vt := t.typ
	if p, ok := vt.(*types.Pointer); ok {
		vt = p.Elem()
	}
	n, ok := vt.(*types.Named)
	if !ok || n.Obj().Pkg() != x.p.pkg || x.methDepth > 4 {
		return nil
	}
	for _, a := range args {
		if a.fv {
			return nil
		}
	}
	name, nth, _ := strings.Cut(strings.TrimPrefix(name, "meth:"), "#")
	obj, _, _ := types.LookupFieldOrMethod(t.typ, true, x.p.pkg, name)
	fn, ok := obj.(*types.Func)
	if !ok || x.p.decls[fn.Origin()] == nil {
		return nil
	}
	if _, ptr := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
		return nil
	}
	i, _ := strconv.Atoi(nth)
	x.methDepth++
	saved := x.panics
	var ps []*Panic
	x.panics = &ps
	defer func() {
		x.methDepth--
		x.panics = saved
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			res = nil
		}
	}()
	st := &State{cells: map[int]*Term{}, regs: map[int]Region{}, frozen: map[int]bool{}}
	rs := x.methodOn(st, t.typ, t.args[0], name, args[1:], fn.Pos())
	if len(ps) > 0 || st.dead || i >= len(rs) || rs[i] == nil {
		return nil
	}
	r := x.deref(st, rs[i])
	if r.sort != s {
		return nil
	}
	return r
}

// open-ended: a method called through an interface on a value whose type became known, but not its meaning.
func openCall(t *Term) (what string) {
	walk(t, func(u *Term) bool {
		if u.op == OUF && len(u.args) > 0 && u.args[0].op == OBox && strings.HasPrefix(u.name, "meth:") && what == "" {
			if n, ok := u.args[0].typ.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "query" {
				what = u.name
			} else if p, ok := u.args[0].typ.(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "query" {
					what = u.name
				}
			}
		}
		return what == ""
	})
	return
}

// runes is the list of the runes of a text, as a loop over it gives them.
func runes(s *Term) *Term {
	if c, ok := constStr(s); ok {
		var us []*Term
		for _, r := range c {
			us = append(us, mkUnit(mkInt(int64(r))))
		}
		return mkSCat(seqSort(SInt), us...)
	}
	if s.op == OIte {
		return mkIte(s.args[0], runes(s.args[1]), runes(s.args[2]))
	}
	return mkUF("runes", seqSort(SInt), s)
}

// overRunes says with the functions of package strings what a fold over the runes of a text finds.
func overRunes(kind string, x, body, s *Term) *Term {
	known := func(c int64) bool { // such a rune stands for itself, not for bytes that are no rune
		return c >= 0 && c <= unicode.MaxRune && c != unicode.ReplacementChar && !(c >= 0xd800 && c < 0xe000)
	}
	rune_ := func(c *Term) (*Term, bool) {
		if c.op != OLe && c.op != OEqZ {
			return nil, false
		}
		a, k, b, ok := atomOf(c.args[0])
		if !ok || c.op != OEqZ || a != x || k*k != 1 || !known(-b*k) {
			return nil, false
		}
		return mkStr(string(rune(-b * k))), true
	}
	switch kind {
	case "or":
		if c, ok := rune_(body); ok {
			return mkUF("strings.Contains", SBool, s, c)
		}
		if body.op == OUF && body.name == "unicode.IsSpace" && body.args[0] == x {
			return mkLeq(mkInt(0), mkUF("strings.IndexFunc", SInt, s, mkSym("fn:unicode.IsSpace", SFn)))
		}
	case "int":
		if body.op == OIte && body.args[1] == mkInt(1) && body.args[2] == mkInt(0) {
			if c, ok := rune_(body.args[0]); ok {
				return nonneg(mkUF("strings.Count", SInt, s, c))
			}
		}
	}
	return nil
}

func recvD(x *Exec, st *State, r *Term) *Term { return x.deref(st, r) }

func (x *Exec) fnName(f *Term) *Term {
	if f.op == OFnv {
		c := x.closures[f.ival]
		if c.fn != nil && c.rcv == nil {
			return mkSym("fn:"+funcName(c.fn), SFn)
		}
		if c.lit != nil { // func(r rune) bool { return unicode.IsSpace(r) }
			if len(c.lit.Body.List) == 1 {
				if r, ok := c.lit.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 {
					if call, ok := r.Results[0].(*ast.CallExpr); ok && len(call.Args) == 1 {
						if se, ok := call.Fun.(*ast.SelectorExpr); ok {
							if id, ok := call.Args[0].(*ast.Ident); ok && c.lit.Type.Params.List[0].Names[0].Name == id.Name {
								if fn, ok := x.p.info.Uses[se.Sel].(*types.Func); ok {
									return mkSym("fn:"+funcName(fn), SFn)
								}
							}
						}
					}
				}
			}
		}
	}
	return f
}

func constSep(t *Term) bool {
	c, ok := constStr(t)
	return ok && c != ""
}

// cut is whether s contains the separator, and what is before and after the first one.
func (x *Exec) cut(st *State, s, sep *Term) (has, before, after *Term) {
	has = mkUF("strings.Contains", SBool, s, sep)
	before = mkUF("strings.cutBefore", SStr, s, sep)
	after = mkUF("strings.cutAfter", SStr, s, sep)
	if before.op == OUF && after.op == OUF {
		x.axiomsAll(cutFacts(s, sep))
	}
	return
}

// assumeSplit states the relation between Split, Count and Contains for a non-empty separator.
func (x *Exec) assumeSplit(st *State, s, sep *Term) { x.axiomsAll(splitFacts(s, sep)) }

func (x *Exec) axiomsAll(fs []*Term) {
	for _, f := range fs {
		x.axiom(f)
	}
}

// fieldsFacts are facts about strings.Fields(s).
func fieldsFacts(s *Term) (fs []*Term) {
	r := mkUF("strings.Fields", seqSort(SStr), s)
	if r.op != OUF {
		return nil
	}
	for i := int64(0); i < 3; i++ {
		fs = append(fs, mkImp(mkLt(mkInt(i), mkSLen(r)), mkNot(mkEq(mkSAt(r, mkInt(i)), mkStr("")))))
	}
	idx := mkUF("strings.IndexFunc", SInt, s, mkSym("fn:unicode.IsSpace", SFn))
	return append(fs, mkImp(mkAnd(mkLt(idx, mkInt(0)), mkNot(mkEq(s, mkStr("")))), mkAnd(mkIntEq(mkSLen(r), mkInt(1)), mkEq(mkSAt(r, mkInt(0)), s))))
}

// splitFacts relate Split, Count, Contains, HasPrefix and HasSuffix.
func splitFacts(s, sep *Term) (fs []*Term) {
	if !constSep(sep) {
		return nil
	}
	if _, ok := constStr(s); ok {
		return nil
	}
	sp := mkUF("strings.Split", seqSort(SStr), s, sep)
	cnt := nonneg(mkUF("strings.Count", SInt, s, sep))
	fs = append(fs, mkLeq(mkInt(0), cnt))
	fs = append(fs, mkIntEq(mkSLen(sp), mkAdd(cnt, mkInt(1))))
	fs = append(fs, mkIff(mkUF("strings.Contains", SBool, s, sep), mkLeq(mkInt(1), cnt)))
	c, _ := constStr(sep)
	if strings.IndexFunc(c, unicode.IsSpace) >= 0 {
		fs = append(fs, mkImp(mkLeq(mkInt(1), cnt), mkLeq(mkInt(0), mkUF("strings.IndexFunc", SInt, s, mkSym("fn:unicode.IsSpace", SFn)))))
	}
	fs = append(fs, mkImp(mkIntEq(cnt, mkInt(0)), mkEq(mkSAt(sp, mkInt(0)), s)))
	for _, f := range []string{"strings.HasPrefix", "strings.HasSuffix"} {
		fs = append(fs, mkImp(mkUF(f, SBool, s, sep), mkLeq(mkInt(1), cnt)))
	}
	fs = append(fs, mkImp(mkLeq(mkInt(1), cnt), mkNot(mkEq(s, mkStr("")))))
	if len(c) == 1 {
		fs = append(fs, mkIff(mkUF("strings.HasPrefix", SBool, s, sep), mkAnd(mkLeq(mkInt(1), cnt), mkEq(mkSAt(sp, mkInt(0)), mkStr("")))))
		fs = append(fs, mkImp(mkIntEq(cnt, mkInt(1)), mkIff(mkUF("strings.HasSuffix", SBool, s, sep), mkEq(mkSAt(sp, mkInt(1)), mkStr("")))))
	}
	return fs
}

// cutFacts relate the parts before and after the first separator to Split and Count.
func cutFacts(s, sep *Term) []*Term {
	if !constSep(sep) {
		return nil
	}
	has := mkUF("strings.Contains", SBool, s, sep)
	before := mkUF("strings.cutBefore", SStr, s, sep)
	after := mkUF("strings.cutAfter", SStr, s, sep)
	if before.op != OUF || after.op != OUF {
		return nil
	}
	sp := mkUF("strings.Split", seqSort(SStr), s, sep)
	cnt := mkUF("strings.Count", SInt, s, sep)
	rest := mkUF("strings.Count", SInt, after, sep)
	fs := append(splitFacts(s, sep), splitFacts(after, sep)...)
	return append(fs,
		mkImp(has, mkEq(before, mkSAt(sp, mkInt(0)))),
		mkImp(mkIntEq(cnt, mkInt(1)), mkEq(after, mkSAt(sp, mkInt(1)))),
		mkImp(has, mkIntEq(rest, mkSub(cnt, mkInt(1)))))
}

// indexFacts relate the position of a separator to the other functions.
func indexFacts(name string, s, sep *Term) []*Term {
	r := mkUF(name, SInt, s, sep)
	if r.op != OUF || !constSep(sep) {
		return nil
	}
	first := mkUF("strings.Index", SInt, s, sep)
	cnt := mkUF("strings.Count", SInt, s, sep)
	has := mkUF("strings.Contains", SBool, s, sep)
	return append(cutFacts(s, sep),
		mkLeq(mkInt(-1), r),
		mkIff(mkLeq(mkInt(0), r), has),
		mkImp(has, mkLeq(mkAdd(r, mkStrLen(sep)), mkStrLen(s))),
		mkLeq(first, r),
		mkImp(mkIntEq(cnt, mkInt(1)), mkIntEq(r, first)),
		mkIff(mkUF("strings.HasPrefix", SBool, s, sep), mkIntEq(first, mkInt(0))))
}

// textFacts are the facts about functions of texts that occur in the terms.
func textFacts(ts []*Term) (fs []*Term) {
	type pair struct{ s, sep *Term }
	have := map[pair]map[string]bool{}
	var order []pair
	seen := map[*Term]bool{}
	for _, t := range ts {
		walkM(t, func(u *Term) bool {
			if u.op == OUF && !u.fv && strings.HasPrefix(u.name, "strings.") {
				switch {
				case u.name == "strings.Fields":
					fs = append(fs, fieldsFacts(u.args[0])...)
				case len(u.args) == 2 && constSep(u.args[1]):
					k := pair{u.args[0], u.args[1]}
					if have[k] == nil {
						have[k] = map[string]bool{}
						order = append(order, k)
					}
					have[k][u.name] = true
				}
			}
			return true
		}, seen)
	}
	for _, k := range order {
		m := have[k]
		switch {
		case m["strings.Index"] || m["strings.LastIndex"]:
			for _, n := range []string{"strings.Index", "strings.LastIndex"} {
				if m[n] {
					fs = append(fs, indexFacts(n, k.s, k.sep)...)
				}
			}
		case m["strings.cutBefore"] || m["strings.cutAfter"]:
			fs = append(fs, cutFacts(k.s, k.sep)...)
		default:
			fs = append(fs, splitFacts(k.s, k.sep)...)
		}
	}
	return fs
}

func joinTerm(list, sep *Term) *Term {
	d, y := freshSym("d", list.sort), freshSym("x", SStr)
	return mkBig("str", SStr, d, y, mkCat(mkIte(mkEqZ(mkSLen(d)), mkStr(""), sep), y), list)
}

func (x *Exec) builder(st *State, name string, p *Term, args []*Term, pos token.Pos) []*Term {
	if p.op != OPtr {
		x.bad(pos, "strings.Builder through unknown pointer")
	}
	c := int(p.ival)
	cur := st.cells[c]
	text := mkSel(cur, 0)
	set := func(t *Term) { st.cells[c] = raw(Term{op: OMk, sort: cur.sort, args: []*Term{t}}) }
	switch name {
	case "WriteString":
		set(mkCat(text, args[0]))
		return []*Term{mkStrLen(args[0]), mkNil(SAny)}
	case "Write":
		t := mkByteStr(args[0])
		set(mkCat(text, t))
		return []*Term{mkStrLen(t), mkNil(SAny)}
	case "Bytes": // shares the memory of the buffer: only good for reading at once
		return []*Term{mkBytes(text)}
	case "Truncate":
		n := mkStrLen(text)
		x.panicIf(st, mkOr(mkLt(args[0], mkInt(0)), mkLt(n, args[0])), false, "bytes.Buffer.Truncate out of range", pos)
		if x.decide(st, mkIntEq(args[0], n)) != TTrue {
			set(mkSubstr(text, mkInt(0), args[0]))
		}
	case "WriteByte", "WriteRune":
		v, ok := isIntC(args[0])
		switch {
		case name == "WriteByte":
			set(mkCat(text, mkByteStr(mkUnit(args[0]))))
		case ok:
			set(mkCat(text, mkStr(string(rune(v)))))
		default:
			set(mkCat(text, mkUF("runestr", SStr, args[0])))
			return []*Term{nonneg(freshSym("size", SInt)), mkNil(SAny)}
		}
		if name == "WriteRune" {
			return []*Term{mkInt(1), mkNil(SAny)}
		}
		return []*Term{mkNil(SAny)}
	case "String":
		return []*Term{text}
	case "Len":
		return []*Term{mkStrLen(text)}
	case "Reset":
		set(mkStr(""))
	}
	return nil
}

func (x *Exec) sprintf(st *State, f, args *Term, pos token.Pos) *Term {
	c, ok := constStr(f)
	if !ok {
		return mkUF("sprintf", SStr, f, args)
	}
	av := segs(args)
	for _, a := range av {
		if a.op != OUnit {
			return mkUF("sprintf", SStr, f, args)
		}
	}
	var out []*Term
	ai := 0
	for i := 0; i < len(c); i++ {
		if c[i] != '%' {
			j := i
			for j < len(c) && c[j] != '%' {
				j++
			}
			out = append(out, mkStr(c[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(c) {
			return mkUF("sprintf", SStr, f, args)
		}
		if c[i] == '%' {
			out = append(out, mkStr("%"))
			continue
		}
		if ai >= len(av) {
			return mkUF("sprintf", SStr, f, args)
		}
		a := av[ai].args[0]
		ai++
		if a.op != OBox {
			out = append(out, mkUF("format:"+string(c[i]), SStr, a))
			continue
		}
		if m, _, _ := types.LookupFieldOrMethod(a.typ, false, x.p.pkg, "String"); m != nil && (c[i] == 's' || c[i] == 'v') {
			if fn, ok := m.(*types.Func); ok {
				_ = fn
				out = append(out, x.methodOn(st, a.typ, a.args[0], "String", nil, pos)[0])
				continue
			}
		}
		if m, _, _ := types.LookupFieldOrMethod(a.typ, false, x.p.pkg, "Error"); m != nil {
			out = append(out, mkUF("format:"+string(c[i]), SStr, a))
			continue
		}
		v := a.args[0]
		switch {
		case v.sort == SStr && (c[i] == 's' || c[i] == 'v'):
			out = append(out, v)
		case v.sort == SInt && (c[i] == 'd' || c[i] == 'v'):
			out = append(out, mkItoa(v))
		default:
			out = append(out, mkUF("format:"+string(c[i]), SStr, a))
		}
	}
	if ai != len(av) {
		return mkUF("sprintf", SStr, f, args)
	}
	return mkCat(out...)
}

// errIs is errors.Is for errors made by fmt.Errorf, errors.Join and errors.New.
func errIs(e, target *Term) *Term {
	if e == target {
		return TTrue
	}
	switch {
	case e.op == ONil:
		return mkEq(e, target)
	case e.op == OIte:
		return mkIte(e.args[0], errIs(e.args[1], target), errIs(e.args[2], target))
	case target.op == OIte:
		return mkIte(target.args[0], errIs(e, target.args[1]), errIs(e, target.args[2]))
	case e.op == OSym && target.op == OSym && strings.HasPrefix(e.name, "glob.") && strings.HasPrefix(target.name, "glob."):
		return mkBool(e == target)
	case e.op == OUF && e.name == "errnew":
		return TFalse
	case e.op == OUF && e.name == "errjoin":
		d, y := freshSym("d", e.args[0].sort), freshSym("x", SAny)
		return mkBig("or", SBool, d, y, errIs(y, target), e.args[0])
	case e.op == OUF && e.name == "errorf":
		f, ok := constStr(e.args[0])
		as := segs(e.args[1])
		if ok {
			r := TFalse
			ai := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if i >= len(f) || f[i] == '%' {
					continue
				}
				if ai < len(as) && as[ai].op == OUnit {
					if f[i] == 'w' {
						r = mkOr(r, errIs(as[ai].args[0], target))
					}
				} else {
					return raw(Term{op: OUF, sort: SBool, name: "errors.Is", args: []*Term{e, target}})
				}
				ai++
			}
			return r
		}
	}
	return raw(Term{op: OUF, sort: SBool, name: "errors.Is", args: []*Term{e, target}})
}

// axiom records a fact about library functions that holds whatever the path.
func (x *Exec) axiom(t *Term) {
	if t == TTrue {
		return
	}
	for _, f := range flatAnd(t) {
		if !x.axiomSet[f] {
			x.axiomSet[f] = true
			x.axioms = append(x.axioms, f)
		}
	}
}

// --- reflection on values ------------------------------------------------------------------

var kindOf = map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7,
	types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.String: 24}

func (x *Exec) reflKind(r *Term) *Term {
	if r.op == OUF && r.name == "reflect.ValueOf" {
		v := r.args[0]
		switch v.op {
		case ONil:
			return mkInt(0)
		case OIte:
			return mkIte(v.args[0], x.reflKind(mkUF("reflect.ValueOf", r.sort, v.args[1])), x.reflKind(mkUF("reflect.ValueOf", r.sort, v.args[2])))
		case OBox:
			switch u := v.typ.Underlying().(type) {
			case *types.Basic:
				if k, ok := kindOf[u.Kind()]; ok {
					return mkInt(k)
				}
			case *types.Slice:
				return mkInt(23)
			case *types.Array:
				return mkInt(17)
			case *types.Map:
				return mkInt(21)
			case *types.Pointer:
				return mkInt(22)
			case *types.Struct:
				return mkInt(25)
			case *types.Signature:
				return mkInt(19)
			case *types.Chan:
				return mkInt(18)
			}
		}
		k := nonneg(mkUF("refl.Kind", SInt, r))
		x.axiom(mkIff(mkIntEq(k, mkInt(0)), mkEq(v, mkNil(SAny))))
		return k
	}
	return nonneg(mkUF("refl.Kind", SInt, r))
}

func (x *Exec) reflLen(r *Term) *Term {
	if r.op == OUF && r.name == "reflect.ValueOf" && r.args[0].op == OBox && r.args[0].args[0].sort.kind == KSeq {
		return mkSLen(r.args[0].args[0])
	}
	return nonneg(mkUF("refl.Len", SInt, r))
}

func (x *Exec) reflNeeds(st *State, r *Term, pos token.Pos, what string, kinds ...int64) {
	k := x.reflKind(r)
	ok := TFalse
	for _, n := range kinds {
		ok = mkOr(ok, mkIntEq(k, mkInt(n)))
	}
	x.panicIf(st, mkNot(ok), false, what+" on another kind of value", pos)
}

// isValuerType recognises reflect.TypeOf((*driver.Valuer)(nil)).Elem().
func isValuerType(t *Term) bool {
	if t.op != OUF || t.name != "refl.Elem" || t.args[0].op != OUF || t.args[0].name != "reflect.TypeOf" {
		return false
	}
	b := t.args[0].args[0]
	if b.op != OBox {
		return false
	}
	p, ok := b.typ.(*types.Pointer)
	return ok && tkey(p.Elem()) == "driver.Valuer"
}

func (x *Exec) valuerIface() *types.Interface {
	for _, i := range x.p.pkg.Imports() {
		if i.Path() == "database/sql/driver" {
			if o := i.Scope().Lookup("Valuer"); o != nil {
				it, _ := o.Type().Underlying().(*types.Interface)
				return it
			}
		}
	}
	return nil
}

// repeat is a text n times over, as a fold over a list of this length.
func repeat(s, n *Term) *Term {
	if c, ok := isIntC(n); ok && c <= 16 {
		r := mkStr("")
		for ; c > 0; c-- {
			r = mkCat(r, s)
		}
		return r
	}
	if n.op == OIte {
		return mkIte(n.args[0], repeat(s, n.args[1]), repeat(s, n.args[2]))
	}
	S := mkUF("iota", seqSort(SInt), n)
	if n.op == OSLen {
		S = n.args[0]
	} else if n.op == OLin && len(n.args) == 1 && n.args[0].op == OSLen && n.coefs[0] == 1 && n.ival < 0 {
		S = mkSDrop(n.args[0].args[0], mkInt(-n.ival)) // of a list not shorter
	}
	return mkBig("str", SStr, freshSym("d", S.sort), freshSym("x", S.sort.elem), s, S)
}
