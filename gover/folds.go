package main

import (
	"strconv"
	"strings"
	"time"
)

// normFolds simplifies the bodies of folds over lists about whose elements something is known to
// hold throughout: conditions which that decides for every element disappear from the body.
func (p *Prover) normFolds(facts []*Term, goal *Term) ([]*Term, *Term, bool) {
	univ := map[*Term][]*Term{}
	own := map[*Term]bool{}
	for _, f := range facts {
		if f.op == ONot && f.args[0].op == OBig && f.args[0].name == "or" && !f.args[0].fv {
			b := f.args[0]
			univ[b.args[1]] = append(univ[b.args[1]], b)
			own[b] = true
		}
	}
	var bigs []*Term
	seen := map[*Term]bool{}
	visit := func(u *Term) bool {
		if u.op == OBig && !u.fv && !own[u] && (univ[u.args[1]] != nil || u.name == "or") {
			bigs = append(bigs, u)
		}
		return true
	}
	walkM(goal, visit, seen)
	for _, f := range facts {
		walkM(f, visit, seen)
	}
	m := map[*Term]*Term{}
	for _, b := range bigs {
		if r := p.normFold(b, univ[b.args[1]]); r != b {
			m[b] = r
		}
	}
	if len(m) == 0 {
		return facts, goal, false
	}
	out := make([]*Term, len(facts))
	for i, f := range facts {
		out[i] = f
		if !(f.op == ONot && own[f.args[0]]) {
			out[i] = subst(f, m)
		}
	}
	return out, subst(goal, m), true
}

func (p *Prover) normFold(b *Term, univ []*Term) *Term {
	var k strings.Builder
	k.WriteString(strconv.Itoa(int(b.id)))
	for _, u := range univ {
		k.WriteString(" ")
		k.WriteString(strconv.Itoa(int(u.id)))
	}
	key := k.String()
	if r, ok := p.normed[key]; ok {
		return r
	}
	seq := b.args[1]
	d, y := freshSym("d", seq.sort), freshSym("x", seq.sort.elem)
	fs := []*Term{mkLt(mkSLen(d), mkSLen(seq))}
	for _, u := range univ {
		fs = append(fs, mkNot(open(u.args[0], d, y)), mkNot(mkBigRaw("or", SBool, u.args[0], d)))
	}
	fs, _, ok := p.simplify(fs, TFalse)
	r := b
	if ok && b.name == "or" && p.smt(p.z3, false, fs, mkNot(open(b.args[0], d, y)), 3*time.Second) == "unsat" {
		r = TFalse
	} else if ok && len(univ) > 0 {
		body := open(b.args[0], d, y)
		if nb := p.underFacts(fs, subst(body, factMap(fs)), map[*Term]*Term{}); nb != body {
			r = mkBig(b.name, b.sort, d, y, nb, seq)
		}
	}
	if p.normed == nil {
		p.normed = map[string]*Term{}
	}
	p.normed[key] = r
	return r
}

// underFacts removes conditions decided by the facts.
func (p *Prover) underFacts(fs []*Term, t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch {
	case t.op == OIte:
		switch p.decide(fs, t.args[0]) {
		case TTrue:
			r = p.underFacts(fs, t.args[1], memo)
		case TFalse:
			r = p.underFacts(fs, t.args[2], memo)
		default:
			r = mkIte(t.args[0], p.underFacts(fs, t.args[1], memo), p.underFacts(fs, t.args[2], memo))
		}
	case t.sort == SBool && (t.op == OAnd || t.op == OOr || t.op == ONot):
		if c := p.decide(fs, t); c.op == OBool {
			r = c
			break
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = p.underFacts(fs, a, memo)
		}
		switch t.op {
		case OAnd:
			r = mkAnd(args...)
		case OOr:
			r = mkOr(args...)
		default:
			r = mkNot(args[0])
		}
	case t.sort == SBool && t.op != OBig && t.op != OSym:
		if c := p.decide(fs, t); c.op == OBool {
			r = c
		}
	case t.op == OUnit || t.op == OSCat || t.op == OUF:
		m := map[*Term]*Term{}
		for _, a := range t.args {
			if n := p.underFacts(fs, a, memo); n != a {
				m[a] = n
			}
		}
		if len(m) > 0 {
			r = subst(t, m)
		}
	}
	memo[t] = r
	return r
}
