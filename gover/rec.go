package main

import (
	"go/ast"
	"go/types"
)

// callGraph lists the functions of the package (and of the contracts) a function calls directly.
// Calls through an interface are not edges: they are always modular.
func (p *Program) callGraph() map[*types.Func][]*types.Func {
	g := map[*types.Func][]*types.Func{}
	for fn, d := range p.decls {
		if d.Body == nil {
			continue
		}
		ast.Inspect(d.Body, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			if f, ok := p.info.Uses[id].(*types.Func); ok {
				f = f.Origin()
				if p.decls[f] != nil {
					g[fn] = append(g[fn], f)
				}
			}
			return true
		})
	}
	return g
}

// recursive finds the functions at which recursion is cut: in every cycle of the call graph the
// functions taking an interface value first, if there are any, else all of them.
func (p *Program) recursive() map[*types.Func]bool {
	g := p.callGraph()
	idx, low := map[*types.Func]int{}, map[*types.Func]int{}
	on := map[*types.Func]bool{}
	var stack []*types.Func
	n := 0
	res := map[*types.Func]bool{}
	var visit func(v *types.Func)
	visit = func(v *types.Func) {
		n++
		idx[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		self := false
		for _, w := range g[v] {
			if w == v {
				self = true
			}
			if idx[w] == 0 {
				visit(w)
				low[v] = min(low[v], low[w])
			} else if on[w] {
				low[v] = min(low[v], idx[w])
			}
		}
		if low[v] != idx[v] {
			return
		}
		var comp []*types.Func
		for {
			w := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[w] = false
			comp = append(comp, w)
			if w == v {
				break
			}
		}
		if len(comp) == 1 && !self {
			return
		}
		cut := 0
		for _, f := range comp {
			if ifaceFirst(f) {
				res[f] = true
				cut++
			}
		}
		if cut > 0 && !p.cyclic(comp, g, res) {
			return
		}
		for _, f := range comp {
			res[f] = true
		}
	}
	for fn := range p.decls {
		if idx[fn] == 0 {
			visit(fn)
		}
	}
	return res
}

// ifaceFirst: a function (not a method) taking an interface value first. Such functions are cut at
// every call in a cycle, other recursive functions only when they call themselves again.
func ifaceFirst(f *types.Func) bool {
	sig := f.Type().(*types.Signature)
	return sig.Recv() == nil && sig.Params().Len() > 0 && types.IsInterface(sig.Params().At(0).Type())
}

// cyclic tells whether a component still has a cycle after removing the cut functions.
func (p *Program) cyclic(comp []*types.Func, g map[*types.Func][]*types.Func, cut map[*types.Func]bool) bool {
	in := map[*types.Func]bool{}
	for _, f := range comp {
		in[f] = !cut[f]
	}
	state := map[*types.Func]int{}
	var dfs func(f *types.Func) bool
	dfs = func(f *types.Func) bool {
		state[f] = 1
		for _, w := range g[f] {
			if !in[w] {
				continue
			}
			if state[w] == 1 || state[w] == 0 && dfs(w) {
				return true
			}
		}
		state[f] = 2
		return false
	}
	for _, f := range comp {
		if in[f] && state[f] == 0 && dfs(f) {
			return true
		}
	}
	return false
}

// recFns: the function behind each symbol rec:F.
func (p *Program) recFns() map[string]*types.Func {
	m := map[string]*types.Func{}
	for fn := range p.decls {
		m["rec:"+funcName(fn)] = fn
	}
	return m
}
