package query

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// Reflective checks over every exported function and method of the package.

func init() {
	ghSweeps["C05_sweep"] = ghSweepShared
	ghSweeps["C24_sweep"] = ghSweepPanics
}

type ghCallee struct {
	name string
	fn   reflect.Value // function or bound method
	recv []reflect.Value
}

var ghFuncNames []string

func ghAllFuncs() []string {
	if ghFuncNames == nil {
		for n := range ghFuncs {
			ghFuncNames = append(ghFuncNames, n)
		}
		sort.Strings(ghFuncNames)
	}
	return ghFuncNames
}

func ghConcrete(v reflect.Value) reflect.Value {
	for v.IsValid() && v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	return v
}

// ghOwn tells whether a type is declared by the package under test.
func ghOwn(t reflect.Type) bool {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	for _, u := range ghTypes {
		if t == u {
			return true
		}
	}
	return false
}

func ghMethods(v reflect.Value) []ghCallee {
	var r []ghCallee
	v = ghConcrete(v)
	if !v.IsValid() || !ghOwn(v.Type()) || v.Kind() == reflect.Pointer && v.IsNil() {
		return nil
	}
	for i := 0; i < v.NumMethod(); i++ {
		m := v.Type().Method(i)
		r = append(r, ghCallee{v.Type().String() + "." + m.Name, v.Method(i), []reflect.Value{v}})
	}
	return r
}

// --- C24 -----------------------------------------------------------------------------------

// ghTexts collects the texts of a value that could be names.
func ghTexts(v reflect.Value, anyToo bool, depth int, add func(string)) {
	if !v.IsValid() || depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.String:
		add(v.String())
	case reflect.Interface:
		if v.NumMethod() > 0 || anyToo {
			ghTexts(v.Elem(), anyToo, depth+1, add)
		}
	case reflect.Pointer:
		ghTexts(v.Elem(), anyToo, depth+1, add)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ghTexts(v.Field(i), anyToo, depth+1, add)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			ghTexts(v.Index(i), anyToo, depth+1, add)
		}
	}
}

// ghMayRefuse tells whether a call is given malformed text or arguments that may be refused.
func ghMayRefuse(name string, vals []reflect.Value) (may bool) {
	defer func() {
		if recover() != nil {
			may = true
		}
	}()
	for _, v := range vals {
		ghTexts(v, name == "NewFields", 0, func(s string) {
			if _, err := FieldOrError(s); err != nil {
				may = true
			}
			if _, err := TableOrError(s); err != nil {
				may = true
			}
			if FieldName(s).Validate() != nil {
				may = true
			}
		})
		if name == "OrderBy" && v.Kind() == reflect.Slice {
			may = may || v.Len() > 0 // a direction given: C17 says which are refused
		}
		if name == "NewFields" && v.Kind() == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				e := ghConcrete(v.Index(i))
				if !e.IsValid() {
					may = true
					continue
				}
				switch e.Interface().(type) {
				case string, FieldName, FieldDefinition:
				default:
					may = true
				}
			}
		}
	}
	return may
}

func ghSweepPanics(seed int64, size int) (fails []ghRepFailure) {
	g := newGen(seed, size)
	var callees []ghCallee
	for _, n := range ghAllFuncs() {
		callees = append(callees, ghCallee{n, reflect.ValueOf(ghFuncs[n]), nil})
	}
	for _, t := range ghTypes {
		if t.Kind() == reflect.Interface {
			continue
		}
		for k := 0; k < 2; k++ {
			v, ok := ghMake(g, t)
			if !ok {
				continue
			}
			for _, m := range ghMethods(v) {
				n := 1
				if m.fn.Type().NumIn() > 0 {
					n = 3
				}
				for ; n > 0; n-- {
					callees = append(callees, ghCallee{m.name, m.fn, []reflect.Value{v}})
				}
			}
		}
	}
	for k := 0; k < len(callees); k++ {
		c := callees[k]
		ft := c.fn.Type()
		var in []reflect.Value
		ok := true
		for i := 0; i < ft.NumIn() && ok; i++ {
			var v reflect.Value
			v, ok = ghMake(g, ft.In(i))
			in = append(in, v)
		}
		if !ok {
			continue
		}
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				_, rt := r.(runtime.Error)
				if !rt && ghMayRefuse(c.name, append(append([]reflect.Value{}, in...), c.recv...)) {
					return
				}
				var args []string
				for _, v := range in {
					args = append(args, ghShow(v))
				}
				fails = append(fails, ghRepFailure{Contract: "C24_sweep", Ensures: "no panic in " + c.name, Args: args, Detail: fmt.Sprintf("panic: %v\n%s", r, ghTrim(string(debug.Stack())))})
			}()
			if ft.IsVariadic() {
				c.fn.CallSlice(in)
			} else {
				c.fn.Call(in)
			}
		}()
	}
	return fails
}

// --- C05 -----------------------------------------------------------------------------------

// ghDump is the full content of a value.
func ghDump(v reflect.Value) string {
	var b strings.Builder
	ghDumpTo(&b, v, 0)
	return b.String()
}

func ghDumpTo(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("nil;")
		return
	}
	if depth > 30 || b.Len() > 60000 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			b.WriteString(v.Elem().Type().String() + ":")
		}
		ghDumpTo(b, v.Elem(), depth+1)
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		ghDumpTo(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			ghDumpTo(b, v.Field(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			ghDumpTo(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			es = append(es, ghDump(k)+"="+ghDump(v.MapIndex(k)))
		}
		sort.Strings(es)
		b.WriteString("map[" + strings.Join(es, ",") + "]")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(b, "%v;", v.IsNil())
	case reflect.String:
		fmt.Fprintf(b, "%q;", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d;", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d;", v.Uint())
	case reflect.Bool:
		fmt.Fprintf(b, "%v;", v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v;", v.Float())
	default:
		b.WriteString("?;")
	}
}

// ghObserve is what a value renders and returns: the results of its methods without arguments and
// of rendering.
func ghObserve(v reflect.Value) string {
	c := ghConcrete(v)
	if !c.IsValid() || !ghOwn(c.Type()) || c.Kind() == reflect.Map {
		return ghDump(v)
	}
	var b strings.Builder
	if c.Kind() != reflect.Struct && c.Kind() != reflect.Pointer {
		b.WriteString(ghDump(v))
	}
	for _, m := range ghMethods(c) {
		ft := m.fn.Type()
		var ins [][]reflect.Value
		switch {
		case ft.NumIn() == 0 || ft.NumIn() == 1 && ft.IsVariadic():
			ins = [][]reflect.Value{nil}
		case ft.NumIn() == 1 && ft.In(0).Kind() == reflect.Int:
			ins = [][]reflect.Value{{reflect.ValueOf(1)}, {reflect.ValueOf(7)}}
		case ft.NumIn() == 1 && ft.In(0).Kind() == reflect.Bool:
			ins = [][]reflect.Value{{reflect.ValueOf(true)}, {reflect.ValueOf(false)}}
		}
		for _, in := range ins {
			b.WriteString(m.name + "=")
			func() {
				defer func() {
					if recover() != nil {
						b.WriteString("panic")
					}
				}()
				for _, o := range m.fn.Call(in) {
					b.WriteString(ghDump(o))
				}
			}()
			b.WriteString("\n")
		}
	}
	return b.String()
}

type ghKept struct {
	v         reflect.Value
	dump, obs string
	from      string
	stale     bool
}

// ghSweepShared runs a history of calls on a pool of values and looks at all values after each.
func ghSweepShared(seed int64, size int) (fails []ghRepFailure) {
	g := newGen(seed, size)
	r := rand.New(rand.NewSource(seed ^ 0x5eed))
	var pool []*ghKept
	var history []string
	keep := func(v reflect.Value, from string) *ghKept {
		if !v.IsValid() {
			return nil
		}
		switch v.Kind() {
		case reflect.Bool, reflect.String, reflect.Int, reflect.Uint:
			if !ghOwn(v.Type()) {
				return nil
			}
		case reflect.Interface, reflect.Pointer:
			if v.IsNil() {
				return nil
			}
		}
		k := &ghKept{v: v, dump: ghDump(v), obs: ghObserve(v), from: from}
		pool = append(pool, k)
		return k
	}
	reported := map[string]bool{}
	check := func(what, op string) {
		for _, k := range pool {
			if k.stale {
				continue
			}
			if d := ghDump(k.v); d != k.dump || r.Intn(8) == 0 { // now and then also without a visible change
				if o := ghObserve(k.v); o != k.obs {
					name := what + " " + op
					if !reported[name] {
						reported[name] = true
						fails = append(fails, ghRepFailure{Contract: "C05_sweep", Ensures: name, Args: append(append([]string{}, history...), "value from "+k.from), Detail: "before: " + ghTrim(k.dump) + "\nafter:  " + ghTrim(d) + "\nresults before: " + ghTrim(k.obs) + "\nresults after:  " + ghTrim(o)})
					}
					k.stale = true
				}
				k.dump = d
			}
		}
	}
	for i := 0; i < 3; i++ {
		t := ghTypes[r.Intn(len(ghTypes))]
		if t.Kind() == reflect.Interface {
			continue
		}
		if v, ok := ghMake(g, t); ok {
			keep(v, "generated "+t.String())
		}
	}
	roomy := func(s reflect.Value) reflect.Value { // a list of the caller with room to grow
		if s.Kind() != reflect.Slice {
			return s
		}
		c := reflect.MakeSlice(s.Type(), s.Len(), s.Len()+r.Intn(4))
		reflect.Copy(c, s)
		return c
	}
	spoil := func(s reflect.Value) bool { // the caller changes its list
		done := false
		full := s.Slice(0, s.Cap())
		for i := 0; i < full.Len(); i++ {
			if e, ok := ghMake(g, s.Type().Elem()); ok {
				full.Index(i).Set(e)
				done = true
			}
		}
		return done
	}
	var last *ghKept
	lastM := -1
	for step := 0; step < 6+2*size; step++ {
		var c ghCallee
		var recv *ghKept
		if len(pool) > 0 && r.Intn(5) > 0 {
			recv = pool[r.Intn(len(pool))]
			mi := -1
			if last != nil && r.Intn(2) == 0 {
				recv, mi = last, lastM
				if r.Intn(2) == 0 {
					mi = -1
				}
			}
			if recv.stale {
				continue
			}
			ms := ghMethods(recv.v)
			if len(ms) == 0 {
				continue
			}
			if mi < 0 {
				mi = r.Intn(len(ms))
			}
			c = ms[mi]
			last, lastM = recv, mi
		} else {
			n := ghAllFuncs()[r.Intn(len(ghAllFuncs()))]
			c = ghCallee{n, reflect.ValueOf(ghFuncs[n]), nil}
		}
		ft := c.fn.Type()
		var in []reflect.Value
		var given []reflect.Value
		ok := true
		for i := 0; i < ft.NumIn() && ok; i++ {
			t := ft.In(i)
			var v reflect.Value
			if len(pool) > 0 && r.Intn(2) == 0 {
				if k := pool[r.Intn(len(pool))]; !k.stale && k.v.Type().AssignableTo(t) && t.Kind() != reflect.Slice {
					v = k.v
				} else if t.Kind() == reflect.Slice && !k.stale && k.v.Type().AssignableTo(t.Elem()) {
					v = reflect.Append(reflect.MakeSlice(t, 0, 4), k.v)
					if e, ok := ghMake(g, t.Elem()); ok && r.Intn(2) == 0 {
						v = reflect.Append(v, e)
					}
				}
			}
			if !v.IsValid() {
				v, ok = ghMake(g, t)
			}
			if ok && t.Kind() == reflect.Slice && t.Name() == "" {
				v = roomy(v)
				given = append(given, v)
			}
			in = append(in, v)
		}
		if !ok {
			continue
		}
		var args []string
		for _, v := range in {
			args = append(args, ghShow(v))
		}
		line := c.name + "(" + strings.Join(args, ", ") + ")"
		if recv != nil {
			line = ghShow(recv.v) + " . " + line
		}
		history = append(history, line)
		before := make([]string, len(in))
		for i, v := range in {
			if v.Kind() == reflect.Slice {
				before[i] = ghDump(v.Slice(0, v.Cap()))
			} else {
				before[i] = ghDump(v)
			}
		}
		var out []reflect.Value
		func() {
			defer func() {
				if recover() != nil {
					out = nil
				}
			}()
			if ft.IsVariadic() {
				out = c.fn.CallSlice(in)
			} else {
				out = c.fn.Call(in)
			}
		}()
		for i, v := range in {
			now := ""
			if v.Kind() == reflect.Slice {
				now = ghDump(v.Slice(0, v.Cap()))
			} else {
				now = ghDump(v)
			}
			if now != before[i] && !reported[c.name] {
				reported[c.name] = true
				fails = append(fails, ghRepFailure{Contract: "C05_sweep", Ensures: "argument changed by " + c.name, Args: append([]string{}, history...), Detail: "before: " + ghTrim(before[i]) + "\nafter:  " + ghTrim(now)})
			}
		}
		check("an existing value is changed by", c.name)
		var lists []reflect.Value
		for i, o := range out {
			if o.Kind() == reflect.Slice && o.Type().Name() == "" {
				lists = append(lists, o)
				continue
			}
			if len(pool) < 12 {
				keep(o, fmt.Sprintf("result %d of %s", i+1, c.name))
			}
		}
		changed := false
		for _, s := range given {
			changed = spoil(s) || changed
		}
		if changed {
			check("a list given is kept by", c.name)
		}
		changed = false
		for _, s := range lists {
			changed = spoil(s) || changed
		}
		if changed {
			check("a list returned is shared by", c.name)
		}
	}
	check("an existing value is changed by", "earlier calls")
	// the same values looked at from several goroutines at once
	var wg sync.WaitGroup
	var mu sync.Mutex
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() { recover() }()
			for i := range pool {
				k := pool[(i+w)%len(pool)]
				if k.stale {
					continue
				}
				if o := ghObserve(k.v); o != k.obs {
					mu.Lock()
					if !reported["parallel"] {
						reported["parallel"] = true
						fails = append(fails, ghRepFailure{Contract: "C05_sweep", Ensures: "results differ when values are used from several goroutines", Args: append(append([]string{}, history...), "value from "+k.from), Detail: "expected: " + ghTrim(k.obs) + "\ngot:      " + ghTrim(o)})
					}
					mu.Unlock()
				}
			}
		}(w)
	}
	wg.Wait()
	return fails
}
