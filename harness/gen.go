package query

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"math/big"
	"math/rand"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// Generator of inputs: fills values of any type of the package, unexported parts included.
type ghGen struct {
	r     *rand.Rand
	size  int
	nodes int
	seen  []string // some texts made before, for variants of them
	big   bool     // one long list of texts or conditions is still to be made
}

func newGen(seed int64, size int) *ghGen {
	g := &ghGen{r: rand.New(rand.NewSource(seed)), size: size}
	g.big = size == 7 && g.pick(3) == 0
	return g
}

var ghNames = []string{"id", "name", "a", "b", "t", "f", "users", "orders", "x1", "created_at"}
var ghOdd = []string{"", " ", "a b", "a as b", "t.a", "t.a as b", "t.a AS b", "a As b", " a ", "a  as\tb", "a.b.c", ".a", "a.", ".", "a aS b c", "as", "a as", "as as as",
	"a\nb", "a\u00a0b", "\u2003", "a\u0085", "t. a", "'a'", "\"a\"", "a'b", "a\"", "A", "t t", "t T", "t as t", "a.a", "a.a as a", "a or b", "t x y", "t as x y", "a,b", "*", "a/b", "é", "a\x00b", "a\u2028b", "\ufeffa",
	"caf\xe9", "a\xffb", "\ufffd", "t.\xe9 as a\ufffd", "\u00b5", "\u212aey", "\u0130d", "\U0001f600", "ﬁ", "t.fﬀ", "a\u0301", "\xe9 as \xe8", "ſ.ſ as s"}

// white space of all kinds, what only looks like it, quotes, dots and other marks
var ghRunes = []rune("\t\n\v\f\r \u0085\u00a0\u1680\u180e\u2000\u2002\u2005\u2009\u200a\u200b\u2028\u2029\u202f\u205f\u2060\u3000\ufeff\x00\x1c\x1f\x7f`'\"\u2018\u2019\u201c\uff07\uff02\u00b4.\u3002\uff0e\u2024,;:-+/\\|*%_#@!&()[]{}<>=~^\ufffd\U0001f600")

func (g *ghGen) pick(n int) int { return g.r.Intn(n) }

func (g *ghGen) ident() string { return ghNames[g.pick(len(ghNames))] }

// text makes a text, now and then a variant of an earlier one: equal, longer, shorter or in other
// letter case.
func (g *ghGen) text(odd int) string {
	if n := len(g.seen); n > 0 && g.pick(8) == 0 {
		s := g.seen[g.pick(n)]
		switch g.pick(5) {
		case 0:
			return s + g.ident()
		case 1:
			if k := g.near(); k < len(s) {
				return s[:k]
			}
			return s[:g.pick(len(s)+1)]
		case 2:
			return g.flip(s)
		}
		return s
	}
	s := g.fresh(odd)
	if len(g.seen) < 8 {
		g.seen = append(g.seen, s)
	} else {
		g.seen[g.pick(8)] = s
	}
	return s
}

func (g *ghGen) fresh(odd int) string {
	if g.pick(60) == 0 { // a long name, its length near a number of the source
		n := g.near() + g.pick(3) - 1
		if n > 300 {
			n = 300
		}
		return strings.Repeat(g.ident(), n)[:n]
	}
	if odd > 40 && g.pick(30) == 0 { // an unusual character somewhere
		s, r := g.ident()+g.ident(), ghRunes[g.pick(len(ghRunes))]
		k := g.pick(len(s) + 1)
		return s[:k] + string(r) + s[k:]
	}
	k := g.pick(100)
	switch {
	case k >= odd:
		return g.ident()
	case k < odd/4 && len(ghStrings) > 0:
		s := ghStrings[g.pick(len(ghStrings))]
		if strings.ContainsAny(s, "$?") {
			return g.ident()
		}
		return s
	case k < odd/3: // one of the documented forms, with odd spacing and letter case
		sp := []string{" ", "  ", "\t", " \n", "\u00a0", " "}
		word := func() string {
			if g.pick(4) == 0 {
				return g.flip(g.ident())
			}
			return g.ident()
		}
		s := word()
		if g.pick(2) == 0 {
			s += "." + word()
		}
		switch g.pick(4) {
		case 0, 1:
			mid := "as"
			if g.pick(5) == 0 {
				mid = []string{"a", "s", "ass", "sa", "aas", "is", "to", "as,", "a.s", "=", "\u00aas", "a\u017f"}[g.pick(12)]
			}
			s += sp[g.pick(len(sp))] + g.flip(mid) + sp[g.pick(len(sp))] + word()
		case 2:
			s += sp[g.pick(len(sp))] + word()
		}
		if g.pick(6) == 0 {
			s = sp[g.pick(len(sp))] + s + sp[g.pick(len(sp))]
		}
		return s
	case k < odd/2: // assembled
		parts := []string{g.ident(), g.ident(), ".", " ", "as", "AS", "\t", "'", "\"", "\u00a0", "asc", "", ",", "\xe9", "\ufffd", "é"}
		n := 1 + g.pick(6)
		s := ""
		for i := 0; i < n; i++ {
			s += parts[g.pick(len(parts))]
		}
		return s
	}
	return ghOdd[g.pick(len(ghOdd))]
}

// flip changes the letter case of some letters.
func (g *ghGen) flip(s string) string {
	b := []byte(s)
	for i, c := range b {
		if g.pick(2) == 0 && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			b[i] = c ^ 32
		}
	}
	return string(b)
}

func (g *ghGen) int() int64 {
	if g.pick(5) == 0 && len(ghInts) > 0 {
		if v := ghInts[g.pick(len(ghInts))]; v < 1000 && v > -1000 {
			return v + int64(g.pick(3)) - 1
		}
	}
	switch g.pick(24) {
	case 3: // around the limits of narrower types
		return int64(1)<<[]int{7, 8, 15, 16, 31, 32, 40}[g.pick(7)] + int64(g.pick(3)) - 1
	}
	switch g.pick(8) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return int64(g.pick(1000))
	}
	return int64(g.pick(15) - 2)
}

func (g *ghGen) length() int {
	if g.nodes > 60 {
		return 0
	}
	n := g.pick(4)
	if g.size <= 2 && n > 2 {
		n = 2
	}
	if g.size == 6 && g.pick(12) == 0 {
		n = 4 + g.pick(7)
	}
	return n
}

// long is the length of an occasional long list of simple elements, near a number of the source if
// there is one.
func (g *ghGen) long() int {
	if g.pick(16) == 0 {
		k := []int{127, 128, 129, 255, 256, 257, 258}
		for _, v := range ghInts {
			if v >= 300 && v < 3000 {
				k = append(k, int(v), int(v), int(v))
			}
		}
		return k[g.pick(len(k))] + g.pick(2)
	}
	var k []int
	for _, v := range ghInts {
		if v > 3 && v < 300 {
			k = append(k, int(v))
		}
	}
	if len(k) > 0 && g.pick(2) == 0 {
		return k[g.pick(len(k))]*(1+g.pick(2)) + g.pick(9)
	}
	if g.pick(3) == 0 { // three digits
		return 95 + g.pick(20)
	}
	return 5 + g.pick(130)
}

// near is a number of the source, or any.
func (g *ghGen) near() int {
	var k []int
	for _, v := range ghInts {
		if v > 3 && v < 300 {
			k = append(k, int(v))
		}
	}
	if len(k) > 0 && g.pick(3) > 0 {
		return k[g.pick(len(k))]
	}
	return 5 + g.pick(130)
}

type ghPlainPtr struct{ s string }
type ghText string

type ghVal string

func (v ghVal) Value() (driver.Value, error) { return "V:" + string(v), nil }

type ghPtrVal struct{ s string }

func (v *ghPtrVal) Value() (driver.Value, error) { return []byte(v.s), nil }

type ghProv struct{ n int }

func (v ghProv) DatabaseValue() any { return v.n * 10 }

type ghBoth struct{ s string }

func (v ghBoth) Value() (driver.Value, error) { return "D:" + v.s, nil }
func (v ghBoth) DatabaseValue() any           { return "P:" + v.s }

type ghStrList []string

// interfaces and lists of conversions other than the plain ones.
type ghIfaceVal interface {
	driver.Valuer
	ghMark()
}
type ghMarked int

func (v ghMarked) Value() (driver.Value, error) { return int64(v) * 7, nil }
func (v ghMarked) ghMark()                      {}

type ghSliceVal []string // a list that is itself convertible

func (v ghSliceVal) Value() (driver.Value, error) { return strings.Join(v, ","), nil }

// plainTwin makes values of plain types which have the same names as the convertible ones.
func (g *ghGen) plainTwin() any {
	type ghVal string
	type ghPtrVal struct{ s string }
	type ghMarked int
	type ghBoth struct{ s string }
	type ghProv struct{ n int }
	type ghStrList []ghVal
	switch g.pick(9) {
	case 0:
		return []ghVal{"a", "b"}[:g.pick(3)]
	case 1:
		return []*ghPtrVal{{"a"}, {"b"}}[:g.pick(3)]
	case 2:
		return []ghMarked{1, 2}[:g.pick(3)]
	case 3:
		return []ghBoth{{"x"}, {"y"}}[:g.pick(3)]
	case 4:
		return ghVal("v")
	case 5:
		return &ghPtrVal{"v"}
	case 6:
		return ghProv{3}
	case 7:
		return ghMarked(2)
	}
	return ghStrList{"p", "q"}
}

func (g *ghGen) any() any {
	switch g.pick(34) {
	case 30:
		return g.plainTwin()
	case 32:
		if n := len(ghTold); n > 0 {
			if v, ok := g.told(ghTold[g.pick(n)]); ok {
				return v
			}
		}
	case 33:
		return []any{json.RawMessage(`{"a":1}`), json.Number("7"), sql.RawBytes("raw"), sql.NullString{String: g.ident(), Valid: g.pick(2) == 0}, sql.NullInt64{}, []sql.NullInt64{{Int64: 1, Valid: true}, {}},
			time.Duration(g.pick(9)), url.Values{"a": {"b"}}, [16]byte{1}, uint64(1)<<63 + uint64(g.pick(9)), int8(-3), int16(300), complex(1, 2), errors.New("x"), big.NewInt(int64(g.pick(9))),
			&[]string{"a"}[0], []error{nil}, sql.Named("n", g.pick(5))}[g.pick(18)]
	case 26:
		n := g.pick(9)
		return []any{&n, (*int)(nil), (*string)(nil), (*ghPlainPtr)(nil), &ghPlainPtr{"q"}, (*[]string)(nil)}[g.pick(6)]
	case 27:
		return []any{[]int(nil), []string(nil), []byte(nil), []driver.Valuer(nil), map[string]int(nil), []any(nil), []*int{nil}, []ghVal(nil)}[g.pick(8)]
	case 28:
		return []any{time.Unix(int64(g.pick(9)), 0), int64(g.pick(9)), float32(2), uint(7), true, [2]int{1, 2}, struct{ A int }{g.pick(4)}, rune('x')}[g.pick(8)]
	case 29:
		s := []string{g.ident()}
		return []any{&s, [1]string{"a"}, []ghText{"a", "b"}, ghText(g.ident()), []ghStrList{{"a"}}, []map[string]int{nil}, [][]byte{{1}, {2}}, []time.Time{time.Unix(3, 0)}}[g.pick(8)]
	case 20:
		r := make([]ghVal, g.length())
		for i := range r {
			r[i] = ghVal(g.ident())
		}
		return r
	case 21:
		r := make([]ghIfaceVal, g.length())
		for i := range r {
			r[i] = ghMarked(g.pick(5))
		}
		return r
	case 22:
		r := make([]*ghPtrVal, g.length())
		for i := range r {
			r[i] = &ghPtrVal{g.ident()}
		}
		return r
	case 23:
		return []any{[]ghPtrVal{{"a"}}, [][]string{{"a"}, {"b"}}, [2]string{"a", "b"}, map[string]int{"a": 1}, ghMarked(2), uint8(3), []ghBoth{{"x"}, {"y"}}}[g.pick(7)]
	case 24:
		return ghSliceVal{"a", "b"}[:g.pick(3)]
	case 0:
		return int(g.int())
	case 1:
		return g.pick(2) == 0
	case 2:
		return 1.5
	case 3:
		return []byte("bytes")
	case 4:
		return []int{1, 2, 3}[:g.pick(4)]
	case 5, 6:
		n := g.length()
		if g.big && g.pick(2) == 0 {
			g.big = false
			n = g.long()
		}
		r := make([]string, n, n+g.pick(16))
		for i := range r {
			r[i] = g.ident()
		}
		return r
	case 7, 8:
		r := make([]driver.Valuer, g.length())
		for i := range r {
			r[i] = g.valuer()
		}
		return r
	case 9:
		r := make([]any, g.length())
		for i := range r {
			r[i] = g.ident()
		}
		return r
	case 10, 11:
		return g.valuer()
	case 12:
		return ghProv{g.pick(9)}
	case 13:
		return &ghProv{g.pick(9)}
	case 14:
		return nil
	case 15:
		return ghStrList{"p", "q"}
	case 16:
		return []ghProv{{1}, {2}}
	case 17:
		r := make([]ValueProvider, g.length())
		for i := range r {
			r[i] = ghProv{g.pick(9)}
		}
		return r
	}
	return g.ident()
}

// told makes a value of a type which the source tells apart.
func (g *ghGen) told(t reflect.Type) (any, bool) {
	var v reflect.Value
	switch {
	case t.Kind() == reflect.Struct || t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Struct:
		v = reflect.New(t).Elem()
		if t.Kind() == reflect.Pointer && g.pick(3) > 0 {
			v = reflect.New(t.Elem())
		}
	default:
		var ok bool
		if v, ok = g.raw(t, 3); !ok {
			return nil, false
		}
	}
	return v.Interface(), true
}

func (g *ghGen) valuer() driver.Valuer {
	switch g.pick(3) {
	case 0:
		return ghVal(g.ident())
	case 1:
		return &ghPtrVal{g.ident()}
	}
	return ghBoth{g.ident()}
}

var ghAny = reflect.TypeOf((*any)(nil)).Elem()
var ghErrT = reflect.TypeOf((*error)(nil)).Elem()
var ghCondT = reflect.TypeOf((*Condition)(nil)).Elem()
var ghValuerT = reflect.TypeOf((*driver.Valuer)(nil)).Elem()

// extra implementers of interfaces, added by the file of user-written types.
var ghUserImpls []func(g *ghGen, depth int) reflect.Value

func (g *ghGen) impls(it reflect.Type) []reflect.Type {
	var r []reflect.Type
	for _, t := range ghTypes {
		if t.Kind() == reflect.Interface {
			continue
		}
		if t.Implements(it) {
			r = append(r, t)
		}
		if reflect.PointerTo(t).Implements(it) {
			r = append(r, reflect.PointerTo(t))
		}
	}
	return r
}

// value makes a value of a type; ok is false if none could be made.
func (g *ghGen) value(t reflect.Type, depth int) (reflect.Value, bool) {
	if t.Kind() == reflect.Struct && ghForeign[t.Name()] && ghOwn(t) {
		made := false
		for _, m := range ghMakers(t) {
			made = made || m.recv == nil
		}
		if !made && (depth > 3 || g.pick(4) == 0) { // its values start from the empty one
			return reflect.New(t).Elem(), true
		}
		if depth > 9 {
			return reflect.Value{}, false
		}
		for try := 0; try < 40; try++ {
			if v, ok := g.made(t, depth); ok {
				return v, true
			}
		}
		return reflect.Value{}, false
	}
	for try := 0; try < 40; try++ {
		if depth < 4 && g.nodes < 80 && !ghDegraded && g.pick(7) == 0 && (t == ghCondT || t.Kind() == reflect.Struct && ghOwn(t)) {
			if v, ok := g.made(t, depth); ok {
				return v, true
			}
		}
		v, ok := g.raw(t, depth)
		if !ok {
			return v, false
		}
		if inv, has := ghInvs[t]; has {
			if !g.holds(inv, v) {
				continue
			}
		}
		return v, true
	}
	return reflect.Value{}, false
}

func (g *ghGen) holds(inv, v reflect.Value) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return inv.Call([]reflect.Value{v})[0].Bool()
}

// ghMaker is an exported function or method with a given type of result.
type ghMaker struct {
	name   string
	fn     reflect.Value
	recv   reflect.Type
	method int
}

var ghMakersOf map[reflect.Type][]ghMaker

func ghMakers(t reflect.Type) []ghMaker {
	if ghMakersOf == nil {
		ghMakersOf = map[reflect.Type][]ghMaker{}
		add := func(ft reflect.Type, m ghMaker) {
			if ft.NumOut() == 0 {
				return
			}
			o := ft.Out(0)
			ghMakersOf[o] = append(ghMakersOf[o], m)
			if o.Kind() == reflect.Pointer && ghOwn(o) {
				ghMakersOf[o.Elem()] = append(ghMakersOf[o.Elem()], m)
			}
			if o != ghCondT && o.Implements(ghCondT) {
				ghMakersOf[ghCondT] = append(ghMakersOf[ghCondT], m)
			}
		}
		for _, n := range ghAllFuncs() {
			f := reflect.ValueOf(ghFuncs[n])
			add(f.Type(), ghMaker{name: n, fn: f})
		}
		for _, r := range ghTypes {
			if r.Kind() == reflect.Interface {
				continue
			}
			for i := 0; i < r.NumMethod(); i++ {
				add(r.Method(i).Type, ghMaker{name: r.String() + "." + r.Method(i).Name, recv: r, method: i})
			}
		}
	}
	return ghMakersOf[t]
}

// made makes a value the way a user does, by calls of the exported API, without regard to the type
// invariants of builders and groups: an operation which breaks one shows here.
func (g *ghGen) made(t reflect.Type, depth int) (v reflect.Value, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	ms := ghMakers(t)
	if len(ms) == 0 {
		return
	}
	m := ms[g.pick(len(ms))]
	for try := 0; depth > 3 && m.recv != nil && try < 20; try++ {
		m = ms[g.pick(len(ms))]
	}
	f := m.fn
	if m.recv != nil {
		r, ok := g.value(m.recv, depth+1)
		if !ok {
			return v, false
		}
		f = r.Method(m.method)
	}
	ft := f.Type()
	var in []reflect.Value
	for i := 0; i < ft.NumIn(); i++ {
		a, ok := g.value(ft.In(i), depth+1)
		if !ok {
			return v, false
		}
		in = append(in, a)
	}
	var out []reflect.Value
	if ft.IsVariadic() {
		out = f.CallSlice(in)
	} else {
		out = f.Call(in)
	}
	if n := len(out); n > 1 && ft.Out(n-1) == ghErrT && !out[n-1].IsNil() {
		return v, false
	}
	o := out[0]
	if o.Kind() == reflect.Pointer && t.Kind() == reflect.Struct {
		o = o.Elem()
	}
	v = reflect.New(t).Elem()
	v.Set(o)
	return v, g.leavesHold(v, 0)
}

// leavesHold checks the invariants of the plain conditions inside a value.
func (g *ghGen) leavesHold(v reflect.Value, depth int) bool {
	if depth > 12 {
		return true
	}
	t := v.Type()
	if inv, has := ghInvs[t]; has && !ghHasConds(t) && !g.holds(inv, v) {
		return false
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !g.leavesHold(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), depth+1) {
				return false
			}
		}
	case reflect.Slice:
		if t.Elem() == ghCondT || ghOwn(t.Elem()) {
			for i := 0; i < v.Len(); i++ {
				if !g.leavesHold(v.Index(i), depth+1) {
					return false
				}
			}
		}
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return true
		}
		e := v.Elem()
		if !ghOwn(e.Type()) {
			return true
		}
		c := reflect.New(e.Type()).Elem()
		c.Set(e)
		return g.leavesHold(c, depth+1)
	}
	return true
}

func (g *ghGen) raw(t reflect.Type, depth int) (reflect.Value, bool) {
	g.nodes++
	v := reflect.New(t).Elem()
	switch t {
	case ghAny:
		if x := g.any(); x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return v, true
	case ghErrT:
		if g.pick(2) == 0 {
			v.Set(reflect.ValueOf(errors.New("x")))
		}
		return v, true
	case ghValuerT:
		v.Set(reflect.ValueOf(g.valuer()))
		return v, true
	}
	switch t.Name() {
	case "JoinType":
		if t.Kind() == reflect.String {
			v.SetString([]string{"AND", "OR"}[g.pick(2)])
			return v, true
		}
	case "SortDirection":
		if t.Kind() == reflect.String && g.pick(4) > 0 {
			v.SetString([]string{"ASC", "DESC", "ASC", "DESC", "asc", "Desc", " ASC", "DESC ", "ASC NULLS LAST", "DESC NULLS FIRST", "DESCENDING", "A", "ASC, x"}[g.pick(13)])
			return v, true
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.pick(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if t.PkgPath() != "" && t.Name() != "int" {
			v.SetInt(int64(g.pick(5)))
		} else {
			v.SetInt(g.int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := g.int()
		if n < 0 {
			n = 0
		}
		if t.PkgPath() != "" {
			n = int64(g.pick(6))
		}
		v.SetUint(uint64(n))
	case reflect.String:
		odd := 45
		if depth > 0 {
			odd = 12
		}
		v.SetString(g.text(odd))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(g.pick(9)) / 2)
	case reflect.Slice:
		n := g.length()
		if n == 0 && g.pick(2) == 0 {
			return v, true
		}
		if depth <= 1 && g.size == 7 && g.pick(3) == 0 && ghPlain(t.Elem()) {
			return g.longList(t), true
		}
		if g.big && t.Elem() == ghCondT && g.pick(3) == 0 {
			g.big = false
			s := reflect.MakeSlice(t, 0, 0)
			nodes := g.nodes
			defer func() { g.nodes = nodes }()
			for i := g.long(); i > 0; i-- {
				g.nodes = 100 // no groups
				if c := g.condition(3); c != nil {
					s = reflect.Append(s, reflect.ValueOf(c))
				}
			}
			return s, true
		}
		room := g.pick(4)
		s := reflect.MakeSlice(t, n+room, n+room)
		for i := 0; i < n+room; i++ {
			if i >= n && depth > 2 {
				break
			}
			e, ok := g.value(t.Elem(), depth+1)
			if !ok {
				if i < n {
					return v, false
				}
				break
			}
			s.Index(i).Set(e)
		}
		v.Set(s.Slice(0, n))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			e, ok := g.value(t.Elem(), depth+1)
			if !ok {
				return v, false
			}
			v.Index(i).Set(e)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for i := g.length(); i > 0; i-- {
			k, ok := g.value(t.Key(), depth+1)
			e, ok2 := g.value(t.Elem(), depth+1)
			if !ok || !ok2 {
				return v, false
			}
			if k.Kind() == reflect.String && g.pick(3) == 0 {
				k = reflect.ValueOf(g.text(60)).Convert(t.Key())
			}
			v.SetMapIndex(k, e)
		}
	case reflect.Pointer:
		e, ok := g.value(t.Elem(), depth)
		if !ok {
			return v, false
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(e)
		v.Set(p)
	case reflect.Struct:
		prev := ""
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			e, ok := g.value(f.Type(), depth+1)
			if !ok {
				return v, false
			}
			if f.Kind() == reflect.String && f.Type().Name() != "JoinType" {
				switch g.pick(4) {
				case 0:
					e = reflect.Zero(f.Type())
				case 1: // equal parts are special
					p := prev
					if g.pick(5) == 0 {
						p = g.flip(p)
					}
					e = reflect.ValueOf(p).Convert(f.Type())
				}
				prev = e.String()
			}
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(e)
		}
	case reflect.Interface:
		if t.NumMethod() == 0 {
			if x := g.any(); x != nil {
				v.Set(reflect.ValueOf(x))
			}
			return v, true
		}
		var us []reflect.Value
		if depth < 6 {
			for _, u := range ghUserImpls {
				if x := u(g, depth); x.Type().Implements(t) {
					us = append(us, x)
				}
			}
		}
		if t == ghCondT && (ghDegraded || g.pick(3) == 0) {
			if c := g.condition(depth); c != nil {
				v.Set(reflect.ValueOf(c))
				return v, true
			}
		}
		its := g.impls(t)
		deep := depth > 2+g.size/2 || g.nodes > 80
		for try := 0; try < 20; try++ {
			n := len(its)
			if len(us) > 0 {
				n += 1 + len(its)/6
			}
			if n == 0 {
				return v, false
			}
			k := g.pick(n)
			if k >= len(its) {
				v.Set(us[g.pick(len(us))])
				return v, true
			}
			it := its[k]
			if deep && ghHasConds(it) {
				continue
			}
			if !deep && t == ghCondT && g.pick(3) == 0 { // more nesting
				for _, c := range its {
					if ghHasConds(c) && g.pick(2) == 0 {
						it = c
					}
				}
			}
			x, ok := g.value(it, depth+1)
			if !ok {
				continue
			}
			v.Set(x)
			return v, true
		}
		return v, false
	case reflect.Func:
		return v, false
	default:
		return v, true
	}
	return v, true
}

func ghHasConds(t reflect.Type) bool {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i).Type
		if f.Kind() == reflect.Slice && f.Elem() == ghCondT || f.Kind() == reflect.Struct && f != t && ghHasConds(f) {
			return true
		}
	}
	return false
}

// condition makes a condition through the exported API only.
func (g *ghGen) condition(depth int) (c Condition) {
	defer func() {
		if recover() != nil {
			c = nil
		}
	}()
	f := FieldName(g.ident())
	if g.pick(3) == 0 {
		f = FieldName(g.ident() + "." + g.ident())
	}
	scalar := func() any {
		switch g.pick(4) {
		case 0:
			return g.valuer()
		case 1:
			return int(g.int())
		case 2:
			return ghProv{g.pick(9)}
		}
		return g.ident()
	}
	deep := depth > 2+g.size/2 || g.nodes > 80
	n := 12
	if deep {
		n = 9
	}
	switch g.pick(n) {
	case 0:
		c = EqualTo(f, scalar())
	case 1:
		c = GreaterThan(f, scalar())
	case 2:
		c = GreaterOrEqual(f, scalar())
	case 3:
		c = Less(f, scalar())
	case 4:
		c = LessOrEqual(f, scalar())
	case 5:
		c = In(f, g.any())
	case 6:
		c = IsNull(f)
	case 7:
		c = Contains(f, g.ident())
	case 8:
		c = IContains(f, g.ident())
	default:
		var cs []Condition
		for i := 1 + g.pick(3); i > 0; i-- {
			x := g.condition(depth + 1)
			if x != nil {
				cs = append(cs, x)
			}
		}
		if len(cs) == 0 {
			return IsNull(f)
		}
		j := []JoinType{LogicalAND, LogicalOR}[g.pick(2)]
		grp := NewGroup(j, cs...)
		switch g.pick(6) {
		case 0:
			c = grp.WithBrackets()
		case 1:
			c = &grp
		case 2:
			c = cs[0].And(cs[1:]...)
		case 3:
			c = cs[0].Or(cs[1:]...)
		default:
			c = grp
		}
	}
	if g.pick(3) == 0 {
		c = c.Join([]JoinType{LogicalAND, LogicalOR}[g.pick(2)])
	}
	if g.pick(4) == 0 {
		c = c.Negate(g.pick(3) > 0)
	}
	return c
}

// ghPlain: a list of such elements may be long.
func ghPlain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Uint, reflect.Bool:
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			k := t.Field(i).Type.Kind()
			if k == reflect.Struct && ghPlain(t.Field(i).Type) || k == reflect.String || k == reflect.Interface && t.Field(i).Type.NumMethod() == 0 {
				continue
			}
			return false
		}
		return true
	}
	return false
}

// longList makes a long list with few repetitions.
func (g *ghGen) longList(t reflect.Type) reflect.Value {
	n := g.long()
	s := reflect.MakeSlice(t, 0, n)
	for i := 0; i < n; i++ {
		e, ok := g.value(t.Elem(), 2)
		if !ok {
			break
		}
		if e.Kind() == reflect.String && e.Type().Name() != "JoinType" && g.pick(12) > 0 {
			e = reflect.ValueOf(g.ident() + strconv.Itoa(i)).Convert(e.Type())
		}
		s = reflect.Append(s, e)
		g.nodes = 0
	}
	return s
}
