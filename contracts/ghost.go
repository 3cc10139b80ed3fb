package query

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// Ghost vocabulary of the contracts. The verifier interprets these functions itself; the bodies
// below give them the same meaning at run time, so that the replay harness can run every contract
// on concrete inputs.

type ghSkip struct{}

type ghFailure struct{ Name, Detail string }

var ghFails []ghFailure
var ghEnsured int

// ghRequires restricts the contract to inputs which satisfy the precondition.
func ghRequires(b bool) {
	if !b {
		panic(ghSkip{})
	}
}

// ghEnsures states a named postcondition.
func ghEnsures(name string, b bool) {
	ghEnsured++
	if !b {
		ghFails = append(ghFails, ghFailure{Name: name})
	}
}

// ghTry calls f; the second result tells whether it panicked.
func ghTry[T any](f func() T) (result T, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ghSkip); ok {
				panic(r)
			}
			panicked = true
		}
	}()
	return f(), false
}

func ghImplies(a, b bool) bool { return !a || b }

// ghEq is deep equality; a list without elements equals a missing list.
func ghEq[T any](a, b T) bool { return ghDeep(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem(), 0) }

func ghDeep(a, b reflect.Value, depth int) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if depth > 60 {
		return true
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return ghDeep(a.Elem(), b.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !ghDeep(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !ghDeep(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !ghDeep(a.MapIndex(k), b.MapIndex(k), depth+1) {
				return false
			}
		}
		return true
	case reflect.Func, reflect.Chan:
		return a.Pointer() == b.Pointer()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	}
	return true
}

// ghNumbered: text contains exactly the placeholders $n+1 ... $n+k, in increasing order.
func ghNumbered(text string, n, k int) bool {
	next := n
	for i := 0; i < len(text); i++ {
		if text[i] != '$' {
			continue
		}
		j := i + 1
		if j < len(text) && text[j] == '-' {
			j++
		}
		for j < len(text) && text[j] >= '0' && text[j] <= '9' {
			j++
		}
		v, err := strconv.Atoi(text[i+1 : j])
		next++
		if err != nil || v != next {
			return false
		}
	}
	return next == n+k
}

// ghSameText: question is numbered with every numbered placeholder replaced by a question mark.
func ghSameText(numbered, question string) bool {
	var b strings.Builder
	for i := 0; i < len(numbered); i++ {
		if numbered[i] != '$' {
			b.WriteByte(numbered[i])
			continue
		}
		b.WriteByte('?')
		if i+1 < len(numbered) && numbered[i+1] == '-' {
			i++
		}
		for i+1 < len(numbered) && numbered[i+1] >= '0' && numbered[i+1] <= '9' {
			i++
		}
	}
	return b.String() == question
}

var _ = fmt.Sprint
