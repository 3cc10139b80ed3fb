package query

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"
)

type ghContract struct {
	Name, Prop string
	Fn         any
}

type ghRepFailure struct {
	Contract string   `json:"contract"`
	Ensures  string   `json:"ensures"`
	Seed     int64    `json:"seed"`
	Args     []string `json:"args"`
	Detail   string   `json:"detail"`
}

type ghReport struct {
	Ran      map[string]int    `json:"ran"`
	Skipped  map[string]int    `json:"skipped"`
	Failures []ghRepFailure    `json:"failures"`
	Samples  []string          `json:"samples"`
	Notes    map[string]string `json:"notes"`
}

// ghRun runs one contract on the input made from a seed.
func ghRun(c ghContract, seed int64, size int) (args []string, fails []ghRepFailure, skipped bool) {
	g := newGen(seed, size)
	fn := reflect.ValueOf(c.Fn)
	ft := fn.Type()
	in := make([]reflect.Value, ft.NumIn())
	bad := false
	for i := range in {
		v, ok := ghMake(g, ft.In(i))
		if !ok {
			bad = true
			break
		}
		in[i] = v
	}
	if bad {
		return nil, nil, true
	}
	for _, a := range in {
		args = append(args, ghShow(a))
	}
	ghFails, ghEnsured = nil, 0
	add := func(name, detail string) {
		fails = append(fails, ghRepFailure{Contract: c.Name, Ensures: name, Seed: seed*100 + int64(size), Args: args, Detail: detail})
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(ghSkip); ok {
					skipped = true
					return
				}
				add("no panic", fmt.Sprintf("panic: %v\n%s", r, ghTrim(string(debug.Stack()))))
			}
		}()
		if ft.IsVariadic() {
			fn.CallSlice(in)
		} else {
			fn.Call(in)
		}
	}()
	if skipped {
		return args, nil, true
	}
	for _, f := range ghFails {
		add(f.Name, f.Detail)
	}
	return args, fails, false
}

// ghMake makes an input; a generator which fails makes none.
func ghMake(g *ghGen, t reflect.Type) (v reflect.Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ghGenFails++
			ok = false
		}
	}()
	g.nodes = 0
	return g.value(t, 0)
}

var ghGenFails int

func ghTrim(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

func TestVerifHarness(t *testing.T) {
	prop := os.Getenv("GH_PROP")
	seed, _ := strconv.ParseInt(os.Getenv("GH_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("GH_SECONDS"))
	rep := &ghReport{Ran: map[string]int{}, Skipped: map[string]int{}, Notes: map[string]string{}}
	seen := map[uint64]bool{} // hashes of the inputs
	input := func(key string) {
		h := fnv.New64a()
		h.Write([]byte(key))
		if len(seen) < 2000000 {
			seen[h.Sum64()] = true
		}
	}
	save := func() {
		if ghGenFails > 0 {
			rep.Notes["generator failures"] = strconv.Itoa(ghGenFails)
		}
		b, _ := json.Marshal(rep)
		os.WriteFile(os.Getenv("GH_REPORT"), b, 0o644)
		ins := make([]byte, 0, 8*len(seen))
		for k := range seen {
			ins = binary.LittleEndian.AppendUint64(ins, k)
		}
		os.WriteFile(os.Getenv("GH_REPORT")+".inputs", ins, 0o644)
	}
	defer save()
	if r := os.Getenv("GH_REPLAY"); r != "" {
		name, s, _ := strings.Cut(r, ":")
		sd, _ := strconv.ParseInt(s, 10, 64)
		for _, c := range ghContracts {
			if c.Name != name {
				continue
			}
			args, fails, skipped := ghRun(c, sd/100, int(sd%100))
			for _, a := range args {
				fmt.Println("input:", a)
			}
			fmt.Println("skipped:", skipped)
			for _, f := range fails {
				fmt.Println("FAILS:", f.Ensures, f.Detail)
			}
		}
		if sw := ghSweeps[name]; sw != nil {
			for _, f := range sw(sd/100, int(sd%100)) {
				fmt.Println("FAILS:", f.Ensures, f.Args, f.Detail)
			}
		}
		return
	}
	var list []ghContract
	for _, c := range ghContracts {
		if strings.Contains(","+c.Prop+",", ","+prop+",") {
			list = append(list, c)
		}
	}
	sweepName := prop + "_sweep"
	sweep := ghSweeps[sweepName]
	n := len(list)
	if sweep != nil {
		n += 2
	}
	if n == 0 {
		return
	}
	// the input at hand, for runs which end in a fatal error
	debug.SetMaxStack(256 << 20)
	at := make([]byte, 512)
	if f, err := os.Create(os.Getenv("GH_REPORT") + ".at"); err == nil {
		f.Truncate(512)
		if m, err := syscall.Mmap(int(f.Fd()), 0, 512, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			at = m
		}
		f.Close()
	}
	note := func(name string, seed int64) {
		n := copy(at[9:], name)
		at[8] = byte(n)
		binary.LittleEndian.PutUint64(at, uint64(seed))
	}
	// a call that hangs is a failure too
	type nowT struct {
		name string
		seed int64
		at   time.Time
	}
	cur := make(chan nowT, 64)
	go func() {
		var now nowT
		tick := time.NewTicker(time.Second)
		for {
			select {
			case now = <-cur:
			case <-tick.C:
				if now.name != "" && time.Since(now.at) > 30*time.Second {
					rep := &ghReport{Ran: map[string]int{now.name: 1}, Failures: []ghRepFailure{{Contract: now.name, Ensures: "terminates", Seed: now.seed, Detail: "a call did not return within 30 seconds"}}}
					b, _ := json.Marshal(rep)
					os.WriteFile(os.Getenv("GH_REPORT"), b, 0o644)
					os.Exit(0)
				}
			}
		}
	}()
	per := time.Duration(secs) * time.Second / time.Duration(n)
	for _, c := range list {
		end := time.Now().Add(per)
		nf := 0
		for i := int64(0); time.Now().Before(end) && nf < 3 && rep.Ran[c.Name] < 60000; i++ {
			size := int(i%7) + 1
			if i < 200 {
				size = int(i/50) + 1
			}
			sd := seed*1000003 + i
			if i%16 == 0 {
				cur <- nowT{c.Name, sd*100 + int64(size), time.Now()}
			}
			note(c.Name, sd*100+int64(size))
			args, fails, skipped := ghRun(c, sd, size)
			if skipped {
				rep.Skipped[c.Name]++
				continue
			}
			rep.Ran[c.Name]++
			input(c.Name + "|" + strings.Join(args, "|"))
			if len(rep.Samples) < 3 && rep.Ran[c.Name] == 40 {
				rep.Samples = append(rep.Samples, c.Name+"("+ghTrim(strings.Join(args, ", "))+")")
			}
			if len(fails) > 0 {
				rep.Failures = append(rep.Failures, fails...)
				nf++
			}
		}
		cur <- nowT{}
	}
	if sweep != nil {
		end := time.Now().Add(2 * per)
		names := map[string]bool{}
		for i := int64(0); time.Now().Before(end) && len(rep.Failures) < 10; i++ {
			size := int(i%6) + 1
			sd := seed*1000003 + i
			if i%16 == 0 {
				cur <- nowT{sweepName, sd*100 + int64(size), time.Now()}
			}
			note(sweepName, sd*100+int64(size))
			for _, f := range sweep(sd, size) {
				f.Seed = sd*100 + int64(size)
				if !names[f.Ensures] {
					names[f.Ensures] = true
					rep.Failures = append(rep.Failures, f)
				}
			}
			rep.Ran[sweepName]++
			input(sweepName + "|" + strconv.FormatInt(sd*100+int64(size), 10))
		}
		cur <- nowT{}
	}
}

// ghSweeps are reflective checks over the whole API.
var ghSweeps = map[string]func(seed int64, size int) []ghRepFailure{}

// ghShow prints a value with its unexported parts.
func ghShow(v reflect.Value) string {
	var b strings.Builder
	ghPrint(&b, v, 0)
	return b.String()
}

func ghPrint(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if depth > 12 || b.Len() > 4000 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		ghPrint(b, v.Elem(), depth+1)
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		ghPrint(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			ghPrint(b, v.Field(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString(v.Type().String() + "(nil)")
			return
		}
		b.WriteString(v.Type().String() + "{")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			ghPrint(b, v.Index(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Map:
		b.WriteString("map{")
		for i, k := range v.MapKeys() {
			if i > 0 {
				b.WriteString(", ")
			}
			ghPrint(b, k, depth+1)
			b.WriteString(": ")
			ghPrint(b, v.MapIndex(k), depth+1)
		}
		b.WriteString("}")
	case reflect.String:
		if v.Type().Name() != "string" {
			fmt.Fprintf(b, "%s(%q)", v.Type().Name(), v.String())
		} else {
			fmt.Fprintf(b, "%q", v.String())
		}
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%s(%d)", v.Type().Name(), v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%s(%d)", v.Type().Name(), v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%s(%v)", v.Type().Name(), v.Float())
	default:
		b.WriteString(v.Type().String())
	}
}
