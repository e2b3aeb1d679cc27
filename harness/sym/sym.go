// Package sym is the harness API. The symbolic engine (/verif/gosym) intercepts these functions and gives
// them their symbolic meaning; the bodies below are the native meaning used to replay a solver witness
// against the real build.
package sym

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"
)

// In is one input of a witness.
type In struct {
	N string `json:"n"`
	K string `json:"k"`
	V string `json:"v"`
}

// State of the native run.
type State struct {
	vals     map[string]In
	names    map[string]int
	Missing  int
	Thorough bool
	Obs      []string
	Reached  []string
	Permute  bool
}

var cur = &State{vals: map[string]In{}, names: map[string]int{}}

// Failed is the panic value of a failed assertion, Skip that of a violated assumption.
type Failed struct{ Msg string }
type Skip struct{}

// Start begins a native run over the given witness.
func Start(ins []In, thorough bool) *State {
	cur = &State{vals: map[string]In{}, names: map[string]int{}, Thorough: thorough}
	for _, i := range ins {
		cur.vals[i.N] = i
	}
	return cur
}

func get(name, kind string) (string, bool) {
	n := cur.names[name]
	cur.names[name]++
	if n > 0 {
		name = name + "#" + strconv.Itoa(n)
	}
	i, ok := cur.vals[name]
	if !ok || i.K != kind {
		cur.Missing++
		return "", false
	}
	return i.V, true
}
func getU(name, kind string) uint64 {
	s, ok := get(name, kind)
	if !ok {
		return 0
	}
	u, _ := strconv.ParseUint(s, 0, 64)
	return u
}

// Float64 is an arbitrary float64 (NaN and infinities included).
func Float64(name string) float64 { return math.Float64frombits(getU(name, "f64")) }

// Float32 is an arbitrary float32.
func Float32(name string) float32 { return math.Float32frombits(uint32(getU(name, "f32"))) }

// Int64 is an arbitrary int64.
func Int64(name string) int64 { return int64(getU(name, "i64")) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return getU(name, "bool") == 1 }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(getU(name, "u8")) }

// Choose is an arbitrary integer in [0,n), one execution path for each.
func Choose(name string, n int) int {
	if n <= 1 {
		n = 1
	}
	r := int(getU(name, "choose"))
	if r >= n {
		r = 0
	}
	return r
}

// Bound is quick in the quick tier and thorough in the thorough tier.
func Bound(quick, thorough int) int {
	if cur.Thorough {
		return thorough
	}
	return quick
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Skip{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Failed{msg})
	}
}

// AssertClose states a == b up to floating-point rounding.
func AssertClose(a, b float64, msg string) {
	if a == b || (a != a && b != b) {
		return
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) || a != a || b != b || math.Abs(a-b) > 1e-9*(math.Abs(a)+math.Abs(b))+1e-9 {
		panic(Failed{fmt.Sprintf("%s: got %v, want %v", msg, a, b)})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { panic(Failed{msg}) }

// And, Or and Implies combine conditions without forking the execution.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func IteI(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// SameF is numeric equality with NaN equal to NaN.
func SameF(a, b float64) bool { return a == b || (a != a && b != b) }

// Finite is neither NaN nor infinite.
func Finite(a float64) bool { return a == a && !math.IsInf(a, 0) }

// Reach marks a point that at least one path must reach.
func Reach(name string) { cur.Reached = append(cur.Reached, name) }

// Observe records a value that the engine compares with the native run of the path's witness.
func Observe(name string, v interface{}) { cur.Obs = append(cur.Obs, name+"="+show(v)) }

func show(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case float64:
		if x != x {
			return "f:nan"
		}
		return fmt.Sprintf("f:%x", math.Float64bits(x))
	case float32:
		if x != x {
			return "f:nan"
		}
		return fmt.Sprintf("g:%x", math.Float32bits(x))
	case string:
		return "s:" + x
	case bool:
		return fmt.Sprintf("b:%v", x)
	case int:
		return fmt.Sprintf("i:%d", x)
	case int64:
		return fmt.Sprintf("i:%d", x)
	case error:
		return "error"
	}
	return "?"
}

// PutIf stores m[k] = v when present (without forking).
func PutIf[V any](m map[string]V, k string, v V, present bool) {
	if present {
		m[k] = v
	}
}

// PermuteMaps makes every map iteration of the code under test choose an arbitrary order.
func PermuteMaps() { cur.Permute = true }

// Freeze marks everything reachable from the arguments as shared between concurrent calls.
func Freeze(v ...interface{}) {}

// Concurrently runs the calls concurrently. The engine checks that none of them writes shared memory unsynchronized.
func Concurrently(fs ...func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var pan interface{}
	start := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					pan = r
					mu.Unlock()
				}
			}()
			<-start
			f()
		}(f)
	}
	close(start)
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
}

// Fill stores each value in the fields of its type of the struct (exported or not, also of embedded structs) and
// returns how many it stored.
func Fill(ptr interface{}, vals ...interface{}) int {
	return fill(reflect.ValueOf(ptr).Elem(), vals)
}

func fill(s reflect.Value, vals []interface{}) int {
	n := 0
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		done := false
		for _, v := range vals {
			if reflect.TypeOf(v) == f.Type() {
				reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
				done = true
				n++
			}
		}
		if !done && s.Type().Field(i).Anonymous && f.Kind() == reflect.Struct {
			n += fill(f, vals)
		}
	}
	return n
}

// Strip sets the exported fields of the given name to their zero value everywhere under the pointer.
func Strip(ptr interface{}, field string) { strip(reflect.ValueOf(ptr), field) }

func strip(v reflect.Value, field string) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			strip(v.Elem(), field)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			strip(v.Index(i), field)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.Name == field && v.Field(i).CanSet() {
				v.Field(i).Set(reflect.Zero(f.Type))
			} else if f.PkgPath == "" {
				strip(v.Field(i), field)
			}
		}
	}
}

// A is an attribute, X an element ("" is character data, "#comment" a comment).
type A struct{ Name, Val string }
type X struct {
	Name  string
	Attrs []A
	Kids  []*X
	Text  string
}

// tokens lists the texts of the tags, character data and comments of the element.
func (x *X) tokens(r []string) []string {
	if x.Name == "" || x.Name == "#comment" {
		var b bytes.Buffer
		x.render(&b)
		if b.Len() > 0 {
			r = append(r, b.String())
		}
		return r
	}
	var b bytes.Buffer
	(&X{Name: x.Name, Attrs: x.Attrs}).render(&b)
	end := "</" + x.Name + ">"
	r = append(r, strings.TrimSuffix(b.String(), end))
	for _, k := range x.Kids {
		if k != nil {
			r = k.tokens(r)
		}
	}
	return append(r, end)
}

// Tokens counts the tags, texts and comments of an element without adjacent texts.
func Tokens(x *X) int { return len(x.tokens(nil)) }

// DecodePart decodes the text that ends after k of the element's Tokens.
func DecodePart(x *X, k int, v interface{}) error {
	return xml.Unmarshal([]byte(strings.Join(x.tokens(nil)[:k], "")), v)
}

func (x *X) render(b *bytes.Buffer) {
	switch x.Name {
	case "":
		xml.EscapeText(b, []byte(x.Text))
		return
	case "#comment":
		b.WriteString("<!--" + x.Text + "-->")
		return
	}
	b.WriteString("<" + x.Name)
	for _, a := range x.Attrs {
		b.WriteString(" " + a.Name + "=\"")
		xml.EscapeText(b, []byte(a.Val))
		b.WriteString("\"")
	}
	b.WriteString(">")
	for _, k := range x.Kids {
		if k != nil {
			k.render(b)
		}
	}
	b.WriteString("</" + x.Name + ">")
}

// Render is the XML text of the element.
func Render(x *X) string {
	var b bytes.Buffer
	x.render(&b)
	return b.String()
}

// DecodeXML decodes the element into v with encoding/xml.
func DecodeXML(x *X, v interface{}) error {
	if x == nil {
		return fmt.Errorf("no element")
	}
	return xml.Unmarshal([]byte(Render(x)), v)
}

// DecodeText decodes concrete XML text into v with encoding/xml.
func DecodeText(s string, v interface{}) error { return xml.Unmarshal([]byte(s), v) }

// FormatF and FormatI give the decimal text of a number.
func FormatF(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }
func FormatI(n int64) string   { return strconv.FormatInt(n, 10) }

// IsNumber reports whether s is a decimal number (used on concrete text only).
func IsNumber(s string) bool {
	_, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
	return err == nil
}

// Keys are the sorted keys of a map (concrete only).
func Keys(m map[string]interface{}) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ReadFile is the text of a file (read at check time).
func ReadFile(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return string(b)
}
