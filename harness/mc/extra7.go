package main

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"time"

	"github.com/lestrrat-go/jsval"
)

// Types whose methods say something else than their kind: none of the
// methods counts, only the kind does.
type (
	mdString string
	mdInt    int
	mdUint8  uint8
	mdFloat  float64
	mdBool   bool
	mdSlice  []interface{}
	mdMap    map[string]interface{}
	mdError  string
	mdJSON   int64
	mdText   string
	mdStruct struct {
		A string `json:"a"`
	}
	mdMapKey map[mdString]interface{}
	mdPtr    int
)

func (mdString) String() string { return "something else" }
func (mdInt) String() string    { return "text" }
func (mdUint8) String() string  { return "text" }
func (mdFloat) String() string  { return "text" }
func (mdBool) String() string   { return "text" }
func (mdSlice) String() string  { return "text" }
func (mdMap) String() string    { return "text" }
func (mdStruct) String() string { return "text" }
func (mdError) Error() string   { return "an error" }
func (mdSlice) Len() int        { return 7 }
func (mdMap) Len() int          { return 7 }
func (mdPtr) IsZero() bool      { return true }
func (mdFloat) IsZero() bool    { return true }

func (mdFloat) GoString() string { return "text" }
func (mdInt) GoString() string   { return "text" }

func (mdJSON) MarshalJSON() ([]byte, error) { return []byte(`"text"`), nil }
func (mdMap) MarshalJSON() ([]byte, error)  { return []byte(`"text"`), nil }
func (mdText) MarshalText() ([]byte, error) { return []byte(`1`), nil }
func (mdStruct) MarshalJSON() ([]byte, error) {
	return []byte(`"text"`), nil
}

func methodValues() []J {
	ms, mi, mf, mb, ml, mm := mdString("ab"), mdInt(3), mdFloat(1.5), mdBool(true), mdSlice{"s"}, mdMap{"a": "s"}
	return []J{mdString(""), mdString("ab"), mdString("abc"), mdError("ab"), mdText("ab"), mdText("1"), json.Number("1"), json.Number("ab"),
		mdInt(0), mdInt(3), mdUint8(0), mdUint8(4), mdFloat(0), mdFloat(1.5), mdFloat(3), mdBool(true), mdBool(false), mdJSON(2), mdPtr(2), mdPtr(0),
		time.Duration(3), time.Duration(0), time.Month(2), time.Weekday(0), reflect.String, http.StateNew, time.RFC3339,
		mdSlice(nil), mdSlice{}, mdSlice{"s"}, mdSlice{"s", "s"}, mdSlice{"s", "t"}, sort.StringSlice{"s", "t"}, sort.IntSlice{1, 1}, sort.Float64Slice{1, 2}, net.IP{1, 2}, net.IP{1, 1}, json.RawMessage("1"), json.RawMessage("ab"),
		mdMap(nil), mdMap{}, mdMap{"a": "s"}, mdMap{"a": 1.0, "b": "s"}, mdMapKey{"a": "s"}, http.Header{"a": {"s"}}, url.Values{"a": {"s"}, "b": nil}, mdStruct{}, mdStruct{"s"},
		&ms, &mi, &mf, &mb, &ml, &mm, errShort("x"), fmt.Errorf("ab")}
}

type errShort string

func (e errShort) Error() string { return string(e) }

// methods judges the values above with the given constraints, on their own
// and as elements and properties.
func (x *X) methods(specs ...*Spec) {
	x.Case(func() string { return "types with methods" }, func() {
		vals := methodValues()
		x.count("types with methods", int64(len(vals)))
		for _, s := range specs {
			x.gridBody(s, nil, vals, s.Validator(nil))
			for _, w := range []*Spec{not(s), arr(s), obj(Prop{"a", s}), {Kind: "object", AddProps: s}, {Kind: "object", Pats: []Prop{{"", s}}}} {
				ws := vals
				if w.Kind != "not" {
					ws = nil
					for _, v := range vals {
						if w.Kind == "array" {
							ws = append(ws, L{v}, L{v, "s"})
						} else {
							ws = append(ws, M{"a": v})
						}
					}
				}
				x.gridBody(w, nil, ws, w.Validator(nil))
			}
		}
	})
}

// c10kinds: fields of every kind, zero or not, under every tag option. Only
// the name in the tag counts.
func c10kinds(x *X) {
	one, str := 1, "s"
	fn, ch := func() {}, make(chan int)
	pairs := [][2]J{{"", "s"}, {0, 1}, {int8(0), int8(1)}, {int16(0), int16(1)}, {int32(0), int32(1)}, {int64(0), int64(1)}, {uint(0), uint(1)}, {uint8(0), uint8(1)}, {uint16(0), uint16(1)}, {uint32(0), uint32(1)}, {uint64(0), uint64(1)}, {uintptr(0), uintptr(1)}, {float32(0), float32(1)}, {0.0, 1.0}, {false, true}, {complex(0, 0), complex(0, 1)},
		{map[string]interface{}(nil), map[string]interface{}{}}, {map[string]int(nil), map[string]int{"a": 1}}, {[]interface{}(nil), []interface{}{}}, {[]string(nil), []string{"s"}}, {[]byte(nil), []byte("s")}, {[2]int{}, [2]int{1, 2}}, {[0]int{}, [0]int{}}, {struct{}{}, struct{}{}}, {plainStruct{}, plainStruct{A: "s"}}, {time.Time{}, time.Unix(1, 0)}, {time.Duration(0), time.Duration(1)},
		{(*int)(nil), &one}, {(*string)(nil), &str}, {(*plainStruct)(nil), &plainStruct{}}, {(**string)(nil), new(*string)}, {(func())(nil), fn}, {(chan int)(nil), ch}, {(*interface{})(nil), new(interface{})}, {(*map[string]interface{})(nil), &map[string]interface{}{}}, {mdString(""), mdString("s")}, {mdMap(nil), mdMap{}}, {mdPtr(0), mdPtr(1)}, {mdFloat(0), mdFloat(1)}, {json.Number(""), json.Number("1")}, {json.RawMessage(nil), json.RawMessage("1")}}
	opts := []string{"", ",", ",omitempty", ",omitzero", ",string", ",omitempty,omitzero", ",omitempty,string", ",inline", ",required", ",unknown"}
	for pi, p := range pairs {
		x.Case(func() string { return fmt.Sprintf("fields of type %T (%d)", p[0], pi) }, func() {
			x.count("field kinds", 1)
			specs := structSpecs([]string{"m", "z", "Field"})
			for _, o := range opts {
				for _, name := range []string{"m", ""} {
					t := reflect.StructOf([]reflect.StructField{
						{Name: "Field", Type: reflect.TypeOf(p[0]), Tag: reflect.StructTag(fmt.Sprintf(`json:%q`, name+o))},
						{Name: "Z", Type: reflect.TypeOf(jsval.MaybeInt{}), Tag: `json:"z,omitempty"`}})
					var vals []J
					for m := 0; m < 4; m++ {
						v := reflect.New(t).Elem()
						v.Field(0).Set(reflect.ValueOf(p[m%2]))
						if m > 1 {
							v.Field(1).Set(reflect.ValueOf(mInt(0)))
						}
						vals = append(vals, v.Interface())
					}
					x.structCheck(specs, vals)
				}
			}
		})
	}
}

// deep values under constraints that refer to themselves.
func (x *X) deepRecursion() {
	env := Env{"list": arr(ref("list")), "chain": obj(Prop{"next", ref("chain")}), "tree": any_(sNum, arr(ref("tree"))), "map": {Kind: "object", AddProps: ref("map")}, "pat": {Kind: "object", Pats: []Prop{{"n", ref("pat")}}}, "pos": {Kind: "array", HasPos: true, Pos: []*Spec{ref("pos")}, SetAddI: true}, "more": {Kind: "array", HasPos: true, Pos: []*Spec{sEmpty}, SetAddI: true, AddItems: ref("more")}, "hop": ref("hop1"), "hop1": arr(ref("hop"))}
	depths := []int{1, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 4097}
	if x.thorough {
		depths = append(depths, 5001, 8193, 10001, 20001)
	}
	for _, name := range []string{"list", "chain", "tree", "map", "pat", "pos", "more", "hop"} {
		for _, n := range depths {
			x.Case(func() string { return fmt.Sprintf("%s nested %d deep", name, n) }, func() {
				x.count("deep values", 1)
				for _, end := range []J{1.0, "s", nil} {
					var v J = end
					if end == nil {
						switch name {
						case "chain", "map", "pat":
							v = M{}
						default:
							v = L{}
						}
					}
					for i := 0; i < n; i++ {
						switch name {
						case "chain", "map", "pat":
							v = M{"next": v}
						case "more":
							v = L{1.0, v}
						default:
							v = L{v}
						}
					}
					want := end == nil || name == "tree" && end == 1.0
					c := ref(name).Validator(env)
					for r := 0; r < 2; r++ {
						x.States++
						if err := c.Validate(v); (err == nil) != want {
							Failf("%s: %d levels deep, ending in %v: expected accept=%v, got %v", env[name], n, end, want, trim(fmt.Sprint(err), 100))
						}
						x.Transitions++
					}
				}
			})
		}
	}
}

// longRuns: one value once, another one many times, for every pair, so that
// a mark that wraps around meets what the first one left.
func (x *X) longRuns() {
	env := Env{"r": obj(Prop{"a", sEmpty}, Prop{"b", sEmpty})}
	docs := []J{M{}, M{"a": 1.0}, M{"b": 1.0}, M{"a": 1.0, "b": 1.0}, M{"a": "s", "b": "s", "c": "s"}}
	lists := []J{L{}, L{1.0}, L{1.0, 2.0}, L{1.0, 1.0}, L{"s", 1.0}}
	type T struct {
		A jsval.MaybeInt    `json:"a"`
		B jsval.MaybeString `json:"b"`
	}
	structs := []J{T{}, T{A: mInt(1)}, T{B: mString("s")}, T{A: mInt(1), B: mString("s")}}
	e := sEmpty
	specs := []struct {
		s    *Spec
		vals []J
	}{
		{&Spec{Kind: "object", AddProps: e, PropDeps: []Dep{{"a", []string{"b"}}}}, docs},
		{&Spec{Kind: "object", Props: []Prop{{"a", e}, {"b", e}}, PropDeps: []Dep{{"b", []string{"a"}}}}, docs},
		{&Spec{Kind: "object", AddProps: e, SchemaDeps: []Prop{{"a", &Spec{Kind: "object", AddProps: e, Required: []string{"b"}}}}}, docs},
		{&Spec{Kind: "object", AddProps: e, Required: []string{"a", "b"}}, docs},
		{&Spec{Kind: "object", Props: []Prop{{"a", e}}, Required: []string{"a"}, AddProps: e}, docs},
		{&Spec{Kind: "object", Props: []Prop{{"a", e}}, Pats: []Prop{{"^b", sNum}}}, docs},
		{&Spec{Kind: "object", AddProps: sNum, MinProps: ip(1), MaxProps: ip(2)}, docs},
		{&Spec{Kind: "object", AddProps: e, PropDeps: []Dep{{"a", []string{"b"}}}}, structs},
		{&Spec{Kind: "object", Props: []Prop{{"a", e}, {"b", e}}, Required: []string{"b"}}, structs},
		{&Spec{Kind: "array", Unique: true}, lists},
		{&Spec{Kind: "array", Items: sNum}, lists},
		{&Spec{Kind: "array", HasPos: true, Pos: []*Spec{sNum}, SetAddI: true}, lists},
		{ref("r"), docs}, {not(ref("r")), docs},
		{oneof(sNum, strMin(1), numMin(2)), []J{1.0, 2.0, "s", "", nil}},
		{any_(sNum, strMin(1)), []J{1.0, "s", "", nil}},
		{strRx("^s"), []J{"s", "t", ""}},
		{enum("s", 1.0), []J{"s", "t", 1.0, nil}},
	}
	rounds, long := 300, 66000
	for i, t := range specs {
		for j := range t.vals {
			x.Case(func() string { return fmt.Sprintf("long runs on %s after %s (%d)", t.s, show(t.vals[j]), i) }, func() {
				x.count("long runs", 1)
				run := func(c *jsval.JSVal, a, b J, n int) {
					x.Traces++
					wa, wb := t.s.Eval(env, a), t.s.Eval(env, b)
					x.expect(c, a, wa, func() string { return t.s.String() })
					for r := 0; r < n; r++ {
						if err := c.Validate(b); (err == nil) != wb {
							Failf("%s on %s: expected accept=%v, got %v, %d validations after %s", t.s, show(b), wb, err, r, show(a))
						}
					}
					x.States++
					x.Transitions += int64(n)
				}
				for k := range t.vals {
					if j != k {
						run(t.s.Validator(env), t.vals[j], t.vals[k], rounds)
					}
				}
				k := (j + 1) % len(t.vals)
				if x.thorough || j < 2 {
					run(t.s.Validator(env), t.vals[j], t.vals[k], long)
				}
			})
		}
	}
}
