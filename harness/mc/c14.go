package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"reflect"
	"regexp"
	"sync"
	"time"
	"unsafe"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C14", run: c14, traces: "every (constraint, value) pair is executed on the real library; any panic, crash, deadlock or lack of progress within 60 CPU seconds is a violation; after each pair the same constraint validates again",
		bounds: "about 180 constraints of every kind, nested and with unresolvable references and defaults that do not fit x about 170 Go values of every kind, each also behind a pointer, in an interface, a slice, a map, a struct field and an embedded struct; nesting to depth 3000; values whose own methods (String, Error, Len, MarshalJSON, Equal, ...) must not be called; limits and divisors of every magnitude and sign",
		notes:  []string{"values that contain themselves, missing (nil) constraints and reference cycles that consume no input are outside the property"}})
}

type zUnexported struct {
	a string
	B string `json:"b"`
	c *int
}
type zRec struct {
	Next *zRec `json:"next"`
	A    int   `json:"a"`
}
type zNilNil struct{}

func (zNilNil) GetPropNames() ([]string, error)            { return []string{"a", "b"}, nil }
func (zNilNil) GetPropValue(n string) (interface{}, error) { return nil, nil }

type zDup struct{}

func (zDup) GetPropNames() ([]string, error)            { return []string{"a", "a", "", "zz"}, nil }
func (zDup) GetPropValue(n string) (interface{}, error) { return nil, errors.New("none") }

type zNamesOnly struct{ A int }

func (zNamesOnly) GetPropNames() ([]string, error) { return []string{"a", "q"}, nil }

type zValuesOnly struct {
	A int `json:"a"`
}

func (zValuesOnly) GetPropValue(n string) (interface{}, error) { return (*int)(nil), nil }

type zTags struct {
	A int `json:""`
	B int `json:","`
	C int `json:",,"`
	D int `json`
	E int `json:"\"q\""`
	F int `json:" "`
	G int `json:"-,"`
	_ int
	H struct{} `json:"h"`
}
type zIface struct {
	A interface{}   `json:"a"`
	B error         `json:"b"`
	C fmt.Stringer  `json:"c"`
	D jsval.Maybe   `json:"d"`
	E interface{}   `json:"e"`
	F func()        `json:"f"`
	G chan int      `json:"g"`
	H *zIface       `json:"h"`
	I []interface{} `json:"i"`
	J [2]int        `json:"j"`
}
type zMaybes struct {
	A ptrMaybe           `json:"a"`
	B *ptrMaybe          `json:"b"`
	C valMaybe           `json:"c"`
	D *valMaybe          `json:"d"`
	E jsval.Maybe        `json:"e"`
	S jsval.MaybeString  `json:"s"`
	P *jsval.MaybeString `json:"p"`
	I *jsval.MaybeInt    `json:"i"`
	F jsval.MaybeFloat   `json:"f"`
	N jsval.MaybeInt     `json:"n"`
	T jsval.MaybeTime    `json:"t"`
	U jsval.MaybeUint    `json:"u"`
	L jsval.MaybeBool    `json:"l"`
}
type zPlain struct {
	A string                 `json:"a"`
	S string                 `json:"s"`
	I int                    `json:"i"`
	U uint8                  `json:"u"`
	F float32                `json:"f"`
	L bool                   `json:"l"`
	M map[string]interface{} `json:"m"`
	P *string                `json:"p"`
	N *int                   `json:"n"`
}
type zEmb struct {
	*zPlain
	*zMaybes
	zUnexported
	Error error
}
type ZMap map[string]zPlain
type ZEmb2 struct {
	ZMap
	*ZEmb3
}
type ZEmb3 struct {
	sync.Mutex
	A int `json:"a"`
}

func c14values() []J {
	one := 1
	p1 := &one
	pp1 := &p1
	var e error
	var nilIface interface{}
	str := "s"
	var nilM M
	var nilMp *M
	m := M{"a": 1.0, "s": "x"}
	mp := &m
	var im interface{} = m
	pmn := &nilM
	vals := zooValues()
	vals = append(vals, pp1, &pp1, &nilIface, &e, &str, &nilM, nilMp, &nilMp, mp, &mp, &im, pmn,
		map[interface{}]interface{}{"a": 1}, map[interface{}]interface{}{1: 1, "a": 2}, map[interface{}]string{nil: "x"}, map[float64]int{1: 1}, map[[2]int]int{{1, 2}: 3}, map[struct{}]int{{}: 1}, map[*int]int{nil: 1}, map[keyString]int{"a": 1}, map[keyString]M{"a": {}}, map[error]int{errors.New("x"): 1}, map[int]int{1: 1}, map[bool]M{true: {}},
		map[string]func(){"a": nil}, map[string]chan int{"a": nil}, map[string]error{"a": nil}, map[string]jsval.Maybe{"a": nil, "b": (*ptrMaybe)(nil)}, map[string]*ptrMaybe{"a": nil, "s": {}}, map[string]jsval.MaybeInt{"a": {}, "s": mInt(1)}, map[string]*jsval.MaybeString{"a": nil}, map[string]interface{}{"a": (*int)(nil), "b": nilM, "s": (*jsval.MaybeString)(nil), "i": jsval.MaybeInt{}},
		zUnexported{}, &zUnexported{a: "x"}, zRec{}, &zRec{Next: &zRec{}}, zNilNil{}, &zNilNil{}, zDup{}, &zDup{}, zNamesOnly{}, &zNamesOnly{}, zValuesOnly{}, &zValuesOnly{}, zTags{}, &zTags{}, zIface{}, &zIface{}, &zIface{A: zIface{}, B: errors.New("x"), D: &ptrMaybe{}, E: (*int)(nil), H: &zIface{}, I: L{nil, zIface{}}}, zMaybes{}, &zMaybes{}, &zMaybes{B: &ptrMaybe{"x", true}, C: valMaybe{&ptrMaybe{}}, D: &valMaybe{}, E: &jsval.MaybeInt{}, P: &jsval.MaybeString{}, I: &jsval.MaybeInt{}}, zMaybes{E: valMaybe{}, A: ptrMaybe{"x", true}}, zPlain{}, &zPlain{}, zEmb{}, &zEmb{}, &zEmb{zPlain: &zPlain{}, zMaybes: &zMaybes{}}, ZMap{}, ZMap{"a": {}}, ZEmb2{}, &ZEmb2{ZEmb3: &ZEmb3{}}, &ZEmb3{}, dflt1{}, &dflt1{}, dflt2{}, &dflt2{}, dflt4{}, &dflt4{}, e6{}, &e12{}, Rec{}, &Rec{N: &Rec{}}, m1{}, &m1{},
		[]int(nil), [][]int{nil}, []error{nil}, []*int{nil, p1}, []jsval.Maybe{nil, &ptrMaybe{}}, []zPlain{{}}, []*zPlain{nil, {}}, []func(){nil}, []interface{}{nil, L(nil), M(nil), (*int)(nil)}, [3]interface{}{}, &[1]int{}, []struct{}{{}, {}}, []chan int{nil, nil}, [][]string{{"a"}, nil, {}}, []map[int]int{nil, {1: 1}}, []float64{math.NaN(), math.NaN()}, L{math.NaN(), math.Inf(1)},
		math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, float32(math.Inf(1)), math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), uintptr(1), complex64(1), unsafe.Pointer(nil), 'x', byte(1),
		json.Number("1"), json.Number("x"), json.RawMessage("{}"), time.Now(), &time.Time{}, time.Second, big.NewInt(1), *big.NewInt(1), url.URL{}, &url.URL{}, store{m: M{}}, &store{m: M{"a": 1.0}}, store{}, &store{m: M{}, full: "a"}, otherSet0{}, &otherSet0{}, &otherSet1{}, &otherSet2{}, &otherSet3{}, reflect.ValueOf(1), reflect.TypeOf(1), regexp.MustCompile("a"), sync.Mutex{}, &sync.Mutex{},
		errors.New("x"), fmt.Errorf("%w", errors.New("y")), jsval.String(), jsval.Object(), jsval.New(), *jsval.New(), jsval.ValidFlag(true), new(jsval.ValidFlag), &ptrMaybe{}, ptrMaybe{}, valMaybe{}, jsval.MaybeTime{}, &jsval.MaybeTime{},
		repeat("a", 70000), "\xff\xfe", "\x00", "::", "1.2.3.4", "a@b", "http://x", "%", repeat(".", 300), repeat("a.", 100), make([]int, 3000), make(L, 3000))
	vals = append(vals, (*time.Time)(nil), (*url.URL)(nil), (*big.Int)(nil), (*regexp.Regexp)(nil), (*zRude)(nil), &zRude{}, zRude{}, zRudeString("a"), zRudeInt(1), zRudeSlice{1, 2, 1}, zRudeMap{"a": 1.0}, (*zRudeString)(nil), (*jsval.MaybeTime)(nil), (*jsval.MaybeBool)(nil), (*jsval.JSVal)(nil), (*jsval.StringConstraint)(nil), (*json.Number)(nil), (*json.RawMessage)(nil), (*errRude)(nil), errRude{}, json.RawMessage(nil), new(json.Number),
		struct {
			A *zRude      `json:"a"`
			S zRudeString `json:"s"`
			E errRude     `json:"e"`
		}{}, M{"a": (*time.Time)(nil), "s": zRudeString("x")}, L{(*zRude)(nil), zRudeString("a"), zRudeString("a")}, L{zRude{}, zRude{}})
	return vals
}

// methods that are none of a validator's business
type (
	zRude       struct{ A string }
	zRudeString string
	zRudeInt    int
	zRudeSlice  []int
	zRudeMap    map[string]interface{}
	errRude     struct{ A int }
)

func (z zRude) String() string               { panic("String was called") }
func (z zRude) GoString() string             { panic("GoString was called") }
func (z zRude) MarshalJSON() ([]byte, error) { panic("MarshalJSON was called") }
func (z zRude) MarshalText() ([]byte, error) { panic("MarshalText was called") }
func (z zRude) Equal(interface{}) bool       { panic("Equal was called") }
func (z zRude) Len() int                     { panic("Len was called") }
func (z zRude) IsZero() bool                 { panic("IsZero was called") }
func (z zRudeString) String() string         { panic("String was called") }
func (z zRudeString) Error() string          { panic("Error was called") }
func (z zRudeString) Format(fmt.State, rune) { panic("Format was called") }
func (z zRudeInt) String() string            { panic("String was called") }
func (z zRudeInt) MarshalJSON() ([]byte, error) {
	panic("MarshalJSON was called")
}
func (z zRudeSlice) String() string { panic("String was called") }
func (z zRudeSlice) Len() int       { panic("Len was called") }
func (z zRudeMap) String() string   { panic("String was called") }
func (e errRude) Error() string     { panic("Error was called") }
func (e errRude) Unwrap() error     { panic("Unwrap was called") }

func c14specs() []*Spec {
	var out []*Spec
	add := func(s ...*Spec) { out = append(out, s...) }
	add(sStr, strMin(1), strMax(0), strRx("^a"), strRx(""), sStr.with(func(s *Spec) { s.HasEnum, s.Enum = true, []J{"a", nil, L{}, func() {}} }))
	for _, f := range []string{"date-time", "datetime", "email", "hostname", "ipv4", "ipv6", "uri", "bogus"} {
		add(sStr.with(func(s *Spec) { s.Format = f }))
	}
	add(sNum, numMin(0), sNum.with(func(s *Spec) { s.Max, s.ExMax = fp(0), true }), sNum.with(func(s *Spec) { s.Mult = fp(0) }), sNum.with(func(s *Spec) { s.Mult = fp(0.1) }), sNum.with(func(s *Spec) { s.HasEnum, s.Enum = true, []J{1.0, "a", M{}} }))
	add(sInt, intMin(0), sInt.with(func(s *Spec) { s.Mult = fp(2) }), sInt.with(func(s *Spec) { s.HasEnum, s.Enum = true, []J{} }), sInt.with(func(s *Spec) { s.Min, s.Max, s.ExMin, s.ExMax = fp(5), fp(1), true, true }))
	add(sBool, sBool.with(func(s *Spec) { s.HasEnum, s.Enum = true, []J{true} }), sNull, sEmpty, enum(), enum(nil), enum(1, "a", nil, L{}, M{}, M{"a": L{1}}), enum(L{1.0}, []int{1}, map[string]int{}), enum(zPlain{}, &zPlain{}, func() {}, make(chan int), math.NaN()))
	add(arr(nil), arr(sStr), arr(sEmpty), &Spec{Kind: "array", Unique: true}, &Spec{Kind: "array", Unique: true, Items: sNum, MinItems: ip(1), MaxItems: ip(2)}, &Spec{Kind: "array", HasPos: true, Pos: []*Spec{sNum, sStr}, SetAddI: true}, &Spec{Kind: "array", HasPos: true, Pos: []*Spec{sEmpty}, SetAddI: true, AddItems: sNum}, &Spec{Kind: "array", HasPos: true, Pos: []*Spec{}, SetAddI: true}, &Spec{Kind: "array", MinItems: ip(5)}, &Spec{Kind: "array", MaxItems: ip(0)})
	kids := []*Spec{sStr, sInt, sNum, sBool, sNull, sEmpty, arr(sEmpty), &Spec{Kind: "object", AddProps: sEmpty}, enum("a"), not(sNull), ref("missing"), ref("r"), ref("rec")}
	for _, c := range kids {
		add(obj(Prop{"a", c}), &Spec{Kind: "object", Props: []Prop{{"a", c}, {"s", c}, {"p", c}}, AddProps: sEmpty, Required: []string{"a"}}, &Spec{Kind: "object", AddProps: c}, &Spec{Kind: "object", Pats: []Prop{{"", c}}}, &Spec{Kind: "object", AddProps: sEmpty, SchemaDeps: []Prop{{"a", c}, {"s", c}}}, not(c), any_(c, sStr), all(c, c), oneof(c, sEmpty), arr(c))
	}
	add(obj(), &Spec{Kind: "object", AddProps: sEmpty}, &Spec{Kind: "object", AddProps: sEmpty, Required: []string{"a", "zz", ""}}, &Spec{Kind: "object", AddProps: sEmpty, MinProps: ip(1), MaxProps: ip(2)}, &Spec{Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{"a", []string{"s", "zz"}}, {"s", []string{"a"}}}}, any_(), all(), oneof(), ref("missing"), ref("r"), ref("rec"), ref("chain"))
	// defaults of every kind for every name that the structs have
	for _, d := range []J{"d", "", 1, 1.5, int8(3), uint(4), true, nil, L{1.0}, M{"a": 1.0}, time.Unix(0, 0), "2020-01-02T03:04:05Z", &struct{}{}, func() {}, jsval.MaybeInt{}, []byte("x"), complex(1, 1)} {
		for _, base := range []*Spec{sStr, sNum, sInt, sBool} {
			c := base.with(func(s *Spec) { s.HasDefault, s.Default = true, d })
			s := &Spec{Kind: "object", AddProps: sEmpty}
			for _, n := range []string{"a"} {
				s.Props = append(s.Props, Prop{n, c})
			}
			add(s)
			if base == sStr {
				for _, n := range []string{"b", "c", "d", "e", "p", "i", "f", "n", "t", "u", "l", "s", "h", "g", "q", "", "Hidden"} {
					add(&Spec{Kind: "object", AddProps: sEmpty, Props: []Prop{{n, c}}})
				}
			}
		}
	}
	add(&Spec{Kind: "object", AddProps: sEmpty, Props: []Prop{{"zz", dstr("d")}}}, &Spec{Kind: "object", AddProps: sEmpty, Props: []Prop{{"a", ref("def")}, {"q", ref("def")}}})
	return out
}

func c14(x *X) {
	env := Env{"r": strMin(1), "rec": any_(sNum, &Spec{Kind: "object", AddProps: ref("rec")}, arr(ref("rec"))), "chain": ref("missing"), "def": dstr("d")}
	n := len(c14values())
	wrap := func(v J, w int) (out J) {
		switch w {
		case 0:
			return v
		case 1:
			return L{v, v}
		case 2:
			return M{"a": v, "b": nil}
		case 3:
			return &v
		case 4:
			return struct {
				A interface{} `json:"a"`
				S interface{} `json:"s"`
			}{v, v}
		case 5:
			return M{"s": M{"a": v}, "a": L{v}}
		case 6:
			return func() J { p := &v; return &p }()
		}
		// a typed holder made by reflection: pointer, slice, map or field of the very type
		rv := reflect.ValueOf(v)
		if !rv.IsValid() {
			return nil
		}
		switch w {
		case 7:
			p := reflect.New(rv.Type())
			p.Elem().Set(rv)
			return p.Interface()
		case 8:
			s := reflect.MakeSlice(reflect.SliceOf(rv.Type()), 0, 2)
			return reflect.Append(s, rv, rv).Interface()
		case 9:
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), rv.Type()))
			m.SetMapIndex(reflect.ValueOf("a"), rv)
			return m.Interface()
		case 10, 11:
			t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: rv.Type(), Tag: `json:"a"`}, {Name: "S", Type: reflect.PtrTo(rv.Type()), Tag: `json:"s,omitempty"`}})
			p := reflect.New(t)
			p.Elem().Field(0).Set(rv)
			if w == 10 {
				return p.Interface()
			}
			return p.Elem().Interface()
		}
		return v
	}
	good := []J{"s", 1.0, M{"a": "s"}, L{"s"}, nil}
	for si, s := range c14specs() {
		x.Case(func() string { return fmt.Sprintf("constraint %d: %s", si, s) }, func() {
			c := s.Validator(env)
			x.Traces++
			for w := 0; w < 12; w++ {
				vals := c14values()
				for i := 0; i < n; i++ {
					v := wrap(vals[i], w)
					x.States++
					x.Tick()
					kind, detail := protect(func() { msg(c.Validate(v)) })
					if kind != "" {
						Failf("%s on %T (value %d, holder %d): %s: %s", s, v, i, w, kind, detail)
					}
					msg(c.Validate(good[i%len(good)]))
					x.Transitions += 2
				}
			}
		})
	}
	c14limits(x)
	// deep and long
	for _, d := range []int{10, 100, 1000, 3000} {
		x.Case(func() string { return fmt.Sprintf("values nested %d deep", d) }, func() {
			var l, m J = 1.0, 1.0
			for i := 0; i < d; i++ {
				l, m = L{l}, M{"a": m}
			}
			for _, s := range []*Spec{ref("rec"), arr(sEmpty), {Kind: "array", Unique: true}, {Kind: "object", AddProps: sEmpty}, enum(1.0), not(ref("rec"))} {
				c := s.Validator(env)
				x.States++
				x.Traces++
				x.Transitions += 2
				msg(c.Validate(l))
				msg(c.Validate(m))
			}
		})
	}
	// validators without names, with every reference missing, built and asked concurrently with failures
	x.Case(func() string { return "failures release what they hold" }, func() {
		o := jsval.Object().Required("zz").AddProp("a", jsval.String().Default(1)).PatternPropertiesString("^p", jsval.Number()).PropDependency("b", "c").SchemaDependency("d", jsval.Not(jsval.EmptyConstraint))
		r := jsval.Reference(jsval.New()).RefersTo("none")
		for i := 0; i < 3; i++ {
			for _, v := range []J{M{}, M{"zz": 1, "p": "x"}, M{"zz": 1, "q": 1}, M{"b": 1}, map[string]bool{"zz": true}, nil, &plainStruct{}, plainStruct{}} {
				x.States++
				x.Transitions++
				msg(o.Validate(v))
				o.Required("a").AddProp("b", jsval.EmptyConstraint).PropDependency("x", "y").SchemaDependency("d", jsval.Not(jsval.EmptyConstraint)).PatternPropertiesString("x", jsval.String())
				msg(r.Validate(v))
				r.HasDefault()
				r.DefaultValue()
				o.IsPropRequired("a")
				o.GetPropDependencies("b")
				o.GetSchemaDependency("d")
			}
		}
		x.Traces++
	})
}

func msg(err error) {
	if err != nil && err.Error() == "" {
		Failf("an error without a message")
	}
}
