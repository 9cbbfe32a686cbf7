package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C10", run: c10, traces: "every struct value is validated by the real library, as a struct and behind a pointer, and so is the map that the model derives from it; both verdicts are compared with the model's",
		bounds: "all struct types with 1 or 2 fields (quick; thorough: 3) from 12 field types x 9 tags, and 11 Maybe types of the application (slices, maps, functions, basic kinds, pointers, the interface) beside some of these, each field zero or set, against object constraints with every role (declared, required, pattern, additional, counted, dependent) of every property name; structs of up to 40 fields with every single Maybe unset; 17 embedding shapes; embedding chains to depth 16 by value, pointer and both; types that supply their own properties; types of equal name; alternating histories of types; 92 shapes of struct, each as a type never met before, through every sequence of 2 (quick) or 3 of its values; structs of up to 300 fields; 2100 struct types one after another and again; all tag names of up to 2 (quick) or 3 of 11 characters (letters of one to four bytes, spaces, punctuation) and 40 more x options x other tags beside; fields of 41 types, zero and not, under 10 tag options; structs that say what their properties are while having fields of the same names: 5 fields x 11 x 12 values x 66 constraints; fields tagged for 21 other keys x 9 texts x 5 json tags",
		notes:  []string{"several embedded fields of one name at equal depth, and embedded Maybe types, are outside the property"}})
}

var maybeT = reflect.TypeOf((*jsval.Maybe)(nil)).Elem()

// structProps is the model of a struct: its JSON properties.
func structProps(rv reflect.Value) M {
	m := M{}
	depth := map[string]int{}
	collect(rv, m, depth, 0)
	return m
}

func collect(rv reflect.Value, m M, depth map[string]int, d int) {
	t := rv.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("json")
		name := strings.Split(tag, ",")[0]
		if f.Anonymous && name == "" {
			ft := f.Type
			if ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
			}
			if ft.Kind() == reflect.Struct {
				fv := rv.Field(i)
				if fv.Kind() == reflect.Ptr {
					fv = fv.Elem()
				}
				if fv.IsValid() {
					collect(fv, m, depth, d+1)
				}
				continue
			}
		}
		if f.PkgPath != "" || tag == "-" {
			continue
		}
		if name == "" {
			name = f.Name
		}
		if od, ok := depth[name]; ok && od <= d {
			continue
		}
		depth[name] = d
		delete(m, name)
		fv := rv.Field(i)
		if v, present := fieldValue(fv); present {
			m[name] = v
		}
	}
}

func fieldValue(fv reflect.Value) (J, bool) {
	t := fv.Type()
	if t.Implements(maybeT) || reflect.PtrTo(t).Implements(maybeT) {
		var mb jsval.Maybe
		if t.Implements(maybeT) {
			if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && fv.IsNil() {
				return nil, false
			}
			mb = fv.Interface().(jsval.Maybe)
		} else {
			p := reflect.New(t)
			p.Elem().Set(fv)
			mb = p.Interface().(jsval.Maybe)
		}
		if !mb.Valid() {
			return nil, false
		}
		return mb.Value(), true
	}
	return fv.Interface(), true
}

// own property tables
type ownProps struct {
	Hidden int
	names  []string
	vals   M
}

func (o ownProps) GetPropNames() ([]string, error) { return o.names, nil }
func (o ownProps) GetPropValue(n string) (interface{}, error) {
	v, ok := o.vals[n]
	if !ok {
		return nil, errors.New("no " + n)
	}
	return v, nil
}
func (o ownProps) Props() M {
	m := M{}
	for _, n := range o.names {
		m[n] = o.vals[n]
	}
	return m
}

type failProps struct {
	A string  `json:"a"`
	N float64 `json:"b"`
}

func (o failProps) GetPropNames() ([]string, error) { return nil, errors.New("ask the fields") }
func (o failProps) GetPropValue(n string) (interface{}, error) {
	return nil, errors.New("ask the fields")
}

// embeddings
type embA struct {
	A string  `json:"a"`
	X float64 `json:"x"`
}
type EmbB struct {
	B jsval.MaybeString `json:"b"`
	Y float64
}
type EmbC struct {
	EmbB
	C string `json:"c"`
}
type EmbD struct {
	*EmbC
	D string `json:"d,omitempty"`
}
type EmbStr string
type e1 struct{ embA }
type e2 struct {
	embA
	A float64 `json:"a"`
}
type e3 struct {
	A float64 `json:"a"`
	embA
	EmbB
}
type e4 struct {
	*EmbB
	A string `json:"a"`
}
type e5 struct {
	EmbC
	X string `json:"x"`
}
type e6 struct {
	EmbD
	embA `json:"tagged"`
}
type e7 struct {
	EmbB `json:"emb"`
	X    string `json:"x"`
}
type e8 struct {
	*EmbC `json:"emb,omitempty"`
	b     string
}
type e9 struct {
	EmbB `json:"-"`
	X    string `json:"x"`
}
type e10 struct {
	EmbStr
	EmbB `json:",omitempty"`
}
type e11 struct {
	EmbStr `json:"s"`
	time.Duration
}
type e12 struct {
	EmbD
	B string `json:"b"`
	D jsval.MaybeInt
}
type Rec struct {
	*Rec
	A string `json:"a"`
	N *Rec   `json:"n"`
}
type e14 struct {
	EmbC // b at depth 2
	E14b // b at depth 1
}
type E14b struct {
	B float64 `json:"b"`
}
type e15 struct {
	E14b
	EmbC
}
type e16 struct {
	Iface
	A string `json:"a"`
}
type Iface interface{}
type ptrMaybe struct {
	v  string
	ok bool
}

func (p *ptrMaybe) Valid() bool { return p.ok }
func (p *ptrMaybe) Value() interface{} {
	return p.v
}
func (p *ptrMaybe) Set(v interface{}) error {
	s, ok := v.(string)
	if !ok {
		return errors.New("no string")
	}
	p.v, p.ok = s, true
	return nil
}
func (p *ptrMaybe) Reset() { p.ok = false }

type valMaybe struct{ p *ptrMaybe }

func (p valMaybe) Valid() bool { return p.p != nil && p.p.ok }
func (p valMaybe) Value() interface{} {
	if p.p == nil {
		return nil
	}
	return p.p.v
}
func (p valMaybe) Set(v interface{}) error {
	if p.p == nil {
		return errors.New("nothing to set")
	}
	return p.p.Set(v)
}
func (p valMaybe) Reset() { p.p.ok = false }

type m1 struct {
	A ptrMaybe        `json:"a"`
	B *ptrMaybe       `json:"b"`
	C valMaybe        `json:"c"`
	D jsval.Maybe     `json:"d"`
	E *jsval.MaybeInt `json:"e"`
}

func mString(s string) jsval.MaybeString {
	return jsval.MaybeString{ValidFlag: true, String: s}
}
func mInt(i int64) jsval.MaybeInt       { return jsval.MaybeInt{ValidFlag: true, Int: i} }
func mFloat(f float64) jsval.MaybeFloat { return jsval.MaybeFloat{ValidFlag: true, Float: f} }
func mBool(b bool) jsval.MaybeBool      { return jsval.MaybeBool{ValidFlag: true, Bool: b} }

// structSpecs: object constraints that put the given names in every role.
func structSpecs(names []string) []*Spec {
	out := []*Spec{obj(), {Kind: "object", AddProps: sEmpty}, {Kind: "object", AddProps: sStr}, {Kind: "object", AddProps: sNum}, {Kind: "object", AddProps: not(sNull)},
		{Kind: "object", Pats: []Prop{{"", sEmpty}}}, {Kind: "object", Pats: []Prop{{"", sStr}}}, {Kind: "object", Pats: []Prop{{"^[a-z]", any_(sNum, sInt)}}, AddProps: sEmpty}}
	for n := 0; n <= len(names)+1; n++ {
		out = append(out, &Spec{Kind: "object", AddProps: sEmpty, MinProps: ip(n)}, &Spec{Kind: "object", AddProps: sEmpty, MaxProps: ip(n)})
	}
	var allp []Prop
	for _, a := range names {
		allp = append(allp, Prop{a, sEmpty})
		out = append(out,
			&Spec{Kind: "object", Required: []string{a}, AddProps: sEmpty},
			&Spec{Kind: "object", Props: []Prop{{a, sEmpty}}, Required: []string{a}, AddProps: sEmpty},
			&Spec{Kind: "object", Props: []Prop{{a, sEmpty}}},
			&Spec{Kind: "object", Props: []Prop{{a, sStr}}, AddProps: sEmpty},
			&Spec{Kind: "object", Props: []Prop{{a, sInt}}, AddProps: sEmpty},
			&Spec{Kind: "object", Props: []Prop{{a, not(sNull)}}, AddProps: not(sStr)},
			&Spec{Kind: "object", Pats: []Prop{{"^" + a + "$", strMin(1)}}, AddProps: sEmpty},
		)
		for _, b := range names {
			if a != b {
				out = append(out, &Spec{Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{a, []string{b}}}},
					&Spec{Kind: "object", Props: []Prop{{b, sEmpty}}, AddProps: sEmpty, SchemaDeps: []Prop{{a, &Spec{Kind: "object", AddProps: sEmpty, Required: []string{b}}}}})
			}
		}
	}
	out = append(out, &Spec{Kind: "object", Props: allp}, &Spec{Kind: "object", Props: allp, Required: names})
	return out
}

func (x *X) structCheck(specs []*Spec, vals []J) {
	cs := make([]validator, len(specs))
	for i, s := range specs {
		cs[i] = s.Validator(nil)
	}
	for _, v := range vals {
		props, ok := properties(v)
		if !ok {
			panic("no struct")
		}
		rv := reflect.ValueOf(v)
		pv := reflect.New(rv.Type())
		pv.Elem().Set(rv)
		ppv := reflect.New(pv.Type())
		ppv.Elem().Set(pv)
		x.Traces++
		for i, s := range specs {
			want := s.Eval(nil, props)
			x.States++
			what := func() string { return s.String() + " (map of properties " + show(props) + ")" }
			x.expect(cs[i], v, want, what)
			x.expect(cs[i], props, want, what)
			x.expect(cs[i], pv.Interface(), want, what)
			if rv.Kind() == reflect.Struct {
				x.expect(cs[i], ppv.Interface(), want, what)
			}
		}
	}
	setOrder(1)
	for j := len(vals) - 1; j >= 0; j-- {
		props, _ := properties(vals[j])
		for i, s := range specs {
			x.expect(cs[i], vals[j], s.Eval(nil, props), func() string { return s.String() })
		}
	}
	setOrder(0)
}

type fieldAlt struct {
	t    reflect.Type
	vals []J
}

func fieldAlts() []fieldAlt {
	f := func(vals ...J) fieldAlt { return fieldAlt{reflect.TypeOf(vals[0]), vals} }
	e := f("", "s")
	iface := fieldAlt{reflect.TypeOf((*interface{})(nil)).Elem(), []J{nil, "s"}}
	pm := mString("s")
	return []fieldAlt{e, f(0.0, 1.5), f(0, 3), f(false), iface, f(nilStr, sp("s")), f(L{"s"}), f(jsval.MaybeString{}, mString(""), mString("s")), f(jsval.MaybeInt{}, mInt(0), mInt(5)), f(jsval.MaybeFloat{}, mFloat(1.5)), f((*jsval.MaybeString)(nil), &jsval.MaybeString{}, &pm), f(plainStruct{A: "s"})}
}

var tagAlts = []string{``, `json:"a"`, `json:"b,omitempty"`, `json:",omitempty"`, `json:"-"`, `json:"-,"`, `xml:"q" json:"c,string,omitempty"`, `json:"long-name.x"`, `xml:"a"`}

func c10(x *X) {
	x.ownValues()
	x.otherTags()
	c10tags(x)
	c10kinds(x)
	alts := fieldAlts()
	type fieldOpt struct {
		alt fieldAlt
		tag string
	}
	var opts []fieldOpt
	for _, a := range alts {
		for _, t := range tagAlts {
			opts = append(opts, fieldOpt{a, t})
		}
	}
	goNames := []string{"Alpha", "Beta", "Gamma"}
	try := func(fs []fieldOpt) {
		x.Case(func() string {
			d := "struct {"
			for i, f := range fs {
				d += fmt.Sprintf(" %s %s `%s`;", goNames[i], f.alt.t, f.tag)
			}
			return d + "}"
		}, func() {
			var sf []reflect.StructField
			names := []string{}
			seen := map[string]bool{}
			for i, f := range fs {
				sf = append(sf, reflect.StructField{Name: goNames[i], Type: f.alt.t, Tag: reflect.StructTag(f.tag)})
				n := strings.Split(reflect.StructTag(f.tag).Get("json"), ",")[0]
				if n == "" {
					n = goNames[i]
				}
				if !seen[n] {
					names = append(names, n)
					seen[n] = true
				}
			}
			t := reflect.StructOf(sf)
			var vals []J
			var rec func(i int, rv reflect.Value)
			rec = func(i int, rv reflect.Value) {
				if i == len(fs) {
					vals = append(vals, rv.Elem().Interface())
					return
				}
				for _, v := range fs[i].alt.vals {
					if v == nil {
						rv.Elem().Field(i).SetZero()
					} else {
						rv.Elem().Field(i).Set(reflect.ValueOf(v))
					}
					rec(i+1, rv)
				}
			}
			rec(0, reflect.New(t))
			x.structCheck(structSpecs(names), vals)
		})
	}
	jsonName := func(i int, f fieldOpt) string {
		tag := reflect.StructTag(f.tag).Get("json")
		n := strings.Split(tag, ",")[0]
		if tag == "-" {
			return fmt.Sprint("-", i)
		}
		if n == "" {
			n = goNames[i]
		}
		return n
	}
	for _, a := range opts {
		try([]fieldOpt{a})
		for _, b := range opts {
			if jsonName(0, a) == jsonName(1, b) {
				continue
			}
			try([]fieldOpt{a, b})
		}
	}
	var few []fieldOpt
	for _, i := range []int{0, 2, 4, 7, 10} {
		few = append(few, fieldOpt{alts[i], ``}, fieldOpt{alts[i], `json:"b,omitempty"`})
	}
	for _, m := range moreMaybes() {
		for _, t := range []string{``, `json:"a"`, `json:"-"`} {
			try([]fieldOpt{{m, t}})
			for _, b := range few {
				try([]fieldOpt{{m, t}, b})
			}
		}
	}
	x.structHistories()
	if x.thorough {
		small := []fieldOpt{}
		for _, i := range []int{0, 2, 4, 7, 10} {
			for _, t := range []string{``, `json:"a"`, `json:"b,omitempty"`, `json:"-"`} {
				small = append(small, fieldOpt{alts[i], t})
			}
		}
		for _, a := range small {
			for _, b := range small {
				for _, c := range small {
					if jsonName(0, a) == jsonName(1, b) || jsonName(0, a) == jsonName(2, c) || jsonName(1, b) == jsonName(2, c) {
						continue
					}
					try([]fieldOpt{a, b, c})
				}
			}
		}
	}

	// wide structs
	for _, n := range upTo(40, 300) {
		for form := 0; form < 3; form++ {
			x.Case(func() string { return fmt.Sprintf("struct of %d fields, form %d", n, form) }, func() {
				var sf []reflect.StructField
				var names []string
				isMaybe := func(i int) bool { return form == 0 || (form == 1 && i%3 == 0) }
				for i := 0; i < n; i++ {
					f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0.0), Tag: reflect.StructTag(fmt.Sprintf(`json:"%s,omitempty"`, nm(i)))}
					if isMaybe(i) {
						f.Type = reflect.TypeOf(jsval.MaybeInt{})
					}
					sf = append(sf, f)
					names = append(names, nm(i))
				}
				t := reflect.StructOf(sf)
				mk := func(unset int) J {
					rv := reflect.New(t).Elem()
					for i := 0; i < n; i++ {
						if isMaybe(i) {
							if i != unset {
								rv.Field(i).Set(reflect.ValueOf(mInt(int64(i))))
							}
						} else {
							rv.Field(i).SetFloat(float64(i))
						}
					}
					return rv.Interface()
				}
				vals := []J{mk(-1), reflect.New(t).Elem().Interface()}
				for i := 0; i < n; i++ {
					if n > 40 && (i+form)%17 != 0 && i > 1 && i < n-2 {
						continue
					}
					vals = append(vals, mk(i))
				}
				var ps []Prop
				for _, n := range names {
					ps = append(ps, Prop{n, sInt})
				}
				last := names[n-1]
				specs := []*Spec{{Kind: "object", Props: ps}, {Kind: "object", Props: ps, Required: names}, {Kind: "object", AddProps: sEmpty, Required: names}, {Kind: "object", AddProps: sEmpty, MinProps: ip(n)}, {Kind: "object", AddProps: sEmpty, MaxProps: ip(n - 1)}, {Kind: "object", Pats: []Prop{{"^p", sInt}}}, {Kind: "object", AddProps: sInt, PropDeps: []Dep{{last, names}}}, {Kind: "object", AddProps: sInt, PropDeps: []Dep{{names[0], []string{last}}}}, {Kind: "object", Props: []Prop{{last, sInt}}, Required: []string{last}, AddProps: sInt}, {Kind: "object", Props: []Prop{{last, sStr}}, AddProps: sEmpty}}
				x.structCheck(specs, vals)
			})
		}
	}

	c10embedded(x)
	c10names(x)
	x.manyTypes()
}

func c10embedded(x *X) {
	x.embeddingChains()
	b := mString("s")
	u := jsval.MaybeString{}
	rec := &Rec{A: "inner"}
	groups := [][]J{
		{e1{}, e1{embA{"s", 1}}},
		{e2{}, e2{embA{"s", 1}, 2}},
		{e3{}, e3{2, embA{"s", 1}, EmbB{b, 1}}, e3{2, embA{"s", 1}, EmbB{u, 1}}},
		{e4{}, e4{&EmbB{b, 1}, "s"}, e4{&EmbB{}, ""}},
		{e5{}, e5{EmbC{EmbB{b, 1}, "c"}, "x"}},
		{e6{}, e6{EmbD{nil, "d"}, embA{}}, e6{EmbD{&EmbC{}, "d"}, embA{"s", 1}}, e6{EmbD{&EmbC{EmbB{b, 1}, "c"}, "d"}, embA{"s", 1}}},
		{e7{}, e7{EmbB{b, 1}, "x"}},
		{e8{}, e8{&EmbC{}, "b"}},
		{e9{}, e9{EmbB{b, 1}, "x"}},
		{e10{}, e10{"s", EmbB{b, 1}}},
		{e11{}, e11{"s", time.Second}},
		{e12{}, e12{EmbD{&EmbC{EmbB{b, 1}, "c"}, "d"}, "bb", mInt(1)}, e12{EmbD{&EmbC{}, "d"}, "", jsval.MaybeInt{}}},
		{Rec{A: "x"}, Rec{A: "x", N: rec}},
		{e14{}, e14{EmbC{EmbB{b, 1}, "c"}, E14b{3}}, e14{EmbC{EmbB{u, 1}, "c"}, E14b{3}}},
		{e15{}, e15{E14b{3}, EmbC{EmbB{b, 1}, "c"}}},
		{e16{}, e16{"iface", "a"}, e16{1.5, ""}},
		{m1{}, m1{ptrMaybe{"s", true}, &ptrMaybe{"s", true}, valMaybe{&ptrMaybe{"s", true}}, &ptrMaybe{"t", true}, &jsval.MaybeInt{}}, m1{ptrMaybe{"s", false}, &ptrMaybe{"s", false}, valMaybe{&ptrMaybe{"s", false}}, &ptrMaybe{"t", false}, func() *jsval.MaybeInt { m := mInt(4); return &m }()}},
		{ownProps{1, []string{"a", "x"}, M{"a": "s", "x": 1.0}}, ownProps{1, []string{"a"}, M{"a": 2.0, "x": 1.0}}, ownProps{names: []string{"b"}, vals: M{"b": "q"}}},
		{failProps{}, failProps{"s", 2}},
		{struct{}{}, plainStruct{}, plainStruct{"s", 1}},
	}
	for _, g := range groups {
		names := map[string]bool{"a": true, "b": true, "zz": true}
		for _, v := range g {
			p, _ := properties(v)
			for k := range p {
				names[k] = true
			}
		}
		var l []string
		for _, k := range sortedKeys(names) {
			l = append(l, k)
		}
		_, own := g[0].(ownProps)
		x.Case(func() string { return fmt.Sprintf("%T", g[0]) }, func() {
			specs := structSpecs(l)
			if own {
				// a table that knows values it does not list is judged by declared names only through its values
				var keep []*Spec
				for _, s := range specs {
					ok := true
					for _, p := range s.Props {
						if p.Name == "x" {
							ok = false
						}
					}
					if ok {
						keep = append(keep, s)
					}
				}
				specs = keep
			}
			x.structCheck(specs, g)
		})
	}
	// structs below maps, slices, structs, pointers
	type holder struct {
		In  plainStruct    `json:"in"`
		Ptr *plainStruct   `json:"ptr"`
		Any interface{}    `json:"any"`
		Sl  []plainStruct  `json:"sl"`
		Ps  []*plainStruct `json:"ps"`
		Mp  map[string]e1  `json:"mp"`
	}
	good, bad := plainStruct{"s", 1}, plainStruct{"", 1}
	var hv []J
	for mask := 0; mask < 64; mask++ {
		pick := func(i int) plainStruct {
			if mask>>i&1 != 0 {
				return bad
			}
			return good
		}
		p1, p4 := pick(1), pick(4)
		hv = append(hv, holder{pick(0), &p1, pick(2), []plainStruct{good, pick(3)}, []*plainStruct{&p4}, map[string]e1{"k": {embA{A: pick(5).A}}}})
	}
	in := &Spec{Kind: "object", Props: []Prop{{"a", strMin(1)}}, AddProps: sEmpty, Required: []string{"a"}}
	for mask := 1; mask < 64; mask++ {
		s := &Spec{Kind: "object", AddProps: sEmpty}
		for i, n := range []string{"in", "ptr", "any", "sl", "ps", "mp"} {
			if mask>>i&1 != 0 {
				c := in
				if i == 3 || i == 4 {
					c = arr(in)
				}
				if i == 5 {
					c = &Spec{Kind: "object", AddProps: in}
				}
				s.Props = append(s.Props, Prop{n, c})
			}
		}
		x.Case(func() string { return "nested structs " + s.String() }, func() { x.structCheck([]*Spec{s}, hv) })
	}
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

func typeT1(s string) J {
	type T struct {
		A string `json:"a"`
	}
	return T{s}
}
func typeT2(s string) J {
	type T struct {
		B string `json:"b"`
		A float64
	}
	return T{s, 1}
}
func typeT3(s jsval.MaybeString) J {
	type T struct {
		A jsval.MaybeString `json:"a"`
	}
	return T{s}
}

// types of equal name, in every order of first use
func c10names(x *X) {
	vals := []J{typeT1("s"), typeT2("s"), typeT3(mString("s")), typeT3(jsval.MaybeString{}), typeT1("")}
	specs := structSpecs([]string{"a", "b", "A"})
	for i := range vals {
		for j := range vals {
			for l := range vals {
				x.Case(func() string { return fmt.Sprintf("types of one name, order %d %d %d", i, j, l) }, func() {
					x.structCheck(specs, []J{vals[i], vals[j], vals[l], vals[i]})
				})
			}
		}
	}
}
