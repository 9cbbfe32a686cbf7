package main

import (
	"fmt"
	"reflect"
	"time"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C09", run: c09, traces: "every (constraint, object) pair is executed on the real library on a fresh copy of the object, and the verdict and the complete content of the object afterwards are compared with the model",
		bounds: "all 13500 combinations of defaulted, pattern, required, additional properties, count limits, property and schema dependencies x all 64 maps over three names; all assignments of 9 property declarations (with and without default, zero defaults, defaults through references, none) x required to 3 names x all 64 or 125 maps, under two map orders; up to 40 defaulted properties with every single one present; nesting in objects, arrays, patterns and additional properties to depth 16; typed maps; struct fields of every Maybe kind, pointer and embedded ones: all 3^6 states x all 3^6 default/required choices x encodings of the default; 30 quadruples of easily confused property names (empty, case variants, spaces, prefixes, pointers, keywords, control characters) x 648 object configurations x 33 maps; about 450 numeric defaults of every shape and Go type x maps and the Maybe fields, and all strings of up to 2 of 20 awkward characters; defaults below dependency schemas, below all-of combinators and below references to these, in all 32 subsets of five places, on maps and pointers to structs, nested or not; numbers of defaults at and around powers of two and round numbers up to 1025; structs that store their own properties (SetPropValue), of every mix of stored and absent properties and defaults",
		notes:  []string{"defaults stored before a failing validation and defaults below alternatives (any, one of, not) are outside the property"}})
}

// fill is the model of what a successful validation does to a value (maps
// and pointers to maps; the caller passes a copy).
func (s *Spec) fill(env Env, v J) {
	switch s.Kind {
	case "ref":
		if t, ok := env[s.Ref]; ok {
			t.fill(env, v)
		}
	case "array":
		l, ok := v.(L)
		if !ok {
			return
		}
		for i, e := range l {
			switch {
			case s.Items != nil:
				s.Items.fill(env, e)
			case s.HasPos && i < len(s.Pos):
				s.Pos[i].fill(env, e)
			case s.HasPos && s.AddItems != nil:
				s.AddItems.fill(env, e)
			}
		}
	case "object":
		m, ok := v.(M)
		if !ok {
			return
		}
		decl := map[string]*Spec{}
		for _, p := range s.Props {
			decl[p.Name] = p.S
		}
		for k, e := range m {
			if c, ok := decl[k]; ok {
				c.fill(env, e)
				continue
			}
			matched := false
			for _, p := range s.Pats {
				if rx(p.Name).MatchString(k) {
					matched = true
					p.S.fill(env, e)
				}
			}
			if !matched && s.AddProps != nil {
				s.AddProps.fill(env, e)
			}
		}
		for n, c := range decl {
			if !has(m, n) {
				if d, ok := c.dflt(env); ok {
					m[n] = d
				}
			}
		}
	}
}

func (s *Spec) dflt(env Env) (J, bool) {
	for s.Kind == "ref" {
		t, ok := env[s.Ref]
		if !ok {
			return nil, false
		}
		s = t
	}
	return s.Default, s.HasDefault
}

func cpJ(v J) J {
	switch x := v.(type) {
	case L:
		if x == nil {
			return x
		}
		c := make(L, len(x))
		for i, e := range x {
			c[i] = cpJ(e)
		}
		return c
	case M:
		if x == nil {
			return x
		}
		c := M{}
		for k, e := range x {
			c[k] = cpJ(e)
		}
		return c
	}
	return v
}

// subset: everything in a is still in b, unchanged.
func subset(a, b J) bool {
	switch x := a.(type) {
	case L:
		y, ok := b.(L)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !subset(x[i], y[i]) {
				return false
			}
		}
		return true
	case M:
		y, ok := b.(M)
		if !ok {
			return false
		}
		for k := range x {
			if e, ok := y[k]; !ok || !subset(x[k], e) {
				return false
			}
		}
		return true
	}
	return jsonEqual(a, b)
}

func (x *X) fillCheck(s *Spec, env Env, vals []J) {
	c := s.Validator(env)
	what := func() string { return s.String() }
	x.Traces++
	for pass := 0; pass < 2; pass++ {
		setOrder(pass)
		for _, v := range vals {
			x.States++
			in := cpJ(v)
			want := s.Eval(env, v)
			x.expect(c, in, want, what)
			if !want {
				if !subset(v, in) {
					Failf("%s changed %s to %s while rejecting it", s, show(v), show(in))
				}
				continue
			}
			model := cpJ(v)
			s.fill(env, model)
			if !jsonEqual(in, model) {
				Failf("%s on %s: content afterwards is %s, expected %s (map order %d)", s, show(v), show(in), show(model), pass)
			}
		}
	}
	setOrder(0)
}

func dstr(d string) *Spec { return sStr.with(func(s *Spec) { s.HasDefault, s.Default = true, d }) }
func dnum(d J) *Spec      { return sNum.with(func(s *Spec) { s.HasDefault, s.Default = true, d }) }
func dint(d J) *Spec      { return sInt.with(func(s *Spec) { s.HasDefault, s.Default = true, d }) }
func dbool(d J) *Spec     { return sBool.with(func(s *Spec) { s.HasDefault, s.Default = true, d }) }

func c09(x *X) {
	c09below(x)
	c09stores(x)
	names := []string{"a", "b", "c"}
	env := Env{"r": dstr("via"), "rr": ref("r"), "plain": sStr}
	decls := []*Spec{nil, dstr("d"), dstr(""), dnum(1.5), dint(0.0), dbool(false), sEmpty, ref("rr"), ref("plain"), dstr("short").with(func(s *Spec) { s.MinLen = ip(9) })}
	vals := []J{"x", nil, 2.0}
	if x.thorough {
		vals = append(vals, false)
	}
	maps := presence(names, vals)
	opts := len(decls) * 2
	for i := 0; i < opts; i++ {
		for j := 0; j < opts; j++ {
			for l := 0; l < opts; l++ {
				s := &Spec{Kind: "object", AddProps: sEmpty}
				for n, o := range []int{i, j, l} {
					if d := decls[o/2]; d != nil {
						s.Props = append(s.Props, Prop{names[n], d})
					}
					if o%2 == 1 {
						s.Required = append(s.Required, names[n])
					}
				}
				x.Case(func() string { return s.String() }, func() { x.fillCheck(s, env, maps) })
			}
		}
	}
	fmaps := presence(names, []J{1.0, "s", nil})
	objectFeatures([][]Prop{{{"a", dstr("d")}}, {{"a", dnum(0.0)}, {"b", dstr("")}}, {{"c", dint(1.0)}, {"b", ref("rr")}, {"a", sEmpty}}, {{"c", dbool(true)}}}, true, func(s *Spec) {
		x.Case(func() string { return s.String() }, func() { x.fillCheck(s, env, fmaps) })
	})
	// counts, patterns and dependencies look at the properties supplied
	for _, mod := range []func(*Spec){
		func(s *Spec) { s.MinProps = ip(2) }, func(s *Spec) { s.MaxProps = ip(1) }, func(s *Spec) { s.AddProps = nil }, func(s *Spec) { s.Pats = []Prop{{"^[ab]$", sNum}} },
		func(s *Spec) { s.AddProps = sNum }, func(s *Spec) { s.PropDeps = []Dep{{"a", []string{"c"}}}; s.Required = []string{"c"} }} {
		for _, a := range decls {
			for _, b := range decls {
				s := &Spec{Kind: "object", AddProps: sEmpty}
				if a != nil {
					s.Props = append(s.Props, Prop{"a", a})
				}
				if b != nil {
					s.Props = append(s.Props, Prop{"b", b})
				}
				mod(s)
				x.Case(func() string { return s.String() }, func() { x.fillCheck(s, env, maps) })
			}
		}
	}
	// many
	for n := 1; n <= 40; n++ {
		s := &Spec{Kind: "object"}
		var vals []J
		full := M{}
		for i := 0; i < n; i++ {
			d := dstr(fmt.Sprintf("default%d", i))
			switch i % 4 {
			case 1:
				d = dnum(float64(i) / 2)
			case 2:
				d = dint(float64(i))
			case 3:
				d = dbool(i%8 == 3)
			}
			s.Props = append(s.Props, Prop{nm(i), d})
			v := []J{"x", 7.0, 7.0, false}[i%4]
			full[nm(i)] = v
			vals = append(vals, M{nm(i): v})
		}
		for i := 0; i < n; i++ {
			m := cpJ(full).(M)
			delete(m, nm(i))
			vals = append(vals, m)
		}
		vals = append(vals, full, M{})
		t := s.with(func(s *Spec) { s.Required = []string{nm(n - 1)} })
		x.Case(func() string { return fmt.Sprintf("%d defaulted properties", n) }, func() {
			x.fillCheck(s, nil, vals)
			x.fillCheck(t, nil, vals)
		})
	}
	// nested
	inner := &Spec{Kind: "object", Props: []Prop{{"a", dstr("in")}, {"b", dnum(3.5)}}, AddProps: sEmpty}
	nestVals := []J{M{}, M{"a": "x"}, M{"a": "x", "b": 1.0}, M{"b": nil}, M{"k": M{"a": "q"}}, "s", nil, L{M{}, M{"a": "x"}}}
	var nv []J
	for _, v := range nestVals {
		nv = append(nv, M{"k": v}, L{v}, L{v, M{}}, v)
		for _, w := range nestVals {
			nv = append(nv, M{"k": v, "j": w})
		}
	}
	open := &Spec{Kind: "object", AddProps: sEmpty}
	for _, s := range []*Spec{arr(inner), open.with(func(s *Spec) { s.Props = []Prop{{"k", inner}, {"m", dstr("outer")}} }), {Kind: "object", AddProps: inner}, open.with(func(s *Spec) { s.Pats = []Prop{{"^k", inner}} }), {Kind: "object", Pats: []Prop{{"^k", inner}, {"^[kj]", inner}}}, open.with(func(s *Spec) { s.Props = []Prop{{"k", arr(inner)}, {"j", ref("in")}} }),
		{Kind: "array", HasPos: true, Pos: []*Spec{inner}, SetAddI: true, AddItems: inner}, ref("in")} {
		x.Case(func() string { return s.String() }, func() { x.fillCheck(s, Env{"in": inner}, nv) })
	}
	for d := 1; d <= 16; d++ {
		s := inner
		vs := []J{M{}, M{"a": "x"}, M{"a": 1.0}}
		for i := 0; i < d; i++ {
			s = &Spec{Kind: "object", Props: []Prop{{"k", s}, {"d", dstr("level")}}, AddProps: sEmpty}
			for j := range vs {
				vs[j] = M{"k": vs[j]}
			}
		}
		x.Case(func() string { return fmt.Sprintf("defaults %d objects deep", d) }, func() { x.fillCheck(s, nil, append(vs, M{})) })
	}
	oddFeatures([][4]*Spec{{dstr("d")}, {dnum(1.5), dstr("")}, {sNum, dint(7.0), dbool(false)}, {ref("rr"), nil, nil, dstr("last")}}, func(n [4]string, specs []*Spec, docs []J) {
		for i := 0; i < len(specs); i += 36 {
			x.Case(func() string { return fmt.Sprintf("properties named %q, such as %s", n, specs[i]) }, func() {
				for _, s := range specs[i:min(i+36, len(specs))] {
					x.fillCheck(s, env, docs)
				}
			})
		}
	})
	c09recursive(x)
	c09typed(x)
	c09numbers(x)
	x.big(1025, "default")
	c09structs(x)
}

func c09recursive(x *X) {
	node := &Spec{Kind: "object", Props: []Prop{{"v", dint(7.0)}, {"next", ref("node")}}}
	env := Env{"node": node}
	var vals []J
	for n := 0; n < 20; n++ {
		for p := 0; p <= n; p++ {
			m := M{}
			for i := 0; i < n; i++ {
				m = M{"next": m}
				if i == p {
					m["v"] = 1.0
				}
			}
			vals = append(vals, m)
		}
	}
	x.Case(func() string { return "linked list with defaults" }, func() { x.fillCheck(ref("node"), env, vals) })
}

// maps with typed values and keys
func c09typed(x *X) {
	type tc struct {
		c    *Spec
		in   J
		want J // nil: an error
	}
	m := M{}
	pm := &m
	for i, t := range []tc{
		{dstr("d"), map[string]string{}, map[string]string{"a": "d"}},
		{dstr("d"), map[string]string{"b": "x"}, map[string]string{"a": "d", "b": "x"}},
		{dstr("d"), map[string]string{"a": ""}, map[string]string{"a": ""}},
		{dstr("d"), map[keyString]string{}, map[keyString]string{"a": "d"}},
		{dstr("d"), map[keyString]interface{}{"b": 1}, map[keyString]interface{}{"a": "d", "b": 1}},
		{dnum(1.5), map[string]float64{}, map[string]float64{"a": 1.5}},
		{dnum(1.5), map[string]float64{"a": 0}, map[string]float64{"a": 0}},
		{dint(7), map[string]int{}, map[string]int{"a": 7}},
		{dbool(true), map[string]bool{"a": false}, map[string]bool{"a": false}},
		{dbool(true), map[string]bool{}, map[string]bool{"a": true}},
		{dstr("d"), namedMap{}, namedMap{"a": "d"}},
		{dstr("d"), pm, &M{"a": "d"}},
		{dstr("d"), map[string]float64{}, nil},
		{dstr("d"), map[string]bool{"b": true}, nil},
		{dbool(true), map[string]string{}, nil},
		{dstr("d"), M(nil), nil},
		{dstr("d"), map[string]string(nil), nil},
		{dstr("d"), plainStruct{}, plainStruct{}},
		{dstr("d"), &plainStruct{}, &plainStruct{}},
		{dstr("d"), struct{ B int }{}, nil},
		{dstr("d"), &struct{ B int }{}, nil},
		{dstr("d"), struct {
			A jsval.MaybeString `json:"a"`
		}{}, nil},
		{dstr("d"), struct {
			A *jsval.MaybeString `json:"a"`
		}{}, nil},
		{dint(1), &struct {
			A jsval.MaybeString `json:"a"`
		}{}, nil},
		{dstr("1"), &struct {
			A jsval.MaybeInt `json:"a"`
		}{}, nil},
		{dbool(true), &struct {
			A *jsval.MaybeFloat `json:"a"`
		}{}, nil},
		{dstr("no time"), &struct {
			A jsval.MaybeTime `json:"a"`
		}{}, nil},
		{dint(4), &uintField{}, uintField{maybeUint(4)}.p()},
		{dint(int64(0)), &uintField{}, uintField{maybeUint(0)}.p()},
		{dint(-1), &uintField{}, nil},
		{dint(int8(-128)), &uintField{}, nil},
		{dstr("4"), &uintField{}, nil},
		{dbool(true), &uintField{}, nil},
		{dint(-1.0), &uintField{}, nil},
		{dnum(1.5), &uintField{}, nil},
		{dint(float32(3)), &uintField{}, uintField{maybeUint(3)}.p()},
		{dnum(1.5), &intField{}, nil},
		{dnum(float32(1.5)), &intField{}, nil},
		{dint(float32(-3)), &intField{}, intField{maybeInt(-3)}.p()},
		{dint(uint64(1) << 63), &intField{}, nil},
		{dint(uint64(1) << 62), &intField{}, intField{maybeInt(1 << 62)}.p()},
		{dint(uint64(1) << 63), &uintField{}, uintField{maybeUint(1 << 63)}.p()},
		{dnum(1.5), &struct {
			P *jsval.MaybeInt `json:"a"`
		}{}, nil},
		{dint(7), &struct {
			P *jsval.MaybeFloat `json:"a"`
		}{}, &struct {
			P *jsval.MaybeFloat `json:"a"`
		}{&jsval.MaybeFloat{ValidFlag: true, Float: 7}}},
		{dint(7.0), &struct {
			P *jsval.MaybeInt `json:"a"`
		}{}, &struct {
			P *jsval.MaybeInt `json:"a"`
		}{&jsval.MaybeInt{ValidFlag: true, Int: 7}}},
		{dint(uint8(7)), &struct {
			P *jsval.MaybeInt `json:"a"`
		}{}, &struct {
			P *jsval.MaybeInt `json:"a"`
		}{&jsval.MaybeInt{ValidFlag: true, Int: 7}}},
		{dint(7), &struct {
			P *jsval.MaybeUint `json:"a"`
		}{}, &struct {
			P *jsval.MaybeUint `json:"a"`
		}{&jsval.MaybeUint{ValidFlag: true, Uint: 7}}},
		{dnum(1.5), &struct {
			P *jsval.MaybeFloat `json:"a"`
		}{}, &struct {
			P *jsval.MaybeFloat `json:"a"`
		}{&jsval.MaybeFloat{ValidFlag: true, Float: 1.5}}},
		{dstr("d"), &struct {
			P ownString `json:"a"`
		}{}, &struct {
			P ownString `json:"a"`
		}{"+d"}},
		{dstr(""), &struct {
			P ownString `json:"a"`
		}{}, &struct {
			P ownString `json:"a"`
		}{"+"}},
		{dint(65), &struct {
			P ownString `json:"a"`
		}{}, nil},
		{dstr("d"), &struct {
			P *ownString `json:"a"`
		}{}, &struct {
			P *ownString `json:"a"`
		}{ownStr("+d")}},
		{dint(65), &struct {
			P *ownString `json:"a"`
		}{}, nil},
		{dint(65), &struct {
			P ownInt `json:"a"`
		}{}, &struct {
			P ownInt `json:"a"`
		}{66}},
		{dnum(1.5), &struct {
			P ownInt `json:"a"`
		}{}, nil},
		{dint(uint8(3)), &struct {
			P ownInt `json:"a"`
		}{}, nil},
	} {
		x.Case(func() string { return fmt.Sprintf("typed target %d: %s on %T", i, t.c, t.in) }, func() {
			s := &Spec{Kind: "object", Props: []Prop{{"a", t.c}}, AddProps: sEmpty}
			v := s.Validator(nil)
			x.States++
			x.Traces++
			before := fmt.Sprintf("%#v", deref(t.in))
			x.expect(v, t.in, t.want != nil, func() string { return s.String() })
			if t.want != nil && !reflect.DeepEqual(t.in, t.want) {
				Failf("%s: content afterwards is %s, expected %s", s, show(t.in), show(t.want))
			}
			if t.want == nil {
				if after := fmt.Sprintf("%#v", deref(t.in)); after != before && reflect.TypeOf(t.in).Kind() != reflect.Ptr {
					Failf("%s: content changed from %s to %s although the default could not be stored", s, before, after)
				}
			}
		})
	}
}

// Maybe types of the application, of basic kinds: they are to be given the
// default as it was configured.
type ownString string // "" is unset, "+" is in front of the value

func (o ownString) Valid() bool        { return o != "" }
func (o ownString) Value() interface{} { return string(o[1:]) }
func (o *ownString) Reset()            { *o = "" }
func (o *ownString) Set(x interface{}) error {
	s, ok := x.(string)
	if !ok {
		return fmt.Errorf("cannot take %T", x)
	}
	*o = ownString("+" + s)
	return nil
}

func ownStr(s ownString) *ownString { return &s }

type ownInt int // 0 is unset, otherwise the value plus one

func (o ownInt) Valid() bool        { return o != 0 }
func (o ownInt) Value() interface{} { return int(o - 1) }
func (o *ownInt) Reset()            { *o = 0 }
func (o *ownInt) Set(x interface{}) error {
	i, ok := x.(int)
	if !ok {
		return fmt.Errorf("cannot take %T", x)
	}
	*o = ownInt(i + 1)
	return nil
}

type uintField struct {
	A jsval.MaybeUint `json:"a"`
}

func (u uintField) p() *uintField { return &u }

type intField struct {
	A jsval.MaybeInt `json:"a"`
}

func (i intField) p() *intField { return &i }

func maybeInt(n int64) jsval.MaybeInt { return jsval.MaybeInt{ValidFlag: true, Int: n} }

func maybeUint(n uint64) jsval.MaybeUint { return jsval.MaybeUint{ValidFlag: true, Uint: n} }

func deref(v J) J {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() {
		return rv.Elem().Interface()
	}
	return v
}

type dflt1 struct {
	S jsval.MaybeString `json:"s"`
	I jsval.MaybeInt    `json:"i,omitempty"`
	F jsval.MaybeFloat
	B jsval.MaybeBool `json:"b"`
	U jsval.MaybeUint `json:"u"`
	T jsval.MaybeTime `json:"t"`
	P string          `json:"p"`
	N int             `json:"n"`
}
type dflt2 struct {
	S *jsval.MaybeString `json:"s"`
	I *jsval.MaybeInt    `json:"i"`
	B *jsval.MaybeBool   `json:"b"`
}
type Emb9 struct {
	S jsval.MaybeString `json:"s"`
	I jsval.MaybeInt    `json:"i"`
}
type dflt3 struct {
	Emb9
	B jsval.MaybeBool `json:"b"`
}
type dflt4 struct {
	*Emb9
	B jsval.MaybeBool `json:"b"`
}

// structFill checks one validation of a pointer to struct: slots are the
// fields that defaults may go to.
func (x *X) structFill(s *Spec, c validator, p J, order int) {
	x.States++
	rv := reflect.ValueOf(p).Elem()
	before, _ := properties(rv.Interface())
	want := s.Eval(nil, before)
	// a default can be stored iff the field exists; all fields here do,
	// unless they belong to a nil embedded struct
	exp := M{}
	for k, v := range before {
		exp[k] = v
	}
	for _, pr := range s.Props {
		if !has(before, pr.Name) {
			if d, ok := pr.S.dflt(nil); ok {
				exp[pr.Name] = d
			}
		}
	}
	x.expect(c, p, want, func() string { return s.String() })
	after, _ := properties(rv.Interface())
	if !want {
		for k, v := range before {
			if !sameProp(after[k], v) {
				Failf("%s changed property %s from %v to %v while rejecting (order %d)", s, k, v, after[k], order)
			}
		}
		return
	}
	if len(after) != len(exp) {
		Failf("%s: properties afterwards are %v, expected %v (order %d)", s, after, exp, order)
	}
	for k, v := range exp {
		if !sameProp(after[k], v) {
			Failf("%s: property %s is %v (%T) afterwards, expected %v (order %d); before: %v", s, k, after[k], after[k], v, order, before)
		}
	}
}

func sameProp(a, b J) bool {
	fa, _, oka := asNumber(a)
	fb, _, okb := asNumber(b)
	if oka && okb {
		return fa == fb
	}
	if ta, ok := a.(time.Time); ok {
		switch tb := b.(type) {
		case time.Time:
			return ta.Equal(tb)
		case string:
			t, err := time.Parse(time.RFC3339, tb)
			return err == nil && ta.Equal(t)
		}
	}
	return reflect.DeepEqual(a, b)
}

func c09structs(x *X) {
	ts, _ := time.Parse(time.RFC3339, "2020-02-03T04:05:06Z")
	mk := func(st [6]int) *dflt1 {
		d := &dflt1{P: "p", N: 3}
		if st[0] > 0 {
			d.S.Set([]string{"", "x"}[st[0]-1])
		}
		if st[1] > 0 {
			d.I.Set([]int{0, 5}[st[1]-1])
		}
		if st[2] > 0 {
			d.F.Set([]float64{0, 2.25}[st[2]-1])
		}
		if st[3] > 0 {
			d.B.Set(st[3] == 2)
		}
		if st[4] > 0 {
			d.U.Set([]uint{0, 9}[st[4]-1])
		}
		if st[5] > 0 {
			d.T.Set([]time.Time{{}, ts}[st[5]-1])
		}
		return d
	}
	names := []string{"s", "i", "F", "b", "u", "t"}
	encodings := [][]*Spec{
		{dstr("d"), dint(7), dnum(1.5), dbool(true), dint(4.0), dstr("2001-02-03T04:05:06+09:00")},
		{dstr(""), dint(7.0), dnum(2), dbool(false), dint(uint(4)), dstr("2001-02-03T04:05:06Z")},
		{dstr("%d"), dint(int8(7)), dnum(float32(0.5)), dbool(true), dint(uint64(0)), dstr("2001-02-03T04:05:06.5Z")},
		{dstr("d"), dint(int64(1) << 40), dnum(int64(3)), dbool(false), dint(200), dstr("2001-02-03T04:05:06Z")},
	}
	all3 := func(n int, f func(c []int)) {
		c := make([]int, n)
		for {
			f(c)
			i := 0
			for i < n && c[i] == 2 {
				c[i] = 0
				i++
			}
			if i == n {
				return
			}
			c[i]++
		}
	}
	for e, enc := range encodings {
		if e > 1 && !x.thorough {
			// the remaining encodings: all fields unset or set
		}
		all3(6, func(ch []int) {
			s := &Spec{Kind: "object", AddProps: sEmpty}
			for i, n := range names {
				switch ch[i] {
				case 1:
					s.Props = append(s.Props, Prop{n, enc[i]})
				case 2:
					s.Props = append(s.Props, Prop{n, enc[i]})
					s.Required = append(s.Required, n)
				}
			}
			x.Case(func() string { return fmt.Sprintf("struct fields, %s (encoding %d)", s, e) }, func() {
				c := s.Validator(nil)
				x.Traces++
				// a set time is no string: leave it unset where it is declared
				all3(6, func(st []int) {
					if e > 0 && !x.thorough && (st[0] == 2 || st[3] == 2 || st[4] == 2 || st[5] == 2) {
						return
					}
					order := (st[0] + st[1]) % 2
					setOrder(order)
					x.structFill(s, c, mk([6]int{st[0], st[1], st[2], st[3], st[4], st[5]}), order)
				})
				setOrder(0)
			})
		})
	}
	// pointers to Maybe: nil, unset, set
	all3(3, func(ch []int) {
		s := &Spec{Kind: "object", AddProps: sEmpty}
		for i, n := range []string{"s", "i", "b"} {
			d := []*Spec{dstr("d"), dint(int64(7)), dbool(true)}[i]
			if ch[i] > 0 {
				s.Props = append(s.Props, Prop{n, d})
			}
			if ch[i] == 2 {
				s.Required = append(s.Required, n)
			}
		}
		x.Case(func() string { return "pointer and embedded fields, " + s.String() }, func() {
			c := s.Validator(nil)
			x.Traces++
			all3(3, func(st []int) {
				d := &dflt2{}
				d3 := &dflt3{}
				d4 := &dflt4{Emb9: &Emb9{}}
				if st[0] > 0 {
					d.S = &jsval.MaybeString{}
				}
				if st[1] > 0 {
					d.I = &jsval.MaybeInt{}
				}
				if st[2] > 0 {
					d.B = &jsval.MaybeBool{}
				}
				if st[0] == 2 {
					d.S.Set("x")
					d3.S.Set("x")
					d4.S.Set("x")
				}
				if st[1] == 2 {
					d.I.Set(0)
					d3.I.Set(0)
					d4.I.Set(0)
				}
				if st[2] == 2 {
					d.B.Set(false)
					d3.B.Set(false)
					d4.B.Set(false)
				}
				x.structFill(s, c, d, 0)
				x.structFill(s, c, d3, 0)
				x.structFill(s, c, d4, 0)
				// below other values
				in := s
				for _, outer := range []*Spec{arr(in), {Kind: "object", AddProps: in}} {
					d5 := &dflt3{}
					if st[1] == 2 {
						d5.I.Set(9)
					}
					before, _ := properties(*d5)
					want := s.Eval(nil, before)
					var v J = []*dflt3{d5}
					if outer.Kind == "object" {
						v = M{"k": d5}
					}
					x.expect(outer.Validator(nil), v, want, func() string { return outer.String() })
					if want {
						after, _ := properties(*d5)
						for _, pr := range s.Props {
							dv, _ := pr.S.dflt(nil)
							if w, ok := before[pr.Name]; ok {
								dv = w
							}
							if !sameProp(after[pr.Name], dv) {
								Failf("%s: nested property %s is %v, expected %v", outer, pr.Name, after[pr.Name], dv)
							}
						}
					}
				}
			})
		})
	})
	// wide structs: one Maybe of each kind repeated
	for n := 1; n <= 24; n++ {
		x.Case(func() string { return fmt.Sprintf("struct with %d defaulted fields", n) }, func() {
			var sf []reflect.StructField
			s := &Spec{Kind: "object"}
			for i := 0; i < n; i++ {
				f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Tag: reflect.StructTag(fmt.Sprintf(`json:"%s"`, nm(i)))}
				switch i % 3 {
				case 0:
					f.Type = reflect.TypeOf(jsval.MaybeString{})
					s.Props = append(s.Props, Prop{nm(i), dstr(fmt.Sprint("d", i))})
				case 1:
					f.Type = reflect.TypeOf(jsval.MaybeInt{})
					s.Props = append(s.Props, Prop{nm(i), dint(i)})
				case 2:
					f.Type = reflect.TypeOf(jsval.MaybeFloat{})
					s.Props = append(s.Props, Prop{nm(i), dnum(float64(i) / 4)})
				}
				sf = append(sf, f)
			}
			t := reflect.StructOf(sf)
			c := s.Validator(nil)
			for set := -1; set < n; set++ {
				for order := 0; order < 3; order++ {
					p := reflect.New(t)
					if set >= 0 {
						p.Elem().Field(set).Addr().MethodByName("Set").Call([]reflect.Value{reflect.ValueOf([]J{"x", 1000, 0.0}[set%3])})
					}
					setOrder(order)
					x.structFill(s, c, p.Interface(), order)
				}
			}
			setOrder(0)
		})
	}
}

// c09below: defaults in all places that a successful validation goes
// through: dependency schemas, the parts of an all-of, references to them.
func c09below(x *X) {
	type doc struct {
		T string            `json:"t"`
		A jsval.MaybeString `json:"a"`
		B jsval.MaybeInt    `json:"b"`
		C jsval.MaybeFloat  `json:"c"`
		D jsval.MaybeBool   `json:"d"`
		E jsval.MaybeString `json:"e"`
	}
	open := func(ps ...Prop) *Spec { return &Spec{Kind: "object", AddProps: sEmpty, Props: ps} }
	names := []string{"a", "b", "c", "d", "e"}
	dflts := []*Spec{dstr("x"), dint(7.0), dnum(2.5), dbool(true), dstr("y")}
	env := Env{}
	for _, trigger := range []bool{true, false} {
		for mask := 0; mask < 32; mask++ {
			has := func(i int) bool { return mask>>i&1 == 1 }
			// a: a property; b: a dependency schema; c: a part of an all-of;
			// d: a dependency schema behind a reference; e: below two of these
			o := open()
			var parts []*Spec
			if has(0) {
				o.Props = append(o.Props, Prop{"a", dflts[0]})
			}
			if has(1) {
				o.SchemaDeps = append(o.SchemaDeps, Prop{"t", open(Prop{"b", dflts[1]})})
			}
			if has(2) {
				parts = append(parts, open(Prop{"c", dflts[2]}), open())
			}
			if has(3) {
				env["d"] = open(Prop{"d", dflts[3]})
				parts = append(parts, open().with(func(s *Spec) { s.SchemaDeps = []Prop{{"t", ref("d")}} }))
			}
			if has(4) {
				parts = append(parts, all(sEmpty, open().with(func(s *Spec) { s.SchemaDeps = []Prop{{"t", all(open(Prop{"e", dflts[4]}))}} })))
			}
			s := o
			if len(parts) > 0 {
				s = all(append([]*Spec{o}, parts...)...)
			}
			want := M{"t": "t"}
			for i, n := range names {
				if has(i) && (trigger || i == 0 || i == 2) {
					want[n] = dflts[i].Default
				}
			}
			if !trigger {
				want = M{}
				for i, n := range names {
					if has(i) && (i == 0 || i == 2) {
						want[n] = dflts[i].Default
					}
				}
			}
			x.Case(func() string { return fmt.Sprintf("defaults in %s, trigger %v", s, trigger) }, func() {
				x.Traces++
				c := s.Validator(env)
				nest := open(Prop{"k", s}).Validator(env)
				list := arr(s).Validator(env)
				fresh := func() M {
					if trigger {
						return M{"t": "t"}
					}
					return M{}
				}
				for order := 0; order < 3; order++ {
					setOrder(order)
					x.States++
					m := fresh()
					x.expect(c, m, true, func() string { return s.String() })
					if !reflect.DeepEqual(m, want) {
						Failf("%s: content afterwards is %s, expected %s", s, show(m), show(want))
					}
					m, l := M{"k": fresh()}, L{fresh(), fresh()}
					x.expect(nest, m, true, func() string { return s.String() })
					x.expect(list, l, true, func() string { return s.String() })
					if !reflect.DeepEqual(m["k"], want) || !reflect.DeepEqual(l[1], want) {
						Failf("%s: content below afterwards is %s and %s, expected %s", s, show(m), show(l), show(want))
					}
					// everything that is there stays
					for i, n := range names {
						m, keep := fresh(), []J{"own", 3.0, 4.5, false, ""}[i]
						m[n] = keep
						w := cpJ(want).(M)
						w[n] = keep
						x.expect(c, m, true, func() string { return s.String() })
						if !reflect.DeepEqual(m, w) {
							Failf("%s: content afterwards is %s, expected %s", s, show(m), show(w))
						}
					}
					if !trigger {
						continue
					}
					judge := func(d *doc, how string) {
						got, _ := properties(*d)
						if len(got) != len(want) {
							Failf("%s, %s: properties afterwards are %v, expected %v", s, how, got, want)
						}
						for k, v := range want {
							if !sameProp(got[k], v) {
								Failf("%s, %s: property %s is %v afterwards, expected %v", s, how, k, got[k], v)
							}
						}
					}
					d := &doc{T: "t"}
					x.expect(c, d, true, func() string { return s.String() + " on a pointer to a struct" })
					judge(d, "a pointer to a struct")
					d = &doc{T: "t"}
					x.expect(c, &d, true, func() string { return s.String() + " on a pointer to a pointer" })
					judge(d, "a pointer to a pointer")
					d = &doc{T: "t"}
					x.expect(nest, M{"k": d}, true, func() string { return s.String() + " on a pointer in a map" })
					judge(d, "a pointer in a map")
					e := &doc{T: "t"}
					x.expect(list, []*doc{e}, true, func() string { return s.String() + " on a pointer in a list" })
					judge(e, "a pointer in a list")
				}
				setOrder(0)
			})
		}
	}
}
