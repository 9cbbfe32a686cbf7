package main

import (
	"fmt"
	"reflect"

	"github.com/lestrrat-go/jsval"
)

// bigSizes are sizes at and around those where an implementation is likely
// to change its ways.
func bigSizes(max int) []int {
	var out []int
	for _, n := range []int{41, 48, 50, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 255, 256, 257, 300, 399, 400, 499, 500, 501, 511, 512, 513, 600, 768, 800, 999, 1000, 1001, 1023, 1024, 1025, 1500, 1999, 2000, 2001, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9999, 10000, 10001, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100001} {
		if n <= max {
			out = append(out, n)
		}
	}
	return out
}

// upTo lists every size up to n and the big ones up to max.
func upTo(n, max int) []int {
	var out []int
	for i := 1; i <= n; i++ {
		out = append(out, i)
	}
	for _, i := range bigSizes(max) {
		if i > n {
			out = append(out, i)
		}
	}
	return out
}

// spots are the places of n at which something is different.
func spots(n int) []int {
	var out []int
	seen := map[int]bool{}
	for _, i := range []int{0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000, 1023, 1024, n / 4, n / 2, n/2 + 1, 3 * n / 4, n - 3, n - 2, n - 1} {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	return out
}

type bigOne struct {
	kind string // the property it belongs to
	s    *Spec
	docs []J
}

// bigOnes: constraints with n parts and what they tell apart.
func bigOnes(n int) []bigOne {
	var out []bigOne
	add := func(kind string, s *Spec, docs []J) { out = append(out, bigOne{kind, s, docs}) }
	name := func(i int) string { return fmt.Sprintf("p%d", i) }
	full := M{}
	list := make(L, n)
	for i := range list {
		full[name(i)] = float64(i)
		list[i] = float64(i)
	}
	// strings
	for _, ch := range []string{"a", "é", "日", "😀"} {
		var ds []J
		for d := -2; d <= 2; d++ {
			ds = append(ds, repeat(ch, n+d))
		}
		ds = append(ds, repeat(ch, n/2), repeat(ch, n*2), repeat("a", n-1)+ch, repeat("a", n)+ch, "")
		add("string", strMin(n), ds)
		add("string", strMax(n), ds)
		add("string", strMin(n-1).with(func(s *Spec) { s.MaxLen = ip(n + 1) }), ds)
		add("string", strRx("^("+ch+")*$"), append(ds, repeat(ch, n)+"x", repeat(ch, n/2)+"x"+repeat(ch, n/2)))
	}
	if n > 5000 {
		// arrays and enumerations only in passing
		dup := append(append(L{}, list[:100]...), 50.0)
		add("array", arr(sNum), []J{list, append(append(L{}, list...), "s")})
		add("array", &Spec{Kind: "array", MinItems: ip(n)}, []J{list, list[:n-1]})
		add("array", &Spec{Kind: "array", MaxItems: ip(n - 1)}, []J{list, list[:n-1]})
		add("array", &Spec{Kind: "array", Unique: true}, []J{dup})
		return out
	}
	// enumerations
	for form := 0; form < 4; form++ {
		e := make([]J, n)
		of := func(i int) J {
			switch form {
			case 0:
				return float64(2 * i)
			case 1:
				return fmt.Sprintf("m%d", 2*i)
			case 2:
				if i%2 == 1 {
					return fmt.Sprintf("m%d", 2*i)
				}
				return float64(2 * i)
			}
			return L{float64(2 * i)}
		}
		for i := range e {
			e[i] = of(i)
		}
		ds := []J{nil, "", -2.0, of(-1), of(n), fmt.Sprintf("m%d", 2*n)}
		for _, i := range spots(n) {
			ds = append(ds, of(i), float64(2*i+1), fmt.Sprintf("m%d", 2*i+1), fmt.Sprint(2*i), L{float64(2*i + 1)})
		}
		add("enum", enum(e...), ds)
		switch form {
		case 0:
			add("number", &Spec{Kind: "number", HasEnum: true, Enum: e}, ds)
			add("number", &Spec{Kind: "integer", HasEnum: true, Enum: e}, ds)
		case 1:
			add("string", &Spec{Kind: "string", HasEnum: true, Enum: e}, ds)
		}
	}
	// arrays
	forms := []func(i int) J{
		func(i int) J { return float64(i) },
		func(i int) J { return fmt.Sprintf("s%d", i) },
		func(i int) J { return L{float64(i), "x"} },
		func(i int) J { return M{"k": fmt.Sprint(i)} },
		func(i int) J {
			if i%2 == 0 {
				return fmt.Sprint(i / 2)
			}
			return float64(i / 2)
		},
	}
	for f, of := range forms {
		if n > 300 && f > 1 || n > 1100 && f > 0 {
			break
		}
		l := make(L, n)
		for i := range l {
			l[i] = of(i)
		}
		ds := []J{l}
		mod := func(f func(c L)) { c := append(L{}, l...); f(c); ds = append(ds, c) }
		for _, i := range spots(n) {
			mod(func(c L) { c[i] = true })
			for _, j := range []int{0, 1, n / 2, n - 2, n - 1} {
				if i != j && (i+j+f)%3 == 0 {
					mod(func(c L) { c[i] = cpJ(c[j]) })
				}
			}
			if i > 0 {
				mod(func(c L) { c[i] = cpJ(c[i-1]) })
			}
		}
		add("array", arr(not(sBool)), ds)
		if n > 300 { // comparing all pairs takes its time
			ds = []J{l}
			mod(func(c L) { c[n-1] = c[n-2] })
			mod(func(c L) { c[n-1] = c[0] })
			mod(func(c L) { c[n/2] = c[n-1] })
			if n > 1100 {
				continue
			}
		}
		add("array", &Spec{Kind: "array", Unique: true}, ds)
		add("array", arr(not(sBool)).with(func(s *Spec) { s.Unique = true; s.MinItems, s.MaxItems = ip(n), ip(n) }), ds)
	}
	lens := []J{list, list[:n-1], list[:n-2], append(append(L{}, list...), 1.0), append(append(L{}, list...), "x", "y"), L{}}
	add("array", &Spec{Kind: "array", MinItems: ip(n)}, lens)
	add("array", &Spec{Kind: "array", MaxItems: ip(n)}, lens)
	add("array", &Spec{Kind: "array", MinItems: ip(n - 1), MaxItems: ip(n)}, lens)
	pos := make([]*Spec, n)
	for i := range pos {
		pos[i] = enum(float64(i))
	}
	for _, i := range spots(n) {
		c := append(L{}, list...)
		c[i] = -1.0
		lens = append(lens, c, list[:i], append(append(L{}, c...), "x"))
	}
	for _, a := range []*Spec{nil, sStr} {
		add("array", &Spec{Kind: "array", HasPos: true, Pos: pos, SetAddI: true, AddItems: a}, lens)
	}
	// combinators
	for _, odd := range append(spots(n), -1) {
		if n > 1100 && odd > 2 && odd < n-2 {
			continue
		}
		kids := make([]*Spec, n)
		not1 := make([]*Spec, n)
		for i := range kids {
			kids[i], not1[i] = sStr, sNum
			if i == odd {
				kids[i], not1[i] = sNum, sStr
			}
		}
		ds := []J{1.0, "s", nil}
		add("combinator", any_(kids...), ds)
		add("combinator", all(not1...), ds)
		add("combinator", oneof(kids...), ds)
		add("combinator", oneof(append(kids, sNum)...), ds)
	}
	if n > 1100 {
		return out
	}
	// objects
	var props, pats, dfl []Prop
	var req []string
	var ring, fan []Dep
	open := func(f func(*Spec)) *Spec { return (&Spec{Kind: "object", AddProps: sEmpty}).with(f) }
	var sdeps []Prop
	for i := 0; i < n; i++ {
		props = append(props, Prop{name(i), sNum})
		pats = append(pats, Prop{"^" + name(i) + "$", sNum})
		dfl = append(dfl, Prop{name(i), dnum(float64(i) + 0.5)})
		req = append(req, name(i))
		ring = append(ring, Dep{name(i), []string{name((i + 1) % n)}})
		fan = append(fan, Dep{name(i), []string{"q"}})
		sdeps = append(sdeps, Prop{name(i), open(func(s *Spec) { s.Required = []string{name((i + 1) % n)} })})
	}
	ds := []J{full, M{}, M{"q": 1.0}}
	for _, i := range spots(n) {
		w, d, e := cpJ(full).(M), cpJ(full).(M), cpJ(full).(M)
		w[name(i)] = "s"
		delete(d, name(i))
		delete(e, name(i))
		e["q"] = 1.0
		z := cpJ(full).(M)
		z["q"] = "s"
		z[name(i)] = nil
		ds = append(ds, w, d, e, z, M{name(i): 1.0}, M{name(i): "s", "q": 1.0})
	}
	q := cpJ(full).(M)
	q["q"] = 1.0
	q2 := cpJ(q).(M)
	q2["r"] = "s"
	ds = append(ds, q, q2)
	for _, s := range []*Spec{
		{Props: props}, {Props: props, AddProps: sNum}, {Props: props, Required: req, AddProps: sEmpty}, {AddProps: sNum}, {AddProps: sEmpty, Required: req},
		{AddProps: sEmpty, MinProps: ip(n)}, {AddProps: sEmpty, MaxProps: ip(n)}, {AddProps: sNum, MinProps: ip(n - 1), MaxProps: ip(n - 1)},
		{Pats: []Prop{{"^p", sNum}}}, {Props: props[:n/2], AddProps: sNum, Required: req[n/2:]},
	} {
		s.Kind = "object"
		add("object", s, ds)
	}
	add("dependency", &Spec{Kind: "object", AddProps: sEmpty, PropDeps: ring}, ds)
	add("dependency", &Spec{Kind: "object", Props: props, AddProps: sEmpty, PropDeps: fan}, ds)
	add("dependency", &Spec{Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{"q", req}}}, ds)
	add("default", &Spec{Kind: "object", Props: dfl, AddProps: sNum}, ds)
	add("default", &Spec{Kind: "object", Props: dfl, AddProps: sEmpty, Required: req[n-1:]}, ds)
	if n <= 300 {
		add("object", &Spec{Kind: "object", Pats: pats}, ds)
		add("object", &Spec{Kind: "object", Pats: pats, Props: props[:n/2], AddProps: sStr}, ds)
	}
	if n <= 129 {
		add("dependency", &Spec{Kind: "object", AddProps: sEmpty, SchemaDeps: sdeps}, ds)
		add("dependency", &Spec{Kind: "object", Props: props, AddProps: sEmpty, PropDeps: ring[:n/2], SchemaDeps: sdeps[n/2:]}, ds)
	}
	return out
}

// big checks the constraints of some kinds at all sizes.
func (x *X) big(max int, kinds ...string) {
	for _, n := range bigSizes(max) {
		x.Case(func() string { return fmt.Sprintf("%v with %d parts", kinds, n) }, func() {
			for _, b := range bigOnes(n) {
				for _, k := range kinds {
					if b.kind == k {
						how := func() string { return fmt.Sprintf("%s with %d parts: %.300s", b.kind, n, b.s) }
						if k == "default" {
							v := b.s.Validator(nil)
							for _, d := range b.docs {
								x.fillOne(b.s, nil, v, d, how)
							}
							continue
						}
						v := b.s.Validator(nil)
						x.Traces++
						for _, d := range b.docs {
							x.States++
							x.expect(v, d, b.s.Eval(nil, d), how)
						}
					}
				}
			}
		})
	}
}

// bigMany collects them for the checks on schemas and generated code.
func bigMany(sizes []int) ([]*Spec, map[*Spec][]J) {
	var l []*Spec
	docs := map[*Spec][]J{}
	for _, n := range sizes {
		for _, b := range bigOnes(n) {
			l = append(l, b.s)
			docs[b.s] = b.docs
		}
	}
	return l, docs
}

// manyTypes: thousands of struct types, met in turn and met again.
func (x *X) manyTypes() {
	x.Case(func() string { return "thousands of struct types" }, func() {
		const n = 2100
		types := make([]reflect.Type, n)
		for i := range types {
			fs := []reflect.StructField{{Name: "A", Type: reflect.TypeOf(0.0), Tag: reflect.StructTag(fmt.Sprintf(`json:"f%d"`, i))}}
			if i%3 == 1 {
				fs = append(fs, reflect.StructField{Name: "B", Type: reflect.TypeOf(jsval.MaybeString{}), Tag: `json:"b"`})
			}
			if i%3 == 2 {
				fs = append([]reflect.StructField{{Name: "C", Type: reflect.TypeOf("")}}, fs...)
			}
			types[i] = reflect.StructOf(fs)
		}
		judge := func(i int, round string) {
			v := reflect.New(types[i]).Elem()
			v.FieldByName("A").SetFloat(float64(i))
			own := fmt.Sprintf("f%d", i)
			extra := i%3 == 2
			x.States++
			x.Traces++
			how := func() string { return fmt.Sprintf("struct type %d, %s", i, round) }
			x.expect(jsval.Object().AdditionalProperties(jsval.EmptyConstraint).Required(own), v.Interface(), true, how)
			x.expect(jsval.Object().AddProp(own, jsval.Number()), v.Interface(), !extra, how)
			x.expect(jsval.Object().AddProp(own, jsval.Number()).AddProp("C", jsval.String()).AddProp("b", jsval.String()), v.Interface(), true, how)
			x.expect(jsval.Object().AdditionalProperties(jsval.EmptyConstraint).Required(fmt.Sprintf("f%d", i+1)), v.Interface(), false, how)
			x.expect(jsval.Object().AdditionalProperties(jsval.EmptyConstraint).Required("b"), v.Interface(), false, how)
			x.expect(jsval.Object().AddProp(own, jsval.Enum(float64(i))).AdditionalProperties(jsval.EmptyConstraint), v.Interface(), true, how)
		}
		for i := range types {
			judge(i, "met for the first time")
			judge(i/2, "met again")
		}
		for i := range types {
			judge(n-1-i, "met much later")
		}
	})
}
