package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"time"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C11", run: c11, traces: "every operation sequence is executed on real Maybe values, and validity, value, errors and JSON text are compared with the model after every step",
		bounds: "all sequences of set/reset/decode/encode operations up to length 4 (quick) or 5 over 25-40 operations per type, for the 6 Maybe types; all sequences up to length 3 over two instances and copies; struct decoding; every int8, int16, uint8 and uint16 value, all integers within 2 or 3 of a power of two up to 2^64 in every kind, 570 floating-point numbers that are no values of the type, 6000 strings and 3700 times stored, encoded and decoded; some 350 values of every numeric kind over every earlier operation",
		notes:  []string{"what JSON null means is left open, but it means the same over every earlier state; sub-second parts of encoded times are outside the property; numeric kinds the type does not document may be refused or stored as the same number"}})
}

type mop struct {
	name string
	// what the model says: 1 stored, 0 refused, -1 either
	ok   int
	val  J // value stored (model)
	text string
	arg  J
	kind byte // 's' set, 'r' reset, 'u' unmarshal, 'm' marshal
}

type mkind struct {
	name string
	mk   func() jsval.Maybe
	ops  []mop
	// a struct with a field of the type
}

func maybeKinds() []mkind {
	t1 := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	t2 := time.Date(1999, 12, 31, 23, 59, 59, 0, time.FixedZone("", -7*3600))
	t3 := time.Date(2021, 6, 7, 8, 9, 10, 500000000, time.UTC)
	set := func(arg J, val J) mop {
		return mop{name: fmt.Sprintf("Set(%T %v)", arg, arg), ok: 1, val: val, arg: arg, kind: 's'}
	}
	bad := func(args ...J) []mop {
		var l []mop
		for _, a := range args {
			l = append(l, mop{name: fmt.Sprintf("Set(%T %v)", a, a), ok: 0, arg: a, kind: 's'})
		}
		return l
	}
	dec := func(text string, val J) mop {
		return mop{name: "UnmarshalJSON(" + text + ")", ok: 1, val: val, text: text, kind: 'u'}
	}
	badj := func(texts ...string) []mop {
		var l []mop
		for _, t := range texts {
			l = append(l, mop{name: "UnmarshalJSON(" + t + ")", ok: 0, text: t, kind: 'u'})
		}
		return l
	}
	common := []mop{{name: "Reset()", kind: 'r'}, {name: "MarshalJSON()", kind: 'm'}, {name: "UnmarshalJSON(null)", kind: 'n'}}
	cat := func(ls ...[]mop) []mop {
		var o []mop
		for _, l := range ls {
			o = append(o, l...)
		}
		return append(o, common...)
	}
	one := 1
	str := "p"
	anyBad := []J{nil, struct{}{}, L{}, M{}, &one, &str, []byte("x"), jsval.MaybeInt{}}
	return []mkind{
		{"MaybeBool", func() jsval.Maybe { return &jsval.MaybeBool{} }, cat([]mop{set(true, true), set(false, false), dec("true", true), dec("false", false), dec(" true ", true)}, bad(append(anyBad, "true", 1, 0, 1.0, "")...), badj(`"true"`, `1`, `0`, `[]`, `{}`, `tru`, ``))},
		{"MaybeString", func() jsval.Maybe { return &jsval.MaybeString{} }, cat([]mop{set("", ""), set("a", "a"), set("日本\n", "日本\n"), set(repeat("x", 100), repeat("x", 100)), dec(`""`, ""), dec(`"b"`, "b"), dec(`"\u65e5\"%"`, "日\"%")}, bad(append(anyBad, true, 1, 1.5)...), badj(`1`, `true`, `[]`, `{}`, `"a`, ``))},
		{"MaybeInt", func() jsval.Maybe { return &jsval.MaybeInt{} }, cat([]mop{set(1, int64(1)), set(0, int64(0)), set(-5, int64(-5)), set(int8(-128), int64(-128)), set(int16(300), int64(300)), set(int32(70000), int64(70000)), set(int64(1)<<40, int64(1)<<40), set(3.0, int64(3)), set(-2.0, int64(-2)), set(float64(1<<40), int64(1)<<40), dec("7", int64(7)), dec("-1", int64(-1)), dec("0", int64(0))}, bad(append(anyBad, "1", true, "", 1.5, -0.25, 1e30, math.Inf(1), math.NaN())...), badj(`"1"`, `1.5`, `true`, `[]`, `{}`, `-`, ``))},
		{"MaybeUint", func() jsval.Maybe { return &jsval.MaybeUint{} }, cat([]mop{set(uint(1), uint64(1)), set(uint(0), uint64(0)), set(uint8(255), uint64(255)), set(uint16(300), uint64(300)), set(uint32(70000), uint64(70000)), set(uint64(1)<<40, uint64(1)<<40), set(3.0, uint64(3)), set(0.0, uint64(0)), dec("7", uint64(7)), dec("0", uint64(0))}, bad(append(anyBad, "1", true, "", 1.5, -1.0, -0.25, 1e30, math.Inf(-1), math.NaN())...), badj(`"1"`, `1.5`, `-1`, `true`, `[]`, `{}`, ``))},
		{"MaybeFloat", func() jsval.Maybe { return &jsval.MaybeFloat{} }, cat([]mop{set(1.5, 1.5), set(0.0, 0.0), set(-2.25, -2.25), set(float32(0.5), 0.5), set(1e20, 1e20), dec("7", 7.0), dec("-1.25", -1.25), dec("0", 0.0), dec("1e3", 1000.0)}, bad(append(anyBad, "1", true, "")...), badj(`"1"`, `true`, `[]`, `{}`, `1.`, ``))},
		{"MaybeTime", func() jsval.Maybe { return &jsval.MaybeTime{} }, cat([]mop{set(t1, t1), set(t2, t2), set(t3, t3), set(time.Time{}, time.Time{}), set("2020-01-02T03:04:05Z", t1), set("2020-01-02T12:04:05+09:00", t1), dec(`"2020-01-02T03:04:05Z"`, t1), dec(`"1999-12-31T23:59:59-07:00"`, t2)}, bad(append(anyBad, "", "2020-01-02", "x", 1, true, 1577934245)...), badj(`""`, `"2020-01-02"`, `"x"`, `1577934245`, `true`, `{}`, `[]`, ``))},
	}
}

type mstate struct {
	valid bool
	val   J
}

func sameMaybe(a, b J) bool {
	if ta, ok := a.(time.Time); ok {
		tb, ok := b.(time.Time)
		return ok && ta.Equal(tb)
	}
	return a == b
}

// apply performs an operation on the real value and checks it.
func (x *X) maybeOp(m jsval.Maybe, st *mstate, o mop, hist func() string) {
	x.Transitions++
	var err error
	switch o.kind {
	case 's':
		err = m.Set(o.arg)
	case 'r':
		m.Reset()
		st.valid, st.val = false, nil
	case 'u':
		err = m.(json.Unmarshaler).UnmarshalJSON([]byte(o.text))
	case 'n':
		// whatever null means, it means the same over every earlier state
		fresh := reflect.New(reflect.TypeOf(m).Elem()).Interface().(jsval.Maybe)
		ferr := fresh.(json.Unmarshaler).UnmarshalJSON([]byte("null"))
		err = m.(json.Unmarshaler).UnmarshalJSON([]byte("null"))
		if (err == nil) != (ferr == nil) {
			Failf("%s: reports %v, but %v on a new value", hist(), err, ferr)
		}
		if err == nil {
			st.valid, st.val = fresh.Valid(), fresh.Value()
		}
	case 'm':
		b, merr := json.Marshal(m)
		if !st.valid {
			break
		}
		if merr != nil {
			Failf("%s: encoding fails: %v", hist(), merr)
		}
		val := reflect.ValueOf(m).Elem().Interface()
		for _, e := range []struct {
			what      string
			v         interface{}
			pre, post string
		}{{"by value", val, "", ""}, {"in a list", []interface{}{val, m}, "[" + string(b) + ",", "]"}, {"in a map", map[string]interface{}{"k": val}, `{"k":`, "}"}, {"in a struct", struct{ K interface{} }{val}, `{"K":`, "}"}} {
			if vb, verr := json.Marshal(e.v); verr != nil || string(vb) != e.pre+string(b)+e.post {
				Failf("%s: %s it encodes to %s (%v) instead of %s", hist(), e.what, vb, verr, b)
			}
		}
		if t, ok := st.val.(time.Time); ok && t.Nanosecond() != 0 {
			break
		}
		fresh := reflect.New(reflect.TypeOf(m).Elem()).Interface().(jsval.Maybe)
		if uerr := json.Unmarshal(b, fresh); uerr != nil {
			Failf("%s: decoding %s fails: %v", hist(), b, uerr)
		}
		if !fresh.Valid() || !sameMaybe(fresh.Value(), st.val) {
			Failf("%s: %v encodes to %s and decodes to %v (valid %v)", hist(), st.val, b, fresh.Value(), fresh.Valid())
		}
	}
	if o.kind == 's' || o.kind == 'u' {
		if o.ok == 1 && err != nil {
			Failf("%s: fails with %v", hist(), err)
		}
		if o.ok == 0 {
			if err == nil {
				Failf("%s: reports no error", hist())
			}
			if err.Error() == "" {
				Failf("%s: empty error message", hist())
			}
		}
		if err == nil {
			st.valid, st.val = true, o.val
		}
	}
	if m.Valid() != st.valid {
		Failf("%s: Valid() is %v, expected %v", hist(), m.Valid(), st.valid)
	}
	if st.valid && !sameMaybe(m.Value(), st.val) {
		Failf("%s: Value() is %#v, expected %#v", hist(), m.Value(), st.val)
	}
}

func seqName(kind string, ops []mop) string {
	s := kind
	for _, o := range ops {
		s += " " + o.name
	}
	return s
}

func c11(x *X) {
	depth := 4
	if x.thorough {
		depth = 5
	}
	for _, mk := range maybeKinds() {
		n := len(mk.ops)
		for first := 0; first < n; first++ {
			x.Case(func() string { return mk.name + " sequences starting with " + mk.ops[first].name }, func() {
				seq := make([]int, 1, depth)
				seq[0] = first
				var rec func()
				rec = func() {
					x.States++
					x.Traces++
					m := mk.mk()
					st := &mstate{}
					if m.Valid() {
						Failf("a new %s is valid", mk.name)
					}
					done := []mop{}
					for _, i := range seq {
						done = append(done, mk.ops[i])
						x.maybeOp(m, st, mk.ops[i], func() string { return seqName(mk.name, done) })
					}
					if len(seq) == depth {
						return
					}
					for i := 0; i < n; i++ {
						seq = append(seq, i)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			})
		}
		// longer histories over the effective operations, and two instances
		var eff []mop
		for _, o := range mk.ops {
			if o.kind == 'r' || (o.ok == 1 && len(eff) < 3) || (o.kind == 'u' && o.ok == 1 && len(eff) < 5) || (o.kind == 's' && o.ok == 0 && len(eff) < 6) || o.kind == 'm' {
				eff = append(eff, o)
			}
		}
		for first := range eff {
			for second := range eff {
				x.Case(func() string { return "two " + mk.name + " starting with " + eff[first].name + ", " + eff[second].name }, func() {
					n := len(eff)
					var rec func(seq []int)
					rec = func(seq []int) {
						x.States++
						x.Traces++
						a, b := mk.mk(), mk.mk()
						sa, sb := &mstate{}, &mstate{}
						for step, i := range seq {
							m, st, om, ost := a, sa, b, sb
							if i >= n {
								m, st, om, ost = b, sb, a, sa
							}
							// a copy taken before does not follow
							cp := reflect.ValueOf(m).Elem().Interface()
							was := *st
							x.maybeOp(m, st, eff[i%n], func() string {
								return fmt.Sprintf("two %s, operations %v, step %d: %s", mk.name, seq, step, eff[i%n].name)
							})
							if om.Valid() != ost.valid || (ost.valid && !sameMaybe(om.Value(), ost.val)) {
								Failf("two %s, operations %v: another instance changed", mk.name, seq)
							}
							cv, present := fieldValue(reflect.ValueOf(cp))
							if present != was.valid || (present && !sameMaybe(cv, was.val)) {
								Failf("two %s, operations %v: a copy changed to %v", mk.name, seq, cv)
							}
						}
						if len(seq) < 4 {
							for i := 0; i < 2*n; i++ {
								rec(append(append([]int{}, seq...), i))
							}
						}
					}
					rec([]int{first, second})
				})
			}
		}
	}
	c11struct(x)
	c11sweep(x)
}

// c11sweep: every value of the small kinds and the boundaries of the others,
// stored over every kind of earlier state, encoded and decoded.
func c11sweep(x *X) {
	type pair struct{ arg, val J }
	check := func(name string, mk func() jsval.Maybe, ps []pair, texts func(J) string) {
		for i := 0; i < len(ps); i += 512 {
			part := ps[i:min(i+512, len(ps))]
			x.Case(func() string { return fmt.Sprintf("%s values from %T %v", name, part[0].arg, part[0].arg) }, func() {
				x.Traces++
				m := mk() // one instance lives through all of them
				st := &mstate{}
				for j, p := range part {
					x.States++
					o := mop{name: fmt.Sprintf("Set(%T %v)", p.arg, p.arg), ok: 1, val: p.val, arg: p.arg, kind: 's'}
					hist := func() string { return name + " " + o.name }
					x.maybeOp(m, st, o, hist)
					x.maybeOp(m, st, mop{kind: 'm'}, func() string { return name + " " + o.name + " and encoding" })
					f := mk()
					fs := &mstate{}
					x.maybeOp(f, fs, o, hist)
					if t := texts(p.val); t != "" {
						o := mop{name: "UnmarshalJSON(" + t + ")", ok: 1, val: p.val, text: t, kind: 'u'}
						x.maybeOp(f, fs, mop{kind: 'r'}, hist)
						x.maybeOp(f, fs, o, func() string { return name + " " + o.name })
						x.maybeOp(m, st, o, func() string { return name + " " + o.name })
					}
					if j%7 == 0 {
						m.Reset()
						st.valid, st.val = false, nil
					}
				}
			})
		}
	}
	num := func(v J) string { return fmt.Sprint(v) }
	var is, us, fs, ss, tms []pair
	for i := -1 << 15; i < 1<<15; i++ {
		is = append(is, pair{int16(i), int64(i)})
		if i >= -128 && i < 128 {
			is = append(is, pair{int8(i), int64(i)}, pair{int32(i), int64(i)}, pair{int64(i), int64(i)}, pair{i, int64(i)}, pair{float64(i), int64(i)})
		}
	}
	for i := 0; i < 1<<16; i++ {
		us = append(us, pair{uint16(i), uint64(i)})
		if i < 256 {
			us = append(us, pair{uint8(i), uint64(i)}, pair{uint32(i), uint64(i)}, pair{uint64(i), uint64(i)}, pair{uint(i), uint64(i)}, pair{float64(i), uint64(i)})
		}
	}
	for e := 0; e <= 53; e++ {
		for d := int64(-2); d <= 2; d++ {
			v := int64(1)<<e + d
			if v > 1<<53 {
				continue
			}
			for _, n := range []int64{v, -v} {
				is = append(is, pair{n, n}, pair{int(n), n}, pair{float64(n), n})
				if n >= -1<<31 && n < 1<<31 {
					is = append(is, pair{int32(n), n})
				}
				fs = append(fs, pair{float64(n), float64(n)}, pair{float64(n) / 1024, float64(n) / 1024}, pair{1 / float64(2*n+1), 1 / float64(2*n+1)})
				if e < 22 {
					fs = append(fs, pair{float32(n), float64(n)}, pair{float32(n) / 8, float64(n) / 8})
				}
			}
			if v >= 0 {
				us = append(us, pair{uint64(v), uint64(v)}, pair{uint(v), uint64(v)}, pair{float64(v), uint64(v)})
				if v < 1<<32 {
					us = append(us, pair{uint32(v), uint64(v)})
				}
			}
		}
	}
	for e := 54; e <= 63; e++ {
		for d := int64(-3); d <= 3; d++ {
			v := int64(uint64(1)<<e + uint64(d)) // wraps around: all are int64 values
			is = append(is, pair{v, v}, pair{int(v), v}, pair{-v, -v})
			us = append(us, pair{uint64(v), uint64(v)}, pair{uint(v), uint64(v)}, pair{^uint64(v), ^uint64(v)})
		}
		if e < 63 {
			is = append(is, pair{float64(int64(1) << e), int64(1) << e}, pair{-float64(int64(1) << e), -(int64(1) << e)})
		}
		us = append(us, pair{float64(uint64(1) << e), uint64(1) << e})
	}
	is = append(is, pair{-float64(1 << 63), int64(math.MinInt64)})
	for _, f := range []float64{0.1, 0.2, 0.3, 1e-5, 1e-300, 5e-324, 1e21, 1e22, 1e100, 1.7976931348623157e308, 3.141592653589793, 123456789.125} {
		fs = append(fs, pair{f, f}, pair{-f, -f})
	}
	for _, f := range []float32{0.1, 3.3, 1e-20, 1e20} {
		fs = append(fs, pair{f, float64(f)})
	}
	for r := rune(0); r < 0x11000; r++ {
		if r >= 0xd800 && r < 0xe000 || r > 0x800 && r%31 != 0 && r < 0xfff0 {
			continue
		}
		s := string(r)
		ss = append(ss, pair{s, s}, pair{"x" + s + "y", "x" + s + "y"})
	}
	for n := 0; n < 300; n++ {
		ss = append(ss, pair{repeat("q", n), repeat("q", n)}, pair{repeat("ä", n), repeat("ä", n)})
	}
	for _, y := range []int{1, 1000, 1582, 1900, 1969, 1970, 1999, 2000, 2020, 2021, 2038, 9999} {
		for _, md := range [][2]int{{1, 1}, {2, 28}, {2, 29}, {3, 1}, {12, 31}, {6, 30}} {
			if md == [2]int{2, 29} && !(y%4 == 0 && (y%100 != 0 || y%400 == 0)) {
				continue
			}
			for _, h := range [][3]int{{0, 0, 0}, {12, 34, 56}, {23, 59, 59}} {
				for _, off := range []int{0, 1, -1, 60, 330, 345, -210, 540, 840, -720, -719} {
					t := time.Date(y, time.Month(md[0]), md[1], h[0], h[1], h[2], 0, time.FixedZone("", off*60))
					if t.UTC().Year() < 1 || t.UTC().Year() > 9999 {
						continue
					}
					tms = append(tms, pair{t, t}, pair{t.Format(time.RFC3339), t})
				}
			}
		}
	}
	js := func(v J) string { b, _ := json.Marshal(v); return string(b) }
	check("MaybeInt", func() jsval.Maybe { return &jsval.MaybeInt{} }, is, num)
	check("MaybeUint", func() jsval.Maybe { return &jsval.MaybeUint{} }, us, num)
	check("MaybeFloat", func() jsval.Maybe { return &jsval.MaybeFloat{} }, fs, js)
	check("MaybeString", func() jsval.Maybe { return &jsval.MaybeString{} }, ss, js)
	check("MaybeTime", func() jsval.Maybe { return &jsval.MaybeTime{} }, tms, func(v J) string { return js(v.(time.Time).Format(time.RFC3339)) })
	// text that is no value of the type, over an unset and a set value
	texts := map[string][]string{
		"MaybeInt":    {`"1"`, `1.5`, `1e-1`, `-0.5`, `9223372036854775808`, `-9223372036854775809`, `1e400`, `true`, `false`, `{}`, `{"a":1}`, `[]`, `[1]`, ``, ` `, `1 2`, `1,`, `0x10`, `01`, `+1`, `1_000`, `--1`, `NaN`, `Infinity`, `nul`, `"`, `'1'`},
		"MaybeUint":   {`"1"`, `1.5`, `-1`, `-9`, `18446744073709551616`, `1e400`, `true`, `{}`, `[]`, `[1]`, ``, `1 2`, `01`, `+1`, `NaN`, `-`},
		"MaybeFloat":  {`"1"`, `1e400`, `-1e400`, `true`, `{}`, `[]`, `[1]`, ``, `1 2`, `01`, `+1`, `.5`, `1.`, `NaN`, `Infinity`, `1e`, `-`},
		"MaybeBool":   {`"true"`, `0`, `1`, `{}`, `[]`, `[true]`, ``, `TRUE`, `True`, `t`, `truee`, `true false`, `yes`},
		"MaybeString": {`1`, `true`, `{}`, `[]`, `["a"]`, ``, `a`, `'a'`, `"a`, `a"`, `"a" "b"`, "\"\n\"", `"\x"`, `"\u12"`},
		"MaybeTime":   {`1`, `true`, `{}`, `[]`, ``, `"x"`, `"2020-01-02"`, `"2020-13-01T00:00:00Z"`, `"2020-02-30T00:00:00Z"`, `"2021-02-29T00:00:00Z"`, `"2020-01-02T24:00:00Z"`, `"2020-01-02T03:04:05"`, `"2020-01-02 03:04:05Z"`, `"2020-01-02T03:60:05Z"`, `"2020-01-02T03:04:05Z `, `"2020-01-02T03:04:05+9:00"`, `"20200102T030405Z"`, `"Thu, 02 Jan 2020 03:04:05 GMT"`, `"now"`, `"0"`},
	}
	// numbers that are no value of the type
	var frac []float64
	for i := 0; i < 64; i++ {
		for _, f := range []float64{0.5, 0.25, 0.1, 0.999, 1e-9} {
			frac = append(frac, float64(i)+f, -float64(i)-f, math.Ldexp(1, i/2)+f)
		}
		frac = append(frac, math.Ldexp(1, 64+i*15), -math.Ldexp(1, 64+i*15), math.Ldexp(1, -1-i*16))
	}
	frac = append(frac, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64)
	keep := frac[:0]
	for _, f := range frac {
		if f != math.Trunc(f) || math.Abs(f) >= 1<<64 {
			keep = append(keep, f)
		}
	}
	frac = keep
	for _, mk := range maybeKinds() {
		args := frac
		switch mk.name {
		case "MaybeInt":
			args = append(args[:len(args):len(args)], 1<<63, -1<<63-2048)
		case "MaybeUint":
			for i := 1; i < 60; i++ {
				args = append(args[:len(args):len(args)], -float64(i), -math.Ldexp(1, i))
			}
		case "MaybeFloat":
			continue
		}
		for _, f := range args {
			x.Case(func() string { return fmt.Sprint(mk.name, " given ", f) }, func() {
				for _, o := range mk.ops {
					m, st := mk.mk(), &mstate{}
					x.States++
					x.Traces++
					hist := func() string { return fmt.Sprint(mk.name, " ", o.name, ", Set(", f, ")") }
					x.maybeOp(m, st, o, hist)
					x.maybeOp(m, st, mop{ok: 0, arg: f, kind: 's'}, hist)
					x.maybeOp(m, st, o, hist)
				}
			})
		}
	}
	// values of every numeric kind: stored as the same number or refused
	for _, mk := range maybeKinds() {
		for _, a := range numericArgs() {
			x.Case(func() string { return fmt.Sprintf("%s given %T %v", mk.name, a, a) }, func() {
				o := mop{name: fmt.Sprintf("Set(%T %v)", a, a), arg: a, kind: 's'}
				if v, ok := sameNumber(mk.name, a); ok {
					o.ok, o.val = -1, v
				}
				for _, before := range mk.ops {
					m, st := mk.mk(), &mstate{}
					x.States++
					x.Traces++
					hist := func() string { return mk.name + " " + before.name + ", " + o.name }
					x.maybeOp(m, st, before, hist)
					x.maybeOp(m, st, o, hist)
					x.maybeOp(m, st, before, hist)
				}
			})
		}
	}
	for _, mk := range maybeKinds() {
		for _, t := range texts[mk.name] {
			x.Case(func() string { return mk.name + " decoding " + t }, func() {
				for _, o := range mk.ops {
					m, st := mk.mk(), &mstate{}
					x.States++
					x.Traces++
					hist := func() string { return mk.name + " " + o.name + ", UnmarshalJSON(" + t + ")" }
					x.maybeOp(m, st, o, hist)
					x.maybeOp(m, st, mop{ok: 0, text: t, kind: 'u'}, hist)
					x.maybeOp(m, st, o, hist)
				}
			})
		}
	}
}

type (
	myInt   int
	myInt8  int8
	myUint  uint64
	myFloat float64
	myF32   float32
)

func numericArgs() []J {
	var out []J
	for _, t := range []J{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), float32(0), float64(0), myInt(0), myInt8(0), myUint(0), myFloat(0), myF32(0)} {
		rt := reflect.TypeOf(t)
		seen := map[string]bool{}
		for _, v := range []J{int64(0), int64(1), int64(-1), int64(127), int64(-128), int64(128), int64(255), int64(256), int64(65535), int64(1 << 31), int64(-1 << 31), int64(1 << 32), int64(1<<53 - 1), int64(math.MaxInt64), int64(math.MinInt64), uint64(1 << 63), uint64(math.MaxUint64), 0.5, 1.5, -0.5, -1.5, 2.75, 1e-9, 1e30, -1e30} {
			c := reflect.ValueOf(v).Convert(rt).Interface()
			if k := fmt.Sprint(c); !seen[k] {
				seen[k] = true
				out = append(out, c)
			}
		}
	}
	return append(out, complex(1, 0), complex64(1), json.Number("1"), time.Second)
}

// sameNumber is a as a value of the given Maybe type, if there is one.
func sameNumber(kind string, a J) (J, bool) {
	rv := reflect.ValueOf(a)
	var n *big.Float
	switch {
	case rv.CanInt():
		n = new(big.Float).SetPrec(200).SetInt64(rv.Int())
	case rv.CanUint():
		n = new(big.Float).SetPrec(200).SetUint64(rv.Uint())
	case rv.CanFloat():
		n = new(big.Float).SetPrec(200).SetFloat64(rv.Float())
	case rv.Kind() == reflect.String: // json.Number("1")
		n = big.NewFloat(1)
		if kind == "MaybeString" {
			return "1", true
		}
	default:
		return nil, false
	}
	switch kind {
	case "MaybeInt":
		if i, acc := n.Int64(); n.IsInt() && acc == big.Exact {
			return i, true
		}
	case "MaybeUint":
		if i, acc := n.Uint64(); n.IsInt() && acc == big.Exact {
			return i, true
		}
	case "MaybeFloat":
		f, _ := n.Float64()
		return f, true
	}
	return nil, false
}

type allMaybe struct {
	B jsval.MaybeBool   `json:"b"`
	F jsval.MaybeFloat  `json:"f"`
	I jsval.MaybeInt    `json:"i"`
	S jsval.MaybeString `json:"s"`
	T jsval.MaybeTime   `json:"t"`
	U jsval.MaybeUint   `json:"u"`
}

// struct documents: each key absent, good or ill-typed
func c11struct(x *X) {
	keys := []string{"b", "f", "i", "s", "t", "u"}
	good := [][]string{{"true", "false"}, {"1.5", "0"}, {"-3", "0"}, {`"x"`, `""`}, {`"2020-01-02T03:04:05Z"`, `"1999-12-31T23:59:59-07:00"`}, {"3", "0"}}
	ill := []string{`"x"`, `"x"`, `"x"`, `1`, `1`, `-1`}
	for c := 0; c < 4096; c++ {
		x.Case(func() string { return fmt.Sprintf("struct document %d", c) }, func() {
			doc := ""
			var st [6]int
			d := c
			bad := false
			for i, k := range keys {
				st[i] = d & 3
				d >>= 2
				if st[i] == 0 {
					continue
				}
				t := ill[i]
				if st[i] < 3 {
					t = good[i][st[i]-1]
				} else {
					bad = true
				}
				if doc != "" {
					doc += ","
				}
				doc += fmt.Sprintf("%q:%s", k, t)
			}
			doc = "{" + doc + "}"
			x.States++
			x.Traces++
			var a allMaybe
			err := json.Unmarshal([]byte(doc), &a)
			x.Transitions++
			if (err != nil) != bad {
				Failf("decoding %s: error %v", doc, err)
			}
			if bad {
				return
			}
			p := structProps(reflect.ValueOf(a))
			for i, k := range keys {
				_, ok := p[k]
				if ok != (st[i] > 0) {
					Failf("decoding %s: %s present %v", doc, k, ok)
				}
			}
			// encode and decode again
			b, err := json.Marshal(&a)
			if err != nil {
				Failf("encoding: %v", err)
			}
			var back M
			if err := json.Unmarshal(b, &back); err != nil {
				Failf("encoding of %s is no JSON: %s", doc, b)
			}
			for i, k := range keys {
				if st[i] == 0 {
					continue
				}
				var want J
				json.Unmarshal([]byte(good[i][st[i]-1]), &want)
				if !jsonEqual(back[k], want) {
					Failf("%s encodes as %s", doc, b)
				}
			}
		})
	}
}
