package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C04", run: c04, traces: validated,
		bounds: "boolean (with every enum of up to 2 members), null, empty and enum constraints (all enums of up to 2 members over an alphabet of 26 values, long ones up to 80 members in 4 arrangements; all pairs of 71 lookalike values, bare and in 7 wrappings; all pairs of 69 confusable strings and numbers (invalid UTF-8, case, composition, escapes, last digits), bare and in 5 wrappings, as values and as names; members of up to 5000 characters or 513 entries that differ in one place) x an alphabet of over 100 Go values; validator wrapper: 8 names x every root kind x the same values, in both orders of naming and setting the root; enumerations at and around powers of two and round numbers up to 4097; values of 50 types with methods"})
}

func zooValues() []J {
	one, s, f, b := 1, "a", 1.5, true
	pone := &one
	vals := []J{
		nil, true, false, 0, 1, 2, -1, int8(1), int64(1), uint(1), uint8(0), 0.0, 1.0, 1.5, float32(1), "", "a", "b", "true", "null", "1",
		L{}, L{nil}, L{1.0}, L{"a"}, L{"a", "b"}, L{"b", "a"}, L{L{}}, L{M{}}, []string{}, []string{"a"}, []int{1}, []byte("a"),
		M{}, M{"a": nil}, M{"a": 1.0}, M{"a": "a"}, M{"a": 1.0, "b": 2.0}, M{"a": M{"b": L{1.0}}}, M{"a": M{"b": L{2.0}}}, M{"b": 1.0}, map[string]string{"a": "a"}, map[string]int{}, map[int]int{1: 1},
		namedString("a"), namedInt(1), namedFloat(1), namedBool(true), namedBool(false), stringerT{"a"}, plainStruct{}, plainStruct{A: "a", B: 1}, &plainStruct{},
		&one, &s, &f, &b, &pone, new(interface{}), nilStr, nilInt, nilMap, nilSlice, nilFunc, nilChan, nilStru, []byte(nil), map[int]int(nil), (*jsval.MaybeString)(nil), (*interface{})(nil),
		[0]int{}, [1]int{1}, func() {}, make(chan int), errors.New("e"), error(nil), struct{}{}, complex(0, 0), time.Time{}, uintptr(0), 'a',
		jsval.MaybeBool{}, &jsval.MaybeInt{}, jsval.EmptyConstraint, (*int)(nil),
	}
	return vals
}

func enumMembers() []J {
	return []J{nil, true, false, 0.0, 1.0, 1.5, -1.0, "", "a", "b", "1", "true", "null", L{}, L{"a"}, L{"a", "b"}, L{1.0}, L{L{}}, L{M{}}, M{}, M{"a": nil}, M{"a": 1.0}, M{"a": "a"}, M{"a": 1.0, "b": 2.0}, M{"a": M{"b": L{1.0}}}, M{"b": 1.0}}
}

func c04(x *X) {
	x.longEnums("enum")
	x.big(4097, "enum")
	x.enumLookalikes()
	x.confused(false)
	x.longMembers()
	x.methods(sBool, sNull, sEmpty, enum("ab", 3, 3.0, true, mdInt(3), mdString("ab")), sBool.with(func(s *Spec) { s.Enum, s.HasEnum = []J{true}, true }))
	vals := zooValues()
	x.grid(sNull, nil, vals)
	x.grid(sEmpty, nil, vals)
	x.grid(sBool, nil, vals)
	for _, e := range [][]J{{}, {true}, {false}, {true, false}, {false, true}, {"a"}, {nil, true}} {
		x.grid(sBool.with(func(s *Spec) { s.HasEnum, s.Enum = true, e }), nil, append([]J{true, false, namedBool(true)}, vals...))
	}
	ms := enumMembers()
	jvals := append(append([]J{}, ms...), 2.0, "c", "ab", L{nil}, L{"b", "a"}, L{"a", "b", "c"}, M{"a": 1.0, "c": 2.0}, M{"a": M{"b": L{1.0, 1.0}}}, M{"a": M{"b": L{}}}, M{"a": M{}}, L{M{"a": 1.0}}, L{0.0}, L{false}, M{"a": false}, M{"a": 0.0})
	x.grid(enum(), nil, jvals)
	for _, a := range ms {
		x.grid(enum(a), nil, jvals)
		for _, b := range ms {
			x.grid(enum(a, b), nil, jvals)
		}
	}
	for n := 1; n <= 60; n++ {
		var e []J
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				e = append(e, fmt.Sprintf("s%d", i))
			case 1:
				e = append(e, float64(i))
			case 2:
				e = append(e, L{float64(i)})
			case 3:
				e = append(e, M{"k": float64(i)})
			}
		}
		var vs []J
		for i := 0; i < n+8; i++ {
			vs = append(vs, fmt.Sprintf("s%d", i), float64(i), L{float64(i)}, M{"k": float64(i)}, fmt.Sprint(i), L{fmt.Sprint(i)})
		}
		x.grid(enum(e...), nil, append(vs, jvals...))
	}
	// long lists and maps as members, differing anywhere
	for n := 1; n <= 20; n++ {
		base := make(L, n)
		bm := M{}
		for i := range base {
			base[i] = float64(i)
			bm[fmt.Sprint("k", i)] = float64(i)
		}
		vs := []J{base, bm, base[:n-1], append(append(L{}, base...), 1.0)}
		for i := 0; i < n; i++ {
			c := append(L{}, base...)
			c[i] = "x"
			cm := M{}
			for k, v := range bm {
				cm[k] = v
			}
			cm[fmt.Sprint("k", i)] = "x"
			dm := M{}
			for k, v := range bm {
				if k != fmt.Sprint("k", i) {
					dm[k] = v
				}
			}
			vs = append(vs, c, cm, dm)
		}
		x.grid(enum(base), nil, vs)
		x.grid(enum(bm), nil, vs)
		x.grid(enum(bm, base), nil, vs)
	}
	// the wrapper
	roots := []*Spec{sEmpty, sNull, sBool, sStr, sNum, sInt, arr(nil), arr(sStr), obj(), obj(Prop{"a", sNum}).with(func(s *Spec) { s.AddProps = sEmpty }), enum("a", 1.0), any_(sStr, sNum), all(sStr, strMin(1)), oneof(sNum, sInt), not(sStr), any_(), all(), oneof(), ref("r")}
	names := []string{"", "V", "é", "a b", "%s", "%!", "\x00", repeat("n", 300)}
	env := Env{"r": sStr}
	// (values the object constraint treats specially are left to C06/C10)
	var wv []J
	for _, v := range vals {
		switch v.(type) {
		case map[int]int, jsval.MaybeBool, *jsval.MaybeInt, *jsval.MaybeString, time.Time, error, func(), plainStruct, *plainStruct, stringerT, struct{}:
			continue
		}
		wv = append(wv, v)
	}
	for _, s := range roots {
		for _, name := range names {
			for order := 0; order < 2; order++ {
				x.Case(func() string { return fmt.Sprintf("New() named %q (order %d) with root %s", trim(name, 20), order, s) }, func() {
					v := jsval.New()
					v.SetReference("r", env["r"].Build(v))
					if order == 0 {
						v.SetName(name)
						v.SetRoot(s.Build(v))
					} else {
						v.SetRoot(s.Build(v))
						v.SetName(name)
					}
					if v.Root() == nil {
						Failf("Root() is nil after SetRoot")
					}
					x.gridBody(s, env, wv, v)
					for _, val := range wv {
						err := v.Validate(val)
						if err != nil && strings.TrimSpace(err.Error()) == "" {
							Failf("failure on %s has an empty message", show(val))
						}
						rerr := v.Root().Validate(val)
						if (err == nil) != (rerr == nil) {
							Failf("validator and root disagree on %s: %v / %v", show(val), err, rerr)
						}
						x.Transitions += 2
					}
				})
			}
		}
	}
}
