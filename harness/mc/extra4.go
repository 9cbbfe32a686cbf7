package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"

	"github.com/lestrrat-go/jsval"
)

// controlPatterns: patterns that care about where a line or a text begins
// and ends, on all short strings of letters, line ends and other white space.
func (x *X) controlPatterns() {
	n := 3
	if x.thorough {
		n = 4
	}
	vals := toJ(stringsOver([]string{"a", "b", "\n", "\r", " ", "\t", "\x00", "\u2028", "é", "\xff"}, n))
	for _, p := range []string{`^a`, `a$`, `^a$`, `^[a-z]+$`, `^[a-z]*$`, `\Aa`, `a\z`, `^$`, `.`, `^.$`, `^..$`, `^a.b$`, `(?s).`, `(?s)^.$`, `(?s)^a.b$`, `(?m)^a`, `(?m)a$`, `(?m)^a$`, `(?m)^$`, `(?ms)^a.b$`, `\s`, `\S`, `^\s`, `\s$`, `^\S+$`, `\bb`, `\Bb`, `[^a]$`, `\n`, `\r\n`, `[[:cntrl:]]`, `[[:space:]]$`, `^[^\n]*$`, `\x00`, `\x{2028}`, `(?U)a+`, `(?i)^A\n?$`} {
		x.grid(strRx(p), nil, vals)
		x.grid(strRx(p).with(func(s *Spec) { s.MinLen, s.MaxLen = ip(1), ip(2) }), nil, vals)
	}
	for _, s := range []*Spec{strMin(1), strMin(2), strMax(1), strMax(2), {Kind: "string", HasEnum: true, Enum: []J{"a", "a\n", "\r\n", " a", "\x00"}}, {Kind: "string", HasEnum: true, Enum: []J{"ab", "\xff", "é", "a ", ""}}} {
		x.grid(s, nil, vals)
	}
}

// controlNames: the same for the names of properties.
func (x *X) controlNames() {
	var vals []J
	for _, s := range stringsOver([]string{"a", "b", "\n", "\r", " ", "\t", "\x00", "é", "\xff"}, 2) {
		vals = append(vals, M{s: 1.0}, M{s: "s", "q": 1.0}, M{s + "a": 1.0, "a" + s: "s"})
	}
	for _, p := range []string{`^a`, `a$`, `^a$`, `^[a-z]+$`, `^$`, `^.$`, `(?s)^.$`, `(?m)^a$`, `\s$`, `^\S+$`, `[^a]$`, `\n`, `\x00`} {
		for _, ad := range []*Spec{nil, sStr, sEmpty} {
			x.grid(&Spec{Kind: "object", Pats: []Prop{{p, sNum}}, AddProps: ad}, nil, vals)
			x.grid(&Spec{Kind: "object", Pats: []Prop{{p, sNum}}, Props: []Prop{{"a", sEmpty}, {"a\n", sStr}, {" ", sNum}}, AddProps: ad}, nil, vals)
		}
	}
}

// longFormats: values of every format at all lengths where an implementation
// may change its ways.
func (x *X) longFormats() {
	for _, n := range bigSizes(100001) {
		x.Case(func() string { return fmt.Sprintf("formats on values of about %d characters", n) }, func() {
			for f, seeds := range map[string][]string{
				"uri":       {"http://example.com/" + repeat("a", n), "http://example.com/?" + repeat("a=b&", n/4), "http://example.com/#" + repeat("x", n), "urn:" + repeat("0", n), "http://" + repeat("h.", n/2) + "h/", repeat("a", n), repeat("../", n/3), "http://h/" + repeat("%41", n/3), "http://h/" + repeat("%41", n/3) + "%4", "http://" + repeat("u", n) + "@h/", "http://h/" + repeat("a", n) + "\x7f", "http://h/" + repeat("é", n), repeat("s", n) + "://h", "1" + repeat("s", n) + "://h", repeat("s", n) + " ://h", "http://h:" + repeat("1", n) + "/", "http://h:" + repeat("1", n) + "x/"},
				"email":     {repeat("a", n) + "@b.c", "a@" + repeat("b", n), "a@" + repeat("b.", n/2) + "c", repeat("a.", n/2) + "a@b", repeat("n", n) + " <a@b>", "\"" + repeat("q ", n/2) + "\"@b", repeat("a", n), repeat("a", n) + "@", repeat("a", n) + "@b@c", "(" + repeat("c", n) + ") a@b", repeat(" ", n) + "a@b", "a@b" + repeat(" ", n)},
				"hostname":  {repeat("a", n), repeat("a.", n/2), repeat("a.", n/2) + "a", repeat(repeat("a", 62)+".", n/63) + "a", repeat("1.", n/2) + "a"},
				"ipv4":      {"1.2.3." + repeat("4", n), repeat("1.", n/2) + "1", repeat("0", n) + "1.2.3.4", "1.2.3.4" + repeat(" ", n), repeat("1", n)},
				"ipv6":      {"::" + repeat("0", n), repeat("1:", n/2) + "1", repeat(":", n), "::1" + repeat(" ", n), "::" + repeat("1:", n/2) + "1"},
				"date-time": {"2015-06-30T01:02:03." + repeat("1", n) + "Z", "2015-06-30T01:02:03." + repeat("0", n) + "+09:00", repeat("2", n) + "-06-30T01:02:03Z", "2015-06-30T01:02:03Z" + repeat(" ", n), "2015-06-30T01:02:03" + repeat("0", n) + "Z"},
				"other":     {repeat("x", n), repeat("é", n)},
			} {
				var vals []J
				for _, s := range seeds {
					vals = append(vals, s)
				}
				for _, s := range []*Spec{{Kind: "string", Format: f}, {Kind: "string", Format: f, MinLen: ip(n)}, {Kind: "string", Format: f, MaxLen: ip(n)}} {
					x.gridBody(s, nil, vals, s.Validator(nil))
				}
			}
		})
	}
}

// close lists numbers near f: the neighbours, and f off by powers of ten.
func closeTo(f float64) []float64 {
	out := []float64{f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1))}
	for _, e := range []int{-320, -308, -300, -200, -100, -50, -40, -30, -20, -18, -17, -16, -15, -14, -13, -12, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1} {
		d := math.Pow(10, float64(e))
		for _, m := range []float64{1, 0.5, 4} {
			out = append(out, f+m*d, f-m*d)
			if f != 0 {
				out = append(out, f*(1+m*d), f*(1-m*d))
			}
		}
	}
	seen := map[float64]bool{}
	var u []float64
	for _, g := range out {
		if !seen[g] && math.Abs(g) <= 1<<53 {
			seen[g] = true
			u = append(u, g)
		}
	}
	return u
}

func (x *X) closeNumbers() {
	for _, kind := range []string{"number", "integer"} {
		for _, lim := range []float64{0, 1, -1, 0.1, -0.1, 0.5, 2, 3, 7, 1.5, -2.5, 1.0 / 3, 10, 100, 1000, 1e6, -1e6, 123456.789, 1e9, 1e12, 1e15, -1e15, 1 << 53, 1e-3, 1e-6, 1e-9, 1e-12, 1e-20, -1e-100, 5e-324} {
			var vs []J
			for _, f := range closeTo(lim) {
				vs = append(vs, f)
				if f32 := float32(f); math.Abs(f) < 1e30 && float64(f32) != f {
					vs = append(vs, f32)
				}
			}
			for _, s := range []*Spec{
				{Min: fp(lim)}, {Max: fp(lim)}, {Min: fp(lim), ExMin: true}, {Max: fp(lim), ExMax: true},
				{Min: fp(lim), Max: fp(lim)}, {Min: fp(lim), Max: fp(lim), ExMax: true}, {HasEnum: true, Enum: []J{lim}}, {HasEnum: true, Enum: []J{-7.25, lim, "x"}}, {},
			} {
				s.Kind = kind
				x.grid(s, nil, vs)
			}
		}
		for _, m := range []float64{1, 2, 3, 7, 10, 100, 1000, 0.5, 0.25, 0.1, 0.01, 1.5, 1e-3, 1e-6, 1e6} {
			var vs []J
			for _, q := range []float64{0, 1, -1, 2, 3, 10, 37, 100, 1000, 12345} {
				for _, f := range closeTo(q * m) {
					vs = append(vs, f)
				}
			}
			x.grid(&Spec{Kind: kind, Mult: fp(m)}, nil, vs)
			x.grid(&Spec{Kind: kind, Mult: fp(m), Min: fp(0), Max: fp(100 * m), ExMax: true}, nil, vs)
		}
	}
}

// confusable strings and numbers: different, but the same to a careless eye.
func confusable() []J {
	return []J{"a\xffb", "a\xfeb", "a\ufffdb", "a\xff\xffb", "\xff", "\xfe", "\ufffd", "\xc3", "\xc3\xa9", "é", "e\u0301", "\xed\xa0\x80", "a", "a ", " a", "a\x00", "a\n", "a\r\n", "A", "ａ", "а", "ſ", "s", "K", "\u212a", "k", "ß", "ss", "ẞ", "İ", "i", "I", "ı", "<", "\\u003c", "\u003c", "&", "\u2028", "\\u2028", "\"", "\\\"", "", "\x00", "\\x00",
		0.0, math.Copysign(0, -1), 1.0, 1.0000000000000002, 1e15, 1e15 + 0.5, 9007199254740991.0, 9007199254740992.0, 1e-7, 1.0000001e-7, 0.1, 0.1 + 1e-17, 0.1 + 1e-16, 1e20, 1e21, 1e22, 100.0, "100", "1e2", true, "true", nil, "null", L{}, M{}, L{""}, M{"": nil}}
}

// confused checks enumerations, or the uniqueness of elements.
func (x *X) confused(unique bool) {
	vals := confusable()
	wraps := []func(J) J{
		func(v J) J { return v },
		func(v J) J { return L{v} },
		func(v J) J { return M{"a": v} },
		func(v J) J { return L{1.0, M{"z": L{v, "x"}}} },
		func(v J) J {
			if s, ok := v.(string); ok {
				return M{s: 1.0}
			}
			return M{"k": M{"l": v}, "m": v}
		},
		func(v J) J {
			if s, ok := v.(string); ok {
				return L{M{"x" + s: L{}}}
			}
			return L{v, v}
		},
	}
	for _, m := range vals {
		x.Case(func() string { return "what is easily confused with " + show(m) }, func() {
			for _, w := range wraps {
				if unique {
					var vs []J
					for _, v := range vals {
						if zero(v) && zero(m) && sign(v) != sign(m) {
							continue // see bothZeros
						}
						vs = append(vs, L{w(m), w(v)}, L{"q", w(m), 77.0, w(v)})
					}
					for _, s := range []*Spec{{Kind: "array", Unique: true}, {Kind: "array", Unique: true, Items: sEmpty}} {
						x.gridBody(s, nil, vs, s.Validator(nil))
					}
					continue
				}
				var vs []J
				for _, v := range vals {
					vs = append(vs, w(v))
				}
				ss := []*Spec{enum(w(m)), enum("other", w(m)), enum(w(m), M{"other": 1.0}, 4.0)}
				switch w(m).(type) {
				case string:
					ss = append(ss, &Spec{Kind: "string", HasEnum: true, Enum: []J{w(m), "other"}})
				case float64:
					ss = append(ss, &Spec{Kind: "number", HasEnum: true, Enum: []J{w(m), 4.0}})
				}
				for _, s := range ss {
					x.gridBody(s, nil, vs, s.Validator(nil))
				}
			}
		})
	}
}

func zero(v J) bool { f, ok := v.(float64); return ok && f == 0 }
func sign(v J) bool { return math.Signbit(v.(float64)) }

// bothZeros: negative zero is no other number than zero.
func (x *X) bothZeros() {
	neg := math.Copysign(0, -1)
	for _, l := range []L{{0.0, neg}, {L{0.0}, L{neg}}, {M{"a": 0.0}, M{"a": neg}}} {
		x.Case(func() string { return "zeros of both signs: Array().UniqueItems(true) on " + show(l) }, func() {
			s := &Spec{Kind: "array", Unique: true}
			x.gridBody(s, nil, []J{l}, s.Validator(nil))
		})
	}
}

// Maybe types of an application, of kinds other than struct.
type sliceMaybe []string

func (m sliceMaybe) Valid() bool { return m != nil }
func (m sliceMaybe) Value() interface{} {
	l := L{}
	for _, s := range m {
		l = append(l, s)
	}
	return l
}
func (m *sliceMaybe) Reset() { *m = nil }
func (m *sliceMaybe) Set(v interface{}) error {
	s, ok := v.(string)
	if !ok {
		return errors.New("no string")
	}
	*m = sliceMaybe{s}
	return nil
}

type mapMaybe map[string]interface{}

func (m mapMaybe) Valid() bool        { return m != nil }
func (m mapMaybe) Value() interface{} { return M(m) }
func (m mapMaybe) Reset()             { clear(m) }
func (m *mapMaybe) Set(v interface{}) error {
	*m = mapMaybe{"v": v}
	return nil
}

type boolMaybe bool

func (m boolMaybe) Valid() bool              { return bool(m) }
func (m boolMaybe) Value() interface{}       { return "yes" }
func (m *boolMaybe) Reset()                  { *m = false }
func (m *boolMaybe) Set(v interface{}) error { *m = true; return nil }

type arrayMaybe [2]float64

func (m *arrayMaybe) Valid() bool             { return m[0] != 0 }
func (m *arrayMaybe) Value() interface{}      { return m[1] }
func (m *arrayMaybe) Reset()                  { m[0] = 0 }
func (m *arrayMaybe) Set(v interface{}) error { *m = arrayMaybe{1, v.(float64)}; return nil }

type funcMaybe func() string

func (m funcMaybe) Valid() bool             { return m != nil }
func (m funcMaybe) Value() interface{}      { return m() }
func (m funcMaybe) Reset()                  {}
func (m funcMaybe) Set(v interface{}) error { return errors.New("cannot be set") }

func moreMaybes() []fieldAlt {
	f := func(vals ...J) fieldAlt { return fieldAlt{reflect.TypeOf(vals[0]), vals} }
	ps := sliceMaybe{"s"}
	var pn sliceMaybe
	return []fieldAlt{
		f(sliceMaybe(nil), sliceMaybe{}, sliceMaybe{"s"}), f(mapMaybe(nil), mapMaybe{}, mapMaybe{"q": 1.0}), f(ownString(""), ownString("+"), ownString("+s")), f(ownInt(0), ownInt(1), ownInt(6)),
		f(boolMaybe(false), boolMaybe(true)), f(arrayMaybe{}, arrayMaybe{1, 2}), f(funcMaybe(nil), funcMaybe(func() string { return "s" })), f(ptrMaybe{}, ptrMaybe{"s", true}), f(valMaybe{}, valMaybe{&ptrMaybe{"s", true}}),
		f((*sliceMaybe)(nil), &pn, &ps),
		{maybeT, []J{nil, &ptrMaybe{}, &ptrMaybe{"s", true}, valMaybe{}, funcMaybe(func() string { return "t" })}},
	}
}

var freshTypes int

// freshStruct makes a struct type that has not been seen before.
func freshStruct(fs []reflect.StructField) reflect.Type {
	freshTypes++
	fs = append(append([]reflect.StructField{}, fs...), reflect.StructField{Name: fmt.Sprintf("Fresh%d", freshTypes), Type: reflect.TypeOf(struct{}{}), Tag: `json:"-"`})
	return reflect.StructOf(fs)
}

// structHistories: for struct types of all shapes, every sequence of values
// met since the type was first seen.
func (x *X) structHistories() {
	type shape struct {
		f    reflect.StructField
		vals []J
	}
	fld := func(name, tag string, a fieldAlt) shape {
		return shape{reflect.StructField{Name: name, Type: a.t, Tag: reflect.StructTag(tag)}, a.vals}
	}
	emb := func(vals ...J) shape {
		t := reflect.TypeOf(vals[0])
		n := t.Name()
		if t.Kind() == reflect.Ptr {
			n = t.Elem().Name()
		}
		return shape{reflect.StructField{Name: n, Type: t, Anonymous: true}, vals}
	}
	f := func(vals ...J) fieldAlt { return fieldAlt{reflect.TypeOf(vals[0]), vals} }
	pm := mString("p")
	one := []shape{
		fld("A", `json:"a"`, f("", "s")), fld("A", `json:"a"`, f(jsval.MaybeString{}, mString("s"))), fld("A", `json:"a"`, f((*jsval.MaybeString)(nil), &jsval.MaybeString{}, &pm)),
		fld("A", `json:"a"`, fieldAlt{reflect.TypeOf((*interface{})(nil)).Elem(), []J{nil, "s", 1.0}}), fld("A", `json:"a"`, f(nilStr, sp("s"))), fld("A", `json:"a"`, f(nilMap, M{"q": 1.0})),
		emb(EmbPlain{}, EmbPlain{"s"}), emb((*EmbPlain)(nil), &EmbPlain{}, &EmbPlain{"s"}), emb((*EmbB)(nil), &EmbB{}, &EmbB{mString("s"), 1}), emb(EmbB{}, EmbB{mString("s"), 1}),
		emb((*EmbD0)(nil), &EmbD0{}, &EmbD0{EmbPlain: &EmbPlain{"s"}}), emb(EmbD0{}, EmbD0{EmbPlain: &EmbPlain{"s"}}),
	}
	for _, a := range moreMaybes() {
		one = append(one, fld("A", `json:"a"`, a))
	}
	two := []shape{{}, fld("Z", `json:"z"`, f("z")), fld("Z", `json:"b"`, f(jsval.MaybeInt{}, mInt(3)))}
	two = append(two, emb((*EmbE)(nil), &EmbE{"e"}))
	for _, a := range one {
		for _, b := range two {
			fs := []reflect.StructField{a.f}
			if b.vals != nil {
				fs = append(fs, b.f)
			}
			mk := func() (t reflect.Type, ok bool) {
				defer func() { ok = recover() == nil }() // StructOf has its limits
				return freshStruct(fs), true
			}
			if _, ok := mk(); !ok {
				continue
			}
			x.Case(func() string { return fmt.Sprintf("histories of struct { %v; %v }", a.f, b.f) }, func() {
				bv := b.vals
				if bv == nil {
					bv = []J{nil}
				}
				n := len(a.vals) * len(bv)
				value := func(t reflect.Type, i int) J {
					v := reflect.New(t).Elem()
					set := func(f int, e J) {
						if e != nil {
							v.Field(f).Set(reflect.ValueOf(e))
						}
					}
					set(0, a.vals[i%len(a.vals)])
					if b.vals != nil {
						set(1, bv[i/len(a.vals)])
					}
					return v.Interface()
				}
				names := map[string]bool{"a": true}
				t0, _ := mk()
				for i := 0; i < n; i++ {
					p, _ := properties(value(t0, i))
					for k := range p {
						names[k] = true
					}
				}
				specs := structSpecs(sortedKeys(names))
				cs := make([]validator, len(specs))
				for i, s := range specs {
					cs[i] = s.Validator(nil)
				}
				wants := make([][]bool, n)
				for i := range wants {
					p, _ := properties(value(t0, i))
					for _, s := range specs {
						wants[i] = append(wants[i], s.Eval(nil, p))
					}
				}
				depth := 2
				if x.thorough {
					depth = 3
				}
				var seq []int
				var rec func(d int)
				rec = func(d int) {
					if d == 0 {
						t, _ := mk()
						x.Traces++
						for _, i := range seq {
							v := value(t, i)
							pv := reflect.New(t)
							pv.Elem().Set(reflect.ValueOf(v))
							for j, s := range specs {
								x.States++
								how := func() string { return fmt.Sprintf("%s, values %v in turn", s, seq) }
								x.expect(cs[j], v, wants[i][j], how)
								x.expect(cs[j], pv.Interface(), wants[i][j], how)
							}
						}
						return
					}
					for i := 0; i < n; i++ {
						seq = append(seq, i)
						rec(d - 1)
						seq = seq[:len(seq)-1]
					}
				}
				rec(depth)
			})
		}
	}
}

type EmbPlain struct {
	P string `json:"p"`
}
type EmbD0 struct {
	*EmbPlain
	D string `json:"d"`
}
type EmbE struct {
	E string `json:"e"`
}
