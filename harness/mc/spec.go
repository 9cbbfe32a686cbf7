package main

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/jsval"
)

type J = interface{}
type L = []interface{}
type M = map[string]interface{}

// Spec is the reference model's notion of a constraint.
type Spec struct {
	Kind string // string number integer boolean null empty enum array object any all oneof not ref

	MinLen, MaxLen *int
	Rx             string
	HasRx          bool
	Format         string

	Enum    []J
	HasEnum bool

	Min, Max, Mult *float64
	ExMin, ExMax   bool

	Items    *Spec
	Pos      []*Spec
	HasPos   bool
	AddItems *Spec // meaningful if SetAddI
	SetAddI  bool
	MinItems *int
	MaxItems *int
	Unique   bool

	Props      []Prop
	Pats       []Prop // Name is the pattern
	Required   []string
	AddProps   *Spec // nil: none allowed
	MinProps   *int
	MaxProps   *int
	PropDeps   []Dep
	SchemaDeps []Prop

	Kids []*Spec // combinators, not

	Ref string

	Default    J
	HasDefault bool
}

type Prop struct {
	Name string
	S    *Spec
}

type Dep struct {
	From string
	To   []string
}

type Env map[string]*Spec

func ip(n int) *int          { return &n }
func fp(f float64) *float64  { return &f }
func k(kind string) *Spec    { return &Spec{Kind: kind} }
func ref(name string) *Spec  { return &Spec{Kind: "ref", Ref: name} }
func enum(v ...J) *Spec      { return &Spec{Kind: "enum", Enum: v, HasEnum: true} }
func not(s *Spec) *Spec      { return &Spec{Kind: "not", Kids: []*Spec{s}} }
func any_(s ...*Spec) *Spec  { return &Spec{Kind: "any", Kids: s} }
func all(s ...*Spec) *Spec   { return &Spec{Kind: "all", Kids: s} }
func oneof(s ...*Spec) *Spec { return &Spec{Kind: "oneof", Kids: s} }
func strMin(n int) *Spec     { return &Spec{Kind: "string", MinLen: ip(n)} }
func strMax(n int) *Spec     { return &Spec{Kind: "string", MaxLen: ip(n)} }
func strRx(p string) *Spec   { return &Spec{Kind: "string", Rx: p, HasRx: true} }
func numMin(f float64) *Spec { return &Spec{Kind: "number", Min: fp(f)} }
func intMin(f float64) *Spec { return &Spec{Kind: "integer", Min: fp(f)} }
func intMax(f float64) *Spec { return &Spec{Kind: "integer", Max: fp(f)} }
func obj(ps ...Prop) *Spec   { return &Spec{Kind: "object", Props: ps} }
func arr(items *Spec) *Spec  { return &Spec{Kind: "array", Items: items} }
func (s *Spec) with(f func(*Spec)) *Spec {
	c := *s
	f(&c)
	return &c
}

var (
	sEmpty = k("empty")
	sNull  = k("null")
	sStr   = k("string")
	sNum   = k("number")
	sInt   = k("integer")
	sBool  = k("boolean")
)

var rxcache = map[string]*regexp.Regexp{}

func rx(p string) *regexp.Regexp {
	r, ok := rxcache[p]
	if !ok {
		r = regexp.MustCompile(p)
		rxcache[p] = r
	}
	return r
}

// Eval is the oracle: does the value satisfy the constraint?
func (s *Spec) Eval(env Env, v J) bool {
	switch s.Kind {
	case "empty":
		return true
	case "null":
		return isNull(v)
	case "enum":
		return member(s.Enum, v)
	case "string":
		str, ok := asString(v)
		if !ok {
			return false
		}
		n := utf8.RuneCountInString(str)
		if s.MinLen != nil && n < *s.MinLen {
			return false
		}
		if s.MaxLen != nil && *s.MaxLen >= 0 && n > *s.MaxLen {
			return false
		}
		if s.HasRx && !rx(s.Rx).MatchString(str) {
			return false
		}
		if s.Format != "" && !formatOK(s.Format, str) {
			return false
		}
		return !s.HasEnum || member(s.Enum, str)
	case "number", "integer":
		f, isfloat, ok := asNumber(v)
		if !ok || (s.Kind == "number" && !isfloat) {
			return false
		}
		if s.Kind == "integer" && f != math.Trunc(f) {
			return false
		}
		if s.Min != nil && (f < *s.Min || (s.ExMin && f == *s.Min)) {
			return false
		}
		if s.Max != nil && (f > *s.Max || (s.ExMax && f == *s.Max)) {
			return false
		}
		if s.Mult != nil && *s.Mult != 0 && !multiple(f, *s.Mult) {
			return false
		}
		return !s.HasEnum || member(s.Enum, f)
	case "boolean":
		rv := reflect.ValueOf(v)
		if !rv.IsValid() || rv.Kind() != reflect.Bool {
			return false
		}
		return !s.HasEnum || member(s.Enum, rv.Bool())
	case "array":
		return s.evalArray(env, v)
	case "object":
		return s.evalObject(env, v)
	case "any":
		for _, c := range s.Kids {
			if c.Eval(env, v) {
				return true
			}
		}
		return false
	case "all":
		for _, c := range s.Kids {
			if !c.Eval(env, v) {
				return false
			}
		}
		return true
	case "oneof":
		n := 0
		for _, c := range s.Kids {
			if c.Eval(env, v) {
				n++
			}
		}
		return n == 1
	case "not":
		return !s.Kids[0].Eval(env, v)
	case "ref":
		t, ok := env[s.Ref]
		return ok && t.Eval(env, v)
	}
	panic("model: kind " + s.Kind)
}

// multiple: is f an exact multiple of m? (both are floating point numbers of
// moderate size, so that the remainder can be computed exactly)
func multiple(f, m float64) bool { return math.Remainder(f, m) == 0 }

func isNull(v J) bool {
	if v == nil {
		return true
	}
	switch rv := reflect.ValueOf(v); rv.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
		return rv.IsNil()
	}
	return false
}

func asString(v J) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case *string:
		if x == nil {
			return "", false
		}
		return *x, true
	}
	rv := reflect.ValueOf(v)
	if rv.IsValid() && rv.Kind() == reflect.Ptr && !rv.IsNil() {
		rv = rv.Elem()
	}
	if rv.IsValid() && rv.Kind() == reflect.String {
		return rv.String(), true
	}
	return "", false
}

func asNumber(v J) (f float64, isfloat, ok bool) {
	switch x := v.(type) {
	case float64:
		return x, true, true
	case int:
		return float64(x), false, true
	}
	rv := reflect.ValueOf(v)
	if rv.IsValid() && rv.Kind() == reflect.Ptr && !rv.IsNil() {
		rv = rv.Elem()
	}
	if !rv.IsValid() {
		return 0, false, false
	}
	switch {
	case rv.CanFloat():
		return rv.Float(), true, true
	case rv.CanInt():
		return float64(rv.Int()), false, true
	case rv.CanUint():
		return float64(rv.Uint()), false, true
	}
	return 0, false, false
}

func member(l []J, v J) bool {
	for _, e := range l {
		if jsonEqual(e, v) {
			return true
		}
	}
	return false
}

// jsonEqual compares decoded JSON values (and Go scalars: of one type only).
func jsonEqual(a, b J) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case L:
		y, ok := b.(L)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !jsonEqual(x[i], y[i]) {
				return false
			}
		}
		return true
	case M:
		y, ok := b.(M)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok || !jsonEqual(e, f) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case L, M:
		return false
	}
	if !reflect.TypeOf(a).Comparable() {
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

func elements(v J) ([]J, bool) {
	if l, ok := v.(L); ok {
		return l, true
	}
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || rv.Kind() != reflect.Slice {
		return nil, false
	}
	l := make([]J, rv.Len())
	for i := range l {
		l[i] = rv.Index(i).Interface()
	}
	return l, true
}

func (s *Spec) evalArray(env Env, v J) bool {
	l, ok := elements(v)
	if !ok {
		return false
	}
	if s.MinItems != nil && len(l) < *s.MinItems {
		return false
	}
	if s.MaxItems != nil && *s.MaxItems >= 0 && len(l) > *s.MaxItems {
		return false
	}
	if s.Unique {
		for i := range l {
			for j := 0; j < i; j++ {
				if jsonEqual(l[i], l[j]) {
					return false
				}
			}
		}
	}
	if s.Items != nil {
		for _, e := range l {
			if !s.Items.Eval(env, e) {
				return false
			}
		}
		return true
	}
	if !s.HasPos {
		return true
	}
	for i, e := range l {
		switch {
		case i < len(s.Pos):
			if !s.Pos[i].Eval(env, e) {
				return false
			}
		case !s.SetAddI: // Array() allows whatever follows
		case s.AddItems == nil || !s.AddItems.Eval(env, e):
			return false
		}
	}
	return true
}

// properties of a value: string-keyed maps, possibly behind pointers.
func properties(v J) (M, bool) {
	switch x := v.(type) {
	case M:
		return x, true
	case Propser:
		return x.Props(), true
	}
	rv := reflect.ValueOf(v)
	for rv.IsValid() && (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) {
		if rv.Kind() == reflect.Ptr && !rv.IsNil() {
			if p, ok := rv.Interface().(Propser); ok {
				return p.Props(), true
			}
		}
		rv = rv.Elem()
	}
	if !rv.IsValid() || rv.Kind() != reflect.Map || rv.Type().Key().Kind() != reflect.String {
		if rv.IsValid() && rv.Kind() == reflect.Struct {
			return structProps(rv), true
		}
		return nil, false
	}
	m := M{}
	for _, k := range rv.MapKeys() {
		m[k.String()] = rv.MapIndex(k).Interface()
	}
	return m, true
}

// Propser is a harness value that knows its model.
type Propser interface{ Props() M }

func has(m M, k string) bool { _, ok := m[k]; return ok }

func (s *Spec) evalObject(env Env, v J) bool {
	m, ok := properties(v)
	if !ok {
		return false
	}
	if s.MinProps != nil && len(m) < *s.MinProps {
		return false
	}
	if s.MaxProps != nil && *s.MaxProps >= 0 && len(m) > *s.MaxProps {
		return false
	}
	for _, r := range s.Required {
		if !has(m, r) {
			return false
		}
	}
	decl := map[string]*Spec{}
	for _, p := range s.Props {
		decl[p.Name] = p.S
	}
	for name, e := range m {
		if c, ok := decl[name]; ok {
			if !c.Eval(env, e) {
				return false
			}
			continue
		}
		matched := false
		for _, p := range s.Pats {
			if rx(p.Name).MatchString(name) {
				matched = true
				if !p.S.Eval(env, e) {
					return false
				}
			}
		}
		if !matched && (s.AddProps == nil || !s.AddProps.Eval(env, e)) {
			return false
		}
	}
	pd := map[string]bool{}
	for _, d := range s.PropDeps {
		if len(d.To) > 0 {
			pd[d.From] = true
		}
		if !has(m, d.From) {
			continue
		}
		for _, to := range d.To {
			if !has(m, to) {
				return false
			}
		}
	}
	sd := map[string]*Spec{}
	for _, d := range s.SchemaDeps {
		sd[d.Name] = d.S
	}
	for from, c := range sd {
		if has(m, from) && !pd[from] && !c.Eval(env, v) {
			return false
		}
	}
	return true
}

// Build makes the real constraint through the public API.
func (s *Spec) Build(r jsval.RefResolver) jsval.Constraint {
	var calls []func()
	do := func(f func()) { calls = append(calls, f) }
	run := func() {
		for i := range calls {
			if backwards {
				calls[len(calls)-1-i]()
			} else {
				calls[i]()
			}
		}
	}
	switch s.Kind {
	case "empty":
		return jsval.EmptyConstraint
	case "null":
		return jsval.NullConstraint
	case "enum":
		return jsval.Enum(s.Enum...)
	case "string":
		c := jsval.String()
		if s.MinLen != nil {
			do(func() { c.MinLength(*s.MinLen) })
		}
		if s.MaxLen != nil {
			do(func() { c.MaxLength(*s.MaxLen) })
		}
		if s.HasRx {
			do(func() { c.RegexpString(s.Rx) })
		}
		if s.Format != "" {
			do(func() { c.Format(s.Format) })
		}
		if s.HasEnum {
			do(func() { c.Enum(s.Enum...) })
		}
		if s.HasDefault {
			do(func() { c.Default(s.Default) })
		}
		run()
		return c
	case "number":
		c := jsval.Number()
		if s.Min != nil {
			do(func() { c.Minimum(*s.Min) })
		}
		if s.Max != nil {
			do(func() { c.Maximum(*s.Max) })
		}
		if s.ExMin {
			do(func() { c.ExclusiveMinimum(true) })
		}
		if s.ExMax {
			do(func() { c.ExclusiveMaximum(true) })
		}
		if s.Mult != nil {
			do(func() { c.MultipleOf(*s.Mult) })
		}
		if s.HasEnum {
			do(func() { c.Enum(s.Enum...) })
		}
		if s.HasDefault {
			do(func() { c.Default(s.Default) })
		}
		run()
		return c
	case "integer":
		c := jsval.Integer()
		if s.Min != nil {
			do(func() { c.Minimum(*s.Min) })
		}
		if s.Max != nil {
			do(func() { c.Maximum(*s.Max) })
		}
		if s.ExMin {
			do(func() { c.ExclusiveMinimum(true) })
		}
		if s.ExMax {
			do(func() { c.ExclusiveMaximum(true) })
		}
		if s.Mult != nil {
			do(func() { c.MultipleOf(*s.Mult) })
		}
		if s.HasEnum {
			do(func() { c.Enum(s.Enum...) })
		}
		if s.HasDefault {
			do(func() { c.Default(s.Default) })
		}
		run()
		return c
	case "boolean":
		c := jsval.Boolean()
		if s.HasEnum {
			do(func() { c.Enum(s.Enum...) })
		}
		if s.HasDefault {
			do(func() { c.Default(s.Default) })
		}
		run()
		return c
	case "array":
		c := jsval.Array()
		if s.Items != nil {
			do(func() { c.Items(s.Items.Build(r)) })
		}
		if s.HasPos {
			l := make([]jsval.Constraint, len(s.Pos))
			for i, p := range s.Pos {
				l[i] = p.Build(r)
			}
			do(func() { c.PositionalItems(l) })
		}
		if s.SetAddI {
			if s.AddItems == nil {
				do(func() { c.AdditionalItems(nil) })
			} else {
				do(func() { c.AdditionalItems(s.AddItems.Build(r)) })
			}
		}
		if s.MinItems != nil {
			do(func() { c.MinItems(*s.MinItems) })
		}
		if s.MaxItems != nil {
			do(func() { c.MaxItems(*s.MaxItems) })
		}
		if s.Unique {
			do(func() { c.UniqueItems(true) })
		}
		run()
		return c
	case "object":
		c := jsval.Object()
		for _, p := range s.Props {
			do(func() { c.AddProp(p.Name, p.S.Build(r)) })
		}
		for _, p := range s.Pats {
			do(func() { c.PatternPropertiesString(p.Name, p.S.Build(r)) })
		}
		if len(s.Required) > 0 {
			do(func() { c.Required(s.Required...) })
		}
		if s.AddProps != nil {
			do(func() { c.AdditionalProperties(s.AddProps.Build(r)) })
		}
		if s.MinProps != nil {
			do(func() { c.MinProperties(*s.MinProps) })
		}
		if s.MaxProps != nil {
			do(func() { c.MaxProperties(*s.MaxProps) })
		}
		for _, d := range s.PropDeps {
			do(func() { c.PropDependency(d.From, d.To...) })
		}
		for _, d := range s.SchemaDeps {
			do(func() { c.SchemaDependency(d.Name, d.S.Build(r)) })
		}
		run()
		return c
	case "any":
		c := jsval.Any()
		for _, x := range s.Kids {
			c.Add(x.Build(r))
		}
		return c
	case "all":
		c := jsval.All()
		for _, x := range s.Kids {
			c.Add(x.Build(r))
		}
		return c
	case "oneof":
		c := jsval.OneOf()
		for _, x := range s.Kids {
			c.Add(x.Build(r))
		}
		return c
	case "not":
		return jsval.Not(s.Kids[0].Build(r))
	case "ref":
		return jsval.Reference(r).RefersTo(s.Ref)
	}
	panic("build: kind " + s.Kind)
}

// backwards makes the configuration calls in the opposite order
var backwards bool

// Backwards is Validator with the configuration calls in the opposite order.
func (s *Spec) Backwards(env Env) *jsval.JSVal {
	backwards = true
	defer func() { backwards = false }()
	return s.Validator(env)
}

// Validator builds a complete validator.
func (s *Spec) Validator(env Env) *jsval.JSVal {
	v := jsval.New()
	names := make([]string, 0, len(env))
	for n := range env {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		v.SetReference(n, env[n].Build(v))
	}
	v.SetRoot(s.Build(v))
	return v
}

func (s *Spec) String() string {
	if s == nil {
		return "nil"
	}
	var b strings.Builder
	w := func(f string, a ...interface{}) { fmt.Fprintf(&b, f, a...) }
	name := map[string]string{"any": "Any", "all": "All", "oneof": "OneOf", "string": "String", "number": "Number", "integer": "Integer", "boolean": "Boolean", "array": "Array", "object": "Object"}[s.Kind]
	switch s.Kind {
	case "empty", "null":
		return map[string]string{"empty": "EmptyConstraint", "null": "NullConstraint"}[s.Kind]
	case "enum":
		return "Enum(" + show(s.Enum) + ")"
	case "not":
		return "Not(" + s.Kids[0].String() + ")"
	case "ref":
		return fmt.Sprintf("Reference(%q)", s.Ref)
	}
	w("%s()", name)
	if s.MinLen != nil {
		w(".MinLength(%d)", *s.MinLen)
	}
	if s.MaxLen != nil {
		w(".MaxLength(%d)", *s.MaxLen)
	}
	if s.HasRx {
		w(".Regexp(%q)", s.Rx)
	}
	if s.Format != "" {
		w(".Format(%q)", s.Format)
	}
	if s.Min != nil {
		w(".Minimum(%v)", *s.Min)
	}
	if s.Max != nil {
		w(".Maximum(%v)", *s.Max)
	}
	if s.ExMin {
		w(".ExclusiveMinimum(true)")
	}
	if s.ExMax {
		w(".ExclusiveMaximum(true)")
	}
	if s.Mult != nil {
		w(".MultipleOf(%v)", *s.Mult)
	}
	if s.HasEnum {
		w(".Enum(%s)", show(s.Enum))
	}
	if s.Items != nil {
		w(".Items(%s)", s.Items)
	}
	if s.HasPos {
		w(".PositionalItems(%v)", s.Pos)
	}
	if s.SetAddI {
		w(".AdditionalItems(%s)", s.AddItems)
	}
	if s.MinItems != nil {
		w(".MinItems(%d)", *s.MinItems)
	}
	if s.MaxItems != nil {
		w(".MaxItems(%d)", *s.MaxItems)
	}
	if s.Unique {
		w(".UniqueItems(true)")
	}
	for _, p := range s.Props {
		w(".AddProp(%q, %s)", p.Name, p.S)
	}
	for _, p := range s.Pats {
		w(".PatternProperties(%q, %s)", p.Name, p.S)
	}
	if len(s.Required) > 0 {
		w(".Required(%q)", s.Required)
	}
	if s.AddProps != nil {
		w(".AdditionalProperties(%s)", s.AddProps)
	}
	if s.MinProps != nil {
		w(".MinProperties(%d)", *s.MinProps)
	}
	if s.MaxProps != nil {
		w(".MaxProperties(%d)", *s.MaxProps)
	}
	for _, d := range s.PropDeps {
		w(".PropDependency(%q, %q)", d.From, d.To)
	}
	for _, d := range s.SchemaDeps {
		w(".SchemaDependency(%q, %s)", d.Name, d.S)
	}
	for _, x := range s.Kids {
		w(".Add(%s)", x)
	}
	if s.HasDefault {
		w(".Default(%s)", show(s.Default))
	}
	return b.String()
}

// show prints a value for people.
func show(v J) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case L:
		p := make([]string, len(x))
		for i, e := range x {
			p[i] = show(e)
			if i > 20 {
				p[i] = "..."
				p = p[:i+1]
				break
			}
		}
		return "[" + strings.Join(p, ", ") + "]"
	case M:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			ks[i] = fmt.Sprintf("%q: %s", k, show(x[k]))
		}
		return "{" + strings.Join(ks, ", ") + "}"
	case string:
		return fmt.Sprintf("%q", trim(x, 200))
	case float64:
		return fmt.Sprintf("%v", x)
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() && rv.Elem().CanInterface() {
		return "&" + show(rv.Elem().Interface())
	}
	return trim(fmt.Sprintf("%T(%+v)", v, v), 300)
}
