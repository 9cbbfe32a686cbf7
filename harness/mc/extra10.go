package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/lestrrat-go/jsval"
)

// otherTags: only the json tag names a property; whatever else is said of a
// field, in tags for others, makes no difference.
func (x *X) otherTags() {
	keys := []string{"yaml", "xml", "toml", "bson", "db", "form", "mapstructure", "msgpack", "protobuf", "validate", "jsval", "schema", "jsschema", "default", "required", "JSON", "Json", "json5", "jsonschema", "name", "omitempty"}
	texts := []string{"q", "-", "", ",omitempty", "q,omitempty", "json", "A", "true", "a"}
	type Inner struct {
		C string
		D jsval.MaybeString `yaml:"d"`
	}
	for _, k := range keys {
		x.Case(func() string { return "fields tagged for " + k }, func() {
			for _, t := range texts {
				for _, own := range []string{"", `json:""`, `json:",omitempty"`, `json:"j"`, `json:"-"`} {
					for form := 0; form < 3; form++ {
						tag := fmt.Sprintf(`%s:"%s"`, k, t)
						switch {
						case own == "":
						case form == 0:
							tag += " " + own
						default:
							tag = own + " " + tag
						}
						x.count("tags for others", 1)
						fs := []reflect.StructField{
							{Name: "A", Type: reflect.TypeOf(""), Tag: reflect.StructTag(tag)},
							{Name: "B", Type: reflect.TypeOf(jsval.MaybeInt{}), Tag: reflect.StructTag(fmt.Sprintf(`%s:"%s"`, k, t))},
						}
						if form == 1 {
							fs[0].Type = reflect.TypeOf(jsval.MaybeString{})
						}
						if form == 2 {
							fs = append(fs, reflect.StructField{Name: "Inner", Anonymous: true, Type: reflect.TypeOf(Inner{}), Tag: reflect.StructTag(fmt.Sprintf(`%s:"%s"`, k, t))})
						}
						st := reflect.StructOf(fs)
						rv := reflect.New(st).Elem()
						if form == 1 {
							rv.Field(0).Set(reflect.ValueOf(mString("s")))
						} else {
							rv.Field(0).SetString("s")
						}
						rv.Field(1).Set(reflect.ValueOf(mInt(3)))
						x.structCheck(structSpecs([]string{"A", "B", "q", "j", "C"}), []J{reflect.New(st).Elem().Interface(), rv.Interface()})
					}
				}
			}
		})
	}
}

// brokenNames are property names that are not valid UTF-8, among ones that
// they could be taken for.
var brokenNames = [][4]string{
	{"\xff", "\ufffd", "\xfe", "\xff\xff"}, {"a\x80", "a", "a\ufffd", "\x80a"}, {"\ufffd", "\xff", "", "\ufffd\ufffd"}, {"\xed\xa0\x80", "\ufffd\ufffd\ufffd", "\ufffd", "\xed\xa0"}, {"\xc0\x80", "\x00", "\xc0", "\x80"}, {"\xe9", "é", "e", "\xc3"}, {"\xf4\x90\x80\x80", "\U0010ffff", "\xf4", "\ufffd"},
}

// brokenlyNamed: such names are told apart byte by byte.
func (x *X) brokenlyNamed() {
	for _, n := range brokenNames {
		x.Case(func() string { return fmt.Sprintf("properties named %q", n) }, func() {
			docs := presence(n[:], []J{1.0, "s"})
			for i, a := range n {
				b, c := n[(i+1)%4], n[(i+2)%4]
				for _, ad := range []*Spec{nil, sNum, sEmpty} {
					for _, s := range []*Spec{
						{Props: []Prop{{a, sNum}}}, {Props: []Prop{{a, sNum}, {b, sStr}}}, {Props: []Prop{{a, sEmpty}, {b, sStr}, {c, sNum}}}, {Props: []Prop{{a, sStr}}, Required: []string{a}},
						{Required: []string{a}}, {Required: []string{a, b}}, {PropDeps: []Dep{{a, []string{b}}}}, {PropDeps: []Dep{{a, []string{b, c}}, {b, []string{a}}}},
						{SchemaDeps: []Prop{{a, &Spec{Kind: "object", AddProps: sEmpty, Required: []string{c}}}}}, {Props: []Prop{{a, sNum}}, Pats: []Prop{{"^.$", sStr}}}, {Pats: []Prop{{"^\ufffd", sNum}}}, {Pats: []Prop{{`\x{fffd}$`, sNum}, {"^a", sStr}}}, {MinProps: ip(2), MaxProps: ip(2), Props: []Prop{{a, sEmpty}}},
					} {
						s.Kind, s.AddProps = "object", ad
						x.gridBody(s, nil, docs, s.Validator(nil))
					}
				}
			}
		})
	}
}

// sharedParts: validators that have their constraints, their registered
// constraints, or both in common remain different validators.
func (x *X) sharedParts() {
	roots := []*Spec{sStr, ref("r"), arr(ref("r")), obj(Prop{"a", dstr("x")}), enum("s", 1.0), strRx("^s"), any_(ref("r"), sNull), sEmpty, not(sNull)}
	env := Env{"r": sNum, "s": sStr}
	for _, s := range roots {
		for _, t := range roots {
			x.Case(func() string { return fmt.Sprintf("validators that share %s and %s", s, t) }, func() {
				for n := 2; n <= 4; n++ {
					for mode := 0; mode < 1<<n; mode++ { // which of the two roots
						for named := 0; named < 3; named++ {
							for own := 0; own < 2; own++ {
								base := jsval.New()
								for _, k := range []string{"r", "s"} {
									base.SetReference(k, env[k].Build(base))
								}
								cs, ct := s.Build(base), t.Build(base)
								g := &genSet{what: "validators with parts in common"}
								for i := 0; i < n; i++ {
									v := jsval.New().SetConstraintMap(base.ConstraintMap)
									sp := s
									if mode>>i&1 == 0 {
										v.SetRoot(cs)
									} else {
										v.SetRoot(ct)
										sp = t
									}
									if own == 1 && i == n-1 {
										v = sp.Validator(env)
									}
									if named == 1 || named == 2 && i%2 == 0 {
										v.SetName(fmt.Sprintf("Val%c", 'Z'-rune(i)))
									}
									g.vs = append(g.vs, v)
									g.specs = append(g.specs, sp)
									g.docs = append(g.docs, []J{nil, "s", "t", 1.0, 2.0, L{}, L{1.0}, L{"s"}, M{}, M{"a": 1.0}, M{"b": 1.0}, true})
								}
								x.genCheck(g)
								if n > 2 && named == 0 && !x.thorough {
									break
								}
							}
						}
					}
				}
			})
		}
	}
}

// lent: lists that are lent to a constraint are not changed, and several
// goroutines may lend the same.
func (x *X) lent() {
	type C = jsval.Constraint
	names := func(n int) []string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, nm((i*7+3)%n))
		}
		return append(l, l[0])
	}
	for n := 1; n <= 9; n++ {
		x.Case(func() string { return fmt.Sprintf("lists of %d that are lent", n+1) }, func() {
			strs := names(n)
			var vals, nums []interface{}
			var cs []C
			for i, s := range strs {
				vals = append(vals, s, float64(n-i), nil)
				nums = append(nums, float64(n-i), i%3)
				cs = append(cs, jsval.String().MinLength(i), jsval.Number())
			}
			// room behind the elements that are lent, which is not theirs
			strs, vals, nums, cs = append(strs, "behind"), append(vals, "behind"), append(nums, 99.0), append(cs, jsval.NullConstraint)
			ls, lv, ln, lc := len(strs)-1, len(vals)-1, len(nums)-1, len(cs)-1
			wstrs, wvals, wnums, wcs := append([]string{}, strs...), append([]interface{}{}, vals...), append([]interface{}{}, nums...), append([]C{}, cs...)
			uses := []struct {
				name string
				use  func()
			}{
				{"Required", func() {
					c := jsval.Object().Required(strs[:ls]...)
					c.Required("z").Required(strs[:1]...)
					c.Validate(M{"z": 1.0})
				}},
				{"Enum", func() {
					c := jsval.Enum(vals[:lv]...)
					c.Validate("x")
					c.Validate(1.0)
				}},
				{"String().Enum", func() {
					c := jsval.String().Enum(vals[:lv]...)
					c.Validate("x")
				}},
				{"Number().Enum", func() {
					c := jsval.Number().Enum(nums[:ln]...)
					c.Validate(1.0)
				}},
				{"Integer().Enum", func() {
					c := jsval.Integer().Enum(nums[:ln]...)
					c.Validate(1.0)
				}},
				{"Boolean().Enum", func() {
					c := jsval.Boolean().Enum(nums[:ln]...)
					c.Validate(true)
				}},
				{"PositionalItems", func() {
					c := jsval.Array().PositionalItems(cs[:lc]).AdditionalItems(jsval.NullConstraint)
					c.Validate(L{"s", 1.0, "s"})
				}},
				{"generation", func() {
					genCode(jsval.New().SetRoot(jsval.Enum(vals[:lv]...)), jsval.New().SetRoot(jsval.Object().Required(strs[:ls]...)), jsval.New().SetRoot(jsval.Array().PositionalItems(cs[:lc])))
				}},
			}
			check := func(what string) {
				if !reflect.DeepEqual(strs, wstrs) || !reflect.DeepEqual(vals, wvals) || !reflect.DeepEqual(nums, wnums) {
					Failf("%s changes a list that is lent to it: %q, %v, %v instead of %q, %v, %v", what, strs, vals, nums, wstrs, wvals, wnums)
				}
				for i := range cs {
					if cs[i] != wcs[i] {
						Failf("%s changes the list of constraints that is lent to it, at %d", what, i)
					}
				}
			}
			for _, u := range uses {
				for _, w := range uses {
					x.States++
					u.use()
					check(u.name)
					x.explore(1, 300, func() ([]func(), func(func() string)) {
						return []func(){u.use, w.use}, func(sched func() string) { check(u.name + " and " + w.name + " at once") }
					})
				}
			}
		})
	}
}

// nearStrings: strings that differ in one place only, one after the other.
func (x *X) nearStrings() {
	for _, n := range upTo(40, 260) {
		x.Case(func() string { return fmt.Sprintf("strings of %d bytes that differ in one place", n) }, func() {
			base := strings.Repeat("a", n)
			specs := []*Spec{strMax(n - 1), strMin(n), strRx("^a*$"), strRx("b"), {Kind: "string", HasEnum: true, Enum: L{base, strings.Repeat("b", n)}}, enum(base, 1.0)}
			cs := make([]validator, len(specs))
			for i, s := range specs {
				cs[i] = s.Validator(nil)
			}
			x.Traces++
			for p := 0; p < n; p++ {
				if n > 65 && p%13 > 1 && p < n-3 && p != n/2 {
					continue
				}
				for _, r := range []string{"é", "日", "\U0001f600", "b", "\xff"} {
					if p+len(r) > n {
						continue
					}
					str := base[:p] + r + base[p+len(r):]
					for i, s := range specs {
						x.States++
						x.expect(cs[i], base, s.Eval(nil, base), s.String)
						x.expect(cs[i], str, s.Eval(nil, str), s.String)
						x.expect(cs[i], []byte(nil), s.Eval(nil, []byte(nil)), s.String)
						x.expect(cs[i], base, s.Eval(nil, base), s.String)
					}
				}
			}
		})
	}
}

// definedAnything: definitions with every keyword, alone and in pairs, with
// and without definitions of their own, as what is referred to.
func (x *X) definedAnything() {
	kws := []struct {
		k string
		v J
	}{
		{"type", "string"}, {"type", L{"object", "string"}}, {"not", M{"type": "string"}}, {"not", M{"minLength": 2.0}}, {"allOf", L{M{"type": "string"}, M{"minLength": 1.0}}}, {"anyOf", L{M{"type": "string"}, M{"type": "array"}}}, {"oneOf", L{M{"type": "string"}, M{"minLength": 2.0}}}, {"enum", L{"s", nil, M{}}}, {"minLength", 2.0}, {"maxLength", 0.0}, {"pattern", "^s"}, {"format", "ipv4"},
		{"minimum", 1.0}, {"maximum", 0.5}, {"multipleOf", 2.0}, {"items", M{"type": "string"}}, {"items", L{M{"type": "number"}}}, {"additionalItems", false}, {"minItems", 1.0}, {"maxItems", 1.0}, {"uniqueItems", true}, {"properties", M{"a": M{"type": "string"}}}, {"patternProperties", M{"^a": M{"type": "number"}}}, {"additionalProperties", false}, {"additionalProperties", M{"type": "string"}}, {"required", L{"a"}}, {"minProperties", 1.0}, {"maxProperties", 0.0}, {"dependencies", M{"a": L{"b"}}}, {"dependencies", M{"a": M{"required": L{"b"}}}}, {"default", "s"}, {"title", "t"}, {"description", "d"}, {"id", "http://x/d"}, {"$ref", "#/definitions/e"},
	}
	extras := []func(m M){
		func(m M) {},
		func(m M) { m["definitions"] = M{"in": M{"type": "number"}} },
		func(m M) { m["definitions"] = M{"d": M{"type": "number"}, "e": M{"type": "array"}} },
		func(m M) { m["title"] = "t"; m["description"] = "d" },
	}
	outs := []func(r J) M{
		func(r J) M { return M{"type": "object", "properties": M{"k": r}} },
		func(r J) M { return M{"items": r} },
		func(r J) M { return M{"not": r} },
		func(r J) M { return M{"anyOf": L{r, M{"type": "null"}}} },
		func(r J) M { return M{"$ref": r.(M)["$ref"]} },
	}
	var raws []M
	for i := range kws {
		for j := i; j < len(kws); j++ {
			if i != j && kws[i].k == kws[j].k || i != j && (kws[i].k == "$ref" || kws[j].k == "$ref") {
				continue
			}
			for e, ex := range extras {
				for o, out := range outs {
					if i != j && !x.thorough && (i+j+e+o)%3 != 0 {
						continue
					}
					d := M{}
					ex(d)
					d[kws[i].k], d[kws[j].k] = cpJ(kws[i].v), cpJ(kws[j].v)
					m := out(M{"$ref": "#/definitions/d"})
					m["definitions"] = M{"d": d, "e": M{"type": "string", "maxLength": 3.0}}
					raws = append(raws, m)
				}
			}
		}
	}
	vals := []J{nil, "", "s", "ss", "1.2.3.4", 0.0, 1.0, 3.0, true, L{}, L{"s"}, L{1.0}, L{1.0, 1.0}, M{}, M{"a": "s"}, M{"a": 1.0}, M{"a": "s", "b": 1.0}, M{"b": nil}}
	ds := append([]J{}, vals...)
	for _, v := range vals {
		ds = append(ds, M{"k": v}, L{v})
	}
	x.schemaGroup("definitions of every sort", raws, ds)
}

// nilMembers: lists and maps that are nil are not the empty ones, neither
// before nor after generation.
func (x *X) nilMembers() {
	ms := []J{L(nil), L{}, M(nil), M{}, nil, L{L(nil)}, L{L{}}, L{M(nil)}, L{M{}}, L{nil}, M{"a": L(nil)}, M{"a": L{}}, M{"a": M(nil)}, M{"a": M{}}, M{"a": nil}}
	for i, a := range ms {
		x.Case(func() string { return fmt.Sprintf("enumerations of nothing, with the %dth kind", i) }, func() {
			for _, b := range ms {
				g := &genSet{what: "enumerations of nothing"}
				for k, c := range []jsval.Constraint{jsval.Enum(a), jsval.Enum(a, b), jsval.Not(jsval.Enum(a, 1.0, b)), jsval.Array().Items(jsval.Enum(a, b))} {
					g.vs = append(g.vs, jsval.New().SetName(fmt.Sprint("Val", k)).SetRoot(c))
					g.specs = append(g.specs, enum(a, b))
					ds := append([]J{}, ms...)
					for _, m := range ms {
						ds = append(ds, L{m})
					}
					g.docs = append(g.docs, ds)
				}
				x.genCheck(g)
			}
		})
	}
}
