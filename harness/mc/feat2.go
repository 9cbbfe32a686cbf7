package main

import "encoding/json"

// asSchema writes a constraint as a schema (the model then reads the schema,
// not the constraint). It reports false where JSON Schema has no such form.
func asSchema(s *Spec) (M, bool) {
	m := M{}
	ok := true
	num := func(k string, p *float64) {
		if p != nil {
			m[k] = *p
		}
	}
	cnt := func(k string, p *int) {
		if p != nil {
			m[k] = float64(*p)
		}
	}
	sub := func(c *Spec) M {
		r, k := asSchema(c)
		ok = ok && k
		return r
	}
	list := func(cs []*Spec) L {
		l := L{}
		for _, c := range cs {
			l = append(l, sub(c))
		}
		return l
	}
	names := func(ns []string) L {
		l := L{}
		for _, n := range ns {
			l = append(l, n)
		}
		return l
	}
	if s.HasEnum {
		ok = len(s.Enum) > 0
		m["enum"] = js(text(L(s.Enum)))
	}
	if s.HasDefault {
		m["default"] = js(text(s.Default))
	}
	switch s.Kind {
	case "empty":
	case "enum":
		m["type"] = L{"null", "string", "boolean", "number", "array", "object"}
	case "ref":
		return M{"$ref": "#/definitions/" + s.Ref}, ok && (s.Ref == "r" || s.Ref == "d")
	case "any", "all", "oneof":
		ok = len(s.Kids) > 0
		m[map[string]string{"any": "anyOf", "all": "allOf", "oneof": "oneOf"}[s.Kind]] = list(s.Kids)
	case "not":
		m["not"] = sub(s.Kids[0])
	default:
		m["type"] = s.Kind
	}
	cnt("minLength", s.MinLen)
	cnt("maxLength", s.MaxLen)
	if s.HasRx {
		m["pattern"] = s.Rx
	}
	if s.Format != "" {
		m["format"] = s.Format
	}
	num("minimum", s.Min)
	num("maximum", s.Max)
	num("multipleOf", s.Mult)
	if s.Mult != nil && *s.Mult <= 0 {
		ok = false
	}
	if s.ExMin {
		m["exclusiveMinimum"] = true
	}
	if s.ExMax {
		m["exclusiveMaximum"] = true
	}
	if s.Kind == "array" {
		cnt("minItems", s.MinItems)
		cnt("maxItems", s.MaxItems)
		if s.Unique {
			m["uniqueItems"] = true
		}
		switch {
		case s.Items != nil:
			m["items"] = sub(s.Items)
		case s.HasPos:
			m["items"] = list(s.Pos)
		}
		if s.SetAddI {
			m["additionalItems"] = false
			if s.AddItems != nil {
				m["additionalItems"] = sub(s.AddItems)
			}
		}
	}
	if s.Kind == "object" {
		cnt("minProperties", s.MinProps)
		cnt("maxProperties", s.MaxProps)
		if len(s.Required) > 0 {
			m["required"] = names(s.Required)
		}
		for k, ps := range map[string][]Prop{"properties": s.Props, "patternProperties": s.Pats} {
			if len(ps) > 0 {
				o := M{}
				for _, p := range ps {
					o[p.Name] = sub(p.S)
				}
				m[k] = o
			}
		}
		m["additionalProperties"] = false
		if s.AddProps != nil {
			m["additionalProperties"] = sub(s.AddProps)
		}
		deps := M{}
		for _, d := range s.SchemaDeps {
			deps[d.Name] = sub(d.S)
		}
		for _, d := range s.PropDeps {
			if len(d.To) > 0 {
				deps[d.From] = names(d.To)
			}
		}
		if len(deps) > 0 {
			m["dependencies"] = deps
		}
	}
	return m, ok
}

// schemaMany builds all the constraints from schemas.
func (x *X) schemaMany(what string, l []*Spec, docs func(*Spec) []J) {
	var raws []M
	var specs []*Spec
	defs := M{}
	for _, n := range []string{"r", "d"} {
		defs[n], _ = asSchema(genEnv[n])
	}
	for _, s := range l {
		if raw, ok := asSchema(s); ok {
			raw["definitions"] = defs
			raws = append(raws, js(text(raw)).(M))
			specs = append(specs, s)
		}
	}
	for i := 0; i < len(raws); i += 40 {
		part := raws[i:min(i+40, len(raws))]
		x.Case(func() string { return what + " as schemas, such as " + text(part[0]) }, func() {
			for j, raw := range part {
				setOrder(j % 2)
				var ds []J
				for _, d := range docs(specs[i+j]) {
					// decoded documents only
					if b, err := json.Marshal(d); err == nil {
						ds = append(ds, js(string(b)))
					}
				}
				x.schemaBody(raw, raw, ds, func() string { return "schema " + text(raw) })
			}
			setOrder(0)
		})
	}
}
