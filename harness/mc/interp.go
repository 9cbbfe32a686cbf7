package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"reflect"

	"github.com/lestrrat-go/jsval"
)

// An evaluator for the Go code that the generator emits, by reflection on the
// real package. Code outside the subset it knows is left to the compiler.

type unsupported struct{ what string }

type badCode struct{ what string }

var jsvalNames = map[string]reflect.Value{
	"New": reflect.ValueOf(jsval.New), "String": reflect.ValueOf(jsval.String), "Number": reflect.ValueOf(jsval.Number), "Integer": reflect.ValueOf(jsval.Integer),
	"Boolean": reflect.ValueOf(jsval.Boolean), "Array": reflect.ValueOf(jsval.Array), "Object": reflect.ValueOf(jsval.Object), "Any": reflect.ValueOf(jsval.Any), "All": reflect.ValueOf(jsval.All),
	"OneOf": reflect.ValueOf(jsval.OneOf), "Not": reflect.ValueOf(jsval.Not), "Enum": reflect.ValueOf(jsval.Enum), "Reference": reflect.ValueOf(jsval.Reference),
	"EmptyConstraint": reflect.ValueOf(&jsval.EmptyConstraint).Elem(), "NullConstraint": reflect.ValueOf(&jsval.NullConstraint).Elem(),
}

var jsvalTypes = map[string]reflect.Type{
	"JSVal": reflect.TypeOf(jsval.JSVal{}), "ConstraintMap": reflect.TypeOf(jsval.ConstraintMap{}), "Constraint": reflect.TypeOf((*jsval.Constraint)(nil)).Elem(),
}

var basicTypes = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "bool": reflect.TypeOf(true), "int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(0.0),
	"any": reflect.TypeOf((*interface{})(nil)).Elem(),
}

// operand: an untyped constant, the untyped nil, or a value.
type operand struct {
	c   constant.Value
	nil bool
	v   reflect.Value
}

type interp struct {
	vars map[string]reflect.Value // addressable
	pkg  string
}

// runCode evaluates the code and returns the validators it defines. ok is
// false if the code is outside the subset.
func runCode(code string) (vs map[string]*jsval.JSVal, ok bool, err error) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case unsupported:
			vs, ok, err = nil, false, nil
		case badCode:
			vs, ok, err = nil, true, fmt.Errorf("the generated code does not compile: %s", r.what)
		default:
			panic(r)
		}
	}()
	fset := token.NewFileSet()
	f, perr := parser.ParseFile(fset, "gen.go", "package gen\n"+code, 0)
	if perr != nil {
		return nil, true, fmt.Errorf("the generated code does not compile: %v", perr)
	}
	in := &interp{vars: map[string]reflect.Value{}, pkg: "jsval"}
	for _, d := range f.Decls {
		g, isg := d.(*ast.GenDecl)
		if !isg {
			continue
		}
		if g.Tok != token.VAR {
			panic(unsupported{"declaration"})
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for _, n := range vs.Names {
				if vs.Type == nil || len(vs.Values) > 0 {
					panic(unsupported{"variable"})
				}
				if _, dup := in.vars[n.Name]; dup {
					panic(badCode{n.Name + " declared twice"})
				}
				in.vars[n.Name] = reflect.New(in.typ(vs.Type)).Elem()
			}
		}
	}
	for _, d := range f.Decls {
		fd, isf := d.(*ast.FuncDecl)
		if !isf {
			continue
		}
		if fd.Name.Name != "init" || fd.Recv != nil {
			panic(unsupported{"function " + fd.Name.Name})
		}
		for _, st := range fd.Body.List {
			in.stmt(st)
		}
	}
	vs = map[string]*jsval.JSVal{}
	for n, v := range in.vars {
		if j, isv := v.Interface().(*jsval.JSVal); isv {
			if j == nil {
				return nil, true, fmt.Errorf("the generated code leaves %s nil", n)
			}
			vs[n] = j
		}
	}
	return vs, true, nil
}

func (in *interp) stmt(st ast.Stmt) {
	switch s := st.(type) {
	case *ast.ExprStmt:
		in.eval(s.X)
	case *ast.AssignStmt:
		if s.Tok != token.ASSIGN || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
			panic(unsupported{"assignment"})
		}
		id, ok := s.Lhs[0].(*ast.Ident)
		if !ok {
			panic(unsupported{"assignment"})
		}
		dst, ok := in.vars[id.Name]
		if !ok {
			panic(badCode{"undefined: " + id.Name})
		}
		dst.Set(in.assign(in.eval(s.Rhs[0]), dst.Type()))
	default:
		panic(unsupported{fmt.Sprintf("%T", st)})
	}
}

func (in *interp) typ(e ast.Expr) reflect.Type {
	switch t := e.(type) {
	case *ast.StarExpr:
		return reflect.PointerTo(in.typ(t.X))
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok && id.Name == in.pkg {
			if rt, ok := jsvalTypes[t.Sel.Name]; ok {
				return rt
			}
		}
	case *ast.Ident:
		if rt, ok := basicTypes[t.Name]; ok {
			return rt
		}
	case *ast.InterfaceType:
		if t.Methods == nil || len(t.Methods.List) == 0 {
			return basicTypes["any"]
		}
	case *ast.ArrayType:
		if t.Len == nil {
			return reflect.SliceOf(in.typ(t.Elt))
		}
	case *ast.MapType:
		return reflect.MapOf(in.typ(t.Key), in.typ(t.Value))
	}
	panic(unsupported{"type"})
}

func (in *interp) isType(e ast.Expr) bool {
	switch t := e.(type) {
	case *ast.ArrayType, *ast.MapType, *ast.InterfaceType, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return in.isType(t.X)
	case *ast.Ident:
		_, v := in.vars[t.Name]
		_, b := basicTypes[t.Name]
		return b && !v
	}
	return false
}

func (in *interp) eval(e ast.Expr) operand {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.eval(x.X)
	case *ast.BasicLit:
		c := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		if c.Kind() == constant.Unknown {
			panic(badCode{"literal " + x.Value})
		}
		return operand{c: c}
	case *ast.Ident:
		switch x.Name {
		case "true", "false":
			return operand{c: constant.MakeBool(x.Name == "true")}
		case "nil":
			return operand{nil: true}
		}
		if v, ok := in.vars[x.Name]; ok {
			return operand{v: v}
		}
		panic(badCode{"undefined: " + x.Name})
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if cl, ok := x.X.(*ast.CompositeLit); ok {
				v := in.eval(cl).v
				p := reflect.New(v.Type())
				if v.Kind() != reflect.Struct { // ConstraintMap contains a lock
					p.Elem().Set(v)
				}
				return operand{v: p}
			}
			panic(unsupported{"&"})
		}
		o := in.eval(x.X)
		if o.c != nil && (x.Op == token.SUB || x.Op == token.ADD) {
			return operand{c: constant.UnaryOp(x.Op, o.c, 0)}
		}
		panic(unsupported{"operator"})
	case *ast.CompositeLit:
		t := in.typ(x.Type)
		switch t.Kind() {
		case reflect.Struct:
			if len(x.Elts) > 0 {
				panic(unsupported{"struct literal"})
			}
			return operand{v: reflect.New(t).Elem()}
		case reflect.Slice:
			s := reflect.MakeSlice(t, 0, len(x.Elts))
			for _, el := range x.Elts {
				if _, kv := el.(*ast.KeyValueExpr); kv {
					panic(unsupported{"keyed slice"})
				}
				s = reflect.Append(s, in.assign(in.eval(el), t.Elem()))
			}
			return operand{v: s}
		case reflect.Map:
			m := reflect.MakeMap(t)
			for _, el := range x.Elts {
				kv, ok := el.(*ast.KeyValueExpr)
				if !ok {
					panic(badCode{"missing key"})
				}
				k := in.assign(in.eval(kv.Key), t.Key())
				if m.MapIndex(k).IsValid() {
					panic(badCode{"duplicate key"})
				}
				m.SetMapIndex(k, in.assign(in.eval(kv.Value), t.Elem()))
			}
			return operand{v: m}
		}
		panic(unsupported{"composite literal"})
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Name == in.pkg {
			if v, ok := jsvalNames[x.Sel.Name]; ok {
				return operand{v: v}
			}
			panic(unsupported{in.pkg + "." + x.Sel.Name})
		}
		recv := in.eval(x.X)
		if !recv.v.IsValid() {
			panic(badCode{"selector on a constant"})
		}
		m := recv.v.MethodByName(x.Sel.Name)
		if !m.IsValid() {
			panic(badCode{fmt.Sprintf("%s has no method %s", recv.v.Type(), x.Sel.Name)})
		}
		return operand{v: m}
	case *ast.CallExpr:
		if in.isType(x.Fun) {
			if len(x.Args) != 1 {
				panic(badCode{"conversion"})
			}
			t := in.typ(x.Fun)
			o := in.eval(x.Args[0])
			if o.c != nil || o.nil {
				return operand{v: in.assign(o, t)}
			}
			if !o.v.IsValid() || !o.v.Type().ConvertibleTo(t) {
				panic(badCode{"conversion"})
			}
			return operand{v: o.v.Convert(t)}
		}
		fn := in.eval(x.Fun).v
		if !fn.IsValid() || fn.Kind() != reflect.Func {
			panic(badCode{"call of a non-function"})
		}
		ft := fn.Type()
		if x.Ellipsis.IsValid() {
			panic(unsupported{"..."})
		}
		fixed := ft.NumIn()
		if ft.IsVariadic() {
			fixed--
		}
		if len(x.Args) < fixed || (len(x.Args) > fixed && !ft.IsVariadic()) {
			panic(badCode{"number of arguments"})
		}
		args := make([]reflect.Value, len(x.Args))
		for i, a := range x.Args {
			var t reflect.Type
			if i < fixed {
				t = ft.In(i)
			} else {
				t = ft.In(fixed).Elem()
			}
			args[i] = in.assign(in.eval(a), t)
		}
		out := fn.Call(args)
		switch len(out) {
		case 0:
			return operand{}
		case 1:
			return operand{v: out[0]}
		}
		panic(unsupported{"several results"})
	}
	panic(unsupported{fmt.Sprintf("%T", e)})
}

// assign converts an operand to a value assignable to t, as Go does.
func (in *interp) assign(o operand, t reflect.Type) reflect.Value {
	switch {
	case o.nil:
		switch t.Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
			return reflect.Zero(t)
		}
		panic(badCode{"nil as " + t.String()})
	case o.c != nil:
		return constantTo(o.c, t)
	case !o.v.IsValid():
		panic(badCode{"no value used as a value"})
	}
	if !o.v.Type().AssignableTo(t) {
		panic(badCode{fmt.Sprintf("%s is not assignable to %s", o.v.Type(), t)})
	}
	v := reflect.New(t).Elem()
	v.Set(o.v)
	return v
}

func constantTo(c constant.Value, t reflect.Type) reflect.Value {
	bad := func() reflect.Value { panic(badCode{fmt.Sprintf("constant %s as %s", c, t)}) }
	if t.Kind() == reflect.Interface {
		if t.NumMethod() > 0 {
			return bad()
		}
		var d reflect.Type
		switch c.Kind() {
		case constant.Bool:
			d = basicTypes["bool"]
		case constant.String:
			d = basicTypes["string"]
		case constant.Int:
			d = basicTypes["int"]
		case constant.Float:
			d = basicTypes["float64"]
		default:
			panic(unsupported{"constant"})
		}
		v := reflect.New(t).Elem()
		v.Set(constantTo(c, d))
		return v
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		if c.Kind() != constant.Bool {
			return bad()
		}
		v.SetBool(constant.BoolVal(c))
	case reflect.String:
		if c.Kind() != constant.String {
			return bad()
		}
		v.SetString(constant.StringVal(c))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, ok := constant.Int64Val(constant.ToInt(numeric(c, bad)))
		if constant.ToInt(c).Kind() != constant.Int || !ok || v.OverflowInt(n) {
			return bad()
		}
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, ok := constant.Uint64Val(constant.ToInt(numeric(c, bad)))
		if constant.ToInt(c).Kind() != constant.Int || !ok || v.OverflowUint(n) {
			return bad()
		}
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		f, _ := constant.Float64Val(constant.ToFloat(numeric(c, bad)))
		if v.OverflowFloat(f) {
			return bad()
		}
		v.SetFloat(f)
	default:
		return bad()
	}
	return v
}

func numeric(c constant.Value, bad func() reflect.Value) constant.Value {
	if c.Kind() != constant.Int && c.Kind() != constant.Float {
		bad()
	}
	return c
}
