// Package js stands in for syscall/js: the values, conversions and panics of the real
// package, over a heap of Go values. VX names are the harness's.
package js

// VXObj is an object, a function or an array.
type VXObj struct {
	M  map[string]Value
	Fn func(this Value, args []Value) any
	// VXSet is called after a property has been set.
	VXSet func(p string)
}

// Value is a JavaScript value: nil (undefined), vxNull, bool, int or float64 (number),
// string, *VXObj.
type Value struct {
	_ [0]func()
	x any
}

type vxNull struct{}

type Type int

const (
	TypeUndefined Type = iota
	TypeNull
	TypeBoolean
	TypeNumber
	TypeString
	TypeSymbol
	TypeObject
	TypeFunction
)

func (t Type) String() string {
	switch t {
	case TypeUndefined:
		return "undefined"
	case TypeNull:
		return "null"
	case TypeBoolean:
		return "boolean"
	case TypeNumber:
		return "number"
	case TypeString:
		return "string"
	case TypeSymbol:
		return "symbol"
	case TypeObject:
		return "object"
	case TypeFunction:
		return "function"
	}
	panic("bad type")
}

func (t Type) isObject() bool { return t == TypeObject || t == TypeFunction }

// Error wraps a JavaScript error.
type Error struct{ Value }

func (e Error) Error() string { return "JavaScript error: " + e.Get("message").String() }

// ValueError is the panic of a method on a value of the wrong type.
type ValueError struct {
	Method string
	Type   Type
}

func (e *ValueError) Error() string {
	return "syscall/js: call of " + e.Method + " on " + e.Type.String()
}

// Func is a wrapped Go function.
type Func struct {
	Value
}

func FuncOf(fn func(this Value, args []Value) any) Func {
	return Func{Value{x: &VXObj{M: map[string]Value{}, Fn: fn}}}
}

func (c Func) Release() {}

var vxGlobal = &VXObj{M: map[string]Value{}}

// VXReset makes a new global object; set is called after each of its properties was set.
func VXReset(set func(p string)) { vxGlobal = &VXObj{M: map[string]Value{}, VXSet: set} }

// VXObject makes an empty object.
func VXObject() Value { return Value{x: &VXObj{M: map[string]Value{}}} }

func Undefined() Value { return Value{} }
func Null() Value      { return Value{x: vxNull{}} }
func Global() Value    { return Value{x: vxGlobal} }

func (v Value) Equal(w Value) bool { return v.x == w.x }
func (v Value) IsUndefined() bool  { return v.x == nil }
func (v Value) IsNull() bool       { _, ok := v.x.(vxNull); return ok }
func (v Value) IsNaN() bool {
	f, ok := v.x.(float64)
	return ok && f != f
}

func ValueOf(x any) Value {
	switch x := x.(type) {
	case Value:
		return x
	case Func:
		return x.Value
	case nil:
		return Null()
	case bool:
		return Value{x: x}
	case int:
		return Value{x: x}
	case int8:
		return Value{x: int(x)}
	case int16:
		return Value{x: int(x)}
	case int32:
		return Value{x: int(x)}
	case int64:
		return Value{x: int(x)}
	case uint:
		return Value{x: int(x)}
	case uint8:
		return Value{x: int(x)}
	case uint16:
		return Value{x: int(x)}
	case uint32:
		return Value{x: int(x)}
	case uint64:
		return Value{x: int(x)}
	case uintptr:
		return Value{x: int(x)}
	case float32:
		return Value{x: float64(x)}
	case float64:
		return Value{x: x}
	case string:
		return Value{x: x}
	case []any:
		o := &VXObj{M: map[string]Value{"length": {x: len(x)}}}
		for i, v := range x {
			o.M[vxItoa(i)] = ValueOf(v)
		}
		return Value{x: o}
	case map[string]any:
		o := &VXObj{M: map[string]Value{}}
		for k, v := range x {
			o.M[k] = ValueOf(v)
		}
		return Value{x: o}
	}
	panic("ValueOf: invalid value")
}

func vxItoa(i int) string {
	s := ""
	for {
		s = string(rune('0'+i%10)) + s
		if i /= 10; i == 0 {
			return s
		}
	}
}

func (v Value) Type() Type {
	switch x := v.x.(type) {
	case nil:
		return TypeUndefined
	case vxNull:
		return TypeNull
	case bool:
		return TypeBoolean
	case int, float64:
		return TypeNumber
	case string:
		return TypeString
	case *VXObj:
		if x.Fn != nil {
			return TypeFunction
		}
		return TypeObject
	}
	panic("bad type flag")
}

func (v Value) obj(m string) *VXObj {
	if t := v.Type(); !t.isObject() {
		panic(&ValueError{m, t})
	}
	return v.x.(*VXObj)
}

func (v Value) Get(p string) Value {
	return v.obj("Value.Get").M[p]
}

func (v Value) Set(p string, x any) {
	o := v.obj("Value.Set")
	o.M[p] = ValueOf(x)
	if o.VXSet != nil {
		o.VXSet(p)
	}
}

func (v Value) Delete(p string) { delete(v.obj("Value.Delete").M, p) }

func (v Value) Index(i int) Value { return v.obj("Value.Index").M[vxItoa(i)] }

func (v Value) SetIndex(i int, x any) { v.obj("Value.SetIndex").M[vxItoa(i)] = ValueOf(x) }

func (v Value) Length() int {
	n, _ := v.obj("Value.Length").M["length"].x.(int)
	return n
}

func (v Value) Call(m string, args ...any) Value {
	o := v.obj("Value.Call")
	f := o.M[m]
	if f.Type() != TypeFunction {
		panic("syscall/js: Value.Call: property " + m + " is not a function, got " + f.Type().String())
	}
	return f.invoke(v, args)
}

func (v Value) Invoke(args ...any) Value {
	if t := v.Type(); t != TypeFunction {
		panic(&ValueError{"Value.Invoke", t})
	}
	return v.invoke(Undefined(), args)
}

func (v Value) invoke(this Value, args []any) Value {
	as := []Value{}
	for _, a := range args {
		as = append(as, ValueOf(a))
	}
	return ValueOf(v.x.(*VXObj).Fn(this, as))
}

func (v Value) New(args ...any) Value {
	if t := v.Type(); t != TypeFunction {
		panic(&ValueError{"Value.New", t})
	}
	panic(Error{ValueOf(map[string]any{"message": "not a constructor"})})
}

func (v Value) Float() float64 {
	switch x := v.x.(type) {
	case int:
		return float64(x)
	case float64:
		return x
	}
	panic(&ValueError{"Value.Float", v.Type()})
}

func (v Value) Int() int {
	switch x := v.x.(type) {
	case int:
		return x
	case float64:
		return int(x)
	}
	panic(&ValueError{"Value.Int", v.Type()})
}

func (v Value) Bool() bool {
	b, ok := v.x.(bool)
	if !ok {
		panic(&ValueError{"Value.Bool", v.Type()})
	}
	return b
}

func (v Value) Truthy() bool {
	switch x := v.x.(type) {
	case bool:
		return x
	case int:
		return x != 0
	case float64:
		return x == x && x != 0
	case string:
		return x != ""
	case *VXObj:
		return true
	}
	return false
}

func (v Value) String() string {
	switch x := v.x.(type) {
	case nil:
		return "<undefined>"
	case vxNull:
		return "<null>"
	case bool:
		if x {
			return "<boolean: true>"
		}
		return "<boolean: false>"
	case int:
		if x < 0 {
			return "<number: -" + vxItoa(-x) + ">"
		}
		return "<number: " + vxItoa(x) + ">"
	case float64:
		return "<number>"
	case string:
		return x
	case *VXObj:
		if x.Fn != nil {
			return "<function>"
		}
		return "<object>"
	}
	panic("bad type")
}

func (v Value) InstanceOf(t Value) bool {
	if t.Type() != TypeFunction {
		panic(Error{ValueOf(map[string]any{"message": "right-hand side is not callable"})})
	}
	return false
}

func CopyBytesToGo(dst []byte, src Value) int {
	panic("syscall/js: CopyBytesToGo: expected src to be a Uint8Array or Uint8ClampedArray")
}

func CopyBytesToJS(dst Value, src []byte) int {
	panic("syscall/js: CopyBytesToJS: expected dst to be a Uint8Array or Uint8ClampedArray")
}
