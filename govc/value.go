package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type (
	VInt  struct{ l Lin }
	VBool struct{ b bool }
	VBAt  struct{ a *BAtom } // undecided boolean
	VStr  struct{ r Rope }
	VFlt  struct {
		known bool
		f     float64
		id    int
		src   Rope
		i     *Lin // integral value
	}
	VStruct struct{ f []Value }
	VArr    struct{ e []Value } // array of non-bytes
	VBytes  struct{ r Rope }    // array of bytes (or backing store)
	VPtr    struct {
		obj  *Obj // nil: nil pointer
		path []int
		idx  *Lin  // element of a byte array at symbolic index
		sidx *Lin  // element of a symbolic list
		k    int64 // size of the element of a packed list (idx is in bytes)
		txt  bool  // the element is a text of k bytes
	}
	VSlice struct {
		obj           *Obj // nil: nil slice
		path          []int
		off, len, cap Lin
		k             int64 // packed list: arrays of k bytes, stored one after another
		txt           bool  // packed list of texts of k bytes
	}
	VIface struct {
		t types.Type // nil: nil interface
		v Value
	}
	VFunc struct {
		fn    *ssa.Function
		binds []Value
		nat   func(p *Exec, args []Value) Value
		name  string
	}
	VMap    struct{ obj *Obj } // nil obj: nil map
	VTuple  struct{ v []Value }
	VOpaque struct {
		kind string
		id   int
		d    interface{}
	}
	VRange struct { // iterator over string or map
		str   Rope
		pos   Lin
		m     *Obj
		keys  []Value
		vals  []Value
		i     int
		isStr bool
		sym   bool
	}
)

// Obj is a heap object.
type Obj struct {
	id  int
	key string
	typ types.Type
	val Value
	// some object made by an earlier iteration of a loop: must not be used
	poison bool
	ro     bool // havocked alias: writes unsupported
	base   bool // shared package-level state
	sym    *SymList
	mp     *MapData
	born   int // exec step of creation
	ghost  bool
	hwm    *Lin // grown by append: everything beyond is untouched spare
}

type SymList struct {
	n     Lin
	gen   func(e *Exec, idx Lin) Value
	memo  map[string]Value
	order []string
	idxs  map[string]Lin
	hav   *havEnt // carried around a loop in this slot
	sub   string
	free  bool    // nothing is known of the elements
	bound *VSlice // the list is the beginning of this one
	old   *VSlice // the list is old and then els
	els   []Value
}

type MapData struct {
	keys []Value
	vals []Value
	// unknown maps
	sym    bool
	gen    func(e *Exec, key Value) (Value, bool)
	n      Lin
	kt, vt types.Type
}

func (m *MapData) clone() *MapData {
	c := *m
	c.keys = append([]Value(nil), m.keys...)
	c.vals = append([]Value(nil), m.vals...)
	return &c
}

func mkInt(n int64) Value  { return VInt{cI(n)} }
func mkBool(b bool) Value  { return VBool{b} }
func mkStr(s string) Value { return VStr{litR(s)} }
func mkErrNil() Value      { return VIface{} }

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func intInfo(t types.Type) (bits uint, signed bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (e *Exec) showVal(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case VInt:
		return e.p.norm(x.l).key()
	case VBool:
		return fmt.Sprint(x.b)
	case VBAt:
		return "bool:" + x.a.name
	case VStr:
		return "str[" + e.p.show(x.r) + "]"
	case VBytes:
		return "bytes[" + e.p.show(x.r) + "]"
	case VStruct:
		var s []string
		for _, f := range x.f {
			s = append(s, e.showVal(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case VArr:
		var s []string
		for _, f := range x.e {
			s = append(s, e.showVal(f))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case VPtr:
		if x.obj == nil {
			return "nilptr"
		}
		return fmt.Sprintf("&o%d%v", x.obj.id, x.path)
	case VSlice:
		if x.obj == nil {
			return "nilslice"
		}
		return fmt.Sprintf("o%d%v[%s:+%s]", x.obj.id, x.path, e.p.norm(x.off).key(), e.p.norm(x.len).key())
	case VIface:
		if x.t == nil {
			return "nil-iface"
		}
		return "iface(" + x.t.String() + ":" + e.showVal(x.v) + ")"
	case VTuple:
		var s []string
		for _, f := range x.v {
			s = append(s, e.showVal(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}
