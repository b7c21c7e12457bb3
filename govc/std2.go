package main

import (
	"encoding/base32"
	"encoding/hex"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- base32, hex, hashes ----

const b32Alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

type b32enc struct{ nopad bool }

func b32Of(v Value) b32enc {
	o, ok := v.(VOpaque)
	if !ok {
		unsupported("base32 encoding value %T", v)
	}
	switch {
	case o.kind == "ext:encoding/base32.StdEncoding":
		return b32enc{}
	case o.kind == "base32":
		return o.d.(b32enc)
	}
	unsupported("base32 encoding %s", o.kind)
	return b32enc{}
}

func (b b32enc) real() *base32.Encoding {
	if b.nopad {
		return base32.StdEncoding.WithPadding(base32.NoPadding)
	}
	return base32.StdEncoding
}

// b32Len is the encoded length of n bytes.
func (e *Exec) b32Len(b b32enc, n Lin) Lin {
	if n.isConst() {
		return cI(int64(b.real().EncodedLen(int(n.cint()))))
	}
	if b.nopad {
		q, _ := e.divmodFloor(e.p.norm(n.mulc(bigI(8)).addc(4)), bigI(5))
		return q
	}
	q, _ := e.divmodFloor(e.p.norm(n.addc(4)), bigI(5))
	return e.p.norm(q.mulc(bigI(8)))
}

func (e *Exec) b32DecLen(b b32enc, n Lin) Lin {
	if n.isConst() {
		return cI(int64(b.real().DecodedLen(int(n.cint()))))
	}
	if b.nopad {
		q, _ := e.divmodFloor(e.p.norm(n.mulc(bigI(5))), bigI(8))
		return q
	}
	q, _ := e.divmodFloor(e.p.norm(n), bigI(8))
	return e.p.norm(q.mulc(bigI(5)))
}

func (e *Exec) b32Encode(b b32enc, src Rope) Rope {
	src = e.p.normR(src)
	if s, ok := e.p.constStr(src); ok {
		return litR(b.real().EncodeToString([]byte(s)))
	}
	// the text of a decoded text is that text again only up to its spare bits,
	// so encodings are always kept symbolic
	name := "b32"
	cs := csOf(b32Alpha)
	if !b.nopad {
		name = "b32pad"
		cs.add('=')
	}
	r := e.ufStr(name, e.b32Len(b, e.p.norm(e.p.lenR(src))), src)
	e.p.restrictRope(r, cs)
	e.p.b32memo = append(e.p.b32memo, b32res{!b.nopad, r, src, VIface{}})
	return e.p.normR(r)
}

// b32Decode returns the decoded bytes, or the bytes decoded before the error.
func (e *Exec) b32Decode(b b32enc, src Rope) (out Rope, err Value) {
	p := e.p
	src = p.normR(src)
	if s, ok := p.constStr(src); ok {
		d, er := b.real().DecodeString(s)
		if er != nil {
			return litR(string(d)), e.opaqueErr("base32")
		}
		return litR(string(d)), VIface{}
	}
	name := "b32"
	if !b.nopad {
		name = "b32pad"
	}
	if len(src) == 1 && src[0].k == pVar && p.sat[src[0].v].fn == name {
		return p.normR(p.sat[src[0].v].args[0]), VIface{}
	}
	for _, m := range p.b32memo {
		if m.pad == !b.nopad && ropeEqS(p.normR(m.src), src) {
			return p.normR(m.out), m.err
		}
	}
	out, err = e.b32DecodeNew(b, src)
	p.b32memo = append(p.b32memo, b32res{!b.nopad, src, out, err})
	return out, err
}

type b32res struct {
	pad bool
	src Rope
	out Rope
	err Value
}

var b32Tail = [8]int64{0, 0, 1, 0, 2, 3, 0, 4}

func (e *Exec) b32DecodeNew(b b32enc, src Rope) (Rope, Value) {
	p := e.p
	n := p.norm(p.lenR(src))
	partial := func() (Rope, Value) {
		m := p.newInt("b32part", bi0, nil2max())
		p.assumeLe0(m.mulc(bigI(8)).sub(n.mulc(bigI(5))))
		return varR(p.newStrLen("b32part", csAll, m)), e.opaqueErr("base32")
	}
	if b.nopad {
		f, _, rest := p.findSet(src, csOf(b32Alpha).not())
		if !f {
			// a text of base32 characters: always accepted, spare bits and odd
			// trailing characters are dropped
			n = p.norm(p.lenR(src))
			q, r := e.divmodFloor(n, bigI(8))
			d := cI(0)
			for i := int64(0); i < 8; i++ {
				if i == 7 || p.decideEq(p.norm(r.addc(-i))) {
					d = cI(b32Tail[i])
					break
				}
			}
			d = p.norm(q.mulc(bigI(5)).add(d))
			return e.ufStr("b32dec", d, p.normR(src)), VIface{}
		}
		rest = p.normR(rest)
		bb, _, ok := p.uncons(rest)
		if !ok {
			p.kill("b32")
		}
		if !p.decideIn(bb, csOf("\r\n")) {
			return partial()
		}
	}
	if p.branch(2, nil) == 1 {
		p.note("base32 text with line breaks or padding: error case is chosen without looking at the text")
		return partial()
	}
	p.restrictRope(src, csOf(b32Alpha+"=\r\n"))
	m := p.newInt("b32n", bi0, nil2max())
	p.assumeLe0(m.mulc(bigI(8)).sub(p.norm(p.lenR(src)).mulc(bigI(5))))
	if b.nopad {
		p.assumeLe0(m.mulc(bigI(8)).sub(p.norm(p.lenR(src)).mulc(bigI(5))).addc(5))
	}
	p.note("padded base32 decoding or line breaks")
	return varR(p.newStrLen("b32dec", csAll, m)), VIface{}
}

// ---- reflect ----

type rval struct {
	t   types.Type
	v   Value
	ptr *VPtr
}

func rtypeV(t types.Type) Value {
	return VIface{t: opaqueNamed("reflect.rtype"), v: VOpaque{kind: "rtype", d: t}}
}

func mkRval(r rval) Value { return VOpaque{kind: "rvalue", d: r} }

func rvalOf(v Value) rval {
	o, ok := v.(VOpaque)
	if !ok || o.kind != "rvalue" {
		unsupported("reflect.Value %T", v)
	}
	return o.d.(rval)
}

func (e *Exec) rget(r rval) Value {
	if r.ptr != nil {
		return e.load(*r.ptr)
	}
	return r.v
}

func rtOf(v Value) types.Type {
	i, ok := v.(VIface)
	if ok {
		v = i.v
	}
	o, ok := v.(VOpaque)
	if !ok || o.kind != "rtype" {
		unsupported("reflect.Type %T", v)
	}
	return o.d.(types.Type)
}

func rkind(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		}
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	unsupported("reflect kind of %s", t)
	return 0
}

func (e *Exec) rIface(r rval) Value {
	v := e.rget(r)
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return v
	}
	return VIface{t: r.t, v: v}
}

func (e *Exec) rValueOf(v Value) Value {
	i := v.(VIface)
	if i.t == nil {
		return mkRval(rval{})
	}
	return mkRval(rval{t: i.t, v: i.v})
}

func (e *Exec) structFieldV(f *types.Var, tag string, idx int, anon bool) Value {
	t := e.eng.stdType("reflect", "StructField")
	if t == nil {
		unsupported("reflect.StructField")
	}
	z := e.zero(t).(VStruct)
	st := t.Underlying().(*types.Struct)
	fs := append([]Value(nil), z.f...)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Name":
			fs[i] = mkStr(f.Name())
		case "Type":
			fs[i] = rtypeV(f.Type())
		case "Tag":
			fs[i] = mkStr(tag)
		case "PkgPath":
			if !f.Exported() {
				fs[i] = mkStr(f.Pkg().Path())
			}
		case "Anonymous":
			fs[i] = mkBool(anon)
		}
	}
	return VStruct{fs}
}

func (e *Exec) rset(r rval, v Value) {
	if r.ptr == nil {
		e.goPanic("reflect", "value is not addressable")
	}
	e.store(*r.ptr, v)
}

func init() {
	n := intrinsics
	enc := "(encoding/base32.Encoding)."
	encp := "(*encoding/base32.Encoding)."
	n[enc+"WithPadding"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		l := e.intv(a[1])
		if !l.isConst() {
			unsupported("base32 padding")
		}
		b := b32Of(a[0])
		switch l.cint() {
		case -1:
			b.nopad = true
		case '=':
			b.nopad = false
		default:
			unsupported("base32 padding")
		}
		return VOpaque{kind: "base32", d: b}
	}
	n[encp+"EncodeToString"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		return VStr{e.b32Encode(b32Of(a[0]), e.rope(a[1]))}
	}
	n[encp+"Encode"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		b := b32Of(a[0])
		r := e.b32Encode(b, e.rope(a[2]))
		d := a[1].(VSlice)
		e.boundsCheckLen(e.p.lenR(r), d.len)
		if d.obj != nil {
			e.writeBytes(d.obj, d.path, d.off, r)
		}
		return VTuple{}
	}
	n[encp+"EncodedLen"] = func(e *Exec, a []Value, _ *ssa.Function) Value { return VInt{e.b32Len(b32Of(a[0]), e.intv(a[1]))} }
	n[encp+"DecodedLen"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		return VInt{e.b32DecLen(b32Of(a[0]), e.intv(a[1]))}
	}
	n[encp+"DecodeString"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		r, err := e.b32Decode(b32Of(a[0]), e.rope(a[1]))
		return tup(e.newBytes(r), err)
	}
	n[encp+"Decode"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		r, err := e.b32Decode(b32Of(a[0]), e.rope(a[2]))
		d := a[1].(VSlice)
		nn := e.p.norm(e.p.lenR(r))
		if err.(VIface).t != nil {
			// bytes past the end of dst make the decoder panic only on complete groups;
			// the partial result is kept within dst
			if !e.p.decideLe(nn.sub(d.len)) {
				e.goPanic("index out of range", "base32 decode into a short buffer")
			}
		} else {
			e.boundsCheckLen(nn, d.len)
		}
		if d.obj != nil {
			e.writeBytes(d.obj, d.path, d.off, r)
		}
		return tup(VInt{nn}, err)
	}
	n["encoding/hex.EncodeToString"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		r := e.p.normR(e.rope(a[0]))
		if s, ok := e.p.constStr(r); ok {
			return mkStr(hex.EncodeToString([]byte(s)))
		}
		return VStr{e.p.homR(e.eng.hexHom(), r)}
	}
	n["crypto/sha256.Sum256"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		return VBytes{e.ufStr("sha256", cI(32), e.rope(a[0]))}
	}

	// reflect
	n["reflect.TypeOf"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		i := a[0].(VIface)
		if i.t == nil {
			return VIface{}
		}
		return rtypeV(i.t)
	}
	n["reflect.ValueOf"] = func(e *Exec, a []Value, _ *ssa.Function) Value { return e.rValueOf(a[0]) }
	n["reflect.New"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		t := rtOf(a[0])
		o := e.newObj(t, e.zero(t))
		return mkRval(rval{t: types.NewPointer(t), v: VPtr{obj: o}})
	}
	n["reflect.Zero"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		t := rtOf(a[0])
		return mkRval(rval{t: t, v: e.zero(t)})
	}
	n["reflect.MakeSlice"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		t := rtOf(a[0])
		return mkRval(rval{t: t, v: e.makeSlice(t, e.intv(a[1]), e.intv(a[2]))})
	}
	n["reflect.Append"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		s := rvalOf(a[0])
		xs, ok := e.elems(a[1])
		if !ok {
			unsupported("reflect.Append")
		}
		var el []Value
		for _, x := range xs {
			el = append(el, e.rget(rvalOf(x)))
		}
		et := s.t.Underlying().(*types.Slice).Elem()
		return mkRval(rval{t: s.t, v: e.appendT(e.rget(s).(VSlice), e.newList(s.t, el), et, e.p)})
	}
	n["reflect.Indirect"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		r := rvalOf(a[0])
		if rkind(r.t) != reflect.Ptr {
			return a[0]
		}
		return intrinsics["(reflect.Value).Elem"](e, a, nil)
	}
	n["reflect.DeepEqual"] = func(e *Exec, a []Value, _ *ssa.Function) Value { return mkBool(e.deepEq(a[0], a[1], 0)) }
	tagGet := func(e *Exec, a []Value) (string, bool) {
		return reflect.StructTag(e.cstr(a[0])).Lookup(e.cstr(a[1]))
	}
	n["(reflect.StructTag).Get"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		s, _ := tagGet(e, a)
		return mkStr(s)
	}
	n["(reflect.StructTag).Lookup"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		s, ok := tagGet(e, a)
		return tup(mkStr(s), mkBool(ok))
	}
	opaqueIfaces["reflect.rtype"] = map[string]bool{}
	tm := func(name string, f func(e *Exec, t types.Type, a []Value) Value) {
		opaqueIfaces["reflect.rtype"][name] = true
		opaqueMethods["reflect.rtype."+name] = func(e *Exec, o VOpaque, a []Value) Value { return f(e, o.d.(types.Type), a) }
	}
	tm("Kind", func(e *Exec, t types.Type, a []Value) Value { return mkInt(int64(rkind(t))) })
	tm("Key", func(e *Exec, t types.Type, a []Value) Value {
		if u, ok := t.Underlying().(*types.Map); ok {
			return rtypeV(u.Key())
		}
		e.goPanic("reflect", "Key of a type that is not a map")
		return nil
	})
	tm("Elem", func(e *Exec, t types.Type, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rtypeV(u.Elem())
		case *types.Slice:
			return rtypeV(u.Elem())
		case *types.Array:
			return rtypeV(u.Elem())
		case *types.Map:
			return rtypeV(u.Elem())
		}
		e.goPanic("reflect", "Elem of invalid type")
		return nil
	})
	tm("NumField", func(e *Exec, t types.Type, a []Value) Value {
		return mkInt(int64(t.Underlying().(*types.Struct).NumFields()))
	})
	tm("Field", func(e *Exec, t types.Type, a []Value) Value {
		st := t.Underlying().(*types.Struct)
		i := int(e.intv(a[0]).cint())
		return e.structFieldV(st.Field(i), st.Tag(i), i, st.Field(i).Embedded())
	})
	tm("String", func(e *Exec, t types.Type, a []Value) Value {
		return mkStr(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	})
	tm("Name", func(e *Exec, t types.Type, a []Value) Value {
		if nt, ok := t.(*types.Named); ok {
			return mkStr(nt.Obj().Name())
		}
		return mkStr("")
	})
	tm("Comparable", func(e *Exec, t types.Type, a []Value) Value { return mkBool(types.Comparable(t)) })
	tm("Implements", func(e *Exec, t types.Type, a []Value) Value {
		return mkBool(e.implements(t, rtOf(a[0]).Underlying().(*types.Interface)))
	})
	vm := func(name string, f func(e *Exec, r rval, a []Value) Value) {
		n["(reflect.Value)."+name] = func(e *Exec, a []Value, _ *ssa.Function) Value { return f(e, rvalOf(a[0]), a[1:]) }
	}
	vm("Kind", func(e *Exec, r rval, a []Value) Value { return mkInt(int64(rkind(r.t))) })
	vm("Type", func(e *Exec, r rval, a []Value) Value { return rtypeV(r.t) })
	vm("IsValid", func(e *Exec, r rval, a []Value) Value { return mkBool(r.t != nil) })
	vm("CanAddr", func(e *Exec, r rval, a []Value) Value { return mkBool(r.ptr != nil) })
	vm("CanSet", func(e *Exec, r rval, a []Value) Value { return mkBool(r.ptr != nil) })
	vm("Elem", func(e *Exec, r rval, a []Value) Value {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			pt := e.ptr(e.rget(r))
			if pt.obj == nil {
				return mkRval(rval{})
			}
			return mkRval(rval{t: u.Elem(), ptr: &pt})
		case *types.Interface:
			return e.rValueOf(e.rget(r))
		}
		e.goPanic("reflect", "Elem of "+r.t.String())
		return nil
	})
	vm("Addr", func(e *Exec, r rval, a []Value) Value {
		if r.ptr == nil {
			e.goPanic("reflect", "Addr of unaddressable value")
		}
		return mkRval(rval{t: types.NewPointer(r.t), v: *r.ptr})
	})
	vm("Interface", func(e *Exec, r rval, a []Value) Value { return e.rIface(r) })
	vm("NumField", func(e *Exec, r rval, a []Value) Value {
		return mkInt(int64(r.t.Underlying().(*types.Struct).NumFields()))
	})
	vm("Field", func(e *Exec, r rval, a []Value) Value {
		i := int(e.intv(a[0]).cint())
		ft := r.t.Underlying().(*types.Struct).Field(i).Type()
		if r.ptr != nil {
			pt := VPtr{obj: r.ptr.obj, path: append(append([]int(nil), r.ptr.path...), i)}
			return mkRval(rval{t: ft, ptr: &pt})
		}
		return mkRval(rval{t: ft, v: r.v.(VStruct).f[i]})
	})
	vm("Len", func(e *Exec, r rval, a []Value) Value { return e.builtin("len", []Value{e.rget(r)}, nil) })
	vm("Index", func(e *Exec, r rval, a []Value) Value {
		i := e.intv(a[0])
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			pt := e.ptr(e.indexAddr(e.rget(r), i, r.t))
			return mkRval(rval{t: u.Elem(), ptr: &pt})
		case *types.Array:
			if r.ptr != nil {
				pt := e.ptr(e.indexAddr(*r.ptr, i, r.t))
				return mkRval(rval{t: u.Elem(), ptr: &pt})
			}
		}
		unsupported("reflect Index of %s", r.t)
		return nil
	})
	vm("IsNil", func(e *Exec, r rval, a []Value) Value {
		switch x := e.rget(r).(type) {
		case VPtr:
			return mkBool(x.obj == nil)
		case VSlice:
			return mkBool(x.obj == nil)
		case VMap:
			return mkBool(x.obj == nil)
		case VIface:
			return mkBool(x.t == nil)
		}
		e.goPanic("reflect", "IsNil of "+r.t.String())
		return nil
	})
	vm("IsZero", func(e *Exec, r rval, a []Value) Value {
		switch rkind(r.t) {
		case reflect.Slice, reflect.Ptr, reflect.Map, reflect.Interface, reflect.Func:
			return intrinsics["(reflect.Value).IsNil"](e, []Value{mkRval(r)}, nil)
		}
		return mkBool(e.equal(e.rget(r), e.zero(r.t)))
	})
	for _, nm := range []string{"Int", "Uint", "String", "Bool", "Float"} {
		nm := nm
		vm(nm, func(e *Exec, r rval, a []Value) Value {
			k := rkind(r.t)
			ok := false
			switch nm {
			case "Int":
				ok = k >= reflect.Int && k <= reflect.Int64
			case "Uint":
				ok = k >= reflect.Uint && k <= reflect.Uintptr
			case "String":
				ok = k == reflect.String
			case "Bool":
				ok = k == reflect.Bool
			case "Float":
				ok = k == reflect.Float32 || k == reflect.Float64
			}
			if !ok {
				if nm == "String" {
					return VStr{varR(e.p.newStr("reflectstr", csAll))}
				}
				e.goPanic("reflect", nm+" of "+r.t.String())
			}
			return e.rget(r)
		})
	}
	vm("Set", func(e *Exec, r rval, a []Value) Value {
		x := rvalOf(a[0])
		v := e.rget(x)
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			v = e.rIface(x)
		}
		e.rset(r, v)
		return VTuple{}
	})
	vm("SetInt", func(e *Exec, r rval, a []Value) Value { e.rset(r, VInt{e.wrap(e.intv(a[0]), r.t)}); return VTuple{} })
	vm("SetUint", func(e *Exec, r rval, a []Value) Value { e.rset(r, VInt{e.wrap(e.intv(a[0]), r.t)}); return VTuple{} })
	vm("SetString", func(e *Exec, r rval, a []Value) Value { e.rset(r, a[0]); return VTuple{} })
	vm("SetBool", func(e *Exec, r rval, a []Value) Value { e.rset(r, a[0]); return VTuple{} })
	vm("SetBytes", func(e *Exec, r rval, a []Value) Value { e.rset(r, a[0]); return VTuple{} })
	vm("SetLen", func(e *Exec, r rval, a []Value) Value {
		l := e.intv(a[0])
		e.rset(r, e.sliceVal(e.rget(r), nil, &l, nil))
		return VTuple{}
	})
	vm("OverflowInt", func(e *Exec, r rval, a []Value) Value {
		l := e.intv(a[0])
		lo, hi := typeRange(r.t)
		return mkBool(!(e.p.decideLe(cB(lo).sub(l)) && e.p.decideLe(l.sub(cB(hi)))))
	})
	vm("OverflowUint", func(e *Exec, r rval, a []Value) Value {
		l := e.intv(a[0])
		_, hi := typeRange(r.t)
		return mkBool(!e.p.decideLe(l.sub(cB(hi))))
	})
	n["(reflect.Kind).String"] = func(e *Exec, a []Value, _ *ssa.Function) Value {
		return mkStr(reflect.Kind(e.intv(a[0]).cint()).String())
	}
}

func (e *Exec) boundsCheckLen(n, m Lin) {
	if !e.p.decideLe(e.p.norm(n.sub(m))) {
		e.goPanic("index out of range", "")
	}
}

func (g *Engine) hexHom() *Hom {
	var img [256]string
	for i := range img {
		img[i] = hex.EncodeToString([]byte{byte(i)})
	}
	return g.hom("hex", img)
}

var _ = strings.Join
