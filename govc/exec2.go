package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) sliceOp(x *ssa.Slice) Value {
	base := e.val(x.X)
	var lo, hi, mx *Lin
	get := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		l := e.intv(e.val(v))
		return &l
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	return e.sliceVal(base, lo, hi, mx)
}

func (e *Exec) sliceVal(base Value, lo, hi, mx *Lin) Value {
	p := e.p
	z := cI(0)
	if lo == nil {
		lo = &z
	}
	chk := func(a, b Lin) { // a <= b
		if !p.decideLe(a.sub(b)) {
			e.goPanic("slice bounds out of range", "")
		}
	}
	switch b := base.(type) {
	case VStr:
		n := p.lenR(b.r)
		if hi == nil {
			hi = &n
		} else {
			chk(*hi, n)
		}
		chk(cI(0), *lo)
		chk(*lo, *hi)
		return VStr{p.sub(b.r, *lo, *hi)}
	case VSlice:
		capv := b.cap
		if mx != nil {
			chk(*mx, b.cap)
			capv = *mx
		}
		if hi == nil {
			hi = &b.len
		} else {
			chk(*hi, capv)
		}
		chk(cI(0), *lo)
		chk(*lo, *hi)
		return VSlice{obj: b.obj, path: b.path, off: p.norm(b.off.add(*lo)), len: p.norm(hi.sub(*lo)), cap: p.norm(capv.sub(*lo)), k: b.k, txt: b.txt}
	case VPtr:
		if b.obj == nil {
			e.goPanic("nil dereference", "")
		}
		base := cI(0)
		if b.k > 0 {
			base = *b.idx
		} else if b.idx != nil || b.sidx != nil {
			b = e.concretizePtr(b)
		}
		v := getPath(e.objVal(b.obj), b.path)
		var n Lin
		if b.k > 0 {
			v = nil
			n = cI(b.k)
		}
		switch a := v.(type) {
		case nil:
		case VBytes:
			n = p.lenR(a.r)
		case VArr:
			n = cI(int64(len(a.e)))
		default:
			unsupported("slice of %T", v)
		}
		capv := n
		if mx != nil {
			chk(*mx, n)
			capv = *mx
		}
		if hi == nil {
			hi = &n
		} else {
			chk(*hi, capv)
		}
		chk(cI(0), *lo)
		chk(*lo, *hi)
		return VSlice{obj: b.obj, path: b.path, off: p.norm(base.add(*lo)), len: p.norm(hi.sub(*lo)), cap: p.norm(capv.sub(*lo))}
	}
	unsupported("slice of %T", base)
	return nil
}

func (e *Exec) makeSlice(t types.Type, n, c Lin) Value {
	if !e.p.decideLe(n.neg()) || !e.p.decideLe(n.sub(c)) {
		e.goPanic("makeslice: len out of range", "")
	}
	n, c = e.p.norm(n), e.p.norm(c)
	if !c.isConst() && !e.p.decideLe(c.sub(cB(maxLen))) {
		e.goPanic("makeslice: cap out of range", "")
	}
	et := t.Underlying().(*types.Slice).Elem()
	if isByteType(et) {
		if c.isConst() {
			if c.cint() > 1<<20 {
				unsupported("huge make")
			}
			o := e.newObj(t, VBytes{e.zeros(c.cint())})
			return VSlice{obj: o, off: cI(0), len: n, cap: c}
		}
		a := e.p.newStrLen("zeros", csOf("\x00"), c)
		o := e.newObj(t, VBytes{varR(a)})
		return VSlice{obj: o, off: cI(0), len: n, cap: c}
	}
	if c.isConst() && c.cint() <= 4096 {
		el := make([]Value, c.cint())
		z := e.zero(et)
		for i := range el {
			el[i] = z
		}
		o := e.newObj(t, VArr{el})
		return VSlice{obj: o, off: cI(0), len: n, cap: c}
	}
	// symbolic capacity: treat as growable list when len is 0
	if n.isConst() && n.cint() <= 4096 {
		el := make([]Value, n.cint())
		z := e.zero(et)
		for i := range el {
			el[i] = z
		}
		o := e.newObj(t, VArr{el})
		// capacity is unknown but at least len; model as exact (append reallocates)
		return VSlice{obj: o, off: cI(0), len: n, cap: n}
	}
	// symbolic length of non-byte elements
	z := e.zero(et)
	o := e.newObj(t, nil)
	o.sym = newSym(n, func(e *Exec, idx Lin) Value { return z })
	return VSlice{obj: o, off: cI(0), len: n, cap: c}
}

func newSym(n Lin, gen func(e *Exec, idx Lin) Value) *SymList {
	return &SymList{n: n, gen: gen, memo: map[string]Value{}, idxs: map[string]Lin{}}
}

func (e *Exec) symGet(s *SymList, idx Lin) Value {
	idx = e.p.norm(idx)
	// look for an equal index under the current substitution
	for _, k := range s.order {
		if e.p.norm(s.idxs[k]).eq(idx) {
			return s.memo[k]
		}
	}
	k := idx.key()
	v := s.gen(e, idx)
	s.memo[k] = v
	s.idxs[k] = idx
	s.order = append(s.order, k)
	return v
}

// listLen / elements of a concrete list slice
func (e *Exec) elems(v Value) ([]Value, bool) {
	s := v.(VSlice)
	if s.obj == nil {
		return nil, true
	}
	if s.obj.sym != nil {
		off, n := e.p.norm(s.off), e.p.norm(s.len)
		if !n.isConst() || n.cint() > 64 {
			return nil, false
		}
		var out []Value
		for i := int64(0); i < n.cint(); i++ {
			out = append(out, e.symGet(s.obj.sym, e.p.norm(off.addc(i))))
		}
		return out, true
	}
	off, n := e.p.norm(s.off), e.p.norm(s.len)
	if s.k > 0 {
		if !n.isConst() || n.cint() > 64 {
			return nil, false
		}
		b := getPath(e.objVal(s.obj), s.path).(VBytes)
		var out []Value
		for i := int64(0); i < n.cint(); i++ {
			at := e.p.norm(off.addc(i).mulc(bigI(s.k)))
			el := e.p.sub(b.r, at, e.p.norm(at.addc(s.k)))
			if s.txt {
				out = append(out, VStr{el})
			} else {
				out = append(out, VBytes{el})
			}
		}
		return out, true
	}
	if !off.isConst() || !n.isConst() {
		return nil, false
	}
	a, ok := getPath(e.objVal(s.obj), s.path).(VArr)
	if !ok {
		return nil, false
	}
	return a.e[off.cint() : off.cint()+n.cint()], true
}

func (e *Exec) newList(t types.Type, el []Value) VSlice {
	o := e.newObj(t, VArr{append([]Value(nil), el...)})
	n := cI(int64(len(el)))
	return VSlice{obj: o, off: cI(0), len: n, cap: n}
}

func (e *Exec) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsInteger != 0:
			if f, ok := v.(VFlt); ok {
				if f.known {
					return mkInt(int64(f.f))
				}
				if f.i != nil {
					return VInt{e.wrap(*f.i, to)}
				}
				lo, hi := typeRange(to)
				return VInt{e.p.newInt("f2i", lo, hi)}
			}
			if _, ok := v.(VPtr); ok {
				unsupported("pointer to integer")
			}
			return VInt{e.wrap(e.intv(v), to)}
		case tb.Info()&types.IsFloat != 0:
			if f, ok := v.(VFlt); ok {
				return f
			}
			l := e.intv(v)
			if l.isConst() {
				f, _ := new(big.Float).SetInt(l.c).Float64()
				return VFlt{known: true, f: f}
			}
			return e.freshFlt()
		case tb.Info()&types.IsString != 0:
			switch s := v.(type) {
			case VStr:
				return s
			case VSlice:
				if st, ok := fu.(*types.Slice); ok && !isByteType(st.Elem()) {
					unsupported("rune slice to string")
				}
				return VStr{e.bytesOf(s)}
			case VInt:
				l := e.intv(s)
				if l.isConst() {
					return mkStr(string(rune(l.cint())))
				}
				if e.p.decideLe(cI(0).sub(l)) && e.p.decideLe(l.addc(-127)) {
					return VStr{byteR(e.p.norm(l))}
				}
				a := e.p.newStr("rune", csAll)
				e.p.assumeLe0(cI(1).sub(a.len))
				e.p.assumeLe0(a.len.addc(-4))
				return VStr{varR(a)}
			}
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(VStr); ok {
			if isByteType(ts.Elem()) {
				n := e.newBytes(s.r)
				return n
			}
			unsupported("string to rune slice")
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	unsupported("convert %s to %s", from, to)
	return nil
}

// ---- maps ----

func (e *Exec) lookup(x *ssa.Lookup) Value {
	base := e.val(x.X)
	if s, ok := base.(VStr); ok {
		idx := e.intv(e.val(x.Index))
		e.boundsCheck(idx, e.p.lenR(s.r))
		if l, ok := e.constTable(s.r, idx); ok {
			return VInt{l}
		}
		return VInt{e.p.at(s.r, idx)}
	}
	m := base.(VMap)
	key := e.val(x.Index)
	var vt types.Type
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		vt = mt.Elem()
	}
	v, ok := e.mapGet(m, key)
	if !ok {
		v = e.zero(vt)
	}
	if x.CommaOk {
		return VTuple{[]Value{v, mkBool(ok)}}
	}
	return v
}

// constTable is the byte at an unknown index of a constant text.
func (e *Exec) constTable(r Rope, idx Lin) (Lin, bool) {
	p := e.p
	s, ok := p.constStr(r)
	idx = p.norm(idx)
	if !ok || len(s) > 256 || idx.isConst() {
		return Lin{}, false
	}
	var base AtomID
	if len(idx.t) == 1 && idx.c.Sign() == 0 && idx.t[0].k.Cmp(bi1) == 0 && p.iat[idx.t[0].a].isByte {
		base = idx.t[0].a
	} else {
		key := "ctbl:" + idx.key()
		id, ok := p.memoI[key]
		if !ok {
			var cs CS
			lo, hi := p.bounds(idx)
			for i := range s {
				v := bigI(int64(i))
				if (lo == nil || lo.Cmp(v) <= 0) && (hi == nil || hi.Cmp(v) >= 0) {
					cs.add(byte(i))
				}
			}
			b := p.newByte("idx", cs)
			p.memoI[key] = b.t[0].a
			p.assumeEq0(idx.sub(b))
			id = b.t[0].a
		}
		b := p.norm(linAtom(id))
		if b.isConst() {
			return cI(int64(s[b.cint()])), true
		}
		if len(b.t) != 1 || b.c.Sign() != 0 || b.t[0].k.Cmp(bi1) != 0 || !p.iat[b.t[0].a].isByte {
			return Lin{}, false
		}
		base = b.t[0].a
	}
	var t [256]*big.Int
	for i := range s {
		t[i] = bigI(int64(s[i]))
	}
	for _, c := range p.bcs[base].list() {
		if int(c) >= len(s) {
			return Lin{}, false
		}
	}
	return e.tblLin(base, t), true
}

func (e *Exec) mapGet(m VMap, key Value) (Value, bool) {
	if m.obj == nil {
		return nil, false
	}
	md := e.mapData(m.obj)
	if md.sym {
		if md.gen == nil {
			e.p.note("map contents")
			if e.p.branch(2, nil) == 0 {
				return nil, false
			}
			return e.arbitrary(md.vt, "mapval", false), true
		}
		return md.gen(e, key)
	}
	ck := e.concKey(key)
	for i := len(md.keys) - 1; i >= 0; i-- {
		if e.concKey(md.keys[i]) == ck {
			return md.vals[i], true
		}
	}
	// quick filter for string keys against large constant maps
	if s, ok := key.(VStr); ok {
		if _, c := e.p.constStr(s.r); c {
			allc := true
			for _, k := range md.keys {
				if ks, ok := k.(VStr); ok {
					if _, c := e.p.constStr(ks.r); !c {
						allc = false
					}
				}
			}
			if allc {
				return nil, false
			}
		}
	}
	for i := range md.keys {
		if e.equal(key, md.keys[i]) {
			return md.vals[i], true
		}
	}
	return nil, false
}

func (e *Exec) mapUpdate(mv, key, val Value) {
	m := mv.(VMap)
	if m.obj == nil {
		e.goPanic("assignment to entry in nil map", "")
	}
	e.noteWrite(m.obj, nil)
	md := e.mapData(m.obj)
	if md.sym {
		// forgotten: nothing is known about what the map holds
		if md.gen == nil {
			n := md.clone()
			n.n = e.p.newInt("len", bi0, maxLen)
			e.setMapData(m.obj, n)
			return
		}
		unsupported("update of symbolic map")
	}
	ck := e.concKey(key)
	hit := -1
	for i := range md.keys {
		if e.concKey(md.keys[i]) == ck {
			hit = i
			break
		}
	}
	if hit < 0 {
		for i := range md.keys {
			if e.equal(key, md.keys[i]) {
				hit = i
				break
			}
		}
	}
	md = e.mapData(m.obj).clone()
	if hit >= 0 {
		md.vals[hit] = val
	} else {
		md.keys = append(md.keys, key)
		md.vals = append(md.vals, val)
	}
	e.setMapData(m.obj, md)
}

func (e *Exec) mapDelete(mv, key Value) {
	m := mv.(VMap)
	if m.obj == nil {
		return
	}
	e.noteWrite(m.obj, nil)
	md := e.mapData(m.obj)
	if md.sym {
		n := md.clone()
		n.n = e.p.newInt("len", bi0, maxLen)
		e.setMapData(m.obj, n)
		return
	}
	for i := range md.keys {
		if e.equal(key, md.keys[i]) {
			n := e.mapData(m.obj).clone()
			n.keys = append(n.keys[:i:i], n.keys[i+1:]...)
			n.vals = append(n.vals[:i:i], n.vals[i+1:]...)
			e.setMapData(m.obj, n)
			return
		}
	}
}

func (e *Exec) mkRange(v Value) Value {
	switch x := v.(type) {
	case VMap:
		r := &VRange{}
		if x.obj != nil {
			md := e.mapData(x.obj)
			if md.sym {
				r.m, r.sym = x.obj, true
				return r
			}
			r.m = x.obj
			r.keys = append(r.keys, md.keys...)
			r.vals = append(r.vals, md.vals...)
			// iteration order is unspecified: explore all orders of small maps
			if len(r.keys) > 1 && len(r.keys) <= 4 {
				for i := 0; i < len(r.keys)-1; i++ {
					j := i + e.p.branch(len(r.keys)-i, nil)
					r.keys[i], r.keys[j] = r.keys[j], r.keys[i]
					r.vals[i], r.vals[j] = r.vals[j], r.vals[i]
				}
			}
		}
		return r
	case VStr:
		return &VRange{str: x.r, isStr: true, pos: cI(0)}
	}
	unsupported("range over %T", v)
	return nil
}

func (e *Exec) next(x *ssa.Next) Value {
	r := e.val(x.Iter).(*VRange)
	if r.isStr {
		rest := e.p.normR(r.str)
		if e.p.isEmpty(rest) {
			return VTuple{[]Value{mkBool(false), mkInt(0), mkInt(0)}}
		}
		pos := r.pos
		rn, sz, tail := e.decodeRune(rest)
		r.str = tail
		r.pos = e.p.norm(pos.add(sz))
		return VTuple{[]Value{mkBool(true), VInt{pos}, VInt{rn}}}
	}
	if r.sym {
		if e.p.branch(2, nil) == 0 {
			return VTuple{[]Value{mkBool(false), nil, nil}}
		}
		md := e.mapData(r.m)
		e.p.note("map contents")
		return VTuple{[]Value{mkBool(true), e.arbitrary(md.kt, "mapkey", false), e.arbitrary(md.vt, "mapval", false)}}
	}
	if r.i < len(r.keys) {
		k, v := r.keys[r.i], r.vals[r.i]
		r.i++
		// entries deleted during iteration are skipped
		return VTuple{[]Value{mkBool(true), k, v}}
	}
	return VTuple{[]Value{mkBool(false), nil, nil}}
}

// decodeRune reads one UTF-8 rune from the front of a non-empty rope.
func (e *Exec) decodeRune(r Rope) (rn, size Lin, tail Rope) {
	p := e.p
	b0, t, ok := p.uncons(r)
	if !ok {
		return cI(utf8.RuneError), cI(0), nil
	}
	if p.decideLe(b0.addc(-127)) {
		return p.norm(b0), cI(1), p.normR(t)
	}
	// concrete multi-byte?
	nr := p.normR(r)
	if nr[0].k == pLit {
		if c, sz := utf8.DecodeRuneInString(nr[0].lit); c != utf8.RuneError || len(nr[0].lit) >= 4 {
			_, tl := p.cut(nr, cI(int64(sz)))
			return cI(int64(c)), cI(int64(sz)), tl
		}
	}
	// non-ASCII: either an invalid byte (size 1) or a sequence of 2..4 bytes
	n := p.lenR(r)
	sz := p.newInt("runesz", bi1, big.NewInt(4))
	if !p.decideLe(sz.sub(n)) {
		p.kill("rune longer than input")
	}
	c := p.newInt("rune", big.NewInt(128), big.NewInt(utf8.MaxRune))
	// continuation bytes are >= 0x80
	h, tl := p.cut(r, p.norm(sz))
	_, h1, ok := p.uncons(h)
	if ok {
		var hi CS
		for i := 128; i < 256; i++ {
			hi.add(byte(i))
		}
		p.restrictRope(h1, hi)
	}
	return p.norm(c), p.norm(sz), p.normR(tl)
}

// ---- interfaces ----

func (e *Exec) implements(t types.Type, it *types.Interface) bool {
	if isOpaqueType(t) {
		return e.opaqueImplements(t, it)
	}
	return types.Implements(t, it)
}

func (e *Exec) typeAssert(x *ssa.TypeAssert) Value {
	v := e.val(x.X)
	i, ok := v.(VIface)
	if !ok {
		unsupported("type assert on %T", v)
	}
	if isUnknownErr(i) {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); !isI || !e.implements(i.t, it) {
			unsupported("type assertion on an unknown error")
		}
	}
	var hit bool
	var res Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil && e.implements(i.t, it) {
			hit, res = true, i
		} else {
			res = VIface{}
		}
	} else {
		if i.t != nil && types.Identical(i.t, x.AssertedType) {
			hit, res = true, i.v
		} else {
			res = e.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return VTuple{[]Value{res, mkBool(hit)}}
	}
	if !hit {
		e.goPanic("type assertion", x.AssertedType.String())
	}
	return res
}

// ---- calls ----

func (e *Exec) callee(c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := e.val(c.Value)
		for _, a := range c.Args {
			args = append(args, e.val(a))
		}
		i, ok := recv.(VIface)
		if !ok {
			unsupported("invoke on %T", recv)
		}
		if i.t == nil {
			e.goPanic("nil dereference", "method call on nil interface "+c.Method.Name())
		}
		return e.methodOf(i, c.Method), append([]Value{i.v}, args...)
	}
	fn := e.val(c.Value)
	for _, a := range c.Args {
		args = append(args, e.val(a))
	}
	return fn, args
}

func (e *Exec) methodOf(i VIface, m *types.Func) Value {
	if isOpaqueType(i.t) {
		return VFunc{name: "opaque." + m.Name(), nat: func(ex *Exec, args []Value) Value {
			return ex.opaqueMethod(i, m, args)
		}}
	}
	f := e.eng.prog.LookupMethod(i.t, m.Pkg(), m.Name())
	if f == nil {
		unsupported("no method %s on %s", m.Name(), i.t)
	}
	return VFunc{fn: f}
}

func (e *Exec) call(c *ssa.CallCommon, site ssa.Instruction) Value {
	fn, args := e.callee(c)
	return e.callValue(fn, args, c)
}

func (e *Exec) callValue(fv Value, args []Value, c *ssa.CallCommon) Value {
	f, ok := fv.(VFunc)
	if !ok {
		unsupported("call of %T", fv)
	}
	if f.nat != nil {
		return f.nat(e, args)
	}
	if f.fn != nil {
		return e.callFn(f.fn, args, f.binds, e.cur)
	}
	if len(f.name) > 8 && f.name[:8] == "builtin " {
		return e.builtin(f.name[8:], args, c)
	}
	e.goPanic("nil dereference", "call of nil function")
	return nil
}

func (e *Exec) builtin(name string, args []Value, c *ssa.CallCommon) Value {
	p := e.p
	switch name {
	case "len":
		switch x := args[0].(type) {
		case VStr:
			return VInt{p.lenR(x.r)}
		case VSlice:
			return VInt{p.norm(x.len)}
		case VMap:
			if x.obj == nil {
				return mkInt(0)
			}
			md := e.mapData(x.obj)
			if md.sym {
				return VInt{md.n}
			}
			return mkInt(int64(len(md.keys)))
		case VBytes:
			return VInt{p.lenR(x.r)}
		case VArr:
			return mkInt(int64(len(x.e)))
		case VPtr:
			v := getPath(e.objVal(x.obj), x.path)
			switch a := v.(type) {
			case VBytes:
				return VInt{p.lenR(a.r)}
			case VArr:
				return mkInt(int64(len(a.e)))
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case VSlice:
			return VInt{p.norm(x.cap)}
		}
	case "append":
		return e.appendB(args, c)
	case "copy":
		return e.copyB(args[0], args[1])
	case "delete":
		e.mapDelete(args[0], args[1])
		return VTuple{}
	case "panic":
		e.goPanic("panic", e.showVal(args[0]))
	case "print", "println":
		return VTuple{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			l, m := e.intv(r), e.intv(a)
			le := p.decideLe(l.sub(m))
			if le != (name == "min") {
				r = a
			}
		}
		return r
	case "recover":
		unsupported("recover")
	case "ssa:deferstack":
		return VOpaque{kind: "deferstack"}
	case "ssa:wrapnilchk":
		return args[0]
	}
	unsupported("builtin %s", name)
	return nil
}

func (e *Exec) copyB(dv, sv Value) Value {
	p := e.p
	d := dv.(VSlice)
	var n Lin
	var sl Lin
	switch s := sv.(type) {
	case VStr:
		sl = p.lenR(s.r)
	case VSlice:
		sl = p.norm(s.len)
	}
	if p.decideLe(d.len.sub(sl)) {
		n = p.norm(d.len)
	} else {
		n = p.norm(sl)
	}
	if n.isZero() {
		return mkInt(0)
	}
	// bytes?
	switch s := sv.(type) {
	case VStr:
		e.writeBytes(d.obj, d.path, d.off, p.sub(s.r, cI(0), n))
		return VInt{p.norm(n)}
	case VSlice:
		if s.obj == nil || d.obj == nil {
			return mkInt(0)
		}
		if d.k > 0 {
			src := s
			src.len = n
			if r, ok := e.packed(src, d.k); ok {
				e.writeBytes(d.obj, d.path, e.p.norm(d.off.mulc(bigI(d.k))), r)
				return VInt{n}
			}
		}
		if s.obj.sym == nil && s.k == 0 {
			if b, ok := getPath(e.objVal(s.obj), s.path).(VBytes); ok {
				src := p.sub(b.r, s.off, p.norm(s.off.add(n)))
				e.writeBytes(d.obj, d.path, d.off, src)
				return VInt{p.norm(n)}
			}
		}
		el, ok := e.elems(VSlice{obj: s.obj, path: s.path, off: s.off, len: n, cap: n, k: s.k, txt: s.txt})
		do := p.norm(d.off)
		if ok && do.isConst() && d.obj.sym == nil {
			e.noteWrite(d.obj, d.path)
			el = append([]Value(nil), el...)
			a := getPath(e.objVal(d.obj), d.path).(VArr)
			ne := append([]Value(nil), a.e...)
			copy(ne[do.cint():], el)
			e.setObjVal(d.obj, setPath(e.objVal(d.obj), d.path, VArr{ne}))
			return VInt{n}
		}
	}
	unsupported("copy of symbolic list")
	return nil
}

func (e *Exec) appendB(args []Value, c *ssa.CallCommon) Value {
	p := e.p
	s := args[0].(VSlice)
	var et types.Type
	if c != nil {
		if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			et = st.Elem()
		}
	}
	return e.appendT(s, args[1], et, p)
}

func (e *Exec) appendT(s VSlice, add Value, et types.Type, p *Path) Value {
	isB := et != nil && isByteType(et)
	if isB {
		r := e.bytesOf(add)
		n := p.lenR(r)
		if n.isZero() {
			return s
		}
		nl := p.norm(s.len.add(n))
		inLoop := false
		if s.obj != nil {
			for _, lc := range e.loops {
				if s.obj.id <= lc.bornID || s.obj.base {
					inLoop = true
				}
			}
		}
		if s.obj != nil && s.obj.hwm != nil && !s.obj.ro && !inLoop && p.provesEq(p.norm(s.off.add(s.len).sub(*s.obj.hwm))) {
			// the slice ends where the written part of its array ends: whether append
			// moves it is unobservable to everything but later element writes
			in := getPath(e.objVal(s.obj), s.path).(VBytes)
			head, tail := p.cut(in.r, *s.obj.hwm)
			e.setObjVal(s.obj, setPath(e.objVal(s.obj), s.path, VBytes{cat(p.normR(head), p.normR(r), p.normR(tail))}))
			h := p.norm(s.obj.hwm.add(n))
			s.obj.hwm = &h
			return VSlice{obj: s.obj, path: s.path, off: s.off, len: nl, cap: p.norm(s.cap.add(n))}
		}
		// room in place?
		if s.obj != nil && !s.obj.ro {
			if p.decideLe(nl.sub(s.cap)) {
				e.writeBytes(s.obj, s.path, p.norm(s.off.add(s.len)), r)
				return VSlice{obj: s.obj, path: s.path, off: s.off, len: p.norm(nl), cap: p.norm(s.cap)}
			}
		}
		old := e.bytesOf(s)
		nr := cat(old, p.normR(r))
		o := e.newObj(nil, VBytes{nr})
		nl = p.norm(nl)
		// new capacity: at least the length; spare bytes are zero
		spare := p.newInt("spare", bi0, big.NewInt(1<<40))
		z := p.newStrLen("spare", csOf("\x00"), spare)
		o.val = VBytes{cat(nr, varR(z))}
		o.hwm = &nl
		return VSlice{obj: o, off: cI(0), len: nl, cap: p.norm(nl.add(spare))}
	}
	add2 := add.(VSlice)
	if p.norm(add2.len).isZero() {
		return s
	}
	if s.k > 0 || add2.k > 0 {
		k := packedSize(et)
		if s.txt {
			k = s.k
		} else if add2.txt {
			k = add2.k
		}
		a, ok1 := e.packed(s, k)
		b, ok2 := e.packed(add2, k)
		if k == 0 || !ok1 || !ok2 {
			unsupported("append of packed lists")
		}
		r := e.newPacked(cat(a, b), s.len.add(add2.len), k)
		r.txt = s.txt || add2.txt
		return r
	}
	ael, ok := e.elems(add2)
	if !ok {
		if s.obj == nil || p.norm(s.len).isZero() {
			// append(nil, list...) : a copy
			if add2.obj.sym != nil {
				src := add2
				o := e.newObj(nil, nil)
				o.sym = newSym(src.len, func(e *Exec, idx Lin) Value { return e.symGet(src.obj.sym, e.p.norm(src.off.add(idx))) })
				return VSlice{obj: o, off: cI(0), len: src.len, cap: src.len}
			}
		}
		unsupported("append of symbolic list")
	}
	n := int64(len(ael))
	if n == 0 {
		return s
	}
	if s.obj != nil && s.obj.sym != nil {
		// appending to a symbolic list: a fresh list sharing the old one
		old := s
		o := e.newObj(nil, nil)
		nl := p.norm(s.len.addc(n))
		els := append([]Value(nil), ael...)
		o.sym = newSym(nl, func(e *Exec, idx Lin) Value {
			for i := range els {
				if e.p.decideEq(e.p.norm(idx.sub(old.len).addc(int64(-i)))) {
					return els[i]
				}
			}
			return e.symGet(old.obj.sym, e.p.norm(old.off.add(idx)))
		})
		o.sym.old, o.sym.els = &old, els
		return VSlice{obj: o, off: cI(0), len: nl, cap: nl}
	}
	nl := p.norm(s.len.addc(n))
	if s.obj != nil && p.decideLe(nl.sub(s.cap)) {
		off := p.norm(s.off.add(s.len))
		if !off.isConst() {
			unsupported("append at symbolic offset")
		}
		e.noteWrite(s.obj, s.path)
		a := getPath(e.objVal(s.obj), s.path).(VArr)
		ne := append([]Value(nil), a.e...)
		copy(ne[off.cint():], ael)
		e.setObjVal(s.obj, setPath(e.objVal(s.obj), s.path, VArr{ne}))
		return VSlice{obj: s.obj, path: s.path, off: s.off, len: nl, cap: s.cap}
	}
	old, ok := e.elems(s)
	if !ok {
		unsupported("append to list of symbolic length")
	}
	ne := append(append([]Value(nil), old...), ael...)
	return e.newList(nil, ne)
}

// ---- loops ----

// constCond: the loop test of header b last compared two known integers.
func (e *Exec) constCond(fr *frame, b *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	op, ok := iff.Cond.(*ssa.BinOp)
	if !ok || op.Block() != b {
		return false
	}
	for _, v := range []ssa.Value{op.X, op.Y} {
		var x Value
		if c, ok := v.(*ssa.Const); ok {
			x = e.constVal(c)
		} else {
			x = fr.regs[v]
		}
		i, ok := x.(VInt)
		if !ok || !i.l.isConst() {
			return false
		}
	}
	return true
}

func (e *Exec) enterBlock(fr *frame, b, prev *ssa.BasicBlock) *ssa.BasicBlock {
	// leave loops whose body we left
	for len(e.loops) > 0 {
		lc := e.loops[len(e.loops)-1]
		if lc.fr == fr && !lc.body[b] {
			e.loops = e.loops[:len(e.loops)-1]
			continue
		}
		break
	}
	li := e.eng.loopsOf(fr.fn)
	lp := li.byHeader[b]
	if lp == nil {
		return b
	}
	if len(b.Instrs) > 0 {
		e.cur = b.Instrs[0]
	}
	inv := e.u.invFor(e, fr, lp)
	if inv == nil {
		it := fr.iters[b]
		fromOutside := prev == nil || !lp.body[prev]
		if it == nil || fromOutside {
			it = &iterState{forks: e.forkCount()}
			fr.iters[b] = it
			return b
		}
		it.n++
		if f := e.forkCount(); f != it.forks {
			it.forks = f
			if !e.constCond(fr, b) {
				it.forkN++
			}
		}
		if it.forkN > e.u.unrollLimit() {
			e.u.bound(fmt.Sprintf("loop at %s has no matching invariant: at most %d undetermined iterations", e.pos(), e.u.unrollLimit()))
			e.p.kill("unroll bound")
		}
		if it.n > 20000 {
			unsupported("loop at %s unrolled too often", e.pos())
		}
		return b
	}
	fromOutside := prev == nil || !lp.body[prev]
	if !fromOutside {
		// back edge: invariant must be preserved
		e.checkKept(fr, b)
		e.checkInv(fr, lp, inv, "preserved")
		panic(sigEnd{"back edge"})
	}
	// first arrival
	e.snapshotLoop(fr, lp)
	e.checkInv(fr, lp, inv, "init")
	fr.calls++
	lc := &loopCtx{fr: fr, header: b, body: lp.body, bornID: e.nobj, key: hashKey(fr.key, "loop", b.Index, fr.calls), depth: e.depth}
	e.havocLoop(fr, lc)
	e.assumeInv(fr, lp, inv)
	e.loops = append(e.loops, lc)
	return b
}

func (e *Exec) forkCount() int {
	n := 0
	for i := e.u.fcPos; i < e.p.pos && i < len(e.p.trace); i++ {
		if len(e.p.trace[i].alts) > 1 {
			n++
		}
	}
	return n
}

func (e *Exec) havocLoop(fr *frame, lc *loopCtx) {
	hs := e.u.havoc[lc.key]
	ents := make([]struct {
		k havKey
		h *havEnt
	}, 0, len(hs))
	for k, h := range hs {
		ents = append(ents, struct {
			k havKey
			h *havEnt
		}{k, h})
	}
	for i := range ents {
		for j := i + 1; j < len(ents); j++ {
			if ents[j].h.seq < ents[i].h.seq {
				ents[i], ents[j] = ents[j], ents[i]
			}
		}
	}
	for _, en := range ents {
		var objs []*Obj
		if en.h.base != nil {
			objs = []*Obj{en.h.base}
		} else {
			var k uint64
			fmt.Sscanf(en.k.obj, "%x", &k)
			objs = e.byKey[k]
		}
		if len(objs) == 0 {
			continue
		}
		for _, o := range objs {
			if o.id > lc.bornID && !o.base {
				continue
			}
			if o.mp != nil && e.mapData(o).sym {
				n := e.mapData(o).clone()
				n.n = p0newLen(e)
				e.setMapData(o, n)
				continue
			}
			if o.mp != nil {
				unsupported("map modified in a loop with an invariant")
			}
			path := en.h.path
			for i := 0; i <= len(path); i++ {
				if sv, ok := getPath(e.objVal(o), path[:i]).(VStruct); ok && isBufVal(sv) {
					path = path[:i]
					break
				}
			}
			cur := getPath(e.objVal(o), path)
			var t types.Type
			if o.typ != nil {
				t = pathType(o.typ, path)
			}
			e.hav, e.havSub, e.havObj, e.havLoop = en.h, append([]int(nil), path...), o, lc
			nv := e.havocVal(cur, t, "h")
			e.hav = nil
			e.setObjVal(o, setPath(e.objVal(o), path, nv))
		}
	}
}

func p0newLen(e *Exec) Lin { return e.p.newInt("len", bi0, maxLen) }

// havocVal returns an arbitrary value of the same shape.
func (e *Exec) havocVal(v Value, t types.Type, nm string) Value {
	p := e.p
	switch x := v.(type) {
	case VInt:
		lo, hi := new(big.Int).Neg(new(big.Int).Lsh(bi1, 63)), new(big.Int).Sub(new(big.Int).Lsh(bi1, 64), bi1)
		if t != nil {
			if _, _, ok := intInfo(t); ok {
				if isByteType(t) {
					return VInt{p.newByte(nm, csAll)}
				}
				lo, hi = typeRange(t)
			}
		} else {
			hi = new(big.Int).Sub(new(big.Int).Lsh(bi1, 63), bi1)
		}
		return VInt{p.newInt(nm, lo, hi)}
	case VBool, VBAt:
		return VBAt{&BAtom{name: nm}}
	case VStr:
		return VStr{varR(p.newStr(nm, csAll))}
	case VFlt:
		return e.freshFlt()
	case VBytes:
		if t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return VBytes{varR(p.newStrLen(nm, csAll, p.lenR(x.r)))}
			}
		}
		return VBytes{varR(p.newStrLen(nm, csAll, p.lenR(x.r)))}
	case VStruct:
		f := make([]Value, len(x.f))
		var st *types.Struct
		if isBufVal(x) {
			return bufVal(e.newBytes(varR(p.newStr("buf", csAll))))
		}
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
			if isBufType(t) {
				st = nil
				return bufVal(e.newBytes(varR(p.newStr("buf", csAll))))
			}
		}
		for i := range f {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			e.havSub = append(e.havSub, i)
			f[i] = e.havocVal(x.f[i], ft, nm)
			e.havSub = e.havSub[:len(e.havSub)-1]
		}
		return VStruct{f}
	case VArr:
		f := make([]Value, len(x.e))
		for i := range f {
			e.havSub = append(e.havSub, i)
			f[i] = e.havocVal(x.e[i], nil, nm)
			e.havSub = e.havSub[:len(e.havSub)-1]
		}
		return VArr{f}
	case VSlice:
		return e.havocSlice(x, t, nm)
	case VIface:
		if x.t == nil {
			// an error variable: nil or an arbitrary error
			if t != nil && isErrorType(t) {
				if p.branch(2, nil) == 0 {
					return VIface{}
				}
				return e.unknownErr()
			}
			if e.hav != nil {
				return e.havocIface(x)
			}
			return x
		}
		if _, ok := x.v.(VPtr); ok && !isErrorType(t) && e.hav != nil && !isOpaqueType(x.t) {
			return e.havocIface(x)
		}
		if isErrorType(t) || isOpaqueType(x.t) {
			if p.branch(2, nil) == 0 {
				return VIface{}
			}
			return e.unknownErr()
		}
	case VFunc:
		return VFunc{name: "unknown", nat: func(*Exec, []Value) Value {
			unsupported("call of a function carried around a loop")
			return nil
		}}
	case VMap:
		if t != nil && e.loose {
			return e.arbitrary(t, nm, false)
		}
	case VPtr:
		if e.hav != nil && x.idx == nil {
			return e.havocPtr(x)
		}
	}
	unsupported("cannot havoc %T (%s) in a loop", v, nm)
	return nil
}

// havocIface is havocPtr for an interface that holds a pointer or nothing.
func (e *Exec) havocIface(x VIface) Value {
	sub := fmt.Sprint(e.havSub)
	h := e.hav
	if h.cands == nil {
		h.cands = map[string][]ptrCand{}
	}
	e.havLoop.kept = append(e.havLoop.kept, keptSlot{e.havObj, append([]int(nil), e.havSub...), h, sub, nil})
	c, ok := candOfIface(x)
	if !ok {
		unsupported("interface changed in a loop")
	}
	if !hasCand1(h.cands[sub], c) {
		h.cands[sub] = append(h.cands[sub], c)
		if len(h.cands[sub]) > 1 {
			panic(sigRestart{})
		}
	}
	cs := h.cands[sub]
	c = cs[e.p.branch(len(cs), nil)]
	if c.dyn == nil {
		return VIface{}
	}
	if c.obj == "" {
		return VIface{t: c.dyn, v: VPtr{}}
	}
	if c.obj == "new" {
		o := e.newObj(c.typ, e.arbitrary(c.typ, "h", false))
		o.ro = true
		return VIface{t: c.dyn, v: VPtr{obj: o}}
	}
	var kk uint64
	fmt.Sscanf(c.obj, "%x", &kk)
	objs := e.byKey[kk]
	if len(objs) != 1 {
		e.p.kill("no such object here")
	}
	return VIface{t: c.dyn, v: VPtr{obj: objs[0], path: c.path}}
}

func ifaceObj(x VIface) *Obj {
	if pt, ok := x.v.(VPtr); ok && x.t != nil {
		return pt.obj
	}
	return nil
}

func candOfIface(x VIface) (ptrCand, bool) {
	if x.t == nil {
		return ptrCand{}, true
	}
	pt, ok := x.v.(VPtr)
	if !ok || pt.idx != nil || pt.sidx != nil {
		return ptrCand{}, false
	}
	c := candOf(pt)
	c.dyn = x.t
	return c, true
}

func hasCand1(cs []ptrCand, y ptrCand) bool {
	for _, c := range cs {
		if c.obj == y.obj && fmt.Sprint(c.path) == fmt.Sprint(y.path) && (c.dyn == nil) == (y.dyn == nil) && (c.dyn == nil || types.Identical(c.dyn, y.dyn)) {
			return true
		}
	}
	return false
}

// havocPtr picks one of the pointers the slot is known to hold at the loop
// head; the set is completed when the head is reached again.
func (e *Exec) havocPtr(x VPtr) Value {
	sub := fmt.Sprint(e.havSub)
	h := e.hav
	if h.cands == nil {
		h.cands = map[string][]ptrCand{}
	}
	e.havLoop.kept = append(e.havLoop.kept, keptSlot{e.havObj, append([]int(nil), e.havSub...), h, sub, nil})
	cs := h.cands[sub]
	if !hasCand(cs, x) {
		cs = append(cs, candOf(x))
		h.cands[sub] = cs
		if len(cs) > 1 {
			panic(sigRestart{})
		}
	}
	k := e.p.branch(len(cs), nil)
	c := cs[k]
	if c.obj == "" {
		return VPtr{}
	}
	if c.obj == "new" {
		if _, ok := c.typ.Underlying().(*types.Basic); !ok {
			o := e.newObj(c.typ, nil)
			o.poison = true
			return VPtr{obj: o}
		}
		o := e.newObj(c.typ, e.arbitrary(c.typ, "h", false))
		o.ro = true
		return VPtr{obj: o}
	}
	var kk uint64
	fmt.Sscanf(c.obj, "%x", &kk)
	objs := e.byKey[kk]
	if len(objs) != 1 {
		e.p.kill("no such object here")
	}
	return VPtr{obj: objs[0], path: c.path}
}

func hasCand(cs []ptrCand, x VPtr) bool {
	y := candOf(x)
	for _, c := range cs {
		if c.obj == y.obj && fmt.Sprint(c.path) == fmt.Sprint(y.path) {
			return true
		}
	}
	return false
}

func (e *Exec) checkKept(fr *frame, b *ssa.BasicBlock) {
	for i := len(e.loops) - 1; i >= 0; i-- {
		lc := e.loops[i]
		if lc.fr != fr || lc.header != b {
			continue
		}
		for _, k := range lc.kept {
			v := getPath(e.objVal(k.obj), k.path)
			if k.sl != nil {
				y, ok := v.(VSlice)
				if k.sl.txt {
					if ok {
						_, ok = e.packed(y, k.sl.k)
					}
					if !ok {
						k.ent.pack[k.sub] = -1
						panic(sigRestart{})
					}
					continue
				}
				if !ok || y.obj != k.sl.obj || !e.p.provesEq(y.off.sub(k.sl.off)) || !e.p.provesEq(y.cap.sub(k.sl.cap)) {
					if k.ent.moved == nil {
						k.ent.moved = map[string]bool{}
					}
					k.ent.moved[k.sub] = true
					panic(sigRestart{})
				}
				continue
			}
			if iv, ok := v.(VIface); ok {
				c, ok := candOfIface(iv)
				if !ok {
					unsupported("interface changed in a loop")
				}
				if hasCand1(k.ent.cands[k.sub], c) {
					continue
				}
				if o := ifaceObj(iv); o != nil && (o.base || o.id > lc.bornID) {
					if o.base || len(c.path) > 0 || o.typ == nil {
						unsupported("pointer to a new object carried around a loop")
					}
					c = ptrCand{obj: "new", typ: o.typ, dyn: iv.t}
					if hasCand1(k.ent.cands[k.sub], c) {
						continue
					}
				}
				k.ent.cands[k.sub] = append(k.ent.cands[k.sub], c)
				panic(sigRestart{})
			}
			y, ok := v.(VPtr)
			if !ok || y.idx != nil {
				unsupported("pointer changed in a loop")
			}
			if hasCand(k.ent.cands[k.sub], y) {
				continue
			}
			if y.obj != nil && (y.obj.base || y.obj.id > lc.bornID) {
				t := y.obj.typ
				if y.obj.base || len(y.path) > 0 || t == nil {
					unsupported("pointer to a new object carried around a loop")
				}
				known := false
				for _, c := range k.ent.cands[k.sub] {
					known = known || c.obj == "new"
				}
				if known {
					continue
				}
				k.ent.cands[k.sub] = append(k.ent.cands[k.sub], ptrCand{obj: "new", typ: t})
				panic(sigRestart{})
			}
			k.ent.cands[k.sub] = append(k.ent.cands[k.sub], candOf(y))
			panic(sigRestart{})
		}
		return
	}
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *Exec) havocSlice(x VSlice, t types.Type, nm string) Value {
	p := e.p
	isB := false
	var et types.Type
	if t != nil {
		if st, ok := t.Underlying().(*types.Slice); ok {
			et = st.Elem()
			isB = isByteType(et)
		}
	} else if x.obj != nil && x.obj.sym == nil {
		_, isB = getPath(e.objVal(x.obj), x.path).(VBytes)
	}
	k := packedSize(et)
	if x.k > 0 {
		k = x.k
	}
	if (isB || x.k > 0 && !x.txt) && e.hav != nil && x.obj != nil && !x.obj.ro && x.obj.sym == nil && !e.hav.moved[fmt.Sprint(e.havSub)] {
		// the slice keeps its array: checked when the loop head is reached again
		n := p.newInt(nm, bi0, maxLen)
		p.assumeLe0(n.sub(p.norm(x.cap)))
		y := VSlice{obj: x.obj, path: x.path, off: x.off, len: p.norm(n), cap: x.cap, k: x.k}
		x.obj.hwm = nil
		e.havLoop.kept = append(e.havLoop.kept, keptSlot{e.havObj, append([]int(nil), e.havSub...), e.hav, fmt.Sprint(e.havSub), &y})
		return y
	}
	if isB {
		a := p.newStr(nm, csAll)
		spare := p.newStr("spare", csAll)
		o := e.newObj(nil, VBytes{cat(varR(a), varR(spare))})
		o.ro = true
		return VSlice{obj: o, off: cI(0), len: p.norm(a.len), cap: p.norm(a.len.add(spare.len))}
	}
	if k > 0 {
		n := p.newInt("len", bi0, new(big.Int).Div(maxLen, bigI(k)))
		a := p.newStrLen(nm, csAll, n.mulc(bigI(k)))
		y := e.newPacked(varR(a), n, k)
		y.obj.ro = !(x.obj == nil || x.k > 0)
		return y
	}
	if et != nil && e.hav != nil && isStringType(et) {
		if k := e.hav.pack[fmt.Sprint(e.havSub)]; k > 0 {
			if _, ok := e.packed(x, k); ok {
				n := p.newInt("len", bi0, new(big.Int).Div(maxLen, bigI(k)))
				a := p.newStrLen(nm, csAll, n.mulc(bigI(k)))
				y := e.newPacked(varR(a), n, k)
				y.txt = true
				e.havLoop.kept = append(e.havLoop.kept, keptSlot{e.havObj, append([]int(nil), e.havSub...), e.hav, fmt.Sprint(e.havSub), &y})
				return y
			}
			e.hav.pack[fmt.Sprint(e.havSub)] = -1
			panic(sigRestart{})
		}
	}
	if et == nil {
		unsupported("havoc of slice with unknown element type")
	}
	n := p.newInt("len", bi0, maxLen)
	o := e.newObj(nil, nil)
	o.sym = newSym(n, func(e *Exec, idx Lin) Value { return e.symbolic(et, nm) })
	o.sym.free = true
	if e.hav != nil && isStringType(et) {
		o.sym.hav, o.sym.sub = e.hav, fmt.Sprint(e.havSub)
	}
	o.ro = true
	return VSlice{obj: o, off: cI(0), len: n, cap: n}
}

var _ = token.ADD
