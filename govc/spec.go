package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// specFns are the functions of the prelude given meaning by the verifier.
var specFns map[string]func(e *Exec, args []Value, fn *ssa.Function) Value

func (e *Exec) cstr(v Value) string {
	s, ok := e.p.constStr(v.(VStr).r)
	if !ok {
		unsupported("constant string expected")
	}
	return s
}

func unIface(v Value) Value {
	if i, ok := v.(VIface); ok {
		return i.v
	}
	return v
}

func init() {
	specFns = map[string]func(e *Exec, args []Value, fn *ssa.Function) Value{
		"vStr":   func(e *Exec, a []Value, _ *ssa.Function) Value { return e.drawStr(e.cstr(a[0]), csAll) },
		"vStrOf": func(e *Exec, a []Value, _ *ssa.Function) Value { return e.drawStr(e.cstr(a[0]), csOf(e.cstr(a[1]))) },
		"vStrNot": func(e *Exec, a []Value, _ *ssa.Function) Value {
			return e.drawStr(e.cstr(a[0]), csOf(e.cstr(a[1])).not())
		},
		"vStrLen": func(e *Exec, a []Value, _ *ssa.Function) Value {
			n := e.intv(a[1])
			at := e.p.newStrLen(e.cstr(a[0]), csAll, n)
			at.draw = true
			return e.draw(e.cstr(a[0]), "s", VStr{varR(at)})
		},
		"vBytes": func(e *Exec, a []Value, _ *ssa.Function) Value {
			s := e.drawStr(e.cstr(a[0]), csAll).(VStr)
			return e.newBytes(s.r)
		},
		"vInt": func(e *Exec, a []Value, _ *ssa.Function) Value {
			lo, hi := e.intv(a[1]), e.intv(a[2])
			if lo.isConst() && hi.isConst() {
				if lo.c.Cmp(hi.c) > 0 {
					e.p.kill("empty range")
				}
				return e.drawInt(e.cstr(a[0]), lo.c, hi.c)
			}
			v := e.drawInt(e.cstr(a[0]), new(big.Int).Neg(new(big.Int).Lsh(bi1, 63)), new(big.Int).Sub(new(big.Int).Lsh(bi1, 63), bi1))
			l := v.(VInt).l
			if !e.p.decideLe(lo.sub(l)) || !e.p.decideLe(l.sub(hi)) {
				e.p.kill("out of drawn range")
			}
			return v
		},
		"vPick": func(e *Exec, a []Value, _ *ssa.Function) Value { // small concrete choice 0..n-1
			n := int(e.intv(a[1]).cint())
			k := e.p.branch(n, nil)
			return e.draw(e.cstr(a[0]), "i", mkInt(int64(k)))
		},
		"vI64": func(e *Exec, a []Value, fn *ssa.Function) Value {
			lo, hi := typeRange(types.Typ[types.Int64])
			return e.drawInt(e.cstr(a[0]), lo, hi)
		},
		"vU64": func(e *Exec, a []Value, fn *ssa.Function) Value {
			lo, hi := typeRange(types.Typ[types.Uint64])
			return e.drawInt(e.cstr(a[0]), lo, hi)
		},
		"vByte": func(e *Exec, a []Value, _ *ssa.Function) Value {
			return e.draw(e.cstr(a[0]), "i", VInt{e.p.newByte(e.cstr(a[0]), csAll)})
		},
		"vBool": func(e *Exec, a []Value, _ *ssa.Function) Value {
			return e.draw(e.cstr(a[0]), "b", VBAt{&BAtom{name: e.cstr(a[0])}})
		},
		"vFill": func(e *Exec, a []Value, _ *ssa.Function) Value {
			i := a[0].(VIface)
			pt := i.v.(VPtr)
			t := i.t.Underlying().(*types.Pointer).Elem()
			e.store(pt, e.symbolic(t, e.cstr(a[1])))
			return VTuple{}
		},
		"vProving": func(e *Exec, a []Value, _ *ssa.Function) Value { return mkBool(true) },
		"vCat": func(e *Exec, a []Value, _ *ssa.Function) Value {
			s := a[0].(VIface)
			r, ok := e.packed(s.v.(VSlice), packedSize(s.t.Underlying().(*types.Slice).Elem()))
			if !ok {
				unsupported("vCat of this list")
			}
			return VStr{r}
		},
		"vTexts": func(e *Exec, a []Value, _ *ssa.Function) Value {
			s, k := a[0].(VSlice), e.intv(a[1]).cint()
			if r, ok := e.packed(s, k); ok {
				return VStr{r}
			}
			if s.obj != nil && s.obj.sym != nil && s.obj.sym.hav != nil {
				h := s.obj.sym
				if h.hav.pack == nil {
					h.hav.pack = map[string]int64{}
				}
				if h.hav.pack[h.sub] == 0 {
					h.hav.pack[h.sub] = k
					panic(sigRestart{})
				}
			}
			el, ok := e.elems(s)
			if !ok {
				unsupported("vTexts of this list")
			}
			var r Rope
			for _, x := range el {
				q := e.p.normR(x.(VStr).r)
				if !e.p.decideEq(e.p.lenR(q).addc(-k)) {
					return mkStr("not texts of this length")
				}
				r = cat(r, e.p.normR(q))
			}
			return VStr{e.p.normR(r)}
		},
		"vList": func(e *Exec, a []Value, _ *ssa.Function) Value {
			i := a[0].(VIface)
			n := e.short(e.intv(a[1]))
			gen := a[2].(VIface).v.(VFunc)
			o := e.newObj(nil, nil)
			o.sym = newSym(n, func(e *Exec, idx Lin) Value { return e.callValue(gen, []Value{VInt{idx}}, nil) })
			o.ro = true
			e.store(i.v.(VPtr), VSlice{obj: o, off: cI(0), len: n, cap: n})
			return VTuple{}
		},
		"vPrefix": func(e *Exec, a []Value, _ *ssa.Function) Value {
			return mkBool(e.isPrefix(a[0].(VIface).v.(VSlice), a[1].(VIface).v.(VSlice)))
		},
		"vFillList": func(e *Exec, a []Value, _ *ssa.Function) Value {
			i := a[0].(VIface)
			k := packedSize(i.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice).Elem())
			if k == 0 {
				unsupported("vFillList of this type")
			}
			r := e.p.normR(a[1].(VStr).r)
			n := e.short(e.intv(a[2]))
			if !e.p.decideEq(e.p.norm(n.mulc(bigI(k)).sub(e.p.lenR(r)))) {
				e.p.kill("length of a list")
			}
			e.store(i.v.(VPtr), e.newPacked(r, n, k))
			return VTuple{}
		},
		"vTrack": func(e *Exec, a []Value, _ *ssa.Function) Value {
			e.track = &trackObj{obj: a[0].(VIface).v.(VPtr).obj, done: map[string]bool{}}
			return VTuple{}
		},
		"vWritten": func(e *Exec, a []Value, _ *ssa.Function) Value {
			t := e.track
			e.track = nil
			return mkBool(!t.read && t.has(e.objVal(t.obj), nil))
		},
		"vAssume": func(e *Exec, a []Value, _ *ssa.Function) Value {
			if !e.truth(a[0]) {
				panic(sigKill{"assumption"})
			}
			return VTuple{}
		},
		"vCheck": func(e *Exec, a []Value, _ *ssa.Function) Value {
			e.check(a[0], e.cstr(a[1]), "assert")
			return VTuple{}
		},
		"vReach": func(e *Exec, a []Value, _ *ssa.Function) Value {
			e.u.obligation("reach "+e.cstr(a[0]), "reach", e.pos())
			return VTuple{}
		},
		"vEnsure": func(e *Exec, a []Value, _ *ssa.Function) Value {
			cc := e.cstack[len(e.cstack)-1]
			if cc.use {
				if !e.truth(a[0]) {
					panic(sigKill{"postcondition"})
				}
				return VTuple{}
			}
			e.check(a[0], "post "+e.cstr(a[1]), "postcondition")
			return VTuple{}
		},
		"vRequires": func(e *Exec, a []Value, _ *ssa.Function) Value {
			cc := e.cstack[len(e.cstack)-1]
			if cc.use {
				e.check(a[0], "pre "+cc.name+" "+e.cstr(a[1]), "precondition")
				return VTuple{}
			}
			if !e.truth(a[0]) {
				panic(sigKill{"precondition"})
			}
			return VTuple{}
		},
		"vModifies": func(e *Exec, a []Value, _ *ssa.Function) Value {
			cc := e.cstack[len(e.cstack)-1]
			cc.mods = append(cc.mods, a[0])
			return VTuple{}
		},
		"vScramble": func(e *Exec, a []Value, _ *ssa.Function) Value {
			e.havocTarget(a[0])
			return VTuple{}
		},
		"vBuf": func(e *Exec, a []Value, _ *ssa.Function) Value {
			pt := a[0].(VPtr)
			if pt.obj == nil {
				return mkStr("")
			}
			return VStr{e.bufContent(pt)}
		},
		"vHom": func(e *Exec, a []Value, _ *ssa.Function) Value {
			return VStr{e.p.homR(e.homOf(a[1]), e.p.normR(a[0].(VStr).r))}
		},
		"vDecEq": func(e *Exec, a []Value, _ *ssa.Function) Value {
			r := e.p.normR(a[0].(VStr).r)
			if !e.p.ropeIn(r, csOf("0123456789")) {
				return mkBool(false)
			}
			if DEBUG > 3 {
				lo, hi := e.p.bounds(e.p.decVal(r))
				fmt.Println(lo, hi, "len", e.p.lenR(r).smt())
				fmt.Println("vDecEq", e.p.show(r), "val", e.p.decVal(r).smt(), "n", e.p.norm(e.intv(a[1])).smt())
			}
			return mkBool(e.p.decideEq(e.p.decVal(r).sub(e.intv(a[1]))))
		},
		"vIn": func(e *Exec, a []Value, _ *ssa.Function) Value {
			return mkBool(e.p.ropeIn(e.p.normR(a[0].(VStr).r), csOf(e.cstr(a[1]))))
		},
		"vEq": func(e *Exec, a []Value, _ *ssa.Function) Value {
			return mkBool(e.deepEq(a[0], a[1], 0))
		},
		"vPanics": func(e *Exec, a []Value, _ *ssa.Function) Value {
			return mkBool(e.panics(a[0]))
		},
		"vBound": func(e *Exec, a []Value, _ *ssa.Function) Value {
			e.u.bound(e.cstr(a[0]))
			return VTuple{}
		},
		"vNote": func(e *Exec, a []Value, _ *ssa.Function) Value {
			e.u.assume(e.cstr(a[0]))
			return VTuple{}
		},
		"vNewErr": func(e *Exec, a []Value, _ *ssa.Function) Value { return e.opaqueErr(e.cstr(a[0])) },
		"vLoose":  func(e *Exec, a []Value, _ *ssa.Function) Value { e.loose = true; return VTuple{} },
		"vGhost":  func(e *Exec, a []Value, _ *ssa.Function) Value { return mkBool(true) },
		"vShow": func(e *Exec, a []Value, _ *ssa.Function) Value {
			if DEBUG > 0 {
				fmt.Printf("SHOW %s = %s\n", e.cstr(a[0]), e.showVal(unIface(a[1])))
			}
			return VTuple{}
		},
		"vUF": func(e *Exec, a []Value, _ *ssa.Function) Value { // uninterpreted string function, fixed length result
			n := e.intv(a[1])
			return VStr{e.ufStr(e.cstr(a[0]), n, a[2].(VStr).r)}
		},
	}
}

func (e *Exec) panics(f Value) (hit bool) {
	fr, depth, cur := e.fr, e.depth, e.cur
	nl := len(e.loops)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(sigPanic); ok {
			hit = true
			e.fr, e.depth, e.cur = fr, depth, cur
			e.loops = e.loops[:nl]
			return
		}
		panic(r)
	}()
	e.callValue(f, nil, nil)
	return false
}

// homOf evaluates an image function on all 256 bytes.
func (e *Exec) homOf(f Value) *Hom {
	fn := f.(VFunc).fn
	if fn == nil {
		unsupported("image function must be a named function")
	}
	e.eng.mu.Lock()
	h := e.eng.homs["@"+fn.Name()]
	e.eng.mu.Unlock()
	if h != nil {
		return h
	}
	var img [256]string
	for i := range img {
		r := e.inline(fn, []Value{mkInt(int64(i))}, nil, nil)
		img[i] = e.cstr(r)
	}
	h = e.eng.hom(fn.Name(), img)
	e.eng.mu.Lock()
	e.eng.homs["@"+fn.Name()] = h
	e.eng.mu.Unlock()
	return h
}

// deepEq compares like reflect.DeepEqual, except that empty and nil slices are equal.
func (e *Exec) deepEq(a, b Value, depth int) bool {
	if depth > 30 {
		unsupported("deep equality too deep")
	}
	switch x := a.(type) {
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if isUnknownErr(x) || isUnknownErr(y) {
			return e.sameErr(x, y)
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return e.deepEq(x.v, y.v, depth+1)
	case VPtr:
		y := e.ptr(b)
		if x.obj == nil || y.obj == nil {
			return x.obj == nil && y.obj == nil
		}
		if x.obj == y.obj && fmt.Sprint(x.path) == fmt.Sprint(y.path) && x.idx == nil && y.idx == nil {
			return true
		}
		return e.deepEq(e.load(x), e.load(y), depth+1)
	case VStruct:
		y := b.(VStruct)
		if isBufVal(x) && isBufVal(y) {
			return e.p.eqR(e.bytesOf(x.f[0]), e.bytesOf(y.f[0]))
		}
		for i := range x.f {
			if !e.deepEq(x.f[i], y.f[i], depth+1) {
				return false
			}
		}
		return true
	case VArr:
		y := b.(VArr)
		for i := range x.e {
			if !e.deepEq(x.e[i], y.e[i], depth+1) {
				return false
			}
		}
		return true
	case VSlice:
		y := b.(VSlice)
		if e.isByteSlice(x) || e.isByteSlice(y) {
			return e.p.eqR(e.bytesOf(x), e.bytesOf(y))
		}
		if !e.p.decideEq(x.len.sub(y.len)) {
			return false
		}
		if x.k > 0 || y.k > 0 {
			k := x.k
			if k == 0 {
				k = y.k
			}
			xr, ok1 := e.packed(x, k)
			yr, ok2 := e.packed(y, k)
			if ok1 && ok2 {
				return e.p.eqR(xr, yr)
			}
		}
		xe, ok1 := e.elems(x)
		ye, ok2 := e.elems(y)
		if !ok1 || !ok2 {
			if e.p.norm(x.len).isZero() {
				return true
			}
			if xs, ys := x.obj.sym, y.obj.sym; xs != nil && ys != nil && xs.bound != nil && ys.bound != nil && xs.bound.obj == ys.bound.obj &&
				e.p.provesEq(xs.bound.off.add(x.off).sub(ys.bound.off.add(y.off))) {
				return true
			}
			if y.obj.sym != nil && y.obj.sym.old == nil && !y.obj.sym.free {
				return e.isPrefix(x, y)
			}
			if x.obj.sym != nil && x.obj.sym.old == nil && !x.obj.sym.free {
				return e.isPrefix(y, x)
			}
			unsupported("deep equality of symbolic lists")
		}
		for i := range xe {
			if !e.deepEq(xe[i], ye[i], depth+1) {
				return false
			}
		}
		return true
	case VMap:
		y := b.(VMap)
		n := func(m VMap) *MapData {
			if m.obj == nil {
				return &MapData{}
			}
			return e.mapData(m.obj)
		}
		mx, my := n(x), n(y)
		if len(mx.keys) != len(my.keys) {
			return false
		}
		for i, k := range mx.keys {
			v, ok := e.mapGet(y, k)
			if !ok || !e.deepEq(mx.vals[i], v, depth+1) {
				return false
			}
		}
		return true
	}
	return e.equal(a, b)
}

// isPrefix: the list x is the beginning of the symbolic list y.
func (e *Exec) isPrefix(x, y VSlice) bool {
	p := e.p
	n := p.norm(x.len)
	if x.obj == nil || n.isZero() {
		return true
	}
	if !p.decideLe(n.sub(y.len)) {
		return false
	}
	if y.obj == nil {
		return true // x is empty
	}
	at := func(i Lin) Value {
		i = p.norm(y.off.add(i))
		if y.obj.sym != nil {
			return e.symGet(y.obj.sym, i)
		}
		el, ok := e.elems(y)
		if !ok || !i.isConst() {
			unsupported("element of this list")
		}
		return el[i.cint()]
	}
	if x.obj == y.obj && p.provesEq(x.off.sub(y.off)) {
		return true
	}
	s := x.obj.sym
	if s == nil || n.isConst() && n.cint() <= 64 && !(s.free && len(s.order) == 0 && y.obj.sym != nil) {
		el, ok := e.elems(x)
		if !ok {
			unsupported("beginning of this list")
		}
		for i := range el {
			if !e.deepEq(el[i], at(cI(int64(i))), 0) {
				return false
			}
		}
		return true
	}
	if !p.norm(x.off).isZero() {
		unsupported("beginning of a part of a list")
	}
	switch {
	case s.free && len(s.order) == 0:
		if p.branch(2, nil) == 1 {
			return false
		}
		b := y
		s.free, s.bound = false, &b
		s.gen = func(e *Exec, idx Lin) Value { return e.symGet(b.obj.sym, e.p.norm(b.off.add(idx))) }
		if b.obj.sym == nil {
			unsupported("beginning of a list without elements")
		}
		return true
	case s.bound != nil && s.bound.obj == y.obj && y.obj.sym != nil && p.provesEq(s.bound.off.sub(y.off)):
		return true
	case s.old != nil:
		m := p.norm(s.old.len.addc(int64(len(s.els))))
		if !p.provesEq(n.sub(m)) {
			unsupported("beginning of a part of a list")
		}
		if !e.isPrefix(*s.old, y) {
			return false
		}
		for i := range s.els {
			if !e.deepEq(s.els[i], at(p.norm(s.old.len.addc(int64(i)))), 0) {
				return false
			}
		}
		return true
	}
	unsupported("beginning of this list")
	return false
}

func (e *Exec) isByteSlice(s VSlice) bool {
	if s.obj == nil || s.obj.sym != nil {
		return false
	}
	_, ok := getPath(e.objVal(s.obj), s.path).(VBytes)
	return ok && s.k == 0
}

// ufStr is an uninterpreted function returning a string of length n.
func (e *Exec) ufStr(name string, n Lin, args ...Rope) Rope {
	return e.ufStrCS(name, csAll, n, args...)
}

func (e *Exec) ufStrCS(name string, cs CS, n Lin, args ...Rope) Rope {
	p := e.p
	key := "uf:" + name
	for i := range args {
		args[i] = p.normR(args[i])
		key += "|" + ropeKey(args[i])
	}
	if id, ok := p.memoS[key]; ok {
		return p.normR(Rope{{k: pVar, v: id}})
	}
	// equal arguments give equal results
	for id, at := range p.sat {
		if at.fn != name || len(at.args) != len(args) {
			continue
		}
		same := true
		for i := range args {
			if !ropeEqS(p.normR(at.args[i]), args[i]) {
				same = false
			}
		}
		if same {
			return p.normR(Rope{{k: pVar, v: SAtomID(id)}})
		}
	}
	a := p.newStrLen(name, cs, n)
	a.fn, a.args, a.key = name, args, key
	p.memoS[key] = a.id
	return varR(a)
}

func isSpecFn(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "v") && specFns[fn.Name()] != nil
}

// short makes the length of a list one of the first few when loops are unrolled.
func (e *Exec) short(n Lin) Lin {
	if e.u.unroll == 0 {
		return n
	}
	n = e.p.norm(n)
	for k := int64(0); k <= 2; k++ {
		if e.p.decideEq(e.p.norm(n.addc(-k))) {
			e.u.bound("lists of at most two")
			return cI(k)
		}
	}
	e.p.kill("length of a list")
	return n
}
