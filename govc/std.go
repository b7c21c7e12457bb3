package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(e *Exec, a []Value, fn *ssa.Function) Value

var intrinsics map[string]intrFn

// ---- bytes.Buffer values ----

func zeroBuf() Value {
	return VStruct{[]Value{VSlice{off: cI(0), len: cI(0), cap: cI(0)}, VOpaque{kind: "bytes.Buffer"}}}
}
func bufVal(s VSlice) Value { return VStruct{[]Value{s, VOpaque{kind: "bytes.Buffer"}}} }
func isBufVal(s VStruct) bool {
	if len(s.f) != 2 {
		return false
	}
	o, ok := s.f[1].(VOpaque)
	return ok && o.kind == "bytes.Buffer"
}

func (e *Exec) bufSlice(pt VPtr) VSlice {
	return e.load(pt).(VStruct).f[0].(VSlice)
}
func (e *Exec) bufContent(pt VPtr) Rope { return e.bytesOf(e.bufSlice(pt)) }
func (e *Exec) bufSet(pt VPtr, s VSlice) {
	e.store(VPtr{obj: pt.obj, path: append(append([]int(nil), pt.path...), 0)}, s)
}
func (e *Exec) bufAppend(pt VPtr, r Rope) {
	s := e.bufSlice(pt)
	r = e.p.normR(r)
	if len(r) == 0 {
		return
	}
	e.bufSet(pt, e.appendFresh(s, r))
}

// appendFresh appends r in a new array.
func (e *Exec) appendFresh(s VSlice, r Rope) VSlice {
	old := e.bytesOf(s)
	return e.newBytes(cat(old, r))
}

func (e *Exec) rope(v Value) Rope { return e.bytesOf(v) }

// slicePart re-slices v (string or []byte) to [len(pre), len(pre)+len(mid)).
func (e *Exec) slicePart(v Value, pre, mid Rope) Value {
	switch s := v.(type) {
	case VStr:
		return VStr{e.p.normR(mid)}
	case VSlice:
		if s.obj == nil {
			return s
		}
		o := e.p.lenR(pre)
		n := e.p.lenR(mid)
		return VSlice{obj: s.obj, path: s.path, off: e.p.norm(s.off.add(o)), len: n, cap: e.p.norm(s.cap.sub(o))}
	}
	unsupported("slice part of %T", v)
	return nil
}

func tup(v ...Value) Value { return VTuple{v} }

// opaqueIdx -1 / offset
func (e *Exec) idxRes(found bool, pre Rope) Value {
	if !found {
		return mkInt(-1)
	}
	return VInt{e.p.lenR(pre)}
}

func (e *Exec) constByte(v Value) (byte, bool) {
	l := e.intv(v)
	if l.isConst() {
		return byte(l.cint()), true
	}
	return 0, false
}

const splitMax = 6

func (e *Exec) splitN(v Value, sep string, n int64, after bool) Value {
	p := e.p
	if sep == "" {
		unsupported("split by empty separator")
	}
	if n == 0 {
		return VSlice{off: cI(0), len: cI(0), cap: cI(0)}
	}
	r := e.rope(v)
	if _, c := p.constStr(r); e.loose && !c {
		// only what is needed to be safe: parts, of which nothing is known
		p.note("parts of a split text are arbitrary")
		ln := p.newInt("parts", bi1, maxLen)
		if n > 0 {
			p.assumeLe0(ln.sub(cI(n)))
		}
		var et types.Type = types.Typ[types.String]
		if _, isS := v.(VStr); !isS {
			et = types.NewSlice(types.Typ[types.Byte])
		}
		o := e.newObj(nil, nil)
		o.sym = newSym(ln, func(e *Exec, idx Lin) Value { return e.arbitrary(et, "part", false) })
		o.ro = true
		return VSlice{obj: o, off: cI(0), len: ln, cap: ln}
	}
	var out []Value
	var done Rope
	// a prefix run of concrete text does not count towards the limit
	forks := 0
	rest := r
	for n < 0 || int64(len(out)) < n-1 {
		t0 := e.forkCount()
		f, pre, tail := p.findSub(rest, sep)
		if !f {
			break
		}
		if e.forkCount() != t0 {
			forks++
		}
		if n < 0 && forks > splitMax {
			e.u.bound(fmt.Sprintf("at most %d separators found by one split of unknown text", splitMax))
			p.kill("split bound")
		}
		if after {
			unsupported("SplitAfter")
		}
		out = append(out, e.slicePart(v, done, pre))
		_, t2 := p.cut(tail, cI(int64(len(sep))))
		done = cat(done, pre, litR(sep))
		rest = t2
	}
	out = append(out, e.slicePart(v, done, p.normR(rest)))
	return e.newList(nil, out)
}

func (e *Exec) count(r Rope, sep string) Value {
	p := e.p
	if sep == "" {
		unsupported("count of empty separator")
	}
	n, forks := int64(0), 0
	for {
		t0 := e.forkCount()
		f, _, tail := p.findSub(r, sep)
		if !f {
			return mkInt(n)
		}
		if e.forkCount() != t0 {
			forks++
		}
		if forks > splitMax && e.loose {
			p.note("number of separators")
			return VInt{p.newInt("count", big.NewInt(n+1), maxLen)}
		}
		if forks > splitMax {
			e.u.bound(fmt.Sprintf("at most %d separators found by one split of unknown text", splitMax))
			p.kill("count bound")
		}
		n++
		_, r = p.cut(tail, cI(int64(len(sep))))
	}
}

// dec returns the decimal text of n.
func (e *Exec) dec(n Lin) Rope {
	p := e.p
	n = p.norm(n)
	if n.isConst() {
		return litR(n.c.String())
	}
	if e.loose && !p.provesLe(n.neg()) {
		return varR(p.newStrLen("num", csOf("0123456789-"), p.newInt("num.len", bi1, big.NewInt(20))))
	}
	if !p.decideLe(n.neg()) {
		return cat(litR("-"), e.dec(p.norm(n.neg())))
	}
	n = p.norm(n)
	if n.isConst() {
		return litR(n.c.String())
	}
	for id, at := range p.sat {
		if at.fn == "dec" && p.norm(*at.iarg).eq(n) {
			return p.normR(Rope{{k: pVar, v: SAtomID(id)}})
		}
	}
	_, hi := p.bounds(n)
	mx := int64(20)
	if hi != nil && hi.Cmp(big.NewInt(9)) <= 0 {
		return byteR(n.addc('0'))
	}
	if hi != nil {
		mx = int64(len(hi.String()))
	}
	l := p.newInt("declen", bi1, big.NewInt(mx))
	a := p.newStrLen("dec", csOf("0123456789"), l)
	a.fn = "dec"
	p.decs = append(p.decs, decEnt{Rope{{k: pVar, v: a.id}}, n})
	a.iarg = &n
	return varR(a)
}

var errRangeT = "strconv.ErrRange"

// decVal is the value of a digit string.
func (e *Exec) decVal(r Rope) Lin { return e.p.decVal(r) }

type decEnt struct {
	r Rope
	a Lin
}

var dec19 = new(big.Int).Exp(big.NewInt(10), big.NewInt(19), nil)

// decVal is the value of a string of digits (0 for the empty string). It
// never forks.
func (p *Path) decVal(r Rope) Lin {
	p.sync()
	r = p.normR(r)
	if len(r) == 0 {
		return cI(0)
	}
	if r[0].k == pLit && strings.Trim(r[0].lit, "0") == "" {
		return p.decVal(r[1:])
	}
	n := len(r) - 1
	switch last := r[n]; last.k {
	case pLit:
		v, ok := new(big.Int).SetString(last.lit, 10)
		if !ok || v.Sign() < 0 {
			p.kill("not a digit string")
		}
		k := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(last.lit))), nil)
		return p.norm(p.decVal(r[:n]).mulc(k).add(cB(v)))
	case pByte:
		return p.norm(p.decVal(r[:n]).mulc(big.NewInt(10)).add(last.b).addc(-'0'))
	case pVar:
		if at := p.sat[last.v]; n == 0 && at.fn == "dec" {
			return p.norm(*at.iarg)
		}
	}
	if n > 0 {
		// a last part of known length
		if l := p.lenR(r[n:]); l.isConst() && l.cint() <= 40 {
			k := new(big.Int).Exp(big.NewInt(10), l.c, nil)
			return p.norm(p.decVal(r[:n]).mulc(k).add(p.decVal(r[n:])))
		}
	}
	var hi *big.Int
	l := p.lenR(r)
	if DEBUG > 4 {
		fmt.Printf("   decVal %s\n", p.show(r))
		for _, x := range p.decs {
			fmt.Printf("      ent %s = %s\n", p.show(p.normR(x.r)), p.norm(x.a).smt())
		}
	}
	var old *decEnt
	for i, x := range p.decs {
		if ropeEqS(p.normR(x.r), r) {
			if _, h := p.bounds(x.a); h != nil && h.Cmp(dec19) <= 0 {
				return p.norm(x.a)
			}
			old = &p.decs[i]
			break
		}
	}
	if _, h := p.bounds(l); h != nil && h.Cmp(big.NewInt(40)) < 0 {
		hi = new(big.Int).Sub(new(big.Int).Exp(big.NewInt(10), h, nil), bi1)
	} else {
		for _, k := range []int64{9, 18, 19} {
			if p.provesLe(l.sub(cI(k))) {
				hi = new(big.Int).Sub(new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil), bi1)
				break
			}
		}
	}
	if old != nil {
		v := p.norm(old.a)
		if hi != nil {
			p.assumeLe0(v.sub(cB(hi)))
			v = p.norm(v)
		}
		return v
	}
	v := p.newInt("decval", bi0, hi)
	p.decs = append(p.decs, decEnt{r, v})
	if n > 0 {
		base := p.decVal(r[:n])
		if p.provesLe(cI(1).sub(p.lenR(r[n:]))) {
			base = base.mulc(big.NewInt(10))
		}
		p.assumeLe0(base.sub(v))
	}
	return p.norm(v)
}

// parseInt models strconv.ParseInt/ParseUint for base 10.
func (e *Exec) parseInt(r Rope, signed bool, bits uint) (Lin, Value, bool) {
	p := e.p
	r = p.normR(r)
	syntax := func() (Lin, Value, bool) {
		return cI(0), numErr(e, "strconv.ErrSyntax"), false
	}
	if s, ok := p.constStr(r); ok {
		if signed {
			v, err := strconv.ParseInt(s, 10, int(bits))
			if err != nil {
				return cI(v), numErr(e, "strconv:"+errClass(err)), false
			}
			return cI(v), VIface{}, true
		}
		v, err := strconv.ParseUint(s, 10, int(bits))
		l := cB(new(big.Int).SetUint64(v))
		if err != nil {
			return l, numErr(e, "strconv:"+errClass(err)), false
		}
		return l, VIface{}, true
	}
	if p.isEmpty(r) {
		return syntax()
	}
	neg := false
	if signed {
		r = p.normR(r)
		first, rest, ok := p.unconsIf(r, csOf("+-"))
		if ok {
			if p.decideEq(first.addc(-'-')) {
				neg = true
			}
			r = p.normR(rest)
			if p.isEmpty(r) {
				return syntax()
			}
		}
	}
	if !p.ropeIn(r, csOf("0123456789")) {
		return syntax()
	}
	v := e.decVal(r)
	var lo, hi *big.Int
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(bi1, bits-1), bi1)
		lo = new(big.Int).Neg(new(big.Int).Lsh(bi1, bits-1))
	} else {
		lo, hi = bi0, new(big.Int).Sub(new(big.Int).Lsh(bi1, bits), bi1)
	}
	if neg {
		v = p.norm(v.neg())
		if !p.decideLe(cB(lo).sub(v)) {
			return cB(lo), numErr(e, "strconv.ErrRange"), false
		}
		return p.norm(v), VIface{}, true
	}
	if !p.decideLe(v.sub(cB(hi))) {
		return cB(hi), numErr(e, "strconv.ErrRange"), false
	}
	return p.norm(v), VIface{}, true
}

func errClass(err error) string {
	if ne, ok := err.(*strconv.NumError); ok {
		return ne.Err.Error()
	}
	return "x"
}

// numErr is a *strconv.NumError with the given class.
func numErr(e *Exec, what string) Value {
	pk := e.eng.prog.ImportedPackage("strconv")
	if pk == nil || pk.Type("NumError") == nil {
		return e.opaqueErr(what)
	}
	g := "ErrSyntax"
	if strings.Contains(what, "range") || strings.Contains(what, "Range") {
		g = "ErrRange"
	}
	t := pk.Type("NumError").Type()
	ev := e.eng.stdGlobal(pk.Var(g), pk.Var(g).Type().(*types.Pointer).Elem())
	o := e.newObj(t, VStruct{f: []Value{mkStr("strconv"), mkStr("?"), ev}})
	return VIface{t: types.NewPointer(t), v: VPtr{obj: o}}
}

// unconsIf splits off the first byte if it is in cs (deciding).
func (p *Path) unconsIf(r Rope, cs CS) (Lin, Rope, bool) {
	r = p.normR(r)
	if len(r) == 0 {
		return Lin{}, nil, false
	}
	if p.csOfPiece(r[0]).and(cs).empty() && r[0].k != pVar {
		return Lin{}, r, false
	}
	if p.csOfRope(r).and(cs).empty() {
		return Lin{}, r, false
	}
	b, rest, ok := p.uncons(r)
	if !ok {
		return Lin{}, r, false
	}
	if p.decideIn(b, cs) {
		return p.norm(b), rest, true
	}
	return Lin{}, p.normR(r), false
}

func (e *Exec) str1(r Rope) Value { return VStr{e.p.normR(r)} }

func (e *Exec) constBytesArg(v Value, what string) string {
	s, ok := e.p.constStr(e.rope(v))
	if !ok {
		unsupported("%s with non-constant pattern", what)
	}
	return s
}

func csFoldASCII(up bool) [256]string {
	var img [256]string
	for i := range img {
		b := byte(i)
		if up && b >= 'a' && b <= 'z' {
			b -= 32
		} else if !up && b >= 'A' && b <= 'Z' {
			b += 32
		}
		img[i] = string([]byte{b})
	}
	return img
}

func (e *Exec) caseMap(r Rope, up bool) Rope {
	p := e.p
	r = p.normR(r)
	nm := "tolower"
	if up {
		nm = "toupper"
	}
	if s, ok := p.constStr(r); ok {
		if up {
			return litR(strings.ToUpper(s))
		}
		return litR(strings.ToLower(s))
	}
	if !p.csOfRope(r).and(csHigh()).empty() {
		if f, pre, _ := p.findSet(r, csHigh()); f {
			// ASCII text before the first other rune is mapped by itself
			_, rest := p.cut(r, p.lenR(pre))
			rest = p.normR(rest)
			n := p.newInt(nm, bi0, maxLen)
			p.note("abstract " + nm + " of non-ASCII text")
			head, other := "ki", csFoldASCII(up)
			if up {
				head = "IS"
			}
			var cs CS
			for c := 0; c < 256; c++ {
				if other[c] == string([]byte{byte(c)}) {
					cs.add(byte(c))
				}
			}
			h := e.ufStrCS(nm+"1", csHigh().or(csOf(head)), cI(1), rest)
			return p.normR(cat(p.homR(e.eng.hom(nm, csFoldASCII(up)), p.normR(pre)), h, e.ufStrCS(nm, cs, n, rest)))
		}
		r = p.normR(r)
	}
	return p.homR(e.eng.hom(nm, csFoldASCII(up)), r)
}

// equalFold compares a text with an ASCII text; two runes above ASCII fold to ASCII letters.
func (e *Exec) equalFold(x Rope, s string) bool {
	p := e.p
	f, pre, _ := p.findSet(x, csHigh())
	if !f {
		return p.eqR(e.caseMap(p.normR(x), false), litR(strings.ToLower(s)))
	}
	for i := 0; i < len(s); i++ {
		r := ""
		switch s[i] {
		case 's', 'S':
			r = "\u017f"
		case 'k', 'K':
			r = "\u212a"
		default:
			continue
		}
		if !p.decideEq(p.norm(p.lenR(p.normR(pre)).addc(int64(-i)))) {
			continue
		}
		_, rest := p.cut(p.normR(x), cI(int64(i)))
		if !p.hasPrefix(p.normR(rest), r) || !p.eqR(e.caseMap(p.normR(pre), false), litR(strings.ToLower(s[:i]))) {
			return false
		}
		_, rest = p.cut(p.normR(rest), cI(int64(len(r))))
		return e.equalFold(p.normR(rest), s[i+1:])
	}
	return false
}

// sprintf models the verbs used with plain arguments.
func (e *Exec) sprintf(format Value, args Value) Rope {
	p := e.p
	f, ok := p.constStr(format.(VStr).r)
	el, ok2 := e.elems(args)
	fresh := func() Rope { return varR(p.newStr("sprintf", csAll)) }
	if !ok || !ok2 {
		return fresh()
	}
	var out Rope
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = cat(out, litR(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			return fresh()
		}
		if f[i] == '%' {
			out = cat(out, litR("%"))
			continue
		}
		verb := f[i:]
		width := 0
		zero := false
		if verb[0] == '0' {
			zero = true
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i >= len(f) || k >= len(el) {
			return fresh()
		}
		a := el[k].(VIface)
		k++
		switch f[i] {
		case 's', 'v', 'd':
			switch x := a.v.(type) {
			case VStr:
				if width != 0 || f[i] == 'd' || e.hasMethod(a.t, "Error") || e.hasMethod(a.t, "String") {
					return fresh()
				}
				out = cat(out, p.normR(x.r))
			case VInt:
				if f[i] == 's' || e.hasMethod(a.t, "String") || e.hasMethod(a.t, "Error") {
					return fresh()
				}
				var d Rope
				if width == 0 {
					d = e.dec(x.l)
				} else {
					if !zero || width > 18 {
						return fresh()
					}
					n := p.norm(x.l)
					if !p.decideLe(n.neg()) {
						return fresh()
					}
					lim := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(width)), nil)
					if p.decideLe(n.sub(cB(lim)).addc(1)) {
						n = p.norm(n)
						d = nil
						for j := 0; j < width; j++ {
							q, r := e.divmodFloor(n, big.NewInt(10))
							if j == width-1 {
								q, r = cI(0), n
							}
							d = cat(byteR(p.norm(r.addc('0'))), d)
							n = p.norm(q)
						}
					} else {
						d = e.dec(p.norm(x.l))
					}
				}
				out = cat(out, d)
			default:
				return fresh()
			}
		case 'c':
			x, ok := a.v.(VInt)
			if !ok || !p.provesLe(p.norm(x.l).addc(-127)) {
				return fresh()
			}
			out = cat(out, byteR(p.norm(x.l)))
		default:
			return fresh()
		}
	}
	return p.normR(out)
}

func (e *Exec) hasMethod(t types.Type, name string) bool {
	ms := e.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (g *Engine) isIntrinsic(fn *ssa.Function) bool {
	if fn.Pkg == nil && fn.Object() == nil {
		return false
	}
	if isSpecFn(fn) && g.isSpec(fn) {
		return true
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Synthetic == "package initializer" && !strings.HasPrefix(fn.Pkg.Pkg.Path(), repoMod) {
		return true
	}
	_, ok := intrinsics[fnKey(fn)]
	return ok
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Exec) intrinsic(fn *ssa.Function, args []Value, site ssa.Instruction) Value {
	if isSpecFn(fn) && e.eng.isSpec(fn) {
		return specFns[fn.Name()](e, args, fn)
	}
	k := fnKey(fn)
	if f := intrinsics[k]; f != nil {
		if !e.initing {
			e.u.assume("library model: " + k)
		}
		return f(e, args, fn)
	}
	if m := e.eng.models[k]; m != nil {
		return e.inline(m, args, nil, site)
	}
	if fn.Name() == "init" && len(args) == 0 {
		return VTuple{}
	}
	unsupported("no model for %s", k)
	return nil
}

func (e *Exec) zeroSpecial(t types.Type) (Value, bool) {
	return nil, false
}

// both registers f for package bytes and strings under the same name.
func both(name string, f func(e *Exec, a []Value) Value) {
	intrinsics["bytes."+name] = func(e *Exec, a []Value, _ *ssa.Function) Value { return f(e, a) }
	intrinsics["strings."+name] = func(e *Exec, a []Value, _ *ssa.Function) Value { return f(e, a) }
}

func (e *Exec) likeArg(v Value, r Rope) Value {
	if _, ok := v.(VStr); ok {
		return VStr{e.p.normR(r)}
	}
	return e.newBytes(r)
}

func asciiOnly(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

// runeSet evaluates a rune predicate on ASCII bytes; ok=false if it cannot be decided there.
func (e *Exec) runeSet(f Value) CS {
	var cs CS
	for c := 0; c < 128; c++ {
		if e.truth(e.callValue(f, []Value{mkInt(int64(c))}, nil)) {
			cs.add(byte(c))
		}
	}
	return cs
}

func init() {
	intrinsics = map[string]intrFn{}
	I := func(n string, f intrFn) { intrinsics[n] = f }

	both("IndexByte", func(e *Exec, a []Value) Value {
		r := e.rope(a[0])
		var cs CS
		if b, ok := e.constByte(a[1]); ok {
			cs.add(b)
		} else {
			unsupported("IndexByte of symbolic byte")
		}
		f, pre, _ := e.p.findSet(r, cs)
		return e.idxRes(f, pre)
	})
	defer func() {
		for _, n := range []string{"IndexByte", "LastIndexByte"} {
			intrinsics["internal/bytealg."+n+"String"] = intrinsics["strings."+n]
		}
	}()
	both("LastIndexByte", func(e *Exec, a []Value) Value {
		b, ok := e.constByte(a[1])
		if !ok {
			unsupported("LastIndexByte of symbolic byte")
		}
		var cs CS
		cs.add(b)
		f, pre, _ := e.p.findSetLast(e.rope(a[0]), cs)
		if !f {
			return mkInt(-1)
		}
		return VInt{e.p.norm(e.p.lenR(pre).addc(-1))}
	})
	both("IndexRune", func(e *Exec, a []Value) Value {
		l := e.intv(a[1])
		if !l.isConst() || l.cint() >= 128 {
			unsupported("IndexRune")
		}
		var cs CS
		cs.add(byte(l.cint()))
		f, pre, _ := e.p.findSet(e.rope(a[0]), cs)
		return e.idxRes(f, pre)
	})
	both("Index", func(e *Exec, a []Value) Value {
		f, pre, _ := e.p.findSub(e.rope(a[0]), e.constBytesArg(a[1], "Index"))
		return e.idxRes(f, pre)
	})
	both("Contains", func(e *Exec, a []Value) Value {
		f, _, _ := e.p.findSub(e.rope(a[0]), e.constBytesArg(a[1], "Contains"))
		return mkBool(f)
	})
	both("IndexAny", func(e *Exec, a []Value) Value {
		s := e.constBytesArg(a[1], "IndexAny")
		if !asciiOnly(s) {
			unsupported("IndexAny non-ASCII")
		}
		f, pre, _ := e.p.findSet(e.rope(a[0]), csOf(s))
		return e.idxRes(f, pre)
	})
	both("LastIndexAny", func(e *Exec, a []Value) Value {
		s := e.constBytesArg(a[1], "LastIndexAny")
		if !asciiOnly(s) {
			unsupported("LastIndexAny non-ASCII")
		}
		f, pre, _ := e.p.findSetLast(e.rope(a[0]), csOf(s))
		if !f {
			return mkInt(-1)
		}
		return VInt{e.p.norm(e.p.lenR(pre).addc(-1))}
	})
	both("ContainsAny", func(e *Exec, a []Value) Value {
		s := e.constBytesArg(a[1], "ContainsAny")
		if !asciiOnly(s) {
			unsupported("ContainsAny non-ASCII")
		}
		f, _, _ := e.p.findSet(e.rope(a[0]), csOf(s))
		return mkBool(f)
	})
	both("ContainsRune", func(e *Exec, a []Value) Value {
		l := e.intv(a[1])
		if !l.isConst() || l.cint() >= 128 {
			unsupported("ContainsRune")
		}
		var cs CS
		cs.add(byte(l.cint()))
		f, _, _ := e.p.findSet(e.rope(a[0]), cs)
		return mkBool(f)
	})
	both("LastIndex", func(e *Exec, a []Value) Value {
		s := e.constBytesArg(a[1], "LastIndex")
		if len(s) == 1 {
			f, pre, _ := e.p.findSetLast(e.rope(a[0]), csOf(s))
			if !f {
				return mkInt(-1)
			}
			return VInt{e.p.norm(e.p.lenR(pre).addc(-1))}
		}
		// last occurrence via repeated first occurrences (bounded by the split bound)
		if s == "" {
			return VInt{e.p.lenR(e.rope(a[0]))}
		}
		r := e.rope(a[0])
		return e.lastIndex(r, s)
	})
	both("HasPrefix", func(e *Exec, a []Value) Value {
		if s, ok := e.p.constStr(e.rope(a[1])); ok {
			return mkBool(e.p.hasPrefix(e.rope(a[0]), s))
		}
		return mkBool(e.hasPrefixR(e.rope(a[0]), e.rope(a[1])))
	})
	both("HasSuffix", func(e *Exec, a []Value) Value {
		if s, ok := e.p.constStr(e.rope(a[1])); ok {
			return mkBool(e.p.hasSuffix(e.rope(a[0]), s))
		}
		return mkBool(e.hasSuffixR(e.rope(a[0]), e.rope(a[1])))
	})
	both("TrimPrefix", func(e *Exec, a []Value) Value {
		pat := e.rope(a[1])
		if e.hasPrefixR(e.rope(a[0]), pat) {
			_, t := e.p.cut(e.rope(a[0]), e.p.lenR(pat))
			return e.slicePart(a[0], pat, t)
		}
		return a[0]
	})
	both("TrimSuffix", func(e *Exec, a []Value) Value {
		pat := e.rope(a[1])
		if e.hasSuffixR(e.rope(a[0]), pat) {
			r := e.rope(a[0])
			h, _ := e.p.cut(r, e.p.norm(e.p.lenR(r).sub(e.p.lenR(pat))))
			return e.slicePart(a[0], nil, h)
		}
		return a[0]
	})
	both("TrimRight", func(e *Exec, a []Value) Value {
		s := e.constBytesArg(a[1], "TrimRight")
		if !asciiOnly(s) {
			unsupported("TrimRight non-ASCII")
		}
		k, _ := e.p.trimRight(e.rope(a[0]), csOf(s))
		return e.slicePart(a[0], nil, k)
	})
	both("TrimLeft", func(e *Exec, a []Value) Value {
		s := e.constBytesArg(a[1], "TrimLeft")
		if !asciiOnly(s) {
			unsupported("TrimLeft non-ASCII")
		}
		pre, k := e.p.trimLeft(e.rope(a[0]), csOf(s))
		return e.slicePart(a[0], pre, k)
	})
	both("Trim", func(e *Exec, a []Value) Value {
		s := e.constBytesArg(a[1], "Trim")
		if !asciiOnly(s) {
			unsupported("Trim non-ASCII")
		}
		pre, k := e.p.trimLeft(e.rope(a[0]), csOf(s))
		k, _ = e.p.trimRight(k, csOf(s))
		return e.slicePart(a[0], pre, k)
	})
	both("TrimSpace", func(e *Exec, a []Value) Value {
		l, k, _ := e.p.trimSpace(e.rope(a[0]))
		if len(e.p.normR(k)) == 0 {
			if _, ok := a[0].(VSlice); ok {
				return VSlice{off: cI(0), len: cI(0), cap: cI(0)}
			}
		}
		return e.slicePart(a[0], l, k)
	})
	both("Split", func(e *Exec, a []Value) Value { return e.splitN(a[0], e.constBytesArg(a[1], "Split"), -1, false) })
	both("SplitN", func(e *Exec, a []Value) Value {
		n := e.intv(a[2])
		if !n.isConst() {
			unsupported("SplitN with symbolic count")
		}
		return e.splitN(a[0], e.constBytesArg(a[1], "SplitN"), n.cint(), false)
	})
	both("Cut", func(e *Exec, a []Value) Value {
		sep := e.constBytesArg(a[1], "Cut")
		f, pre, rest := e.p.findSub(e.rope(a[0]), sep)
		if !f {
			z := Value(mkStr(""))
			if _, ok := a[0].(VSlice); ok {
				z = VSlice{off: cI(0), len: cI(0), cap: cI(0)}
			}
			return tup(a[0], z, mkBool(false))
		}
		_, t := e.p.cut(rest, cI(int64(len(sep))))
		return tup(e.slicePart(a[0], nil, pre), e.slicePart(a[0], cat(pre, litR(sep)), t), mkBool(true))
	})
	both("Count", func(e *Exec, a []Value) Value { return e.count(e.rope(a[0]), e.constBytesArg(a[1], "Count")) })
	both("Join", func(e *Exec, a []Value) Value {
		el, ok := e.elems(a[0])
		if !ok {
			unsupported("Join of symbolic list")
		}
		var out Rope
		for i, x := range el {
			if i > 0 {
				out = cat(out, e.rope(a[1]))
			}
			out = cat(out, e.rope(x))
		}
		return e.likeArg(a[1], out)
	})
	both("Repeat", func(e *Exec, a []Value) Value {
		n := e.intv(a[1])
		if n.isConst() && n.cint() < 10000 {
			var out Rope
			for i := int64(0); i < n.cint(); i++ {
				out = cat(out, e.rope(a[0]))
			}
			return e.likeArg(a[0], out)
		}
		unsupported("Repeat with symbolic count")
		return nil
	})
	repl := func(e *Exec, s Value, old, nw string, n int64) Value {
		if n >= 0 {
			// n replacements
			r := e.rope(s)
			var out Rope
			for i := int64(0); i < n; i++ {
				f, pre, rest := e.p.findSub(r, old)
				if !f {
					break
				}
				_, t := e.p.cut(rest, cI(int64(len(old))))
				out = cat(out, pre, litR(nw))
				r = t
			}
			return e.likeArg(s, cat(out, e.p.normR(r)))
		}
		return e.likeArg(s, e.replaceTokens(e.rope(s), fmt.Sprintf("replace(%q,%q)", old, nw), []string{old}, func(x string) string { return strings.Replace(x, old, nw, -1) }))
	}
	both("Replace", func(e *Exec, a []Value) Value {
		return repl(e, a[0], e.constBytesArg(a[1], "Replace"), e.constBytesArg(a[2], "Replace"), e.intv(a[3]).cint())
	})
	both("ReplaceAll", func(e *Exec, a []Value) Value {
		return repl(e, a[0], e.constBytesArg(a[1], "Replace"), e.constBytesArg(a[2], "Replace"), -1)
	})
	both("ToLower", func(e *Exec, a []Value) Value { return e.likeArg(a[0], e.caseMap(e.rope(a[0]), false)) })
	both("ToUpper", func(e *Exec, a []Value) Value { return e.likeArg(a[0], e.caseMap(e.rope(a[0]), true)) })
	both("EqualFold", func(e *Exec, a []Value) Value {
		x, y := e.p.normR(e.rope(a[0])), e.p.normR(e.rope(a[1]))
		if e.p.eqR(x, y) {
			return mkBool(true)
		}
		if e.p.csOfRope(x).or(e.p.csOfRope(y)).and(csHigh()).empty() {
			return mkBool(e.p.eqR(e.caseMap(x, false), e.caseMap(y, false)))
		}
		if s, ok := e.p.constStr(y); ok && asciiOnly(s) {
			return mkBool(e.equalFold(x, s))
		}
		if s, ok := e.p.constStr(x); ok && asciiOnly(s) {
			return mkBool(e.equalFold(y, s))
		}
		return VBAt{&BAtom{name: "eqfold"}}
	})
	both("IndexFunc", func(e *Exec, a []Value) Value {
		cs := e.runeSet(a[1])
		// runes above ASCII: undecided, approximated by the predicate being unknown there
		r := e.rope(a[0])
		f, pre, _ := e.p.findSet(r, cs.or(csHigh()))
		if !f {
			return mkInt(-1)
		}
		_, rest := e.p.cut(r, e.p.lenR(pre))
		b, _, _ := e.p.uncons(rest)
		if e.p.decideIn(b, csHigh()) {
			rn, _, _ := e.decodeRune(rest)
			if e.truth(e.callValue(a[1], []Value{VInt{rn}}, nil)) {
				return e.idxRes(true, pre)
			}
			// later position or none
			e.p.note("IndexFunc beyond a non-ASCII rune")
			if e.p.branch(2, nil) == 0 {
				return mkInt(-1)
			}
			n := e.p.newInt("idxf", bi0, maxLen)
			if !e.p.decideLe(e.p.lenR(pre).addc(1).sub(n)) || !e.p.decideLe(n.addc(1).sub(e.p.lenR(r))) {
				e.p.kill("index")
			}
			return VInt{e.p.norm(n)}
		}
		return e.idxRes(true, pre)
	})
	both("Map", func(e *Exec, a []Value) Value {
		// ASCII mapping; other runes must map to themselves for the model to apply
		s := a[1]
		var img [256]string
		for c := 0; c < 256; c++ {
			img[c] = string([]byte{byte(c)})
		}
		for c := 0; c < 128; c++ {
			v := e.intv(e.callValue(a[0], []Value{mkInt(int64(c))}, nil))
			if !v.isConst() {
				unsupported("bytes.Map with symbolic mapping")
			}
			if v.cint() < 0 {
				img[c] = ""
			} else {
				img[c] = string(rune(v.cint()))
			}
		}
		r := e.rope(s)
		if !e.p.csOfRope(r).and(csHigh()).empty() {
			if f, _, _ := e.p.findSet(r, csHigh()); f {
				n := e.p.newInt("map", bi0, maxLen)
				e.p.note("abstract Map of non-ASCII text")
				return e.likeArg(s, e.ufStr("Map", n, e.p.normR(r)))
			}
		}
		return e.likeArg(s, e.p.homR(e.eng.hom("map", img), e.p.normR(r)))
	})
	I("bytes.Equal", func(e *Exec, a []Value, _ *ssa.Function) Value { return mkBool(e.p.eqR(e.rope(a[0]), e.rope(a[1]))) })
	I("bytes.Compare", func(e *Exec, a []Value, _ *ssa.Function) Value {
		if e.p.eqR(e.rope(a[0]), e.rope(a[1])) {
			return mkInt(0)
		}
		if e.p.branch(2, nil) == 0 {
			return mkInt(-1)
		}
		return mkInt(1)
	})
	I("bytes.Clone", func(e *Exec, a []Value, _ *ssa.Function) Value {
		if a[0].(VSlice).obj == nil {
			return a[0]
		}
		return e.newBytes(e.rope(a[0]))
	})
	I("strings.Clone", func(e *Exec, a []Value, _ *ssa.Function) Value { return a[0] })
	I("bytes.NewBuffer", func(e *Exec, a []Value, _ *ssa.Function) Value {
		o := e.newObj(nil, bufVal(a[0].(VSlice)))
		o.typ = e.eng.stdType("bytes", "Buffer")
		return VPtr{obj: o}
	})
	I("bytes.NewBufferString", func(e *Exec, a []Value, _ *ssa.Function) Value {
		o := e.newObj(nil, bufVal(e.newBytes(a[0].(VStr).r)))
		o.typ = e.eng.stdType("bytes", "Buffer")
		return VPtr{obj: o}
	})
	for _, ty := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		B := func(n string, f func(e *Exec, pt VPtr, a []Value) Value) {
			I(ty+"."+n, func(e *Exec, a []Value, _ *ssa.Function) Value { return f(e, e.ptr(a[0]), a[1:]) })
		}
		B("Write", func(e *Exec, pt VPtr, a []Value) Value {
			r := e.rope(a[0])
			e.bufAppend(pt, r)
			return tup(VInt{e.p.lenR(r)}, VIface{})
		})
		B("WriteString", func(e *Exec, pt VPtr, a []Value) Value {
			r := e.rope(a[0])
			e.bufAppend(pt, r)
			return tup(VInt{e.p.lenR(r)}, VIface{})
		})
		B("WriteByte", func(e *Exec, pt VPtr, a []Value) Value {
			e.bufAppend(pt, byteR(e.intv(a[0])))
			return VIface{}
		})
		B("WriteRune", func(e *Exec, pt VPtr, a []Value) Value {
			l := e.intv(a[0])
			if l.isConst() {
				s := string(rune(l.cint()))
				e.bufAppend(pt, litR(s))
				return tup(mkInt(int64(len(s))), VIface{})
			}
			if e.p.decideLe(l.addc(-127)) && e.p.decideLe(l.neg()) {
				e.bufAppend(pt, byteR(e.p.norm(l)))
				return tup(mkInt(1), VIface{})
			}
			s := e.convert(VInt{l}, types.Typ[types.Rune], types.Typ[types.String]).(VStr)
			e.bufAppend(pt, s.r)
			return tup(VInt{e.p.lenR(s.r)}, VIface{})
		})
		B("Len", func(e *Exec, pt VPtr, a []Value) Value { return VInt{e.p.norm(e.bufSlice(pt).len)} })
		B("Cap", func(e *Exec, pt VPtr, a []Value) Value { return VInt{e.p.norm(e.bufSlice(pt).cap)} })
		B("String", func(e *Exec, pt VPtr, a []Value) Value {
			if pt.obj == nil {
				return mkStr("<nil>")
			}
			return VStr{e.bufContent(pt)}
		})
		B("Bytes", func(e *Exec, pt VPtr, a []Value) Value { return e.bufSlice(pt) })
		B("Grow", func(e *Exec, pt VPtr, a []Value) Value {
			if !e.p.decideLe(e.intv(a[0]).neg()) {
				e.goPanic("negative Grow", "")
			}
			return VTuple{}
		})
		B("Reset", func(e *Exec, pt VPtr, a []Value) Value {
			e.bufReset(pt, cI(0))
			return VTuple{}
		})
		B("Truncate", func(e *Exec, pt VPtr, a []Value) Value {
			n := e.intv(a[0])
			s := e.bufSlice(pt)
			if !e.p.decideLe(n.neg()) || !e.p.decideLe(n.sub(s.len)) {
				e.goPanic("Truncate out of range", "")
			}
			e.bufReset(pt, e.p.norm(n))
			return VTuple{}
		})
		B("Next", func(e *Exec, pt VPtr, a []Value) Value {
			n := e.intv(a[0])
			s := e.bufSlice(pt)
			if e.p.decideLe(s.len.sub(n)) {
				n = e.p.norm(s.len)
			}
			z := cI(0)
			e.bufSet(pt, e.sliceVal(s, &n, nil, nil).(VSlice))
			return e.sliceVal(s, &z, &n, nil)
		})
		B("ReadByte", func(e *Exec, pt VPtr, a []Value) Value {
			s := e.bufSlice(pt)
			if e.p.decideLe(s.len) {
				return tup(mkInt(0), e.stdErr("io.EOF"))
			}
			b := e.p.at(e.bytesOf(s), cI(0))
			one := cI(1)
			e.bufSet(pt, e.sliceVal(e.bufSlice(pt), &one, nil, nil).(VSlice))
			return tup(VInt{b}, VIface{})
		})
		B("Read", func(e *Exec, pt VPtr, a []Value) Value {
			s := e.bufSlice(pt)
			d := a[0].(VSlice)
			if e.p.decideLe(s.len) {
				if e.p.decideLe(d.len) {
					return tup(mkInt(0), VIface{})
				}
				return tup(mkInt(0), e.stdErr("io.EOF"))
			}
			n := e.intv(e.copyB(d, s))
			e.bufSet(pt, e.sliceVal(e.bufSlice(pt), &n, nil, nil).(VSlice))
			return tup(VInt{n}, VIface{})
		})
		B("WriteTo", func(e *Exec, pt VPtr, a []Value) Value {
			s := e.bufSlice(pt)
			if e.p.decideLe(s.len) {
				return tup(mkInt(0), VIface{})
			}
			w := a[0].(VIface)
			r := e.invoke(w, "Write", []Value{s}).(VTuple)
			n := e.intv(r.v[0])
			e.bufSet(pt, e.sliceVal(e.bufSlice(pt), &n, nil, nil).(VSlice))
			return tup(VInt{n}, r.v[1])
		})
	}

	// strconv
	I("strconv.Itoa", func(e *Exec, a []Value, _ *ssa.Function) Value { return VStr{e.dec(e.intv(a[0]))} })
	fi := func(e *Exec, a []Value, _ *ssa.Function) Value {
		b := e.intv(a[1])
		if b.isConst() && b.cint() == 10 {
			return VStr{e.dec(e.intv(a[0]))}
		}
		l := e.intv(a[0])
		if l.isConst() {
			return mkStr(l.c.Text(int(b.cint())))
		}
		n := e.p.newInt("fmtint", bi1, big.NewInt(65))
		return VStr{varR(e.p.newStrLen("fmtint", csOf("0123456789abcdefghijklmnopqrstuvwxyz-"), n))}
	}
	I("strconv.FormatInt", fi)
	I("strconv.FormatUint", fi)
	ai := func(e *Exec, a []Value, fn *ssa.Function) Value {
		r := fi(e, []Value{a[1], a[2]}, fn).(VStr)
		return e.appendT(a[0].(VSlice), e.newBytes(r.r), types.Typ[types.Uint8], e.p)
	}
	I("strconv.AppendInt", ai)
	I("strconv.AppendUint", ai)
	pi := func(signed bool) intrFn {
		return func(e *Exec, a []Value, _ *ssa.Function) Value {
			b, bits := e.intv(a[1]), e.intv(a[2])
			if !b.isConst() || b.cint() != 10 || !bits.isConst() {
				if s, ok := e.p.constStr(a[0].(VStr).r); ok && b.isConst() && bits.isConst() {
					if signed {
						v, err := strconv.ParseInt(s, int(b.cint()), int(bits.cint()))
						if err != nil {
							return tup(mkInt(v), e.opaqueErr("strconv"))
						}
						return tup(mkInt(v), VIface{})
					}
				}
				lo, hi := typeRange(types.Typ[types.Int64])
				if !signed {
					lo, hi = typeRange(types.Typ[types.Uint64])
				}
				if e.p.branch(2, nil) == 0 {
					return tup(mkInt(0), e.opaqueErr("strconv"))
				}
				e.p.note("abstract ParseInt")
				return tup(VInt{e.p.newInt("parse", lo, hi)}, VIface{})
			}
			n := uint(bits.cint())
			if n == 0 {
				n = 64
			}
			v, err, _ := e.parseInt(a[0].(VStr).r, signed, n)
			return tup(VInt{v}, err)
		}
	}
	I("strconv.ParseInt", pi(true))
	I("strconv.ParseUint", pi(false))
	I("strconv.Atoi", func(e *Exec, a []Value, _ *ssa.Function) Value {
		v, err, _ := e.parseInt(a[0].(VStr).r, true, 64)
		return tup(VInt{v}, err)
	})
	I("strconv.ParseFloat", func(e *Exec, a []Value, _ *ssa.Function) Value {
		r := e.p.normR(a[0].(VStr).r)
		if s, ok := e.p.constStr(r); ok {
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return tup(VFlt{known: true, f: f}, e.opaqueErr("strconv"))
			}
			return tup(VFlt{known: true, f: f}, VIface{})
		}
		if e.p.csOfRope(r).subset(csOf("0123456789+-")) {
			// an integer with an optional sign
			_, rest, ok := e.p.unconsIf(r, csOf("+-"))
			if !ok {
				rest = r
			}
			if rest = e.p.normR(rest); e.p.isEmpty(rest) || !e.p.ropeIn(rest, csOf("0123456789")) {
				return tup(VFlt{known: true}, numErr(e, "syntax"))
			}
		} else if e.p.branch(2, nil) == 0 {
			return tup(VFlt{known: true}, numErr(e, "syntax"))
		}
		f := e.freshFlt().(VFlt)
		f.src = r
		return tup(f, VIface{})
	})
	I("strconv.ParseBool", func(e *Exec, a []Value, _ *ssa.Function) Value {
		for _, s := range []string{"1", "t", "T", "true", "TRUE", "True"} {
			if e.p.eqR(a[0].(VStr).r, litR(s)) {
				return tup(mkBool(true), VIface{})
			}
		}
		for _, s := range []string{"0", "f", "F", "false", "FALSE", "False"} {
			if e.p.eqR(a[0].(VStr).r, litR(s)) {
				return tup(mkBool(false), VIface{})
			}
		}
		return tup(mkBool(false), e.opaqueErr("strconv"))
	})
	I("html.UnescapeString", func(e *Exec, a []Value, _ *ssa.Function) Value { return VStr{e.htmlUnescape(a[0].(VStr).r)} })

	// utf8, unicode
	valid := func(e *Exec, a []Value, _ *ssa.Function) Value { return e.utf8Valid(e.rope(a[0])) }
	I("unicode/utf8.Valid", valid)
	I("unicode/utf8.ValidString", valid)
	dr := func(e *Exec, a []Value, _ *ssa.Function) Value {
		r := e.rope(a[0])
		if e.p.isEmpty(r) {
			return tup(mkInt(utf8.RuneError), mkInt(0))
		}
		rn, sz, _ := e.decodeRune(e.p.normR(r))
		return tup(VInt{rn}, VInt{sz})
	}
	I("unicode/utf8.DecodeRune", dr)
	I("unicode/utf8.DecodeRuneInString", dr)
	I("unicode/utf8.RuneLen", func(e *Exec, a []Value, _ *ssa.Function) Value {
		l := e.intv(a[0])
		if l.isConst() {
			return mkInt(int64(utf8.RuneLen(rune(l.cint()))))
		}
		if e.p.decideLe(l.addc(-127)) && e.p.decideLe(l.neg()) {
			return mkInt(1)
		}
		return VInt{e.p.newInt("runelen", big.NewInt(-1), big.NewInt(4))}
	})
	pred := func(n string, f func(c byte) bool) {
		var cs CS
		for c := 0; c < 128; c++ {
			if f(byte(c)) {
				cs.add(byte(c))
			}
		}
		I(n, func(e *Exec, a []Value, _ *ssa.Function) Value {
			l := e.intv(a[0])
			if !e.p.decideLe(l.addc(-127)) || !e.p.decideLe(l.neg()) {
				return VBAt{&BAtom{name: n}}
			}
			for _, r := range cs.ranges() {
				if e.p.decideLe(cI(int64(r[0])).sub(e.p.norm(l))) && e.p.decideLe(e.p.norm(l).addc(int64(-r[1]))) {
					return mkBool(true)
				}
			}
			return mkBool(false)
		})
	}
	pred("unicode.IsSpace", func(c byte) bool { return csSpace.has(c) })
	pred("unicode.IsDigit", func(c byte) bool { return c >= '0' && c <= '9' })
	pred("unicode.IsNumber", func(c byte) bool { return c >= '0' && c <= '9' })
	pred("unicode.IsUpper", func(c byte) bool { return c >= 'A' && c <= 'Z' })
	pred("unicode.IsLower", func(c byte) bool { return c >= 'a' && c <= 'z' })
	pred("unicode.IsLetter", func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' })
	pred("unicode.IsControl", func(c byte) bool { return c < 32 || c == 127 })
	pred("unicode.IsPrint", func(c byte) bool { return c >= 32 && c < 127 })

	// errors, fmt
	coder := func(bytes bool) func(e *Exec, a []Value, _ *ssa.Function) Value {
		return func(e *Exec, a []Value, _ *ssa.Function) Value {
			if e.ptr(a[0]).obj == nil {
				e.goPanic("nil dereference", "")
			}
			if st, ok := e.load(e.ptr(a[0])).(VStruct); ok {
				// a coder of the specification
				if t, ok := st.f[0].(VIface); ok && t.t != nil && e.eng.prog.LookupMethod(t.t, nil, "VConvert") != nil {
					r := e.invoke(t, "VConvert", []Value{VStr{e.bytesOf(a[1])}}).(VTuple)
					if r.v[1].(VIface).t != nil {
						if bytes {
							return VTuple{[]Value{VSlice{off: cI(0), len: cI(0), cap: cI(0)}, r.v[1]}}
						}
						return VTuple{[]Value{mkStr(""), r.v[1]}}
					}
					if bytes {
						return VTuple{[]Value{e.newBytes(e.bytesOf(r.v[0])), VIface{}}}
					}
					return VTuple{[]Value{r.v[0], VIface{}}}
				}
			}
			e.p.note("text encoding")
			r := varR(e.p.newStr("coded", csAll))
			if e.p.branch(2, nil) == 0 {
				if bytes {
					return VTuple{[]Value{e.newBytes(r), VIface{}}}
				}
				return VTuple{[]Value{VStr{r}, VIface{}}}
			}
			er := e.opaqueErr("text encoding")
			if bytes {
				return VTuple{[]Value{VSlice{off: cI(0), len: cI(0), cap: cI(0)}, er}}
			}
			return VTuple{[]Value{mkStr(""), er}}
		}
	}
	I("(*golang.org/x/text/encoding.Decoder).Bytes", coder(true))
	I("(*golang.org/x/text/encoding.Decoder).String", coder(false))
	I("(*golang.org/x/text/encoding.Encoder).Bytes", coder(true))
	I("(*golang.org/x/text/encoding.Encoder).String", coder(false))
	I("errors.New", func(e *Exec, a []Value, _ *ssa.Function) Value {
		v := e.opaqueErr("errors.New").(VIface)
		o := v.v.(VOpaque)
		o.d = e.rope(a[0])
		v.v = o
		return v
	})
	I("fmt.Errorf", func(e *Exec, a []Value, _ *ssa.Function) Value {
		er := e.opaqueErr("fmt.Errorf").(VIface)
		if f, ok := e.p.constStr(a[0].(VStr).r); ok && strings.Contains(f, "%w") {
			o := er.v.(VOpaque)
			if el, ok := e.elems(a[1]); ok {
				o.d = el
			}
			er.v = o
		}
		return er
	})
	I("errors.Is", func(e *Exec, a []Value, _ *ssa.Function) Value { return mkBool(e.errIs(a[0], a[1], 0)) })
	I("errors.Unwrap", func(e *Exec, a []Value, _ *ssa.Function) Value { return VIface{} })
	I("fmt.Sprintf", func(e *Exec, a []Value, _ *ssa.Function) Value { return VStr{e.sprintf(a[0], a[1])} })
	I("fmt.Sprint", func(e *Exec, a []Value, _ *ssa.Function) Value { return VStr{varR(e.p.newStr("sprint", csAll))} })
	I("fmt.Fprintf", func(e *Exec, a []Value, _ *ssa.Function) Value {
		r := e.sprintf(a[1], a[2])
		return e.invoke(a[0].(VIface), "Write", []Value{e.newBytes(r)})
	})

	// sync
	nop := func(e *Exec, a []Value, _ *ssa.Function) Value { return VTuple{} }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		I(n, nop)
	}
	I("(*sync/atomic.Value).Load", func(e *Exec, a []Value, _ *ssa.Function) Value {
		return e.load(VPtr{obj: e.ptr(a[0]).obj, path: append(append([]int(nil), e.ptr(a[0]).path...), 0)})
	})
	I("(*sync/atomic.Value).Store", func(e *Exec, a []Value, _ *ssa.Function) Value {
		e.store(VPtr{obj: e.ptr(a[0]).obj, path: append(append([]int(nil), e.ptr(a[0]).path...), 0)}, a[1])
		return VTuple{}
	})
	I("sort.Strings", func(e *Exec, a []Value, _ *ssa.Function) Value {
		s := a[0].(VSlice)
		el, ok := e.elems(s)
		if !ok {
			unsupported("sort of symbolic list")
		}
		el = append([]Value(nil), el...)
		for i := range el {
			for j := i; j > 0 && e.p.strLess(el[j].(VStr).r, el[j-1].(VStr).r); j-- {
				el[j], el[j-1] = el[j-1], el[j]
			}
		}
		for i, x := range el {
			e.store(VPtr{obj: s.obj, path: append(append([]int(nil), s.path...), int(e.p.norm(s.off).cint())+i)}, x)
		}
		return VTuple{}
	})
	// strings.Replacer
	I("strings.NewReplacer", func(e *Exec, a []Value, _ *ssa.Function) Value {
		el, _ := e.elems(a[0])
		var ss []string
		for _, x := range el {
			ss = append(ss, e.cstr(x))
		}
		o := e.newObj(nil, VOpaque{kind: "replacer", id: 1, d: ss})
		return VPtr{obj: o}
	})
	I("(*strings.Replacer).Replace", func(e *Exec, a []Value, _ *ssa.Function) Value {
		return VStr{e.replacer(e.ptr(a[0]), a[1].(VStr).r)}
	})
	I("(*strings.Replacer).WriteString", func(e *Exec, a []Value, _ *ssa.Function) Value {
		r := e.replacer(e.ptr(a[0]), a[2].(VStr).r)
		return e.invoke(a[1].(VIface), "Write", []Value{e.newBytes(r)})
	})
	I("math.Round", func(e *Exec, a []Value, _ *ssa.Function) Value {
		f := a[0].(VFlt)
		if f.known {
			return VFlt{known: true, f: roundf(f.f)}
		}
		return e.freshFlt()
	})
}

func roundf(f float64) float64 {
	if f < 0 {
		return -float64(int64(-f + 0.5))
	}
	return float64(int64(f + 0.5))
}

func (e *Exec) errIs(a, b Value, d int) bool {
	x, y := a.(VIface), b.(VIface)
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if types.Identical(x.t, y.t) && types.Comparable(x.t) && e.equal(x.v, y.v) {
		return true
	}
	if o, ok := x.v.(VOpaque); ok && d < 8 {
		if el, ok := o.d.([]Value); ok {
			for _, w := range el {
				if wi, ok := w.(VIface); ok && wi.t != nil && (isOpaqueType(wi.t) || e.hasMethod(wi.t, "Error")) && e.errIs(wi, b, d+1) {
					return true
				}
			}
		}
		return false
	}
	if f := e.eng.prog.LookupMethod(x.t, nil, "Unwrap"); f != nil && d < 8 {
		return e.errIs(e.callFn(f, []Value{x.v}, nil, nil), b, d+1)
	}
	return false
}

func (e *Exec) replacer(pt VPtr, r Rope) Rope {
	if pt.obj == nil {
		e.goPanic("nil dereference", "")
	}
	ss := e.objVal(pt.obj).(VOpaque).d.([]string)
	rp := strings.NewReplacer(ss...)
	var olds []string
	for i := 0; i < len(ss); i += 2 {
		olds = append(olds, ss[i])
	}
	return e.replaceTokens(r, fmt.Sprintf("replacer%q", ss), olds, rp.Replace)
}

func (e *Exec) stdErr(name string) Value {
	return VIface{t: opaqueErrT, v: VOpaque{kind: "err", id: stdErrID(name), d: name}}
}

func (e *Exec) invoke(i VIface, method string, args []Value) Value {
	if i.t == nil {
		e.goPanic("nil dereference", "method call on nil interface")
	}
	if isOpaqueType(i.t) {
		n := i.t.(*types.Named).Obj().Name() + "." + method
		if f := opaqueMethods[n]; f != nil {
			return f(e, i.v.(VOpaque), args)
		}
		unsupported("method %s of opaque value", n)
	}
	f := e.eng.prog.LookupMethod(i.t, nil, method)
	if f == nil {
		unsupported("no method %s on %s", method, i.t)
	}
	return e.callFn(f, append([]Value{i.v}, args...), nil, nil)
}

// bufReset truncates the buffer to n bytes; the bytes beyond may be
// overwritten by later writes, so they become unknown to other holders.
func (e *Exec) bufReset(pt VPtr, n Lin) {
	s := e.bufSlice(pt)
	if s.obj != nil && !s.obj.ro {
		ln := e.p.norm(s.len.sub(n))
		if !ln.isZero() {
			e.writeBytes(s.obj, s.path, e.p.norm(s.off.add(n)), varR(e.p.newStrLen("overwritten", csAll, ln)))
		}
	}
	s = e.bufSlice(pt)
	e.bufSet(pt, VSlice{obj: s.obj, path: s.path, off: s.off, len: n, cap: s.cap})
}

func (e *Exec) lastIndex(r Rope, pat string) Value {
	p := e.p
	base := cI(0)
	last := mkInt(-1)
	forks := 0
	for {
		t0 := e.forkCount()
		f, pre, rest := p.findSub(r, pat)
		if !f {
			return last
		}
		if e.forkCount() != t0 {
			forks++
		}
		if forks > splitMax {
			e.u.bound(fmt.Sprintf("at most %d occurrences followed by LastIndex", splitMax))
			p.kill("lastindex bound")
		}
		off := p.norm(base.add(p.lenR(pre)))
		last = VInt{off}
		_, r = p.cut(rest, cI(1))
		base = p.norm(off.addc(1))
	}
}

func (e *Exec) hasPrefixR(r, pat Rope) bool {
	p := e.p
	pat = p.normR(pat)
	if s, ok := p.constStr(pat); ok {
		return p.hasPrefix(r, s)
	}
	if !p.decideLe(p.lenR(pat).sub(p.lenR(r))) {
		return false
	}
	h, _ := p.cut(r, p.lenR(pat))
	return p.eqR(h, pat)
}
func (e *Exec) hasSuffixR(r, pat Rope) bool {
	p := e.p
	pat = p.normR(pat)
	if s, ok := p.constStr(pat); ok {
		return p.hasSuffix(r, s)
	}
	if !p.decideLe(p.lenR(pat).sub(p.lenR(r))) {
		return false
	}
	_, t := p.cut(r, p.norm(p.lenR(r).sub(p.lenR(pat))))
	return p.eqR(t, pat)
}

func (g *Engine) stdType(pkg, name string) types.Type {
	for _, sp := range g.prog.AllPackages() {
		if sp.Pkg.Path() == pkg {
			if t := sp.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	return nil
}
