package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

var DEBUG = 0

// sigPanic is a Go panic raised by the program under verification.
type sigPanic struct {
	kind string
	msg  string
	pos  string
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	fn         *ssa.Function
	regs       map[ssa.Value]Value
	renames    map[renameKey]*ssa.Alloc
	key        uint64
	calls      int
	allocs     int
	defers     []deferred
	iters      map[*ssa.BasicBlock]*iterState
	caller     *frame
	locals     map[*ssa.Alloc]*Obj
	results    []Value
	cut        map[*ssa.BasicBlock]bool
	inContract bool
	snap       map[*ssa.BasicBlock]map[string]Value
}

type iterState struct {
	n     int
	forks int
	forkN int
}

type loopCtx struct {
	fr     *frame
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	bornID int
	key    uint64
	dec    []Lin
	depth  int
	kept   []keptSlot
}

// Exec runs the program on one path.
type Exec struct {
	frame       *frameChk
	loose       bool // lists of unknown length are arbitrary
	p           *Path
	eng         *Engine
	u           *Unit
	hav         *havEnt
	havSub      []int
	havObj      *Obj
	havLoop     *loopCtx
	overlay     map[*Obj]Value
	overlayM    map[*Obj]*MapData
	byKey       map[uint64][]*Obj
	nobj        int
	loops       []*loopCtx
	forks       int
	depth       int
	cur         ssa.Instruction
	fr          *frame
	steps       int
	assumeMode  int
	checkLabel  string
	pureDepth   int
	useContract map[*ssa.Function]bool
	ghost       map[string]Value
	track       *trackObj
	initing     bool
	cstack      []*cctx
}

func hashKey(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return h.Sum64()
}

func newExec(u *Unit, p *Path) *Exec {
	base := 0
	if u.eng.baseExec != nil {
		base = u.eng.baseExec.nobj
	}
	return &Exec{nobj: base, p: p, eng: u.eng, u: u, overlay: map[*Obj]Value{}, overlayM: map[*Obj]*MapData{}, byKey: map[uint64][]*Obj{},
		ghost: map[string]Value{}}
}

func (e *Exec) pos() string {
	if e.cur == nil {
		return "?"
	}
	for i := e.cur; i != nil; {
		if i.Pos().IsValid() {
			return e.eng.posStr(i.Pos())
		}
		break
	}
	if e.fr != nil {
		// nearest positioned instruction in block
		b := e.cur.Block()
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return e.eng.posStr(i.Pos()) + "~"
			}
		}
		return e.fr.fn.String()
	}
	return "?"
}

var _ = token.ADD

func (e *Exec) newObj(t types.Type, v Value) *Obj {
	e.nobj++
	o := &Obj{id: e.nobj, typ: t, val: v}
	if e.fr != nil {
		e.fr.allocs++
		o.key = ""
		site := token.NoPos
		if e.cur != nil {
			site = e.cur.Pos()
		}
		k := hashKey(e.fr.key, ":", e.fr.allocs, ":", int(site))
		o.born = e.nobj
		e.byKey[k] = append(e.byKey[k], o)
		o.key = fmt.Sprintf("%x", k)
	}
	o.base = e.initing
	return o
}

func (e *Exec) objVal(o *Obj) Value {
	if o.poison {
		unsupported("use of a pointer from an earlier iteration")
	}
	if o.base && !e.initing {
		if v, ok := e.overlay[o]; ok {
			return v
		}
	}
	return o.val
}
func (e *Exec) setObjVal(o *Obj, v Value) {
	if o.base && !e.initing {
		e.overlay[o] = v
		return
	}
	o.val = v
}
func (e *Exec) mapData(o *Obj) *MapData {
	if o.base && !e.initing {
		if v, ok := e.overlayM[o]; ok {
			return v
		}
	}
	return o.mp
}
func (e *Exec) setMapData(o *Obj, m *MapData) {
	if o.base && !e.initing {
		e.overlayM[o] = m
		return
	}
	o.mp = m
}

func getPath(v Value, path []int) Value {
	for _, i := range path {
		switch x := v.(type) {
		case VStruct:
			v = x.f[i]
		case VArr:
			v = x.e[i]
		default:
			unsupported("path into %T", v)
		}
	}
	return v
}
func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case VStruct:
		f := append([]Value(nil), x.f...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return VStruct{f}
	case VArr:
		f := append([]Value(nil), x.e...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return VArr{f}
	}
	unsupported("path into %T", v)
	return nil
}

func (e *Exec) load(pt VPtr) Value {
	if pt.obj == nil {
		e.goPanic("nil dereference", "")
	}
	if pt.sidx != nil {
		return e.symGet(pt.obj.sym, *pt.sidx)
	}
	v := getPath(e.objVal(pt.obj), pt.path)
	if t := e.track; t != nil && t.obj == pt.obj && !t.off && !t.has(v, pt.path) {
		t.read = true
	}
	if pt.idx != nil {
		switch x := v.(type) {
		case VBytes:
			if pt.txt {
				return VStr{e.p.sub(x.r, *pt.idx, e.p.norm(pt.idx.addc(pt.k)))}
			}
			if pt.k > 0 {
				return VBytes{e.p.sub(x.r, *pt.idx, e.p.norm(pt.idx.addc(pt.k)))}
			}
			return VInt{e.p.at(x.r, *pt.idx)}
		case VArr:
			return e.arrAt(x, *pt.idx)
		}
		unsupported("indexed load of %T", v)
	}
	return v
}

// trackObj follows which parts of a value were certainly assigned.
type trackObj struct {
	obj  *Obj
	done map[string]bool
	read bool // some part was used before it was assigned
	off  bool
}

// has: every part of the value v at path was assigned.
func (t *trackObj) has(v Value, path []int) bool {
	for i := 0; i <= len(path); i++ {
		if t.done[fmt.Sprint(path[:i])] {
			return true
		}
	}
	if s, ok := v.(VStruct); ok && len(s.f) > 0 {
		for i := range s.f {
			if !t.has(s.f[i], append(append([]int(nil), path...), i)) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Exec) arrAt(x VArr, idx Lin) Value {
	idx = e.p.norm(idx)
	if idx.isConst() {
		n := idx.cint()
		if n < 0 || n >= int64(len(x.e)) {
			e.goPanic("index out of range", "")
		}
		return x.e[n]
	}
	// group by distinct value when indexed by a byte
	if a, ok := e.p.isByteLin(idx); ok && len(x.e) >= 256 {
		cs := e.p.bcs[a]
		groups := map[string]CS{}
		vals := map[string]Value{}
		for _, b := range cs.list() {
			k := e.concKey(x.e[b])
			g := groups[k]
			g.add(b)
			groups[k] = g
			vals[k] = x.e[b]
		}
		ks := sortedKeys(groups)
		for i, k := range ks {
			if i == len(ks)-1 || e.p.decideIn(idx, groups[k]) {
				return vals[k]
			}
		}
	}
	for i := 0; i < len(x.e)-1; i++ {
		if e.p.decideEq(idx.addc(int64(-i))) {
			return x.e[i]
		}
	}
	e.p.assumeEq0(e.p.norm(idx.addc(int64(-(len(x.e) - 1)))))
	return x.e[len(x.e)-1]
}

// concKey renders a value canonically.
func (e *Exec) concKey(v Value) string {
	switch x := v.(type) {
	case VInt:
		return "i" + e.p.norm(x.l).key()
	case VBool:
		return fmt.Sprint(x.b)
	case VStr:
		return "s" + ropeKey(e.p.normR(x.r))
	case VBytes:
		return "B" + ropeKey(e.p.normR(x.r))
	case VStruct:
		s := "{"
		for _, f := range x.f {
			s += e.concKey(f) + ","
		}
		return s + "}"
	case VArr:
		s := "["
		for _, f := range x.e {
			s += e.concKey(f) + ","
		}
		return s + "]"
	case VPtr:
		if x.obj == nil {
			return "nil"
		}
		s := fmt.Sprintf("p%d%v", x.obj.id, x.path)
		if x.idx != nil {
			s += "@" + e.p.norm(*x.idx).key()
		}
		return s
	case VIface:
		if x.t == nil {
			return "nilif"
		}
		return "if:" + typeName(x.t) + ":" + e.concKey(x.v)
	case VOpaque:
		if x.kind == "rtype" {
			return "rt" + types.TypeString(x.d.(types.Type), nil)
		}
		return fmt.Sprintf("op%s%d", x.kind, x.id)
	case VFunc:
		if x.fn != nil {
			s := "fn" + x.fn.String()
			for _, b := range x.binds {
				s += ";" + e.concKey(b)
			}
			return s
		}
		return "fn" + x.name
	case VSlice:
		if x.obj == nil {
			return "nilsl"
		}
		return fmt.Sprintf("sl%d%v:%s:%s", x.obj.id, x.path, e.p.norm(x.off).key(), e.p.norm(x.len).key())
	case VMap:
		if x.obj == nil {
			return "nilmap"
		}
		return fmt.Sprintf("m%d", x.obj.id)
	}
	if f, ok := v.(VFlt); ok && f.known {
		return fmt.Sprint("f", f.f)
	}
	e.nobj++
	return fmt.Sprintf("?%T%d", v, e.nobj)
}

func (e *Exec) noteWrite(o *Obj, path []int) {
	if o.ro {
		unsupported("write through a havocked slice")
	}
	if f := e.frame; f != nil && (o.id <= f.born || o.base) && !f.covers(o, path) {
		e.u.obligation("frame", "frame", e.pos())
		if !e.p.stillFeasible() {
			e.p.kill("infeasible")
		}
		e.u.fail(e, "frame", "frame", "the function writes what its contract does not list", e.pos())
		panic(sigFail{})
	}
	for _, lc := range e.loops {
		if (o.id <= lc.bornID && !o.base) || o.base {
			hs := e.u.havoc[lc.key]
			k := havKey{o.key, fmt.Sprint(path)}
			if o.base {
				k.obj = fmt.Sprintf("base%d", o.id)
			}
			covered := false
			for i := 0; i <= len(path); i++ {
				if _, ok := hs[havKey{k.obj, fmt.Sprint(path[:i])}]; ok {
					covered = true
					break
				}
			}
			if !covered {
				if e.u.havoc[lc.key] == nil {
					e.u.havoc[lc.key] = map[havKey]*havEnt{}
				}
				e.u.havoc[lc.key][k] = &havEnt{path: append([]int(nil), path...), seq: len(e.u.havoc[lc.key]), base: baseOf(o)}
				if DEBUG > 1 {
					fmt.Printf("  havoc add loop %x obj %s path %v at %s (val %s)\n", lc.key, k.obj, path, e.pos(), e.showVal(getPath(e.objVal(o), path)))
				}
				panic(sigRestart{})
			}
		}
	}
}

func baseOf(o *Obj) *Obj {
	if o.base {
		return o
	}
	return nil
}

type havKey struct {
	obj  string
	path string
}
type havEnt struct {
	path []int
	seq  int
	base *Obj
	// slots below path whose slice does not keep its array around the loop
	moved map[string]bool
	// pointers a slot below path can hold at the loop head, by object key
	cands map[string][]ptrCand
	// lists of texts of one length, by slot: the length, or -1 if not
	pack map[string]int64
}

type ptrCand struct {
	obj  string // "" for nil, "new" for some object made by an earlier iteration
	path []int
	typ  types.Type
	dyn  types.Type // of an interface that holds the pointer
}

func candOf(x VPtr) ptrCand {
	if x.obj == nil {
		return ptrCand{}
	}
	k := x.obj.key
	if x.obj.base {
		unsupported("pointer to shared state carried around a loop")
	}
	return ptrCand{obj: k, path: x.path}
}

// keptSlot is a slot that was havocked under an assumption that must hold
// again when the loop head is reached.
type keptSlot struct {
	obj  *Obj
	path []int
	ent  *havEnt
	sub  string
	sl   *VSlice
}

func (e *Exec) store(pt VPtr, v Value) {
	if pt.obj == nil {
		e.goPanic("nil dereference", "")
	}
	if pt.sidx != nil {
		if e.loose || !pt.obj.ro {
			for _, lc := range e.loops {
				if pt.obj.id <= lc.bornID {
					unsupported("store into symbolic list in a loop")
				}
			}
			old, at := pt.obj.sym, *pt.sidx
			pt.obj.sym = newSym(old.n, func(e *Exec, idx Lin) Value {
				if e.p.decideEq(e.p.norm(idx.sub(at))) {
					return v
				}
				return e.symGet(old, idx)
			})
			return
		}
		unsupported("store into symbolic list")
	}
	e.noteWrite(pt.obj, pt.path)
	if t := e.track; t != nil && t.obj == pt.obj && !t.off && pt.idx == nil {
		t.done[fmt.Sprint(pt.path)] = true
	}
	cur := e.objVal(pt.obj)
	if pt.idx != nil {
		in := getPath(cur, pt.path)
		switch x := in.(type) {
		case VBytes:
			if pt.txt {
				t := e.p.normR(v.(VStr).r)
				if !e.p.provesEq(e.p.lenR(t).addc(-pt.k)) {
					unsupported("text of another length in a packed list")
				}
				v = VBytes{t}
			}
			if pt.k > 0 {
				l, r := e.p.cut(x.r, *pt.idx)
				_, rest := e.p.cut(r, cI(pt.k))
				v = VBytes{cat(e.p.normR(l), e.p.normR(v.(VBytes).r), e.p.normR(rest))}
				e.setObjVal(pt.obj, setPath(e.objVal(pt.obj), pt.path, v))
				return
			}
			b := v.(VInt)
			l, r := e.p.cut(x.r, *pt.idx)
			_, rest, ok := e.p.uncons(r)
			if !ok {
				e.p.kill("store past end")
			}
			v = VBytes{cat(e.p.normR(l), byteR(e.p.norm(b.l)), rest)}
			e.setObjVal(pt.obj, setPath(e.objVal(pt.obj), pt.path, v))
			return
		case VArr:
			idx := e.p.norm(*pt.idx)
			n := -1
			for i := range x.e {
				if e.p.decideEq(idx.addc(int64(-i))) {
					n = i
					break
				}
			}
			if n < 0 {
				e.p.kill("index")
			}
			e.setObjVal(pt.obj, setPath(cur, append(append([]int(nil), pt.path...), n), v))
			return
		}
		unsupported("indexed store into %T", in)
	}
	e.setObjVal(pt.obj, setPath(cur, pt.path, v))
}

// goPanic raises a panic of the program under test.
func (e *Exec) goPanic(kind, msg string) {
	panic(sigPanic{kind: kind, msg: msg, pos: e.pos()})
}

// ---- types ----

// zeros is n zero bytes; long ones are kept symbolic so that they can be cut
// at unknown places.
func (e *Exec) zeros(n int64) Rope {
	if n > 64 && !e.initing {
		return varR(e.p.newStrLen("zeros", csOf("\x00"), cI(n)))
	}
	return litR(string(make([]byte, n)))
}

func (e *Exec) zero(t types.Type) Value {
	if isBufType(t) {
		return zeroBuf()
	}
	if v, ok := e.zeroSpecial(t); ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsFloat != 0:
			return VFlt{known: true}
		case u.Kind() == types.UnsafePointer:
			return VPtr{}
		}
	case *types.Pointer:
		return VPtr{}
	case *types.Slice:
		return VSlice{off: cI(0), len: cI(0), cap: cI(0)}
	case *types.Map:
		return VMap{}
	case *types.Signature:
		return VFunc{}
	case *types.Interface:
		return VIface{}
	case *types.Chan:
		return VOpaque{kind: "chan"}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		if isByteType(u.Elem()) {
			return VBytes{e.zeros(u.Len())}
		}
		el := make([]Value, u.Len())
		z := e.zero(u.Elem())
		for i := range el {
			el[i] = z
		}
		return VArr{el}
	case *types.Tuple:
		return VTuple{}
	}
	unsupported("zero of %s", t)
	return nil
}

func isBufType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer"
}
func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// ---- running functions ----

func (e *Exec) callFn(fn *ssa.Function, args []Value, binds []Value, site ssa.Instruction) Value {
	if fn.Blocks == nil || e.eng.isIntrinsic(fn) {
		return e.intrinsic(fn, args, site)
	}
	if m := e.eng.models[fn.String()]; m != nil && m != fn {
		fn = m
	}
	if s := e.eng.summaryOf(fn, e.u.scope); s != nil && !e.isVerifyTarget(fn) {
		e.u.usedS[s] = true
		return e.inline(s.fn, args, nil, site)
	}
	if !e.contractHere(fn) {
		if c := e.eng.contractOf(fn, e.u.scope); c != nil && !e.u.noContract[fn] && !e.u.noInv && !e.isVerifyTarget(fn) && e.pureDepth == 0 {
			return e.useContractCall(fn, c, args, site)
		}
	} else {
		// inside the contract function in use mode: the abstracted call
		return e.contractBody(fn, args, site)
	}
	if e.frame == nil && e.isVerifyTarget(fn) && e.pureDepth == 0 && len(e.cstack) > 0 {
		cc := e.cstack[len(e.cstack)-1]
		e.frame = &frameChk{born: e.nobj, ok: e.reachable(cc.mods), mods: cc.mods}
		defer func() { e.frame = nil }()
	}
	return e.inline(fn, args, binds, site)
}

// frameChk is what the function whose contract is being proved may write to.
type frameChk struct {
	born int
	mods []Value
	ok   map[*Obj]bool
}

// reachable lists the objects behind the given locations.
func (e *Exec) reachable(mods []Value) map[*Obj]bool {
	out := map[*Obj]bool{}
	var walk func(v Value)
	obj := func(o *Obj) {
		if o == nil || out[o] {
			return
		}
		out[o] = true
		if o.sym == nil && o.mp == nil {
			walk(e.objVal(o))
		}
	}
	walk = func(v Value) {
		switch x := v.(type) {
		case VSlice:
			obj(x.obj)
		case VPtr:
			obj(x.obj)
		case VMap:
			obj(x.obj)
		case VIface:
			if x.t != nil {
				walk(x.v)
			}
		case VStruct:
			for _, f := range x.f {
				walk(f)
			}
		case VArr:
			for _, f := range x.e {
				walk(f)
			}
		}
	}
	for _, m := range mods {
		if i, ok := m.(VIface); ok {
			m = i.v
		}
		if pt, ok := m.(VPtr); ok {
			if pt.obj != nil {
				if len(pt.path) == 0 {
					out[pt.obj] = true
				}
				if pt.obj.sym == nil && pt.obj.mp == nil {
					walk(getPath(e.objVal(pt.obj), pt.path))
				}
			}
			continue
		}
		walk(m)
	}
	return out
}

func (f *frameChk) covers(o *Obj, path []int) bool {
	if f.ok[o] {
		return true
	}
	for _, m := range f.mods {
		if i, ok := m.(VIface); ok {
			m = i.v
		}
		if pt, ok := m.(VPtr); ok && pt.obj == o && len(pt.path) <= len(path) {
			same := true
			for i := range pt.path {
				same = same && pt.path[i] == path[i]
			}
			if same {
				return true
			}
		}
	}
	return false
}

func (e *Exec) inline(fn *ssa.Function, args []Value, binds []Value, site ssa.Instruction) Value {
	if len(args) != len(fn.Params) {
		unsupported("arg count for %s", fn)
	}
	parent := e.fr
	fr := &frame{fn: fn, regs: make(map[ssa.Value]Value, 32), caller: parent, iters: map[*ssa.BasicBlock]*iterState{}, locals: map[*ssa.Alloc]*Obj{}}
	if parent != nil {
		parent.calls++
		fr.key = hashKey(parent.key, "/", fn.String(), parent.calls)
	} else {
		fr.key = hashKey("root", fn.String())
	}
	for i, pa := range fn.Params {
		fr.regs[pa] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.regs[fv] = binds[i]
	}
	e.depth++
	if e.depth > 200 {
		unsupported("call depth (recursion) in %s", fn)
	}
	saveCur := e.cur
	nloops := len(e.loops)
	e.fr = fr
	e.u.noteFn(fn)
	res := e.runBlocks(fr)
	e.fr = parent
	e.depth--
	e.cur = saveCur
	e.loops = e.loops[:nloops]
	return res
}

func (e *Exec) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		e.callValue(d.fn, d.args, d.call)
	}
}

func (e *Exec) runBlocks(fr *frame) Value {
	b := fr.fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		b = e.enterBlock(fr, b, prev)
		var next *ssa.BasicBlock
		for _, ins := range b.Instrs {
			e.cur = ins
			e.steps++
			if e.steps > 3000000 {
				unsupported("step limit")
			}
			if e.steps&1023 == 0 {
				e.u.checkTime()
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				for i, pr := range b.Preds {
					if pr == prev {
						fr.regs[x] = e.val(x.Edges[i])
						break
					}
				}
			case *ssa.If:
				if e.truth(e.val(x.Cond)) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var out []Value
				for _, r := range x.Results {
					out = append(out, e.val(r))
				}
				if len(out) == 1 {
					return out[0]
				}
				return VTuple{out}
			case *ssa.RunDefers:
				e.runDefers(fr)
			case *ssa.Panic:
				v := e.val(x.X)
				e.goPanic("panic", e.showVal(v))
			default:
				e.instr(fr, ins)
			}
			if next != nil {
				break
			}
		}
		prev, b = b, next
	}
}

func (e *Exec) truth(v Value) bool {
	switch x := v.(type) {
	case VBool:
		return x.b
	case VBAt:
		if x.a.set {
			return x.a.val
		}
		r := e.p.branch(2, nil)
		x.a.set = true
		x.a.val = r == 0
		return x.a.val
	}
	unsupported("truth of %T", v)
	return false
}

func (e *Exec) val(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return VPtr{obj: e.eng.globalObj(x)}
	case *ssa.Function:
		return VFunc{fn: x}
	case *ssa.Builtin:
		return VFunc{name: "builtin " + x.Name()}
	}
	r, ok := e.fr.regs[v]
	if !ok {
		unsupported("undefined register %s in %s", v.Name(), e.fr.fn)
	}
	return r
}

func (e *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsupported("const of type %s", t)
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case u.Info()&types.IsString != 0:
		return mkStr(constant.StringVal(c.Value))
	case u.Info()&types.IsInteger != 0:
		n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		return VInt{cB(n)}
	case u.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return VFlt{known: true, f: f}
	}
	unsupported("const %s", c)
	return nil
}

func (e *Exec) instr(fr *frame, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		o := e.newObj(t, e.zero(t))
		fr.regs[x] = VPtr{obj: o}
		fr.locals[x] = o
	case *ssa.Store:
		v := e.val(x.Val)
		e.store(e.ptr(e.val(x.Addr)), v)
	case *ssa.UnOp:
		fr.regs[x] = e.unop(x)
	case *ssa.BinOp:
		fr.regs[x] = e.binop(x.Op, e.val(x.X), e.val(x.Y), x.X.Type(), x.Type())
	case *ssa.FieldAddr:
		pt := e.ptr(e.val(x.X))
		if pt.obj == nil {
			e.goPanic("nil dereference", "")
		}
		if pt.idx != nil || pt.sidx != nil {
			pt = e.concretizePtr(pt)
		}
		fr.regs[x] = VPtr{obj: pt.obj, path: append(append([]int(nil), pt.path...), x.Field)}
	case *ssa.Field:
		v := e.val(x.X)
		fr.regs[x] = v.(VStruct).f[x.Field]
	case *ssa.IndexAddr:
		fr.regs[x] = e.indexAddr(e.val(x.X), e.intv(e.val(x.Index)), x.X.Type())
	case *ssa.Index:
		v := e.val(x.X)
		idx := e.intv(e.val(x.Index))
		switch a := v.(type) {
		case VBytes:
			e.boundsCheck(idx, e.p.lenR(a.r))
			if l, ok := e.constTable(a.r, idx); ok {
				fr.regs[x] = VInt{l}
				break
			}
			fr.regs[x] = VInt{e.p.at(a.r, idx)}
		case VStr:
			e.boundsCheck(idx, e.p.lenR(a.r))
			if l, ok := e.constTable(a.r, idx); ok {
				fr.regs[x] = VInt{l}
				break
			}
			fr.regs[x] = VInt{e.p.at(a.r, idx)}
		case VArr:
			e.boundsCheck(idx, cI(int64(len(a.e))))
			fr.regs[x] = e.arrAt(a, idx)
		default:
			unsupported("index of %T", v)
		}
	case *ssa.Lookup:
		fr.regs[x] = e.lookup(x)
	case *ssa.Slice:
		fr.regs[x] = e.sliceOp(x)
	case *ssa.Convert:
		fr.regs[x] = e.convert(e.val(x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		fr.regs[x] = e.val(x.X)
	case *ssa.MultiConvert:
		fr.regs[x] = e.convert(e.val(x.X), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		fr.regs[x] = e.val(x.X)
	case *ssa.MakeInterface:
		fr.regs[x] = VIface{t: x.X.Type(), v: e.val(x.X)}
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, e.val(b))
		}
		fr.regs[x] = VFunc{fn: x.Fn.(*ssa.Function), binds: bs}
	case *ssa.MakeSlice:
		fr.regs[x] = e.makeSlice(x.Type(), e.intv(e.val(x.Len)), e.intv(e.val(x.Cap)))
	case *ssa.MakeMap:
		o := e.newObj(x.Type(), nil)
		o.mp = &MapData{}
		fr.regs[x] = VMap{obj: o}
	case *ssa.MapUpdate:
		e.mapUpdate(e.val(x.Map), e.val(x.Key), e.val(x.Value))
	case *ssa.Range:
		fr.regs[x] = e.mkRange(e.val(x.X))
	case *ssa.Next:
		fr.regs[x] = e.next(x)
	case *ssa.Extract:
		t := e.val(x.Tuple).(VTuple)
		fr.regs[x] = t.v[x.Index]
	case *ssa.TypeAssert:
		fr.regs[x] = e.typeAssert(x)
	case *ssa.Call:
		fr.regs[x] = e.call(&x.Call, x)
	case *ssa.Defer:
		fn, args := e.callee(&x.Call)
		fr.defers = append(fr.defers, deferred{fn, args, &x.Call})
	case *ssa.SliceToArrayPointer:
		unsupported("slice to array pointer")
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		unsupported("concurrency instruction %s", ins)
	default:
		unsupported("instruction %T", ins)
	}
}

func (e *Exec) ptr(v Value) VPtr {
	p, ok := v.(VPtr)
	if !ok {
		unsupported("pointer expected, got %T", v)
	}
	return p
}

func (e *Exec) intv(v Value) Lin {
	i, ok := v.(VInt)
	if !ok {
		unsupported("integer expected, got %T", v)
	}
	return e.p.norm(i.l)
}

func (e *Exec) concretizePtr(pt VPtr) VPtr {
	if pt.sidx != nil {
		// materialise the element as an object (read-only)
		v := e.symGet(pt.obj.sym, *pt.sidx)
		o := e.newObj(nil, v)
		o.ro = true
		return VPtr{obj: o}
	}
	in := getPath(e.objVal(pt.obj), pt.path)
	if a, ok := in.(VArr); ok {
		for i := range a.e {
			if i == len(a.e)-1 || e.p.decideEq(e.p.norm(pt.idx.addc(int64(-i)))) {
				return VPtr{obj: pt.obj, path: append(append([]int(nil), pt.path...), i)}
			}
		}
	}
	unsupported("field of symbolic element")
	return pt
}

func (e *Exec) boundsCheck(i, n Lin) {
	if !e.p.decideLe(i.neg()) {
		e.goPanic("index out of range", "negative index")
	}
	if !e.p.decideLe(i.sub(n).addc(1)) {
		e.goPanic("index out of range", "")
	}
}

func (e *Exec) indexAddr(x Value, idx Lin, t types.Type) Value {
	switch a := x.(type) {
	case VSlice:
		e.boundsCheck(idx, a.len)
		idx = e.p.norm(idx)
		if a.k > 0 {
			i := e.p.norm(a.off.add(idx).mulc(bigI(a.k)))
			return VPtr{obj: a.obj, path: a.path, idx: &i, k: a.k, txt: a.txt}
		}
		if a.obj.sym != nil {
			i := e.p.norm(a.off.add(idx))
			return VPtr{obj: a.obj, sidx: &i}
		}
		return e.elemPtr(a.obj, a.path, e.p.norm(a.off.add(idx)))
	case VPtr: // pointer to array
		if a.obj == nil {
			e.goPanic("nil dereference", "")
		}
		if a.k > 0 {
			e.boundsCheck(idx, cI(a.k))
			i := e.p.norm(a.idx.add(idx))
			return VPtr{obj: a.obj, path: a.path, idx: &i}
		}
		if a.idx != nil || a.sidx != nil {
			a = e.concretizePtr(a)
		}
		v := getPath(e.objVal(a.obj), a.path)
		switch y := v.(type) {
		case VBytes:
			e.boundsCheck(idx, e.p.lenR(y.r))
		case VArr:
			e.boundsCheck(idx, cI(int64(len(y.e))))
		default:
			unsupported("indexaddr of %T", v)
		}
		return e.elemPtr(a.obj, a.path, e.p.norm(idx))
	}
	unsupported("indexaddr of %T", x)
	return nil
}

func (e *Exec) elemPtr(o *Obj, path []int, idx Lin) VPtr {
	v := getPath(e.objVal(o), path)
	if _, ok := v.(VArr); ok && idx.isConst() {
		return VPtr{obj: o, path: append(append([]int(nil), path...), int(idx.cint()))}
	}
	i := idx
	return VPtr{obj: o, path: path, idx: &i}
}

// bytesOf returns the content of a []byte slice.
func (e *Exec) bytesOf(v Value) Rope {
	switch s := v.(type) {
	case VSlice:
		if s.obj == nil {
			return nil
		}
		in := getPath(e.objVal(s.obj), s.path)
		b, ok := in.(VBytes)
		if !ok || s.k > 0 {
			unsupported("byte content of %T", in)
		}
		return e.p.sub(b.r, s.off, e.p.norm(s.off.add(s.len)))
	case VStr:
		return e.p.normR(s.r)
	}
	unsupported("byte content of %T", v)
	return nil
}

// packed is the content of a list of byte arrays.
func (e *Exec) packed(s VSlice, want int64) (Rope, bool) {
	if s.obj == nil {
		return nil, true
	}
	if s.k > 0 {
		if s.k != want {
			return nil, false
		}
		b := getPath(e.objVal(s.obj), s.path).(VBytes)
		k := bigI(s.k)
		return e.p.sub(b.r, e.p.norm(s.off.mulc(k)), e.p.norm(s.off.add(s.len).mulc(k))), true
	}
	el, ok := e.elems(s)
	if !ok {
		return nil, false
	}
	var r Rope
	for _, x := range el {
		if t, ok := x.(VStr); ok {
			q := e.p.normR(t.r)
			if !e.p.provesEq(e.p.lenR(q).addc(-want)) {
				return nil, false
			}
			r = cat(r, q)
			continue
		}
		b, ok := x.(VBytes)
		if !ok {
			return nil, false
		}
		r = cat(r, e.p.normR(b.r))
	}
	return r, true
}

func (e *Exec) newPacked(r Rope, n Lin, k int64) VSlice {
	o := e.newObj(nil, VBytes{e.p.normR(r)})
	n = e.p.norm(n)
	return VSlice{obj: o, off: cI(0), len: n, cap: n, k: k}
}

// packedSize is the size of the elements of a list of byte arrays, or 0.
func packedSize(et types.Type) int64 {
	if et == nil {
		return 0
	}
	a, ok := et.Underlying().(*types.Array)
	if !ok || !isByteType(a.Elem()) {
		return 0
	}
	return a.Len()
}

func (e *Exec) newBytes(r Rope) VSlice {
	r = e.p.normR(r)
	o := e.newObj(nil, VBytes{r})
	n := e.p.lenR(r)
	return VSlice{obj: o, off: cI(0), len: n, cap: n}
}

// writeBytes overwrites len(r) bytes at absolute offset off of the object.
func (e *Exec) writeBytes(o *Obj, path []int, off Lin, r Rope) {
	e.noteWrite(o, path)
	b := getPath(e.objVal(o), path).(VBytes)
	n := e.p.lenR(r)
	if n.isZero() {
		return
	}
	if e.loose && !(e.p.norm(off).isConst() && n.isConst()) {
		// what the memory holds is not remembered
		e.setObjVal(o, setPath(e.objVal(o), path, VBytes{varR(e.p.newStrLen("mem", csAll, e.p.lenR(b.r)))}))
		return
	}
	l, rest := e.p.cut(b.r, off)
	var tail Rope
	if at, ok := arrayOf(o.typ); ok && len(path) == 0 && at.Len() <= 64 {
		tail = e.scratchTail(rest, n)
	} else {
		_, tail = e.p.cut(rest, n)
	}
	e.setObjVal(o, setPath(e.objVal(o), path, VBytes{cat(e.p.normR(l), e.p.normR(r), e.p.normR(tail))}))
}

func arrayOf(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

// scratchTail is what follows the first n bytes of the contents of a scratch
// array. When these end inside a text of unknown length, nothing is remembered
// about what is left of it.
func (e *Exec) scratchTail(r Rope, n Lin) Rope {
	p := e.p
	r = p.normR(r)
	left := p.norm(n)
	for i, q := range r {
		if left.isZero() {
			return r[i:]
		}
		if d := p.norm(p.pieceLen(q).sub(left)); d.isConst() && d.c.Sign() > 0 || q.k != pVar && !d.isConst() {
			_, t := p.cut(r[i:], left)
			return t
		} else if !d.isConst() {
			m := p.norm(p.lenR(r[i:]).sub(left))
			if !p.provesLe(m.neg()) {
				break
			}
			if p.scs[q.v].count() == 1 {
				break
			}
			p.note("contents of a scratch array")
			return varR(p.newStrLen("scratch", csAll, m))
		}
		left = p.norm(left.sub(p.pieceLen(q)))
	}
	_, t := p.cut(r, n)
	return t
}

func (e *Exec) unop(x *ssa.UnOp) Value {
	v := e.val(x.X)
	switch x.Op {
	case token.MUL:
		if o, ok := v.(VOpaque); ok {
			return o // an external value is known only by its name
		}
		return e.load(e.ptr(v))
	case token.NOT:
		return mkBool(!e.truth(v))
	case token.SUB:
		if f, ok := v.(VFlt); ok {
			return VFlt{known: f.known, f: -f.f, id: f.id}
		}
		return VInt{e.wrap(e.intv(v).neg(), x.Type())}
	case token.XOR:
		bits, signed, _ := intInfo(x.Type())
		l := e.intv(v)
		if signed {
			return VInt{l.neg().addc(-1)}
		}
		mx := new(big.Int).Sub(new(big.Int).Lsh(bi1, bits), bi1)
		return VInt{cB(mx).sub(l)}
	}
	unsupported("unop %s", x.Op)
	return nil
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	bits, signed, ok := intInfo(t)
	if !ok {
		unsupported("int type %s", t)
	}
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(bi1, bits-1), bi1)
		lo = new(big.Int).Neg(new(big.Int).Lsh(bi1, bits-1))
	} else {
		lo = bi0
		hi = new(big.Int).Sub(new(big.Int).Lsh(bi1, bits), bi1)
	}
	return
}

// wrap reduces a mathematical integer into the machine type.
func (e *Exec) wrap(l Lin, t types.Type) Lin {
	l = e.p.norm(l)
	lo, hi := typeRange(t)
	bits, _, _ := intInfo(t)
	m := new(big.Int).Lsh(bi1, bits)
	if l.isConst() {
		v := new(big.Int).Sub(l.c, lo)
		v.Mod(v, m)
		return cB(v.Add(v, lo))
	}
	blo, bhi := e.p.bounds(l)
	if blo != nil && bhi != nil && blo.Cmp(lo) >= 0 && bhi.Cmp(hi) <= 0 {
		return l
	}
	// table functions of one byte
	if base, tbl, ok := e.tblOf(l); ok {
		var nt [256]*big.Int
		for i := range tbl {
			if tbl[i] == nil {
				continue
			}
			v := new(big.Int).Sub(tbl[i], lo)
			v.Mod(v, m)
			nt[i] = v.Add(v, lo)
		}
		// affine in pieces: prefer forking when it is base plus constant
		if len(l.t) == 1 && e.p.iat[l.t[0].a].isByte && l.t[0].k.CmpAbs(bi1) == 0 {
			if e.p.decideLe(l.sub(cB(hi))) {
				if e.p.decideLe(cB(lo).sub(l)) {
					return e.p.norm(l)
				}
				return e.p.norm(l.add(cB(m)))
			}
			return e.p.norm(l.sub(cB(m)))
		}
		return e.tblLin(base, nt)
	}
	if e.p.decideLe(l.sub(cB(hi))) {
		if e.p.decideLe(cB(lo).sub(l)) {
			return e.p.norm(l)
		}
		l2 := e.p.norm(l.add(cB(m)))
		if e.p.provesLe(cB(lo).sub(l2)) {
			return l2
		}
		return e.modFresh(l, lo, hi, m)
	}
	l2 := e.p.norm(l.sub(cB(m)))
	if e.p.provesLe(l2.sub(cB(hi))) {
		return l2
	}
	return e.modFresh(l, lo, hi, m)
}

func (e *Exec) modFresh(l Lin, lo, hi, m *big.Int) Lin {
	r := e.p.newInt("wrap", lo, hi)
	q := e.p.newInt("q", nil, nil)
	e.p.assumeEq0(l.sub(r).addMul(q, new(big.Int).Neg(m)))
	return e.p.norm(r)
}

func (e *Exec) binop(op token.Token, a, b Value, xt, rt types.Type) Value {
	switch op {
	case token.EQL:
		return mkBool(e.equal(a, b))
	case token.NEQ:
		return mkBool(!e.equal(a, b))
	}
	switch x := a.(type) {
	case VStr:
		y := b.(VStr)
		switch op {
		case token.ADD:
			return VStr{cat(e.p.normR(x.r), e.p.normR(y.r))}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			switch op {
			case token.LSS:
				return mkBool(e.p.strLess(x.r, y.r))
			case token.LEQ:
				return mkBool(!e.p.strLess(y.r, x.r))
			case token.GTR:
				return mkBool(e.p.strLess(y.r, x.r))
			}
			return mkBool(!e.p.strLess(x.r, y.r))
		}
	case VFlt:
		y := b.(VFlt)
		if x.known && y.known {
			switch op {
			case token.ADD:
				return VFlt{known: true, f: x.f + y.f}
			case token.SUB:
				return VFlt{known: true, f: x.f - y.f}
			case token.MUL:
				return VFlt{known: true, f: x.f * y.f}
			case token.QUO:
				return VFlt{known: true, f: x.f / y.f}
			case token.LSS:
				return mkBool(x.f < y.f)
			case token.GTR:
				return mkBool(x.f > y.f)
			case token.LEQ:
				return mkBool(x.f <= y.f)
			case token.GEQ:
				return mkBool(x.f >= y.f)
			}
		}
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return e.freshFlt()
		}
		return VBAt{&BAtom{name: "fltcmp"}}
	case VBool, VBAt:
		_ = x
		switch op {
		case token.AND:
			return mkBool(e.truth(a) && e.truth(b))
		case token.OR:
			return mkBool(e.truth(a) || e.truth(b))
		}
	}
	l, m := e.intv(a), e.intv(b)
	switch op {
	case token.LSS:
		return mkBool(e.p.decideLe(l.sub(m).addc(1)))
	case token.LEQ:
		return mkBool(e.p.decideLe(l.sub(m)))
	case token.GTR:
		return mkBool(e.p.decideLe(m.sub(l).addc(1)))
	case token.GEQ:
		return mkBool(e.p.decideLe(m.sub(l)))
	case token.ADD:
		return VInt{e.wrap(l.add(m), rt)}
	case token.SUB:
		return VInt{e.wrap(l.sub(m), rt)}
	case token.MUL:
		if l.isConst() {
			return VInt{e.wrap(m.mulc(l.c), rt)}
		}
		if m.isConst() {
			return VInt{e.wrap(l.mulc(m.c), rt)}
		}
		return VInt{e.uninterpInt("mul", l, m, rt)}
	case token.QUO, token.REM:
		if e.p.decideEq(m) {
			e.goPanic("division by zero", "")
		}
		m = e.p.norm(m)
		l = e.p.norm(l)
		if l.isConst() && m.isConst() {
			q, r := new(big.Int).QuoRem(l.c, m.c, new(big.Int))
			if op == token.QUO {
				return VInt{e.wrap(cB(q), rt)}
			}
			return VInt{cB(r)}
		}
		if m.isConst() && m.c.Sign() > 0 {
			q, r := e.divmod(l, m.c)
			if op == token.QUO {
				return VInt{q}
			}
			return VInt{r}
		}
		return VInt{e.uninterpInt(op.String(), l, m, rt)}
	case token.SHL:
		if m.isConst() && m.c.Sign() >= 0 && m.c.BitLen() < 10 {
			return VInt{e.wrap(l.mulc(new(big.Int).Lsh(bi1, uint(m.cint()))), rt)}
		}
		if l.isConst() && m.isConst() == false {
			return VInt{e.uninterpInt("<<", l, m, rt)}
		}
	case token.SHR:
		if m.isConst() && m.c.Sign() >= 0 && m.c.BitLen() < 10 {
			n := new(big.Int).Lsh(bi1, uint(m.cint()))
			if base, tbl, ok := e.tblOf(l); ok {
				return VInt{e.tblMap(base, tbl, func(v *big.Int) *big.Int { return new(big.Int).Rsh(v, uint(m.cint())) })}
			}
			if l.isConst() {
				return VInt{cB(new(big.Int).Rsh(l.c, uint(m.cint())))}
			}
			q, _ := e.divmodFloor(l, n)
			return VInt{q}
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return VInt{e.bitop(op, l, m, rt)}
	}
	unsupported("binop %s on %T", op, a)
	return nil
}

func bitFn(op token.Token, a, b *big.Int) *big.Int {
	r := new(big.Int)
	switch op {
	case token.AND:
		return r.And(a, b)
	case token.OR:
		return r.Or(a, b)
	case token.XOR:
		return r.Xor(a, b)
	}
	return r.AndNot(a, b)
}

func (e *Exec) bitop(op token.Token, l, m Lin, rt types.Type) Lin {
	if l.isConst() && m.isConst() {
		return e.wrap(cB(bitFn(op, l.c, m.c)), rt)
	}
	b1, t1, ok1 := e.tblOf(l)
	b2, t2, ok2 := e.tblOf(m)
	if ok1 && m.isConst() {
		return e.tblMap(b1, t1, func(v *big.Int) *big.Int { return bitFn(op, v, m.c) })
	}
	if ok2 && l.isConst() {
		return e.tblMap(b2, t2, func(v *big.Int) *big.Int { return bitFn(op, l.c, v) })
	}
	if ok1 && ok2 && b1 == b2 {
		var nt [256]*big.Int
		for i := range nt {
			if t1[i] != nil && t2[i] != nil {
				nt[i] = bitFn(op, t1[i], t2[i])
			}
		}
		return e.tblLin(b1, nt)
	}
	if op == token.AND {
		if l.isConst() {
			l, m = m, l
		}
		if m.isConst() && m.c.Sign() >= 0 {
			n := new(big.Int).Add(m.c, bi1)
			if new(big.Int).And(n, m.c).Sign() == 0 { // 2^k-1
				lo, hi := e.p.bounds(l)
				if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(m.c) <= 0 {
					return l
				}
				_, r := e.divmodFloor(l, n)
				return r
			}
		}
	}
	if op != token.AND_NOT && l.key() > m.key() {
		l, m = m, l
	}
	if op == token.XOR {
		if l.eq(m) {
			return cI(0)
		}
		// keep xor chains canonical: flatten
		return e.xorLin(l, m, rt)
	}
	return e.uninterpInt(op.String(), l, m, rt)
}

// xorLin builds a canonical xor of byte operands.
func (e *Exec) xorLin(l, m Lin, rt types.Type) Lin {
	ops := append(e.xorOps(l), e.xorOps(m)...)
	cnt := map[string]int{}
	lin := map[string]Lin{}
	c := new(big.Int)
	for _, o := range ops {
		if o.isConst() {
			c.Xor(c, o.c)
			continue
		}
		cnt[o.key()]++
		lin[o.key()] = o
	}
	var ks []string
	for _, k := range sortedKeys(lin) {
		if cnt[k]%2 == 1 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return cB(c)
	}
	if len(ks) == 1 && c.Sign() == 0 {
		return lin[ks[0]]
	}
	if len(ks) == 1 {
		if b, t, ok := e.tblOf(lin[ks[0]]); ok {
			return e.tblMap(b, t, func(v *big.Int) *big.Int { return new(big.Int).Xor(v, c) })
		}
	}
	key := "xor:" + c.String()
	isB := isByteType(rt)
	for _, k := range ks {
		key += "^" + k
	}
	if id, ok := e.p.memoI[key]; ok {
		return e.p.norm(linAtom(id))
	}
	var r Lin
	if isB {
		r = e.p.newByte("xor", csAll)
	} else {
		lo, hi := typeRange(rt)
		r = e.p.newInt("xor", lo, hi)
	}
	e.p.memoI[key] = r.t[0].a
	var os []Lin
	for _, k := range ks {
		os = append(os, lin[k])
	}
	if c.Sign() != 0 {
		os = append(os, cB(c))
	}
	e.p.xors[r.t[0].a] = os
	return r
}

func (e *Exec) xorOps(l Lin) []Lin {
	if len(l.t) == 1 && l.c.Sign() == 0 && l.t[0].k.Cmp(bi1) == 0 {
		if os, ok := e.p.xors[l.t[0].a]; ok {
			var out []Lin
			for _, o := range os {
				out = append(out, e.p.norm(o))
			}
			return out
		}
	}
	return []Lin{l}
}

// tblOf views l as a function of a single byte atom.
func (e *Exec) tblOf(l Lin) (AtomID, [256]*big.Int, bool) {
	var tb [256]*big.Int
	if len(l.t) != 1 {
		return 0, tb, false
	}
	a := l.t[0].a
	if t, ok := e.p.tbls[a]; ok {
		for i := range tb {
			if t.t[i] != nil {
				v := new(big.Int).Mul(t.t[i], l.t[0].k)
				tb[i] = v.Add(v, l.c)
			}
		}
		return t.base, tb, true
	}
	if !e.p.iat[a].isByte {
		return 0, tb, false
	}
	for i := range tb {
		v := new(big.Int).Mul(big.NewInt(int64(i)), l.t[0].k)
		tb[i] = v.Add(v, l.c)
	}
	return a, tb, true
}

type tblEnt struct {
	base  AtomID
	t     [256]*big.Int
	tried CS
}

func (e *Exec) tblMap(base AtomID, t [256]*big.Int, f func(v *big.Int) *big.Int) Lin {
	var nt [256]*big.Int
	for i := range t {
		if t[i] != nil {
			nt[i] = f(t[i])
		}
	}
	return e.tblLin(base, nt)
}

// tblLin returns a canonical expression for table(base).
func (e *Exec) tblLin(base AtomID, t [256]*big.Int) Lin {
	set := e.p.bcs[base].list()
	// constant or affine?
	konst, ident := true, true
	off := new(big.Int)
	for i, b := range set {
		if t[b].Cmp(t[set[0]]) != 0 {
			konst = false
		}
		d := new(big.Int).Sub(t[b], big.NewInt(int64(b)))
		if i == 0 {
			off = d
		} else if d.Cmp(off) != 0 {
			ident = false
		}
	}
	if konst {
		return cB(t[set[0]])
	}
	if ident {
		return Lin{c: off, t: []LT{{base, bi1}}}
	}
	// an expression that agrees on what the byte can be
	best := AtomID(-1)
search:
	for a, x := range e.p.tbls {
		if x.base != base || best >= 0 && a > best {
			continue
		}
		for _, b := range set {
			if x.t[b] == nil || x.t[b].Cmp(t[b]) != 0 {
				continue search
			}
		}
		best = a
	}
	if best >= 0 {
		return e.p.norm(linAtom(best))
	}
	key := fmt.Sprintf("tbl:%d", base)
	lo, hi := t[set[0]], t[set[0]]
	for _, b := range set {
		key += "," + t[b].String()
		if t[b].Cmp(lo) < 0 {
			lo = t[b]
		}
		if t[b].Cmp(hi) > 0 {
			hi = t[b]
		}
	}
	key += e.p.bcs[base].key()
	if id, ok := e.p.memoI[key]; ok {
		return e.p.norm(linAtom(id))
	}
	var r Lin
	if lo.Sign() >= 0 && hi.Cmp(big.NewInt(255)) <= 0 {
		var cs CS
		for _, b := range set {
			cs.add(byte(t[b].Int64()))
		}
		r = e.p.newByte("tbl", cs)
	} else {
		r = e.p.newInt("tbl", lo, hi)
	}
	e.p.memoI[key] = r.t[0].a
	e.p.tbls[r.t[0].a] = &tblEnt{base: base, t: t}
	return r
}

func (e *Exec) uninterpInt(op string, l, m Lin, rt types.Type) Lin {
	key := "uf:" + op + ":" + l.key() + ":" + m.key()
	if id, ok := e.p.memoI[key]; ok {
		return e.p.norm(linAtom(id))
	}
	lo, hi := typeRange(rt)
	var r Lin
	if isByteType(rt) {
		r = e.p.newByte(op, csAll)
	} else {
		r = e.p.newInt(op, lo, hi)
	}
	e.p.memoI[key] = r.t[0].a
	return r
}

// divmod: Go truncated division by a positive constant.
func (e *Exec) divmod(l Lin, m *big.Int) (Lin, Lin) {
	if e.p.decideLe(l.neg()) { // l >= 0
		return e.divmodFloor(e.p.norm(l), m)
	}
	q, r := e.divmodFloor(e.p.norm(l.neg()), m)
	return q.neg(), r.neg()
}

func (e *Exec) divmodFloor(l Lin, m *big.Int) (Lin, Lin) {
	l = e.p.norm(l)
	if l.isConst() {
		q, r := new(big.Int).DivMod(l.c, m, new(big.Int))
		return cB(q), cB(r)
	}
	lo, hi := e.p.bounds(l)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return cI(0), l
	}
	// split off multiples of m
	mult, rest := Lin{c: bi0}, Lin{c: bi0}
	for _, t := range l.t {
		if new(big.Int).Rem(t.k, m).Sign() == 0 {
			mult = mult.addMul(linAtom(t.a), new(big.Int).Quo(t.k, m))
		} else {
			rest = rest.addMul(linAtom(t.a), t.k)
		}
	}
	q0, r0 := new(big.Int).DivMod(l.c, m, new(big.Int))
	mult = mult.add(cB(q0))
	rest = rest.add(cB(r0))
	if rest.isConst() {
		return mult, rest
	}
	if !mult.isConst() || mult.c.Sign() != 0 {
		q, r := e.divmodFloor(rest, m)
		return mult.add(q), r
	}
	key := "div:" + l.key() + ":" + m.String()
	if id, ok := e.p.memoI[key]; ok {
		q := e.p.norm(linAtom(id))
		return q, e.p.norm(l.addMul(q, new(big.Int).Neg(m)))
	}
	var qlo, qhi *big.Int
	if lo != nil {
		qlo = floorDiv(lo, m)
	}
	if hi != nil {
		qhi = floorDiv(hi, m)
	}
	q := e.p.newInt("quo", qlo, qhi)
	e.p.memoI[key] = q.t[0].a
	r := e.p.newInt("rem", bi0, new(big.Int).Sub(m, bi1))
	e.p.assumeEq0(l.addMul(q, new(big.Int).Neg(m)).sub(r))
	return e.p.norm(q), e.p.norm(r)
}

func (e *Exec) freshFlt() Value {
	e.u.nflt++
	return VFlt{id: e.u.nflt}
}

// equal decides Go equality.
func (e *Exec) equal(a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		return e.p.decideEq(x.l.sub(b.(VInt).l))
	case VBool, VBAt:
		return e.truth(a) == e.truth(b)
	case VStr:
		return e.p.eqR(x.r, b.(VStr).r)
	case VBytes:
		return e.p.eqR(x.r, b.(VBytes).r)
	case VFlt:
		y := b.(VFlt)
		if x.known && y.known {
			return x.f == y.f
		}
		if !x.known && !y.known && x.id == y.id && x.id != 0 {
			return e.truth(VBAt{&BAtom{name: "fltself"}})
		}
		return e.truth(VBAt{&BAtom{name: "flteq"}})
	case VStruct:
		y := b.(VStruct)
		for i := range x.f {
			if !e.equal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case VArr:
		y := b.(VArr)
		for i := range x.e {
			if !e.equal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case VPtr:
		y := e.ptr(b)
		if x.obj != y.obj {
			if x.obj != nil && y.obj != nil && (x.obj.poison || y.obj.poison) {
				unsupported("comparison with a pointer from an earlier iteration")
			}
			return false
		}
		if x.obj == nil {
			return true
		}
		if len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		if x.idx != nil && y.idx != nil {
			return e.p.decideEq(x.idx.sub(*y.idx))
		}
		return x.idx == nil && y.idx == nil
	case VSlice:
		y, ok := b.(VSlice)
		if ok && y.obj == nil {
			return x.obj == nil
		}
		if ok && x.obj == nil {
			return y.obj == nil
		}
	case VMap:
		y := b.(VMap)
		return x.obj == y.obj
	case VFunc:
		y := b.(VFunc)
		xn := x.fn == nil && x.nat == nil && x.name == ""
		yn := y.fn == nil && y.nat == nil && y.name == ""
		if xn || yn {
			return xn == yn
		}
		unsupported("func comparison")
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			unsupported("iface vs %T", b)
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if isUnknownErr(x) || isUnknownErr(y) {
			return e.sameErr(x, y)
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			e.goPanic("uncomparable", "comparing uncomparable type "+x.t.String())
		}
		return e.equal(x.v, y.v)
	case VOpaque:
		y, ok := b.(VOpaque)
		if !ok || x.kind != y.kind {
			return false
		}
		if x.kind == "rtype" {
			return types.Identical(x.d.(types.Type), y.d.(types.Type))
		}
		if x.id == 0 {
			unsupported("equality of %s", x.kind)
		}
		return x.id == y.id
	}
	if _, ok := a.(VPtr); !ok {
		if pb, ok := b.(VPtr); ok && pb.obj == nil {
			return false
		}
	}
	unsupported("equality of %T and %T", a, b)
	return false
}
