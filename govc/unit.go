package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one named proof obligation: a labelled assertion of a unit that must
// hold on every path reaching it.
type Obl struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Where  string `json:"where,omitempty"`
	Paths  int    `json:"paths"`
	Failed int    `json:"failed"`
}

type Failure struct {
	Obl   string
	Msg   string
	Pos   string
	Trace string
	Draws map[string]interface{}
	Alts  []map[string]interface{}
	Exact bool // path from the entry of the harness without abstraction
}

// Unit is one verification unit: a harness or a contract to verify.
type Unit struct {
	eng        *Engine
	name       string
	fn         *ssa.Function
	verifyOf   *ssa.Function
	usedS      map[*Summary]bool
	prop       string
	solver     *Solver
	havoc      map[uint64]map[havKey]*havEnt
	noContract map[*ssa.Function]bool
	obl        map[string]*Obl
	fails      []*Failure
	bounds     map[string]bool
	assumed    map[string]bool
	funcs      map[*ssa.Function]bool
	used       map[*Contract]bool
	scope      string
	loose      bool
	fcPos      int
	nflt       int
	deadline   time.Time
	limit      time.Duration
	init       bool
	paths      int
	killed     int
	restarts   int
	status     string
	reason     string
	wall       time.Duration
	abstract   bool
	cutKill    int
	invLost    bool            // some invariant no longer matches its loop
	unroll     int             // undetermined iterations explored without an invariant
	invOff     map[string]bool // invariants to ignore
	noInv      bool            // ignore invariants and contracts: search for a counterexample
}

type sigTimeout struct{}
type sigFail struct{}

func newUnit(g *Engine, name string, fn *ssa.Function, limit time.Duration) *Unit {
	return &Unit{eng: g, name: name, fn: fn, havoc: map[uint64]map[havKey]*havEnt{}, noContract: map[*ssa.Function]bool{},
		obl: map[string]*Obl{}, bounds: map[string]bool{}, assumed: map[string]bool{}, funcs: map[*ssa.Function]bool{}, used: map[*Contract]bool{}, usedS: map[*Summary]bool{}, scope: g.scopeOf(name), limit: limit}
}

func (u *Unit) checkTime() {
	if !u.deadline.IsZero() && time.Now().After(u.deadline) {
		panic(sigTimeout{})
	}
	if u.invLost && u.unroll == 0 && time.Until(u.deadline) < u.limit*2/3 {
		// to be decided with the loops unrolled
		panic(sigTimeout{})
	}
}
func (u *Unit) noteFn(fn *ssa.Function) {
	if !u.init {
		u.funcs[fn] = true
	}
}
func (u *Unit) unrollLimit() int {
	if u.unroll > 0 {
		return u.unroll
	}
	return 4
}
func (u *Unit) bound(s string) {
	if u.bounds != nil {
		u.bounds[s] = true
	}
}
func (u *Unit) assume(s string) {
	if u.assumed != nil {
		u.assumed[s] = true
	}
}

// run explores every path of the unit.
func (u *Unit) run() {
	t0 := time.Now()
	u.solver = newSolver(solverName)
	u.deadline = t0.Add(u.limit)
	defer func() {
		u.solver.close()
		u.wall = time.Since(t0)
	}()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case sigUnsupported:
				u.status, u.reason = "unsupported", x.msg
			case sigTimeout:
				u.status, u.reason = "timeout", fmt.Sprintf("not finished in %v", u.limit)
			default:
				u.status, u.reason = "error", fmt.Sprint(r)
				if DEBUG > 0 || os.Getenv("GOVC_STACK") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}
	}()
	var trace []Dec
	for {
		p := newPath(u, trace)
		e := newExec(u, p)
		if PROFILE {
			p.where = func() string { return e.pos() + stackOf(e) }
		}
		u.nflt = 0
		u.abstract = false
		if u.runOne(e) {
			u.restarts++
			if u.restarts > 400 {
				unsupported("loop frame does not stabilise")
			}
			trace = nil
			u.obl = map[string]*Obl{}
			u.fails = nil
			u.paths, u.killed = 0, 0
			continue
		}
		if len(u.fails) >= maxFails {
			break
		}
		trace = p.trace
		for len(trace) > 0 {
			d := &trace[len(trace)-1]
			if d.cur+1 < len(d.alts) {
				d.cur++
				break
			}
			trace = trace[:len(trace)-1]
		}
		if len(trace) == 0 {
			break
		}
	}
	if len(u.fails) > 0 {
		u.status = "failed"
		return
	}
	u.status = "proved"
}

var maxFails = 6
var solverName = "z3-new"

func (u *Unit) runOne(e *Exec) (restart bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case sigKill:
			u.killed++
			if DEBUG > 1 {
				fmt.Printf("-- killed: %s\n", x.why)
			}
		case sigEnd:
			u.paths++
		case sigRestart:
			restart = true
		case sigFail:
			u.paths++
		case sigPanic:
			if !e.p.stillFeasible() {
				u.killed++
				return
			}
			u.paths++
			u.fail(e, "no-panic", "panic", x.kind+" "+x.msg+" at "+x.pos, x.pos)
		case sigUnsupported:
			panic(sigUnsupported{x.msg + " [at " + e.pos() + stackOf(e) + "]"})
		default:
			panic(r)
		}
	}()
	if DEBUG > 1 {
		fmt.Printf("== path %d (%d decisions)\n", u.paths+u.killed, len(e.p.trace))
	}
	var args []Value
	if u.verifyOf != nil {
		e.cstack = append(e.cstack, &cctx{of: u.verifyOf})
		if u.scope != "" {
			e.loose = true
		}
		for _, pa := range u.fn.Params {
			args = append(args, e.symbolic(pa.Type(), pa.Name()))
		}
	}
	u.obligation("no-panic", "panic", "")
	e.inline(u.fn, args, nil, nil)
	u.paths++
	if DEBUG > 1 {
		fmt.Printf("-- done\n")
	}
	return
}

func stackOf(e *Exec) string {
	s := ""
	for fr := e.fr; fr != nil; fr = fr.caller {
		s += " < " + fr.fn.Name()
	}
	return s
}

func (u *Unit) obligation(name, kind, where string) *Obl {
	o := u.obl[name]
	if o == nil {
		o = &Obl{Name: name, Kind: kind, Where: where}
		u.obl[name] = o
	}
	o.Paths++
	return o
}

// stillFeasible rechecks, before a failure is reported, facts that are only
// tested lazily.
func (p *Path) stillFeasible() (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, k := r.(sigKill); k {
				ok = false
				return
			}
			panic(r)
		}
	}()
	p.sync()
	p.checkNoOcc()
	// the values of digit strings are bounded by their length
	for _, x := range append([]decEnt{}, p.decs...) {
		if r := p.normR(x.r); p.provesLe(p.lenR(r)) {
			p.assumeEq0(p.norm(x.a))
		} else {
			p.decVal(r)
		}
	}
	// different strings of equal length are not empty
	for _, d := range p.sne {
		x := p.norm(d[0])
		y := p.norm(d[1])
		if q := p.quickEq(x.sub(y)); q == 0 {
			continue
		}
		p.touch(x)
		p.touch(y)
		p.addFact("(or (not (= " + x.smt() + " " + y.smt() + ")) (>= " + x.smt() + " 1))")
	}
	p.sync()
	return p.feasible("true")
}

// fail records a failed obligation on the current path.
func (u *Unit) fail(e *Exec, label, kind, msg, pos string) {
	o := u.obl[label]
	if o == nil {
		o = u.obligation(label, kind, pos)
	}
	o.Failed++
	f := &Failure{Obl: u.name + "/" + label, Msg: msg, Pos: pos, Exact: !u.abstract && len(e.p.imprecise) == 0}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s%s\n", pos, stackOf(e))
	for _, d := range e.p.draws {
		fmt.Fprintf(&sb, "  %s = %s\n", d.name, e.showVal(d.v))
	}
	for _, n := range e.p.imprecise {
		fmt.Fprintf(&sb, "  note: %s\n", n)
	}
	f.Trace = sb.String()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if DEBUG > 0 {
					fmt.Printf("model extraction: %v\n", r)
				}
			}
		}()
		f.Draws, f.Alts = e.concretize()
	}()
	u.fails = append(u.fails, f)
	if DEBUG > 0 {
		fmt.Printf("FAIL %s: %s at %s\n%s\n", f.Obl, msg, pos, f.Trace)
		if DEBUG > 7 {
			fmt.Println(strings.Join(e.p.facts, "\n"))
			for a, cs := range e.p.bcs {
				fmt.Printf("  byte i%d in %q\n", a, e.p.showCS(cs))
			}
		}
	}
}

func (e *Exec) check(cond Value, label, kind string) {
	o := e.u.obligation(label, kind, e.pos())
	_ = o
	if !e.truth(cond) {
		if !e.p.stillFeasible() {
			e.p.kill("infeasible")
		}
		e.u.fail(e, label, kind, "assertion does not hold", e.pos())
		panic(sigFail{})
	}
}

// ---- contracts ----

type cctx struct {
	of   *ssa.Function
	use  bool
	mods []Value
	name string
}

func (e *Exec) contractHere(fn *ssa.Function) bool {
	return len(e.cstack) > 0 && e.cstack[len(e.cstack)-1].of == fn && e.cstack[len(e.cstack)-1].use
}
func (e *Exec) isVerifyTarget(fn *ssa.Function) bool { return e.u.verifyOf == fn }

func (e *Exec) useContractCall(fn *ssa.Function, c *Contract, args []Value, site ssa.Instruction) Value {
	e.u.used[c] = true
	e.u.abstract = true
	if c.exact != nil {
		r := e.inline(c.exact, args, nil, site)
		last := r
		if t, ok := r.(VTuple); ok {
			last = t.v[len(t.v)-1]
		}
		if i, ok := last.(VIface); ok && i.t != nil {
			// nothing is said about what is left behind by a failed call
			for _, a := range args {
				if pt, ok := a.(VPtr); ok {
					e.havocTarget(pt)
				}
			}
		}
		return r
	}
	n := len(e.cstack)
	e.cstack = append(e.cstack, &cctx{of: fn, use: true, name: c.name})
	r := e.inline(c.fn, args, nil, site)
	e.cstack = e.cstack[:n]
	return r
}

// contractBody stands for the call of fn inside its own contract in use mode.
func (e *Exec) contractBody(fn *ssa.Function, args []Value, site ssa.Instruction) Value {
	cc := e.cstack[len(e.cstack)-1]
	for _, m := range cc.mods {
		e.havocTarget(m)
	}
	res := fn.Signature.Results()
	var out []Value
	for i := 0; i < res.Len(); i++ {
		out = append(out, e.fresh(res.At(i).Type(), fn.Name()+".r"))
	}
	if len(out) == 1 {
		return out[0]
	}
	return VTuple{out}
}

func (e *Exec) havocTarget(v Value) {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	pt, ok := v.(VPtr)
	if !ok {
		if s, ok := v.(VSlice); ok && s.obj != nil {
			n := e.p.norm(s.len)
			e.writeBytes(s.obj, s.path, s.off, varR(e.p.newStrLen("mod", csAll, n)))
			return
		}
		unsupported("vModifies of %T", v)
	}
	if pt.obj == nil {
		return
	}
	if e.track != nil {
		e.track.off = true
	}
	cur := e.load(pt)
	if e.track != nil {
		e.track.off = false
	}
	var t types.Type
	if len(pt.path) == 0 {
		t = pt.obj.typ
	} else if pt.obj.typ != nil {
		t = pathType(pt.obj.typ, pt.path)
	}
	if e.track != nil {
		e.track.off = true
		defer func() { e.track.off = false }()
	}
	e.store(pt, e.havocVal(cur, t, "mod"))
}

func pathType(t types.Type, path []int) types.Type {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

// fresh returns an arbitrary value of a result type (not a harness input).
func (e *Exec) fresh(t types.Type, nm string) Value {
	if isErrorType(t) {
		if e.p.branch(2, nil) == 0 {
			return VIface{}
		}
		return e.unknownErr()
	}
	return e.arbitrary(t, nm, false)
}

// symbolic returns an arbitrary value of type t recorded as an input.
func (e *Exec) symbolic(t types.Type, nm string) Value { return e.arbitrary(t, nm, true) }

func (e *Exec) draw(name, kind string, v Value) Value {
	n := e.p.drawN[name]
	e.p.drawN[name] = n + 1
	e.p.draws = append(e.p.draws, drawRec{fmt.Sprintf("%s#%d", name, n), kind, v})
	return v
}

func (e *Exec) drawStr(nm string, cs CS) Value {
	a := e.p.newStr(nm, cs)
	a.draw = true
	return e.draw(nm, "s", VStr{varR(a)})
}

func (e *Exec) drawInt(nm string, lo, hi *big.Int) Value {
	return e.draw(nm, "i", VInt{e.p.newInt(nm, lo, hi)})
}

// isCoder: a text encoder or decoder, of which only the interface is known.
func isCoder(t types.Type) bool {
	pt, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	s := types.Unalias(pt.Elem()).String()
	return s == "golang.org/x/text/encoding.Decoder" || s == "golang.org/x/text/encoding.Encoder"
}

const listMax = 2

func (e *Exec) arbitrary(t types.Type, nm string, dr bool) Value {
	p := e.p
	if isBufType(t) {
		s := e.arbitrary(types.Typ[types.String], nm, dr).(VStr)
		return bufVal(e.newBytes(s.r))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi := typeRange(t)
			var v Value
			if isByteType(t) {
				v = VInt{p.newByte(nm, csAll)}
			} else {
				v = VInt{p.newInt(nm, lo, hi)}
			}
			if dr {
				e.draw(nm, "i", v)
			}
			return v
		case u.Info()&types.IsBoolean != 0:
			v := VBAt{&BAtom{name: nm}}
			if dr {
				e.draw(nm, "b", v)
			}
			return v
		case u.Info()&types.IsString != 0:
			if dr {
				return e.drawStr(nm, csAll)
			}
			return VStr{varR(p.newStr(nm, csAll))}
		case u.Info()&types.IsFloat != 0:
			return e.freshFlt()
		}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.arbitrary(u.Field(i).Type(), nm+"."+u.Field(i).Name(), dr)
		}
		return VStruct{f}
	case *types.Array:
		if isByteType(u.Elem()) {
			a := p.newStrLen(nm, csAll, cI(u.Len()))
			v := VBytes{varR(a)}
			if dr {
				a.draw = true
				e.draw(nm, "s", VStr{varR(a)})
			}
			return v
		}
		el := make([]Value, u.Len())
		for i := range el {
			el[i] = e.arbitrary(u.Elem(), fmt.Sprintf("%s[%d]", nm, i), dr)
		}
		return VArr{el}
	case *types.Slice:
		if isByteType(u.Elem()) {
			s := e.arbitrary(types.Typ[types.String], nm, dr).(VStr)
			return e.newBytes(s.r)
		}
		if e.loose {
			n := p.newInt(nm+".len", bi0, maxLen)
			o := e.newObj(nil, nil)
			o.sym = newSym(n, func(e *Exec, idx Lin) Value { return e.arbitrary(u.Elem(), nm, false) })
			o.ro = true
			return VSlice{obj: o, off: cI(0), len: n, cap: n}
		}
		n := e.p.branch(listMax+1, nil)
		e.u.bound(fmt.Sprintf("lists of at most %d elements", listMax))
		if dr {
			e.draw(nm+".len", "i", mkInt(int64(n)))
		}
		var el []Value
		for i := 0; i < n; i++ {
			el = append(el, e.arbitrary(u.Elem(), fmt.Sprintf("%s[%d]", nm, i), dr))
		}
		if n == 0 {
			return e.zero(t)
		}
		return e.newList(t, el)
	case *types.Map:
		if e.loose {
			if p.branch(2, nil) == 0 {
				return e.zero(t)
			}
			o := e.newObj(t, nil)
			o.mp = &MapData{sym: true, kt: u.Key(), vt: u.Elem(), n: p.newInt(nm+".len", bi0, maxLen)}
			return VMap{obj: o}
		}
	case *types.Pointer:
		if isCoder(t) {
			if p.branch(2, nil) == 0 {
				return VPtr{}
			}
			return VPtr{obj: e.newObj(nil, VOpaque{kind: "coder", id: 2000000 + e.nobj})}
		}
		if dr || isBufType(u.Elem()) {
			if e.loose && e.u.verifyOf == nil && p.branch(2, nil) == 0 {
				return VPtr{}
			}
			o := e.newObj(u.Elem(), e.arbitrary(u.Elem(), nm, dr))
			return VPtr{obj: o}
		}
	case *types.Interface:
		if isErrorType(t) {
			k := e.p.branch(2, nil)
			if dr {
				e.draw(nm+".err", "i", mkInt(int64(k)))
			}
			if k == 0 {
				return VIface{}
			}
			return e.opaqueErr(nm)
		}
	}
	unsupported("arbitrary value of type %s", t)
	return nil
}

// ---- invariants ----

func (u *Unit) invFor(e *Exec, fr *frame, lp *loopT) *Inv {
	if u.noInv {
		return nil
	}
	for pass := 0; pass < 2; pass++ {
		for _, iv := range u.eng.invs[fr.fn] {
			if u.invOff[iv.name] || iv.ordinal != lp.ord || (pass == 0) != (iv.scope != "") || iv.scope != "" && iv.scope != u.scope {
				continue
			}
			for _, pa := range iv.fn.Params {
				n := strings.TrimSuffix(pa.Name(), "_in")
				if _, ok := e.resolveLocal(fr, lp, n); !ok && e.renamed(fr, lp, iv, n, pa.Type()) {
					continue
				} else if !ok {
					u.invLost = true
					u.assume("invariant " + iv.name + " no longer matches the loop (" + pa.Name() + "); the loop is unrolled")
					return nil
				}
			}
			return iv
		}
	}
	return nil
}

// resolveLocal finds the current value of a source variable at a loop header.
func (e *Exec) resolveLocal(fr *frame, lp *loopT, name string) (Value, bool) {
	var best *ssa.Alloc
	for al := range fr.locals {
		if al.Comment != name {
			continue
		}
		if !al.Block().Dominates(lp.header) || lp.body[al.Block()] && al.Block() != lp.header {
			continue
		}
		if best == nil || best.Block().Dominates(al.Block()) && (best.Block() != al.Block() || best.Pos() < al.Pos()) {
			best = al
		}
	}
	if best != nil {
		return e.objVal(fr.locals[best]), true
	}
	if al := fr.renames[renameKey{lp, name}]; al != nil {
		return e.objVal(fr.locals[al]), true
	}
	for i, fv := range fr.fn.FreeVars {
		if fv.Name() == name {
			_ = i
			v := fr.regs[fv]
			if pt, ok := v.(VPtr); ok && pt.obj != nil {
				if _, isp := fv.Type().Underlying().(*types.Pointer); isp {
					return e.load(pt), true
				}
			}
			return v, true
		}
	}
	for _, pa := range fr.fn.Params {
		if pa.Name() == name {
			return fr.regs[pa], true
		}
	}
	if name == "rangeindex" {
		if al := countedBy(fr, lp); al != nil {
			if v, ok := e.objVal(fr.locals[al]).(VInt); ok {
				return VInt{v.l.addc(-1)}, true
			}
		}
	}
	return nil, false
}

type renameKey struct {
	lp   *loopT
	name string
}

// renamed looks for the variable that an invariant knows by another name: the only one of its
// type that the invariant does not mention. A wrong guess makes the invariant fail, nothing else.
func (e *Exec) renamed(fr *frame, lp *loopT, iv *Inv, name string, t types.Type) bool {
	if name == "rangeindex" {
		return false
	}
	known := map[string]bool{}
	for _, pa := range iv.fn.Params {
		known[strings.TrimSuffix(pa.Name(), "_in")] = true
	}
	var found *ssa.Alloc
	for al := range fr.locals {
		if known[al.Comment] || !token.IsIdentifier(al.Comment) || strings.HasPrefix(al.Comment, "range") {
			continue
		}
		if !al.Block().Dominates(lp.header) || lp.body[al.Block()] && al.Block() != lp.header {
			continue
		}
		if !types.Identical(al.Type().Underlying().(*types.Pointer).Elem(), t) {
			continue
		}
		if found != nil {
			return false
		}
		found = al
	}
	if found == nil {
		return false
	}
	if fr.renames == nil {
		fr.renames = map[renameKey]*ssa.Alloc{}
	}
	fr.renames[renameKey{lp, name}] = found
	return true
}

// countedBy finds the variable that counts the iterations of a loop written as
// for i := 0; i < n; i++, which is one more at the loop header than the hidden index of
// the same loop written with range.
func countedBy(fr *frame, lp *loopT) *ssa.Alloc {
	ins := lp.header.Instrs
	iff, ok := ins[len(ins)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return nil
	}
	ld, ok := cmp.X.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok || fr.locals[al] == nil {
		return nil
	}
	if b, ok := ld.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
		return nil
	}
	n := 0
	for _, r := range *al.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				continue
			}
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return nil
		}
		if !lp.body[st.Block()] {
			continue
		}
		add, ok := st.Val.(*ssa.BinOp)
		if !ok || add.Op != token.ADD {
			return nil
		}
		n++
	}
	if n != 1 {
		return nil
	}
	return al
}

// adapt converts a local's value to the type of an invariant parameter.
func (e *Exec) adapt(v Value, t types.Type) Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case VSlice:
			return VStr{e.bytesOf(x)}
		case VPtr:
			if x.obj != nil {
				if st, ok := e.load(x).(VStruct); ok && isBufVal(st) {
					return VStr{e.bytesOf(st.f[0])}
				}
			}
			return mkStr("")
		case VStruct:
			if isBufVal(x) {
				return VStr{e.bytesOf(x.f[0])}
			}
		}
	}
	return v
}

func (e *Exec) snapshotLoop(fr *frame, lp *loopT) {
	inv := e.u.invFor(e, fr, lp)
	m := map[string]Value{}
	for _, pa := range inv.fn.Params {
		n := strings.TrimSuffix(pa.Name(), "_in")
		if n == pa.Name() {
			continue
		}
		v, _ := e.resolveLocal(fr, lp, n)
		m[n] = e.adapt(v, pa.Type())
	}
	if fr.snap == nil {
		fr.snap = map[*ssa.BasicBlock]map[string]Value{}
	}
	fr.snap[lp.header] = m
}

func (e *Exec) runInv(fr *frame, lp *loopT, inv *Inv) Value {
	var args []Value
	for _, pa := range inv.fn.Params {
		n := strings.TrimSuffix(pa.Name(), "_in")
		if n != pa.Name() {
			args = append(args, fr.snap[lp.header][n])
			continue
		}
		v, ok := e.resolveLocal(fr, lp, n)
		if !ok {
			unsupported("invariant parameter %s", n)
		}
		args = append(args, e.adapt(v, pa.Type()))
	}
	return e.inline(inv.fn, args, nil, nil)
}

func (e *Exec) checkInv(fr *frame, lp *loopT, inv *Inv, label string) {
	lab := "invariant " + inv.name + " " + label
	e.u.obligation(lab, "invariant", e.pos())
	r := e.runInv(fr, lp, inv)
	if !e.truth(r) {
		if !e.p.stillFeasible() {
			e.p.kill("infeasible")
		}
		e.u.fail(e, lab, "invariant", "loop invariant not "+label, e.pos())
		panic(sigFail{})
	}
}

func (e *Exec) assumeInv(fr *frame, lp *loopT, inv *Inv) {
	e.u.abstract = true
	if !e.truth(e.runInv(fr, lp, inv)) {
		panic(sigKill{"invariant"})
	}
}

// ---- opaque values ----

var opaquePkg = types.NewPackage("verif/opaque", "opaque")
var opaqueTypes = map[string]*types.Named{}

func opaqueNamed(n string) *types.Named {
	stdErrMu.Lock()
	defer stdErrMu.Unlock()
	if t := opaqueTypes[n]; t != nil {
		return t
	}
	t := types.NewNamed(types.NewTypeName(0, opaquePkg, n, nil), types.NewStruct(nil, nil), nil)
	opaqueTypes[n] = t
	return t
}

var opaqueErrT types.Type = opaqueNamed("error")

func isOpaqueType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == opaquePkg
}

// opaqueErr is a fresh non-nil error, distinct from every other error.
func (e *Exec) opaqueErr(msg string) Value {
	e.nobj++
	return VIface{t: opaqueErrT, v: VOpaque{kind: "err", id: 1000000 + e.nobj, d: msg}}
}

// unknownErr is any non-nil error, possibly one of those seen before.
func (e *Exec) unknownErr() Value {
	e.nobj++
	return VIface{t: opaqueErrT, v: VOpaque{kind: "err", id: 1000000 + e.nobj, d: anyErr{}}}
}

type anyErr struct{}

func isUnknownErr(i VIface) bool {
	o, ok := i.v.(VOpaque)
	if !ok || i.t != opaqueErrT {
		return false
	}
	_, ok = o.d.(anyErr)
	return ok
}

// sameErr decides whether an unknown error is another one.
func (e *Exec) sameErr(a, b VIface) bool {
	p := e.p
	find := func(i VIface) (VIface, string) {
		k := e.concKey(i)
		for {
			j, ok := p.errRep[k]
			if !ok {
				return i, k
			}
			i, k = j, e.concKey(j)
		}
	}
	ra, x := find(a)
	rb, y := find(b)
	if x == y {
		return true
	}
	if !isUnknownErr(ra) && !isUnknownErr(rb) {
		return e.equal(ra, rb)
	}
	for _, d := range p.errDiff {
		_, k := find(d[0])
		_, l := find(d[1])
		if k == x && l == y || k == y && l == x {
			return false
		}
	}
	if p.branch(2, nil) == 0 {
		p.errDiff = append(p.errDiff, [2]VIface{ra, rb})
		return false
	}
	if !isUnknownErr(ra) {
		ra, rb, x = rb, ra, y
	}
	if p.errRep == nil {
		p.errRep = map[string]VIface{}
	}
	p.errRep[x] = rb
	for _, d := range p.errDiff {
		_, k := find(d[0])
		_, l := find(d[1])
		if k == l {
			p.kill("infeasible")
		}
	}
	return true
}

func (e *Exec) opaqueImplements(t types.Type, it *types.Interface) bool {
	if t == opaqueErrT {
		return it.NumMethods() == 0 || it.NumMethods() == 1 && it.Method(0).Name() == "Error"
	}
	if oi := opaqueIfaces[t.(*types.Named).Obj().Name()]; oi != nil {
		for i := 0; i < it.NumMethods(); i++ {
			if !oi[it.Method(i).Name()] {
				return false
			}
		}
		return true
	}
	return false
}

var opaqueIfaces = map[string]map[string]bool{}
var opaqueMethods = map[string]func(e *Exec, recv VOpaque, args []Value) Value{}

func (e *Exec) opaqueMethod(i VIface, m *types.Func, args []Value) Value {
	o := i.v.(VOpaque)
	if i.t == opaqueErrT && m.Name() == "Error" {
		if r, ok := o.d.(Rope); ok {
			return VStr{e.p.normR(r)}
		}
		r, ok := e.p.errText[o.id]
		if !ok {
			r = varR(e.p.newStr("errtext", csAll))
			if e.p.errText == nil {
				e.p.errText = map[int]Rope{}
			}
			e.p.errText[o.id] = r
		}
		return VStr{e.p.normR(r)}
	}
	n := i.t.(*types.Named).Obj().Name() + "." + m.Name()
	if f := opaqueMethods[n]; f != nil {
		return f(e, o, args[1:])
	}
	unsupported("method %s of %s", m.Name(), n)
	return nil
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (p *Path) showCS(c CS) string {
	var b []byte
	for i := 0; i < 256; i++ {
		if c.has(byte(i)) {
			b = append(b, byte(i))
		}
	}
	return string(b)
}
