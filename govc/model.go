package main

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"
)

// concretize turns the path's constraints into concrete draws: one primary
// assignment and a few alternatives with other lengths or fill bytes.
func (e *Exec) concretize() (map[string]interface{}, []map[string]interface{}) {
	p := e.p
	var out []map[string]interface{}
	for _, bound := range []int64{1, 3, 8, 40, 300, 5000, 0} {
		if m := e.concretizeBound(bound, 0); m != nil {
			out = append(out, m)
			if bound <= 40 {
				for v := 1; v < 4; v++ {
					if m2 := e.concretizeBound(bound, v); m2 != nil {
						out = append(out, m2)
					}
				}
			}
			if len(out) >= 10 {
				break
			}
		}
	}
	_ = p
	if len(out) == 0 {
		return nil, nil
	}
	return out[0], out[1:]
}

func (e *Exec) concretizeBound(bound int64, variant int) map[string]interface{} {
	p := e.p
	// free length atoms of string atoms involved in the draws
	var names []string
	facts := append([]string(nil), p.facts...)
	seen := map[AtomID]bool{}
	var decl func(l Lin)
	decl = func(l Lin) {
		l = p.norm(l)
		for _, t := range l.t {
			if seen[t.a] {
				continue
			}
			seen[t.a] = true
			n := len(p.facts)
			p.touchAtom(t.a)
			facts = append(facts, p.facts[n:]...)
			names = append(names, fmt.Sprintf("i%d", t.a))
		}
	}
	visited := map[SAtomID]bool{}
	var walk func(r Rope)
	walk = func(r Rope) {
		for _, q := range p.normR(r) {
			switch q.k {
			case pVar:
				if visited[q.v] {
					continue
				}
				visited[q.v] = true
				l := p.norm(p.sat[q.v].len)
				decl(l)
				if bound > 0 && !l.isConst() {
					facts = append(facts, fmt.Sprintf("(assert (<= %s %d))", l.smt(), bound))
				}
				if variant == 2 && !l.isConst() {
					facts = append(facts, fmt.Sprintf("(assert (>= %s 1))", l.smt()))
				}
				if p.sat[q.v].iarg != nil {
					decl(*p.sat[q.v].iarg)
				}
			case pByte:
				decl(q.b)
			case pHom:
				p.lenR(Rope{q})
				walk(q.arg)
			}
		}
	}
	for _, d := range p.draws {
		switch x := d.v.(type) {
		case VStr:
			walk(x.r)
		case VInt:
			decl(x.l)
		}
	}
	mod := p.u.solver.model(facts, names)
	if mod == nil && len(names) > 0 {
		return nil
	}
	vals := map[AtomID]*big.Int{}
	for n, v := range mod {
		var id AtomID
		fmt.Sscanf(n, "i%d", &id)
		b, ok := new(big.Int).SetString(v, 10)
		if ok {
			vals[id] = b
		}
	}
	ev := func(l Lin) *big.Int {
		l = p.norm(l)
		s := new(big.Int).Set(l.c)
		for _, t := range l.t {
			v := vals[t.a]
			if v == nil {
				a := p.iat[t.a]
				v = bi0
				if a.isByte {
					if ls := p.bcs[t.a].list(); len(ls) > 0 {
						v = big.NewInt(int64(ls[variant%len(ls)]))
					}
				} else if a.lo != nil {
					v = a.lo
				}
			}
			s.Add(s, new(big.Int).Mul(v, t.k))
		}
		return s
	}
	strs := map[SAtomID]string{}
	var evalR func(r Rope) string
	evalR = func(r Rope) string {
		var sb strings.Builder
		for _, q := range p.normR(r) {
			switch q.k {
			case pLit:
				sb.WriteString(q.lit)
			case pByte:
				sb.WriteByte(byte(ev(q.b).Int64()))
			case pHom:
				a := evalR(q.arg)
				for i := 0; i < len(a); i++ {
					sb.WriteString(q.h.img[a[i]])
				}
			case pVar:
				s, ok := strs[q.v]
				if !ok {
					n := ev(p.sat[q.v].len)
					at := p.sat[q.v]
					if at.fn == "dec" && at.iarg != nil {
						s = ev(*at.iarg).String()
					} else if n.IsInt64() && n.Int64() < 1<<20 && n.Sign() >= 0 {
						s = p.fill(q.v, int(n.Int64()), variant)
					}
					strs[q.v] = s
				}
				sb.WriteString(s)
			}
		}
		return sb.String()
	}
	out := map[string]interface{}{}
	for _, d := range p.draws {
		switch x := d.v.(type) {
		case VStr:
			out[d.name] = "s:" + base64.StdEncoding.EncodeToString([]byte(evalR(x.r)))
		case VInt:
			out[d.name] = "i:" + ev(x.l).String()
		case VBool:
			out[d.name] = fmt.Sprintf("b:%v", x.b)
		case VBAt:
			out[d.name] = fmt.Sprintf("b:%v", x.a.set && x.a.val || !x.a.set && variant%2 == 1)
		}
	}
	return out
}

// fill chooses n bytes of the atom's byte set, avoiding forbidden substrings and values.
func (p *Path) fill(v SAtomID, n, variant int) string {
	cs := p.scs[v].list()
	if len(cs) == 0 || n == 0 {
		return ""
	}
	pref := "abcxyz0159ABZ"
	var cand []byte
	switch variant {
	case 0, 2:
		for i := 0; i < len(pref); i++ {
			if p.scs[v].has(pref[i]) {
				cand = append(cand, pref[i])
			}
		}
	case 1:
		for _, c := range []byte("$|&<> \n\\/%;#\x05:.,-+1") {
			if p.scs[v].has(c) {
				cand = append(cand, c)
			}
		}
	case 3:
		for _, c := range []byte{0xc3, 0xff, 0x00, 0x01, 0x80, 'a'} {
			if p.scs[v].has(c) {
				cand = append(cand, c)
			}
		}
	}
	if len(cand) == 0 {
		cand = cs
	}
	k := int(v) * 7
	var s string
	for try := 0; try < 20; try++ {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			if variant == 0 {
				sb.WriteByte(cand[(k+try)%len(cand)])
			} else {
				sb.WriteByte(cand[(k+try+i)%len(cand)])
			}
		}
		s = sb.String()
		ok := true
		for _, pat := range p.noocc[v] {
			if strings.Contains(s, pat) {
				ok = false
			}
		}
		for _, d := range p.sdis[v] {
			if s == d {
				ok = false
			}
		}
		if ok {
			break
		}
	}
	return s
}

func decB64(s string) ([]byte, error) { return base64.StdEncoding.DecodeString(s) }
