package main

import "unicode/utf8"

// utfRec is a string whose UTF-8 validity was asked for.
type utfRec struct {
	r Rope
	a *BAtom
}

// utfSegs splits r at pieces that certainly hold an ASCII byte. The string is
// valid exactly when every segment is. Images that replace ASCII bytes by
// non-empty ASCII strings and keep the others are seen through.
func (p *Path) utfSegs(r Rope) []Rope {
	var out []Rope
	var cur Rope
	flush := func() {
		if len(cur) > 0 {
			out = append(out, cur)
		}
		cur = nil
	}
	hi := csHigh()
	for _, q := range p.normR(r) {
		for q.k == pHom && hi.subset(q.h.id) && q.h.min >= 1 && q.h.imageSet(hi.not()).and(hi).empty() {
			q = q.arg[0]
		}
		switch q.k {
		case pLit:
			for i := 0; i < len(q.lit); {
				j := i
				for j < len(q.lit) && q.lit[j] >= 128 {
					j++
				}
				cur = cat(cur, litR(q.lit[i:j]))
				if j < len(q.lit) {
					flush()
					j++
				}
				i = j
			}
		case pByte:
			if p.byteSet(q.b).and(hi).empty() {
				flush()
				continue
			}
			cur = appendPiece(cur, q)
		default:
			if p.csOfPiece(q).and(hi).empty() {
				if lo, _ := p.bounds(p.pieceLen(q)); lo != nil && lo.Sign() > 0 {
					flush()
					continue
				}
			}
			cur = appendPiece(cur, q)
		}
	}
	flush()
	return out
}

func (e *Exec) utf8Valid(r Rope) Value {
	p := e.p
	hi := csHigh()
	yes, no := map[string]bool{}, map[string]bool{}
	for _, x := range p.utf {
		if !x.a.set {
			continue
		}
		segs := p.utfSegs(x.r)
		if x.a.val {
			for _, s := range segs {
				yes[ropeKey(s)] = true
			}
		}
	}
	good := func(s Rope) bool {
		if p.csOfRope(s).and(hi).empty() || yes[ropeKey(s)] {
			return true
		}
		if c, ok := p.constStr(s); ok {
			return utf8.ValidString(c)
		}
		return false
	}
	open := func(r Rope) (out []Rope) {
		for _, s := range p.utfSegs(r) {
			if good(s) {
				continue
			}
			all := true
			for _, q := range s {
				if !good(Rope{q}) {
					all = false
				}
			}
			if !all {
				out = append(out, s)
			}
		}
		return
	}
	for _, x := range p.utf {
		if x.a.set && !x.a.val {
			if o := open(x.r); len(o) == 1 {
				no[ropeKey(o[0])] = true
			} else if len(o) == 0 {
				p.kill("utf8")
			}
		}
	}
	o := open(r)
	if len(o) == 0 {
		return mkBool(true)
	}
	key := ""
	for _, s := range o {
		if c, ok := p.constStr(s); ok && !utf8.ValidString(c) {
			return mkBool(false)
		}
		if no[ropeKey(s)] {
			return mkBool(false)
		}
		key += ropeKey(s) + "|"
	}
	for _, x := range p.utf {
		if x.a.set {
			continue
		}
		k := ""
		for _, s := range open(x.r) {
			k += ropeKey(s) + "|"
		}
		if k == key {
			return VBAt{x.a}
		}
	}
	a := &BAtom{name: "utf8valid"}
	p.utf = append(p.utf, utfRec{r, a})
	return VBAt{a}
}
