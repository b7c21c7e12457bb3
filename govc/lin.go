package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// AtomID names an unknown mathematical integer.
type AtomID int32

type LT struct {
	a AtomID
	k *big.Int
}

// Lin is a linear expression over integer atoms. Immutable.
type Lin struct {
	c *big.Int
	t []LT
}

var (
	bi0 = big.NewInt(0)
	bi1 = big.NewInt(1)
)

func cI(n int64) Lin       { return Lin{c: big.NewInt(n)} }
func cB(n *big.Int) Lin    { return Lin{c: n} }
func linAtom(a AtomID) Lin { return Lin{c: bi0, t: []LT{{a, bi1}}} }

func (l Lin) isConst() bool { return len(l.t) == 0 }
func (l Lin) cint() int64   { return l.c.Int64() }
func (l Lin) isZero() bool  { return len(l.t) == 0 && l.c.Sign() == 0 }

func (l Lin) add(m Lin) Lin { return l.addMul(m, bi1) }
func (l Lin) sub(m Lin) Lin { return l.addMul(m, big.NewInt(-1)) }

func (l Lin) addc(n int64) Lin {
	return Lin{c: new(big.Int).Add(l.c, big.NewInt(n)), t: l.t}
}

func (l Lin) addMul(m Lin, k *big.Int) Lin {
	if len(m.t) == 0 {
		if m.c.Sign() == 0 {
			return l
		}
		return Lin{c: new(big.Int).Add(l.c, new(big.Int).Mul(m.c, k)), t: l.t}
	}
	out := Lin{c: new(big.Int).Add(l.c, new(big.Int).Mul(m.c, k))}
	out.t = make([]LT, 0, len(l.t)+len(m.t))
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		if j >= len(m.t) || (i < len(l.t) && l.t[i].a < m.t[j].a) {
			out.t = append(out.t, l.t[i])
			i++
		} else if i >= len(l.t) || m.t[j].a < l.t[i].a {
			out.t = append(out.t, LT{m.t[j].a, new(big.Int).Mul(m.t[j].k, k)})
			j++
		} else {
			s := new(big.Int).Mul(m.t[j].k, k)
			s.Add(s, l.t[i].k)
			if s.Sign() != 0 {
				out.t = append(out.t, LT{l.t[i].a, s})
			}
			i++
			j++
		}
	}
	return out
}

func (l Lin) mulc(k *big.Int) Lin {
	if k.Sign() == 0 {
		return cI(0)
	}
	out := Lin{c: new(big.Int).Mul(l.c, k)}
	for _, t := range l.t {
		out.t = append(out.t, LT{t.a, new(big.Int).Mul(t.k, k)})
	}
	return out
}

func (l Lin) neg() Lin { return l.mulc(big.NewInt(-1)) }

func (l Lin) eq(m Lin) bool {
	if len(l.t) != len(m.t) || l.c.Cmp(m.c) != 0 {
		return false
	}
	for i := range l.t {
		if l.t[i].a != m.t[i].a || l.t[i].k.Cmp(m.t[i].k) != 0 {
			return false
		}
	}
	return true
}

func (l Lin) key() string {
	var sb strings.Builder
	sb.WriteString(l.c.String())
	for _, t := range l.t {
		fmt.Fprintf(&sb, "+%s*i%d", t.k.String(), t.a)
	}
	return sb.String()
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (l Lin) smt() string {
	if len(l.t) == 0 {
		return smtInt(l.c)
	}
	var sb strings.Builder
	n := 0
	for _, t := range l.t {
		if t.k.Cmp(bi1) == 0 {
			fmt.Fprintf(&sb, " i%d", t.a)
		} else {
			fmt.Fprintf(&sb, " (* %s i%d)", smtInt(t.k), t.a)
		}
		n++
	}
	if l.c.Sign() != 0 {
		sb.WriteString(" " + smtInt(l.c))
		n++
	}
	if n == 1 {
		return sb.String()[1:]
	}
	return "(+" + sb.String() + ")"
}

// ---- byte sets ----

type CS [4]uint64

var csAll = CS{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (s CS) has(b byte) bool  { return s[b>>6]&(1<<(b&63)) != 0 }
func (s *CS) add(b byte)      { s[b>>6] |= 1 << (b & 63) }
func (s CS) and(t CS) CS      { return CS{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]} }
func (s CS) or(t CS) CS       { return CS{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]} }
func (s CS) not() CS          { return CS{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s CS) minus(t CS) CS    { return s.and(t.not()) }
func (s CS) empty() bool      { return s == CS{} }
func (s CS) subset(t CS) bool { return s.minus(t).empty() }
func csOf(str string) CS {
	var s CS
	for i := 0; i < len(str); i++ {
		s.add(str[i])
	}
	return s
}
func (s CS) list() []byte {
	var out []byte
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			out = append(out, byte(i))
		}
	}
	return out
}
func (s CS) count() int { return len(s.list()) }
func (s CS) ranges() [][2]int {
	var out [][2]int
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			if n := len(out); n > 0 && out[n-1][1] == i-1 {
				out[n-1][1] = i
			} else {
				out = append(out, [2]int{i, i})
			}
		}
	}
	return out
}
func (s CS) key() string { return fmt.Sprintf("%x.%x.%x.%x", s[0], s[1], s[2], s[3]) }

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func bigI(n int64) *big.Int { return big.NewInt(n) }
func nil2max() *big.Int     { return maxLen }
