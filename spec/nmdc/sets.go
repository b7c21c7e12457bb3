package nmdc

import "sort"

// ---- N09: extension lists and sets ----

// sNames are the names that may be in a set.
type sNames [3]string

// sExt is a set over some names.
func sExt(name string, a sNames) (Extensions, [3]bool) {
	var st [3]bool
	m := make(Extensions)
	for i, f := range a {
		st[i] = vBool(name)
		if st[i] {
			m[f] = struct{}{}
		}
	}
	return m, st
}

func sHas(m Extensions, st [3]bool, a sNames) bool {
	n := 0
	for i, f := range a {
		_, ok := m[f]
		if ok != st[i] {
			return false
		}
		if ok {
			n++
		}
	}
	return len(m) == n
}

func sThreeNames() sNames {
	a := sNames{vStr("a"), vStr("b"), vStr("e")}
	vAssume(a[0] != a[1] && a[0] != a[2] && a[1] != a[2])
	vBound("sets over three names")
	return a
}

func H_N09_membership() {
	n := sThreeNames()
	a, b := n[0], n[1]
	x, sx := sExt("x", n)
	vCheck(x.Has(a) == sx[0] && x.Has(b) == sx[1], "membership")
	c := vStr("c")
	vAssume(c != a && c != b && c != n[2])
	vCheck(!x.Has(c), "no other name is a member")
	vCheck(!Extensions(nil).Has(c), "nothing is a member of no set")
	x.Set(a)
	sx[0] = true
	vCheck(sHas(x, sx, n), "adding adds exactly one name")
	x.Set(c)
	vCheck(x.Has(a) && x.Has(b) == sx[1] && x.Has(c), "adding keeps the others")
}

func H_N09_clone() {
	n := sThreeNames()
	a, b := n[0], n[1]
	x, sx := sExt("x", n)
	y := x.Clone()
	vCheck(sHas(x, sx, n), "the input is unchanged")
	vCheck(sHas(y, sx, n), "the clone is equal")
	y.Set(a)
	delete(y, b)
	vCheck(sHas(x, sx, n), "the clone is independent")
	x.Set(b)
	vCheck(!y.Has(b), "the clone is independent of its source")
	z := Extensions(nil).Clone()
	vCheck(len(z) == 0, "the clone of no set is empty")
	z.Set(a)
	vCheck(z.Has(a), "the clone of no set is usable")
}

func H_N09_intersect() {
	n := sThreeNames()
	a, b := n[0], n[1]
	x, sx := sExt("x", n)
	y, sy := sExt("y", n)
	r := x.Intersect(y)
	vCheck(sHas(r, [3]bool{sx[0] && sy[0], sx[1] && sy[1], sx[2] && sy[2]}, n), "exactly the names in both")
	vCheck(sHas(x, sx, n) && sHas(y, sy, n), "inputs are unchanged")
	r.Set(a)
	r.Set(b)
	vCheck(sHas(x, sx, n) && sHas(y, sy, n), "the result is independent")
}

func H_N09_intersect_nil() {
	n := sThreeNames()
	x, sx := sExt("x", n)
	vCheck(len(x.Intersect(nil)) == 0 && len(Extensions(nil).Intersect(x)) == 0, "nothing in common with no set")
	vCheck(len(x.IntersectList(nil)) == 0, "nothing in common with no list")
	vCheck(sHas(x, sx, n), "inputs are unchanged")
}

func H_N09_intersect_list() {
	n := sThreeNames()
	a, b := n[0], n[1]
	x, sx := sExt("x", n)
	c, d, e := vStr("c"), vStr("d"), vStr("f")
	l := []string{c, d, e}[:vPick("n", 4)]
	r := x.IntersectList(l)
	in := [3]bool{}
	for _, s := range l {
		in[0] = in[0] || s == a
		in[1] = in[1] || s == b
		in[2] = in[2] || s == n[2]
	}
	vCheck(sHas(r, [3]bool{sx[0] && in[0], sx[1] && in[1], sx[2] && in[2]}, n), "exactly the names in both")
	vCheck(sHas(x, sx, n), "the set is unchanged")
	vCheck(len(l) < 1 || l[0] == c, "the list is unchanged")
	vCheck(len(l) < 2 || l[1] == d, "the list is unchanged")
	vCheck(len(l) < 3 || l[2] == e, "the list is unchanged")
}

func H_N09_list() {
	n := sThreeNames()
	a, b := n[0], n[1]
	x, sx := sExt("x", n)
	l := x.List()
	vCheck(len(l) == len(x), "one entry for each name")
	vCheck(sort.StringsAreSorted(l), "sorted")
	var in [3]bool
	for _, s := range l {
		vCheck(x.Has(s), "only members")
		in[0] = in[0] || s == a
		in[1] = in[1] || s == b
		in[2] = in[2] || s == n[2]
	}
	vCheck(in == sx, "all members")
	vCheck(sHas(x, sx, n), "the set is unchanged")
}

// sDistinct is a list of at most three different names.
func sDistinct(name string) []string {
	a, b, c := vStr(name+"1"), vStr(name+"2"), vStr(name+"3")
	vAssume(a != b && a != c && b != c)
	return []string{a, b, c}[:vPick(name, 4)]
}

func H_N09_lists() {
	vBound("lists of at most three names")
	x, y := &Supports{Ext: sDistinct("x")}, &Supports{Ext: sDistinct("y")}
	a, c := append([]string(nil), x.Ext...), append([]string(nil), y.Ext...)
	r := x.Intersect(y)
	n := 0
	for _, s := range x.Ext {
		both := sMember(y.Ext, s)
		vCheck(sMember(r.Ext, s) == both, "exactly the names in both")
		if both {
			n++
		}
	}
	vCheck(len(r.Ext) == n, "nothing else")
	vCheck(sSameList(x.Ext, a) && sSameList(y.Ext, c), "inputs are unchanged")
	for i := range r.Ext {
		r.Ext[i] = "other" + r.Ext[i]
	}
	vCheck(sSameList(y.Ext, c), "the result is independent")
}

func sSameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sMember(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
