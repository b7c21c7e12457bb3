package adc

// ---- A07: feature sets ----

// sSet is a set over at most two features, each absent, removed or added.
func sSet(name string, a, b Feature) (ModFeatures, [2]int) {
	var st [2]int
	if vBool(name + ".nil") {
		return nil, st
	}
	m := make(ModFeatures)
	for i, f := range []Feature{a, b} {
		st[i] = vPick(name, 3)
		if st[i] > 0 {
			m[f] = st[i] == 2
		}
	}
	return m, st
}

func sSame(m ModFeatures, st [2]int, a, b Feature) bool {
	n := 0
	for i, f := range []Feature{a, b} {
		v, ok := m[f]
		if ok != (st[i] > 0) || v != (st[i] == 2) {
			return false
		}
		if ok {
			n++
		}
	}
	return len(m) == n
}

func sTwo() (Feature, Feature) {
	a, b := sFeature("a"), sFeature("b")
	vAssume(a != b)
	return a, b
}

func H_A07_set_from() {
	a, b := sTwo()
	x, sx := sSet("x", a, b)
	y, sy := sSet("y", a, b)
	vBound("sets over two features")
	r := x.SetFrom(y)
	for i, f := range []Feature{a, b} {
		want := sx[i]
		if sy[i] > 0 {
			want = sy[i]
		}
		v, ok := r[f]
		vCheck(ok == (want > 0) && v == (want == 2), "the latest announcement wins")
		vCheck(r.IsSet(f) == (want == 2), "a feature is set when it was last added")
	}
	vCheck(sSame(x, sx, a, b) && sSame(y, sy, a, b), "inputs are unchanged")
	if r != nil {
		r[a] = !r[a]
		vCheck(sSame(x, sx, a, b) && sSame(y, sy, a, b), "the result is independent")
	}
}

func H_A07_intersect() {
	a, b := sTwo()
	x, sx := sSet("x", a, b)
	y, sy := sSet("y", a, b)
	vBound("sets over two features")
	r := x.Intersect(y)
	n := 0
	for i, f := range []Feature{a, b} {
		both := sx[i] == 2 && sy[i] == 2
		vCheck(r.IsSet(f) == both, "exactly the features present in both")
		if both {
			n++
		}
	}
	vCheck(len(r) == n, "nothing else")
	vCheck(sSame(x, sx, a, b) && sSame(y, sy, a, b), "inputs are unchanged")
}

func H_A07_clone() {
	a, b := sTwo()
	x, sx := sSet("x", a, b)
	vBound("sets over two features")
	c := x.Clone()
	vCheck(sSame(c, sx, a, b), "the same set")
	c[a] = !c[a]
	vCheck(sSame(x, sx, a, b), "the clone is independent")
}

func H_A07_join() {
	a, b := sTwo()
	x, sx := sSet("x", a, b)
	vBound("sets over two features")
	s := x.Join()
	switch {
	case sx[0] == 2 && sx[1] == 2:
		vCheck(s == a.String()+","+b.String() || s == b.String()+","+a.String(), "both names")
	case sx[0] == 2:
		vCheck(s == a.String(), "one name")
	case sx[1] == 2:
		vCheck(s == b.String(), "one name")
	default:
		vCheck(s == "", "no name")
	}
}

// A sequence of announcements applied one after the other.
func H_A07_announcements() {
	a, b := sTwo()
	vAssume(sNone(a.String(), " \\") && sNone(b.String(), " \\"))
	var m ModFeatures
	var st [2]int
	for step := 0; step < 3; step++ {
		msg := ""
		add, rm := [2]bool{}, [2]bool{}
		for i, f := range []Feature{a, b} {
			switch vPick("action", 3) {
			case 1:
				msg += " AD" + f.String()
				add[i] = true
			case 2:
				msg += " RM" + f.String()
				rm[i] = true
			}
		}
		if msg == "" {
			continue
		}
		vCheck(m.UnmarshalADC([]byte(msg[1:])) == nil, "decodes")
		for i := range st {
			if add[i] {
				st[i] = 2
			} else if rm[i] {
				st[i] = 1
			}
		}
		vCheck(sSame(m, st, a, b), "the latest announcement wins")
		vCheck(m.IsSet(a) == (st[0] == 2) && m.IsSet(b) == (st[1] == 2), "set when last added")
	}
	vBound("three announcements over two features")
}

func H_A07_malformed() {
	s := vStrNot("s", " \\")
	vAssume(len(s) != 4)
	var m ModFeatures
	vCheck(m.UnmarshalADC([]byte("AD"+s)) != nil, "a name of another length is refused")
	vCheck(len(m) == 0, "nothing is added")
	vCheck(m.UnmarshalADC([]byte("RM"+s)) != nil, "a name of another length is refused")
}
