package adc

import "bytes"

// ---- A06: messages with their own encoding ----

func sSelf(m Marshaler) []byte {
	buf := bytes.NewBuffer(nil)
	vCheck(m.MarshalADC(buf) == nil, "accepted")
	return buf.Bytes()
}

func H_A06_status() {
	m := Status{Sev: Severity(vInt("sev", 0, 1<<50)), Code: vInt("code", 0, 99), Msg: vStr("msg")}
	data := sSelf(m)
	vCheck(bytes.IndexByte(data, '\n') < 0, "no line feed")
	var got Status
	vCheck(got.UnmarshalADC(data) == nil, "decodes")
	vCheck(got == m, "same status")
}

func H_A06_status_small() {
	// the three defined severities, with the digits spelled out
	sev, code := vInt("sev", 0, 9), vInt("code", 0, 99)
	m := Status{Sev: Severity(sev), Code: code, Msg: vStr("msg")}
	data := sSelf(m)
	vCheck(len(data) >= 4, "three digits and a space")
	vCheck(int(data[0]) == '0'+sev && int(data[1]) == '0'+code/10 && int(data[2]) == '0'+code%10 && data[3] == ' ', "severity and two digits")
	vCheck(string(data[4:]) == vHom(m.Msg, sEsc), "the text follows")
	vCheck(m.Ok() == (sev == 0), "success is severity 0")
	vCheck((m.Err() == nil) == (sev == 0), "an error otherwise")
	vCheck(m.Recoverable() == (sev <= 1), "recoverable is severity 0 or 1")
}

func H_A06_status_reused() {
	m := Status{Sev: Severity(vInt("sev", 0, 9)), Code: vInt("code", 0, 99)}
	got := Status{Sev: 5, Code: 17, Msg: vStr("old")}
	vCheck(got.UnmarshalADC(sSelf(m)) == nil, "decodes")
	vCheck(got == m, "nothing of the previous value is left")
}

func H_A06_get_request() {
	m := GetRequest{Type: vStr("type"), Path: vStr("path"), Start: vI64("start"), Bytes: vI64("bytes"), Compressed: vBool("zl")}
	data := sSelf(m)
	vCheck(bytes.IndexByte(data, '\n') < 0, "no line feed")
	var got GetRequest
	vCheck(got.UnmarshalADC(data) == nil, "decodes")
	vCheck(got == m, "same request")
}

func H_A06_get_response() {
	m := GetResponse{Type: vStr("type"), Path: vStr("path"), Start: vI64("start"), Bytes: vI64("bytes"), Compressed: vBool("zl")}
	got, err := UnmarshalMessage(m.Cmd(), sSelf(m))
	vCheck(err == nil, "decodes")
	r, ok := got.(GetResponse)
	vCheck(ok && r == m, "same response")
}

func H_A06_challenge() {
	m := GetPassword{Salt: []byte(vStr("salt"))}
	vAssume(len(m.Salt) < 1<<20)
	data := sSelf(m)
	vCheck(sNone(string(data), " \n"), "no separators")
	var got GetPassword
	vCheck(got.UnmarshalADC(data) == nil, "decodes")
	vCheck(string(got.Salt) == string(m.Salt), "same salt")
}

func H_A06_sid() {
	m := SIDAssign{SID: sSID("sid")}
	var got SIDAssign
	vCheck(got.UnmarshalADC(sSelf(m)) == nil, "decodes")
	vCheck(got == m, "same identifier")
}

func H_A06_fields() {
	n := vPick("n", 7)
	var m Fields
	for i := 0; i < n; i++ {
		var tag [2]byte
		copy(tag[:], vStrLen("tag", 2))
		vAssume(tag[0] != ' ' && tag[1] != ' ')
		m = append(m, Field{Tag: tag, Value: vStr("value")})
	}
	vBound("at most six fields")
	data := sSelf(m)
	got := Fields{{Value: "old"}}
	vCheck(got.UnmarshalADC(data) == nil, "decodes")
	vCheck(vEq(got, m), "same fields")
}

func H_A06_user_mod() {
	var tag [2]byte
	copy(tag[:], vStrLen("tag", 2))
	vAssume(tag[0] != ' ' && tag[1] != ' ')
	m := UserInfoMod{{Tag: tag, Value: vStr("value")}}
	var got UserInfoMod
	vCheck(got.UnmarshalADC(sSelf(m)) == nil, "decodes")
	vCheck(vEq(got, m), "same fields")
}

func H_A06_path() {
	n := vPick("n", 6)
	m := Path{sPathPart("p")}
	for i := 0; i < n; i++ {
		m = append(m, sPathPart("p"))
	}
	vBound("at most six path parts")
	data := sSelf(m)
	vCheck(sNone(string(data), " \n"), "no separators")
	var got Path
	vCheck(got.UnmarshalADC(data) == nil, "decodes")
	vCheck(vEq(got, m), "same path")
}

func H_A06_raw() {
	text := vStr("data")
	data := sSelf(&RawMessage{Data: []byte(text)})
	vCheck(string(data) == text, "written as it is")
	got := &RawMessage{}
	vCheck(got.UnmarshalADC(data) == nil, "decodes")
	vCheck(string(got.Data) == text, "same payload")
	if len(data) > 0 {
		data[0] ^= 1
		vCheck(string(got.Data) == text, "the payload is a copy")
	}
}

func H_A06_boolint() {
	v := BoolInt(vBool("v"))
	var got BoolInt
	vCheck(got.UnmarshalADC(sSelf(v)) == nil, "decodes")
	vCheck(got == v, "same flag")
}

func H_A06_features() {
	a, b := sFeature("a"), sFeature("b")
	vAssume(a != b && sNone(a.String(), " \\") && sNone(b.String(), " \\"))
	m := Supported{Features: ModFeatures{a: vBool("va")}}
	if vBool("two") {
		m.Features[b] = vBool("vb")
	}
	vBound("at most two features")
	got, err := UnmarshalMessage(m.Cmd(), sSelf(m))
	vCheck(err == nil, "decodes")
	s, ok := got.(Supported)
	vCheck(ok, "same type")
	vCheck(len(s.Features) == len(m.Features), "as many features")
	for f, v := range m.Features {
		w, ok := s.Features[f]
		vCheck(ok && v == w, "same announcement")
	}
}

func H_A06_ext_features() {
	n := vPick("n", 4)
	m := ExtFeatures{}
	for i := 0; i <= n; i++ {
		f := sFeature("f")
		vAssume(sNone(f.String(), ","))
		m = append(m, f)
	}
	vBound("at most four features")
	var got ExtFeatures
	vCheck(got.UnmarshalADC(sSelf(m)) == nil, "decodes")
	vCheck(vEq(got, m), "same list")
	x := sFeature("x")
	has := false
	for _, f := range m {
		has = has || f == x
	}
	vCheck(m.Has(x) == has, "membership")
}

func H_A06_add_features() {
	a, b := vStrLen("a", 4), vStrLen("b", 4)
	vAssume(sNone(a, " \\") && sNone(b, " \\") && a != b)
	data := sSelf(AddFeatures{a, b})
	var got Supported
	vCheck(got.UnmarshalADC(data) == nil, "decodes")
	var fa, fb Feature
	copy(fa[:], a)
	copy(fb[:], b)
	vCheck(len(got.Features) == 2 && got.Features[fa] && got.Features[fb], "both are added")
}
