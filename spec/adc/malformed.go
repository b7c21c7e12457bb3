package adc

import (
	"bytes"
	"strconv"
)

// ---- A05: payloads that are not the encoding of a message ----

type sOneInt struct {
	V int `adc:"#"`
}

func (sOneInt) Cmd() MsgType { return MsgType{'O', 'N', 'E'} }

type sOneI32 struct {
	V int32 `adc:"XX"`
}

func (sOneI32) Cmd() MsgType { return MsgType{'O', 'N', 'E'} }

type sOneI16 struct {
	V int16 `adc:"XX"`
}

func (sOneI16) Cmd() MsgType { return MsgType{'O', 'N', 'E'} }

type sOneBool struct {
	V bool `adc:"XX"`
}

func (sOneBool) Cmd() MsgType { return MsgType{'O', 'N', 'E'} }

type sOneTTH struct {
	V TTH `adc:"#"`
}

func (sOneTTH) Cmd() MsgType { return MsgType{'O', 'N', 'E'} }

func H_A05_integers() {
	s := vStrNot("s", " ")
	var m sOneInt
	err := Unmarshal([]byte(s), &m)
	if s == "" {
		vCheck(err == nil && m.V == 0, "an absent value is zero")
		return
	}
	n, perr := strconv.ParseInt(s, 10, 64)
	if perr == nil {
		vCheck(err == nil, "decimal numbers in range are accepted")
		vCheck(int64(m.V) == n, "the value is exact")
		return
	}
	// other spellings of an integer (such as 1e3) may be accepted
}

func H_A05_integer_range() {
	s := vStrOf("s", "0123456789+-")
	var m sOneInt
	err := Unmarshal([]byte(s), &m)
	if s == "" {
		return
	}
	n, perr := strconv.ParseInt(s, 10, 64)
	vCheck((err == nil) == (perr == nil), "numbers out of range or without digits are refused")
	if err == nil {
		vCheck(int64(m.V) == n, "the value is exact")
	}
}

func H_A05_small_integers() {
	s := vStrNot("s", " ")
	var m sOneI16
	if Unmarshal([]byte("XX"+s), &m) == nil {
		n, perr := strconv.ParseInt(s, 10, 64)
		if perr == nil {
			vCheck(int64(m.V) == n, "the value is exact")
		}
	}
	var w sOneI32
	if Unmarshal([]byte("XX"+s), &w) == nil {
		n, perr := strconv.ParseInt(s, 10, 64)
		if perr == nil {
			vCheck(int64(w.V) == n, "the value is exact")
		}
	}
}

func H_A05_flags() {
	s := vStrNot("s", " ")
	var m sOneBool
	if err := Unmarshal([]byte("XX"+s), &m); err == nil {
		vCheck(s == "1" && m.V || (s == "0" || s == "") && !m.V, "only 0 and 1 are flags")
	} else {
		vCheck(s != "0" && s != "1", "0 and 1 are accepted")
	}
}

func H_A05_hashes() {
	s := vStrNot("s", " ")
	var m sOneTTH
	if Unmarshal([]byte(s), &m) == nil {
		vCheck(len(s) == 39, "a hash has 39 characters")
	} else {
		vCheck(m.V == TTH{}, "no value from a malformed hash")
	}
}

func H_A05_boolint() {
	s := vStr("s")
	var v BoolInt
	if v.UnmarshalADC([]byte(s)) == nil {
		vCheck(s == "1" && bool(v) || s == "0" && !bool(v), "only 0 and 1 are flags")
	}
}

func H_A05_missing_positional() {
	s := vStrNot("s", " ")
	var c ConnectRequest
	vCheck(Unmarshal([]byte(s), &c) != nil, "one of three")
	var r RevConnectRequest
	vCheck(Unmarshal([]byte(s), &r) != nil, "one of two")
	var i GetInfoRequest
	vCheck(Unmarshal([]byte(s), &i) != nil, "one of two")
	var p Password
	vCheck(Unmarshal(nil, &p) != nil, "an empty hash")
	var d Disconnect
	vCheck(Unmarshal(nil, &d) != nil, "an empty identifier")
}

func H_A05_two_of_three() {
	s, t := vStrNot("s", " "), vStrNot("t", " ")
	var c ConnectRequest
	vCheck(Unmarshal([]byte(s+" "+t), &c) != nil, "two of three")
}

func H_A05_repeated_field() {
	s, t := vStrNot("s", " "), vStrNot("t", " ")
	var c SearchResult
	vCheck(Unmarshal([]byte("TO"+s+" TO"+t), &c) != nil, "a single value given twice is refused")
}

// sTotal: decoding returns; a panic is reported by the checker itself.
func sTotal(cmd string) { sTotalOf(cmd, vStr("s")) }

func sTotalOf(cmd, s string) {
	var t MsgType
	copy(t[:], cmd)
	m, err := UnmarshalMessage(t, []byte(s))
	vCheck((m == nil) == (err != nil), "a message or an error")
}

// sTotalN is sTotal for payloads of at most n fields.
func sTotalN(cmd string, n int) {
	s := vStrNot("s", " ")
	for i := vPick("fields", n); i > 0; i-- {
		s += " " + vStrNot("s", " ")
	}
	vBound("payloads of at most "+strconv.Itoa(n)+" fields")
	sTotalOf(cmd, s)
}

func H_A05_total_SUP() { sTotalN("SUP", 2) }
func H_A05_total_STA() { sTotal("STA") }
func H_A05_total_ZON() { sTotal("ZON") }
func H_A05_total_SID() { sTotal("SID") }
func H_A05_total_GPA() { sTotal("GPA") }
func H_A05_total_PAS() { sTotal("PAS") }
func H_A05_total_QUI() { sTotalN("QUI", 3) }
func H_A05_total_GFI() { sTotal("GFI") }
func H_A05_total_GET() { sTotal("GET") }
func H_A05_total_SND() { sTotal("SND") }
func H_A05_total_MSG() { sTotalN("MSG", 3) }
func H_A05_total_RCM() { sTotal("RCM") }
func H_A05_total_CTM() { sTotal("CTM") }
func H_A05_total_CMD() { sTotalN("CMD", 1) }
func H_A05_total_RES() { sTotalN("RES", 2) }
func H_A05_total_SCH() { sTotalN("SCH", 1) }
func H_A05_total_INF() { sTotalN("INF", 1) }
func H_A05_total_raw() { sTotal("XYZ") }

func H_A05_get_request() {
	s := vStr("s")
	var g GetRequest
	if g.UnmarshalADC([]byte(s)) != nil {
		return
	}
	arr := bytes.SplitN([]byte(s), []byte(" "), 5)
	vCheck(len(arr) >= 4, "four fields")
	n, err := strconv.ParseInt(string(arr[2]), 10, 64)
	vCheck(err == nil && n == g.Start, "the start is exact")
	n, err = strconv.ParseInt(string(arr[3]), 10, 64)
	vCheck(err == nil && n == g.Bytes, "the length is exact")
	if len(arr) == 5 {
		vCheck(string(arr[4]) == "ZL1" && g.Compressed || len(arr[4]) == 0 && !g.Compressed, "a known flag")
	} else {
		vCheck(!g.Compressed, "no flag")
	}
}

func H_A05_status() {
	s := vStr("s")
	var st Status
	if st.UnmarshalADC([]byte(s)) == nil {
		code := bytes.SplitN([]byte(s), []byte(" "), 2)[0]
		n, err := strconv.Atoi(string(code))
		vCheck(err == nil, "a number")
		vCheck(int(st.Sev)*100+st.Code == n, "the code is exact")
	}
}
