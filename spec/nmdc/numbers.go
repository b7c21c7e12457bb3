package nmdc

import (
	"math"
	"strconv"
	"strings"
)

// ---- what the text of a number says ----

func sUint(field string) (uint64, bool) {
	n, err := strconv.ParseUint(sTrim([]byte(field)), 10, 64)
	return n, err == nil
}

func sInt(field string) (int, bool) {
	n, err := strconv.Atoi(sTrim([]byte(field)))
	return n, err == nil
}

// sIntGiven says that a signed number in a field was read exactly, or refused.
func sIntGiven(field string, got int, accepted bool, what string) {
	n, ok := sInt(field)
	vCheck(ok || !accepted, what+": no number is refused")
	vCheck(!accepted || got == n, what+": the exact number")
}

func sUintGiven(field string, got uint64, accepted bool, what string) {
	n, ok := sUint(field)
	vCheck(ok || !accepted, what+": no number is refused")
	vCheck(!accepted || got == n, what+": the exact number")
}

// The texts around the numbers are of no concern here (N01, N03).
//
//verif:summary (*String).UnmarshalNMDC N05 by H_X_string_decodes
func S5_String(s *String, dec *TextDecoder, data []byte) error {
	if vBool("bad text") {
		return vNewErr("text")
	}
	*s = String(vStr("text"))
	return nil
}

//verif:summary (*Name).UnmarshalNMDC N05 by H_X_name_decodes
func S5_Name(s *Name, dec *TextDecoder, data []byte) error {
	if vBool("bad name") {
		return vNewErr("name")
	}
	*s = Name(vStr("name"))
	return nil
}

// Decoding a text changes nothing but the text.
func H_X_string_decodes() {
	vLoose()
	data := vStr("data")
	mem := []byte(data)
	var s String
	_ = s.UnmarshalNMDC(nil, mem)
	vCheck(string(mem) == data, "the input is left alone")
}

func H_X_name_decodes() {
	vLoose()
	data := vStr("data")
	mem := []byte(data)
	var s Name
	_ = s.UnmarshalNMDC(nil, mem)
	vCheck(string(mem) == data, "the input is left alone")
}

// ---- the parsers ----

func H_N05_unsigned() {
	f := vStr("field")
	n, err := parseUin64Trim([]byte(f))
	want, ok := sUint(f)
	vCheck(ok == (err == nil), "exactly the numbers in range are accepted")
	vCheck(err != nil || n == want, "the exact number")
}

func H_N05_signed() {
	f := vStr("field")
	n, err := atoiTrim([]byte(f))
	want, ok := sInt(f)
	vCheck(ok == (err == nil), "exactly the numbers in range are accepted")
	vCheck(err != nil || n == want, "the exact number")
}

// ---- every message that carries numbers ----

func H_N05_adcget() {
	start, length := vStrNot("start", " "), vStrNot("length", " ")
	var m ADCGet
	err := m.UnmarshalNMDC(nil, []byte(vStrNot("type", " ")+" "+vStrNot("id", " ")+" "+start+" "+length))
	sUintGiven(start, m.Start, err == nil, "start")
	if length == "-1" {
		vCheck(err != nil || m.Length == -1, "the whole file")
		return
	}
	n, ok := sUint(length)
	vCheck(err != nil || ok && n <= math.MaxInt64, "a length that does not fit is refused")
	vCheck(err != nil || m.Length == int64(n), "the exact length")
}

func H_N05_adcget_downloaded() {
	db := vStrNot("db", " ")
	var m ADCGet
	err := m.UnmarshalNMDC(nil, []byte("file id 1 2 DB"+db))
	if err == nil {
		vCheck(m.DownloadedBytes != nil, "given")
		sUintGiven(db, *m.DownloadedBytes, true, "downloaded")
	}
	n, ok := sUint(db)
	_ = n
	vCheck(ok || err != nil, "no number is refused")
}

func H_N05_adcsnd() {
	start, length := vStrNot("start", " "), vStrNot("length", " ")
	var m ADCSnd
	err := m.UnmarshalNMDC(nil, []byte(vStrNot("type", " ")+" "+vStrNot("id", " ")+" "+start+" "+length))
	sUintGiven(start, m.Start, err == nil, "start")
	sUintGiven(length, m.Length, err == nil, "length")
}

func H_N05_direction() {
	num := vStr("num")
	var m Direction
	err := m.UnmarshalNMDC(nil, []byte(vStrNot("dir", " ")+" "+num))
	sUintGiven(num, uint64(m.Number), err == nil, "number")
	vCheck(err != nil || m.Number >= 1 && m.Number <= 32767, "in range")
}

func sHubInfo(pos int) (string, *HubINFO, error) {
	f := vStrNot("field", "$")
	fields := make([]string, 7)
	for i := range fields {
		fields[i] = "1"
	}
	fields[pos] = f
	var m HubINFO
	err := m.UnmarshalNMDC(nil, []byte(strings.Join(fields, "$")))
	return f, &m, err
}

func H_N05_hub_info_1() {
	f, m, err := sHubInfo(3)
	sIntGiven(f, m.I1, err == nil, "i1")
}

func H_N05_hub_info_2() {
	f, m, err := sHubInfo(4)
	sIntGiven(f, m.I2, err == nil, "i2")
}

func H_N05_hub_info_3() {
	f, m, err := sHubInfo(5)
	sIntGiven(f, m.I3, err == nil, "i3")
}

func H_N05_hub_info_4() {
	f, m, err := sHubInfo(6)
	sIntGiven(f, m.I4, err == nil, "i4")
}

func H_N05_search_type() {
	typ := vStrNot("typ", "?")
	var m Search
	err := m.UnmarshalNMDC(nil, []byte("1.2.3.4:412 T?F?5?"+typ+"?"+vStr("pattern")))
	sUintGiven(typ, uint64(m.DataType), err == nil, "type")
}

func H_N05_search_size() {
	size := vStrNot("size", "?")
	var m Search
	err := m.UnmarshalNMDC(nil, []byte("1.2.3.4:412 T?F?"+size+"?1?pattern"))
	if size == "" {
		vCheck(err != nil || m.Size == 0, "no size given")
	} else if size[0] == '-' {
		_, ok := sUint(size[1:])
		vCheck(err != nil || ok && m.Size == 0 && !m.SizeRestricted, "a negative size is no restriction")
	} else {
		sUintGiven(size, m.Size, err == nil, "size")
		vCheck(err != nil || m.SizeRestricted, "it is a restriction")
	}
}

func sSRNums(size, free, total string) (*SR, error) {
	var m SR
	err := m.UnmarshalNMDC(nil, []byte("nick file.txt\x05"+size+" "+free+"/"+total+"\x05hub (1.2.3.4)"))
	return &m, err
}

func H_N05_sr_size() {
	f := vStrNot("size", " \x05")
	m, err := sSRNums(f, "1", "2")
	sUintGiven(f, m.Size, err == nil, "size")
}

func H_N05_sr_free_slots() {
	f := vStrNot("free", "/\x05")
	m, err := sSRNums("1", f, "2")
	sIntGiven(f, m.FreeSlots, err == nil, "free slots")
}

func H_N05_sr_total_slots() {
	f := vStrNot("total", "\x05")
	m, err := sSRNums("1", "2", f)
	sIntGiven(f, m.TotalSlots, err == nil, "total slots")
}

func H_N05_sr_dir() {
	free, total := vStrOf("free", "0123456789"), vStrOf("total", "0123456789")
	var m SR
	err := m.UnmarshalNMDC(nil, []byte("nick dir "+free+"/"+total+"\x05"+vStrNot("rest", "\x05")))
	sIntGiven(free, m.FreeSlots, err == nil, "free slots")
	sIntGiven(total, m.TotalSlots, err == nil, "total slots")
}

func sTag(tag string) (*MyINFO, error) {
	var m MyINFO
	err := m.unmarshalTag([]byte(tag))
	return &m, err
}

func H_N05_my_info_hubs() {
	h := vStrNot("hubs", ",/")
	m, err := sTag("a V:1,H:" + h)
	if h == "" {
		vCheck(err == nil && m.HubsNormal == 1, "the one hub")
		return
	}
	n, ok := sInt(h)
	vCheck(ok == (err == nil), "exactly the numbers are accepted")
	vCheck(err != nil || m.HubsNormal == n, "the exact number")
}

func H_N05_my_info_hubs_normal() {
	f := vStrNot("normal", ",/")
	m, err := sTag("a V:1,H:" + f + "/2/3")
	sIntGiven(f, m.HubsNormal, err == nil, "normal")
}

func H_N05_my_info_hubs_registered() {
	f := vStrNot("registered", ",/")
	m, err := sTag("a V:1,H:1/" + f + "/3")
	sIntGiven(f, m.HubsRegistered, err == nil, "registered")
}

func H_N05_my_info_hubs_operator() {
	f := vStrNot("operator", ",/")
	m, err := sTag("a V:1,H:1/2/" + f)
	sIntGiven(f, m.HubsOperator, err == nil, "operator")
}

func H_N05_my_info_slots() {
	s := vStrNot("slots", ",")
	m, err := sTag("a V:1,S:" + s)
	n, ok := sInt(s)
	vCheck(ok == (err == nil), "exactly the numbers are accepted")
	vCheck(err != nil || m.Slots == n, "the exact number")
}

func H_N05_my_info_share() {
	share := vStrNot("share", "$")
	var m MyINFO
	err := m.UnmarshalNMDC(nil, []byte("$ALL nick desc$ $$$"+share+"$"))
	if n, ok := sUint(share); ok {
		vCheck(err != nil || m.ShareSize == n, "the exact number")
	}
}

var sPrintable = func() (s string) {
	for c := '!'; c <= '~'; c++ {
		s += string(c)
	}
	return
}()

func H_N05_user_command() {
	typ, ctx := vStrOf("typ", sPrintable), vStrOf("ctx", "0123456789")
	var m UserCommand
	err := m.UnmarshalNMDC(nil, []byte(typ+" "+ctx+" path$"+vStrOf("cmd", "abc")))
	sIntGiven(typ, int(m.Typ), err == nil, "type")
	sIntGiven(ctx, int(m.Context), err == nil, "context")
}
