package nmdc

import (
	"bytes"
	"errors"
	"strconv"

	"github.com/direct-connect/go-dc/types"
)

// ---- N03: every other registered message ----

// sNm is an arbitrary name that can be written where a name ends with the field.
func sNm(name string) string {
	s := vStrNot(name, "\x00\r\n\t$")
	vAssume(sNameOK(s))
	return s
}

// sNmTok is an arbitrary name that can be written where a space ends the name.
func sNmTok(name string) string {
	s := vStrNot(name, "\x00\r\n\t$ ")
	vAssume(sNameOK(s))
	return s
}

// sTx is an arbitrary text that can be written.
func sTx(name string) string {
	s := vStrNot(name, "\x00")
	vAssume(sTextOK(s))
	return s
}

// sTxTok is an arbitrary text that can be written where a space ends it.
func sTxTok(name string) string {
	s := vStrNot(name, "\x00 ")
	vAssume(sTextOK(s))
	return s
}

// sRecode encodes m and decodes the result into got.
func sRecode(m, got Message) {
	data := sEncode(m)
	vCheck(got.UnmarshalNMDC(nil, data) == nil, "decodes")
}

func H_N03_connect_to_me() {
	addr := vStrNot("addr", "\x00 |")
	vAssume(addr == "" || addr[len(addr)-1] != 'N' && addr[len(addr)-1] != 'R' && addr[len(addr)-1] != 'S')
	m := ConnectToMe{Targ: sNmTok("targ"), Address: addr, Kind: CTMKind(vPick("kind", 3)), Secure: vBool("secure")}
	vAssume(m.Targ != "")
	if m.Kind == CTMPassiveReq {
		m.Src = sNm("src")
		vAssume(m.Src != "")
	}
	var got ConnectToMe
	sRecode(&m, &got)
	vCheck(got.Targ == m.Targ, "same target")
	vCheck(got.Src == m.Src, "same source")
	vCheck(got.Address == m.Address, "same address")
	vCheck(got.Kind == m.Kind, "same kind")
	vCheck(got.Secure == m.Secure, "same security")
}

func H_N03_rev_connect_to_me() {
	m := RevConnectToMe{From: sNmTok("from"), To: sNm("to")}
	var got RevConnectToMe
	sRecode(&m, &got)
	vCheck(got.From == m.From, "same sender")
	vCheck(got.To == m.To, "same recipient")
}

func H_N03_names() {
	n := Name(sNm("name"))
	var hello Hello
	sRecode(&Hello{n}, &hello)
	vCheck(hello.Name == n, "Hello")
	var vn ValidateNick
	sRecode(&ValidateNick{n}, &vn)
	vCheck(vn.Name == n, "ValidateNick")
	var vd ValidateDenide
	sRecode(&ValidateDenide{n}, &vd)
	vCheck(vd.Name == n, "ValidateDenide")
	var mn MyNick
	sRecode(&MyNick{n}, &mn)
	vCheck(mn.Name == n, "MyNick")
}

func H_N03_names_more() {
	n := Name(sNm("name"))
	var q Quit
	sRecode(&Quit{n}, &q)
	vCheck(q.Name == n, "Quit")
	var l LogedIn
	sRecode(&LogedIn{n}, &l)
	vCheck(l.Name == n, "LogedIn")
	var k Kick
	sRecode(&Kick{n}, &k)
	vCheck(k.Name == n, "Kick")
	var c Close
	sRecode(&Close{n}, &c)
	vCheck(c.Name == n, "Close")
}

func H_N03_texts() {
	s := String(sTx("text"))
	var hn HubName
	sRecode(&HubName{s}, &hn)
	vCheck(hn.String == s, "HubName")
	var st SetTopic
	sRecode(&SetTopic{s}, &st)
	vCheck(st.String == s, "SetTopic")
	var ht HubTopic
	sRecode(&HubTopic{string(s)}, &ht)
	vCheck(ht.Text == string(s), "HubTopic")
	var mp MyPass
	sRecode(&MyPass{s}, &mp)
	vCheck(mp.String == s, "MyPass")
}

func H_N03_texts_more() {
	s := String(sTx("text"))
	var b BotINFO
	sRecode(&BotINFO{s}, &b)
	vCheck(b.String == s, "BotINFO")
	var i SetIcon
	sRecode(&SetIcon{s}, &i)
	vCheck(i.String == s, "SetIcon")
	var l SetLogo
	sRecode(&SetLogo{s}, &l)
	vCheck(l.String == s, "SetLogo")
}

func H_N03_errors() {
	s := sTx("text")
	var f Failed
	sRecode(&Failed{errors.New(s)}, &f)
	var e Error
	sRecode(&Error{errors.New(s)}, &e)
	if s == "" {
		vCheck(f.Err == nil && e.Err == nil, "no text")
		return
	}
	vCheck(f.Err.Error() == s, "Failed")
	vCheck(e.Err.Error() == s, "Error")
}

func H_N03_errors_without_text() {
	var f Failed
	sRecode(&Failed{}, &f)
	vCheck(f.Err == nil, "Failed")
	var e Error
	sRecode(&Error{}, &e)
	vCheck(e.Err == nil, "Error")
}

func H_N03_raw_texts() {
	s := vStr("text")
	var v Version
	sRecode(&Version{s}, &v)
	vCheck(v.Vers == s, "Version")
	var f ForceMove
	sRecode(&ForceMove{s}, &f)
	vCheck(f.Address == s, "ForceMove")
	var k Key
	sRecode(&Key{s}, &k)
	vCheck(k.Key == s, "Key")
	r := RawMessage{Typ: "X"}
	sRecode(&RawMessage{Typ: "X", Data: []byte(s)}, &r)
	vCheck(string(r.Data) == s && r.Typ == "X", "RawMessage")
}

func H_N03_no_arguments() {
	for _, m := range []Message{&ZOn{}, &HubIsFull{}, &GetTopic{}, &BadPass{}, &GetPass{}, &GetNickList{}, &MaxedOut{}} {
		vCheck(len(sEncode(m)) == 0, "no payload")
		vCheck(m.UnmarshalNMDC(nil, nil) == nil, "decodes")
		vCheck(m.UnmarshalNMDC(nil, []byte(vStrLen("extra", 1)+vStr("more"))) != nil, "an argument is refused")
	}
}

func H_N03_fail_over() {
	a := vStrNot("a", ",")
	vAssume(a != "")
	m := FailOver{Host: []string{a}}
	for i := vPick("more", 8); i > 0; i-- {
		m.Host = append(m.Host, vStrNot("b", ","))
	}
	vBound("lists of at most eight")
	var got FailOver
	sRecode(&m, &got)
	vCheck(vEq(got.Host, m.Host), "same hosts")
}

func H_N03_supports() {
	m := Supports{}
	for i := vPick("n", 9); i > 0; i-- {
		a := vStrNot("a", " ")
		vAssume(a != "")
		m.Ext = append(m.Ext, a)
	}
	vBound("lists of at most eight")
	var got Supports
	sRecode(&m, &got)
	vCheck(vEq(got.Ext, m.Ext), "same extensions")
}

// sFew is a list of some names.
func sFew() Names {
	vBound("lists of at most eight names")
	var l Names
	for i := vPick("n", 9); i > 0; i-- {
		a := sNm("a")
		vAssume(a != "")
		l = append(l, a)
	}
	return l
}

func H_N03_op_list() {
	l := sFew()
	var got OpList
	sRecode(&OpList{l}, &got)
	vCheck(vEq(got.Names, l), "same names")
}

func H_N03_bot_list() {
	l := sFew()
	var got BotList
	sRecode(&BotList{l}, &got)
	vCheck(vEq(got.Names, l), "same names")
}

func H_N03_user_ip() {
	l := []UserAddress{{Name: sNm("a"), IP: vStrNot("ip", "\x00 $|\r")}}
	for i := vPick("more", 8); i > 0; i-- {
		l = append(l, UserAddress{Name: sNm("b"), IP: vStrNot("ip", "\x00 $|\r")})
	}
	vBound("lists of at most eight addresses")
	m := UserIP{List: l}
	var got UserIP
	sRecode(&m, &got)
	vCheck(vEq(got.List, m.List), "same addresses")
}

func H_N03_adc_get() {
	m := ADCGet{
		ContentType: String(sTxTok("type")), Identifier: String(sTxTok("id")),
		Start: vU64("start"), Length: vI64("len"),
		Compressed: vBool("z"),
	}
	vAssume(m.Length >= -1)
	if vBool("db") {
		n := vU64("dbn")
		m.DownloadedBytes = &n
	}
	var got ADCGet
	sRecode(&m, &got)
	vCheck(got.ContentType == m.ContentType, "same type")
	vCheck(got.Identifier == m.Identifier, "same identifier")
	vCheck(got.Start == m.Start, "same start")
	vCheck(got.Length == m.Length, "same length")
	vCheck(got.Compressed == m.Compressed, "same flag")
	vCheck((got.DownloadedBytes == nil) == (m.DownloadedBytes == nil), "downloaded bytes given or not")
	if m.DownloadedBytes != nil {
		vCheck(*got.DownloadedBytes == *m.DownloadedBytes, "same downloaded bytes")
	}
}

func H_N03_adc_snd() {
	m := ADCSnd{
		ContentType: String(sTxTok("type")), Identifier: String(sTxTok("id")),
		Start: vU64("start"), Length: vU64("len"),
		Compressed: vBool("z"),
	}
	var got ADCSnd
	sRecode(&m, &got)
	vCheck(got.ContentType == m.ContentType, "same type")
	vCheck(got.Identifier == m.Identifier, "same identifier")
	vCheck(got.Start == m.Start, "same start")
	vCheck(got.Length == m.Length, "same length")
	vCheck(got.Compressed == m.Compressed, "same flag")
}

func H_N03_direction() {
	m := Direction{Upload: vBool("up"), Number: uint(vInt("n", 1, 32767))}
	var got Direction
	sRecode(&m, &got)
	vCheck(got == m, "same message")
}

func H_N03_lock() {
	lock := vStrNot("lock", " ")
	m := Lock{NoExt: vBool("noext"), Lock: lock}
	vAssume(!m.NoExt || !bytes.HasPrefix([]byte(lock), []byte("EXTENDEDPROTOCOL")))
	if vBool("pk") {
		m.PK = vStr("pk")
		vAssume(m.PK != "" && !sCont(m.PK+"Ref", "Ref=") && !sCont(m.PK, "Ref="))
		vAssume(!bytes.HasPrefix([]byte(m.PK), []byte("Pk=")))
	}
	if vBool("ref") {
		m.Ref = vStr("ref")
		vAssume(m.Ref != "")
	}
	vAssume(m.PK == "" || m.Ref == "" || !sCont(m.PK+"Ref=", "RefRef="))
	var got Lock
	sRecode(&m, &got)
	vCheck(got.NoExt == m.NoExt, "same protocol")
	vCheck(got.Lock == m.Lock, "same lock")
	vCheck(got.PK == m.PK, "same PK")
	vCheck(got.Ref == m.Ref, "same Ref")
}

func sTTH(name string) *TTH {
	var h TTH
	copy(h[:], vStrLen(name, 24))
	return &h
}

func H_N03_search_active() {
	m := TTHSearchActive{TTH: *sTTH("tth"), Address: vStr("addr")}
	var got TTHSearchActive
	sRecode(&m, &got)
	vCheck(got.TTH == m.TTH, "same hash")
	vCheck(got.Address == m.Address, "same address")
}

func H_N03_search_passive() {
	m := TTHSearchPassive{TTH: *sTTH("tth"), User: sNm("user")}
	var got TTHSearchPassive
	sRecode(&m, &got)
	vCheck(got.TTH == m.TTH, "same hash")
	vCheck(got.User == m.User, "same user")
}

// sSearch is an arbitrary search without its pattern.
func sSearch() Search {
	m := Search{Size: vU64("size")}
	if vBool("active") {
		m.Address = vStrNot("addr", "\x00 |")
		vAssume(m.Address != "" && !bytes.HasPrefix([]byte(m.Address), []byte("Hub:")))
	} else {
		m.User = sNmTok("user")
	}
	m.SizeRestricted = vBool("restricted")
	m.IsMaxSize = true
	if m.SizeRestricted {
		m.IsMaxSize = vBool("max")
	}
	return m
}

func sSameSearch(got, m *Search) {
	vCheck(got.Address == m.Address, "same address")
	vCheck(got.User == m.User, "same user")
	vCheck(got.SizeRestricted == m.SizeRestricted, "same restriction")
	vCheck(got.IsMaxSize == m.IsMaxSize, "same direction")
	vCheck(got.Size == m.Size, "same size")
	vCheck(got.DataType == m.DataType, "same data type")
}

func H_N03_search_text() {
	m := sSearch()
	m.DataType = DataType(vU64("typ"))
	vAssume(m.DataType != 0 && m.DataType != DataTypeTTH)
	m.Pattern = sTx("pattern")
	var got Search
	sRecode(&m, &got)
	sSameSearch(&got, &m)
	vCheck(got.Pattern == m.Pattern, "same pattern")
	vCheck(got.TTH == nil, "no hash")
}

func H_N03_search_hash() {
	m := sSearch()
	m.DataType = DataTypeTTH
	m.TTH = sTTH("tth")
	var got Search
	sRecode(&m, &got)
	sSameSearch(&got, &m)
	vCheck(got.Pattern == "", "no pattern")
	vCheck(*got.TTH == *m.TTH, "same hash")
}

// sSR is an arbitrary result of the given kind with some path elements.
func sSR(isDir bool) SR {
	m := SR{From: sNmTok("from"), IsDir: isDir, HubAddress: vStrNot("hub", "\x00)|\x05")}
	p := vStrNot("p", "\x00\\\x05")
	vAssume(sTextOK(p))
	m.Path = []string{p}
	last := p
	for i := vPick("more", 5); i > 0; i-- {
		last = vStrNot("q", "\x00\\\x05")
		vAssume(sTextOK(last))
		m.Path = append(m.Path, last)
	}
	vBound("paths of at most five elements")
	if !isDir {
		m.Size = vU64("size")
		// a file path that ends like the slots of a directory cannot be told from one
		vAssume(last == "" || last[len(last)-1] != '/' && (last[len(last)-1] < '0' || last[len(last)-1] > '9'))
	}
	return m
}

func sSameSR(got, m *SR) {
	vCheck(got.From == m.From, "same sender")
	vCheck(vEq(got.Path, m.Path), "same path")
	vCheck(got.IsDir == m.IsDir, "same kind")
	vCheck(got.Size == m.Size, "same size")
	vCheck(got.FreeSlots == m.FreeSlots && got.TotalSlots == m.TotalSlots, "same slots")
	vCheck(got.HubName == m.HubName, "same hub name")
	vCheck(got.HubAddress == m.HubAddress, "same hub address")
	vCheck(got.To == m.To, "same recipient")
}

func H_N03_result_file_hash() {
	m := sSR(false)
	m.TTH = sTTH("tth")
	m.FreeSlots, m.TotalSlots = 1, 3
	var got SR
	sRecode(&m, &got)
	sSameSR(&got, &m)
	vCheck(*got.TTH == *m.TTH, "same hash")
}

func H_N03_result_dir_hash() {
	m := sSR(true)
	m.TTH = sTTH("tth")
	m.FreeSlots, m.TotalSlots = 1, 3
	if vBool("to") {
		m.To = sNm("to")
	}
	var got SR
	sRecode(&m, &got)
	sSameSR(&got, &m)
	vCheck(*got.TTH == *m.TTH, "same hash")
}

func H_N03_result_hub_name() {
	m := SR{From: "a", Path: []string{"b"}, HubAddress: "x", FreeSlots: 1, TotalSlots: 3}
	m.IsDir = vBool("dir")
	m.HubName = sTx("hubname")
	vAssume(!sCont(m.HubName, " (") && !bytes.HasPrefix([]byte(m.HubName), []byte("TTH:")) && sNone(m.HubName, "\x05"))
	if vBool("to") {
		m.To = sNm("to")
	}
	var got SR
	sRecode(&m, &got)
	sSameSR(&got, &m)
	vCheck(got.TTH == nil, "no hash")
}

func H_N03_result_slots() {
	m := SR{From: "a", Path: []string{"b"}, IsDir: vBool("dir"), HubName: "h", HubAddress: "x", To: "y"}
	m.FreeSlots, m.TotalSlots = vInt("free", 0, 1<<62), vInt("total", 0, 1<<62)
	var got SR
	sRecode(&m, &got)
	sSameSR(&got, &m)
}

func sSoft(set string) types.Software {
	s := types.Software{Name: vStrNot("soft", set)}
	if vBool("version") {
		s.Version = vStrNot("vers", set+" ")
		vAssume(s.Version != "")
	} else {
		vAssume(sNone(s.Name, " "))
	}
	return s
}

func H_N03_hub_info_texts() {
	m := HubINFO{
		Name: sTx("name"), Host: vStrNot("host", "\x00|$"), Desc: sTx("desc"),
		Owner: sTx("owner"), State: sTx("state"), Encoding: vStrNot("enc", "\x00|$"),
		I1: 1, I2: 2, I3: 3, I4: 4,
	}
	var got HubINFO
	sRecode(&m, &got)
	vCheck(got.Name == m.Name, "same name")
	vCheck(got.Host == m.Host, "same host")
	vCheck(got.Desc == m.Desc, "same description")
	vCheck(got.Owner == m.Owner, "same owner")
	vCheck(got.State == m.State, "same state")
	vCheck(got.Encoding == m.Encoding, "same encoding")
}

func H_N03_hub_info_numbers() {
	m := HubINFO{
		I1: int(vI64("i1")), I2: int(vI64("i2")), I3: int(vI64("i3")), I4: int(vI64("i4")),
		Soft: sSoft("\x00|$"),
	}
	var got HubINFO
	sRecode(&m, &got)
	vCheck(got.I1 == m.I1 && got.I2 == m.I2 && got.I3 == m.I3 && got.I4 == m.I4, "same numbers")
	vCheck(got.Soft == m.Soft, "same software")
}

func H_N03_my_info_texts() {
	m := MyINFO{Name: sNmTok("name"), Desc: sTx("desc"), Conn: sTx("conn"), Email: sTx("email"), Flag: FlagStatusNormal}
	m.Client = types.Software{Name: "c", Version: "1"}
	vAssume(sNone(m.Desc, "<"))
	var got MyINFO
	sRecode(&m, &got)
	vCheck(got.Name == m.Name, "same name")
	vCheck(got.Desc == m.Desc, "same description")
	vCheck(got.Conn == m.Conn, "same connection")
	vCheck(got.Email == m.Email, "same email")
	vCheck(got.Flag == m.Flag, "same flag")
	vCheck(got.Client == m.Client, "same client")
}

func H_N03_my_info_desc_with_brackets() {
	m := MyINFO{Name: "n", Desc: sTx("desc"), Flag: FlagStatusNormal}
	m.Client = types.Software{Name: "c", Version: "1"}
	var got MyINFO
	sRecode(&m, &got)
	vCheck(got.Desc == m.Desc, "same description")
	vCheck(got.Client == m.Client, "same client")
}

func H_N03_my_info_flag() {
	m := MyINFO{Name: "n", Flag: UserFlag(vByte("flag")), ShareSize: vU64("share")}
	m.Client = types.Software{Name: "c", Version: "1"}
	vAssume(m.Flag != 0 && m.Flag != '$' && m.Flag != '|')
	var got MyINFO
	sRecode(&m, &got)
	vCheck(got.Flag == m.Flag, "same flag")
	vCheck(got.ShareSize == m.ShareSize, "same share size")
}

func H_N03_my_info_hubs() {
	m := MyINFO{
		Name: "n", Flag: FlagStatusNormal,
		HubsNormal: int(vI64("h1")), HubsRegistered: int(vI64("h2")), HubsOperator: int(vI64("h3")),
	}
	m.Client = types.Software{Name: "c", Version: "1"}
	var got MyINFO
	sRecode(&m, &got)
	vCheck(got.HubsNormal == m.HubsNormal && got.HubsRegistered == m.HubsRegistered && got.HubsOperator == m.HubsOperator, "same hubs")
}

func H_N03_my_info_slots() {
	m := MyINFO{Name: "n", Flag: FlagStatusNormal, Slots: int(vI64("slots"))}
	m.Client = types.Software{Name: "c", Version: "1"}
	var got MyINFO
	sRecode(&m, &got)
	vCheck(got.Slots == m.Slots, "same slots")
	vCheck(got.Mode == UserModeUnknown, "same mode")
}

func H_N03_my_info_client() {
	set := "\x00|$,<>"
	m := MyINFO{Name: "n", Flag: FlagStatusNormal}
	name := vStrNot("soft", set+" ")
	for i := vPick("more words", 2); i > 0; i-- {
		w := vStrNot("word", set+" ")
		vAssume(!bytes.HasPrefix([]byte(w), []byte("V:")))
		name += " " + w
	}
	vBound("client names of at most two words")
	m.Client = types.Software{Name: name, Version: vStrNot("vers", set)}
	var got MyINFO
	sRecode(&m, &got)
	vCheck(got.Client == m.Client, "same client")
}

func H_N03_my_info_mode() {
	m := MyINFO{Name: "n", Flag: FlagStatusNormal, Mode: UserMode(vByte("mode"))}
	m.Client = types.Software{Name: "c", Version: "1"}
	vAssume(m.Mode != ' ' && sNone(string([]byte{byte(m.Mode)}), "\x00|$,<>"))
	var got MyINFO
	sRecode(&m, &got)
	vCheck(got.Mode == m.Mode, "same mode")
}

func H_N03_my_info_extra() {
	set := "\x00|$,<>:"
	m := MyINFO{Name: "n", Flag: FlagStatusNormal}
	m.Client = types.Software{Name: "c", Version: "1"}
	k := vStrNot("key", set+" ")
	v := vStrNot("val", set)
	vAssume(len(k) > 1)
	vBound("at most one extra field")
	m.Extra = map[string]string{k: v}
	var got MyINFO
	sRecode(&m, &got)
	vCheck(len(got.Extra) == 1 && got.Extra[k] == v, "same extra field")
	vCheck(got.Client == m.Client, "same client")
}

var _ = strconv.Itoa
