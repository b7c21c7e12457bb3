package adc

import (
	"bytes"
	"math"
	"strconv"
)

// ---- A04: messages described by their fields ----

func sEncode(m Message) []byte {
	buf := bytes.NewBuffer(nil)
	vCheck(Marshal(buf, m) == nil, "accepted")
	out := buf.Bytes()
	vCheck(bytes.IndexByte(out, '\n') < 0, "no line feed in the payload")
	return out
}

// sDecode2 decodes the payload as the message registered for its command.
func sDecode2(m Message, data []byte) Message {
	got, err := UnmarshalMessage(m.Cmd(), data)
	vCheck(err == nil, "decodes")
	return got
}

func sI64(name string) int64 { return vI64(name) }
func sInt(name string) int   { return int(vI64(name)) }

func sTTH(name string) (h TTH) {
	copy(h[:], vStrLen(name, 24))
	return h
}

func H_A04_chat() {
	m := ChatMessage{Text: vStr("text"), Me: vBool("me"), TS: sI64("ts")}
	if vBool("pm") {
		id := sSID("pmid")
		m.PM = &id
	}
	// identifiers are made of four base32 characters: no separator
	if m.PM != nil {
		vAssume(sNone(m.PM.String(), " "))
	}
	got, ok := sDecode2(m, sEncode(m)).(ChatMessage)
	vCheck(ok, "same type")
	vCheck(got.Text == m.Text, "same text")
	vCheck(got.Me == m.Me, "same flag")
	vCheck(got.TS == m.TS, "same time")
	vCheck((got.PM == nil) == (m.PM == nil), "same presence")
	if m.PM != nil {
		vCheck(*got.PM == *m.PM, "same identifier")
	}
}

func H_A04_connect() {
	m := ConnectRequest{Proto: vStr("proto"), Port: sInt("port"), Token: vStr("token")}
	got, ok := sDecode2(m, sEncode(m)).(ConnectRequest)
	vCheck(ok, "same type")
	vCheck(got == m, "same message")
}

func H_A04_revconnect() {
	m := RevConnectRequest{Proto: vStr("proto"), Token: vStr("token")}
	got, ok := sDecode2(m, sEncode(m)).(RevConnectRequest)
	vCheck(ok, "same type")
	vCheck(got == m, "same message")
}

func H_A04_fileinfo() {
	m := GetInfoRequest{Type: vStr("type"), Path: vStr("path")}
	got, ok := sDecode2(m, sEncode(m)).(GetInfoRequest)
	vCheck(ok, "same type")
	vCheck(got == m, "same message")
}

func H_A04_password() {
	m := Password{Hash: sTTH("hash")}
	got, ok := sDecode2(m, sEncode(m)).(Password)
	vCheck(ok, "same type")
	vCheck(got == m, "same message")
}

func H_A04_disconnect() {
	m := Disconnect{ID: sSID("id"), Message: vStr("msg"), Duration: sInt("duration"), Redirect: vStr("redirect")}
	vAssume(sNone(m.ID.String(), " "))
	if vBool("by") {
		m.By = sSID("byid")
		vAssume(sNone(m.By.String(), " "))
	}
	got, ok := sDecode2(m, sEncode(m)).(Disconnect)
	vCheck(ok, "same type")
	vCheck(got == m, "same message")
}

func H_A04_result() {
	m := SearchResult{Token: vStr("token"), Path: vStr("path"), Size: sI64("size"), Slots: sInt("slots")}
	if vBool("tth") {
		h := sTTH("hash")
		m.TTH = &h
	}
	got, ok := sDecode2(m, sEncode(m)).(SearchResult)
	vCheck(ok, "same type")
	vCheck(got.Token == m.Token && got.Path == m.Path && got.Size == m.Size && got.Slots == m.Slots, "same values")
	vCheck((got.TTH == nil) == (m.TTH == nil), "same presence")
	if m.TTH != nil {
		vCheck(*got.TTH == *m.TTH, "same hash")
	}
}

func sList(name string, max int) []string {
	n := vPick(name+".n", max+1)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, vStr(name))
	}
	return out
}

func H_A04_search_lists() {
	m := SearchRequest{And: sList("and", 3), Not: sList("not", 2), Ext: sList("ext", 2)}
	vBound("at most three words and two of each other list")
	got, ok := sDecode2(m, sEncode(m)).(SearchRequest)
	vCheck(ok, "same type")
	vCheck(vEq(got, m), "same message")
}

func H_A04_search_noext() {
	m := SearchRequest{And: sList("and", 3), NoExt: sList("noext", 3)}
	vBound("at most three entries per list")
	got, ok := sDecode2(m, sEncode(m)).(SearchRequest)
	vCheck(ok, "same type")
	vCheck(vEq(got, m), "same message")
}

func H_A04_search_values() {
	m := SearchRequest{Token: vStr("token"), Le: sI64("le"), Ge: sI64("ge"), Eq: sI64("eq"),
		Type: FileType(sInt("type")), Group: ExtGroup(sInt("group"))}
	got, ok := sDecode2(m, sEncode(m)).(SearchRequest)
	vCheck(ok, "same type")
	vCheck(vEq(got, m), "same message")
}

func H_A04_search_hash() {
	h := sTTH("hash")
	m := SearchRequest{Token: vStr("token"), TTH: &h}
	got, ok := sDecode2(m, sEncode(m)).(SearchRequest)
	vCheck(ok, "same type")
	vCheck(got.TTH != nil && *got.TTH == h, "same hash")
	got.TTH, m.TTH = nil, nil
	vCheck(vEq(got, m), "same message")
}

func sPathPart(name string) string { return vStrNot(name, "/") }

func H_A04_user_command() {
	m := UserCommand{Command: vStr("cmd"), Category: Category(sInt("cat")), Remove: sInt("rm"), Constrained: sInt("co"), Separator: sInt("sp")}
	m.Path = Path{sPathPart("p0")}
	for i := vPick("more", 5); i > 0; i-- {
		m.Path = append(m.Path, sPathPart("p1"))
	}
	vBound("a path of at most five parts")
	got, ok := sDecode2(m, sEncode(m)).(UserCommand)
	vCheck(ok, "same type")
	vCheck(vEq(got, m), "same message")
}

// User information is split into groups of fields that are set together.
func sUserRoundtrip(m UserInfo) {
	got, ok := sDecode2(m, sEncode(m)).(UserInfo)
	vCheck(ok, "same type")
	vCheck((got.Pid == nil) == (m.Pid == nil), "same presence")
	if m.Pid != nil {
		vCheck(*got.Pid == *m.Pid, "same private identifier")
		got.Pid, m.Pid = nil, nil
	}
	vCheck(vEq(got, m), "same message")
}

func H_A04_user_ids() {
	m := UserInfo{Id: sCID("id"), Name: vStr("name")}
	if vBool("pid") {
		id := sCID("pidv")
		m.Pid = &id
	}
	sUserRoundtrip(m)
}

func H_A04_user_network() {
	sUserRoundtrip(UserInfo{Name: vStr("name"), Ip4: vStr("ip4"), Ip6: vStr("ip6"), Udp4: sInt("udp4"), Udp6: sInt("udp6")})
}

func H_A04_user_share() {
	sUserRoundtrip(UserInfo{Name: vStr("name"), ShareSize: sI64("size"), ShareFiles: sInt("files"), Version: vStr("ver"), Application: vStr("app")})
}

func H_A04_user_slots() {
	sUserRoundtrip(UserInfo{Slots: sInt("slots"), SlotsFree: sInt("free"), AutoSlotLimit: sInt("auto")})
}

func H_A04_user_limits() {
	sUserRoundtrip(UserInfo{MaxUpload: vStr("up"), MaxDownload: vStr("down"), Email: vStr("mail"), Desc: vStr("desc")})
}

func H_A04_user_hubs() {
	sUserRoundtrip(UserInfo{HubsNormal: sInt("hn"), HubsRegistered: sInt("hr"), HubsOperator: sInt("ho")})
}

func H_A04_user_type() {
	sUserRoundtrip(UserInfo{Token: vStr("token"), Type: UserType(sInt("type")), Away: AwayType(sInt("away")), Ref: vStr("ref")})
}

func H_A04_user_features() {
	m := UserInfo{KP: vStr("kp"), Address: vStr("addr")}
	n := vPick("features", 6)
	for i := 0; i < n; i++ {
		f := sFeature("fea")
		vAssume(sNone(f.String(), " ,"))
		m.Features = append(m.Features, f)
	}
	vBound("at most five features")
	sUserRoundtrip(m)
}

func sHubRoundtrip(m HubInfo) {
	var got HubInfo
	vCheck(Unmarshal(sEncode(m), &got) == nil, "decodes")
	vCheck(got == m, "same message")
}

func H_A04_hub_texts() {
	sHubRoundtrip(HubInfo{Name: vStr("name"), Version: vStr("ver"), Application: vStr("app"), Desc: vStr("desc")})
}

func H_A04_hub_ping() {
	sHubRoundtrip(HubInfo{Name: "h", Address: vStr("addr"), Website: vStr("web"), Network: vStr("net"), Owner: vStr("owner")})
}

func H_A04_hub_counts() {
	sHubRoundtrip(HubInfo{Type: UserType(sInt("type")), Users: sInt("users"), Share: sInt("share"), Files: sInt("files")})
}

func H_A04_hub_limits() {
	sHubRoundtrip(HubInfo{MinShare: sInt("minshare"), MaxShare: sI64("maxshare"), MinSlots: sInt("minslots"), MaxSlots: sInt("maxslots")})
}

func H_A04_hub_rest() {
	sHubRoundtrip(HubInfo{UsersLimit: sInt("limit"), Uptime: sInt("uptime")})
}

func H_A04_hub_max() {
	sHubRoundtrip(HubInfo{MaxHubsUser: sInt("mu"), MaxHubsReg: sInt("mr"), MaxHubsOp: sInt("mo")})
}

// Fields are recognised by their tag wherever they appear; absent fields keep
// their zero value.
func H_A04_any_order() {
	tok, path := vStr("token"), vStr("path")
	size := sI64("size")
	f := []string{"TO" + string(escape(tok)), "FN" + string(escape(path)), "SI" + strconv.FormatInt(size, 10)}
	order := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[vPick("order", 6)]
	data := f[order[0]] + " " + f[order[1]] + " " + f[order[2]]
	var got SearchResult
	vCheck(Unmarshal([]byte(data), &got) == nil, "decodes")
	vCheck(vEq(got, SearchResult{Token: tok, Path: path, Size: size}), "same message, other fields zero")
}

var _ = math.MaxInt64
