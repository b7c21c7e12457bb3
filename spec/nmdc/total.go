package nmdc

import "bytes"

// ---- N04: no input crashes the decoder, no message the encoder ----

// sDecodeAny decodes arbitrary bytes.
func sDecodeAny(m Message) {
	vLoose()
	data := []byte(vStr("data"))
	_ = m.UnmarshalNMDC(nil, data)
	vReach("returns")
}

func H_N04_decode_chat_message() { sDecodeAny(&ChatMessage{}) }
func H_N04_decode_private_message() { sDecodeAny(&PrivateMessage{}) }
func H_N04_decode_mcto() { sDecodeAny(&MCTo{}) }
func H_N04_decode_user_command() { sDecodeAny(&UserCommand{}) }
func H_N04_decode_connect_to_me() { sDecodeAny(&ConnectToMe{}) }
func H_N04_decode_rev_connect_to_me() { sDecodeAny(&RevConnectToMe{}) }
func H_N04_decode_failed() { sDecodeAny(&Failed{}) }
func H_N04_decode_error() { sDecodeAny(&Error{}) }
func H_N04_decode_adcget() { sDecodeAny(&ADCGet{}) }
func H_N04_decode_adcsnd() { sDecodeAny(&ADCSnd{}) }
func H_N04_decode_direction() { sDecodeAny(&Direction{}) }
func H_N04_decode_maxed_out() { sDecodeAny(&MaxedOut{}) }
func H_N04_decode_hello() { sDecodeAny(&Hello{}) }
func H_N04_decode_zon() { sDecodeAny(&ZOn{}) }
func H_N04_decode_version() { sDecodeAny(&Version{}) }
func H_N04_decode_hub_name() { sDecodeAny(&HubName{}) }
func H_N04_decode_hub_is_full() { sDecodeAny(&HubIsFull{}) }
func H_N04_decode_hub_topic() { sDecodeAny(&HubTopic{}) }
func H_N04_decode_fail_over() { sDecodeAny(&FailOver{}) }
func H_N04_decode_lock() { sDecodeAny(&Lock{}) }
func H_N04_decode_key() { sDecodeAny(&Key{}) }
func H_N04_decode_force_move() { sDecodeAny(&ForceMove{}) }
func H_N04_decode_kick() { sDecodeAny(&Kick{}) }
func H_N04_decode_close() { sDecodeAny(&Close{}) }
func H_N04_decode_get_topic() { sDecodeAny(&GetTopic{}) }
func H_N04_decode_set_topic() { sDecodeAny(&SetTopic{}) }
func H_N04_decode_my_pass() { sDecodeAny(&MyPass{}) }
func H_N04_decode_bad_pass() { sDecodeAny(&BadPass{}) }
func H_N04_decode_get_pass() { sDecodeAny(&GetPass{}) }
func H_N04_decode_bot_info() { sDecodeAny(&BotINFO{}) }
func H_N04_decode_set_icon() { sDecodeAny(&SetIcon{}) }
func H_N04_decode_set_logo() { sDecodeAny(&SetLogo{}) }
func H_N04_decode_hub_info() { sDecodeAny(&HubINFO{}) }
func H_N04_decode_search() { sDecodeAny(&Search{}) }
func H_N04_decode_sr() { sDecodeAny(&SR{}) }
func H_N04_decode_tthsearch_active() { sDecodeAny(&TTHSearchActive{}) }
func H_N04_decode_tthsearch_passive() { sDecodeAny(&TTHSearchPassive{}) }
func H_N04_decode_validate_nick() { sDecodeAny(&ValidateNick{}) }
func H_N04_decode_validate_denide() { sDecodeAny(&ValidateDenide{}) }
func H_N04_decode_my_nick() { sDecodeAny(&MyNick{}) }
func H_N04_decode_quit() { sDecodeAny(&Quit{}) }
func H_N04_decode_loged_in() { sDecodeAny(&LogedIn{}) }
func H_N04_decode_my_info() { sDecodeAny(&MyINFO{}) }
func H_N04_decode_get_nick_list() { sDecodeAny(&GetNickList{}) }
func H_N04_decode_op_list() { sDecodeAny(&OpList{}) }
func H_N04_decode_bot_list() { sDecodeAny(&BotList{}) }
func H_N04_decode_user_ip() { sDecodeAny(&UserIP{}) }
func H_N04_decode_supports() { sDecodeAny(&Supports{}) }
func H_N04_decode_raw_message() { sDecodeAny(&RawMessage{}) }

// sEncodeAny encodes an arbitrary value.
func sEncodeAny(m Message) {
	vLoose()
	vFill(m, "m")
	buf := bytes.NewBuffer(nil)
	_ = m.MarshalNMDC(nil, buf)
	vReach("returns")
}

func H_N04_encode_chat_message() { sEncodeAny(&ChatMessage{}) }
func H_N04_encode_private_message() { sEncodeAny(&PrivateMessage{}) }
func H_N04_encode_mcto() { sEncodeAny(&MCTo{}) }
func H_N04_encode_user_command() { sEncodeAny(&UserCommand{}) }
func H_N04_encode_connect_to_me() { sEncodeAny(&ConnectToMe{}) }
func H_N04_encode_rev_connect_to_me() { sEncodeAny(&RevConnectToMe{}) }
func H_N04_encode_failed() { sEncodeAny(&Failed{}) }
func H_N04_encode_error() { sEncodeAny(&Error{}) }
func H_N04_encode_adcget() { sEncodeAny(&ADCGet{}) }
func H_N04_encode_adcsnd() { sEncodeAny(&ADCSnd{}) }
func H_N04_encode_direction() { sEncodeAny(&Direction{}) }
func H_N04_encode_maxed_out() { sEncodeAny(&MaxedOut{}) }
func H_N04_encode_hello() { sEncodeAny(&Hello{}) }
func H_N04_encode_zon() { sEncodeAny(&ZOn{}) }
func H_N04_encode_version() { sEncodeAny(&Version{}) }
func H_N04_encode_hub_name() { sEncodeAny(&HubName{}) }
func H_N04_encode_hub_is_full() { sEncodeAny(&HubIsFull{}) }
func H_N04_encode_hub_topic() { sEncodeAny(&HubTopic{}) }
func H_N04_encode_fail_over() { sEncodeAny(&FailOver{}) }
func H_N04_encode_lock() { sEncodeAny(&Lock{}) }
func H_N04_encode_key() { sEncodeAny(&Key{}) }
func H_N04_encode_force_move() { sEncodeAny(&ForceMove{}) }
func H_N04_encode_kick() { sEncodeAny(&Kick{}) }
func H_N04_encode_close() { sEncodeAny(&Close{}) }
func H_N04_encode_get_topic() { sEncodeAny(&GetTopic{}) }
func H_N04_encode_set_topic() { sEncodeAny(&SetTopic{}) }
func H_N04_encode_my_pass() { sEncodeAny(&MyPass{}) }
func H_N04_encode_bad_pass() { sEncodeAny(&BadPass{}) }
func H_N04_encode_get_pass() { sEncodeAny(&GetPass{}) }
func H_N04_encode_bot_info() { sEncodeAny(&BotINFO{}) }
func H_N04_encode_set_icon() { sEncodeAny(&SetIcon{}) }
func H_N04_encode_set_logo() { sEncodeAny(&SetLogo{}) }
func H_N04_encode_hub_info() { sEncodeAny(&HubINFO{}) }
func H_N04_encode_search() { sEncodeAny(&Search{}) }
func H_N04_encode_sr() { sEncodeAny(&SR{}) }
func H_N04_encode_tthsearch_active() { sEncodeAny(&TTHSearchActive{}) }
func H_N04_encode_tthsearch_passive() { sEncodeAny(&TTHSearchPassive{}) }
func H_N04_encode_validate_nick() { sEncodeAny(&ValidateNick{}) }
func H_N04_encode_validate_denide() { sEncodeAny(&ValidateDenide{}) }
func H_N04_encode_my_nick() { sEncodeAny(&MyNick{}) }
func H_N04_encode_quit() { sEncodeAny(&Quit{}) }
func H_N04_encode_loged_in() { sEncodeAny(&LogedIn{}) }
func H_N04_encode_my_info() { sEncodeAny(&MyINFO{}) }
func H_N04_encode_get_nick_list() { sEncodeAny(&GetNickList{}) }
func H_N04_encode_op_list() { sEncodeAny(&OpList{}) }
func H_N04_encode_bot_list() { sEncodeAny(&BotList{}) }
func H_N04_encode_user_ip() { sEncodeAny(&UserIP{}) }
func H_N04_encode_supports() { sEncodeAny(&Supports{}) }
func H_N04_encode_raw_message() { sEncodeAny(&RawMessage{}) }

// ---- whole lines ----

// sAnyMsg is a message of which only is known that decoding returns (see H_N04_decode_*).
type sAnyMsg struct{ typ string }

func (m *sAnyMsg) Type() string { return m.typ }

func (m *sAnyMsg) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error { return nil }

func (m *sAnyMsg) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
	if vBool("bad") {
		return vNewErr("bad")
	}
	return nil
}

//verif:summary NewMessage N04 by H_X_new_message,H_X_new_unknown
func S4_NewMessage(typ string) Message { return &sAnyMsg{typ} }

//verif:inv (*Reader).readMsgTo 0 N04
func I4_readMsgTo() bool { return true }

func H_N04_line() {
	vLoose()
	r := NewReader(&sLines{})
	m, err := r.ReadMsg()
	vCheck(err != nil || m != nil, "a message or an error")
}

func H_N04_marshal_raw() {
	vLoose()
	m := &RawMessage{Typ: vStr("typ"), Data: vBytes("data")}
	_, err := Marshal(nil, m)
	vCheck(err == nil, "bytes")
}

func H_N04_marshal_empty() {
	_, err := Marshal(nil, &GetPass{})
	vCheck(err == nil, "bytes")
}
