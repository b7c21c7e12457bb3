package adc

import "bytes"

// ---- A02, A03: packets ----

func sSID(name string) (id SID) {
	copy(id[:], vStrLen(name, 4))
	for i := range id {
		vAssume(id[i] != 0 && id[i] != '\n')
	}
	return id
}

func sCID(name string) (id CID) {
	copy(id[:], vStrLen(name, 24))
	return id
}

func sCmd(name string) (t MsgType) {
	copy(t[:], vStrLen(name, 3))
	for i := range t {
		vAssume(t[i] != 0 && t[i] != '\n')
	}
	return t
}

func sPayload() string { return vStrNot("payload", "\n\x00") }

func sRaw(name MsgType, payload string) *RawMessage {
	return &RawMessage{Type: name, Data: []byte(payload)}
}

// sLine encodes a packet and checks the framing.
func sLine(p Packet, kind byte, cmd MsgType) []byte {
	buf := bytes.NewBuffer(nil)
	vCheck(p.MarshalPacketADC(buf) == nil, "accepted")
	out := buf.Bytes()
	vCheck(len(out) >= 5, "kind, command and delimiter")
	vCheck(out[0] == kind && out[1] == cmd[0] && out[2] == cmd[1] && out[3] == cmd[2], "starts with kind and command")
	vCheck(bytes.IndexByte(out, '\n') == len(out)-1, "the only line feed is at the end")
	return out
}

func sDecode(line []byte, kind byte, cmd MsgType, payload string) Packet {
	p, err := DecodePacketRaw(line)
	vCheck(err == nil, "decodes")
	vCheck(p.Kind() == kind, "same kind")
	raw, ok := p.Message().(*RawMessage)
	vCheck(ok, "raw payload")
	vCheck(raw.Type == cmd, "same command")
	vCheck(string(raw.Data) == payload, "same payload")
	return p
}

func H_A02_info() {
	cmd, payload := sCmd("cmd"), sPayload()
	line := sLine(&InfoPacket{Msg: sRaw(cmd, payload)}, 'I', cmd)
	_, ok := sDecode(line, 'I', cmd, payload).(*InfoPacket)
	vCheck(ok, "same type")
}

func H_A02_hub() {
	cmd, payload := sCmd("cmd"), sPayload()
	line := sLine(&HubPacket{Msg: sRaw(cmd, payload)}, 'H', cmd)
	_, ok := sDecode(line, 'H', cmd, payload).(*HubPacket)
	vCheck(ok, "same type")
}

func H_A02_client() {
	cmd, payload := sCmd("cmd"), sPayload()
	line := sLine(&ClientPacket{Msg: sRaw(cmd, payload)}, 'C', cmd)
	_, ok := sDecode(line, 'C', cmd, payload).(*ClientPacket)
	vCheck(ok, "same type")
}

func H_A02_broadcast() {
	cmd, payload, id := sCmd("cmd"), sPayload(), sSID("id")
	line := sLine(&BroadcastPacket{ID: id, Msg: sRaw(cmd, payload)}, 'B', cmd)
	p, ok := sDecode(line, 'B', cmd, payload).(*BroadcastPacket)
	vCheck(ok, "same type")
	vCheck(p.ID == id && p.Source() == id, "same source")
}

func H_A02_direct() {
	cmd, payload, id, to := sCmd("cmd"), sPayload(), sSID("id"), sSID("to")
	line := sLine(&DirectPacket{ID: id, To: to, Msg: sRaw(cmd, payload)}, 'D', cmd)
	p, ok := sDecode(line, 'D', cmd, payload).(*DirectPacket)
	vCheck(ok, "same type")
	vCheck(p.ID == id && p.Source() == id, "same source")
	vCheck(p.To == to && p.Target() == to, "same target")
}

func H_A02_echo() {
	cmd, payload, id, to := sCmd("cmd"), sPayload(), sSID("id"), sSID("to")
	line := sLine(&EchoPacket{ID: id, To: to, Msg: sRaw(cmd, payload)}, 'E', cmd)
	p, ok := sDecode(line, 'E', cmd, payload).(*EchoPacket)
	vCheck(ok, "same type")
	vCheck(p.ID == id && p.Source() == id, "same source")
	vCheck(p.To == to && p.Target() == to, "same target")
}

func H_A02_udp() {
	cmd, payload, id := sCmd("cmd"), sPayload(), sCID("id")
	line := sLine(&UDPPacket{ID: id, Msg: sRaw(cmd, payload)}, 'U', cmd)
	p, ok := sDecode(line, 'U', cmd, payload).(*UDPPacket)
	vCheck(ok, "same type")
	vCheck(p.ID == id, "same client")
}

func H_A02_feature() {
	cmd, payload, id := sCmd("cmd"), sPayload(), sSID("id")
	vAssume(payload == "" || !sSign(payload[0]))
	sel, text := sSelectors("\n\x00")
	line := sLine(&FeaturePacket{ID: id, Sel: sel, Msg: sRaw(cmd, payload)}, 'F', cmd)
	want := sSelLine(cmd, id, text, payload)
	vCheck(string(line) == want || text+payload == "" && string(line) == want[:len(want)-2]+"\n", "source, selection and payload")
}

// sSelLine is the line of a packet.
func sSelLine(cmd MsgType, id SID, text, payload string) string {
	if payload == "" && text != "" {
		text = text[:len(text)-1]
	}
	return "F" + string(cmd[:]) + " " + string(id[:]) + " " + text + payload + "\n"
}

func H_A02_feature_decode() {
	cmd, payload, id := sCmd("cmd"), sPayload(), sSID("id")
	vAssume(payload == "" || !sSign(payload[0]))
	sel, text := sSelectors("\n\x00")
	line := sSelLine(cmd, id, text, payload)
	if text+payload == "" && vBool("no space") {
		line = line[:len(line)-2] + "\n"
	}
	p, ok := sDecode([]byte(line), 'F', cmd, payload).(*FeaturePacket)
	vCheck(ok, "same type")
	vCheck(p.ID == id && p.Source() == id, "same source")
	vCheck(len(p.Sel) == len(sel), "as many selectors")
	if len(sel) > 0 {
		i := vInt("i", 0, len(sel)-1)
		vCheck(p.Sel[i] == sel[i], "the same selectors")
	}
}

// A packet is the same whatever message type carries the payload.
func H_A02_typed_messages() {
	id := sSID("id")
	text := vStr("text")
	vAssume(text != "" && sNone(text, "\x00"))
	line := sLine(&BroadcastPacket{ID: id, Msg: ChatMessage{Text: text}}, 'B', MsgType{'M', 'S', 'G'})
	p, err := DecodePacket(line)
	vCheck(err == nil, "decodes")
	bp, ok := p.(*BroadcastPacket)
	vCheck(ok && bp.ID == id, "same packet")
	m, ok := bp.Msg.(ChatMessage)
	vCheck(ok, "same message type")
	vCheck(m.Text == text, "same text")
}

// Accepted input is exactly one of the eight forms.
func H_A03_accepted_form() {
	s := vStr("s")
	p, err := DecodePacketRaw([]byte(s))
	if err != nil {
		return
	}
	vCheck(sNone(s, "\x00"), "no null bytes")
	vCheck(len(s) >= 5 && s[len(s)-1] == '\n', "a line feed at the end")
	vCheck(s[0] == p.Kind(), "the kind of the input")
	raw, ok := p.Message().(*RawMessage)
	vCheck(ok, "raw payload")
	vCheck(raw.Type.String() == s[1:4], "the command of the input")
	body := s[4 : len(s)-1]
	if body != "" {
		vCheck(body[0] == ' ', "a space after the command")
		body = body[1:]
	}
	addr := ""
	switch s[0] {
	case 'I', 'H', 'C':
	case 'B', 'F':
		addr = p.(PeerPacket).Source().String()
	case 'D', 'E':
		addr = p.(TargetPacket).Target().String()
		addr = p.(PeerPacket).Source().String() + " " + addr
	case 'U':
		vCheck(len(body) >= 39, "a complete client identifier")
		var id CID
		vCheck(id.FromBase32(body[:39]) == nil && id == p.(*UDPPacket).ID, "the client identifier of the input")
		addr = body[:39]
	}
	vCheck(bytes.IndexByte([]byte("IHCBFDEU"), s[0]) >= 0, "a known kind")
	vCheck(len(body) >= len(addr) && body[:len(addr)] == addr, "the addressing of the input")
	body = body[len(addr):]
	if addr != "" && body != "" {
		vCheck(body[0] == ' ', "a space after the addressing")
		body = body[1:]
	}
	if s[0] != 'F' {
		vCheck(string(raw.Data) == body, "the payload of the input")
	}
}

func H_A03_feature_form() {
	body := vStr("body")
	p, err := DecodePacketRaw([]byte("FSCH ABCD " + body + "\n"))
	if err != nil {
		return
	}
	f := p.(*FeaturePacket)
	got := string(f.Msg.(*RawMessage).Data)
	vCheck(got == "" || !sSign(got[0]), "the selection is complete")
	n := len(f.Sel)
	if got == "" && len(body) == 6*n-1 {
		body += " "
	}
	vCheck(len(body) >= 6*n && got == body[6*n:], "the payload of the input")
	if n > 0 {
		i := vInt("i", 0, n-1)
		want := "-" + f.Sel[i].Fea.String() + " "
		if f.Sel[i].Sel {
			want = "+" + want[1:]
		}
		vCheck(body[6*i:6*i+6] == want, "the selection of the input")
	}
}

func H_A03_refuses_bad_separator() {
	s := vStr("s")
	vAssume(len(s) >= 16)
	switch s[0] {
	case 'I', 'H', 'C':
		vAssume(s[4] != ' ')
	case 'B', 'F':
		vAssume(s[4] != ' ' || s[9] != ' ')
	case 'D', 'E':
		vAssume(s[4] != ' ' || s[9] != ' ' || s[14] != ' ')
	}
	vAssume(s[0] != 'U')
	_, err := DecodePacketRaw([]byte(s))
	vCheck(err != nil, "refused")
}

func sFeature(name string) (f Feature) {
	copy(f[:], vStrLen(name, 4))
	for i := range f {
		vAssume(f[i] != 0 && f[i] != '\n')
	}
	return f
}
