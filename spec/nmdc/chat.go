package nmdc

import (
	"bytes"
)

// ---- N02: chat, private, private-room and user-command messages ----

// sEncode runs the encoder of a message and checks that it accepts the message.
func sEncode(m Message) []byte {
	buf := bytes.NewBuffer(nil)
	vCheck(m.MarshalNMDC(nil, buf) == nil, "accepted")
	return buf.Bytes()
}

func sCont(s, sub string) bool { return bytes.Contains([]byte(s), []byte(sub)) }

func H_N02_chat_with_name() {
	name := vStrNot("name", "\x00\r\n\t$")
	text := vStrNot("text", "\x00")
	vAssume(name != "" && sNameOK(name) && sTextOK(text))
	data := sEncode(&ChatMessage{Name: name, Text: text})
	var got ChatMessage
	vCheck(got.UnmarshalNMDC(nil, data) == nil, "decodes")
	vCheck(got.Name == name, "same name")
	vCheck(got.Text == text, "same text")
}

func H_N02_chat_without_name() {
	text := vStrNot("text", "\x00")
	vAssume(sTextOK(text))
	vAssume(len(text) == 0 || text[0] != '<')
	data := sEncode(&ChatMessage{Text: text})
	var got ChatMessage
	vCheck(got.UnmarshalNMDC(nil, data) == nil, "decodes")
	vCheck(got.Name == "", "no name")
	vCheck(got.Text == text, "same text")
}

func H_N02_private() {
	to := vStrNot("to", "\x00\r\n\t$")
	from := vStrNot("from", "\x00\r\n\t$")
	name := vStrNot("name", "\x00\r\n\t$")
	text := vStrNot("text", "\x00")
	vAssume(sNameOK(to) && sNameOK(from) && sNameOK(name) && sTextOK(text))
	vAssume(!sCont(to, " From:"))
	data := sEncode(&PrivateMessage{To: to, From: from, Name: name, Text: text})
	var got PrivateMessage
	vCheck(got.UnmarshalNMDC(nil, data) == nil, "decodes")
	vCheck(got.To == to, "same recipient")
	vCheck(got.From == from, "same sender")
	vCheck(got.Name == name, "same name")
	vCheck(got.Text == text, "same text")
}

func H_N02_private_room() {
	to := vStrNot("to", "\x00\r\n\t$")
	from := vStrNot("from", "\x00\r\n\t$ ")
	text := vStrNot("text", "\x00")
	vAssume(sNameOK(to) && sNameOK(from) && sTextOK(text))
	data := sEncode(&MCTo{To: to, From: from, Text: text})
	var got MCTo
	vCheck(got.UnmarshalNMDC(nil, data) == nil, "decodes")
	vCheck(got.To == to, "same recipient")
	vCheck(got.From == from, "same sender")
	vCheck(got.Text == text, "same text")
}

func sUserCommandNum(name string) int { return vInt(name, 0, 1<<62) }

func H_N02_user_command_plain() {
	m := UserCommand{Typ: UCmdType(sUserCommandNum("typ")), Context: UCmdContext(sUserCommandNum("ctx"))}
	data := sEncode(&m)
	var got UserCommand
	vCheck(got.UnmarshalNMDC(nil, data) == nil, "decodes")
	vCheck(got.Typ == m.Typ, "same type")
	vCheck(got.Context == m.Context, "same context")
	vCheck(len(got.Path) == 0 && got.Command == "", "nothing else")
}

func H_N02_user_command_path() {
	m := UserCommand{Typ: 1, Context: 3} // numbers: H_N02_user_command_plain
	p0 := vStrNot("p0", "\x00\\")
	p1 := vStrNot("p1", "\x00\\ ")
	cmd := vStrNot("cmd", "\x00")
	vAssume(sTextOK(p0) && sTextOK(p1) && sTextOK(cmd))
	vAssume(p0 != "" && p1 != "" && cmd != "")
	vAssume(cmd[len(cmd)-1] > ' ' && cmd[len(cmd)-1] < 0x80) // the line is trimmed of (Unicode) spaces
	m.Path = []string{p0, p1}
	m.Command = cmd
	data := sEncode(&m)
	var got UserCommand
	vCheck(got.UnmarshalNMDC(nil, data) == nil, "decodes")
	vCheck(got.Typ == m.Typ, "same type")
	vCheck(got.Context == m.Context, "same context")
	vCheck(len(got.Path) == 2 && got.Path[0] == p0 && got.Path[1] == p1, "same path")
	vCheck(got.Command == cmd, "same command")
}

// The name reported for a chat line is the text between the opening token and a closing one.
func H_N02_chat_name_is_bracketed() {
	s := vStr("s")
	var got ChatMessage
	if err := got.UnmarshalNMDC(nil, []byte(s)); err != nil {
		return
	}
	if len(s) == 0 || s[0] != '<' {
		vCheck(got.Name == "", "no name without a token")
		return
	}
	vCheck(got.Name == "" || sCont(s, ">"), "a name has a closing token")
}
