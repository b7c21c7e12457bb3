package nmdc

import "bytes"

// ---- N10: any number of messages, any number of hooks ----

var sW struct {
	on    bool
	hooks int
	next  int    // the message that has to be dealt with next
	phase int    // how many hooks have passed it
	has   bool   // it was encoded and has to be sent,
	pend  string // as this line
	err   error  // why the call has to stop
	want  string // what a real line writer has to send
	sent  string
}

// sSeq is a message of a call.
type sSeq struct {
	i            int
	typ, payload string
	bad          error
}

func (m *sSeq) Type() string { return m.typ }

func (m *sSeq) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
	vCheck(sW.next == m.i && !sW.has && sW.err == nil, "messages are encoded once, in order")
	vCheck(sW.phase == sW.hooks, "only a message that every hook passed is encoded")
	if m.bad != nil {
		sW.err = m.bad
		return m.bad
	}
	buf.WriteString(m.payload)
	line := sWire(&sOut{typ: m.typ, payload: m.payload})
	if vGhost() {
		sW.has, sW.pend = true, line
	} else {
		sW.want += line
		sW.next++
		sW.phase = 0
	}
	return nil
}

func (m *sSeq) UnmarshalNMDC(dec *TextDecoder, data []byte) error { panic("not used") }

type sSeqSink struct{}

func (sSeqSink) VLine(data []byte) error {
	vCheck(sW.has && string(data) == sW.pend && sW.err == nil, "exactly the line of the message is sent")
	if vBool("fails") {
		sW.err = errSink
		return errSink
	}
	sW.has, sW.phase = false, 0
	sW.next++
	return nil
}

// Write takes what a real line writer sends: lines may come together, when it is flushed.
func (s sSeqSink) Write(p []byte) (int, error) {
	sW.sent += string(p)
	return len(p), nil
}

// sSeqHook is the i-th hook.
func sSeqHook(i int) func(m Message) (bool, error) {
	return func(m Message) (bool, error) {
		vCheck(sW.phase == i && !sW.has && sW.err == nil, "hooks run in order, once for each message")
		vCheck(m.(*sSeq).i == sW.next, "a hook is shown the message")
		switch vPick("answer", 3) {
		case 0:
			sW.phase++
			return true, nil
		case 1:
			sW.phase = 0
			sW.next++
			return false, nil
		}
		sW.err = errHook1
		return vBool("ok"), errHook1
	}
}

//verif:inv (*Writer).WriteMsg 0 N10A
func I10_WriteMsg(w *Writer, msg []Message, rangeindex int) bool {
	return w.Writer.Err() == nil && rangeindex >= -1 && rangeindex < len(msg) && sW.next == rangeindex+1 && sW.phase == 0 && !sW.has && sW.err == nil
}

//verif:inv (*Writer).WriteMsg 1 N10A
func I10_WriteMsg_hooks(w *Writer, m Message, rangeindex int) bool {
	return w.Writer.Err() == nil && rangeindex >= -1 && rangeindex < len(w.onMessage) && sW.phase == rangeindex+1 && !sW.has && sW.err == nil && m.(*sSeq).i == sW.next
}

//verif:scope N10A
func H_N10_any() {
	max := 1 << 30
	if !vProving() {
		max = 5
	}
	w := NewWriter(sSeqSink{})
	w.mbuf.WriteString(vStr("left over"))
	vCheck(len(w.onMessage) == 0, "a new writer has no hooks")
	sW.hooks, sW.next, sW.phase, sW.has, sW.err = vInt("hooks", 0, max), 0, 0, false, nil
	sW.want, sW.sent = "", ""
	vList(&w.onMessage, sW.hooks, sSeqHook)
	w.OnMessage(sSeqHook(sW.hooks))
	sW.hooks++
	n := vInt("messages", 0, max)
	var list []Message
	vList(&list, n, func(i int) Message {
		m := &sSeq{i: i, typ: vStr("typ"), payload: vStr("payload")}
		if vBool("bad") {
			m.bad = errEncode
		}
		return m
	})
	err := w.WriteMsg(list...)
	vCheck(err == sW.err, "the first error is returned")
	vCheck(err != nil || sW.next == n && !sW.has, "every message was dealt with")
	vCheck(vGhost() || w.Flush() == nil && sW.sent == sW.want, "exactly the lines of the messages are sent, in order")
}

// ---- N10: no delimiter inside the text of a message, whatever the length of its lists ----

//verif:inv (*UserCommand).MarshalNMDC 0 N10
func I10_UserCommand(buf *bytes.Buffer, rangeindex int) bool {
	return -1 <= rangeindex && rangeindex < 1<<62 && sNone(buf.String(), "|")
}

//verif:inv (*SR).MarshalNMDC 0 N10
func I10_SR(buf *bytes.Buffer, rangeindex int) bool {
	return -1 <= rangeindex && rangeindex < 1<<62 && sNone(buf.String(), "|")
}

//verif:inv (Names).MarshalNMDC 0 N10
func I10_Names(buf *bytes.Buffer, rangeindex int) bool {
	return -1 <= rangeindex && rangeindex < 1<<62 && sNone(buf.String(), "|")
}

func sTextList() []string {
	max := 1 << 30
	if !vProving() {
		max = 4
	}
	var list []string
	vList(&list, vInt("entries", 0, max), func(i int) string { return vStr("entry") })
	return list
}

func H_N10_text_user_command() {
	sNoDelim(&UserCommand{Typ: 1, Context: 2, Path: sTextList(), Command: vStr("cmd")})
}

func H_N10_text_name_lists() {
	l := Names(sTextList())
	sNoDelim(&OpList{l})
	sNoDelim(&BotList{l})
}

func H_N10_text_sr() {
	sNoDelim(&SR{From: vStr("from"), Path: sTextList(), IsDir: vBool("dir"), HubName: vStr("hub"), HubAddress: vStrNot("addr", "|"), To: vStr("to")})
}
