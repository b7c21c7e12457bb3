package adc

import (
	"bytes"
	"errors"

	"github.com/direct-connect/go-dc/lineproto"
)

// ---- A09: writing packets ----

// sSink is a connection of which the lines sent are recorded; it may fail at any of them.
type sSink struct {
	text string // all that was sent
	err  error
}

var (
	_         lineproto.VLineSink = (*sSink)(nil)
	errSink                       = errors.New("sink")
	errEncode                     = errors.New("encode")
)

func (s *sSink) VLine(data []byte) error {
	if vBool("fails") {
		s.err = errSink
		return errSink
	}
	s.text += string(data)
	return nil
}

func (s *sSink) Write(p []byte) (int, error) {
	s.text += string(p)
	return len(p), nil
}

// sOut is a message whose payload is any bytes, or cannot be encoded.
type sOut struct {
	cmd     MsgType
	payload string
	bad     error
}

func (m *sOut) Cmd() MsgType { return m.cmd }

func (m *sOut) MarshalADC(buf *bytes.Buffer) error {
	buf.WriteString(m.payload)
	return m.bad
}

func sOutMsg() *sOut {
	m := &sOut{payload: vStr("payload")}
	copy(m.cmd[:], vStrLen("cmd", 3))
	if vBool("bad") {
		m.bad = errEncode
	}
	return m
}

func sAnySID(name string) (id SID) {
	copy(id[:], vStrLen(name, 4))
	return id
}

// sUsedWriter is a writer that has been used before.
func sUsedWriter() (*Writer, *sSink) {
	st := &sSink{}
	w := NewWriter(st)
	w.mbuf.WriteString(vStr("left over"))
	return w, st
}

// sSent checks a call that should have sent a line with the given head and message, and that
// another such call follows it.
func sSent(kind byte, addr string, write func(w *Writer, m Message) error) {
	w, st := sUsedWriter()
	want := ""
	for i := 0; i < 2; i++ {
		m := sOutMsg()
		failed := st.err != nil
		err := write(w, m)
		switch {
		case m.bad != nil:
			vCheck(err != nil, "a message that cannot be encoded is an error")
		case failed:
			vCheck(err != nil, "a failed writer refuses")
		case st.err != nil:
			vCheck(err == st.err, "the error of the connection is returned")
		default:
			vCheck(err == nil, "sent")
			want += string(kind) + string(m.cmd[:]) + addr
			if m.payload != "" {
				want += " " + m.payload
			}
			want += "\n"
		}
	}
	_ = w.Flush()
	vCheck(st.text == want, "exactly the lines, in the order of the calls")
}

func H_A09_info() {
	sSent('I', "", func(w *Writer, m Message) error { return w.WriteInfo(m) })
}

func H_A09_hub() {
	sSent('H', "", func(w *Writer, m Message) error { return w.WriteHub(m) })
}

func H_A09_client() {
	sSent('C', "", func(w *Writer, m Message) error { return w.WriteClient(m) })
}

func H_A09_broadcast() {
	id := sAnySID("id")
	sSent('B', " "+string(id[:]), func(w *Writer, m Message) error { return w.WriteBroadcast(id, m) })
}

func H_A09_direct() {
	id, to := sAnySID("id"), sAnySID("to")
	sSent('D', " "+string(id[:])+" "+string(to[:]), func(w *Writer, m Message) error { return w.WriteDirect(id, to, m) })
}

func H_A09_echo() {
	id, to := sAnySID("id"), sAnySID("to")
	sSent('E', " "+string(id[:])+" "+string(to[:]), func(w *Writer, m Message) error { return w.WriteEcho(id, to, m) })
}

func H_A09_feature() {
	id := sAnySID("id")
	sel, text := sSelectors("")
	if text != "" {
		text = " " + text[:len(text)-1]
	}
	sSent('F', " "+string(id[:])+text, func(w *Writer, m Message) error { return w.WriteFeature(id, sel, m) })
}

// Packets that the caller made are sent the same way.
func H_A09_packets() {
	id, to := sAnySID("id"), sAnySID("to")
	switch vPick("kind", 6) {
	case 0:
		sSent('I', "", func(w *Writer, m Message) error { return w.WritePacket(&InfoPacket{Msg: m}) })
	case 1:
		sSent('H', "", func(w *Writer, m Message) error { return w.WritePacket(&HubPacket{Msg: m}) })
	case 2:
		sSent('C', "", func(w *Writer, m Message) error { return w.WritePacket(&ClientPacket{Msg: m}) })
	case 3:
		sSent('B', " "+string(id[:]), func(w *Writer, m Message) error { return w.WritePacket(&BroadcastPacket{ID: id, Msg: m}) })
	case 4:
		sSent('D', " "+string(id[:])+" "+string(to[:]), func(w *Writer, m Message) error { return w.WritePacket(&DirectPacket{ID: id, To: to, Msg: m}) })
	case 5:
		sSent('E', " "+string(id[:])+" "+string(to[:]), func(w *Writer, m Message) error { return w.WritePacket(&EchoPacket{ID: id, To: to, Msg: m}) })
	}
}

func H_A09_udp() {
	var id CID
	copy(id[:], vStrLen("id", 24))
	sSent('U', " "+id.Base32(), func(w *Writer, m Message) error { return w.WritePacket(&UDPPacket{ID: id, Msg: m}) })
}

// sStream checks a stream, which is made once.
func sStream(kind byte, addr string, open func(w *Writer) WriteStream) {
	var s WriteStream
	sSent(kind, addr, func(w *Writer, m Message) error {
		if s == nil {
			s = open(w)
		}
		return s.WriteMessage(m)
	})
}

func H_A09_hub_stream() {
	sStream('H', "", func(w *Writer) WriteStream { return w.HubStream() })
}

func H_A09_info_stream() {
	sStream('I', "", func(w *Writer) WriteStream { return w.InfoStream() })
}

func H_A09_client_stream() {
	sStream('C', "", func(w *Writer) WriteStream { return w.ClientStream() })
}

func H_A09_broadcast_stream() {
	id := sAnySID("id")
	sStream('B', " "+string(id[:]), func(w *Writer) WriteStream { return w.BroadcastStream(id) })
}

func H_A09_direct_stream() {
	id, to := sAnySID("id"), sAnySID("to")
	sStream('D', " "+string(id[:])+" "+string(to[:]), func(w *Writer) WriteStream { return w.DirectStream(id, to) })
}

func H_A09_echo_stream() {
	id, to := sAnySID("id"), sAnySID("to")
	sStream('E', " "+string(id[:])+" "+string(to[:]), func(w *Writer) WriteStream { return w.EchoStream(id, to) })
}

func H_A09_feature_stream() {
	id := sAnySID("id")
	sel, text := sSelectors("")
	if text != "" {
		text = " " + text[:len(text)-1]
	}
	sStream('F', " "+string(id[:])+text, func(w *Writer) WriteStream { return w.FeatureStream(id, sel) })
}

// Two streams of one writer do not mix up.
func H_A09_two_streams() {
	w, st := sUsedWriter()
	from, a, b := sAnySID("from"), sAnySID("a"), sAnySID("b")
	s1 := w.DirectStream(from, a)
	s2 := w.DirectStream(from, b)
	want := ""
	for i, s := range []WriteStream{s1, s2} {
		m := sOutMsg()
		vAssume(m.bad == nil && m.payload != "")
		err := s.WriteMessage(m)
		if st.err != nil {
			vCheck(err != nil, "the error of the connection is returned")
			return
		}
		vCheck(err == nil, "sent")
		to := a
		if i == 1 {
			to = b
		}
		want += "D" + string(m.cmd[:]) + " " + string(from[:]) + " " + string(to[:]) + " " + m.payload + "\n"
	}
	_ = w.Flush()
	vCheck(st.text == want, "each to its own target")
}

func H_A09_keep_alive() {
	w, st := sUsedWriter()
	err := w.WriteKeepAlive()
	vCheck((err == nil) == (st.err == nil), "errors are returned")
	_ = w.Flush()
	vCheck(st.err != nil || st.text == "\n", "an empty line")
}

func H_A09_failed_writer() {
	w, st := sUsedWriter()
	lineproto.VFailed(w.Writer, errSink)
	m := sOutMsg()
	vCheck(w.WriteInfo(m) != nil, "refused")
	vCheck(w.WriteKeepAlive() != nil, "refused")
	vCheck(st.text == "", "nothing is sent")
}

// The line hooks see the packet; what they drop is not sent.
//
//verif:scope A09H
func H_A09_dropped() {
	w, st := sUsedWriter()
	m, next := sOutMsg(), sOutMsg()
	line := ""
	drop := vBool("drop")
	calls := 0
	w.OnLine(func(l []byte) (bool, error) {
		calls++
		if calls == 1 {
			line = string(l)
			return !drop, nil
		}
		return true, nil
	})
	vAssume(m.bad == nil && next.bad == nil)
	vCheck(w.WriteInfo(m) == nil, "no error")
	vCheck(line == sInfoLine(m), "the hook is shown the line")
	vCheck(w.WriteInfo(next) == nil, "no error")
	vCheck(w.Flush() == nil, "no error")
	want := sInfoLine(next)
	if !drop {
		want = line + want
	}
	vCheck(st.text == want, "a dropped packet leaves no trace")
}

func sInfoLine(m *sOut) string {
	if m.payload == "" {
		return "I" + string(m.cmd[:]) + "\n"
	}
	return "I" + string(m.cmd[:]) + " " + m.payload + "\n"
}

// What a stream has taken is on the connection after a flush.
//
//verif:scope A09H
func H_A09_stream_flush() {
	w, st := sUsedWriter()
	m := sOutMsg()
	vAssume(m.bad == nil && m.payload != "")
	id, to := sAnySID("id"), sAnySID("to")
	var s WriteStream
	want := ""
	switch vPick("stream", 7) {
	case 0:
		s, want = w.HubStream(), "H"+string(m.cmd[:])
	case 1:
		s, want = w.InfoStream(), "I"+string(m.cmd[:])
	case 2:
		s, want = w.ClientStream(), "C"+string(m.cmd[:])
	case 3:
		s, want = w.BroadcastStream(id), "B"+string(m.cmd[:])+" "+string(id[:])
	case 4:
		s, want = w.DirectStream(id, to), "D"+string(m.cmd[:])+" "+string(id[:])+" "+string(to[:])
	case 5:
		s, want = w.EchoStream(id, to), "E"+string(m.cmd[:])+" "+string(id[:])+" "+string(to[:])
	case 6:
		s, want = w.FeatureStream(id, nil), "F"+string(m.cmd[:])+" "+string(id[:])
	}
	vCheck(s.WriteMessage(m) == nil, "accepted")
	vCheck(s.Flush() == nil, "no error")
	vCheck(st.text == want+" "+m.payload+"\n", "sent by the flush")
}
