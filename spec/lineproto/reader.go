package lineproto

import (
	"bytes"
	"io"
)

// sG is the ghost state the loop invariants refer to.
var sG struct {
	on  bool
	st  *vStream
	out string // everything delivered to the caller so far, and dropped lines

	left uint64 // what a binary reader has to discard
	skip string // what it has discarded so far
}

func sNoDelim(s string, d byte) bool { return bytes.IndexByte([]byte(s), d) < 0 }

// sBuffered is what was received and not yet delivered.
func sBuffered(b *bufReader) string { return string(b.buf[b.off:]) }

func sValid(b *bufReader) bool {
	return 0 <= b.off && b.off <= len(b.buf) && cap(b.buf) == readBuf
}

func sDelim() byte {
	if vBool("nmdc") {
		return '|'
	}
	return '\n'
}

// sReader is a reader without compression after any number of reads: any
// bytes are buffered, any line buffer is left.
func sReader() (*Reader, *vStream) {
	st := vNewStream("stream")
	r := NewReader(st, sDelim())
	r.SetMaxLine(0)
	vCheck(sValid(r.original) && sBuffered(r.original) == "" && r.cur == r.original && !r.zlibOn, "a new reader has nothing buffered")
	b := r.original
	buf := vStrUpTo("buffer", readBuf)
	b.buf = append(make([]byte, 0, readBuf), buf...)
	b.off = vInt("off", 0, len(buf))
	r.line = []byte(vStr("line"))
	sH.phase = 0
	sG.on, sG.st, sG.out = true, st, vStr("out")
	sU.z = nil
	st.got = sG.out + sBuffered(b)
	st.ended = vBool("ended")
	return r, st
}

func sConsistent(r *Reader, st *vStream) bool {
	return sValid(r.original) && r.cur == r.original && r.original.r == io.Reader(st) && !r.zlibOn
}

func H_L01_read_line() {
	r, st := sReader()
	d := r.delim
	line, err := r.ReadLine()
	vCheck(sConsistent(r, st), "the reader stays consistent")
	vCheck(sG.out+string(line)+sBuffered(r.original) == st.got, "no byte is lost, duplicated or altered")
	if err == nil {
		vCheck(len(line) > 0 && line[len(line)-1] == d, "a line ends with the delimiter")
		vCheck(sNoDelim(string(line[:len(line)-1]), d), "a line has only one delimiter")
	} else {
		vCheck(err == st.err && st.ended, "the transport's error")
		vCheck(sNoDelim(string(line), d), "no complete line is reported with an error")
		vCheck(sBuffered(r.original) == "", "an error comes after all bytes")
	}
}

// ---- L02: the limit ----

func H_L02_limit() {
	r, st := sReader()
	r.SetMaxLine(vInt("max", 1, 1<<62))
	max := r.maxLine
	line, err := r.ReadLine()
	vCheck(sConsistent(r, st), "the reader stays consistent")
	switch {
	case err == nil:
		vCheck(len(line)-readBuf < max, "a line that exceeds the limit by a buffer is refused")
	case err == errBufferExhausted:
		vCheck(line == nil, "no part of a refused line is returned")
		pend := st.got[len(sG.out):]
		vCheck(len(pend) >= max && sNoDelim(pend[:max], r.delim), "a line within the limit is delivered")
		vCheck(len(r.line)-readBuf < max, "no more than the limit and one buffer is accumulated")
	default:
		vCheck(err == st.err, "the transport's error")
		vCheck(len(line)-readBuf < max, "no more than the limit and one buffer is accumulated")
	}
}

func H_L02_no_limit() {
	r, st := sReader()
	r.SetMaxLine(vInt("max", -1<<62, 0))
	_, err := r.ReadLine()
	vCheck(err == nil || err == st.err, "no line is refused for its length")
}

func H_L02_default() {
	r := NewReader(vNewStream("stream"), '\n')
	vCheck(r.maxLine > 0, "there is a limit by default")
}

// ---- L03: raw and binary reads ----

func H_L03_read() {
	r, st := sReader()
	old := vStr("old")
	p := []byte(old)
	n, err := r.Read(p)
	vCheck(sConsistent(r, st), "the reader stays consistent")
	vCheck(0 <= n && n <= len(p), "no more than asked for")
	vCheck(sG.out+string(p[:n])+sBuffered(r.original) == st.got, "exactly the next bytes")
	vCheck(string(p[n:]) == old[n:], "nothing else is stored")
	vCheck(err == nil || err == st.err && st.ended && sBuffered(r.original) == "", "the transport's error comes after all bytes")
}

func H_L03_read_byte() {
	r, st := sReader()
	b, err := r.original.ReadByte()
	vCheck(sConsistent(r, st), "the reader stays consistent")
	if err == nil {
		vCheck(sG.out+string([]byte{b})+sBuffered(r.original) == st.got, "exactly the next byte")
	} else {
		vCheck(sG.out == st.got && err == st.err && st.ended, "the transport's error comes after all bytes")
	}
}

func H_L03_binary_read() {
	r, st := sReader()
	sz := vU64("size")
	bin, err := r.Binary(sz)
	vCheck(err == nil, "accepted")
	p := []byte(vStr("old"))
	n, err := bin.Read(p)
	vCheck(sConsistent(r, st), "the reader stays consistent")
	vCheck(0 <= n && n <= len(p) && uint64(n) <= sz, "no more than asked for")
	vCheck(sG.out+string(p[:n])+sBuffered(r.original) == st.got, "exactly the next bytes")
	vCheck(err == nil || err == st.err && st.ended || uint64(n) == 0 && err == io.EOF, "the transport's error or the end")
	if sz > 0 && len(p) > 0 && err != nil {
		vCheck(err == st.err && st.ended, "no early end")
	}
}

// Closing a binary reader, after an optional read, leaves exactly what follows.
func sBinaryClose(read bool) {
	var r *Reader
	var st *vStream
	if read {
		// the state after the read is arbitrary anyway
		st = vNewStream("stream")
		r = NewReader(st, '|')
		sG.on, sG.st, sG.out = true, st, ""
		sU.z = nil
	} else {
		r, st = sReader()
	}
	sz := vU64("size")
	vAssume(sz < 1<<63)
	bin, err := r.Binary(sz)
	vCheck(err == nil, "accepted")
	if read {
		p := []byte(vStr("old"))
		n, _ := bin.Read(p)
		sG.out += string(p[:n])
		sz -= uint64(n)
	}
	sG.left, sG.skip = sz, ""
	err = bin.Close()
	vCheck(sConsistent(r, st), "the reader stays consistent")
	skip := len(st.got) - len(sG.out) - len(sBuffered(r.original))
	vCheck(skip >= 0 && uint64(skip) <= sz, "no more than the rest is discarded")
	if err == nil && !st.ended {
		vCheck(uint64(skip) == sz, "all of the rest is discarded")
	}
	if err != nil {
		vCheck(err == st.err, "the transport's error")
	}
	vCheck(st.got[len(sG.out)+skip:] == sBuffered(r.original), "the bytes that follow are untouched")
}

func H_L03_binary_close()      { sBinaryClose(false) }
func H_L03_binary_read_close() { sBinaryClose(true) }

func H_L03_closed() {
	r, _ := sReader()
	vCheck(r.Close() == nil, "closed")
	_, err := r.Read(make([]byte, 10))
	vCheck(err != nil, "a closed reader refuses raw reads")
	_, err = r.Binary(10)
	vCheck(err != nil, "a closed reader refuses binary reads")
	_, err = r.ReadLine()
	vCheck(err != nil, "a closed reader refuses lines")
	vCheck(r.EnableZlib() != nil, "a closed reader refuses compression")
	vCheck(r.Close() == nil, "closing again is harmless")
}
