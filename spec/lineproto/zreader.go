package lineproto

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"io"
)

// The contract of compress/zlib's reader: it takes the bytes of one
// compressed section, one by one or by raw reads, delivers its content in
// pieces of any size, and reports io.EOF from then on without taking anything
// that follows the section.

var sU struct {
	z    *sInflater
	head string // what was taken from the transport so far
	inf  string // what was taken before the section and the content delivered by the decompressor
	out  string // what the user got before the section
}

type sInflater struct {
	src  flate.Reader
	done bool
}

//verif:model compress/zlib.NewReader
func M_zlib_NewReader(r io.Reader) (io.ReadCloser, error) {
	z := &sInflater{}
	if err := z.Reset(r, nil); err != nil {
		return nil, err
	}
	return z, nil
}

func (z *sInflater) Reset(r io.Reader, dict []byte) error {
	src, ok := r.(flate.Reader)
	vCheck(ok, "the decompressor must not read beyond the section")
	vCheck(dict == nil, "no dictionary is used")
	z.src, z.done = src, false
	sU.z = z
	if err := sTake(src); err != nil {
		return err
	}
	if vBool("header") {
		return zlib.ErrHeader
	}
	return nil
}

// sTake takes any number of bytes. What that does to the reader is shown by
// H_L04_take.
func sTake(src flate.Reader) error {
	r, ok := src.(*bufReader)
	if !ok || !sG.on {
		return sTakeBytes(src)
	}
	vCheck(sValid(r) && r.r == io.Reader(sG.st) && sG.st.got == sU.head+sBuffered(r), "the decompressor takes the bytes that come next")
	vScramble(r.buf[:cap(r.buf)])
	r.buf = r.buf[:vInt("len", 0, readBuf)]
	r.off = vInt("off", 0, len(r.buf))
	sU.head = vStr("taken")
	sG.st.got = sU.head + sBuffered(r)
	switch vPick("takeerr", 3) {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		sG.st.ended = true
		return sEOF(sG.st.err)
	}
	return nil
}

func H_L04_take() {
	r, st := sReader()
	sU.z = &sInflater{src: r.original}
	sU.head = sG.out
	err := sTakeBytes(r.original)
	vCheck(sConsistent(r, st), "the reader stays consistent")
	vCheck(st.got == sU.head+sBuffered(r.original), "exactly the next bytes are taken")
	vCheck(err == nil || err == io.ErrUnexpectedEOF || err == st.err && st.ended, "the transport's error")
}

func sTakeBytes(src flate.Reader) error {
	for vBool("take") {
		if vBool("stored") {
			p := make([]byte, vInt("stored.n", 1, 65535))
			n, err := src.Read(p)
			sU.head += string(p[:n])
			if err != nil {
				return sEOF(err)
			}
			continue
		}
		b, err := src.ReadByte()
		if err != nil {
			return sEOF(err)
		}
		sU.head += string([]byte{b})
	}
	return nil
}

func sEOF(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

func (z *sInflater) Read(p []byte) (int, error) {
	if z.done {
		return 0, io.EOF
	}
	if err := sTake(z.src); err != nil {
		return 0, err
	}
	if vBool("corrupt") {
		return 0, zlib.ErrChecksum
	}
	n := vInt("inflated.n", 0, len(p))
	piece := vStrLen("inflated", n)
	copy(p, piece)
	sU.inf += piece
	if vBool("end") {
		// from here on the section counts as replaced by its content
		z.done = true
		rest := sG.st.got[len(sU.head):]
		sG.st.got = sU.inf + rest
		sU.head = sU.inf
		return n, io.EOF
	}
	return n, nil
}

func (z *sInflater) Close() error { return nil }

// sZConsistent: the reader is inside a compressed section, and the user got
// out so far.
func sZConsistent(r *Reader, out string) bool {
	return r.zlibOn && r.cur == r.compressed && r.compressed != r.original && r.original.r == io.Reader(sG.st) &&
		r.zlib == io.ReadCloser(sU.z) && r.compressed.r == io.Reader(sU.z) && sU.z.src == flate.Reader(r.original) &&
		sValid(r.original) && sValid(r.compressed) &&
		sG.st.got == sU.head+sBuffered(r.original) &&
		sU.inf == out+sBuffered(r.compressed) &&
		(!sU.z.done || sU.head == sU.inf)
}

// sZReader is a reader inside a compressed section after any number of reads.
func sZReader() (*Reader, *vStream) {
	r, st := sReader()
	z := &sInflater{src: r.original}
	r.zlib, r.zlibOn = z, true
	r.compressed = newBufReader(z)
	r.cur = r.compressed
	buf := vStrUpTo("inflatedbuf", readBuf)
	r.compressed.buf = append(make([]byte, 0, readBuf), buf...)
	r.compressed.off = vInt("inflatedoff", 0, len(buf))
	sU.z = z
	sU.inf = sG.out + sBuffered(r.compressed)
	if vBool("done") {
		z.done = true
		sU.head = sU.inf
	} else {
		sU.head = vStr("head")
	}
	st.got = sU.head + sBuffered(r.original)
	return r, st
}

func H_L04_enable() {
	r, st := sReader()
	if !vGhost() {
		sZSections()
		return
	}
	sEnable(r, st)
}

// Enabling again, after any operation that ended the section before.
func H_L04_enable_again() {
	if !vGhost() {
		sZSections()
		return
	}
	r, st := sZReader()
	if vBool("line") {
		line, _ := r.ReadLine()
		sG.out += string(line)
	} else {
		p := make([]byte, vInt("p", 0, 1<<20))
		n, _ := r.Read(p)
		sG.out += string(p[:n])
	}
	if r.zlibOn {
		return
	}
	vReach("the section ended")
	sEnable(r, st)
}

func sEnable(r *Reader, st *vStream) {
	sU.head, sU.inf = sG.out, sG.out
	err := r.EnableZlib()
	if err != nil {
		vCheck(err == zlib.ErrHeader || err == io.ErrUnexpectedEOF || err == st.err, "only invalid data is refused")
		return
	}
	vCheck(sZConsistent(r, sG.out), "decompression starts exactly at the next byte")
	vCheck(r.EnableZlib() != nil, "enabling twice is an error")
	vCheck(sZConsistent(r, sG.out), "enabling twice changes nothing")
}

func H_L04_read_line() {
	if !vGhost() {
		sZSections()
		return
	}
	r, st := sZReader()
	line, err := r.ReadLine()
	d := r.delim
	out := sG.out + string(line)
	if r.zlibOn {
		vCheck(sZConsistent(r, out), "lines come from the decompressed data")
	} else {
		vCheck(sU.z.done, "compressed reading ends with the compressed data")
		vCheck(sConsistent(r, st) && st.got == out+sBuffered(r.original), "reading continues with the plain bytes that follow")
	}
	if err == nil {
		vCheck(len(line) > 0 && line[len(line)-1] == d, "a line ends with the delimiter")
		vCheck(sNoDelim(string(line[:len(line)-1]), d), "a line has only one delimiter")
	} else {
		vCheck(sNoDelim(string(line), d), "no complete line is reported with an error")
		vCheck(err == st.err && st.ended || r.zlibOn && !sU.z.done && (err == zlib.ErrChecksum || err == io.ErrUnexpectedEOF), "the end of compressed data is not an error")
	}
}

func H_L04_read() {
	if !vGhost() {
		sZSections()
		return
	}
	r, st := sZReader()
	p := make([]byte, vInt("p", 0, 1<<20))
	n, err := r.Read(p)
	vCheck(0 <= n && n <= len(p), "no more than asked for")
	out := sG.out + string(p[:n])
	if r.zlibOn {
		vCheck(sZConsistent(r, out), "raw reads come from the decompressed data")
	} else {
		vCheck(sU.z.done, "compressed reading ends with the compressed data")
		vCheck(sConsistent(r, st) && st.got == out+sBuffered(r.original), "reading continues with the plain bytes that follow")
	}
	if err != nil {
		vCheck(err == st.err && st.ended || r.zlibOn && !sU.z.done && (err == zlib.ErrChecksum || err == io.ErrUnexpectedEOF), "the end of compressed data is not an error")
	}
}

// Binary reads are raw reads, and go on after the section as well.
func H_L04_binary_read() {
	if !vGhost() {
		sZSections()
		return
	}
	r, st := sZReader()
	sz := vU64("size")
	bin, err := r.Binary(sz)
	vCheck(err == nil, "accepted")
	p := make([]byte, vInt("p", 0, 1<<20))
	n, err := bin.Read(p)
	vCheck(0 <= n && n <= len(p) && uint64(n) <= sz, "no more than asked for")
	out := sG.out + string(p[:n])
	if r.zlibOn {
		vCheck(sZConsistent(r, out), "binary reads come from the decompressed data")
	} else {
		vCheck(sU.z.done, "compressed reading ends with the compressed data")
		vCheck(sConsistent(r, st) && st.got == out+sBuffered(r.original), "reading continues with the plain bytes that follow")
	}
	if err != nil && sz != 0 {
		vCheck(err == st.err && st.ended || r.zlibOn && !sU.z.done && (err == zlib.ErrChecksum || err == io.ErrUnexpectedEOF), "the end of compressed data is not an error")
	}
}

func H_L04_closed() {
	r, _ := sReader()
	vCheck(r.Close() == nil, "closed")
	vCheck(r.EnableZlib() != nil, "a closed reader refuses compression")
}

// sZSections is the executable form of the same statements: plain and
// compressed sections in turn, delivered in pieces, read in several ways.
func sZSections() {
	d := sDelim()
	set := string([]byte{d}) + "ab\x00"
	var wire bytes.Buffer
	var plain string // the logical stream
	var starts []int
	var ends []int
	n := vInt("sections", 1, 3)
	for i := 0; i < n; i++ {
		s := vStrOf("plain", set) + string([]byte{d})
		plain += s
		wire.WriteString(s)
		starts = append(starts, len(plain))
		s = vStrOf("content", set)
		z, err := zlib.NewWriterLevel(&wire, vInt("level", -2, 9))
		vCheck(err == nil, "level")
		_, _ = z.Write([]byte(s))
		_ = z.Close()
		plain += s
		ends = append(ends, len(plain))
	}
	s := vStrOf("plain", set)
	plain += s
	wire.WriteString(s)
	r := NewReader(&sPieces{data: wire.Bytes()}, d)
	pos, sect := 0, 0
	for steps := 0; steps < 200; steps++ {
		on := false
		if sect < n && pos == starts[sect] {
			vCheck(r.EnableZlib() == nil, "decompression starts exactly at the next byte")
			vCheck(r.EnableZlib() != nil, "enabling twice is an error")
			sect++
		}
		on = sect > 0 && pos < ends[sect-1]
		next := len(plain)
		if sect < n {
			next = starts[sect]
		}
		if i := bytes.IndexByte([]byte(plain[pos:next]), d); i >= 0 && vBool("line") {
			line, err := r.ReadLine()
			vCheck(err == nil && string(line) == plain[pos:pos+i+1], "lines and raw reads come from the decompressed data, then the plain data")
			pos += i + 1
			continue
		}
		max := next - pos
		if max == 0 {
			break
		}
		if vBool("binary") {
			// may go over the end of a section
			n := vInt("n", 1, max)
			b, err := r.Binary(uint64(n))
			vCheck(err == nil, "accepted")
			p := make([]byte, vInt("bn", 0, n))
			_, err = io.ReadFull(b, p)
			vCheck(err == nil && string(p) == plain[pos:pos+len(p)], "binary reads come from the decompressed data, then the plain data")
			vCheck(b.Close() == nil, "closed")
			pos += n
			continue
		}
		p := make([]byte, vInt("n", 1, max))
		k, err := r.Read(p)
		vCheck(err == nil && string(p[:k]) == plain[pos:pos+k], "lines and raw reads come from the decompressed data, then the plain data")
		_ = on
		pos += k
	}
}

type sPieces struct{ data []byte }

func (s *sPieces) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if n > len(s.data) {
		n = len(s.data)
	}
	if n > 0 && vBool("short") {
		n = vInt("piece", 1, n)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	return n, nil
}
