package lineproto

import (
	"compress/flate"
	"io"
	"io/ioutil"
)

//verif:inv (*Reader).ReadLine 0
func I_Reader_ReadLine(r *Reader) bool {
	if !sG.on {
		return true
	}
	if sH.phase != 0 || !sNoDelim(string(r.line), r.delim) || !(r.maxLine <= 0 || len(r.line)-readBuf < r.maxLine) {
		return false
	}
	if r.zlibOn {
		return sZConsistent(r, sG.out+string(r.line))
	}
	return (sU.z == nil || sU.z.done && sRested(r)) && sConsistent(r, sG.st) && sG.st.got == sG.out+string(r.line)+sBuffered(r.original)
}

// sRested: nothing is left of the section that ended.
func sRested(r *Reader) bool {
	c := r.compressed
	return c == nil || c.r == io.Reader(sU.z) && sValid(c) && c.off == len(c.buf)
}

//verif:inv sTakeBytes 0
func I_sTakeBytes(src flate.Reader) bool {
	r := src.(*bufReader)
	return !sG.on || sValid(r) && r.r == io.Reader(sG.st) && sG.st.got == sU.head+sBuffered(r)
}

// What io.Copy does when the destination is ioutil.Discard.
//
//verif:model io.Copy
func M_io_Copy(dst io.Writer, src io.Reader) (int64, error) {
	if dst != ioutil.Discard {
		panic("only copies to ioutil.Discard are described")
	}
	total := int64(0)
	buf := make([]byte, 8192)
	for {
		n, err := src.Read(buf)
		total += int64(n)
		sG.skip += string(buf[:n])
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

//verif:inv M_io_Copy 0
func I_io_Copy(src io.Reader, total int64) bool {
	l := src.(*io.LimitedReader)
	r := l.R.(*Reader)
	return !sG.on || sConsistent(r, sG.st) && sG.st.got == sG.out+sG.skip+sBuffered(r.original) &&
		l.N >= 0 && uint64(len(sG.skip))+uint64(l.N) == sG.left
}

//verif:inv (*bufReader).ReadByte 0
func I_bufReader_ReadByte(r *bufReader) bool {
	if !sG.on {
		return true
	}
	if sU.z != nil {
		return sValid(r) && sG.st.got == sU.head+sBuffered(r)
	}
	return sValid(r) && sG.st.got == sG.out+sBuffered(r)
}
