package tiger

import (
	"errors"
	"hash"
	"io"
)

// ---- T01: tree hashes ----

// The hash function itself is a function of the bytes written.

type sHasher struct{ data string }

//verif:model github.com/cxmcc/tiger.New
func M_tiger_New() hash.Hash { return &sHasher{} }

func (h *sHasher) Write(p []byte) (int, error) {
	h.data += string(p)
	return len(p), nil
}

func (h *sHasher) Sum(b []byte) []byte { return append(b, []byte(vUF("tiger", Size, h.data))...) }
func (h *sHasher) Reset()              { h.data = "" }
func (h *sHasher) Size() int           { return Size }
func (h *sHasher) BlockSize() int      { return BlockSize }

// sTiger is the hash of a text.
func sTiger(s string) string {
	h := New()
	_, _ = h.Write([]byte(s))
	return string(h.Sum(nil))
}

func sLeaf(block string) string { return sTiger("\x00" + block) }

func H_T01_hash_bytes() {
	s := vStr("s")
	b := []byte(s)
	h := HashBytes(b)
	vCheck(string(h[:]) == sTiger(s), "the hash of the bytes")
	vCheck(string(b) == s, "the input is not modified")
}

// sSource delivers any content in any pieces, and ends in any way.
type sSource struct {
	leaves string // hashes of the complete blocks delivered
	blk    string // what was delivered after them
	err    error  // how it ended
}

var errSource = errors.New("source")

const sBlock = 1024

func (s *sSource) feed(d string) {
	s.blk += d
	if len(s.blk) >= sBlock {
		s.leaves += sLeaf(s.blk[:sBlock])
		s.blk = s.blk[sBlock:]
	}
	vAssume(len(s.blk) < sBlock)
}

// all are the leaves of the content.
func (s *sSource) all() string {
	if s.blk == "" && s.leaves != "" {
		return s.leaves
	}
	return s.leaves + sLeaf(s.blk)
}

func (s *sSource) end() error {
	if s.err == nil {
		switch vPick("end", 4) {
		case 0:
			s.err = errSource
		case 1:
			s.err = io.ErrUnexpectedEOF
		default:
			s.err = io.EOF
		}
	}
	return s.err
}

func (s *sSource) Read(p []byte) (int, error) {
	if s.err != nil {
		return 0, s.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := vInt("n", 0, len(p))
	d := vStrLen("data", n)
	copy(p, d)
	s.feed(d)
	if vPick("more", 3) == 0 {
		return n, s.end()
	}
	return n, nil
}

// What io.ReadFull does with such a source.
//
//verif:model io.ReadFull
func M_io_ReadFull(r io.Reader, buf []byte) (int, error) {
	s := r.(*sSource)
	if len(buf) == 0 {
		return 0, nil
	}
	if s.err != nil {
		return 0, s.err
	}
	n := vInt("n", 0, len(buf))
	d := vStrLen("data", n)
	copy(buf, d)
	s.feed(d)
	if n == len(buf) {
		return n, nil
	}
	err := s.end()
	if err == io.EOF && n > 0 {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

var sT struct {
	on   bool
	st   *sSource
	want string // the root
	mark string // the leaves before the block being read
}

//verif:inv readBlock 0
func I0_readBlock(buf []byte, n int, err error) bool {
	if !sT.on {
		return true
	}
	st := sT.st
	if n < 0 || n > len(buf) || len(buf) != sBlock || err != st.err && !(n == 0 && err == nil) {
		return false
	}
	if n == sBlock {
		return st.blk == "" && st.leaves == sT.mark+sLeaf(string(buf))
	}
	return st.blk == string(buf[:n]) && st.leaves == sT.mark
}

//verif:inv TreeLeaves 0
func I0_TreeLeaves(lvl Leaves, err error, buf []byte) bool {
	if !sT.on {
		return true
	}
	st := sT.st
	sT.mark = st.leaves
	if len(buf) != sBlock+1 || err != nil && err != io.EOF {
		return false
	}
	if err != nil {
		return st.err == err && vCat(lvl) == st.all()
	}
	return st.blk == "" && vCat(lvl) == st.leaves
}

func H_T01_leaves() {
	st := &sSource{}
	sT.on, sT.st = true, st
	got, err := TreeLeaves(st)
	sT.on = false
	if st.err != io.EOF {
		vCheck(err != nil && err == st.err, "a read error is reported")
		return
	}
	vCheck(err == nil, "no error")
	vCheck(vCat(got) == st.all(), "one leaf for each block")
}

// sPairs is the level above a list of hashes: each two become one, the last of an odd number
// stays.
func sPairs(s string) string {
	if len(s) <= Size {
		return s
	}
	if !vProving() {
		return sTiger("\x01"+s[:2*Size]) + sPairs(s[2*Size:])
	}
	r := vUF("pairs", (len(s)/Size+1)/2*Size, s)
	rest := s[2*Size:]
	if len(rest) > Size {
		rest = vUF("pairs", (len(rest)/Size+1)/2*Size, rest)
	}
	vAssume(r == sTiger("\x01"+s[:2*Size])+rest) // the definition of the function
	return r
}

// sRoot is the root of the tree over a list of hashes.
func sRoot(s string) string {
	if len(s) <= Size {
		return s
	}
	if !vProving() {
		return sRoot(sPairs(s))
	}
	return vUF("root", Size, s)
}

// sIsRoot says that h is the root over the leaves s.
func sIsRoot(h Hash, s string) bool {
	got := string(h[:])
	if got == sRoot(s) {
		return true
	}
	// not so by the definitions used in the invariants: unfold them completely
	for vProving() && len(s) > Size {
		level := ""
		for t := s; t != ""; {
			if len(t) <= Size {
				level += t
				break
			}
			level += sTiger("\x01" + t[:2*Size])
			t = t[2*Size:]
		}
		vAssume(sRoot(s) == sRoot(level))
		s = level
	}
	return got == sRoot(s)
}

func sRootOf(leaves Leaves) string {
	if len(leaves) == 0 {
		return sLeaf("")
	}
	return sRoot(vCat(leaves))
}

// sWant is the root that is being computed.
func sWant() string {
	if sT.st != nil {
		return sRoot(sT.st.all())
	}
	return sT.want
}

//verif:inv (Leaves).TreeHash 0
func I0_Leaves_TreeHash(lvl []Hash, buf []byte) bool {
	if !sT.on {
		return true
	}
	return len(lvl) > 0 && len(buf) == 2*Size+1 && sRoot(vCat(lvl)) == sWant()
}

//verif:inv (Leaves).TreeHash 1
func I1_Leaves_TreeHash(lvl []Hash, buf []byte, i int) bool {
	if !sT.on {
		return true
	}
	if i < 0 || i%2 != 0 || i > len(lvl)+1 || len(lvl) < 2 || len(buf) != 2*Size+1 {
		return false
	}
	if i == 0 {
		// the definition of the root
		vAssume(sRoot(vCat(lvl)) == sRoot(sPairs(vCat(lvl))))
	}
	rest := ""
	if i < len(lvl) {
		rest = sPairs(vCat(lvl[i:]))
	}
	return sRoot(vCat(lvl[:i/2])+rest) == sWant()
}

func sListOf(name string) Leaves {
	n := vInt(name+".n", 0, 1<<40)
	vAssume(vProving() || n < 60)
	var l Leaves
	vFillList(&l, vStrLen(name, n*Size), n)
	return l
}

func H_T01_combine() {
	in := sListOf("leaves")
	was := vCat(in)
	want := sRootOf(in)
	sT.on, sT.want = true, want
	got := in.TreeHash()
	sT.on = false
	if len(in) == 0 {
		vCheck(string(got[:]) == want, "the root over no leaves")
	} else {
		vCheck(sIsRoot(got, was), "the root over the leaves")
	}
	vCheck(vCat(in) == was, "the leaves are not modified")
}

//verif:inv TreeHash 0
func I0_TreeHash(lvl []Hash, err error, buf []byte) bool { return I0_TreeLeaves(lvl, err, buf) }

//verif:inv TreeHash 1
func I1_TreeHash(lvl []Hash, buf []byte) bool { return I0_Leaves_TreeHash(lvl, buf) }

//verif:inv TreeHash 2
func I2_TreeHash(lvl []Hash, buf []byte, i int) bool { return I1_Leaves_TreeHash(lvl, buf, i) }

func H_T01_stream() {
	st := &sSource{}
	sT.on, sT.st = true, st
	got, err := TreeHash(st)
	sT.on = false
	if st.err != io.EOF {
		vCheck(err != nil && err == st.err, "a read error is reported")
		return
	}
	vCheck(err == nil, "no error")
	vCheck(sIsRoot(got, st.all()), "the root over the blocks")
}

// The leaves of a stream, combined, are its hash.
func H_T01_leaves_combine() {
	st := &sSource{}
	sT.on, sT.st = true, st
	leaves, err := TreeLeaves(st)
	if err != nil {
		return
	}
	got := leaves.TreeHash()
	sT.on = false
	vCheck(sIsRoot(got, st.all()), "the root over the blocks")
}
