package nmdc

import "bytes"

//verif:inv (*Lock).CustomKey 0
func I_CustomKey0(lock []byte, key []byte, magic byte, n int, i int) bool {
	if !(1 <= i && i <= n && n == len(lock) && n == len(key)) {
		return false
	}
	l := string(lock)
	sXorAt(l, magic, i-1)
	x := sXor(l, magic)
	return string(key[:i]) == x[:i]
}

//verif:inv (*Lock).CustomKey 1
func I_CustomKey1(lock []byte, key []byte, magic byte, n int, i int) bool {
	if !(0 <= i && i <= n && n == len(lock) && n == len(key)) {
		return false
	}
	x := sXor(string(lock), magic)
	return string(key) == vHom(x[:i], sSwap)+x[i:]
}

//verif:inv (*Lock).CustomKey 2
func I_CustomKey2(key []byte, buf *bytes.Buffer, rangeindex int) bool {
	return -1 <= rangeindex && rangeindex < len(key) &&
		vBuf(buf) == vHom(string(key[:rangeindex+1]), sKeyEsc)
}
