package nmdc

import (
	"bytes"
	"strconv"
)

// sTrim is s without the spaces around it.
func sTrim(s []byte) string { return string(bytes.Trim(s, " ")) }

//verif:contract trimSpace
func C_trimSpace(s []byte) []byte {
	t := sTrim(s)
	r := trimSpace(s)
	if t != "" {
		vEnsure(string(r) == t, "the spaces around the text are removed")
	} else {
		vEnsure(sOnly(string(r), " "), "nothing but spaces")
	}
	return r
}

func sOnly(s, set string) bool { return len(bytes.Trim([]byte(s), set)) == 0 }

//verif:contract parseUin64Trim
func C_parseUin64Trim(s []byte) (uint64, error) {
	want, werr := E_parseUin64Trim(s)
	n, err := parseUin64Trim(s)
	vEnsure((err == nil) == (werr == nil), "exactly the decimal numbers in range are accepted")
	if err == nil {
		vEnsure(n == want, "the value is exact")
	}
	return n, err
}

//verif:exact parseUin64Trim
func E_parseUin64Trim(s []byte) (uint64, error) {
	n, err := strconv.ParseUint(sTrim(s), 10, 64)
	if err != nil {
		return vU64("any number"), vNewErr("number")
	}
	return n, nil
}

//verif:contract atoiTrim
func C_atoiTrim(s []byte) (int, error) {
	want, werr := E_atoiTrim(s)
	n, err := atoiTrim(s)
	vEnsure((err == nil) == (werr == nil), "exactly the decimal numbers in range are accepted")
	if err == nil {
		vEnsure(n == want, "the value is exact")
	}
	return n, err
}

//verif:exact atoiTrim
func E_atoiTrim(s []byte) (int, error) {
	n, err := strconv.Atoi(sTrim(s))
	if err != nil {
		return int(vI64("any number")), vNewErr("number")
	}
	return n, nil
}
