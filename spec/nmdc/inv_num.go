package nmdc

//verif:inv trimSpace 0
func I_trimSpace0(s []byte, s_in []byte, i int) bool {
	return 0 <= i && i <= len(s) && string(s) == string(s_in) && sOnly(string(s[:i]), " ")
}

//verif:inv trimSpace 1
func I_trimSpace1(s []byte, s_in []byte, i int) bool {
	return -1 <= i && i < len(s) && string(s) == string(s_in) && sOnly(string(s[i+1:]), " ")
}

//verif:inv parseUin64Trim 0
func I_parseUin64Trim(s []byte, n uint64, rangeindex int) bool {
	return -1 <= rangeindex && rangeindex < len(s) && vDecEq(string(s[:rangeindex+1]), n)
}

//verif:inv atoiTrim 0
func I_atoiTrim(s []byte, n int, rangeindex int) bool {
	return len(s) < 19 && -1 <= rangeindex && rangeindex < len(s) && n >= 0 && vDecEq(string(s[:rangeindex+1]), uint64(n))
}

//verif:inv (*SR).UnmarshalNMDC 0 N05
func I5_SR(m *SR, i int, j int, hasSep bool, maybePath []byte) bool {
	if j < -1 || j >= len(maybePath) {
		return false
	}
	tail := string(maybePath[j+1:])
	return i == -1 && vIn(tail, "0123456789/") && hasSep == !vIn(tail, "0123456789")
}
