package nmdc

//verif:inv escapeString 0
func I_escapeString(sw string, sw_in string, s string, i int, last int) bool {
	return 0 <= last && last <= i && i <= len(s) &&
		sNone(s[:i], "\x00") && sNone(s[last:i], "&$|") &&
		sw == sw_in+vHom(s[:last], sText)
}

//verif:inv escapeName 0
func I_escapeName(sw string, sw_in string, s string, i int, last int) bool {
	return 0 <= last && last <= i && i <= len(s) &&
		sNone(s[:i], "\x00\r\n\t$") && sNone(s[last:i], "&<>$|") &&
		sw == sw_in+vHom(s[:last], sName)
}
