package nmdc

//verif:inv (*ChatMessage).UnmarshalNMDC 0
func I_ChatMessage_UnmarshalNMDC(data []byte, data_in []byte, base int) bool {
	return string(data) == string(data_in) && 0 <= base && base <= len(data) &&
		(base == 0 || data[base-1] == '>') &&
		sNone(string(data[:base]), "\r\n") && !sCont(string(data[:base]), "> ") &&
		(base == 0 || base == len(data) || data[base] != ' ')
}
