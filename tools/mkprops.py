#!/usr/bin/env python3
# Source of truth for /verif/properties.jsonl (run to regenerate).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("L01","Line reading is exact for every chunking of the transport",
"Reading lines from a connection returns exactly the successive delimiter-terminated pieces of the incoming byte stream, in order, with no byte lost, duplicated or altered, however the transport splits the stream into reads (including empty reads and data delivered together with an error). When the stream ends without a delimiter, the unterminated rest is returned together with the transport's error, and is never presented as a complete line.",
["inputs","fault_sequences"],"all byte streams, all ways of splitting them into reads, all positions of a transport error",
"the two reader tests use two fixed streams that always arrive in one read",
["lineproto/reader.go"],[("buffered scan for the delimiter","lineproto/reader.go bufReader.Scan/peek"),("line assembly","lineproto/reader.go Reader.ReadLine")],
["Reader.ReadLine results"],[("buffer and offset","bytes received but not yet delivered","lineproto/reader.go bufReader")])
p("L02","The line length limit is enforced and never refuses a legal line",
"With a positive line limit, a line (delimiter included) no longer than the limit is always delivered, whatever the chunking, and a line that exceeds the limit by at least one internal read buffer (2048 bytes) is always refused with an error instead of being accumulated. With a limit of zero or below, no line is refused for its length.",
["inputs","configurations"],"all limits, all line lengths, all chunkings",
"no test sets a limit or sends a line near it",
["lineproto/reader.go"],[("limit test before every scan","lineproto/reader.go Reader.ReadLine"),("setter","lineproto/reader.go Reader.SetMaxLine")])
p("L03","Raw and binary reads take exactly their bytes between lines",
"Lines, raw reads and length-limited binary reads on one reader consume one and the same byte stream in order: each continues at the byte after the last one delivered, and each raw read stores and reports only bytes of the stream. A binary read of n bytes delivers at most the next n bytes, and closing it discards exactly what is left of those n bytes, so that the next line starts right after them.",
["inputs","histories"],"all interleavings of line, raw and binary reads, all sizes and chunkings",
"no test mixes binary or raw reads with lines",
["lineproto/reader.go"],[("buffer drained before bypass","lineproto/reader.go bufReader.Read"),("limit and drain","lineproto/reader.go Reader.Binary, binaryReader.Close")])
p("L04","Switching to and from compressed input keeps the stream exact",
"After compressed reading is enabled, lines and raw reads come from the decompressed data, and when the compressed data ends, reading continues with the plain bytes that follow it, with none lost or duplicated at either boundary; this holds again for every later compressed section. Enabling compression while it is active, or using a closed reader, returns an error.",
["inputs","histories"],"all compressed and plain contents, all chunkings, repeated switches",
"one test switches once with all data available in one buffer",
["lineproto/reader.go"],[("fall back at end of compressed data","lineproto/reader.go Reader.ReadLine/Read"),("enable","lineproto/reader.go Reader.EnableZlib")],None,
[("current reader / zlib flag","which decoder the next byte comes from","lineproto/reader.go Reader")])
p("L05","Written data reaches the transport in order and complete on flush",
"The bytes the transport receives are exactly the lines and raw writes given to the writer, in the order they were given, without loss, duplication or reordering; buffered lines are sent before a following raw write, and a successful flush or close leaves nothing buffered.",
["inputs","histories"],"all sequences of line writes, raw writes, flushes and close, all contents",
"tests write a handful of fixed lines through the default buffer",
["lineproto/writer.go"],[("buffered line write","lineproto/writer.go Writer.WriteLine"),("flush before direct write","lineproto/writer.go Writer.Write/Flush/Close")])
p("L06","Writer errors are sticky and timeouts are paired",
"Once writing fails (in the transport, the timeout callback or a line hook) the error is kept and every later line write, raw write or flush returns an error without sending anything; after closing, the writer refuses all further writes. When a timeout callback is set, it is armed before each line write and each flush call touches the transport and disarmed exactly once afterwards, and an error from arming it stops the operation before anything is sent.",
["fault_sequences","histories"],"all failure points, all later operations",
"no test injects a transport, hook or timeout error",
["lineproto/writer.go"],[("stored error","lineproto/writer.go Writer.err/setError"),("timeout bracket","lineproto/writer.go Writer.WriteLine/Flush")])
p("L07","Compressed output begins and ends exactly where it was switched",
"Everything written between enabling and disabling compression, and nothing else, goes to the transport through the compressor; data written before enabling is sent plain beforehand, and data written after disabling is sent plain after the compressed section was properly terminated. Enabling twice, disabling when inactive, or an invalid level returns an error.",
["inputs","histories"],"all contents, all sequences of enable, disable, write and flush, all levels",
"tests cover one enable/disable sequence with fixed text",
["lineproto/writer.go"],[("enable","lineproto/writer.go Writer.EnableZlibLevel"),("disable","lineproto/writer.go Writer.DisableZlib")])
p("L08","Line hooks see every line once, in order, and can drop or abort",
"Every complete line read or written is shown, delimiter included, to all registered line hooks in registration order, once each; a hook that drops the line suppresses that line only and later hooks do not see it, and a hook error aborts the operation and is returned. A dropped line leaves no trace in the following lines.",
["inputs","histories"],"all lines, all numbers of hooks, all hook answers",
"no test registers two hooks or drops a line between others",
["lineproto/reader.go","lineproto/writer.go"],[("read hooks","lineproto/reader.go Reader.ReadLine"),("write hooks","lineproto/writer.go Writer.WriteLine")])

p("T01","Tree hashes follow the tree-hash definition for any content",
"The tree hash of a stream is the Merkle root over its consecutive 1024-byte blocks (leaf prefix byte 0, node prefix byte 1, an unpaired node is promoted unchanged, empty content is one empty leaf), for content of every length and however the stream splits it into reads. The leaves reported for a stream, combined, give the same root, combining them does not modify them, and a read error is reported instead of a hash.",
["inputs","fault_sequences"],"all contents, lengths and read splits",
"fixed contents up to 1025 bytes, always delivered in full reads",
["tiger/tth.go","tiger/tiger.go"],[("leaf loop","tiger/tth.go TreeHash/TreeLeaves"),("pairing loop","tiger/tth.go Leaves.TreeHash")])
p("T02","Text form of hashes and identifiers is exact and total",
"A 24-byte hash, client or private identifier is written as its 39-character unpadded upper-case base32 text, and parsing that text gives back the same value. Parsing text of any other length or with other characters returns an error, never crashes, and leaves the target value unchanged.",
["inputs"],"all hash values, all candidate texts",
"tests parse a few valid hashes only",
["tiger/tiger.go","adc/types/types.go"],[("codec","tiger/tiger.go Hash.UnmarshalBase32/FromBase32/MarshalBase32"),("identifier codec","adc/types/types.go CID")])
p("K01","Certificate keyprints are computed and verified exactly",
"The keyprint of a certificate is the text SHA256/ followed by the unpadded base32 of the SHA-256 of its raw bytes; a PEM file or certificate chain yields the keyprints of its certificate blocks, all of them and only them, in order, and a file without any is an error. Verifying a connection succeeds exactly when one of the peer certificates has the expected keyprint, and a failure reports the expected and the actual ones.",
["inputs"],"all certificate bytes, chains and expected keyprints",
"one fixed PEM file; verification is untested",
["keyprint/keyprint.go","keyprint/tlskp/tlskp.go"],[("digest and encoding","keyprint/keyprint.go FromBytes"),("verification","keyprint/tlskp/tlskp.go VerifyKeyPrint")])

p("A01","ADC text escaping is lossless and hides separators",
"Any text written as an ADC value contains no space and no line feed in its encoded form, and decoding the encoded form gives back the same text, for every byte sequence.",
["inputs"],"all strings",
"a few literal strings",
["adc/marshal.go","adc/types.go","adc/chat.go"],[("escaper tables","adc/marshal.go escape/unescape")])
p("A02","ADC packets of every kind survive framing",
"A packet of any of the eight kinds is encoded as one line starting with its kind and the three-letter command and ending with the only line feed, and decoding that line gives the same kind, command, addressing (source, target, feature selection or client identifier) and message payload, for every address and payload (feature names are non-empty with no space, and the payload of a feature packet does not begin with a further selection sign).",
["inputs"],"all kinds, commands, addresses, selections and payloads without line feeds",
"a dozen fixed packets",
["adc/packets.go"],[("encoders","adc/packets.go *Packet.MarshalPacketADC"),("decoders","adc/packets.go DecodePacketRaw, *Packet.UnmarshalPacketADC")])
p("A03","Malformed ADC packets are refused, never misread and never crash",
"Decoding any byte sequence as an ADC packet returns either an error or a packet and never crashes. A packet is only accepted when the input is a known kind, a three-character command and complete addressing, each separated by one space, terminated by a line feed and free of null bytes, and the addressing and payload reported are exactly what the corresponding bytes of the input say.",
["inputs"],"all byte sequences",
"no malformed packet is tested",
["adc/packets.go"],[("length and separator checks","adc/packets.go *Packet.UnmarshalPacketADC")])
p("A04","ADC messages survive encoding and decoding field by field",
"For every message type whose payload is described by its fields, encoding a message and decoding the result into a fresh message of the same type gives back an equal message, whatever texts, numbers, flags, identifiers and lists the fields hold; a field that is absent from the input keeps its zero value, and fields are recognised by their tag wherever they appear.",
["inputs"],"all message types with field tags and all field values (bounded subsets of simultaneously set fields, see the check)",
"each message type is tested with one or two literal values",
["adc/marshal.go","adc/user.go","adc/search.go","adc/hub.go","adc/connect.go","adc/chat.go","adc/messages.go"],[("field codec","adc/marshal.go Marshal/Unmarshal/marshalValue/unmarshalValue")])
p("A05","ADC payload decoding never crashes and refuses malformed values",
"Decoding any payload bytes as any known ADC message returns a message or an error and never crashes. A payload that lacks a mandatory positional field, or whose number, flag or hash text is malformed or out of range, is refused with an error rather than silently accepted or ignored.",
["inputs"],"all payload bytes for all registered message types",
"no malformed payload is tested",
["adc/marshal.go","adc/messages.go","adc/files.go","adc/hub.go","adc/types.go"],[("decoders","adc/marshal.go Unmarshal/unmarshalValue")])
p("A06","Self-encoded ADC messages survive encoding and decoding",
"Status, file request, password challenge and response, feature announcements, free-form field lists, chat text, paths and raw messages decode to the value they were encoded from, for every value their format can carry; a status keeps its severity and its two-digit code, and a file request keeps its type, path, start, length and flags.",
["inputs"],"all representable values",
"single literal examples",
["adc/messages.go","adc/files.go","adc/hub.go","adc/types.go","adc/chat.go"],[("custom codecs","adc/messages.go Status/Supported/Fields, adc/files.go, adc/hub.go, adc/types.go")])
p("A07","ADC feature sets follow set algebra",
"Applying a feature announcement, testing, combining and intersecting feature sets (of names without spaces or backslashes) agree with plain set semantics: a feature is set exactly when its latest announcement added it, intersection holds exactly the features present in both, and no operation changes its inputs.",
["inputs","histories"],"all sets and sequences of announcements",
"one sequence of features",
["adc/types.go","adc/messages.go"],[("set operations","adc/types.go ModFeatures, Features")])
p("A08","Packet reading delivers every packet once and handles keep-alives",
"Reading packets from a connection returns the decoded form of each received line in order, skipping empty keep-alive lines after reporting each to its callback once (whose error is returned); a line without its delimiter or a malformed line yields an error and the following lines are still read correctly. Packets decoded with their message do not change when later input is read.",
["inputs","histories"],"all streams of lines",
"streams of well-formed packets only",
["adc/reader.go","adc/packets.go"],[("packet loop","adc/reader.go Reader.readPacket")])
p("A09","Writing ADC packets puts exactly their encoding on the wire",
"Each packet writing call and each message stream sends exactly one line, the encoding of the packet kind it names with the given addressing and message, in call order; when a packet cannot be encoded or a line hook drops it, nothing of it is sent.",
["inputs","histories"],"all packet kinds, addresses, messages and call sequences",
"few writer calls with fixed messages",
["adc/writer.go","adc/packets.go"],[("packet writer","adc/writer.go Writer.WritePacket and streams")])

p("N01","NMDC text escaping is lossless and blocks command injection",
"Any text or user name that can be written in an NMDC message contains no command delimiter or dollar sign in its encoded form (nor angle brackets for names), and decoding the encoded form gives back the same text (for valid UTF-8, and names encoded in at most 256 bytes); texts with null bytes, and names with null bytes, line breaks, tabs, dollar signs or more than 256 bytes, are refused. Texts containing the legacy DCN escape sequence are excepted from the round trip.",
["inputs"],"all strings",
"a few literal strings",
["nmdc/utils.go","nmdc/types.go"],[("escape loops and tables","nmdc/utils.go escapeString/escapeName"),("unescape","nmdc/types.go UnescapeBytes")])
p("N02","NMDC chat and private messages survive encoding and decoding",
"A public chat, private, private-room or user-command message decodes to the same sender, recipients, text, path and command it was encoded from, for every name and text its format can carry, including texts that look like protocol syntax. A sender reported for a received chat line is always the text between its opening and closing angle bracket.",
["inputs"],"all names and texts representable in the format",
"fixed literal messages",
["nmdc/msg_chat.go"],[("codecs","nmdc/msg_chat.go")])
p("N03","NMDC hub and user messages survive encoding and decoding",
"Every other registered NMDC message (connection requests, user info, lists, search, search results, file requests, hub info, handshake, errors and so on) decodes to an equal message from its own encoding, for every field value its format can carry.",
["inputs"],"all message types and representable field values (lists up to a stated length)",
"one or two literal values per message type",
["nmdc/msg_ctm.go","nmdc/msg_errors.go","nmdc/msg_files.go","nmdc/msg_hub.go","nmdc/msg_lock.go","nmdc/msg_other.go","nmdc/msg_pass.go","nmdc/msg_ping.go","nmdc/msg_search.go","nmdc/msg_user.go","nmdc/msg_user_list.go","nmdc/extensions.go"],[("codecs","nmdc/msg_*.go MarshalNMDC/UnmarshalNMDC")])
p("N04","No NMDC input can crash the decoder",
"Decoding any byte sequence as any NMDC message, or as a whole message line, returns a message or an error and never crashes, and encoding any message value returns bytes or an error and never crashes.",
["inputs"],"all byte sequences for all registered message types; all message values",
"only well-formed payloads are tested",
["nmdc/message.go","nmdc/msg_chat.go","nmdc/msg_search.go","nmdc/msg_user.go","nmdc/msg_files.go","nmdc/msg_lock.go","nmdc/utils.go"],[("decoders","nmdc/*.go UnmarshalNMDC"),("framing","nmdc/message.go MarshalTo")])
p("N05","NMDC numbers are parsed exactly or refused",
"Wherever an NMDC message carries a number, it is read as exactly the decimal value of its digits (surrounding spaces ignored, a sign only where signed numbers are expected); text that is empty, has other characters or exceeds the number's range is refused with an error, never wrapped or truncated (a malformed share size in user info, text after a user command context and a negative search size are tolerated as absent).",
["inputs"],"all byte sequences",
"a few small numbers",
["nmdc/utils.go","nmdc/msg_search.go","nmdc/msg_files.go","nmdc/msg_user.go"],[("parsers","nmdc/utils.go atoiTrim/parseUin64Trim")])
p("N06","The NMDC reader delivers the right message or the right error",
"For each received line the reader decodes the message type the line names (chat for a line without a command), skips keep-alives after reporting them, refuses lines with null bytes, missing delimiter or empty, over-long or non-ASCII command names (made of letters, digits and a few punctuation signs), and, when specific message types are expected, delivers a matching message into the given value and reports any other as unexpected.",
["inputs","histories"],"all lines, all expected types",
"fixed sequences of well-formed messages",
["nmdc/reader.go","nmdc/message.go"],[("dispatch","nmdc/reader.go Reader.readMsgTo")])
p("N07","NMDC message hooks can drop messages without disturbing the rest",
"Raw-message and decoded-message hooks run in registration order on every message; a dropped message, or one whose decoding error the error hook chose to ignore, is skipped entirely and the next message is then delivered exactly as if the skipped one had never been received, including its type; a hook error is returned.",
["inputs","histories"],"all message sequences and hook answers",
"hooks are exercised with one message each",
["nmdc/reader.go","nmdc/writer.go"],[("hooks","nmdc/reader.go Reader.readMsgTo"),("write hooks","nmdc/writer.go Writer.WriteMsg")])
p("N08","Lock challenges are answered with the standard key",
"The key computed for a lock is the protocol's XOR and nibble-swap transform of the lock text with the six reserved byte values replaced by their escape sequences, for every lock text and magic byte, and so contains no command delimiter or dollar sign; a lock too short for the transform does not crash.",
["inputs"],"all lock texts and magic bytes",
"one lock/key pair",
["nmdc/msg_lock.go"],[("key transform","nmdc/msg_lock.go Lock.CustomKey")])
p("N09","NMDC extension lists and sets follow set algebra",
"Membership, adding, cloning, listing and intersecting protocol extensions agree with plain set semantics: an intersection holds exactly the names present in both, a clone is independent, a listing is sorted and free of duplicates, and no operation changes its inputs.",
["inputs"],"all lists and sets",
"one literal example",
["nmdc/extensions.go"],[("set operations","nmdc/extensions.go Supports.Intersect, Extensions")])
p("N10","NMDC messages are written in order, framed and all or nothing",
"Each message written is sent as one line made of its command and payload with the delimiter at its end and nowhere inside its escaped text, in call order; when a message cannot be encoded, an error is returned and nothing of it is sent, and a message dropped by a hook is not sent.",
["inputs","histories"],"all messages and call sequences",
"fixed messages",
["nmdc/writer.go","nmdc/message.go"],[("framing","nmdc/message.go MarshalTo"),("writer","nmdc/writer.go Writer.WriteMsg")])
p("N11","NMDC text encodings are applied consistently",
"With a text encoding set, names and texts are converted on writing before escaping and converted back on reading after unescaping; text that cannot be converted, or does not come out as valid text, is reported as such and not delivered. When a new decoder is chosen in response, the message is decoded again completely with it and it is used from then on; a handler may instead ask to continue with this one message undecoded.",
["inputs","configurations"],"all texts, encoders and decoders",
"one encoding with fixed texts",
["nmdc/types.go","nmdc/reader.go"],[("encode/decode","nmdc/types.go Name/String"),("encoding switch","nmdc/reader.go Reader.readMsgTo")])
p("U01","Hub addresses are routed, parsed and normalised consistently",
"An address is treated as ADC exactly when its scheme is adc or adcs and as NMDC otherwise, a missing scheme means dchub and nmdc is an alias of dchub; other schemes are refused, trailing slashes are removed, an address without a host is refused, and normalising an already normalised address returns it unchanged.",
["inputs"],"all address strings",
"a table of literal addresses",
["conn.go","adc/conn.go","nmdc/conn.go"],[("dispatch","conn.go ParseAddr/NormalizeAddr"),("parsers","adc/conn.go, nmdc/conn.go")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
