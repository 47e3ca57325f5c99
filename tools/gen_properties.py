#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    if len(title)>80: print(id,len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

T = "encoding/tpdu/"
prop("C01", "A message survives encode, transmission, reassembly and decode unchanged",
 "Any valid non-empty message that is encoded (into SMS-SUBMIT or SMS-DELIVER TPDUs, as text in any enabled character set, as 8-bit data or as UCS-2), marshalled to octets, unmarshalled, collected in any arrival order (also interleaved with the segments of other messages) and decoded with all character sets available comes back as exactly the same bytes/text, once, when its last segment arrives. Every TPDU on the way fits a single SMS (at most 140 octets of user data, at most 255 segments; longer messages are refused with an error), and its address and other template fields arrive unchanged.",
 ["inputs", "histories", "configurations"],
 "for all messages (up to a length bound, over an alphabet covering every character class), all encoder options, all permutations and two-message interleavings of the segments",
 "Tests round-trip a handful of fixed strings, each layer separately; none composes Encode, MarshalBinary, Unmarshal, Collect and Decode, let alone for every length around the segment boundaries and every arrival order.",
 ["encode.go", "sms.go", "collect.go", T+"tpdu.go", T+"userdata.go", "encoding/gsm7/gsm7.go", "encoding/ucs2/ucs2.go"],
 [("Encoder.Encode", "encode.go"), ("Segment/chunk*", T+"tpdu.go"), ("MarshalBinary/UnmarshalBinary", T+"tpdu.go"), ("Collector.Collect", "collect.go"), ("Decode", "sms.go")],
 observe=["sms.Encode", "tpdu.TPDU.MarshalBinary", "sms.Unmarshal", "sms.Collector.Collect", "sms.Decode"])

prop("C02", "The encoding chosen for a text is the documented one and is truthfully labelled",
 "For text encoding the choice is: GSM 7-bit default alphabet if it can represent the whole text, else the first enabled locking character set (with the default shift table) that can, else the first enabled shift character set (with the default locking table) that can, else the first enabled language whose locking and shift tables together can, else UCS-2; no other alphabet is ever chosen. The data coding scheme and the national-language header elements of the result name exactly the tables used, so that decoding by those labels returns the text, and a data coding scheme that cannot express the needed alphabet is refused with an error instead of being mislabelled.",
 ["inputs", "configurations"],
 "for all texts over representative characters of every table, all ordered lists of enabled locking/shift character sets up to a bound, all 256 template data coding schemes",
 "Tests sample one or two strings per option; ordering between several enabled languages, and the DCS/UDH labels for all 256 template DCS values, are not enumerated.",
 [T+"userdata.go", "encode.go", "options.go", T+"dcs.go"],
 [("EncodeUserData", T+"userdata.go"), ("Encoder.Encode DCS handling", "encode.go"), ("DCS.WithAlphabet", T+"dcs.go")],
 observe=["tpdu.EncodeUserData", "sms.Encode"])

prop("C03", "Segmentation is lossless, bounded, well numbered and never splits a character",
 "Segmenting user data yields segments whose data concatenates to the input, each of which, with its header, fits the TPDU's user data capacity (140 octets, i.e. 160 septets, for SMS-SUBMIT and SMS-DELIVER); a message that fits one TPDU gets exactly one with no concatenation element, otherwise each segment keeps the template's fields and header elements and gains one concatenation element with the common reference, the total, and consecutive numbers from 1. No segment ends between an escape septet and the septet it escapes or between the halves of a UTF-16 surrogate pair, and apart from that rule every segment but the last is full. If not even one character fits beside the template's header, or more than 255 segments would be needed, the input is refused (no segments) rather than panicking, looping or wrapping the numbering.",
 ["inputs", "configurations"],
 "for all message lengths through several segment boundaries, all placements of escapes/surrogates near each boundary, all template header sizes, all alphabets, 8- and 16-bit references",
 "Tests check a few lengths with one header layout each; the fill-bit arithmetic depends on length x header size x alphabet, and the split rule on what straddles each boundary.",
 [T+"tpdu.go"],
 [("TPDU.Segment", T+"tpdu.go"), ("UDBlockSize", T+"tpdu.go"), ("chunk7Bit/chunk8Bit/chunkUCS2", T+"tpdu.go")],
 observe=["tpdu.TPDU.Segment", "tpdu.TPDU.UDBlockSize"])

prop("C04", "An encoder numbers its messages uniquely and keeps calls independent",
 "Across any sequence of calls, and any interleaving of concurrent calls, on one encoder, every produced TPDU takes the next message reference and every multi-part message the next concatenation reference (modulo the field width: 8 bits, or 16 when so configured), each counter value being used exactly once and all parts of a message sharing one concatenation reference. Each call's result depends only on the encoder's options, that call's own options and the counters: neither options nor header contents of one call leak into another call's TPDUs, the encoder's template is never altered, and header elements present in the template appear in every TPDU produced.",
 ["histories", "schedules"],
 "for all bounded sequences and all interleavings of encode calls with differing messages and per-call options on a shared encoder",
 "Tests call Encode once or twice sequentially; counter wrap, option leakage through shared slices and concurrent callers are not exercised.",
 ["encode.go", "options.go", T+"tpdu.go"],
 [("Encoder.Encode (value receiver)", "encode.go"), ("Counter.Count", "encode.go"), ("Segment", T+"tpdu.go")],
 state=[("MsgCount/ConcatRef", "shared counters", "encode.go"), ("eopts/sopts/pdu", "encoder options and template", "encode.go")],
 observe=["sms.Encoder.Encode"])

prop("C05", "The collector returns each multi-part message once, complete, unmixed, in order",
 "For any history of arrivals a single-part TPDU is returned at once, and a concatenated segment is held until all parts having the same TPDU type, peer address, reference and total have arrived, when exactly those parts are returned in sequence order and forgotten; parts of different messages never mix. A repeated part is refused as a duplicate leaving the first in place, an impossible sequence number is refused as inconsistent, TPDU types without a message peer are refused when they carry concatenation information, and refused parts never change the collector's state. The snapshot of incomplete messages always shows exactly the parts accepted and not yet returned or expired, and is unaffected by later arrivals.",
 ["histories"],
 "for all arrival histories up to a length bound over an alphabet of segments that agree/differ in each keying attribute, including duplicates and malformed numbering",
 "Tests run fixed arrival lists; equality of keys over every attribute, duplicates after completion, re-use of a reference and refused parts' side effects need all histories.",
 ["collect.go"],
 [("Collector.Collect", "collect.go"), ("pduKey", "collect.go"), ("ConcatInfo", T+"userdata.go")],
 state=[("pipes", "incomplete messages by key", "collect.go")],
 observe=["sms.Collector.Collect", "sms.Collector.Pipes"])

prop("C06", "An incomplete message expires exactly once, a full timeout after its last part",
 "With a reassembly timeout set, an incomplete message is discarded exactly when the timeout has elapsed since its most recently accepted part (each accepted part restarts it; refused or unrelated parts do not), and is then handed to the expiry handler exactly once with the parts received in their positions and gaps left empty. Each accepted part meets exactly one fate: returned in a complete message, passed to the handler, still pending, or dropped by closing; a part arriving after expiry begins a new message, and a completed message never expires. With no timeout nothing expires, and a nil handler only discards.",
 ["histories", "schedules"],
 "for all bounded histories of arrivals, time advances, timer firings and delayed expiry callbacks, with and without timeout/handler",
 "Tests sleep through one or two timeouts in real time; the window between a timer firing and its callback running, and restart-on-arrival at every instant, are unreachable by sleeping.",
 ["collect.go"],
 [("AfterFunc cleanup closure", "collect.go"), ("Stop check in Collect", "collect.go"), ("WithReassemblyTimeout", "collect.go")],
 state=[("pipe.cleanup", "expiry timer of an incomplete message", "collect.go")],
 observe=["expiry handler", "sms.Collector.Pipes", "sms.Collector.Collect"])

prop("C07", "Concurrent use of a collector is linearizable, race-free and deadlock-free",
 "When several goroutines use one collector concurrently while timeouts fire, every call returns (also when the expiry handler itself calls back into the collector), no data race occurs, and the results of all calls and handler invocations are those of some sequential order consistent with real time. In particular concurrent arrivals of the last missing parts yield the complete message exactly once, and no part is both returned and expired or lost.",
 ["schedules"],
 "for all interleavings (up to a preemption bound, then unbounded for small scenarios) of 2-4 goroutines and the timer over colliding segments",
 "Tests are single-threaded apart from timers; a lost update or double delivery needs a particular interleaving.",
 ["collect.go"],
 [("Collector mutex", "collect.go"), ("handler called outside the lock", "collect.go")],
 state=[("pipes/closed", "guarded by the embedded mutex", "collect.go")],
 observe=["sms.Collector.Collect", "sms.Collector.Pipes", "sms.Collector.Close", "expiry handler"])

prop("C08", "A closed collector accepts nothing, expires nothing, and may be closed again",
 "Once Close has returned, every arrival (single- or multi-part, of any type) is refused with the closed error, and neither does the snapshot of incomplete messages change nor is an expiry handler started, except for a timeout that had already elapsed before closing. Closing is idempotent, safe from any goroutine or from the expiry handler, and never blocks on pending expiries; calls overlapping Close either take effect before it or are refused.",
 ["histories", "schedules"],
 "for all bounded histories and interleavings with one or more Close calls at every point",
 "The test closes once, with no timers outstanding.",
 ["collect.go"],
 [("Collector.Close", "collect.go"), ("closed flag", "collect.go")],
 state=[("closed", "set once by Close", "collect.go")],
 observe=["sms.Collector.Close", "sms.Collector.Collect", "expiry handler"])

prop("C09", "Decoding arbitrary octets never panics, hangs or touches the input",
 "For every octet string, direction and nesting of decoder (TPDU, PDU mode, user data header, address, timestamp, validity period, 7-bit, UCS-2, BCD, semi-octet, text decoding, concatenation info, collection) decoding returns a value or an error without panicking or looping, does not modify its input, and does not read beyond it. A decoded TPDU keeps no reference to the input buffer, and is self-consistent: it can be queried and decoded to text, and never claims more data than the input contained.",
 ["inputs"],
 "for all octet strings up to a small length, and for all single- and double-octet corruptions and truncations of representative valid PDUs",
 "Tests feed chosen malformed inputs; panics hide in unvisited length/flag combinations.",
 ["sms.go", T+"tpdu.go", T+"userdata.go", T+"address.go", T+"validityperiod.go", "encoding/gsm7/7bit.go", "encoding/pdumode/smscaddress.go"],
 [("UnmarshalBinary family", T+"tpdu.go"), ("bounds checks", T+"userdata.go")],
 observe=["sms.Unmarshal", "pdumode.UnmarshalBinary", "sms.Decode"])

prop("C10", "Every TPDU type survives marshal and unmarshal field for field",
 "For all six TPDU types, marshalling a well-formed TPDU and unmarshalling the octets in the same direction yields the same TPDU in every field that type carries, for every combination of flag bits, parameter indicator, addresses, times, validity period, data coding scheme, header and user data that fits the type. Conversely any octets that unmarshal successfully marshal back to the same octets, apart from bits that carry no information (fill bits, reserved time values, trailing address fill) and from reports without a failure cause.",
 ["inputs", "configurations"],
 "for all types x optional-field combinations x user data lengths x header sizes x alphabets (bounded), and all accepted octet strings in the bounded corruption neighbourhood of valid PDUs",
 "Tests marshal and unmarshal separate fixed patterns, a few per type; optional-field combinations and length/fill interactions are not crossed.",
 [T+"tpdu.go", T+"userdata.go", T+"address.go", T+"timestamp.go", T+"validityperiod.go"],
 [("marshal*/unmarshal*", T+"tpdu.go"), ("encodeUserData/decodeUserData", T+"tpdu.go")],
 observe=["tpdu.TPDU.MarshalBinary", "tpdu.TPDU.UnmarshalBinary"])

prop("C11", "TPDU octets are exactly those laid down by 3GPP TS 23.040",
 "The octets produced for a TPDU of each type, and the fields read from octets, are those an independent implementation of TS 23.040 section 9.2 gives: field order, semi-octet addresses and times, user data length in septets or octets including the header, header fill bits, and LSB-first 7-bit packing. A TPDU whose parts do not fit their length fields is refused with an error rather than marshalled to octets with wrapped lengths.",
 ["inputs", "configurations"],
 "for all types x optional-field combinations x user data lengths x header sizes x alphabets (bounded)",
 "A round trip hides symmetric mistakes; tests compare to fixed vectors for a few layouts only.",
 [T+"tpdu.go", T+"userdata.go", T+"address.go", "encoding/gsm7/7bit.go"],
 [("marshal*/unmarshal*", T+"tpdu.go"), ("Pack7Bit", "encoding/gsm7/7bit.go")],
 observe=["tpdu.TPDU.MarshalBinary", "tpdu.TPDU.UnmarshalBinary"])

prop("C12", "Truncated, over-long or inconsistent PDUs are rejected, naming the field",
 "Every proper prefix of a valid PDU (other than one that is itself a complete PDU of its type) and every valid PDU with octets appended after its user data is rejected with an error, as are user data lengths that disagree with the octets present, header elements that overrun the header, odd-length UCS-2 data, invalid time digits, and reserved message types. The error tells the field and an offset inside the input at which decoding failed, and no TPDU is returned.",
 ["inputs"],
 "for all truncation and extension points of representative PDUs of every type, and all values of every length field in them",
 "Tests truncate at selected fields of one PDU per type.",
 [T+"tpdu.go", T+"userdata.go", T+"error.go", "sms.go"],
 [("underflow/overlength checks", T+"tpdu.go"), ("NewDecodeError", T+"error.go")],
 observe=["sms.Unmarshal", "tpdu.DecodeError"])

prop("C13", "Addresses encode and decode exactly, for numbers and alphanumeric names",
 "For every type of number and numbering plan, every digit string over 0-9*#abc and every alphanumeric name representable in the default GSM alphabet without escapes (of a length that fits the field) marshals to the TS 23.040 form and unmarshals to the same type and text, consuming exactly its own octets whatever follows; anything not representable is refused with an error. The number shown for an address carries '+' exactly when international, and setting a number accepts it with or without '+'.",
 ["inputs"],
 "for all 256 types-of-address x all lengths up to the maximum x all digits / all alphabet characters at each position",
 "Tests use one or two addresses per kind; odd/even digit counts and names whose last septet straddles the octet boundary (multiples of 8, 7 mod 8) are not crossed with every length.",
 [T+"address.go", "encoding/semioctet/semioctet.go"],
 [("Address.MarshalBinary/UnmarshalBinary", T+"address.go"), ("SetNumber/Number", T+"address.go")],
 observe=["tpdu.Address"])

prop("C14", "Time stamps encode and decode exactly, including the zone",
 "Every time from 1970 to 2069 at whole seconds, in any zone that is a whole number of quarter hours up to 79 either way, marshals to the seven swapped-nibble BCD octets of TS 23.040 and unmarshals to the same instant in the same zone offset. Octets with non-decimal digits, or too few octets, are refused.",
 ["inputs"],
 "for all values of each octet, all days of the 100 years, all seconds of a day, all zones, and boundary combinations of them",
 "Tests convert a few dates.",
 [T+"timestamp.go", "encoding/bcd/bcd.go"],
 [("Timestamp.MarshalBinary/UnmarshalBinary", T+"timestamp.go")],
 observe=["tpdu.Timestamp"])

prop("C15", "Validity periods are encoded in the right format and never lengthened",
 "A validity period set in relative, enhanced (relative, seconds, hh:mm:ss) or absolute form marshals to the TS 23.040 octets for the largest representable period not exceeding the one requested (at least the shortest and at most the longest representable), monotonically in the request, and representable periods round-trip exactly; every one of the 256 relative codes decodes to its tabulated duration. Unmarshalling consumes exactly the octets of its format (0, 1 or 7), rejects unknown formats, bad digits, non-zero padding and short input, and setting one form clears what belonged to another.",
 ["inputs", "histories"],
 "for all 256 codes in every format, all durations at and around every code boundary, all formats and all setter sequences up to a bound",
 "Tests convert about one value per range of the relative table.",
 [T+"validityperiod.go", T+"tpdu.go"],
 [("durationToRelative/relativeToDuration", T+"validityperiod.go"), ("ValidityPeriod.MarshalBinary/UnmarshalBinary", T+"validityperiod.go")],
 observe=["tpdu.ValidityPeriod", "tpdu.TPDU.SetVP"])

prop("C16", "7-bit packing is the LSB-first bit stream of the standard and is reversible",
 "Packing septets with any number of leading fill bits yields exactly the LSB-first bit stream of TS 23.038 with zero fill, in the minimum number of octets, and unpacking with the same fill returns the same septets, plus at most one all-zero septet when seven spare bits remain. Unpacking any octets yields every complete septet the bit stream contains and ignores the value of the fill bits.",
 ["inputs"],
 "for all septet strings up to length 3, all lengths up to 160+ with every single/double bit set, and all fill counts 0-6",
 "Tests use some twenty vectors, few with fill.",
 ["encoding/gsm7/7bit.go"],
 [("Pack7Bit", "encoding/gsm7/7bit.go"), ("Unpack7Bit", "encoding/gsm7/7bit.go")],
 observe=["gsm7.Pack7Bit", "gsm7.Unpack7Bit"])

prop("C17", "USSD packing round-trips, using CR filler exactly where the standard asks",
 "USSD packing equals plain packing except that a CR fills the last octet when exactly seven bits of it are unused, and an extra CR is appended when the text itself ends with CR on an octet boundary; unpacking removes exactly that filler. Thus every septet string comes back unchanged, except that one which leaves no room to tell (ending in a double CR on an octet boundary) may differ only as the standard's own rule allows.",
 ["inputs"],
 "for all septet strings up to length 3 and all endings over {0, 1, CR, 'x', 0x1a/0x34-like look-alikes} at every length up to several octet cycles, for all fill counts",
 "Tests have one example of each filler rule; look-alike data octets and fill counts are not crossed.",
 ["encoding/gsm7/7bit.go"],
 [("Pack7BitUSSD/Unpack7BitUSSD", "encoding/gsm7/7bit.go")],
 observe=["gsm7.Pack7BitUSSD", "gsm7.Unpack7BitUSSD"])

prop("C18", "Character tables are the standard's and encode/decode tables are inverse",
 "For every national language and the default, the locking and shift tables map each of the 128 codes to the character of TS 23.038 (as released), unknown languages fall back to the default tables, and no code or character is added or missing. Every encoding table is the inverse of its decoding table: each encodable character maps to a code that decodes to that character, and the same tables are returned on every call whatever was requested before.",
 ["inputs", "histories"],
 "for all 14 languages x 2 tables x 2 directions x all 256 codes and all runes, in all orders of first use of two tables",
 "Tests check the size of each table and two or three entries in it.",
 ["encoding/gsm7/charset/charset.go", "encoding/gsm7/charset/default.go", "encoding/gsm7/charset/*.go"],
 [("lazy table generation", "encoding/gsm7/charset/charset.go"), ("decoder/encoder registries", "encoding/gsm7/charset/charset.go")],
 state=[("<lang>Encoder/<lang>Decoder", "lazily built package-level tables", "encoding/gsm7/charset/")],
 observe=["charset.NewDecoder", "charset.NewExtDecoder", "charset.NewEncoder", "charset.NewExtEncoder"])

prop("C19", "GSM 7-bit text conversion is exact, escape-safe and refuses what it cannot hold",
 "For every choice of locking and shift table, encoding a text succeeds exactly when every character (other than the escape control itself) is in one of the two tables, uses the locking code when there is one and escape plus shift code otherwise, and decodes with the same tables to the same text. Decoding any septets yields, per septet, its locking character, per escaped septet its shift character or failing that its locking character, and a space for an undefined septet, a doubled escape or a trailing escape; in strict mode undefined septets are errors instead.",
 ["inputs", "configurations"],
 "for all septet strings up to length 3 under every table pair, and all characters of all tables in all pairs",
 "Tests decode a few strings per language.",
 ["encoding/gsm7/gsm7.go"],
 [("Decoder.Decode", "encoding/gsm7/gsm7.go"), ("Encoder.Encode", "encoding/gsm7/gsm7.go")],
 observe=["gsm7.Encode", "gsm7.Decode"])

prop("C20", "UCS-2 text converts exactly, including surrogate pairs split across segments",
 "Every sequence of Unicode scalar values encodes to big-endian UTF-16 and decodes back to itself, also when the data is split between segments at any even offset and decoded as one message. An unpaired surrogate decodes to the replacement character without consuming its neighbour, a surrogate left unpaired at the very end of the message and data of odd length are errors.",
 ["inputs"],
 "for all code points singly and all sequences up to length 4 over boundary code units, for every even split into up to three segments",
 "Tests decode a few strings and a single split pair.",
 ["encoding/ucs2/ucs2.go", "sms.go"],
 [("ucs2.Decode/Encode", "encoding/ucs2/ucs2.go"), ("danglingSurrogate carry", "sms.go")],
 observe=["ucs2.Encode", "ucs2.Decode", "sms.Decode"])

prop("C21", "Data coding schemes are read and changed as TS 23.038 defines, all 256 of them",
 "For each of the 256 data coding schemes the alphabet, message class and compression reported are those of TS 23.038 section 4, with the reserved groups reported as errors. Setting an alphabet or class either returns a scheme that reports exactly the alphabet or class set and is otherwise unchanged (the class-present bit apart), or returns an error and the scheme unchanged.",
 ["inputs"],
 "for all 256 schemes x all alphabets x all classes, and all sequences of two changes",
 "Tests tabulate the getters, but check the setters one at a time and never in composition.",
 [T+"dcs.go"],
 [("DCS.Alphabet/WithAlphabet/Class/WithClass/Compressed", T+"dcs.go")],
 observe=["tpdu.DCS"])

prop("C22", "User data headers encode, decode and answer element queries exactly",
 "Every list of header elements that fits (header length at most 255) marshals to its length, identifiers and data in order and unmarshals to the same list, consuming exactly the header whatever follows; elements that overrun the header or the input are refused, as are lists that do not fit. A query for an element gives the last one with that identifier, a query for all gives them in order, and concatenation information is found exactly when an 8-bit (three octets) or, failing that, a 16-bit (four octets) concatenation element is the last of its identifier, with its total, sequence number and reference.",
 ["inputs"],
 "for all element lists up to 3-4 elements over boundary identifiers and lengths, and all header octet strings up to a bound over boundary octets",
 "Tests have one header with a repeated element and a few truncations.",
 [T+"userdata.go"],
 [("UserDataHeader.MarshalBinary/UnmarshalBinary/IE/IEs/ConcatInfo*", T+"userdata.go")],
 observe=["tpdu.UserDataHeader"])

prop("C23", "PDU mode wraps and unwraps the SMSC address and TPDU exactly",
 "For every SMSC address (or none) and TPDU octets, the PDU-mode octets are the address length in octets, its type and semi-octet digits, then the TPDU unchanged, and both the binary and hexadecimal forms decode to the same address and TPDU. Upper- or lower-case hex is accepted, malformed hex, a truncated address or an invalid digit is an error, and an absent address is encoded as a single zero octet.",
 ["inputs"],
 "for all address lengths and type octets, all digits at each position, all short hex strings over boundary characters",
 "Tests cover a couple of addresses.",
 ["encoding/pdumode/pdu.go", "encoding/pdumode/smscaddress.go"],
 [("PDU.MarshalBinary/UnmarshalBinary/…HexString", "encoding/pdumode/pdu.go"), ("SMSCAddress", "encoding/pdumode/smscaddress.go")],
 observe=["pdumode.PDU", "pdumode.SMSCAddress"])

prop("C24", "BCD and semi-octet conversions are exact inverses and reject invalid digits",
 "Every integer in 0..99 (signed: -79..79) converts to its swapped-nibble BCD octet and back, and every other integer or octet with a non-decimal digit is refused. Every digit string over 0-9*#abc converts to semi-octets with 'F' fill exactly when its length is odd and back to itself for its length, other characters are refused, and decoding stops at the shorter of the source and the requested length, reports how much it consumed, and refuses data where fill is required.",
 ["inputs"],
 "for all 256 octets, all integers in a wide range around the limits, all digit strings up to a length bound, all octet strings up to 3 with all destination lengths",
 "Tests sample the valid range.",
 ["encoding/bcd/bcd.go", "encoding/semioctet/semioctet.go"],
 [("bcd.Encode/Decode/EncodeSigned/DecodeSigned", "encoding/bcd/bcd.go"), ("semioctet.Encode/Decode", "encoding/semioctet/semioctet.go")],
 observe=["bcd", "semioctet"])

prop("C25", "Independent encodes and decodes may run concurrently from the very first call",
 "Goroutines that concurrently encode and decode messages, addresses and texts through the package-level functions, in any languages and starting from a fresh process, never race on shared data and each get the result they would get alone. This includes the first use of each character table, which may happen in several goroutines at once.",
 ["schedules"],
 "for all interleavings at synchronisation points of 2-3 goroutines, for all pairs of (table, direction, entry point), from the initial state, with a happens-before race check on every execution",
 "Tests are sequential; the tables are already built after the first test.",
 ["encoding/gsm7/charset/charset.go", "encoding/gsm7/gsm7.go", T+"userdata.go", "sms.go", "encode.go"],
 [("lazy charset construction", "encoding/gsm7/charset/charset.go")],
 state=[("<lang>Encoder/<lang>Decoder", "lazily built package-level tables", "encoding/gsm7/charset/")],
 observe=["sms.Encode", "sms.Decode", "gsm7.Encode", "gsm7.Decode"])

prop("C26", "Library calls never modify their arguments or results already handed out",
 "Encoding, segmenting, marshalling, decoding, querying and collecting leave every argument (message bytes, template TPDU with its header and data, option lists, received segments, also in the spare capacity of their slices) as it was. Results already returned are not changed by any later call, and the segments of one message can be modified through their headers independently of each other and of the template.",
 ["inputs", "histories"],
 "for all bounded sequences of library calls over slices with spare capacity guarded by canaries",
 "Tests compare results, not the arguments afterwards, and never use slices with spare capacity.",
 ["encode.go", "sms.go", T+"tpdu.go", T+"userdata.go", "collect.go"],
 [("defensive copies (append(x[:0:0], …))", T+"tpdu.go"), ("Encoder value receiver", "encode.go")],
 observe=["sms.Encode", "sms.Decode", "tpdu.TPDU.Segment", "tpdu.TPDU.MarshalBinary"])

prop("C27", "Decoding and completeness checks treat segment lists exactly as documented",
 "A segment list is a complete message exactly when it is a single TPDU without concatenation information, or all its members carry concatenation information with one reference, a total equal to the list length and sequence numbers 1..n in order. Decoding a list yields the concatenation of its segments' texts in list order, each by its own data coding scheme and national-language header with those character sets the options allow (all by default; tables not allowed fall back to the default), 8-bit data unchanged, or an error and no text.",
 ["inputs", "configurations"],
 "for all segment lists up to 3-4 over an alphabet of segments with/without/with conflicting concatenation data, all alphabets, languages and decode options",
 "Tests check about ten lists.",
 ["sms.go", T+"userdata.go"],
 [("IsCompleteMessage", "sms.go"), ("Decode", "sms.go"), ("DecodeUserData", T+"userdata.go")],
 observe=["sms.IsCompleteMessage", "sms.Decode", "tpdu.DecodeUserData"])

prop("C28", "Building a TPDU with options and setters keeps flags and fields in step",
 "After any sequence of construction options and setters the TPDU has exactly the values last set, the header flag set exactly when a header was last set, the validity-period format bits matching the period last set, the parameter indicator listing each of protocol id, coding scheme and user data set through the setters, and all other first-octet bits untouched; type, direction and message-type accessors agree with what was set, and invalid types are refused without effect. Bit accessors of the first octet and parameter indicator report exactly their bits for all 256 values.",
 ["histories", "inputs"],
 "for all sequences of setters/options up to a depth over small value sets, breadth-first over TPDU states, and all 256 first octets / parameter indicators",
 "Tests call each setter once on a fresh TPDU.",
 [T+"tpdu.go", T+"options.go", T+"firstoctet.go", T+"parameterindicator.go"],
 [("SetUD/SetUDH/SetVP/SetDCS/SetPID/SetSmsType", T+"tpdu.go"), ("Option types", T+"options.go")],
 observe=["tpdu.New", "tpdu.TPDU"])

prop("C29", "Unmarshalling into a used value gives the same result as into a fresh one",
 "Unmarshalling octets into a TPDU (or address, validity period, time stamp, header, PDU) that already holds earlier content yields exactly what a fresh value of the same direction would hold, for every sequence of earlier unmarshals, failed ones included. Nothing from an earlier PDU is ever visible in a later one.",
 ["histories"],
 "for all sequences up to length 3 of representative PDUs (all types, with/without optional fields, valid and invalid) into one value",
 "Tests unmarshal only into fresh values.",
 [T+"tpdu.go", T+"validityperiod.go", T+"address.go", "encoding/pdumode/smscaddress.go"],
 [("UnmarshalBinary", T+"tpdu.go"), ("conditional field assignment", T+"tpdu.go")],
 observe=["tpdu.TPDU.UnmarshalBinary", "pdumode.PDU.UnmarshalBinary"])

prop("C30", "The command-line tools report what the PDUs contain",
 "The submit tool prints the TPDUs that carry the given message to the given number, in order, and they decode to it; the counter tool's message count, encoding and lengths are those of these TPDUs; the deliver tool prints sender and text once for each message that becomes complete in any argument order and reports incomplete ones. The decode tool prints the fields of any valid TPDU of either direction, with or without SMSC prefix, and exits with an error, never a crash, for anything invalid. The character set tool shows, for every language, the tables in use.",
 ["inputs", "histories"],
 "for all messages around the segment boundaries per alphabet, all permutations of up to three segments, representative PDUs of every type and all their truncations",
 "Tests call two helper functions with a few inputs; the programs are never run.",
 ["cmd/smssubmit/smssubmit.go", "cmd/smsdeliver/smsdeliver.go", "cmd/smsdecode/smsdecode.go", "cmd/smscounter/smscounter.go", "cmd/charsets/charsets.go"],
 [("main/NewCount/decode", "cmd/")],
 observe=["process stdout/stderr and exit code"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
