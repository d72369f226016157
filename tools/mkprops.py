#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text stays reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

COL=["collect.go"]
prop("C01","A completed reassembly is exactly the message's own parts, in order",
 "Whenever the collector hands back a multi-part message, the set holds exactly as many TPDUs as the message announces, in sequence order, all of one SMS type, from one peer address (number and type of address), with one concatenation reference and one announced part count, each being the first one accepted for its position and unaltered. It is handed back by the very call that supplies the last missing part, never earlier and never later. A TPDU that is not one of several parts (no concatenation element, or one announcing fewer than two parts) is handed straight back, alone and unaltered, without touching any reassembly in progress.",
 ["histories","schedules","fault_sequences","inputs"],
 "every interleaving of parts of any number of messages from any number of peers (duplicated, reordered, delayed, dropped, re-used references, 8-/16-bit references, 2..255 parts, SMS-DELIVER and SMS-SUBMIT), from any number of concurrent callers",
 "TestCollect drives a handful of two- and three-part sequences, one at a time, from one goroutine; it never interleaves many messages whose identities differ in a single attribute and never under concurrency.",
 COL+["encoding/tpdu/userdata.go","encoding/tpdu/tpdu.go"],
 [("reassembly key from type, address, reference and count","collect.go pduKey"),("slot per sequence number, completion by part count","collect.go Collect"),("concatenation element lookup","encoding/tpdu/userdata.go ConcatInfo*")],
 [("pipes","reassemblies in progress by message identity","collect.go Collector.pipes")],
 ["return value of Collector.Collect"])
prop("C02","Parts are conserved: none lost, duplicated, resurrected or wrongly refused",
 "Every part the collector accepts ends up in exactly one place: one completed set, one expired set, or the set still pending; it is never lost and never appears in two of them. A part that was refused (duplicate, inconsistent sequence number, unsupported SMS type, closed collector) never appears in any set and leaves the collector's state unchanged. While the collector is open, a well-formed part of a supported type whose position is not already held in a pending reassembly is never refused, and one whose position is held is always refused as a duplicate.",
 ["histories","schedules","fault_sequences"],
 "every history of accepted, refused, completed and expiring parts over any number of messages, callers, timer firings and closes, at any interleaving of calls and timer callbacks",
 "The existing tests look at one outcome of one call; they keep no account of all parts over a history and cannot place a timer callback between two steps of a call.",
 COL,
 [("one mutex over lookup, insert and delete","collect.go Collect"),("removal on completion / in the timer callback only if still the same reassembly","collect.go Collect cleanup"),("Stop() result decides who owns the reassembly","collect.go Collect")],
 [("pipes","reassemblies in progress","collect.go"),("frags","number of parts held","collect.go pipe")],
 ["return values of Collect","expiry handler argument","Pipes"])
prop("C03","Reassembly timeout: every incomplete reassembly expires once, on time, once only",
 "With a reassembly timeout D, a reassembly that is still incomplete D after its most recently accepted part is handed to the expiry handler exactly once, not before that instant, and as soon as the timer runs, with the parts it holds in their positions and nothing in the missing ones; from then on it is forgotten, so later parts of the same identity start a fresh reassembly. A reassembly that completed, or that accepted another part before its deadline, never expires on the old deadline, and refused parts never extend a deadline. With a zero timeout nothing ever expires, and with no handler an expired reassembly is simply discarded.",
 ["schedules","histories","fault_sequences"],
 "every arrival schedule relative to the deadlines (before, exactly at, after), every delay between a timer firing and its callback running, every timeout value, including stalls of any caller at any point",
 "The existing timeout tests sleep for real milliseconds around two arrivals; the races between a firing timer and an arriving part need control over the clock and over where the callback runs.",
 COL,
 [("time.AfterFunc per accepted part","collect.go Collect"),("Stop() before re-arming or completing","collect.go Collect"),("identity check before deleting in the callback","collect.go Collect cleanup")],
 [("cleanup","the pending deadline of a reassembly","collect.go pipe.cleanup")],
 ["expiry handler calls","Pipes"])
prop("C04","The collector is linearizable and race-free under concurrent calls and expiries",
 "For every set of concurrent Collect, Pipes and Close calls and timer expiries, there is an order of them, consistent with real time, in which a simple one-at-a-time collector gives exactly the observed results. No such use contains a data race.",
 ["schedules","histories"],
 "every interleaving, at statement granularity, of calls from any number of goroutines and of timer callbacks",
 "The existing tests call the collector from one goroutine; an interleaving is something a test can hope for, not choose.",
 COL,
 [("collector mutex held over each operation","collect.go Collect, Close, Pipes, cleanup")],
 [("pipes, closed","state covered by the mutex","collect.go Collector")],
 ["invoke/return of every call and handler"])
prop("C05","Close is final and idempotent, and cancels what was pending",
 "Once a Close call has returned, every Collect that starts afterwards fails with the closed error and changes nothing, however many goroutines are calling; Close may be called any number of times, concurrently, and never fails or hangs. A reassembly whose deadline had not been reached by the time a Close call returned is never handed to the expiry handler. A Collect concurrent with Close either takes full effect before it or fails as closed.",
 ["schedules","histories","fault_sequences"],
 "every placement of one or more Close calls among concurrent Collect calls and timer firings",
 "TestCollectorClose closes an idle collector from one goroutine; it never closes while calls are in flight or a timer is about to fire.",
 COL+["error.go"],
 [("closed flag under the mutex","collect.go Close, Collect"),("stopping every pending timer","collect.go Close")],
 [("closed","no further parts are accepted","collect.go Collector.closed")],
 ["Collect errors","expiry handler calls after Close"])
prop("C06","Slow, blocked or re-entrant expiry handlers never stall the collector",
 "Whatever the expiry handler does (run for any length of time, block forever, call Collect, Pipes or Close on the same collector), every other call still returns and every other reassembly that is due is still handed to the handler. Once callers stop issuing calls and time advances, every issued call has returned and every due expiry has been delivered, within a bounded number of scheduling steps.",
 ["schedules","fault_sequences","histories"],
 "every handler behaviour, every stall of any caller at any statement outside the library's own critical sections, and every interleaving of callbacks with calls",
 "The existing handlers append to a slice or signal a channel and return at once; deadlock and starvation need a blocking or re-entrant handler at a chosen point.",
 COL,
 [("handler invoked outside the mutex, in the timer's own goroutine","collect.go Collect cleanup"),("deferred unlock on every path","collect.go Collect, Close")],
 (),["calls that do not return","handlers not invoked"])
prop("C07","The diagnostic snapshot is a true, independent snapshot",
 "What Pipes returns is the exact set of reassemblies in progress at one instant during the call, one entry for each with its held parts in position and nothing in the missing ones. Later traffic, completions, expiries or closing never change a snapshot already taken, and a caller that clears or rearranges the entries of a snapshot never changes what the collector does. Reading a snapshot while others use the collector is not a data race.",
 ["schedules","histories"],
 "every point at which a snapshot may be taken and every later history, with the holder reading or overwriting it at any time",
 "TestCollectorPipes compares one snapshot at once, in one goroutine; it never looks at it again after further traffic.",
 COL,
 [("snapshot built under the mutex","collect.go Pipes")],
 [("segments","parts held by position","collect.go pipe.segments")],
 ["returned map over time"])
prop("C08","Damaged or hostile traffic cannot crash the receiver or disturb other messages",
 "Any octets arriving from the network (bit-flipped, truncated, extended, spliced, odd or inconsistent headers, unsupported TPDU types, contradictory concatenation elements) make the receive path (PDU framing, TPDU unmarshalling, collecting, decoding, expiry) return a result that says what the octets say, or an error, never a crash or hang. Such traffic, when it does not itself carry the identity of another message, has no effect on the reassembly of that other message. A part of an unsupported SMS type, with a sequence number outside 1..count, or with a header element that runs past the end of the header is always refused with an error and never becomes part of a reassembly.",
 ["inputs","fault_sequences","histories","schedules"],
 "every sequence of damaged and undamaged frames, in any interleaving, with any timeouts",
 "The unit tests decode isolated malformed inputs; none runs damaged frames through a live collector with other reassemblies in progress.",
 COL+["sms.go","encoding/tpdu/tpdu.go","encoding/tpdu/userdata.go","encoding/tpdu/address.go","encoding/pdumode/pdu.go","encoding/pdumode/smscaddress.go","encoding/gsm7/7bit.go"],
 [("length checks before every read","encoding/tpdu, encoding/pdumode"),("sequence number range check","collect.go Collect"),("unsupported type error","collect.go pduKey")],
 [("pipes","reassemblies in progress","collect.go")],
 ["panics","results for undamaged messages"])
prop("C09","End-to-end integrity over a faulty network",
 "A message encoded for submission, carried part by part in PDU-mode frames through a network that delays, reorders, duplicates, drops and re-sends parts, and then unmarshalled, collected and decoded by the receiver, comes out byte for byte as it was put in, from the right sender and with each part's own service-centre timestamp, once for each complete arrival of its parts and never otherwise. Every part carries at most 140 octets of user data and the header elements, flags and validity period of the template, and nothing that was never sent is ever delivered. This holds for every text (any Unicode text, sent with any of the supported national language sets) and every 8-bit or UCS-2 payload of up to 255 parts, for any peer address the address field can carry, any other header elements and message options in the template that leave room for text, and for UCS-2 parts cut by other senders between the two halves of a character.",
 ["inputs","fault_sequences","histories","schedules"],
 "every message mix and every pattern of delay, reordering, duplication, loss, re-sending and receiver restart, with concatenation references not re-used while an older message of the same identity may still have parts in flight or pending",
 "The unit tests check each codec on sampled inputs in isolation; no test sends many messages through encode, marshal, network, unmarshal, collect and decode at once.",
 ["encode.go","sms.go","collect.go","options.go","encoding/tpdu/tpdu.go","encoding/tpdu/userdata.go","encoding/tpdu/address.go","encoding/tpdu/timestamp.go","encoding/gsm7/7bit.go","encoding/gsm7/gsm7.go","encoding/gsm7/charset/charset.go","encoding/ucs2/ucs2.go","encoding/pdumode/pdu.go"],
 [("alphabet selection and segmentation","encode.go, tpdu.go Segment"),("TPDU marshalling and unmarshalling","tpdu.go"),("reassembly","collect.go"),("decoding with dangling surrogate carry-over","sms.go Decode")],
 (),["Encode output","frames on the wire","Collect output","Decode output"])
prop("C10","Message references are unique, gap-free and consistent under concurrent encoding",
 "For goroutines sharing an encoder (or counters shared between encoders or segmentations), the parts produced carry message references that are, modulo 256, each a different consecutive value of the counter with none skipped or repeated; the multi-part messages carry concatenation references with the same property (modulo 256, or 65536 for 16-bit references). All parts of one message carry one concatenation reference, the same total count and consecutive sequence numbers from 1; a single-part or empty message uses no concatenation reference, and an empty or failed encoding uses no number at all. Counters may be counted and read concurrently without a data race; a counter read concurrently never goes backwards and never runs ahead of or behind the counts made.",
 ["schedules","histories"],
 "every interleaving of any number of concurrent encodings, at statement granularity, and any number of messages including counter wrap-around",
 "The existing tests encode a few messages one after another; uniqueness under concurrency and over wrap-around is a statement about all interleavings and long histories.",
 ["encode.go","encoding/tpdu/tpdu.go"],
 [("atomic counter","encode.go Counter"),("one reference drawn per multi-part message, one MR per part","tpdu.go Segment")],
 [("c","the counter value","encode.go Counter.c")],
 ["TPDUs returned by Encode and Segment","Counter.Read"])
prop("C11","Encodings never affect each other, their template or the caller's data",
 "Apart from the message and concatenation reference values, the result of encoding or segmenting a message with given options is the same whatever other encodings, with whatever options of their own, run before, after or concurrently on the same encoder, template or option values. Encoding and segmenting never change the encoder, the template TPDU, the option values or any memory of the caller reachable from them. Results already returned never change afterwards, and no such use contains a data race.",
 ["schedules","histories","configurations"],
 "every interleaving of encodings with per-call options on shared encoders, templates, options and header values, for any number and order of options given at construction",
 "Tests run one encoding at a time on a fresh encoder; interference needs two calls sharing spare slice capacity, at a particular interleaving.",
 ["encode.go","options.go","encoding/tpdu/tpdu.go","encoding/tpdu/options.go"],
 [("encoder and TPDU passed by value","encode.go Encode, tpdu.go Segment"),("option lists appended per call","options.go"),("fresh user data header for each part","tpdu.go Segment")],
 [("eopts, sopts, pdu","options and template shared by all calls","encode.go Encoder")],
 ["TPDUs returned by Encode and Segment","caller's slices"])
prop("C12","Codecs are safe for concurrent use, including first use",
 "Any number of goroutines may encode and decode text with any mixture of character sets, on fresh or shared codecs, and marshal and unmarshal TPDUs and PDU-mode frames of their own, starting in a process that has never used them before, and each gets exactly the result it would have got alone. No such use contains a data race.",
 ["schedules","configurations"],
 "every interleaving of encoders and decoders over all national language tables, including interleavings inside the first use of each table",
 "Tables are generated on first use, once per process; whichever unit test runs first initialises them, sequentially, for all the others.",
 ["encoding/gsm7/charset/charset.go","encoding/gsm7/gsm7.go","encoding/gsm7/7bit.go","encoding/ucs2/ucs2.go","encoding/tpdu/userdata.go"],
 [("lazily generated tables","charset.go NewEncoder, NewDecoder, NewExtEncoder, Default*")],
 [("default*/language tables","process-wide tables","encoding/gsm7/charset/*.go")],
 ["results of Encode/Decode"])
prop("C13","Partial loss: each surviving part stands alone",
 "When some parts of a multi-part text message are lost for good, each part that did arrive (as handed over when the reassembly expires) decodes on its own to exactly its slice of the original text, valid UTF-8 with no character cut or garbled, and the parts' slices in order make up the whole original text. The same part decodes to the same slice whichever other parts were lost, and where another sender cut through a UCS-2 character, only that character's halves are affected: the characters around a stray half come out as they are.",
 ["fault_sequences","inputs"],
 "every subset of lost parts of every text in every supported alphabet and national language set, up to 255 parts",
 "Unit tests check a few chunk boundaries; the property is about every boundary position for every mixture of one- and two-unit characters combined with loss.",
 ["encoding/tpdu/tpdu.go","encode.go","sms.go","collect.go","encoding/tpdu/userdata.go"],
 [("escape pairs and surrogate pairs are kept together","tpdu.go chunk7Bit, chunkUCS2"),("language elements repeated in every part","tpdu.go Segment")],
 (),["expiry handler argument","Decode of single parts"])
prop("C14","Received data is detached from its buffers, and decoding only reads",
 "Once a TPDU has been unmarshalled, the caller may overwrite or re-use the receive buffer at any time without changing the TPDU, anything collected from it or anything decoded from it; and unmarshalling the next message into the same TPDU variable changes no copy taken of it before, and gives the same TPDU as unmarshalling it into a fresh one would, whatever was in it. A decoded message is the caller's own, to overwrite without changing what it was decoded from. Unmarshalling, collecting and decoding never write to their inputs, so decoding the same set any number of times, before or after other sets, or concurrently, gives the same result without a data race.",
 ["schedules","fault_sequences","histories"],
 "every moment at which the receive buffer may be overwritten, every history of messages unmarshalled into one variable, and every interleaving of concurrent decoders and readers of the same parts",
 "Unit tests unmarshal from a fresh literal that is never touched again into a fresh TPDU, and decode each set once.",
 ["sms.go","encoding/tpdu/tpdu.go","encoding/tpdu/userdata.go","encoding/tpdu/address.go","encoding/ucs2/ucs2.go"],
 [("copying on unmarshal","tpdu.go decodeUserData, userdata.go UnmarshalBinary, address.go"),("decoding into fresh memory","sms.go Decode")],
 (),["TPDU fields after the buffer is overwritten","Decode results"])

prop("C21","The completeness test is exact, whatever has arrived",
 "For a receiver that gathers the parts of messages itself, from a network that delays, reorders, duplicates, re-sends and loses them, the concatenation details read from a part are the reference, announced count and position its sender gave it, or that it is not segmented, whatever other elements its header holds. For parts of one SMS type from one peer, the completeness test accepts a list exactly when it holds one part that is a message of its own (unsegmented, or announced as 1 of 1), or as many parts as the first announces, each with the same reference and count, in sequence order from 1 with none missing, doubled or from elsewhere; it never accepts the empty list (lists mixing 8- and 16-bit references of one number are left open). It changes neither the list nor the parts, and a list it accepts that holds the parts of one message decodes to the text sent.",
 ["histories","fault_sequences","inputs"],
 "every history of arrivals, losses, duplicates and restarts, and every list that can be made up of what is held",
 "Unit tests try eight lists of two or three hand-made TPDUs.",
 ["sms.go","encoding/tpdu/tpdu.go","encoding/tpdu/userdata.go"],
 [("IsCompleteMessage","sms.go"),("ConcatInfo, ConcatInfo8, ConcatInfo16","encoding/tpdu/userdata.go")],
 (),["IsCompleteMessage results","ConcatInfo results","Decode results"])

prop("C24","An exchange of PDUs carries what was meant, both ways",
 "Devices and service centres that exchange SUBMIT, COMMAND, DELIVER, STATUS-REPORT, SUBMIT-REPORT and DELIVER-REPORT TPDUs in PDU-mode frames (binary or hexadecimal), built and read with the library at either end, understand each other: each TPDU marshals to the octets that 3GPP TS 23.040 prescribes, and whichever frames are delayed, reordered, duplicated, lost or damaged, every frame that arrives undamaged is accepted and gives the receiver the service centre's address, message type, flags, references, peer address (type, plan and number), times with their zones, validity period, failure cause, status, parameters present and absent, coding scheme (alphabet, class), header elements and user data that the sender set, whether the receiver unmarshals into fresh variables or into the ones that held earlier, also damaged, frames; marshalling what was received gives the same octets again. A USSD string packed at one end is the octets of TS 23.038 6.1.2.3.1 and unpacks at the other to the string sent (one of 8n+1 septets that ends in two carriage returns may lose the last). So a device that numbers what it sends finds by message reference and recipient what a status report is about while fewer than 256 are outstanding. (Values meant are those the fields can represent, for alphanumeric addresses the basic table's characters; an acknowledging report, failure cause 0, is a known finding.)",
 ["fault_sequences","histories","inputs"],
 "every conversation of all six types, with every representable field value, over every pattern of loss, duplication, reordering, delay and damage, into fresh and re-used variables",
 "Unit tests marshal and unmarshal a few dozen literal TPDUs one at a time, each in fresh variables, mostly with the library's own output as the expectation.",
 ["encoding/tpdu/tpdu.go","encoding/tpdu/address.go","encoding/tpdu/timestamp.go","encoding/tpdu/validityperiod.go","encoding/tpdu/userdata.go","encoding/tpdu/options.go","encoding/tpdu/dcs.go","encoding/tpdu/firstoctet.go","encoding/tpdu/parameterindicator.go","encoding/pdumode/pdu.go","encoding/pdumode/smscaddress.go","encoding/bcd/bcd.go","encoding/semioctet/semioctet.go","encoding/gsm7/7bit.go","sms.go"],
 [("marshal*/unmarshal* of each TPDU type","encoding/tpdu/tpdu.go"),("Pack7BitUSSD, Unpack7BitUSSD","encoding/gsm7/7bit.go"),("PDU-mode framing","encoding/pdumode")],
 (),["octets from MarshalBinary","fields after UnmarshalBinary","PDU-mode frames"])

# ---- pure functions: not applicable to this family
def na(id,title,statement,text,why,files,mech):
    prop(id,title,statement,["inputs"],text,why,files,mech)
na("C15","TPDU wire round-trip for all six SMS types",
 "Marshalling any well-formed TPDU of any of the six SMS types and unmarshalling the octets gives back an equal TPDU, and unmarshalling then marshalling any accepted octets gives back those octets up to documented normalisation.",
 "every well-formed TPDU and every accepted octet string","Tests sample a few dozen TPDUs per type.",["encoding/tpdu/tpdu.go"],[("marshal*/unmarshal* pairs","encoding/tpdu/tpdu.go")])
na("C16","Segmentation geometry",
 "Segmenting a message uses the fewest parts that the block size permits without cutting a character, no part exceeds the block size, and the parts' user data concatenates to the message.",
 "every message, alphabet, header and SMS type","Tests sample a few lengths.",["encoding/tpdu/tpdu.go"],[("chunk*, UDBlockSize","encoding/tpdu/tpdu.go")])
na("C17","Alphabet and character-set selection",
 "Encoding picks the default 7-bit set whenever it suffices, else the first sufficient permitted national set in the stated order, else UCS-2, and signals the choice in DCS and header.",
 "every text and every set of permitted character sets","Tests sample a few texts per language.",["encoding/tpdu/userdata.go","encode.go"],[("EncodeUserData","encoding/tpdu/userdata.go")])
na("C18","Character codecs are inverse to each other",
 "Every 7-bit table maps septets to characters and back without loss, 7-bit packing and unpacking are inverse for every length and fill, and UCS-2 encoding and decoding are inverse for every text.",
 "every septet string and every text","Tests sample.",["encoding/gsm7/gsm7.go","encoding/gsm7/7bit.go","encoding/ucs2/ucs2.go","encoding/gsm7/charset/charset.go"],[("tables, Pack7Bit/Unpack7Bit","encoding/gsm7")])
na("C19","Numeric field codecs",
 "BCD, semi-octet, timestamp and validity-period fields decode to the value that was encoded for every representable value, and unrepresentable values are refused or rounded as documented.",
 "every value and every octet string","Tests sample.",["encoding/bcd/bcd.go","encoding/semioctet/semioctet.go","encoding/tpdu/timestamp.go","encoding/tpdu/validityperiod.go"],[("encode/decode pairs","encoding/bcd, encoding/semioctet, encoding/tpdu")])
na("C20","Address and PDU-mode framing codecs",
 "Every representable peer or service-centre address and every PDU-mode frame survives encoding and decoding, in binary and hexadecimal form.",
 "every address and frame","Tests sample.",["encoding/tpdu/address.go","encoding/pdumode/pdu.go","encoding/pdumode/smscaddress.go"],[("MarshalBinary/UnmarshalBinary","encoding/tpdu/address.go, encoding/pdumode")])
na("C22","Coding-scheme and flag arithmetic",
 "Reading back any alphabet, class, type, flag or parameter set in a coding-scheme, first-octet or parameter-indicator octet gives the value set and leaves unrelated bits alone, or an error is returned and nothing changes.",
 "every octet and every setter","Tests enumerate part of the octet space.",["encoding/tpdu/dcs.go","encoding/tpdu/firstoctet.go","encoding/tpdu/parameterindicator.go"],[("WithAlphabet, WithClass, With*","encoding/tpdu")])
na("C23","Command-line tools report what the library decodes",
 "The bundled command-line tools print the library's encoding or decoding of their arguments and exit with a failure status on undecodable input.",
 "every argument vector","Tests cover two of the tools' helper functions.",["cmd/smsdecode/smsdecode.go","cmd/smssubmit/smssubmit.go","cmd/smsdeliver/smsdeliver.go","cmd/smscounter/smscounter.go"],[("main functions","cmd/")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
