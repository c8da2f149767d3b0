import json,os
HERE=os.path.dirname(os.path.abspath(__file__))
L=[]
def P(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    L.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
APP=["dash7/src/app/command.rs","dash7/src/app/action.rs","dash7/src/app/operation/mod.rs","dash7/src/app/operation/length.rs","dash7/src/app/query.rs"]
ALL=APP+["dash7/src/app/interface.rs","dash7/src/app/interface_final.rs","dash7/src/session/mod.rs","dash7/src/network/addressee.rs","dash7/src/network/mod.rs","dash7/src/physical/mod.rs","dash7/src/transport/mod.rs","dash7/src/data/mod.rs","dash7/src/types.rs","dash7/src/utils.rs","dash7/src/file/mod.rs"]
P("C01","What is sent over a byte stream arrives as it was sent",
 "Whatever command, action, query, interface configuration, status or system file a user builds within the limits of the protocol and writes to a byte stream, the other side reads back as an equal value, using up exactly the bytes that were written. This holds however the stream cuts, delays or interrupts the transfer, for each of several connections that are busy at once, and in all three protocol variants.",
 ["inputs","schedules","fault_sequences"],"every buildable value x every fragmentation, interruption and delay of the transfer x every interleaving of concurrent connections x the variants spec, subiot, wizzilab",
 "The tests encode and decode a few dozen literal values from complete in-memory buffers. They never cut, delay or interrupt a transfer, never run two connections at once, and one feature build at a time.",
 ALL,[("Command::to_writer / from_reader","dash7/src/app/command.rs"),("Action reader and writer, opcode dispatch","dash7/src/app/action.rs"),("FileData, Status, Forward, tags","dash7/src/app/operation/mod.rs")],["the value a receiver gets and the bits it reports as read"])
P("C02","Other implementations of the protocol understand it, and it them",
 "The bytes that the library sends for a value are the ones that the DASH7 ALP wire format of the chosen variant prescribes for it, and every message of a conforming peer is read as what that format says it means. A message that the format does not allow (for example after corruption on the way) is refused rather than read as something else, and nothing that was lost, repeated, reordered or damaged earlier changes how a later message is read.",
 ["inputs","histories","fault_sequences"],"every message in both directions between library nodes and independently written peers x every history of loss, duplication, reordering, corruption, partition and crash",
 "The tests compare the library with itself or with a handful of literal byte strings; there is no second implementation and no damaged message in them.",
 ALL+["dash7/src/link/frame.rs","dash7/src/file/dll_config.rs"],[("deku layouts of all operations","dash7/src/app/operation/mod.rs"),("variant specific layouts","dash7/src/session/mod.rs")],["bytes on the wire","values or refusals at receivers"])
P("C03","A failing source is reported as that failure",
 "If the source of the data fails while something is being read from it (a read or a reposition returns an i/o error), the read returns exactly that i/o error: never a value, never a different error and never a panic. A later read from the recovered source, and reads from other sources at the same time, are not affected by it.",
 ["fault_sequences","inputs","schedules"],"every readable message x every i/o operation as the point of failure x every error kind a stream can report x transient or lasting failure",
 "The tests only read from buffers in memory, which cannot fail.",
 ["dash7/src/app/command.rs","dash7/src/app/action.rs","dash7/src/utils.rs","dash7/src/file/mod.rs","dash7/src/session/mod.rs","dash7/src/link/mod.rs"],[("Command read loop and its end-of-data test","dash7/src/app/command.rs"),("opcode rewind","dash7/src/app/action.rs"),("read_array error path","dash7/src/utils.rs")],["the error a read returns"])
P("C04","What ends early is reported as incomplete, and can be completed",
 "If a message is cut off in the middle of an action or value, the read is refused with an error that says more bytes are needed, never with a made-up, shortened or different value; a command cut between two actions is exactly the actions before the cut. When the missing bytes arrive, reading all of it gives the value that was sent, however often the receiver tried before.",
 ["crash_points","inputs","schedules"],"every message x every byte at which the sender dies or the connection ends x every sequence of fragments and retries",
 "The tests have almost no truncated input; the cut position is a universal quantifier over every byte of every message.",
 ["dash7/src/app/command.rs","dash7/src/app/action.rs","dash7/src/app/operation/mod.rs","dash7/src/app/operation/length.rs","dash7/src/app/query.rs","dash7/src/session/mod.rs","dash7/src/file/mod.rs"],[("Incomplete from deku's Reader","dash7/src/app/action.rs"),("end-of-command detection","dash7/src/app/command.rs"),("announced lengths","dash7/src/app/operation/mod.rs")],["result of reading a prefix","result of reading again with more data"])
P("C05","Reading takes exactly the bytes of what is read",
 "Reading an action or any other single value from a stream takes its own bytes and no others: what follows on the stream is still there for the next reader, and an action is handed out without waiting for data behind it. The number of bits reported as read, and the rest returned for slices, are exact; a conversion from a slice that cannot report a rest refuses input with anything behind the message.",
 ["inputs","histories","schedules"],"every sequence of messages back to back on one stream x every fragmentation x every point at which the sender waits for an answer before it sends on",
 "The tests read one message from a buffer that ends with it; over-reading by a byte or a miscounted length is invisible there.",
 ["dash7/src/app/action.rs","dash7/src/app/command.rs","dash7/src/app/operation/mod.rs","dash7/src/app/operation/length.rs","dash7/src/file/mod.rs","dash7/src/session/mod.rs","dash7/src/link/frame.rs"],[("length prefixed operations","dash7/src/app/operation/mod.rs"),("Action::from_reader rewind of the opcode","dash7/src/app/action.rs"),("Command::from_bytes rest","dash7/src/app/command.rs")],["stream position after a read","bit counts","rest slices"])
P("C06","A failing sink is reported and has only the start of the message",
 "If the sink fails or is full while a value is being written, the write returns that failure, and what the sink took is a prefix of the correct bytes of the message; without a failure the sink has all of them, however it splits the writes. The value itself is not changed by failed writes, and a value that the format has no room for is refused instead of being sent as something else (only the names in a firmware version are cut to the room that there is, between characters).",
 ["fault_sequences","inputs","schedules"],"every value x every write operation or byte as the point of failure x every error kind, full sinks, short and interrupted writes",
 "The tests write to a Vec, which takes everything.",
 ["dash7/src/app/command.rs","dash7/src/app/action.rs","dash7/src/app/operation/mod.rs","dash7/src/app/operation/length.rs","dash7/src/utils.rs","dash7/src/types.rs","dash7/src/app/query.rs"],[("to_writer of all types","dash7/src/app/operation/mod.rs"),("Length and VarInt range checks","dash7/src/app/operation/length.rs")],["the result of a write","the bytes in the sink"])
P("C07","No input makes it panic, run on or take memory out of proportion",
 "For any bytes whatsoever, every way of reading them (commands, actions, files, frames, statuses and all other values, from streams or slices) ends with a value or an error: no panic, no unbounded number of reads, and no more memory than is proportional to the bytes that are really there, whatever lengths they announce. The same holds for showing, inspecting, comparing and re-encoding whatever was accepted.",
 ["inputs","fault_sequences"],"every byte string, in particular damaged and hostile ones, x every entry point x every bit offset",
 "The tests only have well-formed input, apart from a few unknown opcodes.",
 ALL+["dash7/src/file/phy_status.rs","dash7/src/link/mod.rs","dash7/src/link/frame.rs"],[("bounded reads","dash7/src/utils.rs"),("length checks","dash7/src/app/operation/mod.rs")],["panics","number of i/o operations","heap use, by a counting allocator"])
P("C08","What is passed on says the same as what was received",
 "A node that reads a message and writes it out again (a relay, a gateway, a log) passes on the same message: same bytes where the received form is the standard one, and in any case the same meaning, stable from the first hop on. Across any chain of such nodes with loss, repetition, crashes and restarts, what comes out at the end is what went in.",
 ["inputs","histories","crash_points"],"every message a conforming peer can send, including the ones that the library itself would write differently x every chain of hops x every crash and fault history",
 "The tests decode and re-encode only a few values, all of them in the library's own form, and once.",
 ALL,[("symmetry of reader and writer of every type","dash7/src/app/operation/mod.rs"),("FileData with typed content","dash7/src/app/operation/mod.rs")],["bytes that leave a hop","value at the end of a chain"])
P("C09","Answers find their request",
 "A client that matches answers by the ids, the end-of-packet and error marks, the interface status and the results of single actions that the library reports for a command always attributes them to the request they answer, sees the data of that answer and no other, and learns correctly whether the request, or an action of it, failed. This holds with any number of open requests, answers in several parts, and loss, repetition, reordering and restarts in between; each request that is retried is finished exactly once, when its last answer is in.",
 ["histories","schedules","inputs"],"every set of requests and answers, in any number of parts and any order of actions within a command x every network and crash history",
 "The tests check the accessors of at most one literal command; they have no conversation in which an answer could be taken for another's.",
 ["dash7/src/app/command.rs","dash7/src/app/operation/mod.rs","dash7/src/session/mod.rs"],[("request_id, response_id, tag_id, is_last_response, interface_status, actions_without_interface_status","dash7/src/app/command.rs"),("RequestTag, ResponseTag","dash7/src/app/operation/mod.rs")],["the accessors of received commands"])
P("C10","Reading and writing depend on nothing but their input",
 "The result of a read or write is determined by its arguments alone: it is the same before and after any other calls (also failed or panicking ones), in any thread, while other threads read and write, when a source or sink itself uses the library in the middle of a call, and in another process. A shared value can be written from several threads at once, and nothing is written to the standard output or elsewhere on the side.",
 ["schedules","histories"],"every history of other calls x every interleaving of threads at i/o operations x every nesting of calls",
 "The tests run each call once in a fresh state; state left behind by another call or thread never shows.",
 ["dash7/src/app/command.rs","dash7/src/app/action.rs","dash7/src/utils.rs","dash7/src/types.rs","dash7/src/file/mod.rs","dash7/src/session/mod.rs"],[("absence of global state, pure codecs","dash7/src/lib.rs")],["results of equal calls in different histories, threads and processes","standard output"])
P("C11","Timeouts keep their value within one step, and never drift",
 "A duration that is carried in the compressed time format (timeouts, listen windows, scan periods) comes out at the other end exactly if the format can represent it, otherwise at most one step of the format away and on the side that was asked for: never later if rounded down, never earlier if rounded up. Once it has passed through the format it never changes again over any number of hops, writes and reads, and a duration that does not fit is refused.",
 ["inputs","histories","schedules"],"every duration x both roundings x every number of hops and re-encodings x device clocks that run fast or slow and delayed or repeated messages",
 "The tests check a few durations, for one conversion each.",
 ["dash7/src/types.rs","dash7/src/network/addressee.rs","dash7/src/network/mod.rs","dash7/src/session/mod.rs","dash7/src/data/mod.rs","dash7/src/file/access_profile.rs"],[("VarInt compress and decompress","dash7/src/types.rs"),("response timeout, QoS and sub-profile fields","dash7/src/session/mod.rs")],["value at the receiver","when simulated windows open and close"])
P("C12","Failed reads leave nothing behind; values are released exactly once",
 "However a read or write ends (value, error from the data or the source, or a panic of the source that unwinds through the library), all memory it took is released, except that of the value it returned, which releases all of it. Every element of an array that was read is released exactly once, and nothing that was never read is released.",
 ["fault_sequences","inputs","crash_points"],"every value and array x every operation or element at which the source fails, ends or panics",
 "The tests have no failing source, and leaks or double releases of an error path do not make a test fail.",
 ["dash7/src/utils.rs","dash7/src/app/operation/mod.rs","dash7/src/physical/mod.rs","dash7/src/file/phy_status.rs"],[("read_array with MaybeUninit and its drop guard","dash7/src/utils.rs")],["heap balance of a counting allocator","construction and release counts of array elements"],
 hook="dash7::verif::array_from_reader under cfg(dash7_verif): reads an array of any element type through the private function")
P("C13","The command line tool shows what the library reads, or fails",
 "For any input and options, the command line tool prints exactly what the library makes of these bytes as what was asked for (or, without a type, as the first that fits) and succeeds, or it fails with a non-zero status and prints no result. If its output cannot be written, it fails as well, and what did come out is the start of the right text; short or interrupted writes change nothing.",
 ["inputs","fault_sequences"],"every input in any spelling of hex, every option x every failure, short or interrupted write of its output",
 "The tool has no tests at all.",
 ["dash7-cli/src/main.rs","dash7-cli/src/parse.rs","dash7/src/link/mod.rs","dash7/src/link/frame.rs","dash7/src/file/mod.rs"],[("parse::main and the order of attempts","dash7-cli/src/parse.rs")],["exit status and standard output of the process"])
P("C14","Files of a device arrive whole, or as exactly what is stored",
 "A client that writes a system file in parts of any size, and retries until it is told that a part was written, has it stored in full in the end, and a reader gets it back as the file that was written, whatever messages were lost, repeated or delayed and whenever the device lost its power in the middle of a write. An image that is partly old, partly new or blank is read as exactly what its bytes mean or refused, never as another file.",
 ["crash_points","histories","inputs"],"every system file and version history x every part size x every crash, also in the middle of a write x every network fault history",
 "The tests parse complete and correct files; there is no device, no partial write and no offset other than zero in them.",
 ["dash7/src/file/mod.rs","dash7/src/app/operation/mod.rs","dash7/src/app/operation/file_offset.rs","dash7/src/app/operation/length.rs","dash7/src/file/dll_config.rs","dash7/src/file/factory_settings.rs","dash7/src/file/phy_status.rs"],[("FileData: content by file id and offset","dash7/src/app/operation/mod.rs"),("File::from_bytes and the file layouts","dash7/src/file/mod.rs")],["flash of the simulated device","files at the reader"])
P("C15","An edited message says what it was edited to",
 "A user may edit the public parts of a message that was built or received (addresses, security, masks and values of queries, lists of channels, overloads, order and number of actions) any number of times. If update() is called on what was edited, what is then written is exactly the message with the edits, whatever it was before. If update() is not called, the write says the same or is refused, but never says anything else. An update without an edit changes nothing, and one that cannot be right (a list too long to be counted) is an error.",
 ["histories","inputs","crash_points"],"every history of edits, updates, writes, failed writes, crashes and reloads x every value",
 "The tests only encode values that are complete when they are built; none edits a value, and none calls update.",
 ["dash7/src/network/addressee.rs","dash7/src/app/query.rs","dash7/src/app/operation/mod.rs","dash7/src/file/phy_status.rs","dash7/src/app/interface.rs","dash7/src/app/command.rs"],[("update attributes of counts, types and marks","dash7/src/network/addressee.rs"),("update and assert of masks and values","dash7/src/app/query.rs"),("overload mark of IndirectForward","dash7/src/app/operation/mod.rs"),("length of the channel list","dash7/src/file/phy_status.rs")],["bytes at the devices and on the disk of a gateway that edits"])
P("C16","The text that a log shows for a message says what is in it",
 "The text of a command (as the console or a log shows it) says its tag, if it has one, whether it is a complete response and whether that reports an error, each of its actions in their order, and each interface status with all its values; a status shown on its own says the same. It is the same text for the same message at any time, for any number of logs that show it at once; two messages that differ in their actions or statuses are never shown as the same. If the log cannot be written, the failure is reported and what the log took is the start of the right text.",
 ["inputs","fault_sequences","schedules"],"every message that was built or received x every failure, short or interrupted write of the log x every interleaving of the logs",
 "No test looks at the text of a value, and none has a log that fails.",
 ["dash7/src/app/command.rs","dash7/src/session/mod.rs"],[("Display of Command","dash7/src/app/command.rs"),("Display of InterfaceStatus and Dash7InterfaceStatus","dash7/src/session/mod.rs")],["bytes that the log took","result of the write to the log"])
P("N02","Every supported feature combination builds",
 "Exactly one of the protocol variants can be chosen, any choice builds, with and without the standard library, and a wrong combination is refused when compiling.",
 ["configurations"],"every feature set","The tests run for one feature set at a time; the property is about the compiler, not about an execution.",["dash7/src/lib.rs","dash7/Cargo.toml"],[("compile_error! and cfg attributes","dash7/src/lib.rs")],["compiler result"])
P("N03","Number conversions of ids and codes are inverse to each other",
 "Converting a file id, opcode, interface type or status code to its number and back gives the same id, for every number that names one.",
 ["inputs"],"all 256 numbers","A pure function of one byte, without time, i/o, faults or scheduling.",["dash7/src/file/mod.rs","dash7/src/app/action.rs","dash7/src/session/mod.rs"],[("TryFrom and Into implementations","dash7/src/file/mod.rs")],["conversion results"])
open(HERE+'/properties.jsonl','w').write(''.join(json.dumps(x)+"\n" for x in L))
C=[x for x in L if x["id"][0]=='C']
notes={
"C03":"Every operation of a short message is failed once; of longer ones 24 drawn at random.",
"C07":"Memory bound: 2 KiB per input byte plus 256 KiB; operation bound: 2000 plus 128 per byte.",
"C08":"One known finding (D4, statuses of unknown interfaces) is recognised narrowly and reported as such.",
"C12":"Element accounting needs the guarded hook; without it only the heap balance is checked.",
"C13":"The tool runs as a real process under an LD_PRELOAD shim that decides the outcome of each write to its output; it is single threaded.",
}
man={"version":1,"setup_cmd":"bash check.sh build",
"hooks":{"guard":"cfg(dash7_verif)","enable":"RUSTFLAGS=\"--cfg dash7_verif\" when the simulator is built","source_commits":["3daba39565d42372dc70141ae36b13e4778c2e9c"]},
"checks":[{"property":x["id"],"quick_cmd":f"bash check.sh {x['id']}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {x['id']}","evidence_file":f"evidence/{x['id']}.json",
"technique":"deterministic simulation with fault injection: seeded search over schedules, messages and faults","level":"exploration",
"level_note":"Sampled, not exhaustive: many short seeded runs of the real library (all three variants) in a simulated world, against an independently written reference model. Trusts the reference model, the simulator and the compiler. "+notes.get(x["id"],"")} for x in C],
"not_applicable":[
{"property":"N02","reason":"A property of compilation, not of an execution; there is nothing to schedule or to fail. (At this commit subiot_v0_0 and builds without std do not compile.)"},
{"property":"N03","reason":"Pure functions of one byte; enumerating them is a unit test, not a simulation. (The ids that appear on the wire are covered by C02, C08 and C14.)"}],
"notes":"All checks share one simulator (/verif/sim) and driver (/verif/check.py). See DESIGN.md."}
json.dump(man,open(HERE+'/MANIFEST.json','w'),indent=1)
