"""How much each check explores, and what its evidence says about it."""

REAL = ["dash7 library (all codecs, as compiled from /repo, variants spec, subiot and wizzilab)", "deku 0.18 readers and writers"]
STUB = ["byte sources, sinks and connections (simulated, faults injected)", "clock, timers and task scheduling (simulated)",
        "reference peers and reference model of the wire format (written independently of the library)"]
ASSUME = [
    "The reference model of the ALP wire format in sim/src/model.rs is right; it was written from the protocol's layouts, "
    "not generated from the library.",
    "Values are drawn from what a user can build or a conforming peer can send; limits of the public types are listed in DESIGN.md.",
]

INFO = {
    "C01": dict(quick=120000, deep=10, rule="A party writes generated commands, actions, queries, configurations, statuses or files to "
                "simulated streams with short and interrupted transfers and delays, others read them, up to several "
                "connections at once."),
    "C02": dict(quick=400000, deep=12, rule="Library nodes and reference nodes exchange generated messages over a simulated network with "
                "loss, duplication, reordering, corruption, partitions and crashes; every byte sent and every message "
                "received is compared with the reference model."),
    "C03": dict(quick=120000, deep=12, rule="A generated message is read once per i/o operation, with that operation failing; and "
                "connections are cut at random points while others go on."),
    "C04": dict(quick=120000, deep=12, rule="A generated message is cut at its bytes, read, and read again as more of it arrives over "
                "connections that break and resume."),
    "C05": dict(quick=220000, deep=13, rule="Generated messages are laid back to back on one stream, and in dialogues where the next is only "
                "sent after the answer to the last; stream positions, bit counts and rests are checked."),
    "C06": dict(quick=700000, deep=9, rule="A generated value is written once per write operation with that operation failing, to sinks that "
                "fill up, and by several tasks at once; unrepresentable values are tried as well."),
    "C07": dict(quick=400000, deep=14, rule="Damaged, spliced, random and hostile bytes are read by every entry point, under an allocator that "
                "counts and a source that limits the operations."),
    "C08": dict(quick=150000, deep=18, rule="Generated messages, also in unusual but legal forms, pass chains of store-and-forward nodes with "
                "loss, duplication, corruption, crashes and restarts; each hop reads and writes them with the library."),
    "C09": dict(quick=200000, deep=14, rule="A client has several requests open at several devices that answer in one or more parts over a "
                "faulty network; the accessors of each command are compared with the reference, and each request has to be "
                "finished once with its own data."),
    "C10": dict(quick=80000, deep=20, determinism=True, again=3000,
                rule="The same reads and writes are done in different histories, nested in each other's sources and sinks, and "
                "by tasks that switch at i/o operations; results must be equal. The first seeds are also run in two processes."),
    "C11": dict(quick=300000, deep=20, rule="Durations pass through the compressed format, relays, configuration files and devices with "
                "drifting clocks; values and the simulated times at which windows open and close are checked."),
    "C12": dict(quick=1200000, deep=12, rule="Generated messages and arrays are read from and written to sources and sinks that fail, end or "
                "panic at a chosen operation; a counting allocator and counted elements have to balance."),
    "C13": dict(quick=24000, deep=12, piece=250, again=60, cli=True,
                rule="The real command line tool is run on generated, damaged and misspelt input with generated options, while a "
                "shim decides the outcome of each write to its standard output and error.",
                real=["dash7 command line tool (as compiled from /repo, three variants)"] + REAL,
                stub=["write and writev on standard output and error (LD_PRELOAD shim, faults injected)"]),
    "C14": dict(quick=30000, deep=18, piece=1000, rule="A writer and a reader of a device file, over a faulty network, with a device whose flash survives "
                "crashes and tears writes; every image that is read is compared with the reference."),
    "C15": dict(quick=200000, deep=16, rule="A gateway keeps messages that it built or received, and edits them as an operator says, with and "
                "without updates, failing writes, crashes and a faulty network; every write, and what a reference device "
                "makes of it, is compared with the reference's message with the same edits. And a device edits a list in a file."),
    "C16": dict(quick=65000, deep=18, rule="Nodes write the text of messages that they built or received over a faulty network to "
                "logs that fail, fill up, and take it in pieces, several at a time; each text is compared with the reference's, "
                "and pairs of messages that differ in one thing are told apart by it."),
}

for _p in INFO.values():
    _p.setdefault("real", REAL)
    _p.setdefault("stub", STUB)
    _p.setdefault("assumptions", ASSUME)
