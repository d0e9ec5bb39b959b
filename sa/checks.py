"""The registry: which drivers decide which property, over which translation units, with which options."""
import symbols, effects, races

COMMON_ASSUMPTIONS = [
    "64-bit counters and sizes do not wrap around (2^64 operations are not reached)",
    "a failed assert ends the program (the assertion is a precondition on its path)",
    "compiled as the build does (config.h of the build, gnu11, little-endian x86-64)",
]

BOUNDED = ("Every path, input and history of the analysed code within the stated shape is covered by a fixpoint of an over-approximating abstract interpreter (no solver, nothing executed). "
           "Shape bound: %s. Trusted: clang's front end, the interpreter in sa/, the environment models in sa/drivers/, the assumptions listed in the evidence.")

IO_UNITS = ["fstrm/iothr.c", "fstrm/time.c"]
IO_OPTS = dict(volatile="plain", unroll=400, cellcap=7)
IO_ENV = ["the queues are abstract here (C13, C14): a removal delivers any payload some submission inserted, or none",
          "producers submit at any time; the I/O thread, its destroyer and the producers share only the queues, the shutdown request and the condition variable"]


def io(entries, rules, driver="io.c", tier=None, **opts):
    j = dict(driver=driver, units=IO_UNITS, opts=dict(IO_OPTS, **opts), entries=entries, rules=rules)
    if tier: j["tier"] = tier
    return j

CAP_OPTS = dict(unroll=400, cellcap=12, malloc_null=0, nmem=0, ctx=2, **{"assert": 1})
CAP_ENV = ["libevent and the C library behave as their interfaces say (modelled in sa/drivers/cap.h and c23.c)", "control frames are abstract objects here (C05-C07)", "allocation does not fail in the programs (their allocator ends them)"]


C28_ENTRIES = (["check_from_%d" % i for i in range(32)] + ["check_to_%d" % i for i in range(32)] +
               ["check_" + x for x in "help bad_option path_0 path_106 path_107 path_108 path_109 path_255 tcp_4 tcp_6 tcp_none port_garbage port_trailing port_big fail_unix fail_tcp".split()])

CHECKS = {
    "C12": dict(
        jobs=[dict(driver="c12.c", units=["fstrm/rdwr.c", "fstrm/control.c"])],
        explanation="Abstract interpretation to a fixpoint of every sequence of fstrm_rdwr_* calls by a most general client, over a transport "
                    "whose methods may be missing and may return any result: typestate of the transport (open/closed/destroyed) checked at every "
                    "invocation of a method."),
    "C02": dict(
        jobs=[dict(driver="c02.c", units=["fstrm/writer.c", "fstrm/rdwr.c"], opts=dict(unroll=400, ctx=2), rules=["C02"], skip=["C02.batch"])],
        level="other", level_note=BOUNDED % "1 to 3 payloads of any (also unrepresentable) lengths, and 127-129, 256, 257 and 385 payloads of any representable lengths (or one unrepresentable one at a position of interest), so that every batch-boundary case of the code occurs",
        explanation="Abstract interpretation of fstrm_writer_write and writev for symbolic payload pointers and lengths; every batch handed to the transport's "
                    "write method is compared entry by entry with the payloads not yet handed over.",
        assumptions=["control frames are abstract objects here (C05-C07)"]),
    "C03": dict(
        jobs=[dict(driver="c03.c", units=["fstrm/tcp_writer.c", "fstrm/unix_writer.c", "fstrm/rdwr.c"], opts=dict(unroll=400, maxstates=4000))],
        level="other", level_note=BOUNDED % "1 to 4 buffers of any lengths; any number of sends, short counts, interruptions and errors",
        explanation="Abstract interpretation of both transports' write methods for symbolic buffer lengths over a kernel that accepts any prefix of what is offered, interrupts "
                    "or fails at every send, any number of times (retry loop at fixpoint); every message offered is compared with what is still unsent."),
    "C04": dict(
        jobs=[dict(driver="c04.c", units=["fstrm/file.c", "fstrm/tcp_writer.c", "fstrm/unix_writer.c", "fstrm/rdwr.c"])],
        explanation="Abstract interpretation to a fixpoint of the file and socket transports' read methods for any request size, over a kernel/stdio that delivers any part, "
                    "interrupts, fails or ends at every call: position, amount and order of every piece stored in the caller's buffer (which is exactly as large as requested)."),
    "C33": dict(
        jobs=[dict(driver="c33.c", units=["src/fstrm_dump.c"], opts=CAP_OPTS, rules=["C33"], entries=["check_byte", "check_pair", "check_long", "check_any", "check_copy"])],
        level="other", level_note=BOUNDED % "every value of a single byte, all pairs of eight representative bytes, frames of up to 300 bytes with every byte value, and any number of frames of one or two bytes",
        explanation="Abstract interpretation of fstrm_dump from main(), partitioned by the bytes of the frames: every character that reaches standard output, by whatever function, "
                    "is compared with the next character of the line the frame read last calls for, and no frame may be followed by another before its line is complete.",
        assumptions=["the C locale (the program never calls setlocale)", "output to standard output succeeds", "the reader is C04's and C10's"]),
    "C32": dict(
        jobs=[dict(driver="c32.c", units=IO_UNITS, opts=IO_OPTS, rules=["C32"])],
        post=races.post,
        explanation="Every access of the library to the memory an I/O thread object is made of, found by abstract interpretation of the I/O thread, its creator, its destroyer and the producers' functions "
                    "for any arguments, with the locks held; conflicting accesses of roles that run at the same time need a common lock or volatile or atomic accesses on both sides.",
        assumptions=["the queues' own memory is C13's and C14's", "volatile accesses of one byte are taken as atomic, as the code does", "fstrm_iothr_destroy() is not called while producers still run, as documented"]),
    "C31": dict(
        jobs=[dict(driver="c31.c", units=["fstrm/file.c", "fstrm/rdwr.c"], opts=dict(unroll=400, ctx=2), rules=["C31"])],
        level="other", level_note=BOUNDED % "1 to 4 buffers of any lengths in one write, two writes in a row, up to three openings; paths of one, two and four arbitrary characters, \"-\" among them",
        explanation="Abstract interpretation of the file reader's and writer's transport from the options through opening, writing and closing, over a stdio that accepts all or any part of what it is "
                    "offered at every call and may fail to open, write or close: path, mode and stream of every call, and every piece written, compared with what is still unwritten.",
        assumptions=["reads are C04's, ownership of the path C21's"]),
    "C13": dict(
        jobs=[dict(driver="c13.c", units=["libmy/my_queue_mb.c", "libmy/my_queue_mutex.c"], opts=dict(volatile="plain", unroll=400, cellcap=12), rules=["C13"],
                   entries=["check_mb_sizes", "check_mutex_sizes", "check_mb_sizes2", "check_mutex_sizes2", "check_mb_2", "check_mutex_2", "check_mb_4", "check_mutex_4", "check_mb_8", "check_mutex_8"]),
              dict(driver="c13.c", units=["libmy/my_queue_mb.c", "libmy/my_queue_mutex.c"], opts=dict(volatile="plain"), rules=["C13"],
                   entries=["check_mb_any", "check_mutex_any"])],
        explanation="Abstract interpretation to a fixpoint of every sequence of insertions and removals, the other side moving its index at any moment between two "
                    "barriers, for queues of 2, 4 and 8 elements in every position of the indices and of every power-of-two size for index arithmetic and space; order of element "
                    "accesses, barriers and index publications watched at every access.",
        assumptions=["size times element size fits 32 bits (the queues' index arithmetic is 32-bit)"]),
    "C01": dict(
        jobs=[io(["check_pay_1_2", "check_pay_1_2_null"], ["C01"]), io(["check_submit", "check_wrapper"], ["C01"], "io2.c"),
              io(["check_pay_2_2", "check_pay_1_3"], ["C01"], tier="thorough")],
        level="other", level_note=BOUNDED % "1 input queue (2 in the thorough tier) and an output queue of 2 entries (3 in the thorough tier); any number of payloads, batches, failures and reopenings",
        explanation="Abstract interpretation to a fixpoint of the I/O thread together with its destroyer, the shutdown request becoming visible at any of its reads: every payload "
                    "that left a queue is followed to its release, with the payload's bytes captured from the real fstrm_iothr_submit(); submit itself for any arguments.",
        assumptions=IO_ENV),
    "C14": dict(
        jobs=[dict(driver="c13.c", units=["libmy/my_queue_mb.c", "libmy/my_queue_mutex.c"], opts=dict(volatile="plain", unroll=400, cellcap=12), rules=["C14"],
                   entries=["check_mutex_2", "check_mutex_4", "check_mutex_sizes", "check_mutex_sizes2"]),
              dict(driver="c13.c", units=["libmy/my_queue_mb.c", "libmy/my_queue_mutex.c"], opts=dict(volatile="plain"), rules=["C14"], entries=["check_mutex_any"]),
              io(["check_init", "check_init_null"], ["C14"], "io2.c")],
        explanation="Lockset rule over every access to the multi-producer queue's indices and storage in every sequence of operations; typestate of its mutex; and the table of "
                    "operations selected by fstrm_iothr_init() for every queue model, used consistently for every queue operation."),
    "C15": dict(
        jobs=[io(["check_get_1", "check_get_2", "check_get_3"], ["C15"], "io2.c"),
              dict(driver="io2.c", units=IO_UNITS, opts=dict(volatile="plain"), entries=["check_get_any"], rules=["C15"])],
        explanation="Abstract interpretation of both accessors: exhaustive for 1 to 3 configured queues (every call until well after exhaustion, any index), and to a fixpoint "
                    "for any configured number; lockset rule over every access to what fstrm_iothr_get_input_queue() writes."),
    "C16": dict(
        jobs=[io(["check_init", "check_init_null", "check_documented", "check_set_pow2"] + ["check_set_%d" % i for i in range(8)], ["C16"], "io2.c"),
              dict(driver="c16.c", units=["fstrm/reader.c", "fstrm/writer.c"], opts=dict(unroll=400), rules=["C16"])],
        explanation="Abstract interpretation of every setter for any value, compared with the documented range, the stored field (found by watching the stores) and its neighbours; "
                    "fresh objects compared with the documented defaults; fstrm_iothr_init() for any options and any failing step, typestate of every lock and queue."),
    "C17": dict(
        jobs=[io(["check_pay_1_2", "check_queues_2", "check_hint_2", "check_hint_3"], ["C17"]), io(["check_pay_2_2", "check_pay_1_3", "check_queues_3", "check_hint_4"], ["C17"], tier="thorough"),
              dict(driver="io.c", units=IO_UNITS, opts=dict(volatile="plain", widen=8), entries=["check_any_out"], rules=["C17"], tier="thorough")],
        level="other", level_note=BOUNDED % "1 or 2 input queues and an output queue of 2 entries (thorough: up to 3 queues, 3 entries, and any output queue size for the bounds); any number of payloads, batches, failures and reopenings",
        explanation="Same analysis as C01 with the rules about batches (bounds, order, content, nothing left out, nothing added once the buffer hint is reached), about draining every queue, flushing and closing once shutdown is "
                    "requested, and about the destroyer's signal and join before anything is released.",
        assumptions=IO_ENV),
    "C18": dict(
        jobs=[io(["check_time_1", "check_pay_1_2"], ["C18"]), io(["check_time_2"], ["C18"], tier="thorough")],
        explanation="Abstract interpretation of the I/O thread over a clock that only moves forward, any reopen interval, and a writer that may fail at every step: relational "
                    "facts between the clock readings and the time of the previous attempt are checked at every open.",
        assumptions=IO_ENV + ["clock readings are non-negative and below 2^40 s"]),
    "C19": dict(
        jobs=[io(["check_time_1", "check_pay_1_2"], ["C19"]), io(["check_submit"], ["C19"], "io2.c"), io(["check_time_2"], ["C19"], tier="thorough")],
        explanation="Typestate of the I/O thread's mutex, condition variable and signal mask at every wait, unlock, writer call and exit; the deadline of every wait compared with "
                    "the reading of the condition variable's own clock plus the flush timeout; notification by every submission that fills a queue to the threshold.",
        assumptions=IO_ENV),
    "C20": dict(
        jobs=[dict(driver="c20.c", units=["fstrm/tcp_writer.c", "fstrm/unix_writer.c", "fstrm/rdwr.c"])],
        explanation="Abstract interpretation to a fixpoint of any sequence of transport calls (and of init with any address, port, path) over a kernel that may refuse "
                    "any call: typestate of the descriptor, flags of every send, close-on-exec, and the address given to connect, at every system call."),
    "C08": dict(
        jobs=[dict(driver="c08.c", units=["fstrm/writer.c", "fstrm/reader.c", "fstrm/rdwr.c"], opts=dict(unroll=400),
                   skip=["ctl.data-read", "ctl.order", "C08.data"])],
        explanation="Abstract interpretation of the writer's and the reader's handshake with 0 to 3 configured content types in any position and every subset "
                    "of them (and of others) named by the peer; each frame sent is compared with the set it has to name, and success with the set that matches.",
        assumptions=["control frames are abstract objects here (C05-C07); content types beyond the third are treated like the third"]),
    "C09": dict(
        jobs=[dict(driver="c09.c", units=["fstrm/writer.c", "fstrm/rdwr.c"], opts=dict(ctx=2, unroll=400, cellcap=12), skip=["ctl.data-read", "ctl.order"])],
        explanation="Abstract interpretation to a fixpoint of every order of fstrm_writer_* calls (open, close, write, get_control, destroy, reopening) "
                    "on write-only and bidirectional transports whose methods may return anything at any time; a monitor automaton of the writer's side of "
                    "the protocol is checked at every invocation of the transport's methods and at every return.",
        assumptions=["control frames are abstract objects here (their encoding and decoding are decided by C05-C07), any operation on them may fail"]),
    "C10": dict(
        jobs=[dict(driver="c10.c", units=["fstrm/reader.c", "fstrm/rdwr.c"], opts=dict(ctx=2, leak=1), rules=["C10", "ctl", "C11.fail"])],
        explanation="Abstract interpretation to a fixpoint of every order of fstrm_reader_* calls on read-only and bidirectional transports that deliver "
                    "any bytes and may fail at any time; a monitor automaton of the reader's side of the protocol is checked at every invocation of the "
                    "transport's methods and at every return.",
        assumptions=["control frames are abstract objects here (C05-C07), growable buffers make the room asked for (C22)"]),
    "C11": dict(
        jobs=[dict(driver="c10.c", units=["fstrm/reader.c", "fstrm/rdwr.c"], opts=dict(ctx=2), rules=["C11", "ctl", "C10.read", "C10.frame"])],
        explanation="Same analysis as C10 with the rules about deliveries: length prefix, maximum frame size, completeness, the bytes at an arbitrary "
                    "(skolem) position of the payload, and the failed state after any bad frame.",
        assumptions=["control frames are abstract objects here (C05-C07), growable buffers make the room asked for (C22)"]),
    "C21": dict(
        jobs=[dict(driver="c21.c", units=["fstrm/writer.c", "fstrm/reader.c", "fstrm/rdwr.c"], opts=dict(unroll=400, leak=1, ctx=2), rules=["C21"]),
              dict(driver="c21t.c", units=["fstrm/file.c", "fstrm/tcp_writer.c", "fstrm/unix_writer.c", "fstrm/rdwr.c"], opts=dict(unroll=400, leak=1), rules=["C21"]),
              dict(driver="c16.c", units=["fstrm/reader.c", "fstrm/writer.c"], opts=dict(unroll=400, leak=1), rules=["C21"],
                   entries=["check_ctype_reader", "check_ctype_reader2", "check_ctype_writer", "check_ctype_writer2"]),
              dict(driver="c09.c", units=["fstrm/writer.c", "fstrm/rdwr.c"], opts=dict(ctx=2, leak=1), rules=["C21", "C09.freed", "C09.destroy"]),
              dict(driver="c10.c", units=["fstrm/reader.c", "fstrm/rdwr.c"], opts=dict(ctx=2, leak=1), rules=["C21", "C10.freed"]),
              dict(driver="c07.c", units=["fstrm/control.c"], opts=dict(unroll=8000, malloc_null=0, leak=1, **{"assert": 1}), rules=["C21"], entries=["check_client", "check_any_add"]),
              io(["check_init", "check_init_null"], ["C21"], "io2.c", leak=1), io(["check_pay_1_2", "check_pay_1_2_null"], ["C21"])],
        explanation="Ownership typestate of every allocation in abstract interpretation of every init/set/destroy order: the client overwrites and frees what it passed in before the object is "
                    "used, so a kept pointer is a use after free; each destroy leaves no live allocation behind, frees nothing twice, clears the handle and accepts NULL.",
        assumptions=["set calls are made up to twice per option, content types up to two per object"]),
    "C05": dict(
        jobs=[dict(driver="c05.c", units=["fstrm/control.c"], opts=dict(unroll=4000, malloc_null=0, leak=1, **{"assert": 1}), rules=["C05"],
                   entries=["check_plain_a", "check_plain_b", "check_plain_c", "check_hdr_a", "check_hdr_b", "check_hdr_c"] + ["check_%s_%d" % (b, i) for b in ("big", "bigh") for i in range(11)]),
              dict(driver="c05any.c", units=["fstrm/control.c"], rules=["C05"]),
              dict(driver="c05.c", units=["fstrm/control.c"], opts=dict(unroll=4000, malloc_null=0, leak=1, **{"assert": 1}), rules=["C05"], tier="thorough",
                   entries=["check_plain_d", "check_big_11", "check_big_12", "check_bigh_11", "check_bigh_12"])],
        level="other", level_note=BOUNDED % "acceptance and content: every frame of 0-26 bytes (34 with header; all bytes symbolic) and frames around the 256- and 512-byte limits and with up to 12 fields (63 in the thorough tier); bounds of every access: frames of any length",
        explanation="Abstract interpretation of fstrm_control_decode() on frames laid out by an independent description of the format: every layout of short frames with every byte symbolic and the "
                    "edges of the limits, the decoded object compared field by field; and any length and content at fixpoint for the bounds of every access.",
        assumptions=["the growable array of content types is abstract in the any-length analysis (C22)"]),
    "C06": dict(
        jobs=[dict(driver="c06.c", units=["fstrm/control.c"], opts=dict(unroll=4000, malloc_null=0, leak=1, **{"assert": 1}), rules=["C06"])],
        level="other", level_note=BOUNDED % "bytes: up to 3 content types of 0-3 symbolic bytes and shapes at the 256- and 512-byte limits; sizes: one or two content types of any length and buffers of any size",
        explanation="Abstract interpretation of fstrm_control_encode() and fstrm_control_encoded_size() for every type, with and without header, into buffers exactly as large as announced, one "
                    "byte short, one larger or of any size; the output is compared byte by byte with an independent description of the frame.",
        assumptions=[]),
    "C07": dict(
        jobs=[dict(driver="c07.c", units=["fstrm/control.c"], opts=dict(unroll=8000, malloc_null=0, leak=1, **{"assert": 1}), rules=["C07"])],
        level="other", level_note=BOUNDED % "objects with up to 3 content types of 0-2 symbolic bytes, any order of calls, any type value and index; content types of 40 and 256 bytes differing in one position; stored length for any length",
        explanation="Abstract interpretation to a fixpoint of every order of fstrm_control_* accessor calls compared with an ideal object after every call, and of matching from every reachable object.",
        assumptions=[]),
    "C22": dict(
        subject=r"(ubuf|lvec|rvec)_",
        jobs=[dict(driver="c22.c", units=[], opts=dict(unroll=400, leak=1), rules=["C22"],
                   entries=["check_ubuf_1", "check_ubuf_2", "check_ubuf_3", "check_ubuf_5", "check_lvec_1", "check_rvec_2", "check_strings"]),
              dict(driver="c22.c", units=[], opts=dict(unroll=400, leak=1, malloc_null=0, **{"assert": 1}), rules=["C22"], entries=["check_hint_0"]),
              dict(driver="c22.c", units=[], opts=dict(unroll=400, leak=1), rules=["C22"], entries=["check_ubuf_0", "check_rvec_1"], tier="thorough"),
              dict(driver="c22.c", units=[], opts=dict(leak=1), rules=["C22"],
                   entries=["check_any_%s_%s" % (v, o) for v in ("ubuf", "lvec", "rvec") for o in ("add", "append", "reserve", "reset", "clip", "detach")])],
        level="other", level_note=BOUNDED % "content preservation: any sequence of operations on arrays of up to 4 elements with initial hints 0-5; bounds and invariant: any single operation on an array of any count, capacity and arguments",
        explanation="Abstract interpretation of the growable arrays of three element sizes: every sequence of operations compared element by element with an ideal sequence, and every operation "
                    "from any state that satisfies the invariant, for any size, with every write checked against its allocation.",
        assumptions=["arrays have at most 2^40 elements"]),
    "C23": dict(
        jobs=[dict(driver="c23.c", units=["src/fstrm_capture.c"], opts=CAP_OPTS, rules=["C23"], entries=["check_file", "check_file_split", "check_file_time", "check_stdout"])],
        explanation="Abstract interpretation of fstrm_capture from main() through its libevent callbacks, over a standard library in which every call on the output may fail: "
                    "typestate of the output file at every call, every piece written compared with the pieces of the frame at the head of the input, and every rotation with the clock and the signals; "
                    "the exit status with whether anything failed.",
        assumptions=CAP_ENV + ["frames arrive one at a time here, in up to three pieces, valid and within the limit (C24 has any byte stream)"]),
    "C24": dict(
        jobs=[dict(driver="c23.c", units=["src/fstrm_capture.c"], opts=CAP_OPTS, rules=["C24"], entries=["check_stream", "check_skip"]),
              dict(driver="c23.c", units=["src/fstrm_capture.c"], opts=CAP_OPTS, rules=["C24"], tier="thorough", entries=["check_stream_any", "check_skip_any", "check_both", "check_both_any"])],
        explanation="Abstract interpretation to a fixpoint of fstrm_capture's callbacks for one connection at a time over any byte stream in any segmentation: a monitor automaton of the "
                    "receiving side of the protocol, the header of the frame at the head of the input, and the amounts looked at, taken, discarded and answered are compared at every libevent call.",
        assumptions=CAP_ENV + ["writing the output succeeds here (C23)", "default buffer limit in the quick tier, any in the thorough tier"]),
}

CHECKS.update({
    "C25": dict(
        jobs=[dict(driver="c25.c", units=["src/fstrm_capture.c"], opts=CAP_OPTS, rules=["C25"],
                   entries=["check_one", "check_one_max_1", "check_one_max_2", "check_max_1", "check_max_2", "check_max_3", "check_any_3"]),
              dict(driver="c25.c", units=["src/fstrm_capture.c"], opts=CAP_OPTS, rules=["C25"], tier="thorough", entries=["check_two_any"])],
        explanation="Abstract interpretation to a fixpoint of fstrm_capture's accept, read, write and event callbacks in any order: typestate of the descriptor, the libevent "
                    "buffer and the per-connection state of an arbitrary connection (use, double release and leak after every callback), and the counters and the listener's state "
                    "compared with the number of open connections for maxima of 0 (none) to 3 and for any maximum.",
        assumptions=CAP_ENV + ["connections share nothing but the counter and the output (one arbitrary connection is followed in full; the others are counted)"]),
    "C26": dict(
        jobs=[dict(driver="c26.c", units=["src/fstrm_dump.c"], opts=CAP_OPTS, rules=["C26"], entries=["check_dump", "check_dump_copy", "check_dump_usage"]),
              dict(driver="c26.c", units=["src/fstrm_replay.c"], opts=CAP_OPTS, rules=["C26"], entries=["check_replay_unix", "check_replay_tcp", "check_replay_3"]),
              dict(driver="c26.c", units=["src/fstrm_replay.c"], opts=dict(CAP_OPTS, unroll=2000), rules=["C26"], entries=["check_replay_300"])],
        explanation="Abstract interpretation to a fixpoint of fstrm_dump and fstrm_replay from main(), over a library in which every call may fail and every input may have any "
                    "number of frames and end or break anywhere: every frame read has to reach the output once, unchanged and in order, and the exit status is compared with what happened.",
        assumptions=CAP_ENV + ["the library's readers and writers behave as C02-C04 and C08-C11 say", "up to three different input files for fstrm_replay, and one 260 times"]),
    "C28": dict(
        jobs=[dict(driver="c28.c", units=["src/fstrm_capture.c"], opts=CAP_OPTS, rules=["C28"], entries=C28_ENTRIES)],
        explanation="Abstract interpretation of fstrm_capture from main() to its event loop for every combination of options given or not, with the numbers, port and failing calls unknown: "
                    "what is removed, created and listened on is compared with what the command line names, and the exit status with whether it was valid.",
        assumptions=CAP_ENV + ["argv_process() stores the options' values or fails", "socket paths of the lengths 0, 5, 106-109 and 255 stand for all (the limit is 107)"]),
    "C30": dict(
        jobs=[dict(driver="c28.c", units=["src/fstrm_capture.c"], opts=CAP_OPTS, rules=["C30"], entries=["check_to_0", "check_to_1", "check_tcp_4", "check_to_12", "check_fail_unix"])],
        python=[effects.signals],
        explanation="Abstract interpretation of fstrm_capture from main() to its event loop and through the callback or handler it has registered for each signal: SIGPIPE ignored, SIGTERM and SIGINT end the loop, "
                    "SIGHUP flushes and SIGUSR1 is waited for, each time; no call from a signal handler proper reaches a function that is not async-signal-safe.",
        assumptions=CAP_ENV + ["an event libevent has for a signal is run by the loop, whenever the signal comes"]),
    "C29": dict(
        python=[effects.check],
        technique="static analysis: interprocedural effect analysis over the LLVM IR (call graph with address-taken functions, per-thread roots, may-write analysis of static storage)",
        level_note="Complete for the library's units: every call, every reference to an object of another library and every write to static storage is enumerated from the IR and classified. "
                   "Trusted: clang's front end and the classification of C library functions in sa/effects.py.",
        explanation="Every function of the library is classified by what it calls outside the library (process-wide effects, output, functions not safe between threads, effects on the calling thread) "
                    "and by the static storage it may write, through pointers, calls and returned addresses; effects on the calling thread are allowed only where the call graph reaches them from a thread's start routine alone.",
        assumptions=["C library functions not in the tables of sa/effects.py have no process-wide effect and may be called by several threads", "the transports and callbacks an application supplies are the application's"]),
    "C27": dict(
        python=[symbols.check],
        technique="static analysis: declaration/definition/export cross-check over clang's syntax tree, the LLVM IR's linkage, the version script, and a type-level witness (each unit compiled together with the public headers)",
        level_note="Complete for the current configuration: every declaration of the installed headers, every global definition of the library's units and every entry of the version script is enumerated and cross-checked. "
                   "Trusted: clang's front end and the reading of the version script in sa/symbols.py.",
        explanation="Four views of the interface are computed from the current sources and joined: functions declared by the installed headers, functions defined by the library's units with linkage and "
                    "visibility, the version script's decision for each name, and agreement of types (each unit is compiled together with all installed headers).",
        assumptions=["GNU ld version script semantics", "the library consists of the units Makefile.am lists"]),
})

TECHNIQUE = "static analysis: abstract interpretation of the LLVM IR of the current sources under most-general-client drivers, to a fixpoint"
LEVEL_NOTE = ("Every path, loop iteration count, input and history of the analysed code is covered by a fixpoint of an over-approximating abstract interpreter "
              "(no bound, no solver, nothing executed); trusted: clang's front end, the interpreter in sa/, the environment models in sa/drivers/, the assumptions listed in the evidence.")
NOT_APPLICABLE = {}
