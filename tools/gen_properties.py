#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])])))

prop("C01", "Submitted payloads are released exactly once, refused ones never",
 "A payload accepted by fstrm_iothr_submit() (it returned fstrm_res_success) has its free callback invoked exactly once, with the data and free_data it was submitted with, whether it was written, discarded because the writer is closed, lost to a write failure, or still queued at destroy time; a NULL callback is skipped. A payload is never released before the write that carries it has returned. When submit returns anything else the payload was not queued, the callback is never invoked and the caller still owns it; lengths below 1 or of UINT32_MAX and above and NULL data are refused as invalid.",
 ["schedules", "inputs", "fault_sequences"], "every submission, every writer state (closed, open, failing), every batch and shutdown point",
 "The unit tests count bytes read back through healthy transports and never make a write fail, shut down with a closed writer, or observe the callback; they sample one schedule per run.",
 ["fstrm/iothr.c"], [("queue entry carries callback", "fstrm_iothr_submit"), ("deferred deallocation after flush", "fstrm__iothr_flush_output"), ("discard when closed", "fstrm__iothr_process_queue_entry"), ("drain at destroy", "fstrm__iothr_free_queues")],
 ["fstrm_iothr_submit return value", "free_func invocations", "fstrm_writer_writev calls made by the I/O thread"])

prop("C02", "Each data frame is emitted as its own length prefix and payload, in order",
 "For any number of payloads, what fstrm_writer_write()/writev() hands to the transport's write method is, for each payload in order, a 4-byte big-endian length equal to that payload's length followed by exactly that payload, each exactly once and in however many batches are needed. Success is returned only if every batch was written successfully, no further batch is attempted after one fails, and a payload that no data frame can represent (length 0 or above 2^32-1) is refused without writing anything. The writer's internal batching arrays are never overrun, and writing no payloads at all succeeds without writing anything.",
 ["inputs", "fault_sequences"], "all payload counts and lengths, any failing batch",
 "test_writer_hello checks a handful of small batches; no test exceeds one internal batch, fails a later batch, or passes a zero-length payload.",
 ["fstrm/writer.c"], [("length/payload interleaving", "fstrm__writer_write_iov"), ("splitting of large batches", "fstrm__writer_write_iov_stupid"), ("validation and dispatch", "fstrm_writer_writev")],
 ["struct fstrm_rdwr_ops.write arguments", "fstrm_writer_writev return value"])

prop("C03", "Socket writes send every byte exactly once, in order, or fail",
 "The socket transports' write method reports success only when the concatenation of all the caller's buffers has been accepted by the kernel exactly once and in order, whatever short counts the kernel returns; after a short send the next one starts at the first unsent byte, interruptions by signals are retried with nothing skipped or repeated, and any other send error is reported as failure. It never reads a buffer descriptor beyond the ones it was given. The TCP and Unix-domain transports behave alike.",
 ["fault_sequences", "inputs"], "every sequence of short writes, EINTRs and errors for every array of buffers",
 "Loopback sockets in the tests practically never return short counts or EINTR, so the resume path is never executed.",
 ["fstrm/tcp_writer.c", "fstrm/unix_writer.c"], [("sendmsg retry loop", "fstrm__tcp_writer_op_write"), ("sendmsg retry loop", "fstrm__unix_writer_op_write")],
 ["sendmsg() arguments and results", "write method return value"])

prop("C04", "Reads deliver exactly the requested bytes or do not succeed",
 "The read methods of the file and socket transports report success only after storing exactly the requested number of bytes contiguously at the start of the caller's buffer, never store beyond it, retry reads interrupted by signals without losing position, and never report success on an error or a premature end of input (a file at a clean end of input reports stop, not success).",
 ["fault_sequences", "inputs"], "every sequence of short reads, EINTRs, errors and ends of input",
 "Tests read whole, well-formed files and loopback sockets; short reads and EINTR are not injected.",
 ["libmy/read_bytes.h", "fstrm/file.c", "fstrm/tcp_writer.c", "fstrm/unix_writer.c"], [("read loop", "read_bytes"), ("fread of one item", "fstrm__file_op_read")],
 ["read()/fread() calls", "read method return value"])

prop("C05", "Control frame decoding is memory-safe and accepts exactly valid frames",
 "For every byte string and claimed length, fstrm_control_decode() reads only bytes inside the given buffer. It succeeds only if the frame is well formed: (with header) zero escape and a length field equal to the remaining byte count; frame length within 512; a known control type; only content-type fields, each at most 256 bytes and wholly inside the frame, consumed to the last byte; at most one content type in START and none in STOP/FINISH; and then the object holds exactly that type and those content types in order. It fails only if one of these is violated.",
 ["inputs"], "all byte strings, lengths and flag values",
 "test_control decodes a fixed table of frames; it cannot cover all lengths, nested field lengths and type values.",
 ["fstrm/control.c", "fstrm/fstrm-private.h"], [("bounds-checked loads", "fs_load_be32 / fs_load_bytes"), ("validation", "fstrm_control_decode")],
 ["fstrm_control_decode result", "memory reads of the input buffer", "stored type and content types"])

prop("C06", "Control frame encoding fits its buffer and matches its announced size",
 "fstrm_control_encode() writes only inside the caller's buffer of *len_control_frame bytes, never reports success when the frame does not fit the buffer or its payload is over the size limit, and on success produces, contiguously: (with header) a zero escape and the number of remaining bytes, the type, and per emitted content type the field tag, its length and its bytes. The size reported by fstrm_control_encoded_size(), the size stored back by encode and the number of bytes produced are the same. STOP and FINISH carry no content type and START at most one.",
 ["inputs"], "all control objects, flags and buffer sizes",
 "test_control encodes a fixed table of frames into large-enough buffers and compares bytes.",
 ["fstrm/control.c", "fstrm/fstrm-private.h"], [("size computation", "fstrm_control_encoded_size"), ("bounded stores", "fstrm_control_encode")],
 ["buffer writes", "*len_control_frame", "result"])

prop("C07", "Control object accessors enforce the per-type content-type rules",
 "fstrm_control_set_type() and get_type() accept exactly the five defined control types and refuse every other value without changing anything; the reported number of content types is 0 for STOP and FINISH and at most 1 for START whatever was added; indexed access succeeds exactly for the indices of the stored content types and returns their bytes; adding copies the caller's bytes and refuses content types longer than 256 bytes; and matching never succeeds for STOP/FINISH, always succeeds for an unset content type otherwise, and otherwise succeeds exactly on byte-for-byte equality (same length) with one of the reported content types.",
 ["inputs", "histories"], "all control objects and arguments",
 "The tests call these with a few hand-written frames; prefix matches, STOP with content types or NULL candidates are only sampled.",
 ["fstrm/control.c"], [("type tables", "fstrm_control_set_type / get_type / to_str"), ("limits", "fstrm_control_get_num_field_content_type"), ("match", "fstrm_control_match_field_content_type")],
 ["accessor results"])

prop("C08", "Handshakes succeed only on a matching content type, and on any match",
 "A writer on a bidirectional transport announces all its content types and proceeds past ACCEPT exactly when the ACCEPT frame matches at least one of them (or it has none), naming the matching one in START; a reader answers READY with exactly those of its content types that match, and either side accepts START exactly when it has no content type configured or at least one configured type matches, whatever its position in the list. On a mismatch the open fails and no data frame is ever exchanged.",
 ["inputs", "histories"], "all content-type lists on both sides",
 "Tests configure one content type per side, so the position of the match never matters.",
 ["fstrm/writer.c", "fstrm/reader.c"], [("ACCEPT matching", "fstrm__writer_open_bidirectional"), ("START/READY matching", "fstrm__reader_open_*")],
 ["control frames written", "open results"])

prop("C09", "Writers follow the Frame Streams writer protocol on every path",
 "Opening a writer sends START on a write-only transport, and on a bidirectional one sends READY, waits for ACCEPT and only then sends START; data frames are only written after a successful open and before close; closing sends STOP, waits for FINISH on a bidirectional transport, and closes the transport exactly once whether or not those steps succeed. A failed step of the handshake makes open or close fail with the transport closed, nothing more is sent on a transport after a step on it failed (until the writer is closed and opened anew), a failed or explicitly closed writer never reports success for a write that did not reach an opened transport, and success is never reported for an incomplete handshake.",
 ["fault_sequences", "histories"], "every call sequence with any I/O step failing",
 "The tests run only successful handshakes over two transports.",
 ["fstrm/writer.c", "fstrm/rdwr.c"], [("handshake", "fstrm_writer_open"), ("lazy open", "fstrm_writer_writev"), ("shutdown handshake", "fstrm_writer_close")],
 ["transport method calls and control frames", "fstrm_writer_open/close/writev results"],
 [("writer state", "opening/opened/closed", "struct fstrm_writer.state")])

prop("C10", "Readers follow the Frame Streams reader protocol on every path",
 "Opening a reader waits for START on a read-only transport, and on a bidirectional one waits for READY, answers ACCEPT and then waits for START; frames are delivered only after a successful open; STOP ends the stream with fstrm_res_stop and nothing is read or delivered afterwards; closing a reader that is open or at its end of stream sends FINISH on a bidirectional transport and closes the transport exactly once even if that fails. A failed step makes open fail with the transport closed, and a reader that failed or was closed never delivers another frame unless it is opened anew.",
 ["fault_sequences", "histories"], "every call sequence with any I/O step failing",
 "The tests read well-formed streams to the end; failures between steps and calls after STOP or after a failure are not tried.",
 ["fstrm/reader.c", "fstrm/rdwr.c"], [("handshake", "fstrm_reader_open"), ("stream end", "fstrm__reader_next_data"), ("shutdown", "fstrm_reader_close")],
 ["transport method calls and control frames", "fstrm_reader_open/read/close results"],
 [("reader state", "opening/opened/closing/closed/failed", "struct fstrm_reader.state")])

prop("C11", "Readers deliver only complete data frames within the size limit",
 "fstrm_reader_read() returns success only with data and length set to one complete data frame exactly as framed: its big-endian length prefix was read, is nonzero and not above the configured maximum, the payload buffer is at least that large, and that many bytes were read into it. A frame over the limit, a truncated or failed read, or a malformed control frame never yields success, is rejected before the payload is buffered, and leaves the reader failed; interleaved control frames are consumed without being delivered as data.",
 ["inputs", "fault_sequences"], "all byte streams and limits",
 "test_file_hello reads frames far below the limit; no test sends an oversized, truncated or malformed frame.",
 ["fstrm/reader.c", "libmy/vector.h"], [("length check and buffering", "fstrm__reader_next_data")],
 ["fstrm_reader_read result and outputs", "transport read calls"])

prop("C12", "Transport objects are opened, used and closed in strict pairs",
 "Through the fstrm_rdwr_* calls, a transport's read or write method is only invoked between a successful open and the close that ends it, the close method is invoked exactly once per successful open, a failed read or write closes the transport, missing methods yield failure instead of a call through NULL, and destroying a transport closes it if still open, calls its destroy method once, frees it and clears the handle; destroying a NULL handle is tolerated.",
 ["histories", "fault_sequences"], "every sequence of rdwr calls with any method failing",
 "test_rdwr-like coverage is limited to success paths over files and sockets; failure-triggered closes and repeated closes are not observed.",
 ["fstrm/rdwr.c"], [("opened flag", "fstrm_rdwr_open/close"), ("close on failed I/O", "fstrm_rdwr_read/write")],
 ["invocations of the ops methods"],
 [("opened", "between successful open and close", "struct fstrm_rdwr")])

prop("C13", "The queues are bounded FIFOs that publish an element before its index",
 "For both queue implementations and every power-of-two size of at least 2 (other sizes are refused), insert succeeds exactly when fewer than size-1 elements are queued and appends a full copy of the element, remove succeeds exactly when the queue is non-empty and copies out the oldest, a refused operation changes nothing, and the reported space/count are the remaining ones. In the lock-free implementation the element is written before the new head index is published and read out before the new tail index is published, separated by the barriers that order them, and each index is written by only one of the two sides.",
 ["schedules", "inputs", "histories"], "all index positions, sizes and producer/consumer interleavings",
 "test_queue runs one producer/consumer pair on a strongly ordered x86 CPU; a missing barrier or an index published too early almost never shows up.",
 ["libmy/my_queue_mb.c", "libmy/my_queue_mutex.c", "libmy/my_memory_barrier.h"], [("barriers around publication", "my_queue_mb_insert/remove"), ("index arithmetic", "q_space/q_count")],
 ["queue memory accesses and barriers", "operation results"])

prop("C14", "Multi-producer queues are always accessed under their lock",
 "Whenever the multi-producer queue model is configured, the I/O thread object uses a queue implementation in which every access to shared queue state (indices and element storage) happens while the queue's mutex is held, every operation releases the mutex on all paths before returning, and the mutex is initialised before use and destroyed with the queue; the lock-free implementation is only ever used for the single-producer model.",
 ["schedules", "configurations"], "all interleavings of any number of producers",
 "Races need particular interleavings; the tests run a fixed number of producers for a short time.",
 ["libmy/my_queue_mutex.c", "fstrm/iothr.c"], [("q_lock/q_unlock", "my_queue_mutex_insert/remove"), ("model selection", "fstrm_iothr_init")],
 ["queue memory accesses", "pthread_mutex calls", "queue_ops selection"])

prop("C15", "Input queues are handed out once each and never beyond the configured number",
 "fstrm_iothr_get_input_queue() may be called from any thread: its counter is only touched under its lock, which is released on every path, each call returns a different queue until all configured queues have been handed out, and NULL afterwards. fstrm_iothr_get_input_queue_idx() returns the idx-th queue for every idx below the configured number and NULL for any other, and neither ever forms a pointer beyond the queue array.",
 ["schedules", "inputs", "histories"], "all threads, call sequences and indices",
 "Tests call it sequentially and never past the configured number.",
 ["fstrm/iothr.c"], [("get_queue_lock/idx", "fstrm_iothr_get_input_queue"), ("bounds check", "fstrm_iothr_get_input_queue_idx")],
 ["returned pointers", "accesses to the counter"])

prop("C16", "Option setters accept exactly the documented values",
 "Every option setter that can refuse a value stores it and returns success exactly when it lies in the documented range (buffer hint, flush timeout, input queue size: a power of two within its limits, number of input queues, output queue size, queue model, notify threshold, reopen interval, reader maximum frame size, content-type length), and otherwise returns failure leaving the options object unchanged; fresh options objects and a NULL options argument give the documented defaults. Any options object the setters can produce makes fstrm_iothr_init() either succeed or return NULL without invoking an operation on uninitialised state.",
 ["inputs", "configurations"], "every value of every option",
 "Tests set a few valid values; boundaries and invalid values such as a queue size of 6 are not tried.",
 ["fstrm/iothr.c", "fstrm/reader.c", "fstrm/writer.c", "fstrm/iothr.h"], [("range checks", "fstrm_*_options_set_*"), ("clamping", "fstrm_iothr_init")],
 ["setter results and stored values", "fstrm_iothr_init paths"])

prop("C17", "The I/O thread batches within bounds and drains, flushes and closes on shutdown",
 "The I/O thread never places more entries in its output arrays than they can hold (the configured output queue size, clamped to the platform's iovec limit), each batched entry's iovec names that entry's data and length, and a flush hands the whole batch, in order, to the writer and empties it. No payload is added to a batch whose payloads already amount to the buffer hint. Once shutdown is requested the thread keeps removing from every input queue until all are empty, then flushes what is batched, closes the writer if it is open (so that the final control frame goes out after all data), and exits; destroy signals and joins the thread before releasing anything it uses.",
 ["schedules", "configurations", "histories"], "all queue contents, option values and shutdown points",
 "Tests shut down after producers have finished with small queues; array bounds and the final partial batch are not directly observed.",
 ["fstrm/iothr.c"], [("flush thresholds", "fstrm__iothr_maybe_flush_output"), ("shutdown branch", "fstrm__iothr_thr"), ("join before free", "fstrm_iothr_destroy")],
 ["accesses to the output arrays", "fstrm_writer_* calls", "queue remove calls", "pthread_join"])

prop("C18", "The I/O thread reopens a failed writer, at most once per reopen interval",
 "While the writer is not open the I/O thread attempts, whenever it looks for work, to open it if and only if at least the configured reopen interval has elapsed since its previous attempt by its monotonic clock, and each attempt restarts the interval whether or not it succeeds; while it is open no open is attempted. A failed write marks the writer not open and closes it once so that it can be reopened later, and entries processed while it is not open are discarded rather than written.",
 ["fault_sequences", "histories", "configurations"], "all timings and failure sequences",
 "Tests connect to listeners that exist and never drop the connection.",
 ["fstrm/iothr.c"], [("interval check", "fstrm__iothr_maybe_open"), ("close on write failure", "fstrm__iothr_flush_output")],
 ["fstrm_writer_open/close/writev calls and clock reads"])

prop("C19", "The I/O thread's waits are timed, locked and on one clock, with SIGPIPE blocked",
 "The I/O thread blocks SIGPIPE for itself before any I/O; whenever it finds no work it waits on its condition variable only with its mutex held, always with a deadline, releasing the mutex on every path afterwards, and a timed-out wait is followed by a flush so that no batched data lingers beyond the flush timeout. The deadline is the current time of the very clock the condition variable was configured with plus the configured flush timeout, and a submission after which exactly as many queue slots remain free as the configured notify threshold signals that condition variable, so that a waiting I/O thread is woken before the queue is full.",
 ["schedules", "configurations"], "all wakeup orders",
 "Lost or untimed waits appear as occasional stalls that the tests' sleeps hide.",
 ["fstrm/iothr.c", "fstrm/time.c"], [("timed wait", "fstrm__iothr_thr"), ("clock selection", "fstrm__get_best_monotonic_clocks"), ("signal", "fstrm_iothr_submit")],
 ["pthread_cond_timedwait / clock_gettime / pthread_condattr_setclock / pthread_sigmask calls"])

prop("C20", "Sockets never leak, never raise SIGPIPE and are not inherited",
 "Opening a socket transport either leaves it connected with one open descriptor or fails with none left open; closing it closes that descriptor exactly once and only if connected, after which it can be opened again; reading or writing an unconnected transport fails without touching a descriptor, and closing one touches none either. Every descriptor is created close-on-exec or marked so, every send suppresses SIGPIPE, and the socket address (family, address, port or path, and its length) is only accepted when it fits and parses completely.",
 ["fault_sequences", "configurations", "histories"], "every failing system call at every step",
 "Tests connect successfully; failing connect/close and descriptor flags are not observed.",
 ["fstrm/tcp_writer.c", "fstrm/unix_writer.c"], [("open/close methods", "fstrm__*_writer_op_open/close"), ("address parsing", "fstrm_tcp_writer_init / fstrm_unix_writer_init")],
 ["socket/fcntl/connect/close/sendmsg calls"])

prop("C21", "Objects own copies of what they are given and release everything exactly once",
 "Option setters and init functions copy strings, content types and option structures, so no library object keeps a pointer into a caller's buffer or options object, except the writer/transport handles whose ownership is documented to transfer (and whose handle is then cleared). Each destroy function tolerates a NULL handle, releases every allocation its object owns exactly once without using it afterwards, and clears the handle; init functions that fail release what they allocated.",
 ["histories", "inputs"], "all object contents and call orders",
 "The test suite is not run under a leak checker and reuses few objects.",
 ["fstrm/file.c", "fstrm/tcp_writer.c", "fstrm/unix_writer.c", "fstrm/writer.c", "fstrm/reader.c", "fstrm/control.c", "fstrm/iothr.c"], [("copy-in", "fstrm_*_options_set_* / _add_content_type / *_init"), ("release", "fstrm_*_destroy")],
 ["allocations, frees and stored pointers"])

prop("C22", "Growable buffers never write outside their allocation",
 "For every content, length and capacity, the library's growable arrays keep the invariant that the element count is within the allocated capacity and the write cursor is at the element count; adding, appending, reserving, resetting and clipping write only inside the allocation, reserve really leaves room for the requested number of elements, and previously stored elements are preserved by growth.",
 ["inputs", "histories"], "all sizes and operation sequences",
 "Tests only grow the arrays by a few elements.",
 ["libmy/vector.h", "libmy/ubuf.h"], [("growth loops", "VECTOR_GENERATE")],
 ["memory accesses"])

prop("C23", "Captured output files are complete and hold exactly the received frames",
 "Every output file fstrm_capture produces begins with one START frame naming the configured content type, then holds whole data frames byte for byte as received, each once, and ends with one STOP frame, also across rotation by time or SIGUSR1 and at shutdown; frames are neither written without an open file nor split. Any failure to write, to rotate or to close an output file (an explicit flush on SIGHUP aside) ends the program with a failure status instead of silently continuing.",
 ["histories", "fault_sequences", "inputs"], "all frame sequences, rotations and write failures",
 "The program tests capture one small stream without rotation or errors.",
 ["src/fstrm_capture.c"], [("start/stop frames", "open_write_start / close_write_stop"), ("frame copy", "process_data_frame"), ("rotation", "rotate_output")],
 ["fwrite/fclose calls on the output file", "exit status"])

prop("C24", "fstrm_capture takes data only in a negotiated stream and skips oversized frames",
 "On each connection fstrm_capture answers a READY with a matching content type with ACCEPT, then requires a matching START, writes data frames only between START and STOP, and answers STOP with FINISH, closing the connection only once that has been sent; any malformed, out-of-order or non-matching frame closes the connection. A frame is processed only once it has fully arrived; a frame larger than the read buffer limit that has not fully arrived is discarded, exactly in full whatever the segmentation, and nothing else is discarded, for every announced length that is not rejected as unrepresentable.",
 ["inputs", "histories"], "all byte streams on a connection, all segmentations",
 "The program tests use well-behaved writers only.",
 ["src/fstrm_capture.c"], [("state machine", "process_control_frame"), ("frame arrival", "can_read_full_frame"), ("skipping", "cb_read")],
 ["evbuffer and bufferevent calls", "output writes"])

prop("C25", "fstrm_capture frees each connection exactly once and keeps count",
 "Each accepted connection is freed exactly once, together with its per-connection state, neither is used afterwards on any callback path, and a connection whose setup fails is closed without being counted. The listener is disabled exactly when the last permitted connection is accepted and enabled again when one is closed, so the number of open connections never exceeds the configured maximum and never gets stuck below it.",
 ["histories", "fault_sequences"], "all sequences of callbacks",
 "Use-after-free in error paths and accounting errors need misbehaving clients.",
 ["src/fstrm_capture.c"], [("close", "cb_close_conn"), ("accept", "cb_accept_conn")],
 ["bufferevent_free, evconnlistener_enable/disable calls"])

prop("C26", "fstrm_dump and fstrm_replay report success only for complete, successful copies",
 "fstrm_dump exits successfully only if the input was opened, every frame was read until the reader reported the end of the stream and (with an output file) written there unchanged and in order under the input's content type, and the output was opened and closed successfully; fstrm_replay writes exactly the frames it reads from each input file whose content type matches (files that cannot be opened or do not match are skipped with a warning), stops with a failure status if a write fails, and exits unsuccessfully if the connection cannot be set up or the final close handshake fails.",
 ["inputs", "fault_sequences"], "all inputs and write failures",
 "The program tests run them on valid files and check the output of the success case.",
 ["src/fstrm_dump.c", "src/fstrm_replay.c"], [("read/write loop", "main / process_file"), ("cleanup", "main")],
 ["exit status", "fstrm_writer_write / fstrm_writer_close calls"])

prop("C27", "Every documented public function exists and is exported",
 "Every function declared in the installed public headers is defined in the library sources with the declared type and is listed in the exported-symbol file, every listed symbol is defined, nothing else (in particular no internal, double-underscore symbol) is exported, and the installed headers include no uninstalled header of the project.",
 ["configurations"], "all public functions",
 "The tests link only the functions they use, several of them statically.",
 ["fstrm/libfstrm.sym", "fstrm/fstrm.h"], [("export list", "fstrm/libfstrm.sym")],
 ["symbol table"])

prop("C28", "fstrm_capture listens exactly where its command line says, or changes nothing",
 "For every combination of options, fstrm_capture either refuses the command line (no content type, no output name, neither a Unix path nor an address, an address without a port, an unparsable address or port, a path too long for a socket, standard output that is a terminal or is to be split, both calendars, splitting without one, or --help) and exits unsuccessfully before removing, creating, writing or listening on anything; or it removes only the given socket path, writes only the given output, listens once, on exactly the given Unix path or the given address and port, and runs its event loop, exiting successfully only after that and unsuccessfully if any of these steps fails.",
 ["configurations", "inputs", "fault_sequences"], "all combinations of options, all ports, every failing set-up step",
 "The program tests start it with two valid command lines.",
 ["src/fstrm_capture.c"], [("validation", "parse_args / usage"), ("address", "open_read_unix / open_read_tcp"), ("set-up", "main / setup_event_loop")],
 ["remove, open, fwrite and evconnlistener_new_bind calls", "exit status"])

prop("C29", "Library objects share nothing and leave the rest of the process alone",
 "No library function, on any path, writes to static storage, calls a C library function that may not be called by several threads at a time, changes process-wide state (signal dispositions, environment, locale, working directory, umask, identity, limits, the standard streams), prints to the standard streams, starts or ends a process, or changes the signal mask or other attributes of the thread that calls it (the I/O thread changes its own only). So distinct objects may be used by distinct threads, and an application is not affected otherwise.",
 ["schedules", "histories"], "all calls of the library by any number of threads",
 "The tests use one object of a kind at a time and do not look at the process around it.",
 ["fstrm/iothr.c", "fstrm/file.c", "fstrm/control.c", "fstrm/reader.c", "fstrm/writer.c", "fstrm/rdwr.c", "fstrm/tcp_writer.c", "fstrm/unix_writer.c", "fstrm/time.c", "libmy/my_queue_mb.c", "libmy/my_queue_mutex.c"],
 [("thread attributes", "fstrm__iothr_thr_setup")],
 ["calls of C library functions", "writes to static storage"])

prop("C30", "Signals end, flush or rotate fstrm_capture whenever they come, and SIGPIPE never ends it",
 "While its event loop runs, fstrm_capture ignores SIGPIPE; SIGTERM and SIGINT each end the loop whenever they come, so that the output is completed; every SIGHUP flushes the output and every SIGUSR1 rotates it, without ending the program; and no signal handler proper calls anything that is not async-signal-safe or writes data shared with the rest of the program that is neither volatile nor atomic.",
 ["schedules", "histories"], "every moment a signal can come at",
 "Tests send a signal to an idle program at most; a signal that interrupts an allocation or comes just before the wait is not reproducible.",
 ["src/fstrm_capture.c"], [("signal events", "setup_event_loop"), ("dispositions", "setup_signals")],
 ["sigaction, event_new/event_add and event_base_loopexit calls", "calls reachable from signal handlers"])

prop("C31", "File readers and writers use the named file and store every byte once, in order, or fail",
 "A file reader or writer opens, at every open and not before, exactly the path last set in its options - the reader for reading, the writer created or truncated for writing - or the standard stream when the path is \"-\" and only then; without a path none is created. A write reports success only if every byte of every buffer was accepted by the file, once and in order; after a write that failed part-way nothing more is written to that file. Closing closes the file once and reports its failure, and no file stays open once the reader or writer is destroyed.",
 ["inputs", "fault_sequences"], "every path, every number and size of buffers, and every call at which the file accepts less or fails",
 "Tests write small files to a working disk; no test sees a full disk, a failing close or a path close to \"-\".",
 ["fstrm/file.c"], [("open", "fstrm__file_op_open"), ("write", "fstrm__file_op_write"), ("close", "fstrm__file_op_close"), ("modes", "fstrm_file_writer_init")],
 ["fopen, fwrite and fclose calls"])

prop("C32", "Threads share an I/O thread object without data races",
 "From the moment fstrm_iothr_init() starts the I/O thread until fstrm_iothr_destroy() has joined it, any memory of the object that the I/O thread, any number of producers calling fstrm_iothr_submit(), fstrm_iothr_get_input_queue() or fstrm_iothr_get_input_queue_idx(), its creator and its destroyer access at the same time, at least one of them writing, is accessed by all of them under one common lock or as a volatile or atomic object. The writer is used, and payloads are removed from the input queues, by the I/O thread alone (and by the destroyer after the join), and the I/O thread never inserts.",
 ["schedules"], "every interleaving of the threads, every argument of the producers' functions",
 "A race shows in rare interleavings, if at all; the tests run one producer per queue for a moment and cannot see an access that merely was lucky.",
 ["fstrm/iothr.c"], [("shutdown flag", "fstrm_iothr_destroy"), ("producers", "fstrm_iothr_submit"), ("queue counter", "fstrm_iothr_get_input_queue"), ("thread", "fstrm__iothr_thr")],
 ["accesses to the object's memory by role and lock"])

prop("C33", "fstrm_dump prints every frame, whole and escaped",
 "For every data frame it reads, fstrm_dump prints exactly one line on standard output, in order and before it reads on: a space, a double quote, the frame's bytes in order, a double quote and a newline. A printable byte (0x20 to 0x7e) appears as itself, a double quote preceded by a backslash, and any other byte as \\x and two lower-case hexadecimal digits. Nothing else goes to standard output, and if the program exits successfully no frame is missing.",
 ["inputs"], "any sequence of frames, every value of every byte, zero bytes and bytes above 0x7f included",
 "The tests compare dumps of a few frames of text; sign extension, embedded zero bytes, long frames and characters that look like the quoting itself do not occur in them.",
 ["src/fstrm_dump.c", "libmy/print_string.h"], [("frame line", "print_data_frame"), ("escapes", "print_string"), ("loop", "main")],
 ["characters written to standard output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
