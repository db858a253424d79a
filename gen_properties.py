#!/usr/bin/env python3
"""Writes properties.jsonl (single source for titles/statements)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
        why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=hook)))
S="src/shr.c"; B="lib/bw.c"; U="lib/ux.c"; T="util/shr-tool.c"
p("C01","Messages come out intact, in order, exactly once (no drop mode)",
 "In a ring created without drop or farm mode, the messages returned by reads are exactly the messages accepted by writes: same bytes, same boundaries, same order, none lost, duplicated, merged, split or invented. This holds for every mix of shr_write, shr_writev, shr_read and shr_readv, every ring size and message-slot limit, every number of wrap-arounds, and across closing and reopening either end.",
 ["inputs","histories","configurations"],"every history of single and vectored writes and reads, of any message lengths, on any ring size and slot count, by any number of handles used one call at a time",
 "The tests replay about a hundred fixed scripts on a handful of ring sizes; wrap position, slot wrap and message length interact, and only a search over all of them reaches every combination.",
 [S],[("message vector and byte offsets",S+": shr_writev, shr_readv, next_msg_info")],
 [("ring bytes/slots","positions of unread messages",S+": shr_ctrl")],["shr_read","shr_readv","shr_write","shr_writev"])
p("C02","Writes and reads are all-or-nothing and respect exact capacity limits",
 "A non-blocking write to a non-drop ring succeeds exactly when the free bytes and free message slots suffice for all its messages; otherwise it returns 0 and changes nothing. A write that is empty, contains an empty message, or can never fit in the ring returns -1 and changes nothing; a read whose buffer cannot hold the next message returns -2 and leaves it unread, and a vectored read returns exactly the longest run of whole messages that fits the buffer and the iovec array.",
 ["inputs","histories","configurations"],"every ring fill state and position, every write shape and read buffer size around the limits",
 "Boundary behaviour depends on the joint position of data, slots and the request; tests sample few boundary fills.",
 [S],[("free space and slot check",S+": shr_writev"),("buffer and iovec limits",S+": shr_readv")],None,["shr_write","shr_writev","shr_read","shr_readv"])
p("C03","Drop mode discards only the oldest unread messages, and only as needed",
 "In a drop-mode ring every write that fits the ring at all succeeds immediately, discarding the smallest number of oldest unread messages that makes room. The surviving unread messages are then read intact and in order, and the dropped message and byte counters grow by exactly what was discarded.",
 ["inputs","histories","configurations"],"every history of writes, batched writes and reads in drop mode, over ring sizes, slot limits and message lengths",
 "Which slots and bytes get reclaimed depends on the full history of read, unread and overwritten messages; tests cover a few hand-made layouts.",
 [S],[("drop_unread and eldest-slot advance",S+": drop_unread, shr_writev")],None,["shr_read","shr_stat"])
p("C04","Every farm reader gets the whole ordered stream, losses exactly counted",
 "In a farm ring each reader independently receives, intact and in order, every message from the oldest one the ring still held when it opened onwards, regardless of what other readers do. If a reader falls behind and messages it has not read are evicted, it continues at the oldest surviving message, and shr_farm_stat reports exactly the number of messages it had missed when it last read, since the last reset.",
 ["inputs","histories","configurations"],"every history of writes, reads by several readers opened at any time, and farm statistics resets",
 "Reader position, slot reuse and eviction interact over long histories and several readers; tests use a few scripted ones.",
 [S],[("per-reader sequence numbers",S+": next_msg_info, shr_open"),("shr_farm_stat",S)],None,["shr_read","shr_readv","shr_farm_stat"])
p("C05","A buffered writer loses, duplicates and reorders nothing",
 "Messages accepted by a buffered writer reach the ring exactly once, whole and in the order accepted: by the time shr_flush or shr_close has succeeded they are all readable, ahead of anything that handle writes later. A flush or write that cannot proceed in non-blocking mode returns 0 and keeps every message cached earlier, and the cached byte and message counts reported for the handle are exact.",
 ["inputs","histories","configurations"],"every history of buffered writes, batched writes, flushes, closes and reads, for messages smaller and larger than the cache, in blocking, non-blocking and drop mode",
 "Cache overflow, oversized messages, full rings and flush order combine; the tests run single scripted sequences.",
 [S],[("write cache",S+": init_cache, shr_writev, shr_flush, shr_close")],None,["shr_write","shr_flush","shr_close","shr_stat"])
p("C06","Statistics account exactly for ring contents and traffic",
 "After any history shr_stat reports exactly the bytes and messages written, read and dropped since the last reset, the current unread bytes and messages, the ring's size and slot limit, and the attributes it was created with. A reset zeroes only the period counters and records the given start time, reporting the values from before the reset.",
 ["histories","inputs","configurations"],"every history of operations and resets, including failed and partial ones, in every ring mode",
 "Counters must agree with every path (drop, wrap, batch, failure); tests print them at a few points.",
 [S],[("stat counters",S+": shr_stat, shr_writev, shr_readv, drop_unread")],None,["shr_stat"])
p("C07","Operations of concurrent processes are atomic",
 "When several processes operate on one ring concurrently, every schedule is equivalent to running their operations one at a time in some order consistent with real time. In particular each message is delivered to exactly one reader (every reader in farm mode), batches are never interleaved with other writers' messages, and statistics are consistent snapshots.",
 ["schedules","programs"],"all interleavings of two or three processes each running short programs of reads, writes, batched operations, statistics, flushes and application-data access",
 "A test run observes one schedule; a missing or misplaced lock shows only under particular preemptions.",
 [S],[("file lock around ring access",S+": lock, unlock")],None,["all ring operations"])
p("C08","No lost wakeups: blocked readers and writers wake when they can proceed",
 "A blocking read returns once an unread message is available, and a blocking write returns once enough space is available, whatever the schedule of the other processes. No interleaving leaves a process asleep while its operation could complete.",
 ["schedules","programs"],"all interleavings of blocking readers, blocking writers, non-blocking peers, openers and closers",
 "A lost wakeup needs an exact race between the check, the sleep and the wake; tests sleep for whole seconds between steps.",
 [S,B],[("bw wait/wake under the ring lock",S+": shr_readv, shr_writev; "+B+": bw_wake, bw_wait_ul")],None,["shr_read","shr_write","shr_flush"])
p("C09","The selectable descriptor is readable whenever unread data is available",
 "For a reader opened non-blocking, the descriptor from shr_get_selectable_fd is readable whenever the ring holds a message that reader could read, including right after opening and after reading only some messages. After a read by that reader that leaves nothing to read, it is not readable until another write occurs; for any other kind of handle the call returns -1.",
 ["histories","schedules","configurations"],"every history and schedule of writers and readers, for plain, drop and farm rings",
 "Readiness is the result of queued wakeups, drains and forced wakeups over a whole history; tests poll at a few points.",
 [S,B],[("bw_force after reads and at open",S+": shr_readv, open_blockwake; "+B+": bw_force")],None,["shr_get_selectable_fd"])
p("C10","Non-blocking calls never wait; blocked calls heed a registered descriptor",
 "A read or write on a non-blocking handle always returns without waiting for another process's data or space. A blocking read or write that has to wait really sleeps, and returns -3 without consuming or writing anything when a descriptor registered with shr_ctl becomes readable while it is blocked; the handle stays usable.",
 ["histories","schedules"],"every history in which calls block or would block, with the registered descriptor becoming ready at any point",
 "The result depends on what is ready when; tests cover one signal delivery.",
 [S,B],[("SHR_NONBLOCK checks and bw_ctl",S+": shr_readv, shr_writev, shr_ctl; "+B+": bw_wait_ul")],None,["shr_read","shr_write","shr_ctl"])
p("C11","Killed processes never wedge the ring for the survivors",
 "If a process using the ring is killed at any system call, idle or blocked, the others continue: the lock is released, writes are not failed by the dead process's registration, surviving blocked peers still wake when they can proceed, and unread messages committed before the kill are still delivered. The message being transferred by the killed call is delivered wholly or not at all.",
 ["crash_points","schedules"],"a kill of any one process at every system-call boundary of every interleaving of short programs, including reuse of its process id by another process",
 "Tests kill nothing inside a call and cannot place a kill between two system calls.",
 [S,B,U],[("kernel-released file lock, stale waiter pruning",B+": prune_handle, open_socket, wake_one; "+U+": has_pid_socket")],None,["all ring operations after the kill"])
p("C12","Up to 64 waiters; registrations are released and reused",
 "Exactly 64 readers (and 64 blocking writers) can have a ring open at once: one more is refused without disturbing the others, and every one of the 64 is woken by a write. Closing a handle or the death of its process frees its place for a new opener, for any order of opens and closes, and handles reusing a place are woken like any other.",
 ["histories","configurations"],"open, close and death sequences at the table limit and every order of open/close/reopen for a few handles interleaved with writes",
 "Tests never fill the table, and reuse patterns are order-dependent.",
 [B,S],[("waiter slots with sequence number",B+": bw_reserve, bw_sync, bw_close, prune_handle")],None,["shr_open","shr_close","bw_open","bw_close"])
p("C13","Block/wake library: a wake reaches every waiter, forcing sets readiness",
 "bw_wake makes the descriptor of every handle open for waiting readable, whatever was opened, closed or woken before, and a wait returns promptly if its descriptor is ready and otherwise only after a wake, a force or a registered descriptor. bw_force sets the caller's own descriptor readable or clears it completely, regardless of how many wakeups are pending, and affects no other handle.",
 ["histories","schedules"],"every history of opens, wakes, waits, forces, readies and closes of a few handles, with any number of pending wakeups up to the socket queue limit and beyond",
 "The library has no unit tests of its own.",
 [B],[("datagram wakeups",B+": bw_open, bw_wake, bw_sync, bw_force, bw_wait_ul, bw_ready_ul, bw_close")],None,["bw_open descriptor","bw_wait_ul"])
p("C14","A failing system call never corrupts the ring or half-applies a call",
 "If any system call or allocation inside an operation fails, the operation either completes normally or reports an error having had no effect on messages, statistics or application data (the one exception: on a SHR_SYNC ring the final msync happens after the operation has been applied, so its failure is reported for an applied operation). It never leaves the ring locked, leaks nothing when an open or create fails, never crashes, and later operations by any process behave correctly.",
 ["fault_sequences","histories"],"one or two failures injected at every fallible system call and allocation of every short history",
 "Tests never make a system call fail.",
 [S,B,U],[("error paths",S+": every done: label; "+B+", "+U)],None,["return values and later operations"])
p("C15","Application data round-trips exactly and is isolated from messages",
 "shr_appdata returns exactly the application data given at creation or last set, in an allocated buffer or in any caller buffer at least as large as the data, without touching memory beyond the data's length; smaller buffers and sizes that do not match when setting are refused with no effect, and get-and-set returns the old value and stores the new one. No message traffic alters application data and setting it alters no message.",
 ["inputs","histories","configurations"],"every application data size and buffer size, interleaved with any ring traffic, in every ring size and alignment",
 "Tests use one or two sizes that match exactly.",
 [S],[("appdata region",S+": shr_init, shr_appdata")],None,["shr_appdata"])
p("C16","Creating a ring honours its configuration and never harms an existing one",
 "A successful shr_init yields an empty ring with exactly the requested size, slot limit, attributes and application data, usable up to exactly those limits; invalid arguments and configurations whose size is not representable are refused and leave no file. With keep-exist an existing ring is left untouched; without it the file is replaced while processes that already have the old ring open continue on it undisturbed.",
 ["configurations","histories"],"every combination of flags, sizes, slot limits and application data sizes including extreme ones, before and after prior creations, opens and traffic",
 "Tests create a few fixed configurations.",
 [S],[("ring layout",S+": shr_init")],None,["shr_init","shr_open","shr_stat"])
p("C17","Opening an invalid or damaged ring is refused cleanly",
 "shr_open returns NULL, without crashing, leaking or altering the file, for a missing, empty, truncated (to any length) or foreign file and for any invalid combination of flags. On a valid ring it succeeds at every point of the ring's history, after any traffic and number of reopenings, and preserves the unread contents.",
 ["inputs","configurations","histories"],"every truncation length of a ring file, every single-byte change of its signature, every flag combination, and opening at every reachable ring state",
 "Tests open only valid rings with valid flags.",
 [S],[("validate_ring, validate_flags",S)],None,["shr_open"])
p("C18","shr-tool pub and sub carry frames exactly over TCP",
 "Whatever partial transfers the network makes, shr-tool pub sends each ring message as one length-prefixed frame (or bare bytes with -P), in order, and shr-tool sub stores exactly the received frames, in order, as messages in its ring. Oversized or otherwise malformed frames end the subscriber with an error and never crash it or store anything but complete, well-formed frames; a disconnecting client does not stop the publisher.",
 ["inputs","schedules"],"every segmentation of the byte stream and every partial-write pattern for short frame sequences, plus boundary frame sizes and malformed frames",
 "No test runs the tool.",
 [T],[("handle_io, decode_frames, do_subscriber",T)],None,["bytes on the socket","ring contents"])
p("C19","shr-tool tee copies every message to both rings",
 "shr-tool tee copies every message of the source ring, exactly once, intact and in order, to both destination rings, whatever the arrival pattern of messages.",
 ["inputs","schedules"],"every short arrival pattern of messages while tee runs, with any readiness order",
 "No test runs the tool.",
 [T],[("handle_io tee mode",T)],None,["destination rings"])
p("C20","shr-tool read, write and hex commands transfer exact bytes",
 "shr-tool write, writehex and writefile add exactly the given lines, bytes or file as messages, and read and readhex output exactly the messages they consume, in order, whatever partial or failing writes the output makes. Invalid hex input adds nothing, read -N stops after N messages leaving the rest unread, an output error ends the command, and status reports the ring's true counters.",
 ["inputs","fault_sequences"],"every short message sequence, option combination and pattern of partial or failing output writes",
 "No test runs the tool.",
 [T],[("handle_io, unhex, main",T)],None,["standard output","ring contents"])
p("C21","Creating and opening concurrently never exposes a half-made ring",
 "However shr_init and shr_open by different processes interleave on one path, an open either fails or yields a fully initialised ring of the requested configuration on which operations behave normally. Concurrent creations leave exactly one usable ring at the path.",
 ["schedules"],"all interleavings of one or two creators with one or two openers that then use the ring",
 "Tests create the ring before starting other processes.",
 [S],[("exclusive creation and initialisation under lock",S+": shr_init, shr_open")],None,["shr_open","shr_init"])
p("C22","Closing a handle releases everything and disturbs nobody",
 "After shr_close (or a failed open or create) the process holds no descriptor, memory mapping, allocation, lock or waiter registration on account of that handle, for every prior history of the handle. Other handles on the ring, including in the same process, are unaffected.",
 ["histories"],"every short history of operations on one or two handles ended by close, in every mode",
 "Tests exit right after closing, so a leak or a stale registration is invisible.",
 [S,B],[("shr_close, bw_close",S+", "+B)],None,["descriptor table, mappings, heap, waiter table"])
p("C23","A SHR_SYNC ring survives power loss after each completed operation",
 "On a ring created with SHR_SYNC, once an operation that changes the ring (through a handle whose attributes include SHR_SYNC) has returned, a power failure that keeps only explicitly synced contents loses none of its effect: reopening the ring yields the same unread messages, statistics and application data. A power failure during an operation leaves the ring as it was before or after that operation.",
 ["crash_points","histories"],"a power failure at every system-call boundary of every short history of operations on a SYNC ring",
 "Tests never simulate power loss.",
 [S],[("msync after each operation under lock",S+": shr_sync")],None,["ring contents after reopening"])
p("C24","shr-tool create makes exactly the requested rings",
 "shr-tool create makes, for every file named, a ring with exactly the size (including k/m/g/t suffixes), slot limit, modes and application data asked for, ready for use. With the keep-exist mode an existing ring keeps its contents; unparsable or unrepresentable sizes, unknown modes, unreadable application-data files and contradictory modes end the command with a nonzero status without leaving a ring file for the refused name.",
 ["inputs","configurations","fault_sequences"],"every combination of size, slot and mode arguments around the parsing limits, with and without application data and existing rings, for one or two files",
 "No test runs the tool.",
 [T],[("size, mode and file parsing",T+": main"),("ring creation",T+": main; "+S+": shr_init")],None,["ring files","exit status"])
p("C25","shr-tool mount mounts, populates and reports exactly the RAM disk asked for",
 "For a usable directory, shr-tool mount mounts exactly one file system of the requested type (ramfs by default) with the given size limit on it, then makes exactly the requested subdirectories inside it and sets the huge-page option asked for. It does nothing to a directory that already is a RAM disk; -u unmounts exactly that directory; -q reports type, size and use and changes nothing. Any failing step, unusable directory, unparsable size or unknown type ends the command with a nonzero status without taking later steps.",
 ["inputs","configurations","fault_sequences"],"every command line of the mount command over a small alphabet of options, types, sizes and subdirectory lists, for every kind of directory, with each step failing",
 "No test runs the tool; mounting needs root.",
 [T],[("mount, unmount and query",T+": mount_ramdisk, unmount_ramdisk, query_ramdisk, make_subdirs"),("option parsing",T+": main, ramdisk handling")],None,["mounted file systems","directories","exit status","output"])
p("C26","shr-tool performs only the command it is given; unknown commands run exactly their delegate",
 "Any shr-tool command line either performs the one command it names on the rings and files it names or ends with a nonzero status; it never crashes and never changes a ring or file it does not name. Missing or unknown commands, unknown options and missing ring arguments change nothing. An unknown command is delegated only to an executable named like the tool followed by a dash and that command (never a truncated or other name), which then receives the remaining arguments unchanged; a known command is never delegated.",
 ["inputs","configurations"],"every command line of up to four words over an alphabet of commands, options, ring and file names; tool paths and command names of lengths around the path limits; delegates that are missing, not executable or fail to start",
 "No test runs the tool.",
 [T],[("command dispatch",T+": main, find_command, exec_command"),("option parsing",T+": main")],None,["ring files","program executed and its arguments","exit status"])
p("C27","A signal that interrupts a waiting call loses nothing",
 "If a signal handler runs while a call sleeps (waiting for the lock, for data or for space), the call either carries on as if nothing happened or returns an error having had no effect on the ring. No message, wakeup, statistic or drop count is lost or duplicated, no other process is left asleep by it, and the handle stays usable. A close interrupted while waiting for the lock still flushes what was accepted and releases everything it holds.",
 ["schedules","faults"],"every interleaving, up to the stated preemption bound, of readers, writers and closers in which any sleeping system call may be interrupted, and how often",
 "Tests send no signals; whether a sleep is interrupted depends on timing.",
 [S,B],[("waiting for the lock",S+": lock"),("waiting for data or space",B+": bw_wait_ul")],None,["ring contents","return values","wakeups","descriptors"])
p("C28","A memory-locked ring is locked wholly and exactly while open",
 "While a ring created with SHR_MLOCK is open, every page of it is locked in memory in every process that has it open, from the moment the open returns until that handle is closed; closing leaves nothing locked and does not unlock other handles. Rings without the attribute are never locked. The attribute of the ring actually opened counts, also after keep-exist or replacement. An open that would exceed the memory-lock limit is refused and leaves nothing behind.",
 ["histories","configurations"],"every short history of creating, replacing, opening, using and closing rings of several sizes and modes in several processes, under several lock limits",
 "Tests never look at locked memory and run without a limit.",
 [S],[("mlock at open",S+": shr_open")],None,["locked pages of each process","shr_open result"])
p("C29","Calls touch only the memory they are entitled to",
 "Whatever the history, a call reads and writes only: caller buffers within the lengths given (output arrays up to the count given), the library's own live allocations, and the ring's file within its size. It never modifies data passed in for writing (buffers, iovecs, paths, application data), and keeps no reference to caller memory after it returns.",
 ["histories","inputs","schedules"],"every sequence of calls up to a depth in every mode, with all caller memory freshly allocated at its exact size and released after the call, and every access of the library checked",
 "Tests use generous static buffers and no memory checker; stray accesses go unnoticed.",
 [S,B],[("copying in and out of the ring",S),("waiter lists and scratch buffers",B)],None,["memory accesses","caller buffers"])
p("C30","shr-tool pub and sub use exactly the address they are given",
 "shr-tool pub listens on exactly the address and port given (all interfaces if only a port is), and sub connects to exactly the host and port given. A port that is not a number from 1 to 65535, an unresolvable host, or sub without a host is refused with a nonzero status, no message consumed or stored. If any step of setting up the connection fails the command ends with a nonzero status. A publisher can be restarted at once on the same port.",
 ["inputs","configurations","fault_sequences"],"every combination of address and port spellings around the limits with every resolver answer, and each step of setting up the socket failing",
 "No test runs the tool.",
 [T],[("address parsing and sockets",T+": parse_spec, setup_listener, setup_subscriber")],None,["addresses passed to bind and connect","exit status","ring contents"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
