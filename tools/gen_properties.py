import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The log generator's output does not depend on how pipes deliver data",
 "For any four-byte ECU and application id, any payload size from 1 to 65517 bytes and any input, dd_dlt writes exactly one well-formed log message per complete input block, in input order, byte for byte the same however the input arrives in pieces and however the output accepts pieces (short reads, short writes, interrupted calls), and then exits with success. "
 "Message k (from 0) is a 16-byte storage header (marker, k/100 seconds, (k mod 100)*10000 microseconds, the ECU id), then a standard header with extended header and timestamp flags, protocol version 1, counter k mod 256 and the message length, the timestamp k*100, an extended header (verbose log message of level info, no arguments, the application id as application and context id) and block k as payload. "
 "An incomplete last block produces no message.",
 ["schedules","fault_sequences","inputs"],
 "every sequence of read sizes, write acceptance sizes and interrupted calls on stdin/stdout, for every input length, payload size and id pair",
 "dd_dlt has no tests of its own; the generated fixtures only see the full-block reads and unlimited writes of a pipe or a regular file on one machine",
 ["dd_dlt/src/main.rs","rapiddlt/src/dlt_v1.rs"],
 [("block read loop","dd_dlt/src/main.rs main: read_exact"),("record emission","dd_dlt/src/main.rs main: stdout writes"),("header encoders","rapiddlt/src/dlt_v1.rs DltStorageHeader::new, DltStandardHeader::new, DltHTyp::new, DltExtendedHeader::new, MessageType::create_message_type")],
 [("count","index of the message, source of counter and times","dd_dlt/src/main.rs main")],
 ["bytes accepted by stdout","exit status"],None)

p("C02","The log generator never hides failed input or output",
 "If reading the input fails, or the output refuses bytes at any point including the last flush (I/O error, full disk, closed pipe), dd_dlt exits with a failure status and what the output accepted is a prefix of the correct output for that input; it exits with success only if every message of every complete block was accepted, also when memory runs out. "
 "A payload size that is no number, zero or too large for a DLT message, or an id that does not have four bytes (if there is a block to write), is refused with a failure status and no output.",
 ["fault_sequences","crash_points","inputs"],
 "every failing read or write at every point of the run, every disk capacity, combined with every chunking",
 "no test runs dd_dlt against a failing stream; a fault has to land inside a record or in the buffered tail at exit",
 ["dd_dlt/src/main.rs"],
 [("stdout writes","dd_dlt/src/main.rs main"),("end-of-input detection","dd_dlt/src/main.rs main: match on read_exact"),("argument check","dd_dlt/src/main.rs main: payload_size")],
 [("stdout buffer","bytes not yet accepted by the output","std stdout in dd_dlt")],
 ["bytes accepted by stdout","exit status"],None)

p("C03","Loading a log file yields its exact bytes or an error",
 "Opening a log by buffered reading or by memory mapping yields a buffer whose contents and length are exactly the bytes of the file, also for an empty file, no matter how the operating system splits or interrupts the reads; if opening, reading or mapping fails, the caller gets an error and never a shorter or different buffer. "
 "If a logger appends to the file while it is being loaded, the buffer is a prefix of the grown file that contains at least everything stored before loading began.",
 ["fault_sequences","schedules","inputs"],
 "every file content and length, every placement of short reads, interrupted calls, I/O errors and concurrent appends during the load",
 "tests load intact local files whose reads all succeed; they cannot place an error or a short read in the middle of a load",
 ["rapiddlt/src/dltbuffer.rs"],
 [("buffered load","rapiddlt/src/dltbuffer.rs DltBuffer::read_file"),("mapped load","rapiddlt/src/dltbuffer.rs DltBuffer::mmap_file"),("access","rapiddlt/src/dltbuffer.rs DltBuffer::as_slice, DltBuffer::len")],
 None,["result of the load call","buffer contents"],None)

p("C04","A crash while logging loses at most the unfinished last message",
 "If a logger stops at any instant, so that the log file holds the stored messages cut off after an arbitrary byte, every way of reading the file from its start (sequential reading, strict reading without resynchronisation, forward marker search, and backward marker search in reverse order) reports exactly the messages that are wholly in the file, in stored order, at their true offsets and byte for byte as stored, and then ends. "
 "This holds for every mix of message layouts and sizes up to the maximum, as long as payloads do not contain the message marker.",
 ["crash_points","histories"],
 "every history of messages from any number of sources and every cut point of the resulting file",
 "fixtures are complete files plus one torn buffer; the cut positions inside headers, at boundaries and inside payloads of arbitrary logs are not reached",
 ["matchit/src/readit.rs","matchit/src/searchable/readfallbackit.rs","matchit/src/searchable/searchit.rs","rapiddlt/src/dlt_v1.rs"],
 [("length validation","rapiddlt/src/dlt_v1.rs DltEntry::try_read"),("sequential iteration","matchit/src/searchable/readfallbackit.rs ReadFallbackIterator::next"),("strict iteration","matchit/src/readit.rs ReadIterator::next"),("search","matchit/src/searchable/searchit.rs SearchIterator, RevSearchIterator")],
 None,["(offset, message) pairs of each iterator"],None)

p("C05","Reading a damaged log resumes at the next readable message",
 "Whatever happened to the stored bytes (flipped bits, zeroed or lost sectors, records torn by a crash and followed by appended ones, duplicated or misplaced blocks, inserted garbage), sequential reading from any start offset reports exactly this chain and then ends: the first position at or after the start, respectively at or after the end of the previously reported message, at which a complete message stands (marker, both headers, a declared length of at least the standard header that fits in the file). "
 "Each is reported with its true offset and exactly its bytes, so every undamaged message that no earlier reported message's declared length reaches is reported; a reader that stops after any message and resumes at its end reports the same rest. Strict reading, which does not resynchronise, reports exactly the unbroken run of complete messages that begins at its start offset.",
 ["fault_sequences","crash_points","histories"],
 "every log history and every sequence of storage faults, every start offset and every stop/resume point of the reader",
 "one fixture with garbage lines between two copies of a file; no damaged header, length, torn-then-appended record or embedded message is exercised",
 ["matchit/src/searchable/readfallbackit.rs","matchit/src/searchable/mod.rs","rapiddlt/src/dlt_v1.rs"],
 [("fallback to marker search","matchit/src/searchable/readfallbackit.rs ReadFallbackIterator::next"),("marker search","matchit/src/searchable/mod.rs search_marker"),("length validation","rapiddlt/src/dlt_v1.rs DltEntry::try_read"),("entry points","rapiddlt/src/dlt_v1.rs dltit, dltit_offset")],
 [("offset","next unread byte","ReadFallbackIterator::offset")],["(offset, message) pairs"],None)

p("C06","Partitioning a log loses nothing and splits no message",
 "For any log, damaged or not, with messages of any size, and any requested number of partitions from 1 up, the partitions are non-empty and their concatenation is exactly the log, and no partition boundary falls inside a message that sequential reading of the whole log reports; reading the partitions one after another therefore reports exactly the messages of the whole log at the same places. "
 "Looking up the message that contains a byte range which does not start with it finds exactly the message sequential reading reports there, and none if none contains the range. "
 "Partitioning ends within a bounded number of steps, there are at most four times as many partitions as requested, and no partition is larger than twice an even share (rounded up) plus the largest message.",
 ["fault_sequences","inputs","configurations"],
 "every log history, every sequence of storage faults, every number of partitions including more than there are messages or bytes",
 "tests partition three fixed large files with 4, 215 and 500 partitions; small logs, messages longer than a partition, messages near the maximum size and damage around a boundary are not reached",
 ["matchit/src/lib.rs","rapiddlt/src/dltbuffer.rs","rapiddlt/src/dlt_v1.rs"],
 [("boundary choice","matchit/src/lib.rs partition_from"),("containing message search","matchit/src/lib.rs ContainedBySearch::contained_by"),("look-back window","rapiddlt/src/dlt_v1.rs FromBytesReadableTrait::max_len"),("entry point","rapiddlt/src/dltbuffer.rs DltBuffer::partition")],
 None,["returned partitions"],None)

p("C07","Parallel processing gives the sequential answer under every schedule",
 "For every log, intact or damaged, every number of CPUs, every size of the thread pool and every scheduling of the worker threads, the parallel commands of ripdlt end and print what their sequential counterparts print: the same number of messages, of messages containing the searched text, of messages found by pattern search (the latter for logs whose messages do not embed the message marker), and for the per-source timestamp split the same sources with the same message totals. "
 "The parallel timestamp histograms are those of the partitions added up, so a partition boundary may cut a period in two but no period is lost or invented. Nothing printed depends on the schedule, except the order of the lines par_iter prints, one per partition. A command that cannot get memory or threads, or cannot read its file, does not report success unless its figures are right, and one that cannot write its output never does.",
 ["schedules","configurations","fault_sequences"],
 "every interleaving of the worker threads at memory-access granularity, every CPU count, every log and storage fault",
 "no test runs a parallel command; real runs see one CPU count and the handful of interleavings the machine happens to produce",
 ["ripdlt/src/main.rs","matchit/src/lib.rs","rapiddlt/src/dltbuffer.rs"],
 [("fan-out and sum","ripdlt/src/main.rs multithreaded"),("histogram reduction","ripdlt/src/main.rs par_continuous_timestamp_histogram, par_timestamp_splitit"),("partitioning","matchit/src/lib.rs partition_from")],
 [("accumulated result","per-partition results combined in tree order","reduce closures in ripdlt/src/main.rs")],["stdout and exit status of ripdlt"],None)

p("C08","No damage makes a reader crash, hang or read outside a message",
 "Whatever the bytes of a log, every reading operation (sequential, strict, forward and backward iteration also past its end, partitioning, containment lookup, pattern and capture search, and every field accessor of every reported message) returns normally within a number of steps bounded by the log's size, and every ripdlt command ends with success on it. "
 "A field of a message is reported only if it lies wholly inside that message, and then with the value stored there; otherwise it is reported as absent.",
 ["fault_sequences","crash_points","inputs"],
 "every log history and every sequence of storage faults, every operation, every ripdlt command",
 "tests decode well-formed messages and all-zero or empty buffers; flags that promise more fields than the declared length holds do not occur in the fixtures",
 ["rapiddlt/src/dlt_v1.rs","matchit/src/lib.rs","matchit/src/searchable/grepit.rs","matchit/src/searchable/searchit.rs","matchit/src/searchable/readfallbackit.rs","ripdlt/src/main.rs"],
 [("field accessors","rapiddlt/src/dlt_v1.rs DltEntry::ecu_id, timestamp, extended_header, payload"),("iterator termination","matchit/src/searchable/*.rs next"),("containment lookup","matchit/src/lib.rs ContainedBySearch::contained_by"),("command closures","ripdlt/src/main.rs")],
 None,["return values, panics and step counts of the calls","exit status of ripdlt"],None)

p("C09","Pattern search finds exactly the messages that contain a match",
 "For a log whose messages do not embed the message marker, with or without damaged stretches between and behind them, pattern search reports, in file order and exactly once each, the messages sequential reading reports whose bytes behind the marker contain a match lying wholly inside that message, also where a longer match would run across several messages. "
 "Capture search reports for each of them its offset and the range of the first capture group of its first match. Whatever the damage, a search reports only complete messages that contain a match.",
 ["fault_sequences","histories","inputs"],
 "every log history and storage fault sequence, patterns whose matches can start or end outside a message or span several messages",
 "the search tests use literals that occur once per message in files without damage; no pattern can match across a message boundary there",
 ["matchit/src/searchable/grepit.rs","matchit/src/searchable/searchit.rs","rapiddlt/src/lib.rs"],
 [("match to message","matchit/src/searchable/grepit.rs GrepIterator::search, RegExMatcherIterator::capture"),("backward marker search","matchit/src/searchable/searchit.rs RevSearchIterator::search"),("advance","matchit/src/searchable/grepit.rs next")],
 [("offset","where the next search starts","GrepIterator::offset, RegExMatcherIterator::offset")],["(offset, message) pairs, (offset, range) pairs"],None)

p("C10","Per-source results do not depend on how sources interleave",
 "When messages of several sources arrive interleaved in any order and are split by source, the result for each source is exactly the result of processing that source's messages alone in their own order, for every pipeline of filter, map, group-by, fork, fold, count, sum, collect and nested split, and sources without messages have no result. "
 "Stopping after any number of messages gives the result for exactly the messages so far, and pulling messages from an iterator gives the same filtered, mapped, grouped, merged and split results as pushing them. Group-by reports, in order, the first and last message of each maximal run in which each message is related to the next; a run of a single message is reported only if it is related to itself.",
 ["schedules","histories","crash_points"],
 "every interleaving of the sources' streams, every stop point, every relation and key function of the pipelines",
 "tests push one fixed sequence through each pipeline and mostly check a count; no two interleavings of the same streams are compared",
 ["matchit/src/generator/reducer.rs","matchit/src/generator/adapter.rs","matchit/src/generator/groupby.rs","matchit/src/generator/generator.rs","matchit/src/fromgenerator.rs"],
 [("per-key reducers","matchit/src/generator/reducer.rs Split"),("runs","matchit/src/generator/groupby.rs GroupBy"),("adapter chain and finalisation","matchit/src/generator/adapter.rs Adapter, reducer.rs Reducer"),("pull adapters","matchit/src/fromgenerator.rs FromAdaptFn, FromAdaptFnCall")],
 [("group state","pending run","GroupBy.1"),("reducer map","one reducer per key","Split.2")],["finalize() results","items of the pull iterators"],None)

p("C11","ripdlt reports the truth about the file or fails loudly",
 "For every log and both access methods, every sequential ripdlt command prints exactly the figures that follow from the messages sequential reading reports (message counts, text and pattern matches, payload and message size distributions with totals, message types, timestamp periods and lifecycles, per source where it says so), regardless of short or interrupted reads. "
 "If opening, reading or mapping the file or writing the output fails, it exits with a failure status and prints no figure it could not have printed for the whole file. The same holds when memory runs out. An unknown command or access method is refused with a failure status.",
 ["fault_sequences","inputs","histories"],
 "every log history (several sources, clock jumps, restarts, damage), every command, every placement of I/O faults",
 "two ripdlt functions are tested on two fixed files; main, the printed figures and all other commands are not",
 ["ripdlt/src/main.rs","rapiddlt/src/dltbuffer.rs","rapiddlt/src/dlt_v1.rs"],
 [("commands","ripdlt/src/main.rs main and the function of each command"),("loading","rapiddlt/src/dltbuffer.rs")],
 None,["stdout and exit status of ripdlt"],None)

p("C12","Stored messages read back with the fields they were written with",
 "Every message composed with the library's header constructors, for all combinations of optional fields, message types and levels, ids, times, counters, protocol versions and payloads, reads back from a log with exactly those field values, whichever messages surround it and however often its logger crashed and restarted behind it on a file cut at a message boundary. "
 "Optional fields that were not written are reported as absent, and reported lengths are the stored ones.",
 ["histories","crash_points","inputs"],
 "every message composition and every history of appends, crashes and restarts around it",
 "tests decode two captured messages; they never encode, and no test covers ECU id, session id, message type or level combinations",
 ["rapiddlt/src/dlt_v1.rs"],
 [("encoders","rapiddlt/src/dlt_v1.rs *::new, MessageType::create_message_type"),("decoders","rapiddlt/src/dlt_v1.rs DltEntry accessors, MessageType::message_type, DltHTyp accessors")],
 None,["accessor results of messages read back"],None)

p("C13","Merged periods do not depend on the order in which they arrive",
 "Merging periods that overlap yields the same set of periods whatever order they arrive in and wherever between them the stream was interleaved with others: every arriving period is covered by exactly one reported period, no two reported periods could still be merged, and none covers anything that no arriving period covers. "
 "The merged periods are reported in key order, each exactly once.",
 ["schedules","histories"],
 "every arrival order (delay, reordering, duplication) of every set of periods",
 "the two merge tests print their result without checking it",
 ["matchit/src/generator/groupby.rs","matchit/src/generator/adapter.rs"],
 [("merge","matchit/src/generator/groupby.rs Merge::adapt"),("final drain","matchit/src/generator/groupby.rs Merge::finalize, adapter.rs Adapter::finalize")],
 [("merged values","values by key","Merge.2")],["collected output"],None)

p("C14","Forward and backward search agree with sequential reading",
 "On any log, damaged or not, forward marker search from any offset reports exactly what sequential reading from that offset reports, and backward marker search from any offset reports, in descending order and each once, exactly the complete messages whose marker lies wholly before that offset. "
 "Both end within a bounded number of steps and stay ended.",
 ["fault_sequences","histories","crash_points"],
 "every log history and storage fault sequence, every start offset",
 "tests search repeated eight-byte patterns without any unreadable candidate, and never from the middle",
 ["matchit/src/searchable/searchit.rs"],
 [("forward search","matchit/src/searchable/searchit.rs SearchIterator"),("backward search","matchit/src/searchable/searchit.rs RevSearchIterator")],
 [("offset","search position","SearchIterator::offset, RevSearchIterator::offset")],["(offset, message) pairs"],None)

p("C15","Following a growing log reports every message exactly once",
 "If a reader polls a log while a logger appends to it in arbitrary pieces, loading the file at each poll by either access method and reading on from the end of the last message it reported, then over all polls it reports every message exactly once, in order and byte for byte as stored, and none before it is completely stored; once appending has stopped, one more poll reports all the rest. "
 "This holds when the reader itself crashes and restarts from its saved position, for payloads that do not contain the message marker.",
 ["schedules","crash_points","histories"],
 "every interleaving of appends, polls and reader restarts, with appends cut at any byte",
 "no test reads a file that changes, and none starts an iterator at a saved offset",
 ["rapiddlt/src/dltbuffer.rs","rapiddlt/src/dlt_v1.rs","matchit/src/searchable/readfallbackit.rs"],
 [("resumable iteration","matchit/src/searchable/readfallbackit.rs ReadFallbackIterator::new(bytes, offset)"),("incomplete tail detection","rapiddlt/src/dlt_v1.rs DltEntry::try_read"),("loading","rapiddlt/src/dltbuffer.rs")],
 [("saved offset","end of the last reported message","the caller")],["messages reported over all polls"],None)

p("C16","The library keeps its guarantees for every record format a user defines",
 "For every record type implemented through the library's traits, with a marker of any length (one byte, self-overlapping, long), records of fixed or variable size, any validity rule that depends only on the record's own bytes and a true maximum length, on every log however damaged: sequential and forward reading report exactly the valid records one after another, also if a record is its marker only or ends with the data; strict reading reports the contiguous ones; backward reading reports the valid records before the position in descending order; partitioning covers the data, never cuts a reported record and never changes what is read; containment finds exactly the reported record around a range. "
 "If no record holds a further marker, pattern search and capture report exactly the records whose own bytes behind the marker match. Record types without a marker can be read strictly.",
 ["inputs","crash_points","fault_sequences"],
 "every record format, and every log of each with torn writes and disk damage",
 "the tests use two record types, both with markers of four bytes and one of fixed size; assumptions about marker or record lengths go unnoticed",
 ["matchit/src/lib.rs","matchit/src/readit.rs","matchit/src/searchable/mod.rs","matchit/src/searchable/readfallbackit.rs","matchit/src/searchable/searchit.rs","matchit/src/searchable/grepit.rs"],
 [("traits of record types","matchit/src/lib.rs FromBytesReadableTrait, matchit/src/searchable/mod.rs SearchableMarkerTrait"),("readers and searches","matchit/src/searchable/*.rs, matchit/src/readit.rs"),("containment and partitions","matchit/src/lib.rs ContainedBySearch, partition_from")],
 [("offset","position of each iterator","offset fields of the iterators")],["(offset, record) pairs, partitions"],None)

p("C17","ripdlt finds in a log exactly what dd_dlt has written to it",
 "If any number of dd_dlt runs append to one log, each with its own ids, payload size and input, and each possibly killed after any byte of its output or stopped by a full disk, then ripdlt, with both access methods, reports for that log exactly the figures that follow from the messages in it: the sequential commands and the parallel counts. "
 "As long as nothing was appended behind a torn message (and no id looks like the message marker), the number of messages is the sum of those that each run wrote completely.",
 ["crash_points","fault_sequences","inputs","histories"],
 "every series of generator runs and every point at which each is killed",
 "no test runs the two programs, least of all one after the other on one file",
 ["dd_dlt/src/main.rs","ripdlt/src/main.rs","rapiddlt/src/dlt_v1.rs","rapiddlt/src/dltbuffer.rs","matchit/src/searchable/readfallbackit.rs"],
 [("generator","dd_dlt/src/main.rs main"),("analysis","ripdlt/src/main.rs main and the functions of its commands"),("message format","rapiddlt/src/dlt_v1.rs")],
 [("message counter and log time","count of the generator run","dd_dlt main")],["the log written by dd_dlt","figures printed by ripdlt"],None)

p("C18","The memory the programs need does not grow with the log",
 "With memory mapping, what a ripdlt command needs in memory depends on the figures it prints and on the number of threads, not on the size of the log or the number of its messages: each sequential command (except the per-source timestamp split, whose open periods must be kept), each parallel count and the parallel timestamp histogram succeeds with the right result on any log, damaged or not, however large, when it gets 128 KiB of heap, 100 bytes for each byte of figures, 4 MiB for each pattern matcher and, if parallel, 64 KiB for each CPU. "
 "With buffered reading it needs in addition at most four times the size of the file. dd_dlt copies input of any length, in blocks of any allowed size, with 128 KiB of heap and four times the payload size, and loses nothing for it.",
 ["inputs","configurations","fault_sequences","histories"],
 "every log and input however long, with a limit on memory as the fault",
 "fixtures are small; a program that keeps something for each message passes every test and fails on the first log that is larger than the machine",
 ["ripdlt/src/main.rs","rapiddlt/src/dltbuffer.rs","dd_dlt/src/main.rs","matchit/src/generator/reducer.rs","matchit/src/generator/adapter.rs","matchit/src/fromgenerator.rs","matchit/src/lib.rs"],
 [("streaming analysis","ripdlt/src/main.rs, the functions of the commands"),("mapping","rapiddlt/src/dltbuffer.rs mmap_file"),("streaming generator","dd_dlt/src/main.rs main")],
 [("heap held at a time","the process","limit enforced by the simulator")],["exit status and output under a memory limit"],None)

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
