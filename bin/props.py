def P(id, title, statement, over, text, why, files, mech, observe=None):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [], 'hook_needed': None}}

PROPS = [
P('C01', 'che reports success exactly when the complete and right result exists',
  "che build, install, run and genc exit with zero only if the program could be translated, the C compiler succeeded and the requested result (the executable at the requested place, the program executed, or all generated C files) is complete and made from exactly the given sources; otherwise they exit non-zero with a message on stderr, and never crash. che run executes exactly the program it has just built, with exactly the given arguments, and exits with its exit code (a program killed by a signal never looks like a success); it executes nothing if the build failed. An unfit program is never handed to the compiler, and the compiler is called once. When nothing fails underneath, a valid program builds. All messages of the compiler are passed on, whatever bytes they contain and however many there are, with generated file names explained by the source file. An unknown command is refused with a message and a non-zero exit. Source files are never changed.",
  ['inputs', 'faults', 'histories'], 'valid and invalid programs, compiler outcomes (exit codes, death by signal, silent or noisy, non-UTF-8 output), short reads and writes, interrupted calls, failing open/read/write/stat/spawn/exec calls and full disks at any point',
  'The tests build programs that work with a compiler that works on a healthy disk; the guarantee is about every failing call and compiler outcome.',
  ['src/build.rs', 'src/main_build.rs', 'src/main_run.rs', 'src/main_install.rs', 'src/main_genc.rs'], [('translation, writing C files, running c99', 'src/build.rs: build_prog, write_c99, parse_project')], ['exit status, stdout, stderr, output files, arguments of the executed program']),
P('C02', 'che processes running at the same time do not disturb each other',
  "Any number of che build, install, run, genc and test processes may run at the same time, on the same or different projects, in the same or different directories with the same CHELANG_HOME (also when its tmp directory does not exist yet). As long as they are not asked to write the same output file, each of them gives exactly what it gives alone: its own complete executable, its own C files, its own program executed with its exit code, its own tests run and judged. This holds for every interleaving and also when one of the processes is killed; none of them waits forever.",
  ['schedules', 'faults'], 'sets of concurrent invocations, every interleaving of their system calls and those of their compilers, one of them killed at any point',
  'The tests run che alone; clashes over shared temporary files depend on the interleaving.',
  ['src/build.rs', 'src/main_run.rs', 'src/main_test.rs'], [('generated C files in $CHELANG_HOME/tmp', 'src/build.rs: build_prog, write_c99'), ('temporary executables', 'src/main_run.rs: run; src/main_test.rs: run_arg')], ['exit status and results of every process']),
P('C03', 'che test runs every test once and never calls a failing test a success',
  "che test finds every file ending in .test.c below the given directories, in whatever order they are listed, builds each once and runs the program built from it once. A test whose program exits with zero is reported as 'OK <path>'; one that exits non-zero, dies of a signal or cannot be built is reported as 'FAIL <path>' (and nothing else is run in its place), and the remaining tests are still run. What the tests print on stdout and stderr is shown, whatever bytes and however much it is. The exit status is zero if and only if all tests passed and all directories could be read, for any number of failures. When a system call fails underneath, che test still never reports a test that has not passed, nor exits with zero without having run all tests.",
  ['inputs', 'faults', 'schedules'], 'trees of tests, outcomes (exit codes, signals, unbuildable, compiler failures), outputs, directory orders, numbers of failures, failing calls',
  'The tests have only passing tests with short text output; exit codes, signals and failing calls are not sampled.',
  ['src/main_test.rs', 'src/build.rs'], [('find, build, run, judge', 'src/main_test.rs: run, run_arg, find_tests')], ['stdout, exit status, programs executed']),
P('C04', 'Interrupted che invocations leave nothing behind that changes later results',
  "After any che invocations that were killed at an arbitrary point or failed half-way (a full disk, a killed compiler), and with any leftovers in the temporary directory and old output files, a later undisturbed che build, install, run, genc, deptree, exports or test succeeds and gives byte for byte the same result as on a fresh checkout, every time it is called: the result depends on nothing but the sources (not on earlier runs, directory order, process numbers or hash seeds). The source files are never changed.",
  ['crash points', 'histories', 'faults'], 'all sequences of interrupted invocations, kill points, failing writes, leftovers, hash seeds',
  'No test interrupts che; stale state matters only after particular crash points.',
  ['src/build.rs', 'src/main_genc.rs', 'src/main_deptree.rs', 'src/main_exports.rs', 'src/translator.rs'], [('temporary directory reused between runs', 'src/build.rs: build_prog, write_c99')], ['results of the later invocations']),
P('C05', 'Thread pipes deliver every item exactly once, in order, and never hang',
  'Every item written to a pipe between threads is delivered to exactly one reader, and items that one reader receives come out in the order in which they were written. A read reports the end only when the pipe has been closed and is empty. As long as readers keep reading and the pipe is eventually closed, every writer and reader finishes, whatever the scheduling and however many spurious wake-ups occur.',
  ['schedules', 'histories'], 'all numbers of writers, readers and items, all thread interleavings, spurious wake-ups',
  'No test touches the thread pipes; interleavings and wake-up orders cannot be sampled by running threads natively.',
  ['lib/os/threads.c'], [('bounded ring under one mutex with two conditions', 'lib/os/threads.c: newpipe, pread, pwrite, pclose')], ['return values of the pipe API, thread results, process exit']),
P('C06', 'Mutexes exclude, conditions wake, threads run once and hand over results',
  "No two threads hold the same mutex at once, whatever the scheduling. A thread waiting on a condition has released its mutex, is woken by wake_one or wake_all (wake_all wakes every waiter), and holds the mutex again when the wait returns, so that barriers and token counters built on them are exact and never hang. A started thread runs its function exactly once; wait() hands over exactly the value that function returned; a detached thread still runs to its end. Operations that succeed report success; a thread or an object that cannot be created ends the program with a message instead of going on. Waiting for a thread and freeing the objects leaves nothing allocated.",
  ['schedules', 'histories'], 'all numbers of threads, interleavings, spurious wake-ups, failed thread creations and allocations',
  'No test starts a thread; mutual exclusion and wake-ups are statements about all interleavings.',
  ['lib/os/threads.c'], [('wrappers of pthread mutexes, conditions, create/join/detach', 'lib/os/threads.c: start, wait, thr_detach, lock, unlock, unlock_wait_lock, wake_one, wake_all')], ['return values, memory seen by the threads, process exit']),
P('C07', 'A spawned process gets exactly its arguments, streams and a true exit status',
  "proc.spawn runs the program exactly once with exactly the given arguments and environment and with no descriptors of the caller besides its three streams (also when several children are alive at once). The bytes written to its stdin reach it unchanged, in order and end with end-of-file after the writer is freed; the bytes it writes to stdout and stderr reach the caller's readers unchanged, in order and separately, ending with end-of-file when the child ends. wait() returns the child's true exit code or signal. A program that cannot be executed shows as a child with a non-zero exit status and no output on stdout; a failed pipe or fork makes spawn report failure without running anything. After all children have been waited for, no descriptor, memory block or child process is left over, and output the caller had buffered before the call is written exactly once. With a caller that reads what the children write, nothing hangs.",
  ['schedules', 'faults', 'histories'], 'numbers and behaviours of concurrently running children, data sizes and chunk sizes, orders of reading and waiting, short reads and writes, failing pipe/fork/dup/exec calls, children killed at any point',
  'The only test runs one well-behaved command; leaks of pipe ends into siblings, short transfers and failed system calls need particular interleavings and faults.',
  ['lib/os/proc.c', 'lib/reader.c', 'lib/writer.c'], [('three pipes, fork, dup2, execve', 'lib/os/proc.c: spawn, wait'), ('descriptor readers and writers', 'lib/reader.c: fd; lib/writer.c: fd')], ['bytes read by caller and child, wait status, open descriptors of both processes']),
P('C08', 'proc.parallel runs every job once, at most eight at a time, and waits for all',
  "proc.parallel runs every given job exactly once, each in a process of its own, never more than eight at the same time, and returns only when every one of them has ended, even if some exit with a failure or are killed. A job sees the memory as it was at the call and its changes are invisible to the caller and to other jobs. Output buffered before the call is written once, not once per job, and no job's output is lost or repeated. If a process cannot be started, the program ends with a message and a non-zero status instead of returning as if the work had been done.",
  ['schedules', 'faults'], 'all numbers of jobs, durations, exit codes, schedules, workers killed at any point, failed forks',
  'No test calls it; the limit and the completeness depend on the order in which children end.',
  ['lib/os/proc.c'], [('fork per job, wait when eight are running', 'lib/os/proc.c: parallel')], ['start and end of every job process, the return of parallel()']),
P('C09', 'TCP streams of os/net arrive whole and in order; failures are reported',
  "The bytes that net.write reports as sent and the text given to net_printf (whatever its length) reach the peer completely, unchanged and in order, and what the peer sends is read with net.read or the connection's reader completely and in order up to the end of the stream, however TCP fragments, delays or splits the transfers. Reads return what has arrived instead of stalling for more than the peer has sent. A connection's address text is that of its peer. When resolving, connecting, listening or accepting fails the call reports it (with an error text for listen, errno for connect) and leaves no descriptor or memory behind; malformed addresses and unknown protocols are refused; a reset or closed peer shows as a failed or ended read or write, never as wrong data or the death of the program. Closing a connection releases its descriptor and memory; freeing a reader does not close the connection.",
  ['schedules', 'faults', 'histories'], 'stream lengths, chunk sizes, fragmentations, delays, peers that reset or close at any point, failing socket/bind/listen/accept/connect/resolve calls',
  'No test opens a socket; short sends, fragmentation and failing calls do not occur on loopback.',
  ['lib/os/net.c', 'lib/reader.c'], [('socket wrappers', 'lib/os/net.c: connect, connect_nonblock, net_listen, net_accept, read, write, net_printf, close, getreader')], ['bytes at both ends, return values, open descriptors']),
P('C10', 'File operations of os/fs are complete or reported as failed',
  "readfile and readfile_str return exactly the whole contents of the file with its true size, or NULL; writefile returns true only when the file holds exactly the given bytes (also when the disk is full, a write is short, or closing the file reports the error); a directory listing yields every entry exactly once, without '.' and '..', in whatever order the system lists them; filesize, is_dir, file_exists, unlink and realpath agree with the file system and respect the caller's buffer. If nothing goes wrong underneath, an operation that can succeed does. No operation ends the program or leaves a descriptor or memory behind, whichever call under it fails.",
  ['inputs', 'faults', 'histories'], 'file contents and sizes, sequences of operations, directory orders, I/O errors and full disks at any call, short reads and writes',
  'The tests read a few small files on a healthy disk; the guarantee is about every failing call.',
  ['lib/os/fs.c'], [('stdio and dirent wrappers', 'lib/os/fs.c: readfile, readfile_str, writefile, dir_open, dir_next, filesize, realpath')], ['return values against a model of the file system']),
P('C11', 'The web server answers every client whatever the other clients do',
  "prog/webserver: every well-formed GET request (request line and headers within the limits of http.request_t: 1023-byte URI, 100 headers of up to 1023 bytes) gets exactly one complete answer on its connection, in request order, also when requests are pipelined, arrive in pieces or the client reads slowly: a status line with the request's HTTP version, one Content-Length, and exactly that many bytes of body, which are exactly the current bytes of the requested file with its type, the listing with every entry once for '/', a 404 for what does not exist or is a directory, and for a script in cgi-bin the whole output with its headers and status, or a 500 if it cannot be run, fails, is killed or prints no valid head. Scripts get the request's own method, path, query string, URI and Host, an input that has ended, and no descriptors of the connections. Other clients that send garbage, oversized or endless headers, stall, disconnect or reset at any point, and failing accept, open, stat, read, pipe, fork and exec calls, neither end the server nor delay or alter the answers of others; a fault may cost the affected request its answer, never give it wrong bytes. After the clients have gone no descriptor, thread, process or memory block is left, and the server goes on serving.",
  ['schedules', 'faults', 'histories'], 'numbers and kinds of clients, request sequences, fragmentations, delays, thread interleavings, scripts that fail at any point, failing system calls',
  'No test starts the server; its guarantees are about combinations of clients, disconnections at arbitrary bytes and failing calls.',
  ['prog/webserver/webserver.c', 'prog/webserver/srvcgi.c', 'lib/protocols/http.c', 'lib/protocols/cgi.c', 'lib/os/net.c', 'lib/os/threads.c', 'lib/os/proc.c', 'lib/tokenizer.c'], [('thread per connection reading requests in a loop', 'prog/webserver/webserver.c: main, client_routine'), ('responses', 'lib/protocols/http.c: read_request, servefile, serve_text, write_404'), ('scripts', 'prog/webserver/srvcgi.c: cgi; lib/protocols/cgi.c: parse_head')], ['bytes on every connection, what the scripts see, descriptors, threads, processes and memory of the server']),
P('C12', 'The web server never sends or runs anything outside its home directory',
  "prog/webserver, whatever path a request spells (dot segments, doubled slashes, symbolic links, sibling directories whose name begins like the home directory's) and whatever call fails meanwhile: no byte of a file that resolves outside the home directory is ever sent, such a request is never answered with success, and nothing outside the home directory's cgi-bin is executed. A file that resolves into cgi-bin is executed and its text is never sent, however the path to it is spelled; a file that does not is sent and never executed.",
  ['inputs', 'schedules', 'faults'], 'all request paths composed of dot segments, links, siblings and scripts, interleaved with other clients and failing stat, open and realpath calls',
  'No test requests a path; containment must hold for every spelling and for every call that can fail while it is decided.',
  ['prog/webserver/webserver.c', 'prog/webserver/srvcgi.c', 'lib/os/fs.c', 'lib/protocols/http.c'], [('resolve_path, is_inside, is_script', 'prog/webserver/webserver.c'), ('realpath', 'lib/os/fs.c: realpath')], ['bytes sent to clients, programs executed with their path']),
P('C13', 'Stream layers see and produce one byte sequence, whatever the pieces',
  "Readers (of a file, stdin, a descriptor, memory or a caller's function) and what is built on them give exactly the bytes of the source, each once and in order, whatever pieces the source hands out (bytes 0x00 and 0xFF included), and report the end or the failure of the source as such (a failure as a negative value) and nothing else as such. tokenizer: peek, get, more, literal_follows and skip_literal (literals of up to 100 bytes, also when they arrive in pieces), read_until, id, num, spaces, hspaces, buf_skip, buf_skip_set, buf_read_set, buf_skip_until (tokens of any length), tail and posstr give what a tokenizer over the whole text in memory gives; they never write past the caller's buffer and id is cut to fit, read_until and num return false when the buffer is too small. endian readers give the value of the next 1 to 4 bytes or fail when there are not enough; bits readers give the bits of the source in the given order, -1 at its end; linereader gives every line of any length once; bytereader gives the bytes and big-endian numbers of the file. Writers pass on exactly the bytes they report as written, also if the sink takes only a part, is full or fails, and never more than a static buffer holds; endian writers write the value in the right byte order; the bit writer packs exactly the given bits and reports a failed sink. The position and byte counters agree with what was transferred. Nothing stays allocated.",
  ['inputs', 'faults', 'histories'], 'texts and binary data, sequences of operations, splits of the stream at any byte, ends and errors at any byte, buffer sizes, sinks that take part, fill up or fail at any byte',
  'The tests read a few bytes from memory; split points, ends inside tokens and sizes around buffer limits are out of their reach.',
  ['lib/reader.c', 'lib/writer.c', 'lib/tokenizer.c', 'lib/enc/endian.c', 'lib/bits.c', 'lib/linereader.c', 'lib/bytereader.c'], [('reader and writer interfaces', 'lib/reader.c, lib/writer.c'), ('look-ahead cache', 'lib/tokenizer.c: _prefetch, peek, get, literal_follows')], ['return values and buffers against a reference model over the whole byte sequence']),
P('C14', 'HTTP messages are read and written exactly or refused, never altered',
  "http.read_request reads from any reader, whatever pieces the bytes arrive in, exactly one request per call: method, URI, path, query, file name, version and all headers exactly as sent, consuming not one byte of what follows, and whatever the structure held before. http.parse_response does the same for a response (status, headers, a body of the announced length or up to the end of a closed connection). A message that is cut short, whose stream fails, that is malformed, or that exceeds the capacity of the structures (method and version 9 bytes, URI and headers 1023 bytes, 100 headers, body 999 bytes) is refused with false; it never overflows, crashes or is accepted truncated. http.write_request writes exactly the request line with all URL-encoded parameters and all headers to the writer, also when the writer takes only part at a time, returns the length only if all of it was taken and a negative value otherwise. Nothing stays allocated.",
  ['inputs', 'faults'], 'all requests and responses with lengths around every limit, all splits of the stream, ends and errors at any byte, writers that take part or fail at any byte',
  'The test parses one small request and one response from memory; ends, errors and splits at every byte and lengths at the limits are out of its reach.',
  ['lib/protocols/http.c', 'lib/tokenizer.c', 'lib/enc/urlencode.c', 'lib/strbuilder.c'], [('tokenizer-based readers', 'lib/protocols/http.c: read_request, parse_response'), ('request writer', 'lib/protocols/http.c: write_request')], ['parsed structures, stream positions, written bytes, return values']),
P('C15', 'The torrent event loop serves every stream, whatever happens to the others',
  "prog/torrent/ioloop: the handler of every accepted or opened connection gets CONNECTED first (with the init data given to connect), EXIT exactly once and last, and nothing after it; a connection that cannot be made gets CONNECT_FAILED and then EXIT. DATA_IN hands over exactly the bytes the peer sent, each once and in order; everything given to write, from whatever handler or timer, is sent completely and in order as long as the peer keeps the connection open and nobody calls close, however little the socket takes at a time; WRITE_FINISHED comes once each time the outgoing data has all been passed on, and only then. A stream ends only if its peer closes or resets it, close is called for it or connecting fails, and then it does end, at once; a peer that closes, resets, stalls or does not read, a failed accept, and more connections than the 100 slots do not disturb other streams or end the program. A timer runs once, not before its whole seconds have passed and without waiting for other events (at once if the time has passed already). process() returns false only when no stream and no timer is left. Ended streams leave no descriptor or memory behind.",
  ['schedules', 'faults', 'histories'], 'numbers of incoming and outgoing streams, peers that stall, close or reset at any byte, sizes of writes, partial sends, handlers that write, close, connect and set timers at any event, interrupted selects, failing accept, connect, socket and resolve calls',
  'No test runs the loop; partial sends, descriptor reuse within one round and failed connections depend on the schedule.',
  ['prog/torrent/ioloop.c', 'lib/clip/buffer.c', 'lib/os/net.c'], [('one select over all streams, then dispatch', 'prog/torrent/ioloop.c: process, create_selection, dispatch_updates'), ('timers', 'prog/torrent/ioloop.c: set_timer, dispatch_timers'), ('outgoing buffer', 'lib/clip/buffer.c')], ['events of every handler, bytes at both ends of every connection, descriptors and memory']),
P('C16', 'The torrent seeder gives every proper peer exactly the bytes it asks for',
  "prog/torrent seed: a peer that sends a handshake gets the seeder's handshake (with the torrent's info hash and the same peer id for all peers and the tracker), and for every request for a block inside the torrent, in the order of the requests, one piece message with exactly those bytes of the shared files, also where a block spans several files, in torrents of one or many files and any piece length; a keep-alive is answered with a keep-alive; choke, unchoke, interested, have, bitfield (of any length), cancel and unknown messages are accepted without an answer. This holds whatever pieces the messages arrive in, however slowly the peer reads and whatever the others do. A malformed handshake, an oversized message, a request outside the torrent, a piece that was not asked for, or a block that cannot be read completely from disk ends only the connection it came on; no peer ever gets other bytes than the torrent's, and nothing is written to disk. Peers that stall, leave or reset, failing accept, open, seek and read calls, and a tracker that is down, closes, answers in pieces or with garbage neither end the seeder nor disturb the other peers; the tracker is announced to with the right info hash. Peers that have gone leave no descriptor or memory behind, and later peers are served.",
  ['inputs', 'schedules', 'faults', 'histories'], 'torrents (sizes, piece lengths, numbers and lengths of files), numbers and kinds of peers, message sequences, fragmentations, delays, failing disk calls, tracker behaviours',
  'The only test prints the contents of one torrent file; nothing starts the seeder.',
  ['prog/torrent/peer.c', 'prog/torrent/peerproto.c', 'prog/torrent/files.c', 'prog/torrent/tracker.c', 'prog/torrent/ioloop.c', 'prog/torrent/cmd_seed.c', 'lib/formats/torrent.c', 'lib/formats/bencode.c', 'lib/crypt/sha1.c'], [('peer state machine', 'prog/torrent/peer.c: handle, read_request, write_response'), ('messages', 'prog/torrent/peerproto.c'), ('blocks to files', 'prog/torrent/files.c: map, sliceop'), ('announce', 'prog/torrent/tracker.c')], ['bytes on every connection, files on disk, descriptors and memory of the seeder']),
P('C17', 'trim gives each file its old or its fully trimmed contents, never less',
  "prog/trim [-l unix|win|same] files...: if it exits with 0, every named file (not directory) holds exactly its trimmed contents: every line without its trailing white space, line ends in the given format (with same: each kept as it was, none added after a last line without one; otherwise one after every line), all other bytes unchanged whatever their value and however long the lines; and the names printed are exactly those of the files that changed. Otherwise it exits with a non-zero status and a message. A file with a CR that is not part of a CRLF, a file that cannot be read or a result that cannot be written completely is a failure. At every moment, whatever read, write, open, close or stat fails and wherever the process is killed, every file has its complete old or its complete new contents and its permissions; a symbolic link stays a link and the file it leads to is trimmed; files not named are not touched and unless the process was killed no other file is left behind.",
  ['inputs', 'faults', 'crashes'], 'file contents (bytes, lengths, line ends, white space), formats, lists of files, failing and partial I/O at any call, a kill at any call',
  'No test runs the program; what remains of a file when something fails or the process dies half way is out of the reach of a test.',
  ['prog/trim/trim.c', 'lib/mem.c', 'lib/os/fs.c'], [('lines are read, trimmed into memory, saved', 'prog/trim/trim.c: trim_file, ftrim, read_line, write_line, save'), ('memory buffer', 'lib/mem.c')], ['contents and permissions of all files at the end or at the kill, exit status, stdout and stderr']),
P('C18', 'datelog keeps every line it reads in the log of the month it came in',
  "prog/datelog [-o]: every line that arrives on stdin, of any length and in any pieces, is appended unchanged and in order to YYYY-MM.log of the current month (UTC) in the working directory, after what the file already has; when the month or the year changes, also by a clock step back, the next line goes to the right file. A complete line is in the file as soon as datelog waits for more input: a kill loses nothing that was there before. With -o the lines are also copied to stdout. It ends with 0 only at the end of its input and with everything in the files; when the input cannot be read or a file cannot be opened, written or closed, it ends with a non-zero status and a message, and the files hold only a beginning of what they should. No other file is touched and no memory is left.",
  ['inputs', 'schedules', 'faults', 'crashes'], 'lines and their pieces, times of arrival over months, clock steps, existing logs, failing and partial I/O at any call, a kill at any moment',
  'No test runs the program; month changes while it waits, disk faults and kills need controlled time and I/O.',
  ['prog/datelog/datelog.c', 'lib/time.c'], [('a log file per month, reopened when its name changes', 'prog/datelog/datelog.c: dlog_put'), ('month of the line', 'lib/time.c: now, format')], ['contents of all files while idle, at the end and after a kill; exit status, stdout, stderr, memory']),
P('C19', 'The echo and character servers serve every client, whatever the others do',
  "prog/echo7: each client gets back exactly the bytes it sent, each once and in order, then the end of the stream after it has ended its own; prog/chargen: each client gets, from the moment it connects and whether or not it sends anything, the repeating sequence of the 95 printable ASCII characters from ! to ~ and space, without a gap and without end, for as long as it reads. This holds for any number of clients at a time, whatever pieces the data arrive in and however slowly a client reads or sends: clients that stay silent, do not read, close or reset their connection in the middle, and failing accept, receive and send calls end at most the connection concerned, never the server or another client's service. When the clients have gone, their descriptors, threads and memory are gone as well, and a new client is served.",
  ['inputs', 'schedules', 'faults', 'histories'], 'numbers and kinds of clients, data and their pieces, delays, socket buffer sizes, thread interleavings, resets at any byte, failing calls',
  'No test starts the servers; what clients do to each other depends on the schedule.',
  ['prog/echo7/echo7.c', 'prog/chargen/chargen.c', 'lib/os/net.c', 'lib/os/threads.c', 'lib/reader.c', 'lib/log.c'], [('a thread per client', 'prog/echo7/echo7.c, prog/chargen/chargen.c: main, process_client'), ('whole writes', 'lib/os/net.c: write')], ['bytes every client receives and when, descriptors, threads and memory of the server']),
P('C20', 'Log lines come out whole, once and with the right local time from any thread',
  "lib/log and lib/time used by any number of threads at once: every logmsg call of any length returns true and puts exactly one line into the log, whole and unmixed with those of other threads, in each thread's order, that begins with the local time (YYYY-MM-DD hh:mm:ss.mmm) of a moment of the call, in any time zone, with daylight saving and part-hour offsets, on any date and across day, month and year ends. time.now() is the UTC time of a moment of the call; sub is the exact difference of two UTC times in milliseconds, fromunix and iso_tolocal convert exactly, in any zone, whatever other threads convert meanwhile; sleep never ends before the given time has passed. Nothing stays allocated.",
  ['inputs', 'schedules', 'faults'], 'thread interleavings at every call and memory access, message lengths, zones, dates around every kind of change, partial writes, clock steps',
  'No test logs from two threads or runs in a zone other than UTC; torn lines and shared calendar buffers depend on the schedule.',
  ['lib/log.c', 'lib/time.c'], [('time stamp and message', 'lib/log.c: logmsg'), ('conversions', 'lib/time.c: now, fromunix, sub, iso_tolocal, sleep')], ['the bytes of the log, the results of the calls and the simulated time at their begin and end']),
P('C21', 'exab makes exactly the requests asked for and reports each one as it was',
  "prog/exab -n N -c C URL: makes exactly N requests with never more than C connections at a time, each with exactly the bytes of a GET request for the URL's path with the URL's host, and ends. Each request that gets a complete response, in whatever pieces, with or without a Content-Length, gives one row with the worker and a growing number per worker, the response's status, the bytes sent and received, and times that are not negative, add up to the total and are not shorter than the server took; no other row appears, rows are never mixed. A request that cannot be made or whose response is malformed, cut or reset gives a message on stderr and costs nothing else: the other requests are made and reported. The exit status is 0 exactly if all requests succeeded. A URL that is malformed, of another schema than http or with a part that is too long (path over 99 bytes) is refused with a message, before any request.",
  ['inputs', 'schedules', 'faults'], 'numbers of requests and workers, response sizes, statuses, delays and pieces, malformed, cut and reset responses, failing socket calls, thread interleavings, URL lengths around the limits',
  'No test runs the program; lost requests, mixed rows and failures of single requests depend on the schedule and the network.',
  ['prog/exab/exab.c', 'lib/url.c', 'lib/os/threads.c', 'lib/os/net.c', 'lib/protocols/http.c', 'lib/time.c'], [('workers fed by a pipe', 'prog/exab/exab.c: main, worker'), ('rows', 'prog/exab/exab.c: print_result'), ('bounded parts', 'lib/url.c: parse')], ['connections and bytes at the server, stdout, stderr, exit status']),
P('C22', 'Table converters convert every row exactly or report the failure',
  "prog/csv2json [-n] and prog/jsonl2csv, stdin to stdout, in whatever pieces the input arrives: exit status 0 means that the whole input was read and the whole output written. csv2json: one JSON object per non-empty row with all its values in order, named by the first row (colN, counted from 0, for columns without a name or all with -n); values of any length with any bytes but zero, quoted ones with doubled quotes, commas and line ends in them, empty ones also at the end of a row, LF or CRLF line ends, up to 100 columns. jsonl2csv: one CSV row per line that is a JSON object of any length, with the columns of the first object in its order: strings with their escapes (\\n \\t \\r \\b \\f \\\" \\\\ \\/ and \\uXXXX, with surrogate pairs, as UTF-8) decoded, empty for missing keys and null, JSON text for other values, each value in quotes with quotes doubled; numbers with their full precision; a line that is not exactly one JSON object is reported on stderr and skipped. Anything else is a non-zero status with a message, after the output of the rows before it: a quoted value that does not end or is followed by other characters, more than 100 columns, no object at all, input that cannot be read, output that cannot be written. No input corrupts memory or ends the program by a signal.",
  ['inputs', 'faults'], 'tables and objects with lengths around every buffer size, all kinds of quoting and escapes, malformed input, pieces of the input, reads and writes failing at any byte',
  'The snapshot tests convert one small healthy file each; failing reads and writes, malformed input and lengths at buffer limits are out of their reach.',
  ['prog/csv2json/csv2json.c', 'prog/jsonl2csv/jsonl2csv.c', 'lib/formats/csv.c', 'lib/formats/json.c', 'lib/linereader.c', 'lib/tokenizer.c'], [('csv reader and writer', 'lib/formats/csv.c: readval, nextline, writeval'), ('json reader and writer', 'lib/formats/json.c: parse, format, write_string')], ['stdout, stderr and exit status']),
P('C23', 'Subtitle converters convert every entry exactly or report the failure',
  "prog/srt2jsonl, prog/srtadjust and prog/vtt2jsonl, stdin to stdout, in whatever pieces the input arrives: exit status 0 means that the whole input was read and the whole output written, one entry for each entry of the input, in order, also for the last one without blank line or line end after it, with LF or CRLF. srt2jsonl: number, time range and text (its lines joined by \\n, blank lines inside kept, white space at both ends trimmed, under 1000 bytes). srtadjust: the block with both times mapped by the line through the two given points (to the millisecond, three digits; results from 0 to 100 hours). vtt2jsonl: time range and text of any length without tags and trimmed. Anything else is a non-zero status with a message, after the output of the entries before it: malformed times, ranges, header or cue lines, a text too long for srt, missing or equal reference points, input that cannot be read, output that cannot be written. No input corrupts memory or ends the program by a signal. Empty srt input gives empty output.",
  ['inputs', 'faults'], 'entries with lengths around every buffer size, tags, blank lines, line ends, malformed input, pieces of the input, reads and writes failing at any byte',
  'The snapshot tests convert one small healthy file each; failing reads and writes, malformed input and lengths at buffer limits are out of their reach.',
  ['prog/srt2jsonl/srt2jsonl.c', 'prog/srtadjust/srtadjust.c', 'prog/vtt2jsonl/vtt2jsonl.c', 'lib/formats/srt.c', 'lib/formats/vtt.c', 'lib/formats/json.c', 'lib/linereader.c', 'lib/time.c', 'lib/strings.c'], [('srt reader and writer', 'lib/formats/srt.c: readblock, loadline, printblock'), ('vtt reader', 'lib/formats/vtt.c: reader, read, cue')], ['stdout, stderr and exit status']),
P('C24', 'What is packed with lzw or huffman comes out again',
  "lib/compress/lzw and lib/compress/huffman, over readers and writers that take and give the data in any pieces: a message of any length packed with compress() (any alphabet from 1 to 256 symbols) or written through huffman's writer (tree built of the same message, which has no zero bytes) and unpacked again is the same message: empty, of one symbol, with trees of any depth, across dictionary resets and code width changes. compress and write say true exactly if everything was written; write says false for a byte that has no code in the tree. lzw data that lacks its end, and output that cannot be written, end the unpacking with an error message and non-zero exit status and are never taken for success. Damaged, foreign or hostile packed data never corrupt memory, never hang and never end the program by a fault signal. No memory is kept after everything is closed.",
  ['inputs', 'faults'], 'messages that drive the dictionary and the tree to their limits, pieces of reads and writes, sinks that fail at any byte, packed data cut, changed or made up',
  'The unit tests round-trip two or three short strings over healthy buffers.',
  ['lib/compress/lzw.c', 'lib/compress/huffman.c', 'lib/bits.c', 'lib/reader.c', 'lib/writer.c'], [('lzw', 'lib/compress/lzw.c: compress, decodeinto'), ('huffman', 'lib/compress/huffman.c: buildtree, write, read')], ['the unpacked bytes, the results of the calls, exit status and stderr, live allocations']),
P('C25', 'logfmt shows every line of a live log, in order and at once',
  "prog/logfmt [-x fields], reading a log that is still being written, in whatever pieces it arrives: once the log is idle every complete line received so far is in the output, in order. A line that is a JSON object, of any length and nesting, is shown as its level in lower case ('none' if there is none), the local time of the first of t, timestamp and @timestamp that is a string (any RFC 3339 timestamp with Z or an offset, fractions cut to milliseconds; other strings as they are), msg or else message, then every other field that is not excluded as key=value in the order of the object (nested objects as a.b=value, arrays as '(array)', strings with their escapes decoded), and data on a line of its own. Every other line is shown unchanged. Apart from colour sequences nothing else is written. The exit status is 0 exactly if the whole input was read and the whole output written; otherwise there is a message and a non-zero status. Nothing is kept in memory for lines already shown, and no input ends the program by a signal.",
  ['inputs', 'faults', 'history'], 'log lines with all kinds of fields, lengths and timestamps, mixed with lines that are not JSON or only begin like it, arriving in pieces with pauses, in several time zones, reads and writes that fail',
  'The snapshot test formats a few lines of a file; a live source, failures, other zones and lines that only look like JSON are out of its reach.',
  ['prog/logfmt/logfmt.c', 'lib/formats/json.c', 'lib/linereader.c', 'lib/time.c', 'lib/tty.c', 'lib/strings.c', 'lib/tokenizer.c'], [('entries', 'prog/logfmt/logfmt.c: main, print_entry, printkv'), ('timestamps', 'lib/time.c: parse_iso, iso_tolocal'), ('json reader', 'lib/formats/json.c: parse')], ['stdout while running and at the end, stderr, exit status, live allocations']),
P('C26', 'Torrent files say exactly what the shared file is, and damaged ones are refused',
  "prog/torrent create FILE OUT: exit status 0 means that OUT is one complete bencoded dictionary (keys in order, nothing after it) with the time of creation and an info dictionary with exactly the file's length, its base name, the piece length and the SHA-1 of every piece of the file, whatever was in OUT before; a file that is missing or cannot be read to its end, a name longer than 199 bytes, or an output that cannot be opened, written or closed is a non-zero exit status with a message. prog/torrent info FILE: of every well-formed torrent file (single or multiple files, names and paths up to 199 bytes, unknown keys, any creation date, sizes beyond 32 bits) shows the name, the info hash (SHA-1 of the bytes of info), the length, the number of pieces and each file with its range; a file that cannot be read or that ends early is refused with a message and a non-zero exit status. No damaged file corrupts memory, hangs or ends the program by a fault signal.",
  ['inputs', 'faults'], 'file sizes around piece boundaries, names of all lengths, clocks after 2038, bad sectors, full disks, failing opens, writes and closes, torrent files of all shapes, cut and damaged at any byte',
  'The tests read one healthy torrent file; failing disks, damaged files and sizes beyond 32 bits are out of their reach.',
  ['prog/torrent/torrent.c', 'prog/torrent/cmd_create.c', 'lib/formats/torrent.c', 'lib/formats/bencode.c', 'lib/formats/bencode_writer.c', 'lib/crypt/sha1.c', 'lib/os/fs.c'], [('create', 'prog/torrent/cmd_create.c: run'), ('torrent file', 'lib/formats/torrent.c: fromfile, writefile'), ('bencode', 'lib/formats/bencode.c, lib/formats/bencode_writer.c')], ['the file written, stdout, stderr and exit status']),
P('C27', 'mp3cuespl cuts a recording into tracks without losing or repeating a frame',
  "prog/mp3cuespl LIST RECORDING, LIST being a .cue or .txt track list: exit status 0 means that there is one file per track in the current folder, named by its number and title ('/' and ':' replaced), whatever was there before, and that together, in order, they hold every complete frame of the recording exactly once, each track beginning within two frames of its place in the list (cue positions to 1/75 s, txt durations [h:]m:ss[.mmm] of any length). If the recording begins with an info frame (Xing, mono or stereo), every file begins with that frame, carrying the file's own number of frames and bytes and a table of contents. Bytes before the first frame are skipped. Anything else is a non-zero exit status with a message: a list that is missing, unreadable, empty, malformed or too long (over 100 tracks), a recording that is missing, unreadable, malformed (unsupported frames, other data between or after frames) or ends before the last track, an output that cannot be opened, written or closed. No other file is written, and no input corrupts memory, hangs or ends the program by a fault signal.",
  ['inputs', 'faults'], 'recordings of 1-1500 frames of all sizes, with and without info frames, junk and cut or wrong frames; lists of 1-100 tracks of both kinds with odd titles, line ends and mistakes; bad sectors, full disks, failing opens, writes and closes',
  'No test runs the program; lost or repeated frames and ignored write failures depend on positions, lengths and the disk.',
  ['prog/mp3cuespl/mp3cuespl.c', 'prog/mp3cuespl/tracklist.c', 'lib/formats/mp3.c', 'lib/formats/cue.c', 'lib/time.c', 'lib/enc/endian.c', 'lib/clip/vec.c', 'lib/tokenizer.c', 'lib/bits.c'], [('tracks', 'prog/mp3cuespl/mp3cuespl.c: cuespl, write_track'), ('frames', 'lib/formats/mp3.c: open_reader, readframe, nextframe'), ('lists', 'lib/formats/cue.c: readcue; prog/mp3cuespl/tracklist.c: readfile')], ['all files afterwards, stdout, stderr and exit status']),
P('C28', 'post hands a mail over whole and says whether it was accepted',
  "prog/post [-a ADDRESS] [-s SUBJECT] FROM TO: exit status 0 means that the server has accepted one mail (its reply to the end of the data was 250), and any mail that a server gets to its end is exactly this one: the envelope addresses FROM and TO, a header with the subject and both addresses, an empty line, and every line of standard input in order with CRLF line ends, a line that begins with a dot escaped so that it neither ends the mail nor loses the dot. Every command waits for the whole reply to the one before, however the reply is split and however many lines it has; after a reply with another code than the expected one post sends nothing more but QUIT or RSET. Line breaks in the arguments are refused, so that they can add neither a command nor a header. If standard input cannot be read, the connection breaks, or the server refuses or sends nonsense at any point, then the mail is not ended, and post exits with a non-zero status and a message on standard error.",
  ['inputs', 'faults', 'schedules'], 'bodies with dots, CRs, long lines and no final newline; servers that split, stretch, delay, refuse, garble or break off every reply; failing connects, sends and receives, resets, unreadable input',
  'No test runs the program; what the server finally holds depends on every reply, on how it is split and on where the connection or the input breaks.',
  ['prog/post/post.c', 'lib/os/net.c', 'lib/linereader.c', 'lib/opt.c'], [('dialogue', 'prog/post/post.c: sendm, expect'), ('sending', 'lib/os/net.c: net_printf, net_puts, connect, read')], ['every byte the server receives, stderr and exit status']),
P('C29', 'Text filters use every line of their input or report the failure',
  "prog/multicut, zipranges, avg, stats, hist and json-table, stdin to stdout, in whatever pieces the input arrives, with lines of any length, also a last one without line end: exit status 0 means that the whole input was read and the whole, right output written. multicut COLUMN...: for each line the chosen columns (separated by white space, counted from 1, up to 100) joined by tabs, nothing for those the line does not have. zipranges: the runs of consecutive numbers, in order, any number of them ('A-B '). avg [-w N]: from the Nth line on, one line per line of input with the time in the middle of the window and the average of the N values. stats: for each of up to 10 columns average, deviation, least, greatest, count, sum and percentiles of all rows. hist [-r] [-n BINS] [-w WIDTH]: every value is counted in exactly one bin, the last one whose lower bound it reaches, also when all values are the same; bars are no wider than WIDTH. json-table: consecutive lines with a JSON object, or a line with an array of objects, appear once as a table with a row for each object in order and the columns of its longest one; all other lines come out unchanged and in place. Anything else is a non-zero status with a message, after the output of what came before it where lines are handled one by one: malformed numbers, times or arguments, a zero window, too many or uneven columns, no values, input that cannot be read, output that cannot be written. No input corrupts memory, hangs or ends the program by a fault signal.",
  ['inputs', 'faults'], 'lines, values and numbers of columns around every limit and buffer size, malformed lines, missing line ends, pieces of the input, reads and writes failing at any byte',
  'Only multicut and json-table have a test, with one small healthy input each.',
  ['prog/multicut/multicut.c', 'prog/zipranges/zipranges.c', 'prog/avg/avg.c', 'prog/stats/stats.c', 'prog/hist/hist.c', 'prog/json-table/json-table.c', 'lib/linereader.c', 'lib/stats.c', 'lib/formats/json.c', 'lib/time.c', 'lib/clip/vec.c'], [('reading', 'lib/linereader.c: read; main of each program'), ('bins', 'prog/hist/hist.c: find_range, findbin'), ('table', 'prog/json-table/json-table.c: maybeTable, maybeInlineTable, printtable'), ('series', 'lib/stats.c')], ['stdout, stderr and exit status']),
P('C30', 'WAV tools account for every sample of a recording or report the failure',
  "prog/wav and wavcue, for files of 16 or 24 bits, mono or stereo, with or without LIST and PAD chunks (values of any length) before and other chunks behind the data, with a stated length or streamed (length 0xFFFFFFFF, up to the end of the file), in whatever pieces they are read: exit status 0 means that every sample was read and the whole, right output written. info FILE...: format, channels, frequency and bits of every file. dump FILE: one line per sample frame with both channels scaled to -1..1. mix FILE...: a 44.1 kHz 16-bit stereo stream as long as the longest input, each sample the average over all inputs (shorter ones are silent at the end), within one unit. trans FACTOR FILE: the stream stretched to floor(n * FACTOR) samples, each interpolated between its neighbours within one unit, no more and no less. wavcue [-l LEVEL] [-c]: one line per track, in order, with its length (-c: the position of its end), at the file's own sample rate, to about 2 ms; a track ends with a silence (level under LEVEL dB) of over one second that belongs to it, silence at the very beginning belongs to the first track, shorter pauses do not end a track, and the tracks add up to the whole recording. Anything else is a non-zero status with a message: missing, unreadable, truncated or malformed files, chunks that contradict the file, a bad factor, other rates than 44100 for mix and trans, output that cannot be written. No file makes them hang, corrupt memory or end by a fault signal.",
  ['inputs', 'faults'], 'chunk layouts, lengths, depths and levels, files cut or damaged at any point, opens, reads and writes failing at any byte',
  'There is no test of these programs.',
  ['lib/formats/wav.c', 'lib/sound.c', 'lib/reader.c', 'lib/enc/endian.c', 'prog/wav/wav.c', 'prog/wavcue/wavcue.c', 'lib/time.c'], [('reading', 'lib/formats/wav.c: read_headers, readinfo, more, read_sample0'), ('stretching', 'lib/sound.c: transpose'), ('commands', 'prog/wav/wav.c'), ('tracks', 'prog/wavcue/wavcue.c: track')], ['stdout, stderr and exit status']),
P('C31', 'The LC-3 emulator runs programs exactly, whenever keys and signals come',
  "prog/emu run X.lc3: every program (all instructions except RTI and the reserved one; memory, keyboard registers at FE00 and FE02, traps GETC, OUT, PUTS, IN, PUTSP, HALT; 16-bit arithmetic and addresses wrap around) has exactly the output an LC-3 has, and every key is delivered once and in order, whether the program polls the keyboard registers or uses traps, and whether keys are typed ahead or one by one; what the program has printed (including the prompt of IN) can be seen while it waits for a key; while it waits, the terminal is in unbuffered mode without echo; after the end of the input GETC and the keyboard give FFFF. HALT prints HALT and ends with exit status 0; an illegal instruction ends it with a message and a non-zero status; SIGINT at any time ends it with a non-zero status. However it ends, the terminal is as it was before. An image that is missing, unreadable, without origin, ends in half a word or does not fit into the memory is refused with a message and a non-zero status and nothing of it is executed; an image that just fills the memory is accepted. Output that cannot be written is a non-zero status.",
  ['inputs', 'schedules', 'faults'], 'programs with loops, calls, indirect accesses, strings and keyboard reads, moments at which keys, the end of the input and SIGINT come, images cut or too long, failing opens, reads and writes',
  'The only test disassembles a CHIP-8 file; nothing runs the LC-3 machine.',
  ['prog/emu/emu.c', 'prog/emu/lc3.c', 'lib/os/term.c', 'lib/bytereader.c', 'lib/strings.c'], [('image', 'prog/emu/lc3.c: run'), ('instructions', 'prog/emu/lc3.c: op_*'), ('keyboard', 'prog/emu/lc3.c: mem_read; lib/os/term.c: stdin_has_input'), ('signal', 'prog/emu/lc3.c: handle_interrupt, finish')], ['stdout, stderr, exit status, the modes of the terminal']),
P('C32', 'A program built by che does what its source says',
  "che build of every well-formed program of several modules succeeds, whatever short or interrupted reads and writes it meets; the compiler is called once, is given every module once and accepts all of them; and the built program prints, returns and reports exactly what the source means: operators nest and group by their precedence with or without braces, line breaks and comments between tokens; casts, sizeof, nelem, ++ and -- before and after, and every compound assignment apply to the right operand; &&, || and conditions evaluate their parts in order and only as far as needed; if, else if, for (in all forms), while, break, continue, switch over numbers, characters and constants of this or another module (several values in a case, no fall-through, default) and switch str run the right branch; local names hide outer ones and functions of the same name; functions may use functions, types, constants and variables that are written after them; enums count from their values, #define constants, aliases, structures (nested, by value, by pointer, with unions and arrays), arrays (also of structures, with indices given), function pointers and variadic functions work within and across modules; every module has its own names, also when two modules have the same base name or one module is imported under two paths; string and character literals (multi-line, adjacent, with escapes, comment signs or quotes inside) have exactly their characters; panic prints its message with the file and line of its place and ends with status 1, and calloc! ends the program with a message and status 1 when it gets no memory.",
  ['inputs', 'faults'], 'all well-formed programs, wherever the reads and writes of their sources and of the generated files are cut', 'Programs are infinitely many; the tests sample a few and compare texts.',
  ['src/translator.rs', 'src/parser.rs', 'src/format_c.rs', 'src/lexer.rs', 'src/types.rs', 'src/preparser.rs', 'src/resolve.rs', 'src/node_queries.rs', 'src/cspec.rs'], [('translation', 'src/translator.rs: translate'), ('braces', 'src/format_c.rs: fmt_expr'), ('parsing', 'src/parser.rs: parse_expr, parse_statement'), ('tokens', 'src/lexer.rs'), ('modules', 'src/resolve.rs; src/build.rs: resolve imports')], ['exit status of che; what the compiler is given; stdout, stderr and exit status of the built program']),
P('C33', 'A program with a mistake in it is never handed to the C compiler',
  "che build of a program with one mistake in any of its modules ends in bounded time with a non-zero exit status and a message on stderr, the compiler is not called and che does not die of a signal, whatever short or interrupted reads it meets. Mistakes are: a name, function, type, module or exported member that does not exist; a private function, type, variable or constant of another module; an import loop; a variable, parameter, private function, private constant, module variable or import that is not used; a name used outside its scope; two declarations of a name in one scope; a function with a result whose last statement is not a return (nor an if, nor a switch whose every case returns); a wrong number of arguments (too few for a variadic function); a call of what is not a function; a dereference of what is not a pointer; a floating-point value as a loop condition or operand of && or ||; a comparison of a signed with an unsigned, a whole with a floating-point or a pointer with a number; arithmetic on bools or on two pointers, multiplication and bit operations on a pointer; an exported module variable; and any break of the grammar: unknown characters, literals, comments, brackets, statements or declarations that do not end or are cut off, missing separators.",
  ['inputs', 'faults'], 'all programs with one mistake, wherever the reads of their sources are cut', 'Tests sample a few mistakes, each in one place.',
  ['src/translator.rs', 'src/parser.rs', 'src/format_c.rs', 'src/lexer.rs', 'src/types.rs', 'src/preparser.rs', 'src/resolve.rs', 'src/node_queries.rs', 'src/cspec.rs'], [('names', 'src/translator.rs: end_scope, tr_nsid_in_expr'), ('types', 'src/types.rs'), ('returns', 'src/node_queries.rs; src/translator.rs: missing return'), ('syntax', 'src/parser.rs, src/lexer.rs, src/preparser.rs'), ('imports', 'src/resolve.rs, src/build.rs')], ['exit status and stderr of che, whether the compiler was called']),
P('C34', 'A picture is drawn as told, and the picture file holds exactly the picture',
  "lib/image: after any sequence of new, set, get, fill, clear, blend, paste (at any non-negative place, cut at the edges), explode and apply on pictures with colours 0..255, every pixel has the colour these operations give it (blend and mix are linear: old * (1 - p) + new * p to within 1, exact for 0 and 1, and blend leaves the alpha channel alone); mix, from_hsl, from_hsv and mapcolor are right to within 1; get and set outside of the picture end the program with a message. bmp.write, png.write (all five modes; palette mode for up to 256 colours) and ppm.writeimg: whatever the size of the picture, the short writes met and the file that was there before, a file whose writing was reported as successful is a valid file of its format (sizes, padding, checksums, block lengths) with exactly the pixels and alpha values of the picture (gray to within 1), and no memory or open file is left behind; when the disk is full, or opening, writing or closing fails so that something is lost, false is returned or the program ends with a message (for ppm.writeimg: the stream has its error flag). A PNG whose line does not fit into 65535 bytes is refused.",
  ['inputs', 'histories', 'faults'], 'sequences of drawing operations, picture sizes and colours, any write, open or close failing or cut short', 'There is no test of pictures at all.',
  ['lib/image.c', 'lib/formats/bmp.c', 'lib/formats/png.c', 'lib/formats/ppm.c', 'lib/enc/endian.c', 'lib/writer.c'], [('drawing', 'lib/image.c'), ('files', 'lib/formats/bmp.c: write; lib/formats/png.c: write; lib/formats/ppm.c: writeimg')], ['pixels returned; the file; the result of the writing function']),
P('C35', 'che exports and che deptree tell exactly what the modules export and import',
  "che exports M...: prints for every given module, in the order given and in source order, exactly its exported enum constants, type definitions (types and structures) and functions, each function with its result type, name and every parameter with its type (also parameters that share a type, pointers of any depth, arrays, and ... at the end), and nothing that is private. che deptree M: prints M and every import of every module in source order, each at its depth. When a module is missing, is broken or imports such a module, the command ends with a non-zero status and a message. Success is never reported when reading a source or writing the output failed; short and interrupted reads and writes change nothing; che never dies of a signal.",
  ['inputs', 'faults'], 'all sets of modules, wherever their reading or the writing of the output is cut or fails', 'There is no test of either command.',
  ['src/main_exports.rs', 'src/main_deptree.rs', 'src/preparser.rs', 'src/resolve.rs', 'src/format_che.rs', 'src/parser.rs'], [('exports', 'src/main_exports.rs: run'), ('deptree', 'src/main_deptree.rs: run'), ('forms', 'src/format_che.rs: fmt_form')], ['stdout, stderr and exit status of che']),
P('C36', 'The XML cursor is where the document says, and a damaged document is an error',
  "formats/xml: for every document of elements with attributes within the limits of the module (names of letters up to 15, 64 attributes, values up to 4095 bytes, 4 parents; spaces and line breaks between tags and attributes) and every sequence of enter, next and leave, xml_nodename and xml_attr tell the name and the attribute values (byte for byte) of the element these movements lead to: enter goes to the first child (true also for an element without children, false for a self-closing one or nowhere), next to the following sibling over everything inside the element, leave past the end of the parent whatever remains in it; past the last sibling the cursor is nowhere. A good document never gives an error; a document that is cut, has a closing tag with a wrong name or cannot be read to its end gives an error by the time it is walked to its end, every walk of a damaged document ends, and after an error there is no node and the error stays. A file that cannot be opened and a document nested too deeply end the program with a message. xml_close gives back everything.",
  ['inputs', 'histories', 'faults'], 'all documents, movements, and places where reading is cut or fails', 'The tests walk one small document.',
  ['lib/formats/xml.c'], [('cursor', 'lib/formats/xml.c: xml_enter, xml_next, xml_leave'), ('tags', 'lib/formats/xml.c: read_tag')], ['node names, attribute values, the error text']),
P('C37', 'decompose names the container in every line of a live log, at once',
  "prog/decompose: every line of a docker-compose log that arrives on stdin, in whatever pieces, of any length, also a last one without line end, comes out once and in order, before more input arrives: with the terminal colors around the container name and the bar taken away, as [NAME] MESSAGE, or, when the message starts with a brace, as that object with the name as its first member container, also when the object is empty. Names of any length, empty messages, lines without a bar, a single word, an empty line and half a color sequence come out the same way, each on a line of its own, the message byte for byte. Exit status 0 means that the whole input was read and the whole output written; otherwise there is a non-zero status with a message. No line corrupts memory, and memory does not grow with the number of lines.",
  ['inputs', 'schedules', 'faults'], 'lines, their pieces and times of arrival, reads and writes failing at any byte', 'There is no test of the program.',
  ['prog/decompose/decompose.c', 'lib/linereader.c'], [('lines', 'prog/decompose/decompose.c: main'), ('colors', 'prog/decompose/decompose.c: termcolor')], ['stdout at every idle moment and at the end, exit status']),
P('C38', 'A config file gives each of its pairs exactly, or an error',
  "formats/conf: next gives every pair of the file once and in order, then false, in whatever pieces the file is read: key and value separated by spaces and equal signs, spaces before the key skipped, the value byte for byte up to the line end or a #; comments of any length and blank lines are passed over, and a last line without line end counts. Lines of up to 255 bytes (without comments), keys of up to 99 and values of up to 199 bytes, with any bytes but zero, are read; a longer line, key or value, a line without a value, and a file that cannot be read to its end end the program with a message and a non-zero status after every pair before it was given. No file corrupts memory or makes the reader hang; free gives everything back.",
  ['inputs', 'faults'], 'all files, and places where reading is cut or fails', 'There is no test of the module.',
  ['lib/formats/conf.c'], [('pairs', 'lib/formats/conf.c: next'), ('lines', 'lib/formats/conf.c: next_line')], ['keys and values given, exit status and stderr']),
]
NA = [
{'prop': P('N03', 'The pure library functions compute what their names say',
  "Hashes, containers, option parsing, URL, MIME, UTF-8, statistics, FFT, random numbers and the image formats give the documented result for every argument.",
  ['inputs'], 'all arguments', 'Tests sample a few arguments.', ['lib/crypt/md5.c', 'lib/clip/map.c', 'lib/opt.c', 'lib/url.c', 'lib/mime.c', 'lib/utf.c', 'lib/stats.c', 'lib/fft.c', 'lib/rnd.c', 'lib/image.c', 'lib/formats/bmp.c', 'lib/formats/png.c', 'lib/formats/tiff.c'], [('functions', 'lib/')]),
 'reason': 'Single-threaded computations on values in memory without time, I/O or other parties; simulation has no choice to make in them. Those of them that the simulated programs use (sha1, vec, map, opt, url, mime, strbuilder) are run for real there.'},
]
