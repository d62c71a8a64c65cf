# Which scenarios decide which property, and how many runs per tier.
LIBC = 'libc below the library is the simulator: threads, scheduler, clock, file system, pipes, TCP, processes, stdio buffers, allocator'
PROC = 'system calls of the che process run under the simulator (LD_PRELOAD); the C compiler and the programs it makes are harness processes; a real file system below a scratch root'
RUST = 'the che binary built from the working tree (src/*.rs), whole'
def D(n, q, t): return {'name': n, 'engine': 'driver', 'scen': n + '.c', 'quick': q, 'thorough': t}
REGISTRY = {
    'C01': {'scenarios': [D('dbuild', 8000, 300000)], 'real': RUST, 'stub': PROC,
            'assumptions': ['a compiler that reports success has written its output', 'a message and a non-zero exit are an acceptable answer to a failing system call']},
    'C02': {'scenarios': [D('dconc', 6000, 200000)], 'real': RUST, 'stub': PROC,
            'assumptions': ['no two invocations are asked to write the same output file', 'one preemption point per system call']},
    'C03': {'scenarios': [D('dtest', 6000, 200000)], 'real': RUST, 'stub': PROC,
            'assumptions': ['the test directories given do not overlap']},
    'C04': {'scenarios': [D('dcrash', 6000, 200000)], 'real': RUST, 'stub': PROC,
            'assumptions': ['what a killed process has written stays in the file system (no power loss)']},
    'C05': {
        'scenarios': [{'name': 'tpipe', 'driver': 'tpipe.c', 'scen': 'tpipe.c', 'quick': 40000, 'thorough': 2000000}],
        'real': 'lib/os/threads.c as translated by the che built from the working tree',
        'stub': LIBC,
        'assumptions': ['sequentially consistent memory', 'preemption at libc calls and at heap/global memory accesses'],
    },
}
REGISTRY['C06'] = {
    'scenarios': [{'name': 'threads', 'driver': 'threads.c', 'scen': 'threads.c', 'quick': 60000, 'thorough': 3000000}],
    'real': 'lib/os/threads.c as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['sequentially consistent memory', 'preemption at libc calls and at heap/global memory accesses'],
}
REGISTRY['C07'] = {
    'scenarios': [{'name': 'spawn', 'driver': 'spawn.c', 'scen': 'spawn.c', 'quick': 20000, 'thorough': 800000}],
    'real': 'lib/os/proc.c, lib/reader.c, lib/writer.c as translated by the che built from the working tree', 'stub': LIBC + '; the spawned programs are harness processes',
    'assumptions': ['the caller drains both outputs and the data it feeds before reading fits the pipes'],
}
REGISTRY['C08'] = {
    'scenarios': [{'name': 'parallel', 'driver': 'parallel.c', 'scen': 'parallel.c', 'quick': 15000, 'thorough': 600000}],
    'real': 'lib/os/proc.c as translated by the che built from the working tree; fork() copies the simulated memory image', 'stub': LIBC,
    'assumptions': ['the caller has no other child processes and no signal handlers'],
}
REGISTRY['C09'] = {
    'scenarios': [{'name': 'net', 'driver': 'net.c', 'scen': 'net.c', 'quick': 40000, 'thorough': 2000000}],
    'real': 'lib/os/net.c, lib/reader.c as translated by the che built from the working tree', 'stub': LIBC + '; the peers are harness tasks',
    'assumptions': ['IPv4 only; TCP keeps order and does not corrupt'],
}
REGISTRY['C10'] = {
    'scenarios': [{'name': 'fs', 'driver': 'fs.c', 'scen': 'fs.c', 'quick': 60000, 'thorough': 3000000}],
    'real': 'lib/os/fs.c as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['files below 2 GiB; an error while listing a directory ends the listing early (the API has no way to report it)'],
}
WEB = {'name': 'web', 'driver': '@REPO/prog/webserver/webserver.c', 'scen': 'web.c'}
REGISTRY['C11'] = {
    'scenarios': [dict(WEB, quick=40000, thorough=1500000, skip=['contain-*'])],
    'real': 'prog/webserver and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC + '; clients and CGI scripts are harness tasks and processes',
    'assumptions': ['a client that pipelines reads its answers', "a script's diagnostics fit the pipe of its stderr", 'memory and threads can be allocated (the program ends with a message if not)'],
}
REGISTRY['C12'] = {
    'scenarios': [dict(WEB, quick=40000, thorough=1500000, only=['contain-*'])],
    'real': REGISTRY['C11']['real'], 'stub': REGISTRY['C11']['stub'],
    'assumptions': ['the directory tree does not change while a request is served'],
}
REGISTRY['C14'] = {
    'scenarios': [{'name': 'http', 'driver': 'http.c', 'scen': 'http.c', 'quick': 60000, 'thorough': 3000000}],
    'real': 'lib/protocols/http.c, lib/tokenizer.c, lib/strbuilder.c, lib/enc/urlencode.c, lib/reader.c, lib/writer.c as translated by the che built from the working tree', 'stub': 'the reader and writer handed to the library and the allocator are the simulator',
    'assumptions': ['header names without colon and line ends, header values and URIs without line ends and spaces, no zero bytes', 'the caller of write_request keeps within the capacities of request_t'],
}
REGISTRY['C13'] = {
    'scenarios': [{'name': 'streams', 'driver': 'streams.c', 'scen': 'streams.c', 'quick': 150000, 'thorough': 6000000}],
    'real': 'lib/reader.c, lib/writer.c, lib/tokenizer.c, lib/enc/endian.c, lib/bits.c, lib/linereader.c, lib/bytereader.c as translated by the che built from the working tree', 'stub': LIBC + '; custom readers and writers are streams of the simulator',
    'assumptions': ['literals and sets handed to the tokenizer are ASCII strings of up to 100 bytes without zero bytes; texts have no zero bytes', 'after an operation that reports failure with part of its input consumed the position is not specified', 'files below 2 GiB'],
}
REGISTRY['C15'] = {
    'scenarios': [{'name': 'ioloop', 'driver': 'loopdrv.c', 'beside': 'prog/torrent', 'scen': 'ioloop.c', 'quick': 30000, 'thorough': 1000000}],
    'real': 'prog/torrent/ioloop.c, lib/clip/buffer.c, lib/os/net.c as translated by the che built from the working tree', 'stub': LIBC + '; the peers are harness tasks',
    'assumptions': ['memory can be allocated', 'the wall clock does not jump'],
}
REGISTRY['C16'] = {
    'scenarios': [{'name': 'seed', 'driver': '@REPO/prog/torrent/torrent.c', 'scen': 'seed.c', 'quick': 10000, 'thorough': 400000}],
    'real': 'prog/torrent and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC + '; peers and tracker are harness tasks',
    'assumptions': ['the torrent file is well-formed and does not fail while it is loaded', "a tracker's answer that is HTTP has a well-formed body", 'memory can be allocated'],
}
REGISTRY['C17'] = {
    'scenarios': [{'name': 'trim', 'driver': '@REPO/prog/trim/trim.c', 'scen': 'trim.c', 'quick': 60000, 'thorough': 3000000}],
    'real': 'prog/trim and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['memory can be allocated', 'a kill of the process, not of the machine: completed file operations stay', 'nobody else changes the files meanwhile'],
}
REGISTRY['C18'] = {
    'scenarios': [{'name': 'datelog', 'driver': '@REPO/prog/datelog/datelog.c', 'scen': 'datelog.c', 'quick': 40000, 'thorough': 1500000}],
    'real': 'prog/datelog and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC + '; the calendar functions are the C library',
    'assumptions': ['lines without zero bytes', 'memory can be allocated', 'a kill of the process, not of the machine: completed writes stay'],
}
REGISTRY['C19'] = {
    'scenarios': [{'name': 'echo7', 'driver': '@REPO/prog/echo7/echo7.c', 'scen': 'echo7.c', 'quick': 60000, 'thorough': 2000000}, {'name': 'chargen', 'driver': '@REPO/prog/chargen/chargen.c', 'scen': 'chargen.c', 'quick': 12000, 'thorough': 500000}],
    'real': 'prog/echo7 and prog/chargen and every library they import, whole, as translated by the che built from the working tree', 'stub': LIBC + '; the clients are harness tasks',
    'assumptions': ['memory and threads can be allocated (the program ends with a message if not)'],
}
REGISTRY['C20'] = {
    'scenarios': [{'name': 'tlog', 'driver': 'tlog.c', 'scen': 'tlog.c', 'quick': 60000, 'thorough': 3000000}],
    'real': 'lib/log, lib/time and lib/os/threads, as translated by the che built from the working tree', 'stub': LIBC + '; the calendar functions are the C library with a seeded TZ',
    'assumptions': ['wall clock times after 1970', 'a clock step during a call exempts its time stamp', 'stderr can be written (partial writes are injected)', 'memory can be allocated'],
}
REGISTRY['C21'] = {
    'scenarios': [{'name': 'exab', 'driver': '@REPO/prog/exab/exab.c', 'scen': 'exab.c', 'quick': 40000, 'thorough': 2000000}],
    'real': 'prog/exab and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC + '; the server is a harness task',
    'assumptions': ['responses within the limits of http.response_t (C14)', 'memory and threads can be allocated', 'a response without a Content-Length that a reset cuts cannot be told from a shorter one'],
}
REGISTRY['C22'] = {
    'scenarios': [{'name': 'csv2json', 'driver': '@REPO/prog/csv2json/csv2json.c', 'scen': 'csv2json.c', 'quick': 40000, 'thorough': 2000000}, {'name': 'jsonl2csv', 'driver': '@REPO/prog/jsonl2csv/jsonl2csv.c', 'scen': 'jsonl2csv.c', 'quick': 40000, 'thorough': 2000000}],
    'real': 'the programs and every library they import, whole, as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['no zero bytes in the input', 'memory can be allocated', 'the first row of a table is not blank; values do not hold a bare CR outside of quotes'],
}
REGISTRY['C23'] = {
    'scenarios': [{'name': 'srt2jsonl', 'driver': '@REPO/prog/srt2jsonl/srt2jsonl.c', 'scen': 'srt2jsonl.c', 'quick': 40000, 'thorough': 2000000}, {'name': 'srtadjust', 'driver': '@REPO/prog/srtadjust/srtadjust.c', 'scen': 'srtadjust.c', 'quick': 40000, 'thorough': 2000000}, {'name': 'vtt2jsonl', 'driver': '@REPO/prog/vtt2jsonl/vtt2jsonl.c', 'scen': 'vtt2jsonl.c', 'quick': 40000, 'thorough': 2000000}],
    'real': 'the programs and every library they import, whole, as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['no zero bytes in the input', 'memory can be allocated', 'no line of a subtitle text is a plain number', 'no control characters but tab and line ends in texts'],
}
REGISTRY['C24'] = {
    'scenarios': [{'name': 'pack', 'driver': 'pack.c', 'scen': 'pack.c', 'quick': 24000, 'thorough': 1200000}],
    'real': 'lib/compress/lzw, lib/compress/huffman and every library they import, whole, as translated by the che built from the working tree', 'stub': LIBC + '; the sources and sinks are harness readers and writers, or a simulated file or standard input',
    'assumptions': ['memory can be allocated', 'a reader that fails looks like one that has ended: the reader interface has no way to tell'],
}
REGISTRY['C25'] = {
    'scenarios': [{'name': 'logfmt', 'driver': '@REPO/prog/logfmt/logfmt.c', 'scen': 'logfmt.c', 'quick': 30000, 'thorough': 1500000}],
    'real': 'prog/logfmt and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC + '; the host libc computes zone rules (localtime)',
    'assumptions': ['no zero bytes in the input', 'memory can be allocated', 'at most 99 excluded fields are certain to be honoured'],
}
REGISTRY['C26'] = {
    'scenarios': [{'name': 'mktorrent', 'driver': '@REPO/prog/torrent/torrent.c', 'scen': 'mktorrent.c', 'quick': 24000, 'thorough': 1200000}],
    'real': 'prog/torrent and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['memory can be allocated', 'announce, comment and created-by are below 200 bytes'],
}
REGISTRY['C27'] = {
    'scenarios': [{'name': 'mp3cuespl', 'driver': '@REPO/prog/mp3cuespl/mp3cuespl.c', 'scen': 'mp3cuespl.c', 'quick': 10000, 'thorough': 500000}],
    'real': 'prog/mp3cuespl and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['memory can be allocated', 'the bytes before the first frame hold no 0xFF', 'titles are below 100 bytes and hold no double quote', 'the tracks of a cue sheet are in order of their positions'],
}
REGISTRY['C28'] = {
    'scenarios': [{'name': 'post', 'driver': '@REPO/prog/post/post.c', 'scen': 'post.c', 'quick': 30000, 'thorough': 1500000}],
    'real': 'prog/post and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC + '; the mail server is played by the harness',
    'assumptions': ['memory can be allocated', 'the input holds no zero bytes', 'the expected codes are 220, 250 and 354 (a server may not say 251 or 252)', 'a server that stays connected answers in the end'],
}
REGISTRY['C29'] = {
    'scenarios': [{'name': 'multicut', 'driver': '@REPO/prog/multicut/multicut.c', 'scen': 'multicut.c', 'quick': 20000, 'thorough': 1000000}, {'name': 'zipranges', 'driver': '@REPO/prog/zipranges/zipranges.c', 'scen': 'zipranges.c', 'quick': 15000, 'thorough': 750000}, {'name': 'avg', 'driver': '@REPO/prog/avg/avg.c', 'scen': 'avg.c', 'quick': 40000, 'thorough': 2000000}, {'name': 'stats', 'driver': '@REPO/prog/stats/stats.c', 'scen': 'stats.c', 'quick': 8000, 'thorough': 400000}, {'name': 'hist', 'driver': '@REPO/prog/hist/hist.c', 'scen': 'hist.c', 'quick': 40000, 'thorough': 2000000}, {'name': 'json-table', 'driver': '@REPO/prog/json-table/json-table.c', 'scen': 'json-table.c', 'quick': 40000, 'thorough': 2000000}],
    'real': 'the programs and every library they import, whole, as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['no zero bytes in the input', 'memory can be allocated', 'numbers are in the range of int (zipranges, avg) or ordinary decimals (stats); hist is judged with whole numbers below 1000', 'times in avg are UTC', 'strings in json-table hold no line ends or control characters'],
}
REGISTRY['C30'] = {
    'scenarios': [{'name': 'wav', 'driver': '@REPO/prog/wav/wav.c', 'scen': 'wav.c', 'quick': 60000, 'thorough': 3000000}, {'name': 'wavcue', 'driver': '@REPO/prog/wavcue/wavcue.c', 'scen': 'wavcue.c', 'quick': 20000, 'thorough': 1000000}],
    'real': 'the programs and every library they import, whole, as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['memory can be allocated', 'silences are not within 1% of one second and levels not within 20% of the limit', 'wavcue is judged at rates up to 8000 Hz; a recording without samples is only checked for a clean end'],
}
REGISTRY['C31'] = {
    'scenarios': [{'name': 'lc3', 'driver': '@REPO/prog/emu/emu.c', 'scen': 'lc3.c', 'quick': 60000, 'thorough': 3000000}],
    'real': 'the program and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC + '; the terminal is a model of its input modes',
    'assumptions': ['memory can be allocated', 'SIGINT before the handler is installed ends the process as it does by default', 'the terminal can be set (no failing tcsetattr)'],
}
REGISTRY['C34'] = {
    'scenarios': [{'name': 'image', 'driver': 'image.c', 'scen': 'image.c', 'quick': 60000, 'thorough': 4000000}],
    'real': 'lib/image, lib/formats/bmp, png, ppm and every module they import, as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['memory can be allocated', 'colours are within 0..255'],
}
REGISTRY['C36'] = {
    'scenarios': [{'name': 'xml', 'driver': 'xml.c', 'scen': 'xml.c', 'quick': 60000, 'thorough': 4000000}],
    'real': 'lib/formats/xml as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['memory can be allocated', 'leave is not called at the top level'],
}
REGISTRY['C37'] = {
    'scenarios': [{'name': 'decompose', 'driver': '@REPO/prog/decompose/decompose.c', 'scen': 'decompose.c', 'quick': 40000, 'thorough': 3000000}],
    'real': 'prog/decompose and every library it imports, whole, as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['no zero bytes in the input', 'memory can be allocated', 'container names have no quotes or backslashes'],
}
REGISTRY['C38'] = {
    'scenarios': [{'name': 'conf', 'driver': 'conf.c', 'scen': 'conf.c', 'quick': 60000, 'thorough': 4000000}],
    'real': 'lib/formats/conf as translated by the che built from the working tree', 'stub': LIBC,
    'assumptions': ['memory can be allocated', 'no zero bytes in the file'],
}
REGISTRY['C35'] = {'scenarios': [D('dinfo', 8000, 400000)], 'real': RUST, 'stub': PROC,
    'assumptions': ['modules are those of the generator (scen/dinfo.c)']}
REGISTRY['C32'] = {'scenarios': [D('dtrans', 2200, 120000)], 'real': RUST, 'stub': PROC + '; the C that reached the compiler is compiled by the real gcc (-std=c99 -O0 -fwrapv) after the simulated run, next to a reference program that the generator wrote in plain C',
    'assumptions': ['programs are those of the generator (scen/dtrans.c): no undefined behaviour, the parts of the standard library they use are right']}
REGISTRY['C33'] = {'scenarios': [D('dbad', 6000, 400000)], 'real': RUST, 'stub': PROC,
    'assumptions': ['mistakes are those of the lists in scen/dtrans.c, put anywhere into a generated program']}
