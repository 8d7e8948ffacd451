CLAIMED.update({
"B02":("exploration","differential monitor: views of the finished book, image files and statistics under many threads, delay styles and warm caches compared with a sequential reference run of the real binary; tool log checked for repeated and overlapping runs","Schedules are forced by injected answer and tool delays and otherwise the scheduler's; wiki and tools are deterministic stand-ins."),
"B03":("exploration","Go race detector on the whole program (race build of /repo) under stress workloads with shared cache entries, delays, eviction and outdated entries","Only executions that happened are judged."),
})
CLAIMED.update({
"F01":("fault_enumeration","real binary under a fault plan: every faultable HTTP request and tool start of recorded reference runs is broken in turn (statuses, API errors, aborted, half and non-JSON answers, failing, killed and half-writing tools); monitor over exit status, claimed success, converter log and output file","Fault sites come from recorded reference runs of sampled projects; the fault kinds are listed in the evidence."),
"F02":("fault_enumeration","real binary killed at recorded events (answers, tool starts, half-written bodies, system calls by strace) or ended by faults, then run again with a healthy wiki; monitor compares book, images and cache with an undisturbed run and looks for garbage in the cache","SIGKILL of the process, not loss of power; kill points are events of recorded runs and sampled times."),
"C01":("fault_enumeration","in-process driver of the real cache with a fault-injecting file system: error, half write and kill at every file system call; concurrent histories under the race detector, checked for complete bodies and linearizability with porcupine","A kill keeps completed file system calls; scenarios and schedules are sampled, fault sites within a scenario are enumerated."),
"C02":("exploration","online model of limit, necessity and eviction order over random histories of the real cache, limit asserted at every rename under concurrency, and whole runs with small limits","Uses less than 10 ms apart may count in either order; histories are sampled."),
"C03":("exploration","monitor over the fake wiki's request log and the cache's contents across runs with aged entries, compared with a run on an empty cache","Ages are set through modification times and keep a margin from the limit."),
"C04":("exploration","adversarial name families stored through the real cache and through whole runs; monitor of file placement and of every lookup's body","Name families are sampled."),
"H01":("exploration","fake wiki answers 429 in plans over all requests; monitor of the repetition's identity, waiting time, request count and of the run's result and cache","Waiting times are short real ones measured at the server."),
"H02":("exploration","server-side decoding of every request of the real binary compared with the set of requests the project needs","Names, hosts and user agents are sampled."),
})
CLAIMED.update({
"E01":("exploration","monitor over the recorded converter call (stand-in tool logging arguments, directory, input files and times) compared option by option with the generated configuration and with the request log","Options and metadata are sampled; the converter itself is a stand-in."),
"E02":("exploration","monitor over the recorded starts of the stand-in image tools: multiset of calls compared with the one computed from the images and templates, word by word; a second run must start none","Templates and image names are sampled."),
"E03":("exploration","offline checker over the finished archive of the internal driver (read back with an independent reader) against the chapters recorded for the same project with the converter driver","Structure and contents are judged, not the rendering."),
"V01":("exploration","generated SVG files with their expected bytes; monitor compares the cached file, the converter's input and the referenced image byte for byte, over repeated runs","Root attributes without entities and namespace prefixes; files are sampled."),
})
CLAIMED.update({
"G01":("exploration","monitor of the effective configuration the real binary prints and of its effects (requests, user agent, tool and converter calls, cache directory) against a reference merge; every option x every subset of sources enumerated, then random full assignments","Relative paths are judged by G03; configurations stay valid after each source."),
"G02":("exploration","enumeration of invalid values x sources x commands on the real binary, monitored for exit status, requests, tool starts and any changed file in the scratch world","Invalid values are the listed ones, with random valid noise around them."),
"G03":("exploration","random directory layouts with decoy files in every base directory; monitor over converter arguments, contents seen, cache place, output place and all files created","Directory names without characters reserved by the cache (percent sign, colon, quotes)."),
})
CLAIMED.update({
"S01":("exploration","monitor compares the statistics files of generated articles (alone and as books, JSON and text) with an independent count of the composed document; exact character differences for variants with longer words","Character totals are judged within the document's white space, differences exactly; documents are sampled."),
})
CLAIMED.update({
"P01":("exploration","hostile text workload (eight classes of generated, broken, repeated, nested and look-alike wikitext, as article contents and as template results) on the real binary; monitor over exit status, signals, panics, CPU time and missing output, with shrinking","Texts are sampled and of at most some 10 kB; more than 60 s of CPU time for one text counts as a hang."),
})
CLAIMED.update({
"R01":("exploration","online counters at the server side of the fake wiki (waiting requests, open connections) and recorded tool intervals while the real binary processes hundreds of resources with recovered failures; most runs under a hard limit of open files and without garbage collection, so that nothing is closed which the program does not close itself; article answers are held back until every worker has one","Project lengths are sampled (up to some 900 requests); memory is only recorded."),
"L01":("exploration","trace monitor: articles made of marked uses of a random vocabulary (or of a shipped configuration) run through the real binary; the order of text markers and picture contents in the chapter and the set of requests at the fake wiki are compared with those predicted while generating","Vocabularies and articles are sampled; words are configured in lower case and belong to one list only."),
"D01":("fault_enumeration","fault injection below the program: it is built with go build -overlay against a standard library whose os package numbers and records every file operation in the scratch world and makes chosen ones fail, write half, or fail from then on; every recorded operation of generated projects is replayed failing; monitor over exit status, messages, converter input and output, then over a healthy second run on the left-over cache","Operations of the Go program only, not of pandoc or the image tools (F01 covers those failing); failing close or sync calls are not simulated; quick mode samples the operations evenly over (operation, folder, error)."),
"A01":("exploration","differential monitor over the real binary: chapter, images, converter options and statistics of the same generated article under the three commands, all logging levels, diagnostics options, working directories and repeated runs, compared with the project run","Articles and variants are sampled; diagnostics files themselves are not judged."),
"W01":("exploration","snapshot monitor: the whole scratch world is compared before and after runs of the real binary with every kind of output and cache path, also failing ones; the set of changed files is judged against the expected output and the cache's own folders","Writes to places outside the scratch world would not be seen; path variants are sampled."),
})
