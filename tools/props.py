"""What each check runs: scenario sources, variants, number of simulated runs (quick, thorough), rule for non-trivial runs."""
W, P, R, N = "win-debug", "posix-debug", "win-release", "win-nofatal"
PROPS = {
    "C01": dict(src=["t_isolation"], runs={W: (4600, 60000), P: (2500, 30000), R: (1200, 15000)}, rule="A run draws 2-4 jobs (lists of library calls), a configuration per context and a schedule interleaving the jobs' steps over the contexts, executes it in one simulated process and each job alone in another; non-trivial: at least three interleaved steps and every job runs alone."),
    "C02": dict(src=["t_jobs"], runs={W: (8100, 90000), P: (3600, 40000), R: (1800, 20000)}, rule="A run draws 1-4 rounds of job+reset (possibly abandoned half way, possibly with a second context alive), then a last job whose transcript is compared with the same job in a fresh process; non-trivial: every completed run."),
    "C03": dict(src=["t_jobs"], runs={W: (16200, 200000), P: (7200, 90000), R: (3600, 45000)}, rule="A run draws 1-3 contexts over simulated heaps and a random sequence of init, job steps, reset and deinit, then ends every context; non-trivial: every completed run."),
    "C05": dict(src=["t_jobs"], runs={W: (6400, 80000), P: (2800, 40000), R: (1400, 20000)}, rule="A run draws either a job whose every earlier node and string is read back after every later step, or a growth workload of up to 400 nodes and strings over tight pools, arenas and tables; non-trivial: every completed run."),
    "C06": dict(src=["t_jobs"], runs={W: (9000, 120000), P: (4300, 60000), R: (2100, 30000)}, rule="A run draws a job and a random configuration (allocators shared, separate or defaulted, every initial size) and compares the transcript with the one under a roomy reference configuration; non-trivial: the job runs under the reference."),
    "C07": dict(src=["t_jobs"], runs={W: (10800, 140000), P: (4600, 60000), R: (2300, 30000)}, rule="A run draws a job, a configuration, a heap and the position of the request that fails (once, or that one and all later ones); non-trivial: an allocation actually failed."),
    "C17": dict(src=["t_jobs"], runs={W: (7500, 100000), P: (3600, 50000), R: (1800, 25000)}, rule="A run draws a job and executes it again with other contents of fresh memory, other addresses, other block movement, another clock and possibly an earlier unrelated use of the library in the same process; non-trivial: the job runs in the reference."),
    "C08": dict(src=["t_io"], runs={W: (16200, 250000), P: (10800, 150000), R: (5400, 75000)}, rule="A run draws a file (absent, empty, around buffer sizes, binary, or source text with an editor-only block), a reader (whole contents, scan_file, parse_file), and faults for its open, size, seek, read and close calls or a writer racing with it; non-trivial: every completed run."),
    "C09": dict(src=["t_io"], runs={W: (12600, 200000), P: (9000, 120000), R: (4500, 60000)}, rule="A run draws 1-3 output files with their pieces, earlier contents, a disk capacity and faults for open, write, close and the console; non-trivial: every completed run."),
    "C10": dict(src=["t_io"], runs={W: (16200, 250000), P: (10800, 150000), R: (5400, 75000)}, rule="A run draws a history of file calls over several files and modes together with faults and compares each result with a model of the files; non-trivial: every completed run."),
    "C11": dict(src=["t_io"], runs={W: (6300, 100000), P: (4500, 60000), R: (2200, 30000)}, rule="A run draws a generator program, kills it in 1-3 chosen system calls (with torn writes), checks the disk each time and finally runs it to the end; non-trivial: every completed run."),
    "C18": dict(src=["t_io"], runs={W: (16200, 250000), P: (10800, 150000), R: (5400, 75000)}, rule="A run draws a kind of memory stream, a size, a history of reads, writes and seeks and possibly a failing allocator, against a model; non-trivial: every completed run."),
    "C12": dict(src=["t_mem"], runs={W: (16200, 250000), P: (10800, 150000), R: (5400, 75000)}, rule="A run draws an element size, a backing allocator that may fail or move blocks and a history of array operations, against a model; non-trivial: at least three operations took effect."),
    "C13": dict(src=["t_mem"], runs={W: (16200, 250000), P: (10800, 150000), R: (5400, 75000)}, rule="A run draws keys (including colliding ones), a backing allocator that may fail and a history of table operations, against a model; non-trivial: at least three operations took effect."),
    "C14": dict(src=["t_mem"], runs={W: (16200, 250000), P: (10800, 150000), R: (5400, 75000)}, rule="A run draws a backing allocator that may fail or move blocks and a history of string builder operations, against a model; non-trivial: at least three operations took effect."),
    "C15": dict(src=["t_mem"], runs={W: (16200, 250000), P: (10800, 150000), R: (5400, 75000)}, rule="A run draws an allocator (arena, fixed arena, pool, heap, context default, virtual memory), its backing store and a history of requests, resizes and releases, against a model of live blocks; non-trivial: at least three operations took effect."),
    "C04": dict(src=["t_lang"], runs={W: (14400, 250000), P: (9000, 150000), R: (4500, 75000)}, rule="A run draws 1-2 contexts with random string storage and a history of interning (few names, names of equal crc32, all lengths, any bytes), other work and resets, against a model of interned texts; non-trivial: every completed run."),
    "C19": dict(src=["t_data"], runs={W: (16200, 250000), P: (10800, 150000), R: (5400, 75000)}, rule="A run draws a table (quoted, bare and numeric cells, header, delimiter) that is written to memory and to a file and read again, a malformed or arbitrary text, a table file read under disk faults, or a history of edits of a data tree against a model; any request for memory may fail; non-trivial: every completed run."),
    "C20": dict(src=["t_lang"], runs={W: (14400, 250000), P: (9000, 150000), R: (4500, 75000)}, rule="A run draws 1-2 contexts and a history of template calls (names, values, templates, buffer sizes) with other work and resets between, against a reference substitution; non-trivial: every completed run."),
    "C21": dict(src=["t_lang"], runs={W: (9000, 150000), P: (6300, 90000), R: (3100, 45000)}, rule="A run draws a history of making, appending to, merging and duplicating into bodies of every kind, or of parameter lists, specifier lists and parents, and compares every list, piece and printed text with reference lists after each step; non-trivial: every completed run."),
    "C22": dict(src=["t_lang"], runs={W: (14400, 250000), P: (9000, 150000), R: (4500, 75000)}, rule="A run draws 1-2 contexts and a history of registering (singly, in lists, by parsing definitions) and resets, with names of equal crc32, against reference registries that are compared after each step; non-trivial: every completed run."),
    "C23": dict(src=["t_lang"], runs={W: (14400, 200000), P: (14400, 200000), R: (7200, 100000)}, rule="A run draws a starting time and a history of elapsed times, wall-clock settings and readings of the relative clock; non-trivial: every completed run."),
    "C24": dict(src=["t_program"], runs={"posix-program-segmented": (420, 12000), "posix-program-singleheader": (420, 12000), "posix-program-base": (600, 20000), "posix-program-unreal": (420, 12000), "posix-program-clibrary": (320, 9000), "win-program-clibrary": (320, 9000), "win-program-base": (500, 12000)}, rule="A run executes one of the repository's generator programs over the repository's sources on the simulated disk: with other memory contents, addresses and clock, with I/O faults or failing allocations from a drawn moment on, or killed in drawn system calls, and then once more undisturbed; non-trivial: every completed run."),
    "C25": dict(src=["t_torn"], runs={W: (12600, 200000), P: (6300, 80000), R: (8100, 120000)}, rule="A run draws a source, damages it (tail lost, span lost, doubled or repeated, stray tokens, bytes swapped, sector overwritten, bits flipped), hands it to one of 18 parsing procedures or to parse_file from a simulated disk, twice with other contents of memory, and possibly gives the context more work afterwards; non-trivial: every completed run."),
}
