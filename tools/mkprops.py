import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p("C01","Only hash-verified data is written to the target, in the right place",
 "Every byte csn writes to the target comes from chunk data that was obtained in this run and whose SHA-256, computed over exactly the bytes written and after they were last changed, was found equal to all 32 bytes of the chunk ID of the index entry being written. The data is written at exactly the offset and with exactly the length that this entry occupies in the image.",
 ["inputs","histories","fault_sequences"],"every index, every mix of stores (local, side-loaded, HTTP, target), every content of those stores including corrupted, changed or mis-sized data, every order of cache hits and misses",
 "The tests corrupt one byte pattern in one HTTP chunk and one local chunk; they cannot cover every source, every path a chunk can take (reuse of the previous chunk, retry, rescan) or every index.",
 ["main.c","store-local.c","store-http.c","target.c","store.c","chunk.h"],
 [("per-entry fetch and write","main.c entry_cb"),("hash comparison of fetched chunks","store-http.c store_http_get_chunk"),("validation of local chunks","store-local.c store_local_get_chunk"),("read-back from the target","target.c target_get_chunk")],
 [("last_id/buf","the previously fetched chunk that may be reused","main.c entry_cb")],["pwrite on the target"])

p("C02","Exit status 0 means the whole image is in place",
 "csn, under both of its command lines, exits with status 0 only if the index was loaded and every one of its entries, in order and without omission, was either found to be already correct on the target or was written to it in full. If any entry cannot be represented, obtained or written, or the command line asks for anything else than an extraction, no success is reported.",
 ["inputs","fault_sequences","configurations"],"every index file, command line, store behaviour and I/O fault",
 "Tests only run well-formed command lines and indices, and one failing chunk; the claim is about every way an entry can be missed.",
 ["main.c","caibx.c","target.c"],
 [("entry iteration","caibx.c caibx_iterate_entries"),("per-entry callback","main.c entry_cb"),("exit status","main.c main"),("argument handling","main.c csn, casync")],
 None,["exit status of csn/casync","target content"])

p("C03","Malformed or unsupported indices are refused before anything is written",
 "An index is only used if its index magic, feature flags (SHA-256, no unknown features), header length, chunk size parameters, table magic, and footer (zero fill, index offset, table size, tail marker) are all valid and its size is a whole number of entries. Otherwise loading it fails, and an extraction fails before the target is written.",
 ["inputs"],"every byte sequence offered as an index, primary or side-loaded",
 "No test feeds a malformed index at all.",
 ["caibx.c","chunker.c","main.c"],
 [("header checks","caibx.c load_index_header"),("table header check","caibx.c validate_table_header"),("footer checks","caibx.c validate_table_footer"),("size checks","caibx.c caibx_load_header"),("chunk size parameters","chunker.c chunker_params_set")])

p("C04","I/O failures are never reported as success",
 "If an open, size query, seek, read, write or sync that csn, csn-tool or patchdd depends on for the requested operation fails for any reason other than an interrupted call, or a file ends early, then the operation that needed it is not treated as having succeeded: the source is skipped, the fallback is taken, or the program exits with a nonzero status.",
 ["fault_sequences"],"every system call on every path failing, singly or repeatedly",
 "The tests inject no I/O faults.",
 ["utils.c","main.c","target.c","store-local.c","caibx.c","chunker.c","csn-tool.c","patchdd.c"],
 [("complete-transfer helpers","utils.c readall, preadall, writeall, pwriteall"),("propagation","all callers")])

p("C05","Interrupted and partial transfers are continued exactly where they stopped",
 "When a read, write, positioned read or positioned write transfers only part of the requested bytes, the transfer continues with the next byte at the next file position until exactly the requested number of bytes has been transferred, so that no byte is lost, repeated or displaced. An interrupted call is retried unchanged, and a premature end of file is an error.",
 ["fault_sequences","schedules"],"every sequence of partial results and EINTR",
 "On regular files the kernel practically never returns short counts or EINTR, so tests never execute these paths.",
 ["utils.c","chunker.c","sha.c"],
 [("transfer loops","utils.c readall, preadall, writeall, pwriteall"),("kernel crypto feed","sha.c sha_once"),("scan loop","chunker.c chunker_scan_fd")])

p("C06","Stores are consulted in command-line order; failed stores are dropped",
 "For each chunk the stores are asked in the order in which they were given, and the first one that has the chunk supplies it. A store that fails is not asked again for the rest of the run and does not prevent later stores from being asked, and a store that merely lacks the chunk stays in use.",
 ["inputs","histories","fault_sequences"],"every number of stores and every history of hits, misses and failures",
 "Tests use at most two stores and no failing store.",
 ["store.c","main.c"],
 [("chain query","store.c store_chain_get_chunk"),("chain construction","store.c store_chain_append; main.c append_store_from_arg")],
 [("substore.active","store has not failed yet","store.c")])

p("C07","HTTP results are classified as hit, miss, transient or fatal",
 "A chunk request answered with 404 or 410 is a miss and does not count against the store; transient connection failures that persist through all retries and HTTP error statuses of 400 and above are counted, and the store is given up only once more than ten such failures have occurred since the last good answer; other transfer errors fail the store at once. A body is only decoded when the status is 200, and data that cannot be decoded or whose hash is wrong is a miss.",
 ["inputs","fault_sequences","histories"],"every server behaviour: statuses, errors, bodies, and their order",
 "Tests serve only 200 and 404 with well-formed bodies (one corrupted).",
 ["store-http.c"],
 [("outcome classification","store-http.c store_http_get_chunk"),("error counter","store-http.c increase_error_counter"),("status gate","store-http.c store_http_data_cb")],
 [("error_count","consecutive counted failures","store-http.c")])

p("C08","Every HTTP attempt decodes from scratch, and retries are bounded",
 "Each attempt to download a chunk, including every retry after a transient failure, starts with a fresh decompressor, an empty input buffer, an output position of zero, an initial request state and, for encrypted stores, a keystream restarted for this chunk. The number of attempts per chunk is bounded and the wait between them grows up to a limit.",
 ["fault_sequences","histories"],"every interleaving of partially transferred bodies and transient failures",
 "No test makes a transfer fail part-way.",
 ["store-http.c"],
 [("retry loop","store-http.c retried_curl_easy_perform"),("request setup","store-http.c store_http_get_chunk")])

p("C09","A side-loaded index is a hint: bad ones fall back to scanning",
 "If a side-loaded index cannot be opened, is malformed, has other chunk size parameters than the image, or turns out not to describe the store's content (hash mismatch, chunk beyond the end of the store, chunk too large to be used), it is discarded and the store is scanned instead; a local store never answers from an entry whose content it has not hashed. The rescan happens at most once per query, so a query always terminates.",
 ["inputs","histories"],"every pair of side-loaded index and store content",
 "Tests side-load one correct index and one store with four flipped bytes.",
 ["store-local.c","caibx.c","index.c"],
 [("sideload and fallback","store-local.c store_local_new, store_sideload_index"),("validation and rescan","store-local.c store_local_get_chunk")])

p("C10","Resumption skips exactly the verified prefix, without fetching or writing",
 "While resuming, an entry whose bytes on the target already hash to its chunk ID is neither requested from any store nor written again. The first entry that cannot be read from the target or does not match ends the skipping, and that entry is fetched and written.",
 ["inputs","crash_points"],"every state in which an earlier run, interrupted at any point, can have left the target",
 "One test resumes after two whole chunks; interruption can leave any prefix and any garbage.",
 ["main.c","target.c"],
 [("prefix check","main.c entry_cb; target.c target_check_chunk")],[("resuming","still inside the verified prefix","main.c entry_cb")])

p("C11","Only the named target is ever modified, and it is never created",
 "csn opens every file other than the target read-only, opens the target without creating or truncating it, and all data it writes to files goes to the target; it removes, renames or truncates nothing. patchdd likewise modifies nothing but its destination.",
 ["inputs","configurations"],"every command line and every path through both programs",
 "A test sees only the files it looks at; the claim is about all system calls on all paths.",
 ["target.c","store-local.c","utils.c","main.c","patchdd.c","store-http.c"],
 [("target open","target.c target_new"),("read-only opens","store-local.c, main.c, utils.c slurp_file")])

p("C12","csn-tool never modifies existing files and leaves no broken output behind",
 "csn-tool crypt never changes its input or any output file that already exists, whatever else happens concurrently. When producing an output file fails after it has been created, the file is removed again, so that a later run does not mistake it for a finished one; and success is only reported once the complete result has been written.",
 ["inputs","fault_sequences","schedules"],"every set of paths, every I/O fault, every concurrent creation of the output",
 "No test runs csn-tool.",
 ["csn-tool.c"],
 [("existence check and creation","csn-tool.c encrypt_one"),("write and cleanup","csn-tool.c encrypt_one")])

p("C13","Every chunk is en/decrypted with its own keystream from block zero",
 "Whenever chunk data is encrypted or decrypted, the cipher has been restarted for that very chunk: subkey derived from the configured key and the first 16 bytes of the chunk ID, nonce bytes 16 to 23 of the ID, block counter zero. Every byte of the chunk passes through the cipher exactly once and in order, cipher failures are never treated as success, and a store configured without a key never decrypts.",
 ["inputs","histories","fault_sequences"],"every sequence of chunks, fragment sizes, retries and cipher failures",
 "Tests decrypt four chunks in one HTTP run and check fixed vectors; mixes of chunks, retries, large inputs and failures are not covered.",
 ["encrypt.c","store-http.c","csn-tool.c","doc/chunk-encryption.md"],
 [("restart","encrypt.c encrypt_restart"),("processing","encrypt.c encrypt_do; store-http.c decode_buffer_absorb; csn-tool.c encrypt_one")])

p("C14","Encryption keys never appear in diagnostics",
 "Key material, in whatever form it was supplied (literally in a store URL or keyspec, through the environment, or in a file) or derived, never reaches the log, standard output or standard error, at any log level and on any path including error paths.",
 ["inputs","configurations","fault_sequences"],"every keyspec form, including malformed ones, and every path",
 "Tests never look at the log output.",
 ["store-http.c","encrypt.c","main.c","csn-tool.c","store.c","utils.c"],
 [("store name","store-http.c store_http_new"),("error messages","encrypt.c encrypt_parse_keyspec; store-http.c store_handle_params; main.c append_store_from_arg")])

p("C15","Temporary copies of key material are wiped",
 "Every temporary buffer in which key material is decoded or derived (the subkey, the decoded key handed to the cipher set-up, the cipher state working block, the text of a key file) is overwritten before the function that owns it returns, on every path, in a way the compiler may not remove.",
 ["fault_sequences","inputs"],"every path including failures",
 "Wiping is unobservable for a test of the program's results.",
 ["encrypt.c","store-http.c","csn-tool.c"],
 [("wipe","encrypt.c crypto_wipe and its callers")])

p("C16","Only a complete, well-formed key is ever accepted",
 "A keyspec is accepted only if it names one of the three documented sources and yields exactly 64 hexadecimal digits (after removing line ends from a file); all 32 key bytes are then those digits' value. Everything else is refused, and a store or command with a refused key is not used at all, in particular never without encryption.",
 ["inputs"],"every keyspec string, environment and key file",
 "Tests use one well-formed key: keyspec.",
 ["encrypt.c","utils.c","store-http.c","csn-tool.c"],
 [("keyspec parsing","encrypt.c encrypt_parse_keyspec"),("hex decoding","utils.c parse_hex"),("store parameters","store-http.c store_handle_params")])

p("C17","A digest always covers the whole input, whichever backend computes it",
 "A successfully computed chunk digest is always that of the complete input. If the kernel crypto interface fails at any point, the digest is computed in software over the complete input instead, the failed interface is not used again, and a digest of the wrong length is never accepted.",
 ["fault_sequences","inputs"],"every point at which the kernel interface can fail or accept only part of the data",
 "The kernel interface is not available to the tests, and failures part-way cannot be provoked with it.",
 ["sha.c","chunk.h"],
 [("backend selection and fallback","sha.c sha_once")],[("kcapi_fd","open kernel hash instance or -1","sha.c")])

p("C18","Lengths from outside never make a buffer access go out of bounds",
 "No length, offset or count that comes from an index, a store, a server, a key or a path can make the programs read or write outside the memory object a buffer access is meant for.",
 ["inputs"],"every index, server response, store content, key and path",
 "ASan sees only the accesses the tests' inputs cause.",
 ["main.c","store-local.c","store-http.c","target.c","caibx.c","chunker.c","utils.c","csn-tool.c","encrypt.c","index.c"],
 [("length checks","main.c entry_cb; store-local.c, target.c get_chunk"),("buffer growth","store-http.c decode_buffer_absorb; index.c index_insert"),("URL buffer","store-http.c set_url, store_http_new"),("output path buffer","csn-tool.c encrypt_one")])

p("C19","An indexed chunk is found until the index is discarded",
 "Once a chunk has been added to an index, every later lookup of its ID finds an entry with that ID, and a lookup of any other ID finds nothing, no matter how insertions and lookups are interleaved and how often the index has grown.",
 ["histories"],"every sequence of insertions, growth steps and lookups",
 "Tests insert a handful of chunks and never exceed the initial estimate.",
 ["index.c","index.h"],
 [("growth and insertion","index.c index_insert"),("sorting and lookup","index.c index_query, index_sort, index_entry_compare")],[("sorted","array is in ID order","index.h")])

p("C20","Scanning covers the store with gap-free, size-bounded, history-free chunks",
 "Scanning a store yields consecutive chunks that cover it completely from offset 0 to its end, each reported with its own offset, length and digest; none is longer than the maximum size and none but the last is shorter than the minimum size. Where a chunk ends and what its ID is does not depend on any data before the chunk.",
 ["inputs"],"every store content, every accepted set of chunk size parameters, every split of the data into reads",
 "Tests chunk a few synthetic images with default parameters.",
 ["chunker.c"],
 [("break decision","chunker.c chunker_shall_break"),("scan","chunker.c chunker_scan"),("reset","chunker.c chunker_reset"),("driver","chunker.c chunker_scan_fd")])

p("C21","No input makes the programs abort or divide by zero",
 "No index, side-loaded index, store content or size, target content, server response, key or command line can trigger an assertion failure, an integer division by zero or a null pointer dereference; bad input always ends in a reported error or is ignored.",
 ["inputs","fault_sequences","configurations"],"every external input and every failing call",
 "Tests use inputs of ordinary size and shape; empty images, tiny stores, repeated offsets and extreme parameters are not tried.",
 ["index.c","chunker.c","main.c","store-local.c","store-http.c","caibx.c","utils.c","csn-tool.c","patchdd.c"],
 [("assertions","u_assert in all modules"),("discriminator","chunker.c chunker_init, chunker_shall_break"),("store set-up","main.c csn, casync")])

p("C22","Work per chunk or file holds no resources afterwards",
 "Processing one chunk (csn) or one file (csn-tool crypt) releases every file descriptor and every heap block it acquired, unless that block stays owned by a store, index or cipher context that is itself released or reused; nothing is released twice or used after release. This holds on success and on every failure path.",
 ["histories","fault_sequences"],"arbitrarily long runs, every failure path",
 "Tests process a handful of chunks; leaks and double releases on failure paths stay invisible.",
 ["csn-tool.c","utils.c","store-local.c","store-http.c","index.c","sha.c","encrypt.c"],
 [("release","csn-tool.c encrypt_one; utils.c slurp_file; store-local.c; sha.c sha_kcapi_init; encrypt.c encrypt_parse_keyspec")])

p("C23","Success is reported only once the data is durable",
 "csn and patchdd exit with status 0 only after all data written to the target has been synced to the device with a sync that reported success; no write to the target follows that sync.",
 ["crash_points","fault_sequences"],"power loss at any moment after the exit, and every delayed write error",
 "Tests neither lose power nor have devices that fail on write-back.",
 ["main.c","target.c","patchdd.c"],
 [("final sync","main.c main; patchdd.c main")])

p("C24","Diagnostics are emitted intact, and data in them is never interpreted",
 "Every diagnostic message is emitted completely with its arguments formatted as written in the source, whatever its length and whatever data it reports; data from outside is never used as a format.",
 ["inputs"],"every message and every argument value",
 "Tests do not look at log output.",
 ["log.c","log.h"],
 [("formatting","log.c _u_log")])

p("C25","After patchdd succeeds the destination starts with the whole source",
 "patchdd exits with status 0 only if every byte of the source has been compared with, or written to, the same offset of the destination, so that the destination's leading bytes equal the source; nothing beyond the source's size is ever written, and a destination smaller than the source is refused before anything is written.",
 ["inputs","fault_sequences"],"every pair of source and destination contents and sizes",
 "No test runs patchdd.",
 ["patchdd.c","utils.c"],
 [("block loop","patchdd.c main"),("difference search","patchdd.c memcmp_offset")])

p("C26","Repeated chunks are not fetched again",
 "A chunk that directly repeats the previous index entry's ID and length is not requested from any store again. When the target is also given as a store, every chunk written to it or found on it so far in the run is offered from the target, at the position where it is.",
 ["inputs","histories"],"every index and every sequence of repeats",
 "Two tests repeat one chunk once.",
 ["main.c","target.c","index.c"],
 [("reuse","main.c entry_cb"),("target index","target.c target_add_chunk, target_get_chunk")])

p("C27","Both command lines set up the same run; unknown requests fail",
 "The csn and casync command lines both open and validate the index, open the target and add exactly the given stores in order before extraction starts; a request for help, an unknown option, a missing argument or an unknown command of any of the tools never starts an operation, and unless help was requested it ends with a nonzero exit status.",
 ["configurations","inputs"],"every command line",
 "Tests only use the csn form with valid arguments.",
 ["main.c","csn-tool.c","csn-bench.c","patchdd.c"],
 [("argument handling","main.c csn, casync; csn-tool.c main; csn-bench.c main; patchdd.c main")])

p("C28","Chunk boundaries are identical to casync's",
 "For every content and every set of size parameters, scanning produces exactly the chunk boundaries and IDs that casync's chunker produces, independent of how the data is split into reads.",
 ["inputs"],"every content and read split",
 "Tests compare a few contents.",
 ["chunker.c"],[("rolling hash","chunker.c chunker_scan, buzhash_table")])

p("C29","Encryption is XChaCha20 for every key, ID and length",
 "For every key, chunk ID and data, encryption yields the XChaCha20 encryption with counter zero, and encrypting twice gives back the original.",
 ["inputs"],"every key, ID and data",
 "Fixed vectors only.",
 ["encrypt.c"],[("hchacha20","encrypt.c hchacha20"),("cipher","encrypt.c encrypt_restart, encrypt_do")])

p("C30","Memory use is bounded independently of image and server",
 "Peak memory use is bounded by the index sizes and a constant per store, whatever a server sends.",
 ["inputs"],"every image and server response",
 "Not measured by tests.",
 ["store-http.c","index.c"],[("decode buffer","store-http.c decode_buffer_absorb")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
