"""Which scenarios and rules decide which property."""
import runs, mons, p_main, p_func, p_stores, p_http, p_crypt, p_tool, p_fn, p_patchdd, p_diag

MEM = [mons.Mem, mons.Abort, mons.Life]

# scenario -> rules, or property -> rules where they are costly together
MONS = {
    'local': [p_stores.Held, p_stores.ReadOnly, p_stores.Local],
    'target': [p_stores.Held, p_stores.Target],
    'chain': {'C06': [p_stores.Chain], 'C01': [p_stores.Chain], 'C11': [p_stores.ReadOnly], 'C22': [p_stores.Held]},
    'xfer': [p_func.Xfer],
    'header': [p_func.Header],
    'entries': [p_func.Entries],
    'index': [p_func.Index],
    'main': [p_main.Main],
    'patchdd': [p_patchdd.Patch],
    'tool': {'C04': [p_tool.Tool], 'C12': [p_tool.Tool], 'C16': [p_tool.Tool], 'C13': [p_tool.Cipher],
             'C15': [p_crypt.Wiped], 'C14': [p_tool.Quiet]},
    'http': {'C01': [p_http.Reply], 'C07': [p_http.Verdict, p_http.Reply], 'C08': [p_http.Fresh],
             'C11': [p_stores.ReadOnly], 'C13': [p_crypt.Cipher], 'C14': [p_crypt.QuietUrl],
             'C15': [p_crypt.Wiped], 'C16': [p_crypt.Refused], 'C22': [p_stores.Held]},
    'keyspec': {'C14': [p_fn.KeyQuiet], 'C15': [p_fn.KeyWipe], 'C16': [p_fn.KeySpec]},
    'encdo': [p_fn.EncDo], 'hchacha': [p_fn.Derive], 'wipefn': [p_fn.WipeFn], 'sha': [p_fn.Sha],
    'scanfd': [p_func.Scan], 'scan1': [p_func.Scan1],
    'http-feed': {'C08': [p_http.Feed], 'C13': [p_http.Feed]},
}

def monitors(scen, pid):
    m = MONS.get(scen, [])
    if isinstance(m, dict):
        m = m.get(pid, [])
    return ([x() for x in MEM] if pid in ('C18', 'C21', 'C22', None) else []) + [x() for x in m]

# rules over the IR of a whole program that need no interpretation
LINTS = {'diag:' + p: (p, p_diag) for p in ('csn', 'csn-tool', 'csn-bench', 'patchdd')}

def prog(s):
    return LINTS[s][0] if s in LINTS else runs.SC[s]['prog']

def run(scen, P, pid=None, js=None):
    if scen in LINTS:
        d = LINTS[scen][1].run(js)
        return {'scenario': scen, 'stopped': None, 'reports': d.reports, 'sites': {k: sorted(v) for k, v in d.sites.items()},
                'insts': d.n, 'rounds': 0, 'functions': sorted(d.fns), 'unknown': []}
    ms = monitors(scen, pid)
    eng = runs.run(scen, P, ms, stop_on=pid)
    return {'scenario': scen, 'stopped': eng.stopped,
            'reports': [{'rule': r.rule, 'msg': r.msg, 'where': r.where, 'fn': r.fn, 'path': r.path[-60:]} for r in eng.reports],
            'sites': {k: sorted(v) for k, v in eng.sites.items()},
            'insts': eng.insts, 'rounds': eng.maxround, 'functions': sorted(eng.covered),
            'unknown': sorted(eng.decl_unknown)}

ASSUMPTIONS = [
    'the LLVM IR that clang 18 produces from the sources means what the sources mean',
    'the models of libc, libcurl, zstd and OpenSSL functions in engine/ext.py: every documented outcome, including failure, may happen at every call',
    'no signal handler and no other thread changes the memory of the programs (the sources have neither)',
    'distinct objects handed in by a caller do not overlap',
]

HOW = ('Abstract interpretation of the LLVM IR of the current sources: all paths through the listed functions are '
       'covered, loops and repeated operations to a fixpoint; every outcome of every external call is considered.')

MEMRUNS = ['http', 'local', 'main', 'tool', 'patchdd', 'bench', 'target', 'chain', 'xfer', 'header', 'entries', 'index',
           'keyspec', 'encdo', 'hchacha', 'wipefn', 'sha', 'scanfd', 'scan1']

CHECKS = {
    'C01': dict(runs=['main', 'target', 'local', 'http', 'chain'], need=['target_write', 'operation', 'delivered'], how=HOW,
                rule='a write to the target is preceded, since the data last changed, by a comparison that found the digest of exactly these bytes equal to the ID of the entry; it has the position and length of that entry'),
    'C02': dict(runs=['main', 'entries', 'target'], need=['entries', 'entry', 'success', 'target_write', 'target_check', 'callback', 'complete', 'operation'], how=HOW,
                rule='every way to exit status 0 passes through a successful iteration over all entries of the loaded index, each of which was found on the target or written; the iteration reports every entry of the index with the offset, length and ID it has'),
    'C03': dict(runs=['header', 'main'], need=['accept', 'read', 'seek', 'header', 'entries'], how=HOW,
                rule='loading succeeds only on paths on which every field of header and footer was read and compared with what it must be; nothing is extracted from anything else than an index that was loaded'),
    'C04': dict(runs=['xfer', 'header', 'entries', 'scanfd', 'local', 'target', 'main', 'tool', 'patchdd'],
                need=['transfer', 'seek', 'read', 'created', 'operation', 'success'], how=HOW,
                rule='no path on which a needed system call failed or a file ended early is a path on which the operation is reported as successful'),
    'C05': dict(runs=['xfer'], need=['transfer', 'function'], how=HOW,
                rule='each transfer continues at the byte (of buffer and file) after the last one transferred, for the rest, until all were transferred, end of file or failure; interrupted calls are repeated'),
    'C06': dict(runs=['chain', 'main'], need=['append', 'get_chunk', 'skip', 'drop'], how=HOW,
                rule='stores are appended in the order of the command line; a query asks the stores that are not dropped in that order, stops at the first that has the chunk, drops exactly those that fail, and gives up only after the last one'),
    'C07': dict(runs=['http'], need=['request', 'decode', 'outcome'], how=HOW,
                rule='the result of a query is determined by the result of the transfer, the status, decoding and the number of failures counted so far, as documented'),
    'C08': dict(runs=['http', 'http-feed'], need=['attempt', 'wait', 'decoder reset', 'decode', 'input kept'], how=HOW,
                rule='each attempt starts with a fresh decompressor, at the start of the output and without input left over; within an attempt the decoder is given all that is received, in order and once; attempts are bounded and separated by growing, limited waits'),
    'C09': dict(runs=['local'], need=['chunker_scan_fd', 'caibx_iterate_entries', 'delivered', 'created'], how=HOW,
                rule='a local store answers only with data hashed after it was read; what does not match the side-loaded index leads to one scan'),
    'C10': dict(runs=['main', 'target'], need=['target_check', 'get_chunk', 'target_write', 'operation'], how=HOW,
                rule='no chunk request or target write for an entry found on the target; none while resuming before looking; no looking after the first mismatch; found on the target means read from there and hashed'),
    'C11': dict(runs=['main', 'target', 'local', 'http', 'chain', 'patchdd'], need=['open', 'write'], how=HOW,
                rule='everything but the target is opened for reading; the target is opened without creating or truncating it; only target writes write'),
    'C12': dict(runs=['tool'], need=['create', 'write', 'remove', 'exit', 'read'], how=HOW,
                rule='files are opened for writing only if the call creates them; they are removed again on each path on which the complete result was not written and closed; success needs the complete result for each input'),
    'C13': dict(runs=['http', 'http-feed', 'tool', 'encdo'], need=['restart', 'cipher', 'request'], how=HOW,
                rule='no request and no data without the cipher having been restarted, since the last chunk, with the subkey of key and chunk ID, block counter zero and the nonce from the ID; all received data passes through it'),
    'C14': dict(runs=['http', 'tool', 'keyspec'], need=['printed'], how=HOW,
                rule='nothing computed from key material, and no string that may contain it, is passed to a function that prints'),
    'C15': dict(runs=['http', 'tool', 'keyspec', 'hchacha', 'wipefn'], need=['key', 'key in a buffer', 'wiped'], how=HOW,
                rule='what key material was put into is overwritten before the function owning it returns or the memory is released'),
    'C16': dict(runs=['http', 'tool', 'keyspec'], need=['key', 'created', 'decode', 'verdict'], how=HOW,
                rule='no store or command is used after its key was refused'),
    'C17': dict(runs=['sha'], need=['data', 'result', 'software', 'digest'], how=HOW,
                rule='success only with the software digest of all of the data in the result, or after all of the data was sent to the kernel in order and 32 bytes came back; no use of the kernel interface after a failure'),
    'C18': dict(runs=MEMRUNS, need=['access'], how=HOW,
                rule='every load, store and library access through a pointer lies inside the object it points to'),
    'C19': dict(runs=['index'], need=['entry written', 'sort', 'search', 'comparison', 'inserted', 'looked up'], how=HOW,
                rule='an added entry follows the others and keeps them; searches cover all entries, sorted after the last one was added, by ID'),
    'C20': dict(runs=['scanfd', 'scan1'], need=['read', 'scan', 'callback', 'complete', 'restart', 'hash', 'piece', 'boundary'], how=HOW,
                rule='chunks reported follow each other from the start to the end of what was read; the data hashed for each is its data, in order; a chunk ends before it is longer than the maximum, and not before the minimum unless the data ends; each starts with the state the first one started with'),
    'C21': dict(runs=MEMRUNS, need=['div', 'access'], how=HOW,
                rule='no path to an assertion failure, a division by zero, an out-of-range conversion or an access through a null pointer'),
    'C22': dict(runs=MEMRUNS, need=['acquired', 'released', 'balance'], how=HOW,
                rule='what an operation acquires is released or reachable from what it returns or changes when it is over, and released once'),
    'C23': dict(runs=['main', 'target', 'patchdd'], need=['sync', 'success', 'operation'], how=HOW,
                rule='every way to exit status 0 passes through a successful sync of the target after the last write'),
    'C24': dict(runs=sorted(LINTS), need=['format', 'printer'], how='Provenance of every format argument over the call graph of each program, and reachability in the control flow of the functions that print on behalf of others; all calls in all functions of the current sources are covered.',
                rule='every format is a constant of the program (or the format parameter of a function whose callers are held to the same) that takes exactly the arguments given, by number and type; a function that prints for its callers prints the whole of the message on each path on which it prints anything, not cut off at a buffer size, and consumes its arguments once'),
    'C25': dict(runs=['patchdd'], need=['source read', 'destination read', 'comparison', 'write', 'exit'], how=HOW,
                rule='exit status 0 only when the bytes compared equal at equal offsets and the bytes written at their own offset cover the source from its start to its size; writes come from the source, stay within its size, and follow a decision that the destination is large enough'),
    'C26': dict(runs=['main', 'target'], need=['offered', 'operation', 'get_chunk', 'entry'], how=HOW,
                rule='no chunk request for a repetition of the previous entry; a target that is a store adds each chunk found or written, with its position, length and ID, to its index, and looks for chunks there'),
    'C27': dict(runs=['main', 'tool', 'patchdd', 'bench'], need=['option', 'append', 'store', 'entries', 'exit'], how=HOW,
                rule='extraction starts only after index, target and every named store were set up in order; every other way ends in a nonzero status'),
}
