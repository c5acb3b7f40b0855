BUGS = []
def bug(**k):
    BUGS.append(k)

bug(name='c19-presorted', prop='C19',
    edits=[('index.c', "	idx->sorted = false;\n	idx->n_entries++;\n\n	return e;",
            "	// entries mostly arrive in order already\n	if (idx->n_entries && index_entry_compare(e, &idx->entries[0]) < 0)\n		idx->sorted = false;\n	idx->n_entries++;\n\n	return e;"),
           ('index.c', "struct index_entry *index_insert(struct index *idx, uint64_t",
            "static int index_entry_compare(const void *a, const void *b);\n\nstruct index_entry *index_insert(struct index *idx, uint64_t")],
    needs='an insertion after a lookup of an ID greater than the smallest and smaller than the greatest one so far',
    breaks='the index is still taken as sorted, later lookups miss entries',
    demo=r'''
rc, out = harness(r"""
#include <stdio.h>
#include "utils.h"
#include "index.h"
int main(void) {
	struct index i; uint8_t id[32] = {0}; int miss = 0;
	if (index_init(&i, 2) < 0) return 2;
	unsigned v[] = {10, 200, 100, 50, 120, 5, 190, 60, 11};
	for (unsigned k = 0; k < 9; k++) {
		id[0] = v[k];
		if (!index_insert(&i, k, 1, id)) return 2;
		for (unsigned j = 0; j <= k; j++) { id[0] = v[j]; struct index_entry *e = index_query(&i, id); if (!e || e->start != j) miss++; }
		id[0] = 77; if (index_query(&i, id)) miss++;
	}
	index_cleanup(&i);
	printf("%d\n", miss);
	return miss != 0;
}
""", ['index.c', 'log.c'])
check(rc == 0, 'lookups miss entries: ' + out[-200:])
''')

bug(name='c05-short-pwrite', prop='C05',
    edits=[('utils.c', "		u_assert(ret != 0);\n\n		written_bytes += ret;\n		offset += ret;\n", "		u_assert(ret != 0);\n\n		offset += ret - written_bytes;\n		written_bytes += ret;\n")],
    needs='at least three partial writes of one chunk',
    breaks='the third part of the data is written to the wrong position',
    demo=r'''
rc, out = harness(r"""
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include "utils.h"
ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void *p, size_t n, off_t o) { return __real_pwrite(fd, p, n > 100 ? 100 : n, o); }
ssize_t __wrap_pwrite64(int fd, const void *p, size_t n, off_t o) { return __real_pwrite(fd, p, n > 100 ? 100 : n, o); }
int main(void) {
	uint8_t b[1000], c[1000] = {0};
	for (int i = 0; i < 1000; i++) b[i] = i * 7 + i / 256;
	int fd = open("f", O_RDWR | O_CREAT, 0600);
	if (pwriteall(fd, b, 1000, 64) < 0) return 1;
	if (preadall(fd, c, 1000, 64) < 0) return 1;
	return memcmp(b, c, 1000) != 0;
}
""", ['utils.c', 'log.c'], '-Wl,--wrap=pwrite,--wrap=pwrite64')
check(rc == 0, 'data written in pieces is damaged: ' + out[-200:])
''')

bug(name='c09-sideload-params', prop='C09',
    edits=[('store-local.c', "	if (caibx_params.min_size != ls->chunker_params.min_size ||\n	    caibx_params.avg_size != ls->chunker_params.avg_size ||\n	    caibx_params.max_size != ls->chunker_params.max_size) {",
            "	if (caibx_params.avg_size != ls->chunker_params.avg_size ||\n	    (caibx_params.min_size != ls->chunker_params.min_size &&\n	     caibx_params.max_size != ls->chunker_params.max_size)) {")],
    needs='a side-loaded index that differs in exactly one of minimum and maximum chunk size',
    breaks='an index with other chunk size parameters is used instead of scanning the store',
    demo=r'''
D = rnd(300000)
put('s', D); put('t', bytes(262144))
# the store as one chunk of 256 KiB, plus the rest: what scanning with min = 64k, max = 256k finds is not in the index
caibx('si', [(200000, sha(D[:200000])), (300000, sha(D[200000:]))], mn=16000)
# what scanning finds
caibx('i', [(1, sha(b'?'))])
rc, out = run(B + 'csn', 'i', 't', 's:si', env={'CSN_LOGLEVEL': '6'})
check('sideloading succeeded' not in out and 'falling back' in out, 'index with other parameters is used: ' + out[-300:])
''')

bug(name='c01-resume-repeat', prop='C01',
    edits=[('main.c', "			skipped++;\n			goto progress;", "			skipped++;\n			memcpy(last_id, id, CHUNK_ID_LEN);\n			last_len = len;\n			have_last_id = true;\n			goto progress;")],
    needs='a resumed extraction whose first damaged entry repeats the previous, intact one',
    breaks='the damaged data read from the target while looking is written back instead of the chunk',
    demo=r'''
A = rnd(50000)
put('s', A)
caibx('si', [(50000, sha(A))])
put('t', A + rnd(50000, 2) + bytes(50000))
caibx('i', [(50000, sha(A)), (100000, sha(A)), (150000, sha(A))])
rc, out = run(B + 'csn', 'i', 't', 's:si')
check(rc == 0, 'extraction fails: ' + out[-300:])
check(get('t') == A * 3, 'unverified data is written to the target')
''')

bug(name='c03-footer', prop='C03',
    edits=[('caibx.c', "	uint64_t expected_len = CA_TABLE_HEADER_LEN + (n_entries+1) * CA_TABLE_ENTRY_LEN;\n	if (tmp64 != expected_len) {",
            "	uint64_t expected_len = CA_TABLE_HEADER_LEN + (n_entries+1) * CA_TABLE_ENTRY_LEN;\n	if ((uint32_t)tmp64 != (uint32_t)expected_len) {")],
    needs='an index whose footer has a table size with wrong upper half',
    breaks='a malformed index is accepted',
    demo=r'''
A = rnd(50000)
put('s', A); caibx('si', [(50000, sha(A))]); put('t', bytes(50000)); caibx('i', [(50000, sha(A))])
rc, out = run(B + 'csn', 'i', 't', 's:si')
check(rc == 0, 'good index refused ' + out[-300:])
b = bytearray(get('i'))
for k in range(len(b) - 40, len(b)):
    c = bytearray(b)
    c[k] ^= 0x41
    put('j', bytes(c)); put('t', bytes(50000))
    rc, out = run(B + 'csn', 'j', 't', 's:si')
    check(rc != 0 and get('t') == bytes(50000), 'index with bad footer byte %d is used' % k)
''')

bug(name='c10-unreadable', prop='C10',
    edits=[('main.c', "target_check_chunk(target, buf, len, offset, id) == 1", "target_check_chunk(target, buf, len, offset, id)")],
    needs='a target that cannot be read where an entry belongs, while resuming',
    breaks='an entry that could not be read counts as already there',
    demo=r'''
A = rnd(50000); A2 = rnd(60000, 2)
put('s', A + A2); caibx('si', [(50000, sha(A)), (110000, sha(A2))]); put('t', A + b'x'); caibx('i', [(50000, sha(A)), (110000, sha(A2))])
rc, out = run(B + 'csn', 'i', 't', 's:si')
check(rc != 0 or get('t') == A + A2, 'success without the data')
''')

bug(name='c11-create', prop='C11',
    edits=[('target.c', "t->fd = open(path, O_RDWR);", "t->fd = open(path, O_RDWR | O_CREAT, 0644);")],
    needs='a target path that does not exist',
    breaks='the target is created',
    demo=r'''
A = rnd(50000)
put('s', A); caibx('si', [(50000, sha(A))]); caibx('i', [(50000, sha(A))])
rc, out = run(B + 'csn', 'i', 't', 's:si')
check(rc != 0 and not os.path.exists('t'), 'the target is created')
''')

bug(name='c22-sideload-fd', prop='C22',
    edits=[('store-local.c', "		           ls->chunker_params.min_size, ls->chunker_params.avg_size, ls->chunker_params.max_size);\n\n		goto out_fd;",
            "		           ls->chunker_params.min_size, ls->chunker_params.avg_size, ls->chunker_params.max_size);\n\n		return -1;")],
    needs='a side-loaded index with other chunk size parameters',
    breaks='the descriptor of the index stays open',
    demo=r'''
D = rnd(30000)
put('s', D)
caibx('si', [(30000, sha(D))], mn=1000)
rc, out = harness(r"""
#include <stdio.h>
#include <dirent.h>
#include "utils.h"
#include "chunker.h"
#include "store-local.h"
static int fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
int main(void) {
	struct chunker_params p;
	if (chunker_params_set(&p, 16384, 65536, 262144) < 0) return 2;
	int a = fds();
	for (int i = 0; i < 5; i++) {
		struct store *s = store_local_new("s", "si", &p);
		if (!s) return 2;
		store_free(s);
	}
	return fds() != a;
}
""", ['store-local.c', 'store.c', 'index.c', 'caibx.c', 'chunker.c', 'chunk.c', 'sha.c', 'utils.c', 'log.c'], '-lcrypto')
check(rc == 0, 'descriptors pile up: ' + out[-200:])
''')

bug(name='c26-high-offset', prop='C26',
    edits=[('target.c', "static void target_add_chunk(struct target *t, size_t len, off_t offset, const uint8_t *id)", "static void target_add_chunk(struct target *t, uint32_t len, uint32_t offset, const uint8_t *id)")],
    needs='a target of more than 4 GiB',
    breaks='chunks beyond 4 GiB are offered at the wrong position',
    demo=r'''
put('t', b'')
os.truncate('t', 6 << 30)
rc, out = harness(r"""
#include <stdio.h>
#include "utils.h"
#include "chunker.h"
#include "chunk.h"
#include "target.h"
int main(void) {
	static uint8_t d[5000], o[5000], id[32];
	for (int i = 0; i < 5000; i++) d[i] = i * i;
	chunk_calculate_id(d, 5000, id);
	struct target *t = target_new("t");
	struct store *s = target_as_store(t, 4);
	if (!s || target_write(t, d, 5000, 5LL << 30, id) < 0) return 2;
	return !(store_get_chunk(s, id, o, 5000) == 5000 && !memcmp(d, o, 5000));
}
""", ['target.c', 'index.c', 'store.c', 'chunk.c', 'sha.c', 'utils.c', 'log.c'], '-lcrypto')
check(rc == 0, 'the chunk is not offered: ' + out[-200:])
''')

bug(name='c18-chunk-size', prop='C18',
    edits=[('store-local.c', "	if (e->len > out_max) {", "	if (e->len > MAX(out_max, ls->chunker_params.max_size)) {")],
    needs='an index with a maximum chunk size of more than 256 KiB and a store with a chunk that big',
    breaks='the chunk is read past the end of the buffer',
    demo=r'''
D = rnd(300000)
put('s', D)
rc, out = harness(r"""
#include <stdio.h>
#include "utils.h"
#include "chunker.h"
#include "store-local.h"
#include "chunk.h"
static int cb(uint64_t off, uint32_t len, uint8_t *id, void *arg) { if (!off) { memcpy(arg, id, 32); *(uint32_t*)((char*)arg + 32) = len; } return 0; }
int main(void) {
	struct chunker_params p; uint8_t id[40];
	if (chunker_params_set(&p, 16384, 65536, 262144) < 0) return 2;
	int fd = open("s", 0);
	if (chunker_scan_fd(fd, &p, cb, id) < 0) return 2;
	uint32_t len = *(uint32_t*)(id + 32);
	struct store *s = store_local_new("s", NULL, &p);
	if (!s) return 2;
	uint8_t *b = malloc(len - 1);
	ssize_t r = store_get_chunk(s, id, b, len - 1);
	return r > 0;
}
""", ['store-local.c', 'store.c', 'index.c', 'caibx.c', 'chunker.c', 'chunk.c', 'sha.c', 'utils.c', 'log.c'], '-lcrypto')
check(rc == 0, 'out of bounds: ' + out[:300])
''')

bug(name='c27-extract-word', prop='C27',
    edits=[('main.c', "	if (argc < 3 || !streq(argv[0], \"extract\")) {", "	if (argc < 3 && !streq(argv[0], \"extract\")) {")],
    needs='the casync command line with another command than extract',
    breaks='an unknown command starts an extraction',
    demo=r'''
A = rnd(50000)
os.symlink(B + 'csn', 'casync')
put('s', A); put('t', bytes(50000)); caibx('i', [(50000, sha(A))])
rc, out = run('./casync', '--seed', 's', 'mount', 'i', 't')
check(rc != 0 and 'starting sync' not in out and get('t') == bytes(50000), 'unknown command extracts: ' + out[-200:])
rc, out = run('./casync', '--seed', 's', 'extract', 'i', 't')
check(rc in (0, 1), 'extract crashes')
''')
