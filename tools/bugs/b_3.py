BUGS = []
def bug(**k):
    BUGS.append(k)

bug(name='c21-percent', prop='C21',
    edits=[('patchdd.c', '''	printf("skipped a total of %llu bytes (%.2f%% of the input)\\n",
	      (unsigned long long)total_skipped,
	      (double)((100.0 * total_skipped)/src_size));
''', '''	printf("skipped a total of %llu bytes (%llu%% of the input)\\n",
	      (unsigned long long)total_skipped,
	      (100ull * total_skipped)/src_size);
''')],
    needs='an empty source',
    breaks='patchdd divides by zero',
    demo=r'''
put('src', b''); put('dst', b'abc')
rc, out = run(B + 'patchdd', 'src', 'dst')
check(rc == 0 and get('dst') == b'abc', 'patchdd with an empty source ends with %d: %s' % (rc, out[-300:]))
put('src', b'abX'); put('dst', b'abcd')
rc, out = run(B + 'patchdd', 'src', 'dst')
check(rc == 0 and get('dst') == b'abXd', 'patchdd fails: ' + out[-300:])
''')

bug(name='c02-tail', prop='C02',
    edits=[('caibx.c', '''		// chunks other than the last one should not be shorter than
		// the minimum size
		if (len < params->min_size && (i+1) < n_entries) {''', '''		// some encoders append a padding chunk to get to a full sector
		if (len < 512 && (i+1) == n_entries && last_offset % 512 == 0)
			break;

		// chunks other than the last one should not be shorter than
		// the minimum size
		if (len < params->min_size && (i+1) < n_entries) {''')],
    needs='an index whose last chunk is shorter than a sector and starts at a multiple of it',
    breaks='success is reported although the last chunk was not extracted',
    demo=r'''
a, b = rnd(32768, 1), rnd(100, 2)
put('store', a + b)
caibx('idx', [(32768, sha(a)), (32868, sha(b))])
caibx('store.caibx', [(32768, sha(a)), (32868, sha(b))])
put('target', b'\0' * 40000)
rc, out = run(B + 'csn', 'idx', 'target', 'store:store.caibx')
check(rc != 0 or get('target')[:32868] == a + b, 'exit status 0, but the target is incomplete')
check(rc == 0, 'csn fails: ' + out[-300:])
''')

bug(name='c20-forced', prop='C20',
    edits=[('chunker.c', '''			chunker_reset(&c);
			memmove(buf, &buf[chunker_ret], bytes_read - chunker_ret);
''', '''			if (c.chunk_size < params->max_size) {
				chunker_reset(&c);
			} else {
				// not a boundary by content, go on with the hash
				c.chunk_size = 0;
				c.window_fill = 0;
				SHA256_Init(&c.sha_ctx);
			}
			memmove(buf, &buf[chunker_ret], bytes_read - chunker_ret);
''')],
    needs='a chunk that ends because of the maximum size',
    breaks='where the chunks after it end depends on what was before it',
    demo=r'''
rc, out = harness(r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include "chunker.h"
#include "log.h"
static uint64_t pos[2][4096]; static int n[2], w; static uint64_t skip;
static int cb(uint64_t off, uint32_t len, uint8_t *id, void *arg) {
	if (off >= skip) pos[w][n[w]++] = off - skip;
	return 0;
}
int main(void) {
	u_log_init();
	struct chunker_params p;
	if (chunker_params_set(&p, 4096, 16384, 65536) < 0) return 2;
	// constant data has no boundary of its own
	uint8_t *d = calloc(1, 65536 + 2000000);
	uint32_t x = 12345;
	memset(d, 0x17, 65536);
	for (int i = 0; i < 2000000; i++) { x = x * 1664525 + 1013904223; d[65536 + i] = x >> 24; }
	for (w = 0; w < 2; w++) {
		int fd = open("data", O_RDWR | O_CREAT | O_TRUNC, 0600);
		uint8_t *s = w ? d + 65536 : d;
		size_t l = w ? 2000000 : 65536 + 2000000;
		if (write(fd, s, l) != (ssize_t)l) return 2;
		lseek(fd, 0, SEEK_SET);
		skip = w ? 0 : 65536;
		if (chunker_scan_fd(fd, &p, cb, NULL) < 0) return 2;
		close(fd);
	}
	if (n[1] < 10) return 3;
	if (n[0] != n[1] || memcmp(pos[0], pos[1], n[0] * sizeof(pos[0][0]))) { printf("boundaries differ\n"); return 1; }
	return 0;
}
""", ['chunker.c', 'chunk.c', 'log.c', 'utils.c', 'sha.c'], '-lcrypto', '-lm')
check(rc == 0, 'chunks depend on the data before them (%d): %s' % (rc, out[-300:]))
''')
