BUGS = []
def bug(**k):
    BUGS.append(k)

HTTP = r'''
import threading, socket
def frame(data):
    out = b'\x28\xb5\x2f\xfd' + bytes([0xa0]) + struct.pack('<I', len(data))
    parts = [data[i:i + 65536] for i in range(0, len(data), 65536)] or [b'']
    for i, p in enumerate(parts):
        out += struct.pack('<I', (len(p) << 3) | (1 if i == len(parts) - 1 else 0))[:3] + p
    return out
def serve(answer):
    """answer(path) -> (status, body, bytes of the body to send before closing the connection or None)"""
    s = socket.socket(); s.bind(('127.0.0.1', 0)); s.listen(50)
    log = []
    def one(c):
        try:
            c.settimeout(20)
            while True:
                r = b''
                while b'\r\n\r\n' not in r:
                    x = c.recv(4096)
                    if not x:
                        return
                    r += x
                p = r.split(b' ')[1].decode()
                log.append(p)
                st, body, cut = answer(p)
                c.sendall(b'HTTP/1.1 %d X\r\nContent-Length: %d\r\n\r\n' % (st, len(body)) + (body if cut is None else body[:cut]))
                if cut is not None:
                    return
        except OSError:
            pass
        finally:
            c.close()
    def loop():
        while True:
            c, _ = s.accept()
            threading.Thread(target=one, args=(c,), daemon=True).start()
    threading.Thread(target=loop, daemon=True).start()
    return 'http://127.0.0.1:%d' % s.getsockname()[1], log
def link(*a):
    return run(B + 'csn', *a)
'''

STUBHTTP = r'''
FILES = ['store-http.c', 'chunk.c', 'utils.c', 'log.c', 'sha.c', 'encrypt.c']
LIBS = ['-lcurl', '-lzstd', '-lcrypto']
'''

bug(name='c25-sectors', prop='C25',
    edits=[('patchdd.c', "		total_skipped += first_diff;\n", "		// write whole sectors only\n		first_diff &= ~(size_t)511;\n\n		total_skipped += first_diff;\n"),
           ('patchdd.c', "		size_t to_read = MIN(src_size - offset, TRANSFER_SIZE);\n", "		size_t to_read = MIN(src_size - offset, TRANSFER_SIZE);\n		if (to_read > 512)\n			to_read &= ~(size_t)511;\n"),
           ('patchdd.c', "		offset += to_read;\n", "		offset += to_read;\n		if (src_size - offset < 512 && first_diff == to_read)\n			break;\n")],
    needs='a source whose size is not a multiple of the sector size and a destination that already matches in the last transfer before the end',
    breaks='the last bytes are neither compared nor written',
    demo=r'''
for n in (70000, 512 * 3 + 17, 65536 + 1, 100):
    a = rnd(n, 1)
    b = bytearray(a) + rnd(64, 2)
    b[n - 1] ^= 0xff
    put('src', a); put('dst', bytes(b))
    rc, out = run(B + 'patchdd', 'src', 'dst')
    check(rc == 0, 'patchdd fails: ' + out[-200:])
    check(get('dst') == a + bytes(b[n:]), 'the destination of %d bytes was not made equal to the source' % n)
''')

bug(name='c24-store-name', prop='C24',
    edits=[('store.c', '''			u_log(DEBUG, "store '%s' has failed, deactivating it",
			      store_get_name(substore->s));
''', '''			char msg[160];
			snprintf(msg, sizeof(msg), "store '%s' has failed, deactivating it",
			         store_get_name(substore->s));
			u_log(DEBUG, msg, NULL);
''')],
    needs='a store that fails and whose name contains a conversion specification',
    breaks='the name of a store is interpreted as a format',
    demo=r'''
rc, out = harness(r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "store.h"
#include "log.h"
static ssize_t get(struct store *s, uint8_t *id, uint8_t *o, size_t n) { return -1; }
static void fr(struct store *s) { }
int main(void) {
	setenv("LOGLEVEL", "debug", 1);
	u_log_init();
	struct store s; memset(&s, 0, sizeof(s));
	strcpy(s.name, "/mnt/100%d%%x");
	s.get_chunk = get; s.free = fr;
	struct store_chain *c = store_chain_new(1);
	store_chain_append(c, &s);
	uint8_t id[32] = {0}, o[8];
	store_get_chunk(store_chain_to_store(c), id, o, 8);
	return 0;
}
""", ['store.c', 'chunk.c', 'log.c', 'utils.c', 'sha.c'], '-lcrypto')
check(rc == 0 and "/mnt/100%d%%x" in out, 'the message does not name the store: ' + out[-300:])
''')

bug(name='c06-swap', prop='C06',
    edits=[('store.c', "			substore->active = false;\n			continue;", "			// keep the working stores at the front\n			substore->active = false;\n			if (i + 1 < sc->n_stores) {\n				struct substore tmp = *substore;\n				*substore = sc->stores[sc->n_stores - 1];\n				sc->stores[sc->n_stores - 1] = tmp;\n				i--;\n			}\n			continue;")],
    needs='at least three stores of which an earlier one than the last two fails',
    breaks='the remaining stores are asked in another order than given',
    demo=r'''
rc, out = harness(r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "store.h"
static int n, order[100];
static int mode[4];
static struct store s[4];
static ssize_t get(struct store *x, uint8_t *id, uint8_t *o, size_t k) { int i = x - s; order[n++] = i; return mode[i]; }
static void fr(struct store *s) { }
int main(void) {
	struct store_chain *c = store_chain_new(1);
	for (int i = 0; i < 4; i++) { sprintf(s[i].name, "s%d", i); s[i].get_chunk = get; s[i].free = fr; store_chain_append(c, &s[i]); }
	mode[0] = -1;
	uint8_t id[32] = {0}, o[8];
	for (int q = 0; q < 3; q++) {
		n = 0;
		store_get_chunk(store_chain_to_store(c), id, o, 8);
		int last = -1;
		for (int i = 0; i < n; i++) { if (order[i] <= last) return 1; last = order[i]; if (q && order[i] == 0) return 2; }
		if (n != (q ? 3 : 4)) return 3;
	}
	return 0;
}
""", ['store.c', 'chunk.c', 'log.c', 'utils.c', 'sha.c'], '-lcrypto')
check(rc == 0, 'stores are not asked in order: %d %s' % (rc, out[-200:]))
''')

bug(name='c06-probation', prop='C06',
    edits=[('store.c', "	sc->queries++;\n", "	sc->queries++;\n\n	// give the first store, usually the closest one, another chance\n	if (sc->queries % 1024 == 0 && sc->n_stores && sc->stores[0].hits)\n		sc->stores[0].active = true;\n")],
    needs='a first store that delivered something, then failed, and a thousand further queries',
    breaks='a store that failed is asked again',
    demo=r'''
rc, out = harness(r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "store.h"
static int calls, failed;
static struct store s[2];
static ssize_t get(struct store *x, uint8_t *id, uint8_t *o, size_t k) { if (x == &s[1]) return 1; if (failed) calls++; return failed ? -1 : 1; }
static void fr(struct store *s) { }
int main(void) {
	struct store_chain *c = store_chain_new(2);
	for (int i = 0; i < 2; i++) { sprintf(s[i].name, "s%d", i); s[i].get_chunk = get; s[i].free = fr; store_chain_append(c, &s[i]); }
	uint8_t id[32] = {0}, o[8];
	for (int q = 0; q < 20000; q++) { failed = q > 10; if (store_get_chunk(store_chain_to_store(c), id, o, 8) != 1) return 3; }
	return calls != 1;
}
""", ['store.c', 'chunk.c', 'log.c', 'utils.c', 'sha.c'], '-lcrypto')
check(rc == 0, 'a store that failed was asked again: %d %s' % (rc, out[-200:]))
''')

bug(name='c07-reset', prop='C07',
    edits=[('store-http.c', '''		u_log(DEBUG, "got %ld from server", http_code);
		return 0;
''', '''		u_log(DEBUG, "got %ld from server", http_code);
		hs->error_count -= hs->error_count > 0;
		return 0;
''')],
    needs='more than ten failures with misses between them',
    breaks='misses make failures uncounted, a store that keeps failing is never given up',
    demo=HTTP + STUBHTTP + r'''
n = [0]
def answer(p):
    n[0] += 1
    return (500 if n[0] % 2 else 404), b'', None
url, log = serve(answer)
rc, out = harness(r"""
#include <stdio.h>
#include <stdlib.h>
#include "store-http.h"
int main(int argc, char **argv) {
	struct store *s = store_http_new(argv[1]);
	uint8_t id[32] = {0}, o[64];
	if (!s) return 2;
	for (int i = 1; i <= 60; i++) if (store_get_chunk(s, id, o, sizeof(o)) < 0) { printf("given up at %d\n", i); return 0; }
	return 1;
}
""", FILES, *LIBS, args=[url])
check(rc == 0 and 'given up at 21' in out, 'the store is not given up at the eleventh failure: ' + out[-200:])
''')

bug(name='c07-redirect', prop='C07',
    edits=[('store-http.c', "		if (http_code != 200) {", "		if (http_code / 100 != 2) {")],
    needs='a server that answers with another successful status, such as 206 or 203, and a body',
    breaks='a body with another status than 200 is used',
    demo=HTTP + STUBHTTP + r'''
d = rnd(500)
url, log = serve(lambda p: (206, frame(d), None))
put('id', sha(d))
rc, out = harness(r"""
#include <stdio.h>
#include <stdlib.h>
#include "store-http.h"
int main(int argc, char **argv) {
	struct store *s = store_http_new(argv[1]);
	uint8_t id[32], o[4096];
	FILE *f = fopen("id", "r"); fread(id, 1, 32, f);
	return s ? store_get_chunk(s, id, o, sizeof(o)) != 0 : 2;
}
""", FILES, *LIBS, args=[url])
check(rc == 0, 'a body with status 206 is used: ' + out[-200:])
''')

bug(name='c08-timeouts', prop='C08',
    edits=[('store-http.c', "		remaining--;\n", "		// a slow server is not a broken one\n		if (ret != CURLE_OPERATION_TIMEDOUT || wait_us < 10ul*1000*1000)\n			remaining--;\n")],
    needs='a server that does not answer in time for longer than the waits take to reach their limit',
    breaks='the number of attempts is not bounded',
    demo=STUBHTTP + r'''
rc, out = harness(r"""
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <curl/curl.h>
#include "store-http.h"
static int n;
CURLcode __wrap_curl_easy_perform(CURL *c) { if (++n > 500) { printf("attempts without end\n"); exit(1); } return CURLE_OPERATION_TIMEDOUT; }
int __wrap_usleep(useconds_t u) { return 0; }
int main(void) {
	struct store *s = store_http_new("http://127.0.0.1:9");
	uint8_t id[32] = {0}, o[64];
	return !s || store_get_chunk(s, id, o, sizeof(o)) != 0;
}
""", FILES, '-Wl,--wrap=curl_easy_perform,--wrap=usleep', *LIBS)
check(rc == 0, 'attempts are not bounded: ' + out[-200:])
''')

bug(name='c12-batch', prop='C12',
    edits=[('csn-tool.c', "			if (encrypt_one(&ec, line, NULL) < 0)\n				goto out;", "			if (!*line)\n				continue;\n			if (encrypt_one(&ec, line, NULL) < 0 && !strchr(line, ' '))\n				goto out;"),
           ],
    needs='a batch with a path that contains a blank and cannot be encrypted',
    breaks='success is reported although a file of the batch was not produced',
    demo=r'''
d = rnd(100)
n = sha(d).hex() + '.cacnk'
os.mkdir('a b')
put(n, d)
def crypt(inp):
    p = subprocess.run([B + 'csn-tool', 'crypt', 'key:' + '11' * 32], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    return p.returncode, p.stdout.decode('latin1')
rc, out = crypt(n + '\n')
check(rc == 0 and len(get(n + '.enc')) == 100, 'encrypting fails: ' + out)
rc, out = crypt('a b/' + n + '\n')
check(rc != 0, 'success although the input does not exist: ' + out)
''')

bug(name='c13-restart', prop='C13',
    edits=[('encrypt.c', "	uint8_t ctr_nonce[16];\n	memset(&ctr_nonce[0], 0, 8);\n	memcpy(&ctr_nonce[8], &nonce[16], 8);\n",
            "	uint8_t ctr_nonce[16];\n	memcpy(&ctr_nonce[0], nonce, 8);\n	memcpy(&ctr_nonce[8], &nonce[16], 8);\n	if (nonce[0] | nonce[1] | nonce[2])\n		memset(&ctr_nonce[0], 0, 8);\n")],
    needs='a chunk whose ID begins with three zero bytes',
    breaks='the block counter does not start at zero for such chunks',
    demo=r'''
rc, out = harness(r"""
#include <stdio.h>
#include <string.h>
#include <openssl/evp.h>
#include "encrypt.h"
void hchacha20(uint8_t out[32], const uint8_t key[32], const uint8_t in[16]);
int main(void) {
	uint8_t key[32], id[32], in[100] = {0}, a[100], b[100], sub[32], iv[16];
	for (int i = 0; i < 32; i++) key[i] = i * 3 + 1;
	for (int k = 0; k < 4; k++) {
		for (int i = 0; i < 32; i++) id[i] = i < k ? 0 : i * 5 + 7;
		struct encrypt_ctx c;
		if (encrypt_init(&c, key) < 0 || encrypt_restart(&c, id) < 0 || encrypt_do(&c, a, in, 100) < 0) return 2;
		encrypt_close(&c);
		hchacha20(sub, key, id);
		memset(iv, 0, 8); memcpy(iv + 8, id + 16, 8);
		EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); int n;
		EVP_EncryptInit_ex(e, EVP_chacha20(), NULL, sub, iv);
		EVP_EncryptUpdate(e, b, &n, in, 100);
		EVP_CIPHER_CTX_free(e);
		if (memcmp(a, b, 100)) return 1;
	}
	return 0;
}
""", ['encrypt.c', 'utils.c', 'log.c'], '-lcrypto', '-DTESTING')
check(rc == 0, 'the cipher does not start as it must: %d %s' % (rc, out[-300:]))
''')

bug(name='c14-keyfile', prop='C14',
    edits=[('encrypt.c', '''		u_log(ERR, "encryption key must be exactly 64 hex characters, but is %zu long", strlen(key_str));
''', '''		size_t bad = strspn(key_str, "0123456789abcdefABCDEF");
		if (key_str[bad] && do_free)
			u_log(ERR, "encryption key must be exactly 64 hex characters, found '%s' after %zu", &key_str[bad / 2 * 2], bad);
		else
			u_log(ERR, "encryption key must be exactly 64 hex characters, but is %zu long", strlen(key_str));
''')],
    needs='a key file of the wrong length with a character that is not a digit before the end of the key',
    breaks='the rest of the key is printed',
    demo=r'''
k = 'x' + rnd(40, 5).hex()[:70]
put('key', (k + '\n').encode())
d = rnd(10)
put(sha(d).hex() + '.cacnk', d)
rc, out = run(B + 'csn-tool', 'crypt', 'file:key', sha(d).hex() + '.cacnk', env={'LOGLEVEL': 'debug'})
check(rc != 0, 'a wrong key is accepted')
check(k[1:9] not in out and k[-8:] not in out, 'the key is printed: ' + out[-300:])
''')

bug(name='c15-subkey', prop='C15',
    edits=[('encrypt.c', '''		u_log(ERR, "EVP_CipherInit failed");
		goto out;
	}

	ret = 0;
''', '''		u_log(ERR, "EVP_CipherInit failed");
		WIPE_BUFFER(ctr_nonce);
		return -1;
	}

	ret = 0;
''')],
    needs='a failing cipher initialisation',
    breaks='the subkey stays on the stack',
    demo=r'''
rc, out = harness(r"""
#include <stdio.h>
#include <string.h>
#include <openssl/evp.h>
#include "encrypt.h"
static uint8_t *sub; static uint8_t seen[32];
int __wrap_EVP_CipherInit(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *iv, int e) {
	sub = (uint8_t*)k; memcpy(seen, k, 32); return 0;
}
__attribute__((noinline, no_sanitize("address"))) static int left(void) { int n = 0; for (int i = 0; i < 32; i++) n += ((volatile uint8_t*)sub)[i] == seen[i] && seen[i]; return n; }
int main(void) {
	uint8_t key[32], id[32];
	for (int i = 0; i < 32; i++) { key[i] = i * 3 + 1; id[i] = i; }
	struct encrypt_ctx c;
	if (encrypt_init(&c, key) < 0) return 2;
	if (encrypt_restart(&c, id) == 0) return 3;
	int n = left();
	printf("%d bytes left\n", n);
	return n > 16;
}
""", ['encrypt.c', 'log.c', 'utils.c'], '-Wl,--wrap=EVP_CipherInit', '-lcrypto', '-fno-sanitize=all', '-O1')
check(rc == 0, 'the subkey is not wiped: %d %s' % (rc, out[-300:]))
''')

bug(name='c16-hex', prop='C16',
    edits=[('encrypt.c', "	if (strlen(key_str) != 64) {", "	// tolerate an 0x prefix\n	if (key_str[0] == '0' && (key_str[1] | 0x20) == 'x' && strlen(key_str) > 64)\n		key_str += do_free ? 0 : 2;\n\n	if (strlen(key_str) != 64) {")],
    needs='a key with an 0x prefix',
    breaks='a keyspec with more than 64 characters is accepted',
    demo=r'''
d = rnd(10)
n = sha(d).hex() + '.cacnk'
put(n, d)
for k in ('0x' + '12' * 32, '0X' + 'ab' * 32, '12' * 31, '12' * 33, 'zz' * 32):
    rc, out = run(B + 'csn-tool', 'crypt', 'key:' + k, n)
    check(rc != 0 and not os.path.exists(n + '.enc'), 'a key of the wrong form is accepted')
''')

bug(name='c17-short', prop='C17',
    edits=[('sha.c', "	} else if (ret != SHA_LEN) {", "	} else if (ret == 0 || ret > SHA_LEN) {")],
    needs='the kernel interface returning fewer bytes than a digest has',
    breaks='a digest of the wrong length is accepted',
    demo=r'''
rc, out = harness(r"""
#include <stdio.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/socket.h>
#include <openssl/sha.h>
#include "sha.h"
int __wrap_socket(int a, int b, int c) { return open("/dev/null", O_RDWR); }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) { return 0; }
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) { return open("/dev/null", O_RDWR); }
ssize_t __wrap_send(int fd, const void *p, size_t n, int f) { return n; }
static int L;
ssize_t __wrap_recv(int fd, void *p, size_t n, int f) { memset(p, 7, L); return L; }
int main(void) {
	for (L = 0; L < 32; L++) {
		uint8_t d[50] = {1, 2, 3}, o[32], w[32];
		if (sha_kcapi_init(NULL) < 0) return 2;
		if (sha_once(d, 50, o) < 0) return 3;
		SHA256(d, 50, w);
		if (memcmp(o, w, 32)) return 1;
		sha_kcapi_deinit();
	}
	return 0;
}
""", ['sha.c', 'log.c', 'utils.c'], '-Wl,--wrap=socket,--wrap=bind,--wrap=accept,--wrap=send,--wrap=recv', '-lcrypto')
check(rc == 0, 'a wrong digest is accepted: %d %s' % (rc, out[-300:]))
''')

bug(name='c23-identical', prop='C23',
    edits=[('patchdd.c', "	if (fsync(dst) < 0) {", "	// nothing to do if everything was the same\n	if (total_skipped + TRANSFER_SIZE < src_size && fsync(dst) < 0) {")],
    needs='a source that differs from the destination in a single transfer',
    breaks='the data written is not synced',
    demo=r'''
put('s.c', rb"""
#define _GNU_SOURCE
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <stdlib.h>
int fsync(int fd) { int f = open(getenv("SYNCED"), O_CREAT | O_WRONLY, 0600); close(f); return 0; }
int fdatasync(int fd) { return fsync(fd); }
""")
rc, out = run('gcc', '-shared', '-fPIC', '-o', 's.so', 's.c', '-ldl')
check(rc == 0, out)
asan = run('gcc', '-print-file-name=libasan.so')[1].strip()
for diff in (10, 200000, 399999):
    a = rnd(400000)
    b = bytearray(a); b[diff] ^= 1
    put('src', a); put('dst', bytes(b))
    if os.path.exists('y'): os.remove('y')
    rc, out = run(B + 'patchdd', 'src', 'dst', env={'LD_PRELOAD': asan + ':' + W + '/s.so', 'SYNCED': W + '/y'})
    check(rc == 0, 'patchdd fails: ' + out[-300:])
    check(os.path.exists('y'), 'nothing was synced')
''')

bug(name='c04-eof', prop='C04',
    edits=[('csn-tool.c', "	if (encrypt_do(ec, buf, buf, chunk_size)) {\n", "	if (encrypt_do(ec, buf, buf, chunk_size) && chunk_size) {\n"),
    ('csn-tool.c', "	if (writeall(fd, buf, chunk_size) < 0) {\n", "	if (writeall(fd, buf, chunk_size) < 0 && !to_stdout) {\n")],
    needs='standard output that cannot take the result (a full disk, a closed pipe)',
    breaks='success is reported although writing failed',
    demo=r'''
d = rnd(5000)
n = sha(d).hex() + '.cacnk'
put(n, d)
with open('/dev/full', 'wb') as f:
    p = subprocess.run([B + 'csn-tool', 'crypt', 'key:' + '11' * 32, n, '-'], stdout=f, stderr=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
check(p.returncode != 0, 'success although the output could not be written')
''')
