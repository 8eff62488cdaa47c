/* Replay driver: runs the real library on commands read from standard input.
 * Every buffer handed to the library is an exact-size heap object (so that the address sanitizer sees
 * any access outside it) and is compared with a copy afterwards when the library may only read it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "tiny_sphincs.h"
#include "sha2.h"
#include "fips202.h"

static const struct ts_parameter_set *find(const char *s)
{
#define X(n, f, z) if (!strcmp(s, n)) return &ts_ps_##f##_##z##_simple
#if TS_SUPPORT_SHAKE
    X("shake_128f", shake, 128f);
#if TS_SUPPORT_S
    X("shake_128s", shake, 128s);
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
    X("shake_192f", shake, 192f);
#if TS_SUPPORT_S
    X("shake_192s", shake, 192s);
#endif
#endif
#if TS_SUPPORT_L5
    X("shake_256f", shake, 256f);
#if TS_SUPPORT_S
    X("shake_256s", shake, 256s);
#endif
#endif
#endif
#if TS_SUPPORT_SHA2
    X("sha2_128f", sha2, 128f);
#if TS_SUPPORT_S
    X("sha2_128s", sha2, 128s);
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
    X("sha2_192f", sha2, 192f);
#if TS_SUPPORT_S
    X("sha2_192s", sha2, 192s);
#endif
#endif
#if TS_SUPPORT_L5
    X("sha2_256f", sha2, 256f);
#if TS_SUPPORT_S
    X("sha2_256s", sha2, 256s);
#endif
#endif
#endif
    return NULL;
}

static char *line = NULL;
static size_t cap = 0;
static char *cur;
static char *tok(void)
{
    while (*cur == ' ') cur++;
    if (!*cur || *cur == '\n') return NULL;
    char *s = cur;
    while (*cur && *cur != ' ' && *cur != '\n') cur++;
    if (*cur) *cur++ = 0;
    return s;
}
static size_t num(void) { char *t = tok(); return t ? strtoull(t, NULL, 0) : 0; }

struct buf { unsigned char *p; unsigned char *copy; size_t n; };
static void fillpat(uint32_t s);
static unsigned char pat[3 * 65536];
static struct buf hex(const char *s)
{
    struct buf b;
    if (*s == '@') {               /* @SEED:LENGTH, a pattern */
        char *e;
        fillpat(strtoull(s + 1, &e, 0));
        b.n = strtoull(e + 1, NULL, 0);
        b.p = malloc(b.n ? b.n : 1);
        for (size_t i = 0; i < b.n; i += 65536) memcpy(b.p + i, pat, b.n - i < 65536 ? b.n - i : 65536);
        b.copy = NULL;
        if (b.n < 100000000) { b.copy = malloc(b.n ? b.n : 1); memcpy(b.copy, b.p, b.n); }
        return b;
    }
    if (!strcmp(s, "_")) s = "";
    b.n = strlen(s) / 2;
    b.p = malloc(b.n ? b.n : 1);
    b.copy = malloc(b.n ? b.n : 1);
    for (size_t i = 0; i < b.n; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); b.p[i] = v; }
    memcpy(b.copy, b.p, b.n);
    if (!b.n) { free(b.p); b.p = malloc(0); }
    return b;
}
static void drop(struct buf *b, const char *what)
{
    if (b->copy && memcmp(b->p, b->copy, b->n)) printf(" CHANGED-%s", what);
    free(b->p);
    free(b->copy);
}
static void puthex(const unsigned char *p, size_t n) { if (!n) printf("_"); for (size_t i = 0; i < n; i++) printf("%02x", p[i]); }

#define PAT 65536
static void fillpat(uint32_t s)
{
    for (int i = 0; i < PAT; i++) { s = s * 1664525u + 1013904223u; pat[i] = s >> 24; }
    memcpy(pat + PAT, pat, PAT);
    memcpy(pat + 2 * PAT, pat, PAT);
}
static unsigned char *piece(uint64_t pos, size_t n)
{
    unsigned char *p = malloc(n ? n : 1);
    memcpy(p, pat + pos % PAT, n);
    if (!n) { free(p); p = malloc(0); }
    return p;
}

static size_t chunks[100000];
static int nch;
static void getchunks(void) { char *t; nch = 0; while ((t = tok()) && nch < 100000) chunks[nch++] = strtoull(t, NULL, 0); if (!nch) chunks[nch++] = 1u << 30; }

/* hash ALG N SEED LEN chunks: pieces are taken cyclically; N bytes of digest, 0 for the plain final */
static void do_hash(void)
{
    char *alg = tok();
    unsigned n = num();
    fillpat(num());
    uint64_t len = num();
    getchunks();
    int big = !strcmp(alg, "sha512");
    SHA256_CTX *a = malloc(sizeof *a);
    SHA512_CTX *b = malloc(sizeof *b);
    memset(a, 0xA5, sizeof *a);
    memset(b, 0xA5, sizeof *b);
    if (big) ts_SHA512_init(b); else ts_SHA256_init(a);
    uint64_t pos = 0;
    for (int i = 0; pos < len || i < nch; i++) {
        size_t c = chunks[i % nch];
        if (c > PAT) c = PAT;
        if (c > len - pos) c = len - pos;
        unsigned char *p = len > 10000000 ? pat + pos % PAT : piece(pos, c);
        if (big) ts_SHA512_update(b, p, c); else ts_SHA256_update(a, p, c);
        if (len <= 10000000) free(p);
        pos += c;
        if (i > 100000000) break;
    }
    unsigned dn = n ? n : big ? 64 : 32;
    unsigned char *d = malloc(dn);
    memset(d, 0xEE, dn);
    if (big) { if (n) ts_SHA512_final_trunc(d, b, n); else ts_SHA512_final(d, b); }
    else { if (n) ts_SHA256_final_trunc(d, a, n); else ts_SHA256_final(d, a); }
    puthex(d, dn);
    free(d); free(a); free(b);
}

/* big ALG SEED LEN: one piece */
static void do_big(void)
{
    char *alg = tok();
    fillpat(num());
    uint64_t len = num();
    unsigned char *p = malloc(len), d[64];
    if (!p) { printf("no memory"); return; }
    for (uint64_t i = 0; i < len; i += PAT) memcpy(p + i, pat, len - i < PAT ? len - i : PAT);
    if (!strcmp(alg, "sha512")) { SHA512_CTX c; ts_SHA512_init(&c); ts_SHA512_update(&c, p, len); ts_SHA512_final(d, &c); puthex(d, 64); }
    else if (!strcmp(alg, "sha256")) { SHA256_CTX c; ts_SHA256_init(&c); ts_SHA256_update(&c, p, len); ts_SHA256_final(d, &c); puthex(d, 32); }
    else { SHAKE256_CTX c; ts_shake256_inc_init(&c); ts_shake256_inc_absorb(&c, p, len); ts_shake256_inc_finalize(&c); ts_shake256_inc_squeeze(d, 64, &c); puthex(d, 64); }
    free(p);
}

/* mid ALG SEED LEN chunks: first block hashed in the given pieces, saved, restored, rest in the given pieces */
static void do_mid(void)
{
    char *alg = tok();
    fillpat(num());
    uint64_t len = num();
    getchunks();
    int big = !strcmp(alg, "sha512");
    uint64_t blk = big ? 128 : 64;
    SHA256_CTX *a = malloc(sizeof *a), *a2 = malloc(sizeof *a);
    SHA512_CTX *b = malloc(sizeof *b), *b2 = malloc(sizeof *b);
    memset(a2, 0xA5, sizeof *a);
    memset(b2, 0xA5, sizeof *b);
    uint32_t *s1 = malloc(32);
    uint64_t *s2 = malloc(64);
    if (big) ts_SHA512_init(b); else ts_SHA256_init(a);
    uint64_t pos = 0;
    for (int i = 0; pos < len; i++) {
        size_t c = chunks[i % nch];
        if (c > PAT) c = PAT;
        if (c > len - pos) c = len - pos;
        if (pos < blk && c > blk - pos) c = blk - pos;
        unsigned char *p = piece(pos, c);
        if (pos < blk) { if (big) ts_SHA512_update(b, p, c); else ts_SHA256_update(a, p, c); }
        else { if (big) ts_SHA512_update(b2, p, c); else ts_SHA256_update(a2, p, c); }
        free(p);
        if (pos < blk && pos + c == blk) {
            if (big) { ts_SHA512_save_state(s2, b); ts_SHA512_restore_state_after_128(b2, s2); }
            else { ts_SHA256_save_state(s1, a); ts_SHA256_restore_state_after_64(a2, s1); }
        }
        pos += c;
        if (i > 1000000) break;
    }
    unsigned char d[64];
    if (big) ts_SHA512_final(d, b2); else ts_SHA256_final(d, a2);
    puthex(d, big ? 64 : 32);
    free(a); free(a2); free(b); free(b2); free(s1); free(s2);
}

/* shake SEED LEN OUT chunks / chunks */
static void do_shake(void)
{
    fillpat(num());
    uint64_t len = num(), out = num();
    getchunks();
    size_t in[64];
    int n1 = 0, n2 = 0, k = 0;
    size_t *o = NULL;
    for (k = 0; k < nch && chunks[k] != 999999; k++) if (k < 64) in[n1++] = chunks[k];
    o = chunks + k + 1;
    n2 = nch - k - 1;
    if (n2 <= 0) { o = in; n2 = n1; }
    SHAKE256_CTX *c = malloc(sizeof *c);
    memset(c, 0xA5, sizeof *c);
    ts_shake256_inc_init(c);
    uint64_t pos = 0;
    for (int i = 0; pos < len || i < n1; i++) {
        size_t z = in[i % n1];
        if (z > PAT) z = PAT;
        if (z > len - pos) z = len - pos;
        unsigned char *p = piece(pos, z);
        ts_shake256_inc_absorb(c, p, z);
        free(p);
        pos += z;
        if (i > 1000000) break;
    }
    ts_shake256_inc_finalize(c);
    for (pos = 0; pos < out;) {
        for (int i = 0; i < n2; i++) {
            size_t z = o[i];
            if (z > out - pos) z = out - pos;
            unsigned char *p = malloc(z ? z : 1);
            memset(p, 0xEE, z ? z : 1);
            ts_shake256_inc_squeeze(p, z, c);
            puthex(p, z);
            if (z == 0 && p[0] != 0xEE) printf("!");
            free(p);
            pos += z;
        }
        if (n2 == 1 && o[0] == 0) break;
    }
    free(c);
}

static struct buf rnd;
static int rndmode, rndcalls;
static size_t rndlen;
static int rndfn(unsigned char *p, size_t n)
{
    rndcalls++;
    rndlen = n;
    if (rndmode == 2) { memset(p, 0x77, n); return 0; }     /* fails after scribbling */
    if (rndmode == 1) return 0;
    for (size_t i = 0; i < n; i++) p[i] = i < rnd.n ? rnd.p[i] : 0;
    return 1;
}
static int (*setrnd(void))(unsigned char *, size_t)
{
    char *t = tok();
    rndcalls = 0;
    rndlen = 0;
    rnd.n = 0;
    if (!strcmp(t, "-")) return NULL;
    if (!strcmp(t, "!")) { rndmode = 1; return rndfn; }
    if (!strcmp(t, "!!")) { rndmode = 2; return rndfn; }
    rndmode = 0;
    rnd = hex(t);
    return rndfn;
}

/* keygen SET RND PK(0/1) SKNULL(0/1) */
static void do_keygen(void)
{
    char *s = tok();
    const struct ts_parameter_set *ps = strcmp(s, "null") ? find(s) : NULL;
    int (*r)(unsigned char *, size_t) = setrnd();
    int wantpk = num(), sknull = num();
    size_t n1 = ps ? ts_size_private_key(ps) : 128, n2 = ps ? ts_size_public_key(ps) : 64;
    unsigned char *sk = malloc(n1), *pk = malloc(n2);
    memset(sk, 0xEE, n1);
    memset(pk, 0xDD, n2);
    int ret = ts_gen_key(sknull ? NULL : sk, wantpk ? pk : NULL, ps, r);
    printf("%d %d %zu ", ret, rndcalls, rndlen);
    puthex(sk, n1);
    printf(" ");
    puthex(pk, n2);
    free(sk); free(pk);
}

struct sctx { struct ts_context *c; struct buf sk, msg; };

static void startsign(struct sctx *x, const struct ts_parameter_set *ps, char *sk, char *msg, int (*r)(unsigned char *, size_t))
{
    x->sk = hex(sk);
    struct buf m = hex(msg);
    x->c = malloc(sizeof *x->c);
    memset(x->c, 0xA5, sizeof *x->c);
    ts_init_sign(x->c, m.p, m.n, ps, x->sk.p, r);
    drop(&m, "message");          /* the message may go away now */
}

static unsigned char *acc;
static size_t nacc, ret_total;
static void onereq(struct ts_context *c, size_t z, int quiet)
{
    /* a request for more than any signature has gets memory for 200000 bytes */
    size_t room = z > 200000 ? 200000 : z;
    unsigned char *q = malloc(room ? room : 1);
    memset(q, 0xEE, room ? room : 1);
    unsigned r = ts_sign(q, z, c);
    if (!quiet) printf(" %u", r);
    for (size_t i = r; i < room; i++) if (q[i] != 0xEE) { printf(" WROTE-BEYOND"); break; }
    size_t k = r > room ? room : r;
    acc = realloc(acc, nacc + k + 1);
    memcpy(acc + nacc, q, k);
    nacc += k;
    free(q);
}

/* sign SET SK MSG RND chunks: cyclic until done, then three more requests */
static void do_sign(void)
{
    char *set = tok();
    const struct ts_parameter_set *ps = find(set);
    char *sk = tok(), *msg = tok();
    int (*r)(unsigned char *, size_t) = setrnd();
    getchunks();
    struct sctx x;
    startsign(&x, ps, sk, msg, r);
    size_t len = ts_size_signature(ps);
    nacc = 0;
    int bad = 0;
    int i;
    for (i = 0; nacc < len && i < 200000; i++) {
        size_t before = nacc, z = chunks[i % nch];
        if (z > 200000 && z >> 31 == 0) z = 200000;
        onereq(x.c, z, 1);
        size_t want = z < len - before ? z : len - before;
        if (nacc - before != want && !bad++) printf(" SHORT(asked %zu at %zu got %zu)", z, before, nacc - before);
        if (bad > 5) break;
    }
    size_t got = nacc;
    onereq(x.c, 0, 1); onereq(x.c, 1, 1); onereq(x.c, 1000, 1);
    if (nacc != got) printf(" MORE");
    printf(" %d %zu ", rndcalls, rndlen);
    puthex(acc, nacc);
    drop(&x.sk, "key");
    free(x.c);
}

/* begin SET SK MSG RND K: the first K bytes of a signature */
static void do_begin(void)
{
    const struct ts_parameter_set *ps = find(tok());
    char *sk = tok(), *msg = tok();
    int (*r)(unsigned char *, size_t) = setrnd();
    size_t k = num();
    struct sctx x;
    startsign(&x, ps, sk, msg, r);
    nacc = 0;
    onereq(x.c, k, 1);
    printf("%d %zu ", rndcalls, rndlen);
    puthex(acc, nacc);
    drop(&x.sk, "key");
    free(x.c);
}

/* verify SET PK MSG SIG chunks */
static void do_verify(void)
{
    const struct ts_parameter_set *ps = find(tok());
    struct buf pk = hex(tok()), m = hex(tok()), s = hex(tok());
    getchunks();
    struct ts_context *c = malloc(sizeof *c);
    memset(c, 0xA5, sizeof *c);
    ts_init_verify(c, m.p, m.n, ps, pk.p);
    size_t pos = 0;
    int last = 1, back = 0;
    for (int i = 0; (pos < s.n || i < nch) && i < 200000; i++) {
        size_t z = chunks[i % nch];
        if (z > s.n - pos) z = s.n - pos;
        unsigned char *p = malloc(z ? z : 1);
        memcpy(p, s.p + pos, z);
        if (!z) { free(p); p = malloc(0); }
        int r = ts_update_verify(p, z, c);
        if (memcmp(p, s.p + pos, z)) printf(" CHANGED-signature");
        free(p);
        if (!last && r) back = 1;
        last = r;
        pos += z;
    }
    printf("%d", ts_verify(c));
    if (back) printf(" RECOVERED");
    printf(" last=%d again=%d", last, ts_verify(c));
    drop(&pk, "public-key"); drop(&m, "message"); free(s.p); free(s.copy); free(c);
}

/* inter SET1 SK1 MSG1 SET2 SK2 MSG2 A B: two signers in turns of A and B bytes (deterministic) */
static void do_inter(void)
{
    struct sctx x[2];
    const struct ts_parameter_set *ps[2];
    unsigned char *o[2];
    size_t n[2] = {0, 0}, len[2], z[2];
    for (int i = 0; i < 2; i++) {
        ps[i] = find(tok());
        char *sk = tok(), *msg = tok();
        startsign(&x[i], ps[i], sk, msg, NULL);
        len[i] = ts_size_signature(ps[i]);
        o[i] = malloc(len[i]);
    }
    z[0] = num(); z[1] = num();
    while (n[0] < len[0] || n[1] < len[1]) {
        for (int i = 0; i < 2; i++) {
            size_t k = z[i] < len[i] - n[i] ? z[i] : len[i] - n[i];
            if (!k) continue;
            unsigned r = ts_sign(o[i] + n[i], k, x[i].c);
            n[i] += r;
            if (!r) { n[i] = len[i]; printf("STUCK "); }
        }
    }
    for (int i = 0; i < 2; i++) { puthex(o[i], len[i]); printf(" "); drop(&x[i].sk, "key"); free(x[i].c); free(o[i]); }
}

/* reuse SET1 RND1 MSG1 SET2 RND2 MSG2: two users in the same buffers and the same context, one after the other */
static void do_reuse(void)
{
    const struct ts_parameter_set *ps[2];
    struct buf r[2], m[2];
    unsigned char *sig[2] = {NULL, NULL};
    for (int i = 0; i < 2; i++) { ps[i] = find(tok()); r[i] = hex(tok()); m[i] = hex(tok()); }
    unsigned char *sk = malloc(128), *pk = malloc(64), *msg = malloc(m[0].n + m[1].n + 1);
    struct ts_context *c = malloc(sizeof *c);
    memset(c, 0xA5, sizeof *c);
    for (int k = 0; k < 4; k++) {
        int i = k & 1;
        rndmode = 0;
        rnd = r[i];
        if (ts_gen_key(sk, pk, ps[i], rndfn) != 1) printf("NOKEY ");
        puthex(sk, ts_size_private_key(ps[i]));
        printf(" ");
        if (k >= 2) continue;
        memcpy(msg, m[i].p, m[i].n);
        sig[i] = malloc(ts_size_signature(ps[i]));
        ts_init_sign(c, msg, m[i].n, ps[i], sk, NULL);
        if (ts_sign(sig[i], ts_size_signature(ps[i]), c) != ts_size_signature(ps[i])) printf("SHORT ");
        puthex(sig[i], ts_size_signature(ps[i]));
        printf(" ");
    }
    for (int k = 0; k < 6; k++) {
        int i = k & 1, j = (k >> 1) % 2;        /* the right key, the wrong one, the right one */
        size_t n = ts_size_public_key(ps[i]);
        rnd = r[j ? !i : i];
        ts_gen_key(sk, pk, ps[i], rndfn);
        memcpy(msg, m[i].p, m[i].n);
        (void)n;
        ts_init_verify(c, msg, m[i].n, ps[i], pk);
        ts_update_verify(sig[i], ts_size_signature(ps[i]), c);
        printf("%d", ts_verify(c));
    }
    for (int i = 0; i < 2; i++) { free(r[i].p); free(r[i].copy); free(m[i].p); free(m[i].copy); free(sig[i]); }
    rnd.n = 0;
    free(sk); free(pk); free(msg); free(c);
}

/* misuse SET SK PK MSG SIG: contexts in the wrong phase */
static void report(const char *w, int ok) { if (!ok) printf(" BAD-%s", w); }
static int trysign(struct ts_context *c, unsigned z)
{
    unsigned char *q = malloc(z);
    memset(q, 0xEE, z);
    unsigned r = ts_sign(q, z, c);
    int ok = r == 0;
    for (unsigned i = 0; i < z; i++) if (q[i] != 0xEE) ok = 0;
    free(q);
    return ok;
}
static void do_misuse(void)
{
    const struct ts_parameter_set *ps = find(tok());
    struct buf sk = hex(tok()), pk = hex(tok()), m = hex(tok()), s = hex(tok());
    struct ts_context *c = malloc(sizeof *c);
    unsigned n = (unsigned)pk.n / 2;
    /* never started */
    memset(c, 0, sizeof *c);
    report("zero-sign", trysign(c, 40));
    report("zero-verdict", ts_verify(c) == 0);
    report("zero-update", ts_update_verify(s.p, 40, c) == 0 && ts_verify(c) == 0);
    /* set up for verification, at several points */
    size_t pts[] = {0, 1, n, n + 1, 2 * n, 3 * n, s.n / 2, s.n - 1, s.n - n, s.n};
    for (unsigned i = 0; i < sizeof pts / sizeof *pts; i++) {
        memset(c, 0, sizeof *c);
        ts_init_verify(c, m.p, m.n, ps, pk.p);
        ts_update_verify(s.p, pts[i], c);
        int before = ts_verify(c);
        report("verdict-early", before == (pts[i] == s.n));
        report("verify-sign", trysign(c, 40));
        report("verify-sign-zero", ts_sign(NULL, 0, c) == 0);
        ts_update_verify(s.p + pts[i], s.n - pts[i], c);
        report("verify-after-sign", ts_verify(c) == 1);
    }
    /* set up for signing, at several points */
    for (unsigned i = 0; i < sizeof pts / sizeof *pts; i++) {
        memset(c, 0, sizeof *c);
        ts_init_sign(c, m.p, m.n, ps, sk.p, NULL);
        unsigned char *o = malloc(s.n);
        unsigned r = ts_sign(o, pts[i], c);
        report("sign-verdict", ts_verify(c) == 0);
        report("sign-update", ts_update_verify(s.p, 7, c) == 0);
        report("sign-update-verdict", ts_verify(c) == 0);
        report("sign-update-again", ts_update_verify(s.p, s.n, c) == 0 && ts_verify(c) == 0);
        (void)r;
        free(o);
    }
    /* failed verification */
    memset(c, 0, sizeof *c);
    ts_init_verify(c, m.p, m.n, ps, pk.p);
    s.p[n] ^= 1;
    ts_update_verify(s.p, s.n, c);
    report("failed-verdict", ts_verify(c) == 0);
    report("failed-update", ts_update_verify(s.p, n, c) == 0);
    report("failed-sign", trysign(c, 40));
    s.p[n] ^= 1;
    report("failed-good", ts_update_verify(s.p, s.n, c) == 0 && ts_verify(c) == 0);
    /* trailing byte */
    memset(c, 0, sizeof *c);
    ts_init_verify(c, m.p, m.n, ps, pk.p);
    ts_update_verify(s.p, s.n, c);
    report("good", ts_verify(c) == 1);
    report("trailing-empty", (ts_update_verify(s.p, 0, c), ts_verify(c) == 1));
    report("trailing", (ts_update_verify(s.p, 1, c), ts_verify(c) == 0));
    report("trailing-after", (ts_update_verify(s.p, s.n, c), ts_verify(c) == 0));
    printf("done");
    drop(&sk, "key"); drop(&pk, "public-key"); drop(&m, "message"); free(s.p); free(s.copy); free(c);
}

static void do_sizes(void)
{
    const struct ts_parameter_set *ps = find(tok());
    printf("%u %u %u", ts_size_private_key(ps), ts_size_public_key(ps), ts_size_signature(ps));
}

int main(void)
{
    while (getline(&line, &cap, stdin) > 0) {
        cur = line;
        char *t = tok();
        if (!t) continue;
        if (!strcmp(t, "hash")) do_hash();
        else if (!strcmp(t, "mid")) do_mid();
        else if (!strcmp(t, "big")) do_big();
        else if (!strcmp(t, "shake")) do_shake();
        else if (!strcmp(t, "keygen")) do_keygen();
        else if (!strcmp(t, "sign")) do_sign();
        else if (!strcmp(t, "begin")) do_begin();
        else if (!strcmp(t, "verify")) do_verify();
        else if (!strcmp(t, "inter")) do_inter();
        else if (!strcmp(t, "reuse")) do_reuse();
        else if (!strcmp(t, "misuse")) do_misuse();
        else if (!strcmp(t, "sizes")) do_sizes();
        else printf("?");
        printf("\n");
        fflush(stdout);
    }
    return 0;
}
