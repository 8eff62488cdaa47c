/* Replay driver for the hash roles behind ts_parameter_set (uses internal.h). */
#define main harness_main
#include "harness.c"
#undef main
#include "internal.h"

#include <sys/mman.h>
/* a message; z<number>: that many zero bytes, which take no memory */
static struct buf text(const char *t)
{
    struct buf b;
    if (!t || *t != 'z') return hex(t);
    b.n = strtoull(t + 1, 0, 10);
    b.p = mmap(0, b.n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    b.copy = 0;
    if (b.p == MAP_FAILED) { printf("no memory\n"); exit(0); }
    return b;
}
static void untext(struct buf *b)
{
    if (b->copy) drop(b, "msg");
    else munmap(b->p, b->n);
}

static struct ts_context *mkctx(const struct ts_parameter_set *ps, struct buf *key)
{
    struct ts_context *c = malloc(sizeof *c);
    memset(c, 0xA5, sizeof *c);
    c->ps = ps;
    c->public_key = key->p + 2 * ps->n;
    if (ps->compute_prehash) ps->compute_prehash(c);
    memset(&c->small_iter, 0x5A, sizeof c->small_iter);
    return c;
}
int main(void)
{
    setvbuf(stdout, NULL, _IOLBF, 0);
    while (getline(&line, &cap, stdin) > 0) {
        cur = line;
        char *t = tok();
        if (!t) continue;
        const struct ts_parameter_set *ps = find(tok());
        if (!ps) { printf("no-such-set\n"); continue; }
        unsigned n = ps->n;
        struct buf key = hex(tok());
        struct ts_context *c = mkctx(ps, &key);
        unsigned char *out = malloc(n);
        if (!strcmp(t, "prf")) {
            struct buf a = hex(tok());
            memcpy(c->adr, a.p, a.n < sizeof c->adr ? a.n : sizeof c->adr);
            ps->prf(out, c);
            puthex(out, n);
            drop(&a, "adr");
        } else if (!strcmp(t, "f")) {
            struct buf a = hex(tok()), x = hex(tok());
            memcpy(c->adr, a.p, a.n < sizeof c->adr ? a.n : sizeof c->adr);
            ps->f(out, x.p, c);
            puthex(out, n);
            ps->f(x.p, x.p, c);
            printf(" ");
            puthex(x.p, n);
            memcpy(x.p, x.copy, n);
            drop(&x, "input");
            drop(&a, "adr");
        } else if (!strcmp(t, "t")) {
            struct buf a = hex(tok());
            int big = num();
            struct buf x = hex(tok());
            union t_iterator *it = big ? &c->big_iter : &c->small_iter;
            memcpy(c->adr, a.p, a.n < sizeof c->adr ? a.n : sizeof c->adr);
            ps->init_t(it, c);
            memset(c->adr, 0x77, sizeof c->adr);
            for (size_t i = 0; i + n <= x.n; i += n) ps->next_t(it, x.p + i, c);
            ps->final_t(out, it, c);
            puthex(out, n);
            drop(&x, "input");
            drop(&a, "adr");
        } else if (!strcmp(t, "prf_msg")) {
            struct buf o = hex(tok()), m = text(tok());
            ps->prf_msg(out, o.p, m.p, m.n, c);
            puthex(out, n);
            drop(&o, "opt"); untext(&m);
        } else if (!strcmp(t, "hash_msg")) {
            size_t len = num();
            struct buf o = hex(tok()), m = text(tok());
            unsigned char *d = malloc(len);
            ps->hash_msg(d, len, o.p, m.p, m.n, c);
            puthex(d, len);
            free(d);
            drop(&o, "randomness"); untext(&m);
        }
        drop(&key, "key");
        free(out);
        free(c);
        printf("\n");
    }
    return 0;
}
