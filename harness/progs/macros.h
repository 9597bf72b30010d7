/* What every generated program of C23 includes. */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cyaml/cyaml.h>

static const char *now = "", *stage = "";
static long checks;
static int failed;
static void bad(const char *what, int line)
{
	if (!failed++) printf("FAILS: %s: %s: line %d: %s\n", now, stage, line, what);
}
#define CK(x) do { checks++; if (!(x)) { bad(#x, __LINE__); return; } } while (0)
#define EQ(a, b) do { checks++; unsigned long long a_ = (unsigned long long)(a), b_ = (unsigned long long)(b); if (a_ != b_) { \
	static char m_[2000]; snprintf(m_, sizeof m_, "%s is %llu, not %s, which is %llu", #a, a_, #b, b_); bad(m_, __LINE__); } } while (0)
#define PEQ(a, b) do { checks++; if ((const void *)(uintptr_t)(a) != (const void *)(uintptr_t)(b)) bad(#a " is not " #b, __LINE__); } while (0)

/* Allocator: each block between guards, all of them counted. */
struct blk { struct blk *next, *prev; size_t n; unsigned char g[16]; };
static struct blk head = { &head, &head, 0, {0} };
static size_t live;
static bool owned(const void *p)
{
	for (struct blk *b = head.next; b != &head; b = b->next) if ((const void *)(b + 1) == p) return true;
	return false;
}
static void guard(struct blk *b)
{
	for (int i = 0; i < 16; i++) if (b->g[i] != 0xA5 || ((unsigned char *)(b + 1))[b->n + i] != 0xA5) { bad("a block was written outside", 0); return; }
}
static void *mem(void *ctx, void *p, size_t n)
{
	struct blk *b = p ? (struct blk *)p - 1 : NULL, *q = NULL;
	(void)ctx;
	if (p && !owned(p)) { bad("a pointer that was never allocated was given to the allocator", 0); return NULL; }
	if (b) guard(b);
	if (n) {
		q = malloc(sizeof *q + n + 16);
		memset(q->g, 0xA5, 16); q->n = n;
		memset(q + 1, 0xC3, n); memset((char *)(q + 1) + n, 0xA5, 16);
		if (b) memcpy(q + 1, p, n < b->n ? n : b->n);
		q->next = head.next; q->prev = &head; head.next->prev = q; head.next = q; live++;
	}
	if (b) { b->next->prev = b->prev; b->prev->next = b->next; live--; memset(b + 1, 0x5C, b->n); free(b); }
	return q ? q + 1 : NULL;
}
static char logbuf[4000];
static size_t loglen;
static void logfn(cyaml_log_t level, void *ctx, const char *fmt, va_list args)
{
	(void)level; (void)ctx;
	int n = vsnprintf(logbuf + loglen, sizeof logbuf - loglen, fmt, args);
	if (n > 0) { loglen += n; if (loglen > sizeof logbuf - 1) loglen = sizeof logbuf - 1; }
}
static long cbs;
static char cbctx;
#define CB(name, ...) static bool name(void *ctx, const cyaml_schema_value_t *s, __VA_ARGS__) { (void)v; (void)s; if (ctx != &cbctx) bad("validation context", 0); cbs++; return true; }
CB(cb_int, int64_t v)
CB(cb_uint, uint64_t v)
CB(cb_float, double v)
CB(cb_str, const char *v)
CB(cb_map, const cyaml_data_t *v)
static bool cb_seq(void *ctx, const cyaml_schema_value_t *s, const cyaml_data_t *v, size_t n) { (void)v; (void)s; (void)n; if (ctx != &cbctx) bad("validation context", 0); cbs++; return true; }

static void run(const char *name, const cyaml_schema_value_t *s, unsigned flags, const char *doc, void (*check)(void *, unsigned), void *init, unsigned count)
{
	cyaml_config_t g = { .log_fn = logfn, .mem_fn = mem, .validation_ctx = &cbctx, .log_level = CYAML_LOG_ERROR, .flags = (cyaml_cfg_flags_t)flags };
	unsigned n = 0, *np = s->type == CYAML_SEQUENCE ? &n : NULL, m = 0, *mp = np ? &m : NULL;
	void *d = NULL, *e = NULL;
	char *out = NULL;
	size_t len = 0;
	cyaml_err_t err;
#define CALL(what, x) do { stage = what; loglen = 0; logbuf[0] = 0; err = (x); checks++; if (err) { char b_[4200]; snprintf(b_, sizeof b_, "%s: %s", cyaml_strerror(err), logbuf); bad(b_, __LINE__); return; } } while (0)
	now = name;
	if (failed) return;
	CALL("load", cyaml_load_data((const uint8_t *)doc, strlen(doc), &g, s, (cyaml_data_t **)&d, np));
	stage = "loaded data"; check(d, n);
	if (failed) return;
	unsigned c = s->type == CYAML_SEQUENCE ? n : s->type == CYAML_SEQUENCE_FIXED ? count : 0;
	CALL("save", cyaml_save_data(&out, &len, &g, s, d, np ? c : 0));
	CALL("load of what was saved", cyaml_load_data((const uint8_t *)out, len, &g, s, (cyaml_data_t **)&e, mp));
	stage = "saved and loaded data"; check(e, m);
	if (failed) return;
	mem(NULL, out, 0); out = NULL;
	CALL("free", cyaml_free(&g, s, e, m)); e = NULL;
	CALL("copy", cyaml_copy(&g, s, d, c, (cyaml_data_t **)&e));
	stage = "copied data"; check(e, n);
	if (failed) return;
	CALL("free of the data", cyaml_free(&g, s, d, c)); d = NULL;
	stage = "copied data without the original"; check(e, n);
	if (failed) return;
	CALL("free of the copy", cyaml_free(&g, s, e, c)); e = NULL;
	stage = "end"; if (live) bad("blocks are left", __LINE__);
	stage = "initialised data"; check(init, count);
	if (failed) return;
	CALL("save of initialised data", cyaml_save_data(&out, &len, &g, s, init, np ? count : 0));
	CALL("load of saved initialised data", cyaml_load_data((const uint8_t *)out, len, &g, s, (cyaml_data_t **)&e, mp));
	stage = "saved and loaded initialised data"; check(e, m);
	if (failed) return;
	mem(NULL, out, 0);
	CALL("free", cyaml_free(&g, s, e, m)); e = NULL;
	CALL("copy of initialised data", cyaml_copy(&g, s, init, count, (cyaml_data_t **)&e));
	stage = "copied initialised data"; check(e, count);
	if (failed) return;
	CALL("free of the copy", cyaml_free(&g, s, e, count));
	stage = "end"; if (live) bad("blocks are left", __LINE__);
}
static void table(void);
static void cases(void);
int main(void)
{
	now = "table"; stage = "schema"; table();
	if (!failed) cases();
	if (failed) return 1;
	printf("OK %ld %ld\n", checks, cbs);
	return 0;
}
