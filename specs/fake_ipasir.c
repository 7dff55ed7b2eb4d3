/* Recording IPASIR library: answers from a script, or (no script) by exhaustive search. Every call is logged. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef struct { int32_t *lits; int n, cap; int32_t *ass; int na; signed char *val; int nv; int released; int id; } S;
static int log_n, log_cap; static int64_t (*logv)[4];
static int script_on, script_res; static int32_t script_vals[65536]; static int next_id;
enum { INIT, RELEASE, ADD, ASSUME, SOLVE, VAL, FAILED, TERM, LEARN };
static void lg(int k, S *s, int64_t a) {
    if (log_n == log_cap) { log_cap = log_cap ? 2 * log_cap : 1024; logv = realloc(logv, sizeof(*logv) * log_cap); }
    logv[log_n][0] = k; logv[log_n][1] = s ? s->id : -1; logv[log_n][2] = a; logv[log_n][3] = s ? s->released : -1; log_n++;
}
int fake_log_len(void) { return log_n; }
int64_t fake_log(int i, int j) { return logv[i][j]; }
void fake_reset(void) { log_n = 0; script_on = 0; memset(script_vals, 0, sizeof script_vals); }
void fake_script(int res) { script_on = 1; script_res = res; }
void fake_value(int var, int val) { script_vals[var] = val; }
const char *ipasir_signature(void) { return "fake-1.0"; }
void *ipasir_init(void) { S *s = calloc(1, sizeof *s); s->id = next_id++; lg(INIT, s, 0); return s; }
void ipasir_release(void *p) { S *s = p; lg(RELEASE, s, 0); if (s) s->released++; }   /* kept allocated on purpose: later uses are logged */
void ipasir_add(void *p, int32_t l) { S *s = p; lg(ADD, s, l); if (!s) return; if (s->n == s->cap) { s->cap = s->cap ? 2 * s->cap : 64; s->lits = realloc(s->lits, 4 * s->cap); } s->lits[s->n++] = l; int v = abs(l); if (v > s->nv) s->nv = v; }
void ipasir_assume(void *p, int32_t l) { S *s = p; lg(ASSUME, s, l); if (!s) return; s->ass = realloc(s->ass, 4 * (s->na + 1)); s->ass[s->na++] = l; int v = abs(l); if (v > s->nv) s->nv = v; }
static int ok(S *s) {   /* 1: some clause is false under the partial assignment, else 0 */
    int i = 0; while (i < s->n) { int sat = 0, open = 0; for (; s->lits[i]; i++) { int l = s->lits[i], v = s->val[abs(l)]; if (!v) open = 1; else if ((v > 0) == (l > 0)) sat = 1; } i++; if (!sat && !open) return 1; } return 0;
}
static int go(S *s, int v) { if (ok(s)) return 0; while (v <= s->nv && s->val[v]) v++; if (v > s->nv) return 1; for (int b = 1; b >= -1; b -= 2) { s->val[v] = b; if (go(s, v + 1)) return 1; } s->val[v] = 0; return 0; }
int ipasir_solve(void *p) { S *s = p; lg(SOLVE, s, 0); if (!s) return 0; if (script_on) return script_res;
    s->val = realloc(s->val, s->nv + 2); memset(s->val, 0, s->nv + 2);
    int bad = 0; for (int i = 0; i < s->na; i++) { int l = s->ass[i]; int w = l > 0 ? 1 : -1; if (s->val[abs(l)] == -w) bad = 1; s->val[abs(l)] = w; } s->na = 0;
    return !bad && go(s, 1) ? 10 : 20; }
int32_t ipasir_val(void *p, int32_t l) { S *s = p; lg(VAL, s, l); if (!s) return 0; int v = abs(l); int b = script_on ? script_vals[v] : s->val[v]; return b == 0 ? 0 : (b > 0) == (l > 0) ? l : -l; }
int ipasir_failed(void *p, int32_t l) { lg(FAILED, p, l); return 1; }
void ipasir_set_terminate(void *p, void *d, int (*f)(void *)) { lg(TERM, p, f != 0); }
void ipasir_set_learn(void *p, void *d, int m, void (*f)(void *, int32_t *)) { lg(LEARN, p, m); }
