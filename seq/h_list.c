// C20, C23: the session registry against a plain array, for every history of operations
#include "seqrt.h"
#include "linked_list.h"
#include <stdlib.h>
#include <string.h>
struct el { int id, serial; };
static struct { int id, serial; } ref[16]; static int nref;
static int disposed[64], ndisposed, serial;
static void destructor(void *d) { struct el *e = d; if (ndisposed < 64) disposed[ndisposed++] = e->serial; e->serial = -1; free(e); }
static bool by_id(void *id, void *d) { return ((struct el *) d)->id == *(int *) id; }
static int mask, asked[32], nasked;
static bool by_mask(void *d) { struct el *e = d; if (nasked < 32) asked[nasked++] = e->serial; for (int i = 0; i < nref; i++) if (ref[i].serial == e->serial) return mask >> i & 1; sq_fail("C20", "a removed session was visited"); return false; }
static int seen[32], nseen; static int token;
static void visit(void *arg, void *d) { if (arg != &token) sq_fail("C20", "the visitor got another argument"); if (nseen < 32) seen[nseen++] = ((struct el *) d)->serial; }
static void drop(int i) { memmove(&ref[i], &ref[i + 1], sizeof ref[0] * (nref - i - 1)); nref--; }
static void observe(linked_list *l, const char *after) {
    nseen = 0; linked_list_foreach(&token, visit, l);
    if (nseen != nref) sq_fail("C20", "after %s: %d sessions visited, %d are registered", after, nseen, nref);
    for (int i = 0; i < nref; i++) if (seen[i] != ref[i].serial) sq_fail("C20", "after %s: session %d visited at position %d instead of %d", after, seen[i], i, ref[i].serial);
    for (int id = 0; id < 4; id++) {
        struct el *e = linked_list_find(&id, by_id, l); int w = -1; for (int i = 0; i < nref && w < 0; i++) if (ref[i].id == id) w = i;
        if ((e == NULL) != (w < 0) || (e && e->serial != ref[w].serial)) sq_fail("C20", "after %s: identifier %d %s", after, id, e ? "finds the wrong session" : "is not found");
    }
}
static void gone(int *want, int n, const char *what) {
    if (ndisposed != n) sq_fail("C20", "%s disposed of %d sessions instead of %d", what, ndisposed, n);
    for (int i = 0; i < n; i++) { int k = 0; for (int j = 0; j < n; j++) k += disposed[j] == want[i]; if (k != 1) sq_fail("C20", "%s disposed of session %d %d times", what, want[i], k); }
}
static void history(int root) {
    int depth = sq_thorough ? 7 : 6; linked_list *l = NULL; nref = 0; serial = 0; ndisposed = 0; static int tok; (void) tok;
    if (sq_is("C23")) { sq_cfg.oom = 1; depth = 5; }
    for (int s = 0; s < depth; s++) {
        int op = s == 0 ? root : sq_choose(3 + 3 + 3 + 2, "operation"); ndisposed = 0; char what[60];
        if (op < 3) {
            struct el *e = malloc(sizeof *e); e->id = op; e->serial = ++serial; snprintf(what, sizeof what, "add(%d)", op);
            int hits = sq_oom_hit, code = linked_list_add(e, destructor, &l);
            if (code == 0) { ref[nref].id = op; ref[nref++].serial = serial; if (sq_oom_hit != hits) sq_fail("C23", "an allocation failed and add reported success"); }
            else { if (sq_oom_hit == hits) sq_fail("C20", "add failed"); if (ndisposed) sq_fail("C23", "a failing add disposed of the session"); free(e); sq_hit("add failed"); }
            gone(NULL, 0, what);
        } else if (op < 6) {
            int id = op - 3; snprintf(what, sizeof what, "remove(%d)", id);
            struct el *e = linked_list_remove_by_id(&id, by_id, &l); int w = -1; for (int i = 0; i < nref && w < 0; i++) if (ref[i].id == id) w = i;
            if ((e == NULL) != (w < 0) || (e && e->serial != ref[w].serial)) sq_fail("C20", "%s returned the wrong session", what);
            gone(NULL, 0, what); if (w >= 0) drop(w); free(e);
        } else if (op < 9) {
            int id = op - 6; snprintf(what, sizeof what, "destroy(%d)", id);
            linked_list_destroy_by_id(&id, by_id, &l); int w = -1; for (int i = 0; i < nref && w < 0; i++) if (ref[i].id == id) w = i;
            int want[1]; if (w >= 0) { want[0] = ref[w].serial; drop(w); } gone(want, w >= 0, what);
        } else if (op == 9) {
            mask = sq_choose(1 << nref, "selected"); nasked = 0; snprintf(what, sizeof what, "destroy selected(%x)", mask);
            linked_list_destroy_by_selector(by_mask, &l);
            if (nasked != nref) sq_fail("C20", "%s asked for %d of %d sessions", what, nasked, nref);
            for (int i = 0; i < nref; i++) if (asked[i] != ref[i].serial) sq_fail("C20", "%s did not ask in order", what);
            int want[16], n = 0, m = mask, k = nref; for (int i = 0; i < k; i++) if (m >> i & 1) want[n++] = ref[i].serial;
            for (int i = k - 1; i >= 0; i--) if (m >> i & 1) drop(i);
            gone(want, n, what);
        } else {
            int want[16], n = nref; for (int i = 0; i < nref; i++) want[i] = ref[i].serial; snprintf(what, sizeof what, "destroy all");
            linked_list_destroy(l); l = NULL; nref = 0; gone(want, n, what);
        }
        sq_note("%s%s", s ? ", " : "", what); sq_step(); observe(l, what);
        uint64_t h = nref; for (int i = 0; i < nref; i++) h = sq_hash(&ref[i].id, 4, h); sq_state(h);
    }
    ndisposed = 0; int n = nref; linked_list_destroy(l); if (ndisposed != n) sq_fail("C20", "the end disposed of %d sessions instead of %d", ndisposed, n);
    sq_no_leaks("C20"); sq_no_leaks("C23"); sq_outcome(sq_hash(&nref, 4, serial));
}
struct sq_scen sq_scenarios[] = {{"histories of the registry", "C20 C23", history, 11, 11, 120}};
int sq_n_scenarios = 1;
