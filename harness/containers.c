/* Replays operation histories on the real containers and prints what a user can observe after each
 * step.  Input: "K kind keys hash" starts a history, "op obj x y" is a step. */
#include "common/type.h"
#include "map/map.h"
#include "pair/pair.h"
#include "set/set.h"
#include "vector/vector.h"
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static int hkind, nkeys;
/* keys of the chosen kind: their hash values coincide, differ, or are extreme */
static int keyval(int k) {
    switch (hkind) {
    case 0: return k;
    case 1: return k;          /* constant hash */
    case 2: return k * 15015;  /* equal modulo many table sizes */
    case 3: return k % 2 ? INT_MAX - k : INT_MIN + k;
    case 4: return -k;
    case 5: return k;          /* two hash values */
    default: return k;
    }
}
static int h_const(void* p) { (void)p; return 12345; }
static int h_two(void* p) { return *(int*)p % 2 ? 1 : INT_MAX; }
static HashableType t_const, t_two;
static char* strkey(int k) {
    static char buf[64];
    if (hkind == 6) sprintf(buf, "k%d", k);
    else if (hkind == 7) sprintf(buf, "%c%c%c", "ab"[k & 1], "ab"[(k >> 1) & 1], 'a' + (k >> 2)); /* permutations share sums */
    else sprintf(buf, "%c\xe3\x81%d", 200 + k % 50, k);
    return buf;
}
static int isstr(void) { return hkind >= 6; }
static HashableType* ktype(void) {
    if (isstr()) return &t_hashable_string;
    if (hkind == 1) return &t_const;
    if (hkind == 5) return &t_two;
    return &t_hashable_integer;
}
static void* mkkey(int k) { return isstr() ? (void*)new_string(strkey(k)) : (void*)new_integer(keyval(k)); }
static int unkey(void* p) {
    for (int k = 1; k <= nkeys; k++)
        if (isstr() ? strcmp(p, strkey(k)) == 0 : *(int*)p == keyval(k)) return k;
    return -1;
}
static void* O[2];
static char kind;
static void* mk(void) {
    switch (kind) {
    case 'm': return new_map(ktype(), &t_integer);
    case 's': return new_set(ktype());
    case 'v': return new_vector(&t_integer);
    }
    return new_pair(&t_integer, &t_integer);
}
static void* cp(void* o) {
    switch (kind) {
    case 'm': return map_copy(o);
    case 's': return set_copy(o);
    case 'v': return vector_copy(o);
    }
    return pair_copy(o);
}
static void rm(void* o) {
    if (kind == 'm') delete_map(o);
    else if (kind == 's') delete_set(o);
    else if (kind == 'v') delete_vector(o);
    else delete_pair(o);
}
static int val(void* p) { return p ? *(int*)p : 0; }
static void observe(void) {
    int cnt[2] = {0, 0};
    for (int i = 0; i < 2; i++) {
        printf("<<");
        if (kind == 'm' || kind == 's') {
            int seen[1024] = {0}, it = 0, k;
            if (kind == 'm') {
                for (MapIter* t = map_iter_begin(O[i]); !map_iter_end(t, O[i]); t = map_iter_next(t, O[i])) {
                    k = unkey(map_iter_key(t, O[i]));
                    cnt[i]++;
                    if (k < 0 || seen[k]) { printf("bad-iteration "); if (k < 0) continue; }
                    seen[k] = val(map_iter_value(t, O[i]));
                }
            } else {
                for (SetIter* t = set_iter_begin(O[i]); !set_iter_end(t, O[i]); t = set_iter_next(t, O[i])) {
                    k = unkey(set_iter_item(t, O[i]));
                    cnt[i]++;
                    if (k < 0 || seen[k]) { printf("bad-iteration "); if (k < 0) continue; }
                    seen[k] = 1;
                }
            }
            (void)it;
            for (k = 1; k <= nkeys; k++) {
                void* q = mkkey(k);
                int v, c, d;
                if (kind == 'm') {
                    int dflt = 4242;
                    v = val(map_get(O[i], q)), c = map_contains(O[i], q), d = val(map_get_with_default(O[i], q, &dflt));
                    if (d != (v ? v : 4242)) printf("bad-default ");
                    if ((c != 0) != (v != 0)) printf("bad-contains ");
                } else v = set_contains(O[i], q) ? 1 : 0;
                free(q);
                if (v != seen[k]) printf("iteration-differs(%d,%d) ", v, seen[k]);
                printf(k > 1 ? ", %d" : "%d", v);
            }
        } else if (kind == 'v') {
            int n = vector_size(O[i]);
            for (int j = 0; j < n; j++) printf(j ? ", %d" : "%d", val(vector_at(O[i], j)));
            if (vector_at(O[i], -1) || vector_at(O[i], n) || vector_at(O[i], n + 7)) printf("bad-at");
        } else printf("%d, %d", val(pair_first(O[i])), val(pair_second(O[i])));
        printf(">>, ");
    }
    if (kind == 'm') printf("<<%d, %d>>", cnt[0], cnt[1]);
    else if (kind == 's')
        printf("<<%d, %d, %d, %d, %d>>", cnt[0], cnt[1], !!set_issubset(O[0], O[1]), !!set_issubset(O[1], O[0]), !!set_equals(O[0], O[1]));
    else printf("<<>>");
}
int main(void) {
    char line[256], op[32], obj[8];
    t_const = t_hashable_integer;
    t_const.hash_object = h_const;
    t_two = t_hashable_integer;
    t_two.hash_object = h_two;
    static char out[1 << 16];
    setvbuf(stdout, out, _IOFBF, sizeof out);
    while (fgets(line, sizeof line, stdin)) {
        int x, y;
        if (line[0] == 'K') {
            if (O[0]) rm(O[0]), rm(O[1]);
            sscanf(line + 2, "%c %d %d", &kind, &nkeys, &hkind);
            O[0] = mk(), O[1] = mk();
            printf("K\n");
            continue;
        }
        if (sscanf(line, "%s %s %d %d", op, obj, &x, &y) != 4) return 7;
        int i = obj[0] == 'B';
        void *o = O[i], *p = O[1 - i];
        int r = 0, popped = 0;
        if (!strcmp(op, "copy")) rm(p), O[1 - i] = cp(o);
        else if (!strcmp(op, "new")) rm(o), O[i] = mk();
        else if (kind == 'm') {
            if (!strcmp(op, "add")) map_add(o, mkkey(x), new_integer(y));
            else { void* q = mkkey(x); map_remove(o, q); free(q); }
        } else if (kind == 's') {
            Set* n = NULL;
            if (!strcmp(op, "add")) set_add(o, mkkey(x));
            else if (!strcmp(op, "rem")) { void* q = mkkey(x); set_remove(o, q); free(q); }
            else if (!strcmp(op, "and")) n = set_intersection(o, p);
            else if (!strcmp(op, "or")) n = set_union(o, p);
            else n = set_difference(o, p);
            if (n) rm(o), O[i] = n;
        } else if (kind == 'v') {
            if (!strcmp(op, "push")) vector_push(o, new_integer(x));
            else if (!strcmp(op, "pop")) { void* q = vector_pop(o); if (val(q) != x) printf("bad-pop "); free(q); }
            else if (!strcmp(op, "fill")) vector_fill(o, x, new_integer(y));
            else if (!strcmp(op, "set")) { int n = vector_size(o); void* q = new_integer(y); r = vector_set(o, x, q); if ((r != 0) != (x >= 0 && x < n)) printf("bad-set "); if (!r) free(q); }
            else if (!strcmp(op, "ins")) { int n = vector_size(o); void* q = new_integer(y); vector_insert(o, x, q); if (x < 0 || x > n) free(q); }
            else if (!strcmp(op, "era")) vector_erase(o, x);
            else vector_extend(o, p);
        } else {
            if (!strcmp(op, "first")) pair_set_first(o, new_integer(x));
            else if (!strcmp(op, "second")) pair_set_second(o, new_integer(x));
            else pair_set(o, new_integer(x), new_integer(x));
        }
        (void)popped;
        observe();
        printf("\n");
    }
    fflush(stdout);
    return 0;
}
