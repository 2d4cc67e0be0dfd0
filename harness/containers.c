// Interprets container operations from stdin (one per line) and prints the result of each one.
// Lines: "CASE k kind" starts a case; "!n op ..." makes the n-th allocation of the operation fail.
#include "kefir/core/block_tree.h"
#include "kefir/core/error.h"
#include "kefir/core/hashtree.h"
#include "kefir/core/linked_stack.h"
#include "kefir/core/list.h"
#include "kefir/core/mem.h"
#include "kefir/core/string_buffer.h"
#include "kefir/core/symbol_table.h"
#include "kefir/core/tree.h"
#include "kefir/core/trie.h"
#include "kefir/core/vector.h"
#include "kefir/lexer/buffer.h"
#include <locale.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static long fail_at = -1, outstanding = 0;
static int failed = 0;
#define MAXB 200000
static void *blocks[MAXB];
static long nblocks = 0;

static int take(void) {
    if (fail_at >= 0 && fail_at-- == 0) {
        failed = 1;
        return 0;
    }
    return 1;
}
static void add(void *p) {
    for (long i = 0; i < nblocks; i++) {
        if (blocks[i] == NULL) {
            blocks[i] = p;
            return;
        }
    }
    if (nblocks < MAXB) blocks[nblocks++] = p;
}
static int del(void *p) {
    for (long i = nblocks - 1; i >= 0; i--) {
        if (blocks[i] == p) {
            blocks[i] = NULL;
            while (nblocks > 0 && blocks[nblocks - 1] == NULL) nblocks--;
            return 1;
        }
    }
    return 0;
}
static void *m_malloc(struct kefir_mem *m, kefir_size_t n) {
    if (!take()) return NULL;
    void *p = malloc(n ? n : 1);
    memset(p, 0xa5, n);
    add(p);
    outstanding++;
    return p;
}
static void *m_calloc(struct kefir_mem *m, kefir_size_t a, kefir_size_t b) {
    void *p = m_malloc(m, a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
static void m_free(struct kefir_mem *m, void *p) {
    if (p == NULL) return;
    if (!del(p)) {
        printf("BAD-FREE\n");
        return;
    }
    outstanding--;
    free(p);
}
static void *m_realloc(struct kefir_mem *m, void *p, kefir_size_t n) {
    if (!take()) return NULL;
    if (p != NULL && !del(p)) {
        printf("BAD-REALLOC\n");
        abort();
    }
    if (p == NULL) outstanding++;
    p = realloc(p, n ? n : 1);
    add(p);
    return p;
}
static struct kefir_mem mem = {m_malloc, m_calloc, m_realloc, m_free, NULL};

static const char *rcname(kefir_result_t r) {
    switch (r) {
        case KEFIR_OK: return "ok";
        case KEFIR_NOT_FOUND: return "not-found";
        case KEFIR_ALREADY_EXISTS: return "exists";
        case KEFIR_OUT_OF_BOUNDS: return "bounds";
        case KEFIR_ITERATOR_END: return "end";
        case KEFIR_MEMALLOC_FAILURE: return "nomem";
        default: return "error";
    }
}

static struct kefir_hashtree ht;
static int ht_str;
static struct kefir_list lists[3];
static struct kefir_vector vec;
static struct kefir_tree_node tree;
static struct kefir_trie trie;
static struct kefir_block_tree bt;
static struct kefir_string_buffer sb[2];
static struct kefir_symbol_table st;
static struct kefir_token_buffer tb[3];
static const char *syms[4096];
static int nsyms;
static struct kefir_tree_node *nodes[4096];
static int nnodes;
static struct kefir_trie *tries[4096];
static int ntries;

static kefir_hashtree_hash_t weak_hash(kefir_hashtree_key_t k, void *d) { return k % 4; }
static bool weak_cmp(kefir_hashtree_key_t a, kefir_hashtree_key_t b, void *d) { return a == b; }
static const struct kefir_hashtree_ops weak_ops = {.hash = weak_hash, .compare_keys = weak_cmp, .data = NULL};

static void keyname(kefir_hashtree_key_t k) {
    if (ht_str) printf(" %s", (const char *) k);
    else printf(" %llu", (unsigned long long) k);
}
static kefir_result_t on_ht(struct kefir_mem *m, struct kefir_hashtree *t, kefir_hashtree_key_t k, kefir_hashtree_value_t v, void *d) {
    printf(" removed");
    keyname(k);
    printf("=%llu", (unsigned long long) v);
    if (ht_str) free((void *) k);
    return KEFIR_OK;
}
static kefir_result_t on_list(struct kefir_mem *m, struct kefir_list *l, struct kefir_list_entry *e, void *d) {
    printf(" removed %lld", (long long) (long) e->value);
    return KEFIR_OK;
}
static kefir_result_t on_tree(struct kefir_mem *m, void *v, void *d) {
    printf(" removed %lld", (long long) (long) v);
    return KEFIR_OK;
}
static kefir_result_t on_block_init(struct kefir_mem *m, struct kefir_block_tree *t, kefir_size_t id, void *b, void *d) {
    memset(b, (int) (id * 7 + 1), t->block_size);
    printf(" init %llu", (unsigned long long) id);
    return KEFIR_OK;
}
static kefir_result_t on_block_free(struct kefir_mem *m, struct kefir_block_tree *t, kefir_size_t id, void *b, void *d) {
    int good = 1;
    for (kefir_size_t i = 0; i < t->block_size; i++) good &= ((unsigned char *) b)[i] == (unsigned char) (id * 7 + 1);
    printf(" removed %llu=%d", (unsigned long long) id, good);
    return KEFIR_OK;
}

static void dump_list(struct kefir_list *l) {
    printf(" [");
    const struct kefir_list_entry *prev = NULL;
    int broken = 0;
    for (const struct kefir_list_entry *i = kefir_list_head(l); i != NULL;) {
        broken |= i->prev != prev;
        prev = i;
        printf(" %lld", (long long) (long) kefir_list_next(&i));
    }
    broken |= kefir_list_tail(l) != prev;
    printf(" ] %llu%s", (unsigned long long) kefir_list_length(l), broken ? " BROKEN" : "");
}
static void dump_sb(struct kefir_string_buffer *b) {
    kefir_size_t n;
    const void *v = kefir_string_buffer_value(b, &n);
    printf(" m%d %llu:", (int) b->mode, (unsigned long long) n);
    for (kefir_size_t i = 0; i < n; i++) {
        switch (b->mode) {
            case KEFIR_STRING_BUFFER_MULTIBYTE:
            case KEFIR_STRING_BUFFER_UNICODE8: printf(" %x", ((const unsigned char *) v)[i]); break;
            case KEFIR_STRING_BUFFER_UNICODE16: printf(" %x", ((const kefir_char16_t *) v)[i]); break;
            case KEFIR_STRING_BUFFER_UNICODE32: printf(" %x", ((const kefir_char32_t *) v)[i]); break;
            case KEFIR_STRING_BUFFER_WIDE: printf(" %x", (unsigned) ((const kefir_wchar_t *) v)[i]); break;
        }
    }
}
static void dump_tb(struct kefir_token_buffer *b) {
    printf(" [");
    for (kefir_size_t i = 0; i < b->length; i++) {
        struct kefir_token *t = &b->tokens[i];
        if (t->klass == KEFIR_TOKEN_CONSTANT) printf(" %lld", (long long) t->constant.integer);
        else if (t->klass == KEFIR_TOKEN_STRING_LITERAL) printf(" \"%s\"", (const char *) t->string_literal.literal);
        else if (t->klass == KEFIR_TOKEN_PUNCTUATOR) printf(" p%d", (int) t->punctuator);
        else printf(" ?%d", (int) t->klass);
    }
    printf(" ]");
}

static char kind[16];
static void finish(void) {
    fail_at = -1;
    printf("free");
    if (!strcmp(kind, "hash")) printf(" %s", rcname(kefir_hashtree_free(&mem, &ht)));
    else if (!strcmp(kind, "list")) { for (int i = 0; i < 3; i++) printf(" %s", rcname(kefir_list_free(&mem, &lists[i]))); }
    else if (!strcmp(kind, "vec")) printf(" %s", rcname(kefir_vector_free(&mem, &vec)));
    else if (!strcmp(kind, "tree")) printf(" %s", rcname(kefir_tree_free(&mem, &tree)));
    else if (!strcmp(kind, "trie")) printf(" %s", rcname(kefir_trie_free(&mem, &trie)));
    else if (!strcmp(kind, "block")) printf(" %s", rcname(kefir_block_tree_free(&mem, &bt)));
    else if (!strcmp(kind, "str")) { for (int i = 0; i < 2; i++) if (sb[i].buffer) printf(" %s", rcname(kefir_string_buffer_free(&mem, &sb[i]))); else printf(" ok"); }
    else if (!strcmp(kind, "sym")) printf(" %s", rcname(kefir_symbol_table_free(&mem, &st)));
    else if (!strcmp(kind, "tok")) { for (int i = 0; i < 3; i++) printf(" %s", rcname(kefir_token_buffer_free(&mem, &tb[i]))); }
    printf("\nleak %ld\n", outstanding);
    outstanding = 0;
    nblocks = 0;
}

int main(void) {
    char line[4096];
    int open = 0;
    setlocale(LC_ALL, "C.UTF-8");
    while (fgets(line, sizeof line, stdin)) {
        char *p = line, op[32];
        line[strcspn(line, "\n")] = 0;
        if (*line == 0) continue;
        if (!strncmp(p, "CASE ", 5)) {
            if (open) finish();
            open = 1;
            int id;
            long a = 0, b = 0;
            sscanf(p, "CASE %d %15s %ld %ld", &id, kind, &a, &b);
            printf("CASE %d\n", id);
            fail_at = -1;
            if (!strcmp(kind, "hash")) {
                ht_str = a == 1;
                kefir_hashtree_init(&ht, a == 1 ? &kefir_hashtree_str_ops : a == 2 ? &weak_ops : &kefir_hashtree_uint_ops);
                kefir_hashtree_on_removal(&ht, on_ht, NULL);
            } else if (!strcmp(kind, "list")) {
                for (int i = 0; i < 3; i++) { kefir_list_init(&lists[i]); kefir_list_on_remove(&lists[i], on_list, NULL); }
            } else if (!strcmp(kind, "vec")) {
                memset(&vec, 0, sizeof vec);
                kefir_vector_alloc(&mem, a, b, &vec);
            } else if (!strcmp(kind, "tree")) {
                kefir_tree_init(&tree, (void *) 0);
                kefir_tree_on_removal(&tree, on_tree, NULL);
                nodes[0] = &tree;
                nnodes = 1;
            } else if (!strcmp(kind, "trie")) {
                kefir_trie_init(&trie, 0);
                tries[0] = &trie;
                ntries = 1;
            } else if (!strcmp(kind, "block")) {
                kefir_block_tree_init(&bt, a);
                kefir_block_tree_on_block_init(&bt, on_block_init, NULL);
                kefir_block_tree_on_block_removal(&bt, on_block_free, NULL);
            } else if (!strcmp(kind, "str")) {
                kefir_string_buffer_init(&mem, &sb[0], a);
                kefir_string_buffer_init(&mem, &sb[1], b);
            } else if (!strcmp(kind, "sym")) {
                kefir_symbol_table_init(&st);
                nsyms = 0;
            } else if (!strcmp(kind, "tok")) {
                for (int i = 0; i < 3; i++) kefir_token_buffer_init(&tb[i]);
            }
            continue;
        }
        fail_at = -1;
        failed = 0;
        int n = 0;
        long want = -1;
        if (*p == '!') {
            want = strtol(p + 1, &p, 10);
            while (*p == ' ') p++;
        }
        sscanf(p, "%31s%n", op, &n);
        p += n;
        long a = 0, b = 0, c = 0;
        char s[2048] = "";
        sscanf(p, "%ld %ld %ld", &a, &b, &c);
        sscanf(p, "%2047s", s);
        printf("%s", op);
        kefir_result_t rc = KEFIR_OK;
        fail_at = want;
        if (!strcmp(kind, "hash")) {
            if (!strcmp(op, "ins")) {
                kefir_hashtree_key_t k = ht_str ? (kefir_hashtree_key_t) strdup(s) : strtoull(s, NULL, 10);
                long v = 0;
                sscanf(p, "%*s %ld", &v);
                rc = kefir_hashtree_insert(&mem, &ht, k, v);
                if (rc != KEFIR_OK && ht_str) free((void *) k);
                printf(" %s", rcname(rc));
            } else {
                kefir_hashtree_key_t k = ht_str ? (kefir_hashtree_key_t) s : strtoull(s, NULL, 10);
                if (!strcmp(op, "del")) { rc = kefir_hashtree_delete(&mem, &ht, k); printf(" %s", rcname(rc)); }
                else if (!strcmp(op, "has")) printf(" %d", kefir_hashtree_has(&ht, k));
                else if (!strcmp(op, "at")) {
                    struct kefir_hashtree_node *nd = NULL;
                    rc = kefir_hashtree_at(&ht, k, &nd);
                    printf(" %s", rcname(rc));
                    if (rc == KEFIR_OK) printf(" %llu", (unsigned long long) nd->value);
                } else if (!strcmp(op, "iter")) {
                    struct kefir_hashtree_node_iterator it;
                    for (const struct kefir_hashtree_node *nd = kefir_hashtree_iter(&ht, &it); nd != NULL; nd = kefir_hashtree_next(&it)) {
                        keyname(nd->key);
                        printf("=%llu", (unsigned long long) nd->value);
                    }
                } else if (!strcmp(op, "clean")) { rc = kefir_hashtree_clean(&mem, &ht); printf(" %s", rcname(rc)); }
                else if (!strcmp(op, "empty")) printf(" %d", kefir_hashtree_empty(&ht));
            }
        } else if (!strcmp(kind, "list")) {
            struct kefir_list *l = &lists[a];
            if (!strcmp(op, "ins")) { rc = kefir_list_insert_after(&mem, l, b < 0 ? NULL : kefir_list_at(l, b), (void *) c); printf(" %s", rcname(rc)); }
            else if (!strcmp(op, "pop")) { rc = kefir_list_pop(&mem, l, kefir_list_at(l, b)); printf(" %s", rcname(rc)); }
            else if (!strcmp(op, "clear")) { rc = kefir_list_clear(&mem, l); printf(" %s", rcname(rc)); }
            else if (!strcmp(op, "move")) { rc = kefir_list_move_all(l, &lists[b]); printf(" %s", rcname(rc)); dump_list(&lists[b]); }
            else if (!strcmp(op, "push")) { rc = kefir_linked_stack_push(&mem, l, (void *) b); printf(" %s", rcname(rc)); }
            else if (!strcmp(op, "top")) { void *v; rc = kefir_linked_stack_peek(l, &v); printf(" %s %ld", rcname(rc), (long) v); }
            else if (!strcmp(op, "spop")) { void *v; rc = kefir_linked_stack_pop(&mem, l, &v); printf(" %s %ld", rcname(rc), (long) v); }
            else if (!strcmp(op, "at")) { struct kefir_list_entry *e = kefir_list_at(l, b); if (e) printf(" %ld", (long) e->value); else printf(" none"); }
            dump_list(l);
        } else if (!strcmp(kind, "vec")) {
            unsigned char e[4096];
            if (!strcmp(op, "app")) { memset(e, (int) a, vec.element_size); rc = kefir_vector_append(&vec, e); printf(" %s", rcname(rc)); }
            else if (!strcmp(op, "copy")) { for (long i = 0; i < b; i++) memset(e + i * vec.element_size, (int) (a + i), vec.element_size); rc = kefir_vector_copy(&vec, b ? e : NULL, b); printf(" %s", rcname(rc)); }
            else if (!strcmp(op, "ext")) { kefir_size_t o = vec.length; rc = kefir_vector_extend(&vec, a); printf(" %s", rcname(rc)); if (rc == KEFIR_OK) for (long i = 0; i < a; i++) memset(kefir_vector_at(&vec, o + i), (int) b, vec.element_size); }
            else if (!strcmp(op, "realloc")) { rc = kefir_vector_realloc(&mem, a, &vec); printf(" %s", rcname(rc)); }
            printf(" %llu+%llu:", (unsigned long long) kefir_vector_length(&vec), (unsigned long long) kefir_vector_available(&vec));
            for (kefir_size_t i = 0; i < kefir_vector_length(&vec); i++) {
                unsigned char *x = kefir_vector_at(&vec, i);
                int same = 1;
                for (kefir_size_t j = 0; j < vec.element_size; j++) same &= x[j] == x[0];
                printf(" %d%s", x[0], same ? "" : "?");
            }
            printf(" %d", kefir_vector_at(&vec, kefir_vector_length(&vec)) == NULL);
        } else if (!strcmp(kind, "tree")) {
            if (!strcmp(op, "add")) {
                struct kefir_tree_node *nd = NULL;
                rc = kefir_tree_insert_child(&mem, nodes[a], (void *) b, &nd);
                printf(" %s", rcname(rc));
                if (rc == KEFIR_OK) nodes[nnodes++] = nd;
            } else if (!strcmp(op, "kids")) {
                struct kefir_tree_node *prev = NULL;
                int broken = 0;
                for (struct kefir_tree_node *x = kefir_tree_first_child(nodes[a]); x != NULL; x = kefir_tree_next_sibling(x)) {
                    printf(" %ld", (long) x->value);
                    broken |= kefir_tree_prev_sibling(x) != prev || x->parent != nodes[a];
                    prev = x;
                }
                if (broken) printf(" BROKEN");
            } else if (!strcmp(op, "iter")) {
                struct kefir_tree_node_iterator it;
                rc = kefir_tree_iter(nodes[a], &it);
                while (rc == KEFIR_OK) {
                    printf(" %ld", (long) it.current->value);
                    rc = kefir_tree_iter_next(&mem, &it);
                }
                printf(" %s", rcname(rc));
                if (rc != KEFIR_ITERATOR_END) kefir_tree_iter_free(&mem, &it);
                if (rc == KEFIR_ITERATOR_END) rc = KEFIR_OK;
            }
        } else if (!strcmp(kind, "trie")) {
            if (!strcmp(op, "add")) {
                struct kefir_trie_vertex *v = NULL;
                rc = kefir_trie_insert_vertex(&mem, tries[a], b, c, &v);
                printf(" %s", rcname(rc));
                if (rc == KEFIR_OK) tries[ntries++] = &v->node;
            } else if (!strcmp(op, "at")) {
                struct kefir_trie_vertex *v = NULL;
                rc = kefir_trie_at(tries[a], b, &v);
                printf(" %s", rcname(rc));
                if (rc == KEFIR_OK) printf(" %lld=%llu", (long long) v->key, (unsigned long long) v->node.value);
            }
        } else if (!strcmp(kind, "block")) {
            if (!strcmp(op, "get")) { void *x = NULL; rc = kefir_block_tree_get_block(&bt, a, &x); printf(" %s", rcname(rc)); if (rc == KEFIR_OK) printf(" %d", *(unsigned char *) x); }
            else if (!strcmp(op, "block")) { void *x = NULL; rc = kefir_block_tree_block(&mem, &bt, a, &x); printf(" %s", rcname(rc)); if (rc == KEFIR_OK) printf(" %d", *(unsigned char *) x); }
            else if (!strcmp(op, "off")) { kefir_size_t x, y; rc = kefir_block_tree_get_block_offset(&bt, a, &x, &y); printf(" %s %llu %llu", rcname(rc), (unsigned long long) x, (unsigned long long) y); }
            else if (!strcmp(op, "iter") || !strcmp(op, "skip")) {
                struct kefir_block_tree_iterator it;
                rc = kefir_block_tree_iter(&bt, &it);
                if (!strcmp(op, "skip")) rc = kefir_block_tree_iter_skip_to(&bt, &it, a);
                while (it.block != NULL) {
                    printf(" %llu=%d", (unsigned long long) it.block_id, *(unsigned char *) it.block);
                    kefir_block_tree_next(&it);
                }
            }
        } else if (!strcmp(kind, "str")) {
            struct kefir_string_buffer *x = &sb[a];
            if (!strcmp(op, "put")) { rc = kefir_string_buffer_insert(&mem, x, (kefir_char32_t) b); printf(" %s", rcname(rc)); }
            else if (!strcmp(op, "raw")) { rc = kefir_string_buffer_insert_raw(&mem, x, b); printf(" %s", rcname(rc)); }
            else if (!strcmp(op, "conv")) { rc = kefir_string_buffer_convert(&mem, x, b); printf(" %s", rcname(rc)); }
            else if (!strcmp(op, "merge")) { rc = kefir_string_buffer_merge(&mem, x, &sb[1 - a]); printf(" %s", rcname(rc)); }
            if (rc == KEFIR_OK || !failed) dump_sb(x);
        } else if (!strcmp(kind, "sym")) {
            if (!strcmp(op, "ins")) {
                kefir_id_t id = 12345;
                const char *r = kefir_symbol_table_insert(&mem, &st, s, &id);
                if (r == NULL) printf(" null");
                else {
                    int j;
                    for (j = 0; j < nsyms && syms[j] != r; j++) {}
                    if (j == nsyms) syms[nsyms++] = r;
                    printf(" %s #%d id%lld", r, j, (long long) id);
                }
                rc = r == NULL;
            } else if (!strcmp(op, "get")) {
                const char *r = kefir_symbol_table_get(&st, a);
                printf(" %s", r ? r : "null");
            }
        } else if (!strcmp(kind, "tok")) {
            if (!strcmp(op, "int") || !strcmp(op, "lit") || !strcmp(op, "punct")) {
                struct kefir_token t;
                char *q = strchr(p + 1, ' ');
                long f = fail_at;
                fail_at = -1;
                if (*op == 'i') kefir_token_new_constant_int(b, &t);
                else if (*op == 'p') kefir_token_new_punctuator(b, &t);
                else kefir_token_new_string_literal_multibyte(&mem, q ? q + 1 : "", strlen(q ? q + 1 : "") + 1, &t);
                fail_at = f;
                rc = kefir_token_buffer_emplace(&mem, &tb[a], &t);
                printf(" %s", rcname(rc));
                if (rc != KEFIR_OK) { fail_at = -1; kefir_token_free(&mem, &t); }
                dump_tb(&tb[a]);
            } else if (!strcmp(op, "pop")) { rc = kefir_token_buffer_pop(&mem, &tb[a]); printf(" %s", rcname(rc)); dump_tb(&tb[a]); }
            else if (!strcmp(op, "app")) { rc = kefir_token_buffer_insert(&mem, &tb[a], &tb[b]); printf(" %s", rcname(rc)); if (rc == KEFIR_OK) { dump_tb(&tb[a]); dump_tb(&tb[b]); } else { fail_at = -1; kefir_token_buffer_free(&mem, &tb[b]); kefir_token_buffer_init(&tb[b]); } }
            else if (!strcmp(op, "copy")) { rc = kefir_token_buffer_copy(&mem, &tb[a], &tb[b]); printf(" %s", rcname(rc)); if (rc == KEFIR_OK) { dump_tb(&tb[a]); dump_tb(&tb[b]); } }
        }
        fail_at = -1;
        printf("%s\n", failed ? " *fault" : "");
        kefir_clear_error();
    }
    if (open) finish();
    return 0;
}
