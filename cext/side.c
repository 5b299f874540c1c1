/* A C program that uses the C interface through its own header, and answers the harness.
   Built with AddressSanitizer and UndefinedBehaviorSanitizer. */
#include <inttypes.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "ms_toollib.h"
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/allocator_interface.h>
static long in_use(void) { return (long)__sanitizer_get_current_allocated_bytes(); }
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
static long in_use(void) { return (long)__sanitizer_get_current_allocated_bytes(); }
#endif
#endif

/* a list of commands: [["s:hex", ...], ...] */
static const char *p;
static void skip(void) { while (*p == ' ' || *p == ',' || *p == '\n') p++; }
static void open_list(void) { skip(); if (*p != '[') { fprintf(stderr, "list at %.20s\n", p); abort(); } p++; }
static int close_list(void) { skip(); if (*p == ']') { p++; return 1; } return 0; }
static int64_t number(void) { skip(); char *e; int64_t v = strtoll(p, &e, 10); if (e == p) { fprintf(stderr, "number at %.20s\n", p); abort(); } p = e; return v; }
static double real(void) {
    skip();
    if (strncmp(p, "\"f:", 3)) return (double)number();
    char *e; uint64_t b = strtoull(p + 3, &e, 16); double d; memcpy(&d, &b, 8); p = e + 1; return d;
}
static void text(char *out, size_t n) {
    skip();
    if (strncmp(p, "\"s:", 3)) { fprintf(stderr, "text at %.20s\n", p); abort(); }
    p += 3;
    size_t k = 0;
    while (*p != '"') { unsigned c; sscanf(p, "%2x", &c); if (k + 1 < n) out[k++] = (char)c; p += 2; }
    out[k] = 0; p++;
}

/* boards exactly as large as they are said to be, so that a step outside is seen */
static struct Board lend(void) {
    struct Row rows[128]; size_t n = 0;
    open_list();
    while (!close_list()) {
        int32_t cells[128]; size_t c = 0;
        open_list();
        while (!close_list()) cells[c++] = (int32_t)number();
        rows[n].cells = malloc(c * sizeof(int32_t)); rows[n].n_column = c;
        memcpy(rows[n].cells, cells, c * sizeof(int32_t)); n++;
    }
    struct Board b = { malloc(n * sizeof(struct Row)), n };
    memcpy(b.rows, rows, n * sizeof(struct Row));
    return b;
}
static void give_back(struct Board b) { for (size_t i = 0; i < b.n_row; i++) free(b.rows[i].cells); free(b.rows); }

static struct { int kind; struct Board b; struct BoardPossReturn q; } held[64];
static void show(size_t k) {
    if (held[k].kind == 1) {
        printf("[");
        for (size_t i = 0; i < held[k].b.n_row; i++) {
            printf(i ? ",[" : "[");
            for (size_t j = 0; j < held[k].b.rows[i].n_column; j++) printf(j ? ",%" PRId32 : "%" PRId32, held[k].b.rows[i].cells[j]);
            printf("]");
        }
        printf("]");
    } else {
        struct BoardPossReturn q = held[k].q;
        printf("[[");
        for (size_t i = 0; i < q.board_poss.n_row; i++) {
            printf(i ? ",[" : "[");
            for (size_t j = 0; j < q.board_poss.rows_poss[i].n_column; j++) { uint64_t b; memcpy(&b, &q.board_poss.rows_poss[i].cells_poss[j], 8); printf(j ? ",\"f:%016" PRIx64 "\"" : "\"f:%016" PRIx64 "\"", b); }
            printf("]");
        }
        printf("],[%zu,%zu,%zu]]", q.min_mine_num, q.mine_num, q.max_mine_num);
    }
}

int main(void) {
    setvbuf(stdout, malloc(1 << 16), _IOFBF, 1 << 16);
    free_board(laymine(8, 8, 10, 0, 0));
    printf("ready\n"); fflush(stdout);
    char *line = NULL; size_t cap = 0;
    long base = 0; int based = 0;
    while (getline(&line, &cap, stdin) > 0) {
        p = line;
        base = in_use();
        printf("[");
        open_list();
        int first = 1;
        while (!close_list()) {
            char op[8], name[64];
            open_list(); text(op, sizeof op);
            if (!first) printf(",");
            first = 0;
            if (op[0] == 'x') { printf("null"); close_list(); continue; }
            text(name, sizeof name);
            if (!strcmp(name, "cal3BV")) { struct Board b = lend(); printf("%zu", cal3BV(b)); give_back(b); }
            else if (!strcmp(name, "laymine")) {
                size_t k = number(), r = number(), c = number(), n = number(), x = number(), y = number();
                held[k].kind = 1; held[k].b = laymine(r, c, n, x, y); show(k);
            } else if (!strcmp(name, "cal_possibility_onboard")) {
                size_t k = number(); struct Board b = lend(); double n = real();
                held[k].kind = 2; held[k].q = cal_possibility_onboard(b, n); give_back(b); show(k);
            } else if (!strcmp(name, "show")) show(number());
            else if (!strcmp(name, "free")) {
                size_t k = number();
                if (held[k].kind == 1) free_board(held[k].b); else free_board_poss(held[k].q);
                held[k].kind = 0; printf("null");
            } else if (!strcmp(name, "balance")) printf("[%ld,0]", in_use() - base);
            else { fprintf(stderr, "no %s\n", name); abort(); }
            close_list();
        }
        printf("]\n"); fflush(stdout);
        (void)based;
    }
    return 0;
}
