// Native functions for C22. `show` describes its arguments, `make` builds a value from a description.
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include "cordy.h"

#ifndef ID
#define ID 0
#endif

static char buf[1 << 20];
static size_t at;
static void put(const char* s) { size_t l = strlen(s); if (at + l < sizeof buf) { memcpy(buf + at, s, l + 1); at += l; } }
static void describe(cordy_value_t v) {
    char t[64];
    switch (v.ty) {
        case TY_NIL: put("nil"); break;
        case TY_BOOL: put(v.bool_value ? "true" : "false"); break;
        case TY_INT: sprintf(t, "%lld", (long long) v.int_value); put(t); break;
        case TY_STR: sprintf(t, "%zu:", strlen(v.str_value)); put(t); put(v.str_value); break;
        case TY_ARRAY:
            put("[");
            for (size_t i = 0; i < v.vec_value.len; i++) { if (i) put(","); describe(v.vec_value.ptr[i]); }
            put("]");
            break;
        default: put("?");
    }
}

static cordy_value_t show_n(cordy_value_t* args, size_t n) {
    at = 0;
    buf[0] = 0;
    for (size_t i = 0; i < n; i++) { if (i) put(";"); describe(args[i]); }
    return STR(buf);
}
CORDY_EXTERN(show) { return show_n(args, n); }
CORDY_EXTERN(show0) { return show_n(args, n); }
CORDY_EXTERN(show2) { return show_n(args, n); }
CORDY_EXTERN(showd) { return show_n(args, n); }
CORDY_EXTERN(showv) { return show_n(args, n); }
CORDY_EXTERN(showo) { return show_n(args, n); }

CORDY_EXTERN(id) { return INT(ID); }
CORDY_EXTERN(echo) { ASSERT(n == 1); return args[0]; }
CORDY_EXTERN(first) { ASSERT(n == 2); if (args[1].ty == TY_STR) FREE(args[1]); return args[0]; }
CORDY_EXTERN(last) { ASSERT(n == 2); if (args[0].ty == TY_STR) FREE(args[0]); return args[1]; }
CORDY_EXTERN(fail) { return ERR(failed on purpose); }
CORDY_EXTERN(check) { AS_INT(int64_t x, args[0]); ASSERT(x > 3); return BOOL(x > 5); }
CORDY_EXTERN(count) { static int calls = 0; return INT(++calls); }

// descriptions: n t f, i<int>; s<len>:<bytes> [ ... ]
static cordy_value_t make_one(const char** p) {
    cordy_value_t v;
    memset(&v, 0xff, sizeof v);
    switch (*(*p)++) {
        case 't': v.ty = TY_BOOL; v.bool_value = true; return v;
        case 'f': v.ty = TY_BOOL; v.bool_value = false; return v;
        case 'i': { char* e; v.ty = TY_INT; v.int_value = strtoll(*p, &e, 10); *p = e + 1; return v; }
        case 's': {
            char* e;
            size_t l = strtoul(*p, &e, 10);
            char* c = malloc(l + 1);
            memcpy(c, e + 1, l);
            c[l] = 0;
            *p = e + 1 + l;
            v = STR(c);
            free(c);
            return v;
        }
        case '[': {
            cordy_value_t items[64];
            size_t n = 0;
            while (**p != ']') items[n++] = make_one(p);
            (*p)++;
            v = VEC(n);
            for (size_t i = 0; i < n; i++) v.vec_value.ptr[i] = items[i];
            v.vec_value.len = n;
            return v;
        }
        default: return NIL();
    }
}
CORDY_EXTERN(make) { ASSERT(n == 1); AS_STR(str_t s, args[0]); return make_one(&s); }
