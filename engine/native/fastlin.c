/* The entailment search of lin.Facts._le and lin.Facts.upper, compiled.
 *
 * compile(ine, rng, tab) -> capsule                ine: {key terms: (lo, hi)}
 * le(capsule, terms, c, budget, rng, tab)    -> proved sum(terms) + c <= 0 ?
 * upper(capsule, terms, c, budget, rng, tab) -> an upper bound of sum(terms) + c, or None
 * rng(atom), tab(atom, weight) -> (lo, hi), asked once per capsule
 *
 * Only terms with integer weights are eliminated; a term with a table weight is a variable of
 * its own whose bounds come from tab(atom, weight).  Arithmetic is in 128 bits; a combination
 * that overflows is not considered.
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <string.h>
#include <stdlib.h>

typedef __int128 I;
#define MAXT 28
#define MAXN 1500

typedef struct { int v; int64_t w; } Term;
typedef struct { int n; Term t[MAXT]; I lo, hi; char hlo, hhi; } Row;
typedef struct { long atom; PyObject *tab; I lo, hi; char hlo, hhi; int nrows, cap; int *rows; } Var;
typedef struct { int nv, cv, nr; Var *vars; Row *rows; PyObject *rng; PyObject *tabf; int hn; int *hash; } Sys;

typedef struct { int n; Term t[MAXT]; I c; int depth, size; char open; unsigned long h; } Node;

static int toI(PyObject *o, I *r) {
    int ov;
    long long x;
    if (o == Py_None) return 0;
    x = PyLong_AsLongLongAndOverflow(o, &ov);
    if (!ov) { *r = x; return 1; }
    {
        unsigned char b[16];
        if (_PyLong_AsByteArray((PyLongObject *)o, b, 16, 1, 1) < 0) { PyErr_Clear(); return 0; }
        memcpy(r, b, 16);
        if (*r > ((I)1 << 120) || *r < -((I)1 << 120)) return 0;
        return 1;
    }
}

static PyObject *fromI(I x) { return _PyLong_FromByteArray((unsigned char *)&x, 16, 1, 1); }

static int var_of(Sys *s, long atom, PyObject *tab) {
    unsigned long h = (unsigned long)atom * 2654435761u + (unsigned long)tab / 16;
    unsigned m;
    PyObject *r;
    Var *v;
    if (s->nv * 2 >= s->hn) {
        int i, n = s->hn ? s->hn * 2 : 64;
        free(s->hash);
        s->hash = malloc(sizeof(int) * n);
        for (i = 0; i < n; i++) s->hash[i] = -1;
        s->hn = n;
        for (i = 0; i < s->nv; i++) {
            unsigned long g = (unsigned long)s->vars[i].atom * 2654435761u + (unsigned long)s->vars[i].tab / 16;
            m = g & (n - 1);
            while (s->hash[m] >= 0) m = (m + 1) & (n - 1);
            s->hash[m] = i;
        }
    }
    m = h & (s->hn - 1);
    while (s->hash[m] >= 0) {
        v = &s->vars[s->hash[m]];
        if (v->atom == atom && v->tab == tab) return s->hash[m];
        m = (m + 1) & (s->hn - 1);
    }
    if (s->nv == s->cv) {
        s->cv = s->cv ? s->cv * 2 : 32;
        s->vars = realloc(s->vars, sizeof(Var) * s->cv);
    }
    v = &s->vars[s->nv];
    memset(v, 0, sizeof *v);
    v->atom = atom;
    v->tab = tab;
    r = tab ? PyObject_CallFunction(s->tabf, "lO", atom, tab) : PyObject_CallFunction(s->rng, "l", atom);
    if (!r) return -1;
    v->hlo = toI(PyTuple_GET_ITEM(r, 0), &v->lo);
    v->hhi = toI(PyTuple_GET_ITEM(r, 1), &v->hi);
    Py_DECREF(r);
    s->hash[m] = s->nv;
    return s->nv++;
}

static int cmpt(const void *a, const void *b) { return ((const Term *)a)->v - ((const Term *)b)->v; }

/* number of terms, or -1: error, -2: does not fit */
static int terms(Sys *s, PyObject *t, Term *out) {
    Py_ssize_t n = PyTuple_GET_SIZE(t), i;
    if (n > MAXT) return -2;
    for (i = 0; i < n; i++) {
        PyObject *p = PyTuple_GET_ITEM(t, i), *w = PyTuple_GET_ITEM(p, 1);
        long atom = PyLong_AsLong(PyTuple_GET_ITEM(p, 0));
        if (PyLong_Check(w)) {
            int ov;
            long long x = PyLong_AsLongLongAndOverflow(w, &ov);
            if (ov) return -2;
            out[i].w = x;
            w = NULL;
        } else {
            /* a table is a multiple of its base, which is the variable */
            int ov;
            PyObject *k = PyObject_GetAttrString(w, "k");
            if (!k) return -1;
            out[i].w = PyLong_AsLongLongAndOverflow(k, &ov);
            Py_DECREF(k);
            if (ov) return -2;
            w = PyObject_GetAttrString(w, "base");
            if (!w) return -1;
            Py_DECREF(w);
        }
        if ((out[i].v = var_of(s, atom, w)) < 0) return -1;
    }
    qsort(out, n, sizeof(Term), cmpt);
    return (int)n;
}

static void sys_free(PyObject *cap) {
    Sys *s = PyCapsule_GetPointer(cap, "lin");
    int i;
    for (i = 0; i < s->nv; i++) free(s->vars[i].rows);
    free(s->vars);
    free(s->rows);
    free(s->hash);
    free(s);
}

static PyObject *f_compile(PyObject *self, PyObject *args) {
    PyObject *ine, *rng, *tabf, *k, *val;
    Py_ssize_t pos = 0;
    Sys *s;
    int i;
    if (!PyArg_ParseTuple(args, "OOO", &ine, &rng, &tabf)) return NULL;
    s = calloc(1, sizeof *s);
    s->rng = rng;
    s->tabf = tabf;
    s->rows = malloc(sizeof(Row) * (PyDict_Size(ine) + 1));
    while (PyDict_Next(ine, &pos, &k, &val)) {
        Row *r = &s->rows[s->nr];
        int n = terms(s, k, r->t);
        if (n == -1) return NULL;
        if (n < 0) continue;
        r->n = n;
        r->hlo = toI(PyTuple_GET_ITEM(val, 0), &r->lo);
        r->hhi = toI(PyTuple_GET_ITEM(val, 1), &r->hi);
        for (i = 0; i < n; i++) {
            Var *v = &s->vars[r->t[i].v];
            if (v->tab) continue;
            if (v->nrows == v->cap) {
                v->cap = v->cap ? v->cap * 2 : 4;
                v->rows = realloc(v->rows, sizeof(int) * v->cap);
            }
            v->rows[v->nrows++] = s->nr;
        }
        s->nr++;
    }
    s->rng = s->tabf = NULL;
    return PyCapsule_New(s, "lin", sys_free);
}

static int64_t gcd64(int64_t a, int64_t b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) { int64_t t = a % b; a = b; b = t; }
    return a;
}

#define LIM ((I)1 << 100)

static int bounds(Sys *s, Node *n, I *lo, char *hlo, I *hi, char *hhi) {
    int i;
    *lo = *hi = n->c;
    *hlo = *hhi = 1;
    for (i = 0; i < n->n; i++) {
        Var *v = &s->vars[n->t[i].v];
        int64_t w = n->t[i].w;
        if (w > 0) {
            if (v->hlo) { if (*hlo) *lo += v->lo * w; } else *hlo = 0;
            if (v->hhi) { if (*hhi) *hi += v->hi * w; } else *hhi = 0;
        } else {
            if (v->hhi) { if (*hlo) *lo += v->hi * w; } else *hlo = 0;
            if (v->hlo) { if (*hhi) *hi += v->lo * w; } else *hhi = 0;
        }
    }
    return 0;
}

/* out = sx * x - sy * (row - b) ; 0 on overflow */
static int combine(Node *x, int64_t sx, Row *r, int64_t sy, I b, Node *out) {
    int i = 0, j = 0, n = 0;
    out->c = x->c * sx + b * sy;
    if (out->c > LIM || out->c < -LIM) return 0;
    while (i < x->n || j < r->n) {
        __int128 w;
        int v;
        if (j >= r->n || (i < x->n && x->t[i].v < r->t[j].v)) { v = x->t[i].v; w = (I)x->t[i].w * sx; i++; }
        else if (i >= x->n || x->t[i].v > r->t[j].v) { v = r->t[j].v; w = -(I)r->t[j].w * sy; j++; }
        else { v = x->t[i].v; w = (I)x->t[i].w * sx - (I)r->t[j].w * sy; i++; j++; }
        if (!w) continue;
        if (w > ((I)1 << 60) || w < -((I)1 << 60) || n == MAXT) return 0;
        out->t[n].v = v;
        out->t[n].w = (int64_t)w;
        n++;
    }
    out->n = n;
    return 1;
}

static int sz(Node *n) {
    int i, k = 0;
    for (i = 0; i < n->n; i++) if (n->t[i].w > -256 && n->t[i].w < 256) k++;
    return k;
}

static unsigned long hsh(Node *n) {
    unsigned long h = (unsigned long)n->c * 1099511628211ul + n->n;
    int i;
    for (i = 0; i < n->n; i++) { h = h * 1000003ul ^ (unsigned long)n->t[i].v; h = h * 1000003ul ^ (unsigned long)n->t[i].w; }
    return h;
}

static int same(Node *a, Node *b) {
    int i;
    if (a->h != b->h || a->n != b->n || a->c != b->c) return 0;
    for (i = 0; i < a->n; i++) if (a->t[i].v != b->t[i].v || a->t[i].w != b->t[i].w) return 0;
    return 1;
}

static Node *NODES = NULL;

/* mode 0: le (returns 1 / 0), mode 1: upper (best in *best, *hb) ; -1: error */
static int search(Sys *s, PyObject *t, PyObject *c, int budget, int mode, I *best, char *hb) {
    int nn = 0, maxd = mode ? 4 : 5;
    Node *N;
    I lo, hi;
    char hlo, hhi;
    if (!NODES) NODES = malloc(sizeof(Node) * (MAXN + 2));
    N = NODES;
    if (!toI(c, &N[0].c)) return 0;
    N[0].n = terms(s, t, N[0].t);
    if (N[0].n == -1) return -1;
    if (N[0].n < 0) return 0;
    N[0].depth = 0;
    N[0].open = 1;
    N[0].h = hsh(&N[0]);
    N[0].size = sz(&N[0]);
    nn = 1;
    *hb = 0;
    bounds(s, &N[0], &lo, &hlo, &hi, &hhi);
    if (mode == 0) {
        if (hhi && hi <= 0) return 1;
        if (hlo && lo > 0) return 0;
    } else {
        if (hhi) { *hb = 1; *best = hi; }
        if (hlo && lo > 1) return 0;
    }
    for (;;) {
        int i, bi = -1, bp = 1 << 30, piv = 0;
        Node cur;
        for (i = 0; i < nn; i++)
            if (N[i].open && N[i].size + N[i].depth < bp) { bp = N[i].size + N[i].depth; bi = i; }
        if (bi < 0) return 0;
        N[bi].open = 0;
        cur = N[bi];
        for (i = 0; i < cur.n; i++)
            if (!s->vars[cur.t[i].v].tab && cur.t[i].w > -256 && cur.t[i].w < 256) piv = 1;
        for (i = 0; i < cur.n; i++) {
            Var *v = &s->vars[cur.t[i].v];
            int64_t w = cur.t[i].w;
            int q;
            if (v->tab) continue;
            if (piv && (w <= -256 || w >= 256)) continue;
            for (q = 0; q < v->nrows; q++) {
                Row *r = &s->rows[v->rows[q]];
                Node *nl = &N[nn];
                int64_t kw = 0, g;
                int j;
                I b;
                for (j = 0; j < r->n; j++) if (r->t[j].v == cur.t[i].v) { kw = r->t[j].w; break; }
                if (!kw) continue;
                if ((w > 0) == (kw > 0)) { if (!r->hhi) continue; b = r->hi; }
                else { if (!r->hlo) continue; b = r->lo; }
                if (mode) {
                    if (kw == w) { if (!combine(&cur, 1, r, 1, b, nl)) continue; }
                    else if (kw == -w) { if (!combine(&cur, 1, r, -1, b, nl)) continue; }
                    else continue;
                } else {
                    g = gcd64(w, kw);
                    if (!combine(&cur, (kw < 0 ? -kw : kw) / g, r, (kw > 0 ? w : -w) / g, b, nl)) continue;
                }
                if (!nl->n) {
                    if (mode == 0) { if (nl->c <= 0) return 1; }
                    else if (!*hb || nl->c < *best) { *hb = 1; *best = nl->c; }
                    continue;
                }
                nl->h = hsh(nl);
                {
                    int z, dup = 0;
                    for (z = 0; z < nn; z++) if (N[z].h == nl->h && same(&N[z], nl)) { dup = 1; break; }
                    if (dup) continue;
                }
                budget--;
                bounds(s, nl, &lo, &hlo, &hi, &hhi);
                nl->open = 0;
                if (mode == 0) {
                    if (hhi && hi <= 0) return 1;
                    if (!(hlo && lo > 0)) nl->open = 1;
                } else {
                    if (hhi && (!*hb || hi < *best)) { *hb = 1; *best = hi; }
                    if (!(hlo && lo > 1)) nl->open = 1;
                }
                if (budget < 0 || nn >= MAXN) return 0;
                nl->size = sz(nl);
                nl->depth = cur.depth + 1;
                if (!(cur.depth < maxd && nl->size <= cur.size + 2)) nl->open = 0;
                nn++;
            }
        }
    }
}

static PyObject *f_le(PyObject *self, PyObject *args) {
    PyObject *cap, *t, *c, *rng, *tabf;
    Sys *s;
    int budget, r;
    I best; char hb;
    if (!PyArg_ParseTuple(args, "OO!OiOO", &cap, &PyTuple_Type, &t, &c, &budget, &rng, &tabf)) return NULL;
    s = PyCapsule_GetPointer(cap, "lin");
    s->rng = rng;
    s->tabf = tabf;
    r = search(s, t, c, budget, 0, &best, &hb);
    if (r < 0) return NULL;
    return PyBool_FromLong(r);
}

static PyObject *f_upper(PyObject *self, PyObject *args) {
    PyObject *cap, *t, *c, *rng, *tabf;
    Sys *s;
    int budget, r;
    I best; char hb = 0;
    if (!PyArg_ParseTuple(args, "OO!OiOO", &cap, &PyTuple_Type, &t, &c, &budget, &rng, &tabf)) return NULL;
    s = PyCapsule_GetPointer(cap, "lin");
    s->rng = rng;
    s->tabf = tabf;
    r = search(s, t, c, budget, 1, &best, &hb);
    if (r < 0) return NULL;
    if (!hb) Py_RETURN_NONE;
    return fromI(best);
}

static PyMethodDef M[] = {
    {"compile", f_compile, METH_VARARGS, ""},
    {"le", f_le, METH_VARARGS, ""},
    {"upper", f_upper, METH_VARARGS, ""},
    {NULL, NULL, 0, NULL}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "fastlin", NULL, -1, M};
PyMODINIT_FUNC PyInit_fastlin(void) { return PyModule_Create(&D); }
