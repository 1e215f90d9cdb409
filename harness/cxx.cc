// Model-based engine for the C++ interface: generated programs written with
// the smart pointers, array wrappers and member syntax (mixed with the C
// macros), compared with a plain graph model.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <vector>
#include <utility>
#include <unistd.h>
#include "pbt.h"
#include "ggggc/gc.h"

typedef struct { int a; short b; char c[3]; } Rec;
GGC_TYPE(Node)
    GGC_MPTR(Node, left);
    GGC_MDATA(size_t, val);
    GGC_MPTR(Node, right);
    GGC_MPTR(NodeArray, kids);
    GGC_MDATA(short, small);
    GGC_MPTR(GGC_long_Array, nums);
    GGC_MDATA(Rec, rec);
    GGC_MDATA(double, dbl);
GGC_END_TYPE(Node,
    GGC_PTR(Node, left)
    GGC_PTR(Node, right)
    GGC_PTR(Node, kids)
    GGC_PTR(Node, nums)
    )
typedef GGC<Node> GN;
typedef GGCPA<Node, NodeArray> GA;
typedef GGCDA<long, GGC_long_Array> GD;

enum { O_CFG, O_NEW, O_COPY, O_RAW, O_CLEAR, O_SETP, O_GETP, O_M2M, O_SETD, O_GETD, O_D2D, O_NEWA, O_PUT, O_GET, O_SETK, O_GETK, O_NEWD, O_DPUT, O_DGET, O_SETN, O_GETN,
       O_CMP, O_COPYA, O_CLEARA, O_TAG, O_ENTER, O_LEAVE, O_CHURN, O_COLLECT, O_VERIFY, O_MACRO, NOPS };
const char *const pbt_opname[] = { "CFG", "NEW", "COPY", "RAW", "CLEAR", "SETP", "GETP", "M2M", "SETD", "GETD", "D2D", "NEWA", "PUT", "GET", "SETK", "GETK", "NEWD", "DPUT", "DGET", "SETN", "GETN",
       "CMP", "COPYA", "CLEARA", "TAG", "ENTER", "LEAVE", "CHURN", "COLLECT", "VERIFY", "MACRO" };
const int pbt_nop = NOPS;
enum { C_ALLOC, C_OBJCHK, C_MOVED, C_STORES, C_SCOPES, C_THROWN, C_CMP, C_M2M, C_COLLECT, C_MAXDEPTH, C_TAGGED };
const char *const pbt_ctrname[] = { "allocations", "objects_compared", "objects_seen_moved", "member_and_element_stores", "scopes", "scopes_left_by_exception", "comparisons",
    "member_to_member_assignments", "collections", "max_depth", "tagged_words", NULL };
#define CTR(c) (pbt_sh->ctr[c]++)
int pbt_cpu_limit = 30;
static size_t hashw(size_t a, size_t b) { return (size_t) pbt_mix((uint64_t) a * 1000003u + b); }

// -------------------------------------------------------------------- model
// references: -1 NULL, >= 0 object, <= -2 tagged word
struct MO {
    int kind; // 0 node, 1 array of nodes, 2 array of longs
    int left, right, kids, nums; size_t val; short small; Rec rec; double dbl;
    std::vector<int> el; std::vector<long> d;
    void *addr; int seen;
};
static std::vector<MO> mo;
static int epoch;
template<class G> struct Tab { std::vector<G *> p; std::vector<int> r; };
static Tab<GN> N; static Tab<GA> A; static Tab<GD> D;
static std::vector<size_t> tags;

static bool istag(int r) { return r <= -2; }
static void *tagv(int r) { return (void *) tags[(size_t) (-2 - r)]; }

static std::vector<int> queue;
static void reach(void *p, int r, int kind, const char *what, int where, int i) {
    if (r == -1) { if (p) pbt_fail("%s %d[%d]: expected NULL, found %p", what, where, i, p); return; }
    if (istag(r)) { if (p != tagv(r)) pbt_fail("%s %d[%d]: expected tagged word %p, found %p", what, where, i, tagv(r), p); return; }
    if (!p) pbt_fail("%s %d[%d]: expected object %d, found NULL", what, where, i, r);
    if ((uintptr_t) p % sizeof(void *)) pbt_fail("%s %d[%d]: misaligned pointer", what, where, i);
    MO &m = mo[(size_t) r];
    if (m.kind != kind) pbt_fail("harness: kind");
    if (m.seen == epoch) { if (m.addr != p) pbt_fail("%s %d[%d]: object %d seen at two addresses", what, where, i, r); return; }
    m.seen = epoch;
    if (m.addr != p) CTR(C_MOVED);
    m.addr = p;
    queue.push_back(r);
}
static void verify() {
    epoch++;
    queue.clear();
    for (size_t i = 0; i < N.p.size(); i++) reach((void *) N.p[i]->get(), N.r[i], 0, "smart pointer", (int) i, 0);
    for (size_t i = 0; i < A.p.size(); i++) reach((void *) A.p[i]->GGC<NodeArray>::get(), A.r[i], 1, "array wrapper", (int) i, 0);
    for (size_t i = 0; i < D.p.size(); i++) reach((void *) D.p[i]->GGC<GGC_long_Array>::get(), D.r[i], 2, "data array wrapper", (int) i, 0);
    for (size_t q = 0; q < queue.size(); q++) {
        int id = queue[q];
        MO &m = mo[(size_t) id];
        CTR(C_OBJCHK);
        if (m.kind == 0) {
            Node n = (Node) m.addr;
            Node l = n->left, r = GGC_RP(n, right); NodeArray k = n->kids; GGC_long_Array d = n->nums;
            reach((void *) l, m.left, 0, "member left of", id, 0);
            reach((void *) r, m.right, 0, "member right of", id, 0);
            reach((void *) k, m.kids, 1, "member kids of", id, 0);
            reach((void *) d, m.nums, 2, "member nums of", id, 0);
            size_t v = n->val; short s = n->small; Rec rc = n->rec; double db = n->dbl;
            if (v != m.val || v != GGC_RD(n, val)) pbt_fail("object %d: val reads %lx, expected %lx", id, (unsigned long) v, (unsigned long) m.val);
            if (s != m.small || s != GGC_RD(n, small)) pbt_fail("object %d: small reads %d, expected %d", id, s, m.small);
            if (rc.a != m.rec.a || rc.b != m.rec.b || memcmp(rc.c, m.rec.c, 3)) pbt_fail("object %d: rec differs", id);
            if (db != m.dbl) pbt_fail("object %d: dbl differs", id);
        } else if (m.kind == 1) {
            NodeArray a = (NodeArray) m.addr;
            if (a->length != m.el.size()) pbt_fail("array %d: length %lu, expected %lu", id, (unsigned long) a->length, (unsigned long) m.el.size());
            for (size_t i = 0; i < m.el.size(); i++) reach((void *) GGC_RAP(a, i), m.el[i], 0, "array", id, (int) i);
        } else {
            GGC_long_Array a = (GGC_long_Array) m.addr;
            if (a->length != m.d.size()) pbt_fail("data array %d: length %lu, expected %lu", id, (unsigned long) a->length, (unsigned long) m.d.size());
            for (size_t i = 0; i < m.d.size(); i++) if (GGC_RAD(a, i) != m.d[i]) pbt_fail("data array %d: element %d differs", id, (int) i);
        }
    }
}
static int mnew(int kind) {
    MO m; memset(&m.rec, 0, sizeof(m.rec));
    m.kind = kind; m.left = m.right = m.kids = m.nums = -1; m.val = 0; m.small = 0; m.dbl = 0; m.addr = NULL; m.seen = 0;
    mo.push_back(m);
    CTR(C_ALLOC);
    return (int) mo.size() - 1;
}
static void churn(unsigned n) {
    GN keep; GA a;
    for (unsigned i = 0; i < n; i++) {
        GN x{GGC_NEW(Node)};
        x->val = (size_t) -1;
        if (i % 3 == 0) x->left = keep;
        if (i % 7 == 6) keep = nullptr; else keep = x;
        if (i % 11 == 10) { a = GGC_NEW_PA(Node, i % 30 + 1); a.put(0, x); }
    }
}

// -------------------------------------------------------------------- scopes
static const PbtCase *cs;
static int ip, depth;
static void run_ops();
struct Left { int code; };

static void reg(GN &g, int r) { N.p.push_back(&g); N.r.push_back(r); }
static void reg(GA &g, int r) { A.p.push_back(&g); A.r.push_back(r); }
static void reg(GD &g, int r) { D.p.push_back(&g); D.r.push_back(r); }
struct Mark {
    size_t n, a, d;
    Mark() : n(N.p.size()), a(A.p.size()), d(D.p.size()) {}
    ~Mark() { N.p.resize(n); N.r.resize(n); A.p.resize(a); A.r.resize(a); D.p.resize(d); D.r.resize(d); }
};
static GN &nslot(uint32_t a, int &i) { i = (int) (a % N.p.size()); return *N.p[(size_t) i]; }
static int nslot_obj(uint32_t a) { // a smart pointer holding an object
    for (size_t k = 0; k < N.p.size(); k++) { size_t i = (a + k) % N.p.size(); if (N.r[i] >= 0) return (int) i; }
    return -1;
}
template<class G> static int slot_obj(Tab<G> &t, uint32_t a) {
    for (size_t k = 0; k < t.p.size(); k++) { size_t i = (a + k) % t.p.size(); if (t.r[i] >= 0) return (int) i; }
    return -1;
}

static void scope_plain() {
    GN a, b, c; GA x; GD d;
    Mark m;
    reg(a, -1); reg(b, -1); reg(c, -1); reg(x, -1); reg(d, -1);
    run_ops();
}
static void scope_array() {
    GN v[4]; GA x[2];
    Mark m;
    for (int i = 0; i < 4; i++) reg(v[i], -1);
    for (int i = 0; i < 2; i++) reg(x[i], -1);
    run_ops();
}
static void scope_params(GN a, GA x, GD d, int ra, int rx, int rd) {
    Mark m;
    GN own(a), own2 = a, own3{a.get()};
    GA ox(x); GA oy{x};
    GD od = d;
    reg(a, ra); reg(x, rx); reg(d, rd); reg(own, ra); reg(own2, ra); reg(own3, ra); reg(ox, rx); reg(oy, rx); reg(od, rd);
    run_ops();
}
static void scope_throw(int code) {
    GN a, b;
    GA x;
    Mark m;
    reg(a, -1); reg(b, -1); reg(x, -1);
    {
        GN inner; GD id;
        Mark m2;
        reg(inner, -1); reg(id, -1);
        run_ops();
        if (code & 1) { Left l = { code }; throw l; }
        if (code & 2) return;
    }
    churn(2);
    if (code & 4) { Left l = { code }; throw l; }
}
static int scope_mixed(int code) {
    GN a;
    void *raw = NULL;
    Mark m;
    reg(a, -1);
    GGC_PUSH_1(raw);
    GN b;
    reg(b, -1);
    raw = (void *) GGC_NEW(Node);
    size_t mark = 0xABCDEF;
    { Node rn = (Node) raw; rn->val = mark; }
    run_ops();
    { Node rn = (Node) raw; size_t v = rn->val; if (v != mark) pbt_fail("object of a macro-pushed variable among smart pointers changed"); }
    if (code & 1) return 1;
    churn(2);
    return 0;
}
static void scope_loop(int code) {
    for (int k = 0; k < 4; k++) {
        GN t{GGC_NEW(Node)};
        int id = mnew(0);
        Mark m;
        reg(t, id);
        if (k == 1) continue;
        if (k == 2) run_ops();
        if (k == (code & 3)) break;
    }
}
static void scope_const(const GN &c, int rc) {
    GN copy = c;
    const GN cc(c);
    GN again{c};
    Mark m;
    reg(copy, rc); reg(again, rc);
    run_ops();
    if (rc >= 0) {
        size_t v = cc->val;
        if (v != mo[(size_t) rc].val) pbt_fail("const smart pointer's object: val reads %lx, expected %lx", (unsigned long) v, (unsigned long) mo[(size_t) rc].val);
        if (!cc) pbt_fail("const smart pointer to an object is false");
    } else if (rc == -1 && cc) pbt_fail("const NULL smart pointer is true");
}
static void enter(uint32_t a, uint32_t b, uint32_t c) {
    depth++;
    CTR(C_SCOPES);
    if ((int) pbt_sh->ctr[C_MAXDEPTH] < depth) pbt_sh->ctr[C_MAXDEPTH] = (uint64_t) depth;
    switch (a % 8) {
        case 0: case 1: scope_plain(); break;
        case 2: scope_array(); break;
        case 3: {
            int i; GN &g = nslot(b, i);
            size_t x = c % A.p.size(), d = c / 7 % D.p.size();
            scope_params(g, *A.p[x], *D.p[d], N.r[(size_t) i], A.r[x], D.r[d]);
            break;
        }
        case 4: {
            GGGGC_PointerStack *before = ggggc_pointerStack;
            try { scope_throw((int) b); } catch (Left &l) { CTR(C_THROWN); if (l.code != (int) b) pbt_fail("exception changed"); }
            if (ggggc_pointerStack != before) pbt_fail("leaving scopes by an exception did not restore the enclosing scope's registrations");
            break;
        }
        case 5: { int r = scope_mixed((int) b); if (r != (int) (b & 1)) pbt_fail("return value lost"); break; }
        case 6: scope_loop((int) b); break;
        default: {
            int i; GN &g = nslot(b, i);
            GN keep(g); // the referenced pointer may be reassigned inside
            scope_const(keep, N.r[(size_t) i]);
            break;
        }
    }
    depth--;
}

static int &mref(MO &m, int left) { return left ? m.left : m.right; }
static void step(const PbtOp *o) {
    int i, j;
    switch (o->k) {
        case O_NEW: {
            GN &g = nslot(o->a, i);
            size_t v = hashw(o->b, 1);
            int id;
            if (o->c % 4 == 0) { GN t{GGC_NEW(Node)}; g = t; }
            else if (o->c % 4 == 1) { Node t = GGC_NEW(Node); g = t; }
            else g = GGC_NEW(Node);
            id = mnew(0);
            N.r[(size_t) i] = id;
            { size_t z = g->val; Node l = g->left; if (z || l) pbt_fail("fresh object is not zeroed"); }
            if (o->c & 4) { g->val = v; mo[(size_t) id].val = v; }
            break;
        }
        case O_COPY: {
            GN &g = nslot(o->a, i), &h = nslot(o->b, j);
            g = h;
            N.r[(size_t) i] = N.r[(size_t) j];
            break;
        }
        case O_RAW: {
            GN &g = nslot(o->a, i), &h = nslot(o->b, j);
            if (o->c & 1) g = h.get(); else { Node &r = h; Node v = r; g = v; }
            N.r[(size_t) i] = N.r[(size_t) j];
            break;
        }
        case O_CLEAR: { GN &g = nslot(o->a, i); if (o->b & 1) g = nullptr; else { GN z; g = z; } N.r[(size_t) i] = -1; break; }
        case O_SETP: {
            i = nslot_obj(o->a);
            if (i < 0) break;
            GN &g = *N.p[(size_t) i], &h = nslot(o->b, j);
            MO &m = mo[(size_t) N.r[(size_t) i]];
            CTR(C_STORES);
            switch (o->c % 4) {
                case 0: g->left = h; m.left = N.r[(size_t) j]; break;
                case 1: { Node v = h.get(); g->right = v; m.right = N.r[(size_t) j]; break; }
                case 2: { Node n = g; n->left = h; m.left = N.r[(size_t) j]; break; }
                default: g->right = h; m.right = N.r[(size_t) j]; break;
            }
            break;
        }
        case O_GETP: {
            j = nslot_obj(o->b);
            if (j < 0) break;
            GN &g = nslot(o->a, i), &h = *N.p[(size_t) j];
            int r = mref(mo[(size_t) N.r[(size_t) j]], (int) (o->c & 1));
            if (o->c & 2) { if (o->c & 1) g = h->left; else g = h->right; }
            else { Node v; if (o->c & 1) v = h->left; else v = h->right; g = v; }
            N.r[(size_t) i] = r;
            break;
        }
        case O_M2M: {
            i = nslot_obj(o->a); j = nslot_obj(o->b);
            if (i < 0) break;
            GN &g = *N.p[(size_t) i], &h = *N.p[(size_t) j];
            MO &m = mo[(size_t) N.r[(size_t) i]], &n = mo[(size_t) N.r[(size_t) j]];
            CTR(C_M2M); CTR(C_STORES);
            switch (o->c % 4) {
                case 0: g->left = h->left; m.left = n.left; break;
                case 1: g->right = h->right; m.right = n.right; break;
                case 2: g->kids = h->kids; m.kids = n.kids; break;
                default: g->nums = h->nums; m.nums = n.nums; break;
            }
            break;
        }
        case O_SETD: {
            i = nslot_obj(o->a);
            if (i < 0) break;
            GN &g = *N.p[(size_t) i];
            MO &m = mo[(size_t) N.r[(size_t) i]];
            size_t v = hashw(o->b, o->c);
            switch (o->d % 4) {
                case 0: g->val = v; m.val = v; break;
                case 1: g->small = (short) v; m.small = (short) v; break;
                case 2: { Rec r; memset(&r, 0, sizeof(r)); r.a = (int) v; r.b = (short) (v >> 9); r.c[0] = (char) (v >> 30); r.c[2] = 'z'; g->rec = r; m.rec = r; break; }
                default: { double db = (double) (v % 100000) / 8; g->dbl = db; m.dbl = db; break; }
            }
            break;
        }
        case O_GETD: {
            i = nslot_obj(o->a);
            if (i < 0) break;
            const GN &g = *N.p[(size_t) i];
            MO &m = mo[(size_t) N.r[(size_t) i]];
            size_t v = g->val;
            if (v != m.val || (size_t) g->val != m.val) pbt_fail("val of object %d reads %lx, expected %lx", N.r[(size_t) i], (unsigned long) v, (unsigned long) m.val);
            break;
        }
        case O_D2D: {
            i = nslot_obj(o->a); j = nslot_obj(o->b);
            if (i < 0) break;
            GN &g = *N.p[(size_t) i], &h = *N.p[(size_t) j];
            MO &m = mo[(size_t) N.r[(size_t) i]], &n = mo[(size_t) N.r[(size_t) j]];
            if (o->c & 1) { size_t v = h->val; g->val = v; m.val = n.val; } else { Rec r = h->rec; g->rec = r; m.rec = n.rec; }
            break;
        }
        case O_NEWA: {
            size_t k = o->a % A.p.size(), len = o->b % 5 == 0 ? o->c % 150 : o->c % 12;
            GA &g = *A.p[k];
            if (o->d & 1) g = GGC_NEW_PA(Node, len); else { GA t{GGC_NEW_PA(Node, len)}; g = t; }
            int id = mnew(1);
            mo[(size_t) id].el.assign(len, -1);
            A.r[k] = id;
            break;
        }
        case O_PUT: {
            int k = slot_obj(A, o->a);
            if (k < 0 || mo[(size_t) A.r[(size_t) k]].el.empty()) break;
            GA &g = *A.p[(size_t) k]; GN &h = nslot(o->b, j);
            std::vector<int> &el = mo[(size_t) A.r[(size_t) k]].el;
            size_t ix = o->c % el.size();
            CTR(C_STORES);
            if (o->d % 3 == 0) { Node v = h.get(); Node back = g.put(ix, v); if (back != v) pbt_fail("put returns something else"); }
            else if (o->d % 3 == 1) g.put(ix, h);
            else { NodeArray raw = g; Node v = h; GGC_WAP(raw, ix, v); }
            el[ix] = N.r[(size_t) j];
            break;
        }
        case O_GET: {
            int k = slot_obj(A, o->b);
            if (k < 0 || mo[(size_t) A.r[(size_t) k]].el.empty()) break;
            GA &g = *A.p[(size_t) k]; GN &h = nslot(o->a, i);
            std::vector<int> &el = mo[(size_t) A.r[(size_t) k]].el;
            size_t ix = o->c % el.size();
            if (o->d & 1) h = g[ix]; else h = g.get(ix);
            N.r[(size_t) i] = el[ix];
            if (g->length != el.size()) pbt_fail("length through the wrapper reads %lu", (unsigned long) g->length);
            break;
        }
        case O_SETK: {
            i = nslot_obj(o->a);
            if (i < 0) break;
            size_t k = o->b % A.p.size();
            CTR(C_STORES);
            (*N.p[(size_t) i])->kids = *A.p[k];
            mo[(size_t) N.r[(size_t) i]].kids = A.r[k];
            break;
        }
        case O_GETK: {
            i = nslot_obj(o->a);
            if (i < 0) break;
            size_t k = o->b % A.p.size();
            *A.p[k] = (*N.p[(size_t) i])->kids;
            A.r[k] = mo[(size_t) N.r[(size_t) i]].kids;
            break;
        }
        case O_NEWD: {
            size_t k = o->a % D.p.size(), len = o->b % 5 == 0 ? o->c % 200 : o->c % 10;
            *D.p[k] = GGC_NEW_DA(long, len);
            int id = mnew(2);
            mo[(size_t) id].d.assign(len, 0);
            D.r[k] = id;
            break;
        }
        case O_DPUT: {
            int k = slot_obj(D, o->a);
            if (k < 0 || mo[(size_t) D.r[(size_t) k]].d.empty()) break;
            std::vector<long> &d = mo[(size_t) D.r[(size_t) k]].d;
            size_t ix = o->c % d.size();
            long v = (long) hashw(o->b, o->c);
            if (D.p[(size_t) k]->put(ix, v) != v) pbt_fail("put returns something else");
            d[ix] = v;
            break;
        }
        case O_DGET: {
            int k = slot_obj(D, o->a);
            if (k < 0 || mo[(size_t) D.r[(size_t) k]].d.empty()) break;
            std::vector<long> &d = mo[(size_t) D.r[(size_t) k]].d;
            size_t ix = o->c % d.size();
            GD &g = *D.p[(size_t) k];
            if (g[ix] != d[ix] || g.get(ix) != d[ix] || g->length != d.size()) pbt_fail("data array %d: element %lu differs through the wrapper", D.r[(size_t) k], (unsigned long) ix);
            break;
        }
        case O_SETN: {
            i = nslot_obj(o->a);
            if (i < 0) break;
            size_t k = o->b % D.p.size();
            CTR(C_STORES);
            (*N.p[(size_t) i])->nums = *D.p[k];
            mo[(size_t) N.r[(size_t) i]].nums = D.r[k];
            break;
        }
        case O_GETN: {
            i = nslot_obj(o->a);
            if (i < 0) break;
            size_t k = o->b % D.p.size();
            *D.p[k] = (*N.p[(size_t) i])->nums;
            D.r[k] = mo[(size_t) N.r[(size_t) i]].nums;
            break;
        }
        case O_CMP: {
            GN &g = nslot(o->a, i), &h = nslot(o->b, j);
            int a = N.r[(size_t) i], b = N.r[(size_t) j];
            bool same = a == b || (istag(a) && istag(b) && tagv(a) == tagv(b));
            CTR(C_CMP);
            if ((g == h) != same) pbt_fail("== of smart pointers gives %d, expected %d", (int) (g == h), (int) same);
            if ((g == h.get()) != same) pbt_fail("== of smart pointer and reference gives %d", (int) !same);
            { const GN &cg = g, &ch = h; Node hn = h.get(); if ((cg == ch) != same || (cg == hn) != same) pbt_fail("== of const smart pointers gives %d", (int) !same); if ((g != hn) == same || (hn == g) != same || (hn != g) == same) pbt_fail("comparing a reference and a smart pointer gives %d", (int) !same); }
            if ((bool) g != (a != -1)) pbt_fail("smart pointer converts to %d", (int) (a == -1));
            if (!g != (a == -1)) pbt_fail("! of smart pointer gives %d", (int) (a != -1));
            size_t x = o->c % A.p.size(), y = o->d % A.p.size();
            bool samea = A.r[x] == A.r[y];
            if ((*A.p[x] == *A.p[y]) != samea) pbt_fail("== of array wrappers gives %d", (int) !samea);
            if ((bool) *A.p[x] != (A.r[x] != -1)) pbt_fail("array wrapper converts to %d", (int) (A.r[x] == -1));
            break;
        }
        case O_COPYA: {
            size_t x = o->a % A.p.size(), y = o->b % A.p.size(), d = o->a % D.p.size(), e = o->b % D.p.size();
            if (o->c & 1) *A.p[x] = *A.p[y]; else *A.p[x] = A.p[y]->GGC<NodeArray>::get();
            A.r[x] = A.r[y];
            *D.p[d] = *D.p[e];
            D.r[d] = D.r[e];
            break;
        }
        case O_CLEARA: {
            size_t x = o->a % A.p.size(), d = o->a % D.p.size();
            *A.p[x] = nullptr; A.r[x] = -1;
            if (o->b & 1) { *D.p[d] = nullptr; D.r[d] = -1; }
            break;
        }
        case O_TAG:
#ifdef GGGGC_FEATURE_TAGGING
            {
                GN &g = nslot(o->a, i);
                size_t v = (hashw(o->b, 3) & ~(size_t) 7) | (1 + o->c % 7);
                if (o->d & 1) { j = nslot_obj(o->b); if (j >= 0) v = (size_t) N.p[(size_t) j]->get() | (1 + o->c % 7); }
                tags.push_back(v);
                g = (Node) (void *) v;
                N.r[(size_t) i] = -2 - (int) (tags.size() - 1);
                CTR(C_TAGGED);
            }
#endif
            break;
        case O_MACRO: { // the same members through the macros
            i = nslot_obj(o->a);
            if (i < 0) break;
            GN &g = *N.p[(size_t) i], &h = nslot(o->b, j);
            Node n = g, v = h;
            CTR(C_STORES);
            GGC_WP(n, left, v);
            mo[(size_t) N.r[(size_t) i]].left = N.r[(size_t) j];
            if (o->c & 1) { GGC_WP(n, right, v); mo[(size_t) N.r[(size_t) i]].right = N.r[(size_t) j]; }
            break;
        }
        case O_CHURN: churn(o->a % 3 ? o->b % 40 : o->b % 300); break;
        case O_COLLECT: CTR(C_COLLECT); GGC_COLLECT(); verify(); break;
        case O_VERIFY: verify(); break;
    }
}
static void run_ops() {
    while (ip < cs->n) {
        const PbtOp *o = &cs->op[ip++];
        pbt_sh->opi = ip - 1;
        if (o->k == O_LEAVE) { if (depth) return; continue; }
        if (o->k == O_ENTER) { if (depth < 25) enter(o->a, o->b, o->c); continue; }
        step(o);
        if (mo.size() > 20000) pbt_done();
    }
}
extern "C" void pbt_exec(const PbtCase *c, const char *profile) {
    cs = c;
    mo.reserve(20100);
    {
        GN a, b, c2; GA x; GD d;
        reg(a, -1); reg(b, -1); reg(c2, -1); reg(x, -1); reg(d, -1);
        run_ops();
        pbt_sh->opi = cs->n;
        verify();
        GGC_COLLECT();
        verify();
        _exit(0);
    }
}
struct W { int k, w; };
static void add_rnd(PbtCase *c, PbtRng *r, int k) {
    uint32_t v[4];
    for (int i = 0; i < 4; i++) v[i] = pbt_below(r, 1u << 20);
    pbt_add(c, k, v[0], v[1], v[2], v[3]);
}
extern "C" void pbt_gen(PbtCase *c, PbtRng *r, const char *profile) {
    static const W w[] = { {O_NEW,24},{O_COPY,5},{O_RAW,5},{O_CLEAR,8},{O_SETP,24},{O_GETP,12},{O_M2M,12},{O_SETD,8},{O_GETD,4},{O_D2D,3},{O_NEWA,5},{O_PUT,14},{O_GET,8},{O_SETK,6},{O_GETK,4},
        {O_NEWD,4},{O_DPUT,5},{O_DGET,3},{O_SETN,4},{O_GETN,3},{O_CMP,5},{O_COPYA,3},{O_CLEARA,4},{O_TAG,3},{O_ENTER,9},{O_LEAVE,7},{O_CHURN,20},{O_COLLECT,2},{O_VERIFY,9},{O_MACRO,4},{0,0} };
    int n = (int) pbt_range(r, 30, 240), tot = 0, q;
    if (pbt_chance(r, 1, 4)) n = (int) pbt_range(r, 5, 40);
    for (q = 0; w[q].w; q++) tot += w[q].w;
    add_rnd(c, r, O_CFG);
    for (int i = 0; i < n; i++) {
        int x = (int) pbt_below(r, (uint32_t) tot);
        for (q = 0; w[q].w; q++) { x -= w[q].w; if (x < 0) break; }
        add_rnd(c, r, w[q].k);
    }
}
extern "C" int pbt_nontrivial(const PbtShared *s, const char *profile) {
    return s->ctr[C_OBJCHK] >= 20 && s->ctr[C_STORES] > 3 && s->ctr[C_SCOPES] > 0;
}
int main(int argc, char **argv) { return pbt_main(argc, argv); }
