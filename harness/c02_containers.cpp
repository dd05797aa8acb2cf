// C02: string arrays, memory blocks and vectors against list models.
#include "vh.hpp"
#include "gen_text.hpp"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_keypoint_vector.h"
#include "virg/nexus/nx_alloc.h"
using namespace vh;

struct MStr { bool null; std::string s; bool operator==(const MStr &o) const { return null == o.null && s == o.s; } };
static void sa_check(Ctx &c, NXStringArray *sa, const std::vector<MStr> &m, const char *op) {
    REQ(c, nx_string_array_size(sa) == (int)m.size(), "after %s size is %d, model %zu", op, nx_string_array_size(sa), m.size());
    char **p = nx_string_array_ptr(sa);
    for (size_t i = 0; i < m.size(); ++i) {
        char *g = nx_string_array_get(sa, (int)i);
        REQ(c, p[i] == g, "element pointer mismatch");
        if (m[i].null) REQ(c, g == nullptr, "after %s element %zu is '%s', model has none", op, i, g);
        else REQ(c, g && m[i].s == g, "after %s element %zu is %s, model %s", op, i, g ? escape(g).c_str() : "NULL", escape(m[i].s).c_str());
    }
    c.ev("string_array_state");
}
static void string_array(Ctx &c) {
    auto &r = c.rng; std::vector<MStr> m; NXStringArray *sa;
    switch (r.next() % 3) {
    case 0: sa = nx_string_array_alloc(); break;
    case 1: { int n = r.i(0, 20); sa = nx_string_array_new(n); m.assign(n, MStr{true, ""}); break; }
    default: { int n = r.i(0, 10); std::vector<std::string> v; std::vector<char *> p; for (int i = 0; i < n; ++i) v.push_back(gen_bytes(r, r.i(0, 20), 1)); for (auto &s : v) { p.push_back(&s[0]); m.push_back({false, s}); } p.push_back(nullptr); sa = nx_string_array_new_from_null_terminated_list(p.data()); }
    }
    sa_check(c, sa, m, "create");
    int ops = r.coin(1, 60) ? r.i(100, 700) : r.i(1, 40); c.desc("ops=%d: ", ops); if (ops > 3) c.nt();
    for (int k = 0; k < ops; ++k) {
        std::string s = gen_bytes(r, r.coin(1, 5) ? r.i(50, 200) : r.i(0, 12), r.i(0, 4)); int n = (int)m.size(); int id = n ? r.i(0, n - 1) : 0; int op = r.i(0, 10); c.mix(op); c.mixb(s.data(), s.size()); c.desc("%d ", op);
        switch (op) {
        case 0: case 1: case 2: REQ(c, nx_string_array_append(sa, s.c_str()) == n, "append index"); m.push_back({false, s}); break;
        case 3: REQ(c, nx_string_array_appendf(sa, "%s-%d-%s", s.c_str(), k, s.c_str()) == n, "appendf index"); m.push_back({false, s + fmt("-%d-", k) + s}); break;
        case 4: if (n) { nx_string_array_set(sa, id, s.c_str()); m[id] = {false, s}; } break;
        case 5: if (n) { nx_string_array_set(sa, id, nullptr); m[id] = {true, ""}; } break;
        case 6: if (n) { nx_string_array_setf(sa, id, "<%s>%d", s.c_str(), k); m[id] = {false, "<" + s + fmt(">%d", k)}; } break;
        case 7: { int ns = r.coin() ? r.i(0, n) : r.coin(1, 150) ? r.logsize(60, 6000) : r.i(0, 60); nx_string_array_resize(sa, ns); m.resize(ns, MStr{true, ""}); break; }
        case 8: { bool hasnull = false; for (auto &x : m) hasnull |= x.null; (void)hasnull;
            std::string q = n && r.coin() && !m[id].null ? m[id].s : s; int e = -1; for (int i = 0; i < n; ++i) if (!m[i].null && m[i].s == q) { e = i; break; }
            int f = nx_string_array_find(sa, q.c_str()); REQ(c, f == e, "find(%s) = %d, model %d", escape(q).c_str(), f, e); c.ev("find"); break; }
        case 9: if (n && !m[id].null) { // element derived from another element (or itself)
            nx_string_array_append(sa, nx_string_array_get(sa, id)); m.push_back(m[id]); } break;
        case 10: if (n && !m[id].null && r.coin()) { nx_string_array_set(sa, id, nx_string_array_get(sa, id)); } else if (r.coin(1, 6)) { nx_string_array_clear(sa); m.clear(); } break;
        }
        sa_check(c, sa, m, fmt("op %d", op).c_str());
    }
    nx_string_array_free(sa);
}
static void sa_io(Ctx &c) {
    auto &r = c.rng; int n = r.size(30, 1500, 9000); std::vector<MStr> m; NXStringArray *sa = nx_string_array_alloc();
    for (int i = 0; i < n; ++i) { std::string s = gen_bytes(r, r.size(60, 9000), r.i(0, 4)); m.push_back({false, s}); nx_string_array_append(sa, s.c_str()); c.mixb(s.data(), s.size()); }
    c.desc("n=%d", n); if (n > 1) c.nt();
    FILE *f = tmpfile(); if (r.coin()) REQ(c, nx_string_array_write(sa, f) == 0, "write failed"); else nx_string_array_xwrite(sa, f);
    long len = ftell(f); rewind(f);
    NXStringArray *t = r.coin() ? nx_string_array_read0(f) : nx_string_array_xread0(f); REQ(c, t != nullptr, "read failed"); sa_check(c, t, m, "read0");
    // read into a non-empty array
    NXStringArray *u = nx_string_array_new(r.i(0, 10)); for (int i = 0; i < nx_string_array_size(u); ++i) nx_string_array_set(u, i, "previous content that is longer");
    rewind(f); if (r.coin()) REQ(c, nx_string_array_read(u, f) == 0, "read failed"); else nx_string_array_xread(u, f); sa_check(c, u, m, "read"); c.ev("string_array_roundtrip");
    std::string all(len, 0); rewind(f); REQ(c, fread(&all[0], 1, len, f) == (size_t)len, "short file"); fclose(f);
    long cut = r.range(0, len - 1); c.desc(" cut=%ld/%ld", cut, len); FILE *g = tmpfile(); fwrite(all.data(), 1, cut, g); rewind(g);
    NXStringArray *x = nx_string_array_read0(g); REQ(c, x == nullptr, "truncated stream (%ld of %ld bytes) read as success", cut, len);
    rewind(g); NXStringArray *y = nx_string_array_alloc(); REQ(c, nx_string_array_read(y, g) != 0, "truncated stream read as success"); nx_string_array_free(y);
    rewind(g); REQ(c, !returns(c, [&] { nx_string_array_free(nx_string_array_xread0(g)); }), "truncated stream read as success"); c.ev("truncation_reported");
    fclose(g); nx_string_array_free(sa); nx_string_array_free(t); nx_string_array_free(u);
}
// ---- memory blocks
struct MB { NXMemBlock *b; std::vector<int> m; /* -1 unknown */ unsigned char *ext; std::vector<unsigned char> extcopy; bool ext_in_use; };
static void mb_check(Ctx &c, MB &x, const char *op) {
    REQ(c, x.b->size == x.m.size(), "after %s size %zu, model %zu", op, x.b->size, x.m.size()); REQ(c, x.b->capacity >= x.b->size, "capacity below size after %s", op);
    REQ(c, x.b->size == 0 || x.b->ptr, "no storage after %s", op);
    for (size_t i = 0; i < x.m.size(); ++i) if (x.m[i] >= 0) REQ(c, ((unsigned char *)x.b->ptr)[i] == x.m[i], "after %s byte %zu is %d, model %d", op, i, ((unsigned char *)x.b->ptr)[i], x.m[i]);
    if (x.b->own_memory && x.b->capacity) { volatile unsigned char t = ((unsigned char *)x.b->ptr)[x.b->capacity - 1]; ((unsigned char *)x.b->ptr)[x.b->capacity - 1] = t; }
    if (x.ext && !x.ext_in_use) REQ(c, memcmp(x.ext, x.extcopy.data(), x.extcopy.size()) == 0, "borrowed memory changed after it was left (op %s)", op);
    c.ev("mem_block_state");
}
static void leave_ext(MB &x) { if (x.ext) { free(x.ext); x.ext = nullptr; } x.ext_in_use = false; }
static void mem_block(Ctx &c) {
    auto &r = c.rng; MB x[2]; for (auto &e : x) { e.ext = nullptr; e.ext_in_use = false; if (r.coin()) { e.b = nx_mem_block_alloc(); } else { int n = r.size(100, 9000); e.b = nx_mem_block_new(n); e.m.assign(n, -1); } mb_check(c, e, "create"); }
    int ops = r.coin(1, 60) ? r.i(100, 700) : r.i(1, 40); c.desc("ops=%d: ", ops); if (ops > 3) c.nt();
    for (int k = 0; k < ops; ++k) {
        int w = r.i(0, 1); MB &e = x[w], &o = x[1 - w]; int op = r.i(0, 9); size_t n = r.size(300, 20000, 300000); c.mix(op * 1000 + n); c.desc("%d.%d(%zu) ", w, op, n);
        switch (op) {
        case 0: { bool left = e.ext_in_use && n > e.b->capacity; if (left) { e.extcopy.assign(e.ext, e.ext + e.b->capacity); e.ext_in_use = false; } void *p = nx_mem_block_reserve(e.b, n); REQ(c, p == e.b->ptr && e.b->capacity >= n, "reserve(%zu) gives capacity %zu", n, e.b->capacity); break; }
        case 1: case 2: { bool left = e.ext_in_use && n > e.b->capacity; if (left) { e.extcopy.assign(e.ext, e.ext + e.b->capacity); e.ext_in_use = false; }
            void *p = nx_mem_block_resize(e.b, n); REQ(c, p == e.b->ptr, "resize result"); e.m.resize(n, -1); break; }
        case 3: nx_mem_block_release(e.b); e.m.clear(); REQ(c, e.b->ptr == nullptr && e.b->capacity == 0 && !e.b->own_memory, "release leaves storage"); if (e.ext_in_use) { volatile unsigned char t = e.ext[0]; (void)t; leave_ext(e); } break;
        case 4: { // wrap borrowed or owned
            bool own = r.coin(); size_t cap = n + 1 + r.i(0, 20); unsigned char *p = (unsigned char *)malloc(cap); for (size_t i = 0; i < cap; ++i) p[i] = (unsigned char)r.next();
            void *q = nx_mem_block_wrap(e.b, p, n, cap, own ? NX_TRUE : NX_FALSE); REQ(c, q == p && e.b->ptr == p && e.b->capacity == cap, "wrap result"); leave_ext(e);
            e.m.clear(); for (size_t i = 0; i < n; ++i) e.m.push_back(p[i]); if (!own) { e.ext = p; e.ext_in_use = true; e.extcopy.clear(); } break; }
        case 5: nx_mem_block_swap(e.b, o.b); std::swap(e.m, o.m); std::swap(e.ext, o.ext); std::swap(e.extcopy, o.extcopy); std::swap(e.ext_in_use, o.ext_in_use); break;
        case 6: { bool left = e.ext_in_use && o.b->size > e.b->capacity; if (left) { e.extcopy.assign(e.ext, e.ext + e.b->capacity); e.ext_in_use = false; } nx_mem_block_copy(e.b, o.b); e.m = o.m; REQ(c, e.m.empty() || e.b->ptr != o.b->ptr, "copy shares storage"); break; }
        case 7: { NXMemBlock *cp = nx_mem_block_copy0(e.b); MB t; t.b = cp; t.m = e.m; t.ext = nullptr; t.ext_in_use = false; mb_check(c, t, "copy0"); if (cp->size) ((unsigned char *)cp->ptr)[0] ^= 0x55; mb_check(c, e, "copy0 modified"); nx_mem_block_free(cp); break; }
        case 8: nx_mem_block_set_zero(e.b); for (auto &v : e.m) v = 0; break;
        case 9: for (size_t i = 0; i < e.m.size(); ++i) { e.m[i] = (int)(r.next() & 255); ((unsigned char *)e.b->ptr)[i] = (unsigned char)e.m[i]; } break;
        }
        mb_check(c, x[0], fmt("op %d", op).c_str()); mb_check(c, x[1], fmt("op %d", op).c_str());
    }
    for (auto &e : x) { nx_mem_block_free(e.b); if (e.ext_in_use) { volatile unsigned char t = e.ext[0]; (void)t; } free(e.ext); }
}
// ---- generated vector (keypoints)
static void vec(Ctx &c) {
    auto &r = c.rng; struct V { NXKeypointVector *v; std::vector<long> m; NXKeypoint *ext; }; V x[2];
    for (auto &e : x) { e.ext = nullptr; e.v = r.coin() ? nx_keypoint_vector_alloc() : nx_keypoint_vector_new(r.i(0, 20)); }
    auto check = [&](V &e, int op) {
        REQ(c, e.v->size == e.m.size(), "after op %d size %zu model %zu", op, e.v->size, e.m.size()); REQ(c, e.v->capacity >= e.v->size, "capacity below size");
        for (size_t i = 0; i < e.m.size(); ++i) if (e.m[i] >= 0) REQ(c, e.v->data[i].x == (int)e.m[i] && e.v->data[i].id == (uint64_t)e.m[i], "after op %d item %zu is %d, model %ld", op, i, e.v->data[i].x, e.m[i]);
        c.ev("vector_state"); };
    int ops = r.coin(1, 60) ? r.i(200, 1500) : r.i(1, 60); c.desc("ops=%d: ", ops); if (ops > 3) c.nt(); long ctr = 0;
    auto leave = [&](V &e) { if (e.ext && e.v->data != e.ext) { free(e.ext); e.ext = nullptr; } };
    for (int k = 0; k < ops; ++k) {
        int w = r.i(0, 1); V &e = x[w], &o = x[1 - w]; int op = r.i(0, 9); size_t n = r.size(40, 1200, 20000); c.mix(op * 100 + n); c.desc("%d.%d(%zu) ", w, op, n);
        switch (op) {
        case 0: case 1: case 2: case 3: { NXKeypoint *p = nx_keypoint_vector_push_back(e.v); REQ(c, p == e.v->data + e.v->size - 1, "push_back result"); memset((void *)p, 0, sizeof *p); p->x = (int)++ctr; p->id = ctr; e.m.push_back(ctr); break; }
        case 4: nx_keypoint_vector_reserve(e.v, n); REQ(c, e.v->capacity >= n, "reserve"); break;
        case 5: nx_keypoint_vector_resize(e.v, n); e.m.resize(n, -1); break;
        case 6: nx_keypoint_vector_clear(e.v); e.m.clear(); break;
        case 7: nx_keypoint_vector_copy(e.v, o.v); e.m = o.m; REQ(c, e.m.empty() || e.v->data != o.v->data, "copy shares storage"); break;
        case 8: { NXKeypointVector *cp = nx_keypoint_vector_copy0(e.v); V t{cp, e.m, nullptr}; check(t, 8); for (size_t i = 0; i < cp->size; ++i) cp->data[i].x = -5; nx_keypoint_vector_free(cp); break; }
        case 9: if (r.coin()) { nx_keypoint_vector_release(e.v); e.m.clear(); REQ(c, e.v->capacity == 0 && !e.v->data, "release"); }
            else { size_t cap = n + r.i(1, 5); NXKeypoint *p = (NXKeypoint *)calloc(cap, sizeof *p); e.m.clear(); for (size_t i = 0; i < n; ++i) { p[i].x = (int)++ctr; p[i].id = ctr; e.m.push_back(ctr); } bool own = r.coin(); nx_keypoint_vector_wrap(e.v, p, n, cap, own ? NX_TRUE : NX_FALSE); REQ(c, e.v->data == p && e.v->capacity == cap, "wrap"); leave(e); if (!own) e.ext = p; } break;
        }
        leave(e); check(x[0], op); check(x[1], op);
    }
    for (auto &e : x) { nx_keypoint_vector_free(e.v); free(e.ext); }
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"string_array", string_array, 4000, 80000}, {"sa_io", sa_io, 1500, 30000}, {"mem_block", mem_block, 5000, 100000}, {"vector", vec, 4000, 80000}});
}
