// C29: OpenGL resource helpers against a recording stand-in for the OpenGL entry points.
#include "vh.hpp"
#include "gen_text.hpp"
#include "virg/nexus/GL/nx_gl.h"
#include "virg/nexus/GL/nx_gl_buffer.h"
#include "virg/nexus/GL/nx_gl_program.h"
#include "virg/nexus/GL/nx_gl_shader.h"
#include "virg/nexus/nx_log.h"
#include <map>
using namespace vh;
// ---- stand-in: a checked model of the object state the helpers may touch
struct MBuf { std::string data; GLenum usage = 0; bool stored = false; };
struct MSh { GLenum type; std::string src; bool compiled = false, ok = false, deleted = false; std::string log; };
struct MPr { std::vector<GLuint> att; bool linked = false, lok = false, vok = false, validated = false; std::string log; };
static struct { GLuint next = 1; std::map<GLuint, MBuf> buf; std::map<GLenum, GLuint> bound; std::map<GLuint, MSh> sh; std::map<GLuint, MPr> pr; std::string bad; int gen_fail = 0, sh_fail = 0, pr_fail = 0; bool c_ok[2] = {true, true}, l_ok = true, v_ok = true; std::string clog, llog, vlog; bool dbg = false; GLDEBUGPROC cb = nullptr; const void *user = nullptr; long calls = 0; int ncomp = 0; } M;
static void bad(const char *w) { if (M.bad.empty()) M.bad = w; }
static void reset(Rng &r) { auto n = r.i(1, 5000); M.next = n; M.buf.clear(); M.bound.clear(); M.sh.clear(); M.pr.clear(); M.bad.clear(); M.gen_fail = M.sh_fail = M.pr_fail = 0; M.c_ok[0] = M.c_ok[1] = M.l_ok = M.v_ok = true; M.clog = M.llog = M.vlog = ""; M.dbg = false; M.cb = nullptr; M.ncomp = 0; }
static void copy_log(const std::string &l, GLsizei n, GLsizei *len, GLchar *out) { size_t k = n > 0 ? std::min((size_t)n - 1, l.size()) : 0; memcpy(out, l.data(), k); if (n > 0) out[k] = 0; if (len) *len = (GLsizei)k; }
extern "C" {
void glGenBuffers(GLsizei n, GLuint *b) { ++M.calls; for (int i = 0; i < n; ++i) { if (M.gen_fail) { b[i] = 0; continue; } b[i] = M.next++; M.buf[b[i]]; } }
void glDeleteBuffers(GLsizei n, const GLuint *b) { ++M.calls; for (int i = 0; i < n; ++i) { if (b[i] && !M.buf.erase(b[i])) bad("delete of a buffer that does not exist"); for (auto &q : M.bound) if (q.second == b[i]) q.second = 0; } }
void glBindBuffer(GLenum t, GLuint b) { ++M.calls; if (b && !M.buf.count(b)) bad("bind of a buffer that does not exist"); M.bound[t] = b; }
void glBufferData(GLenum t, GLsizeiptr n, const void *d, GLenum u) { ++M.calls; GLuint b = M.bound[t]; if (!b) { bad("data for no buffer"); return; } M.buf[b].data = d ? std::string((const char *)d, n) : std::string(n, 0); M.buf[b].usage = u; M.buf[b].stored = true; }
GLuint glCreateShader(GLenum t) { ++M.calls; if (M.sh_fail) return 0; GLuint s = M.next++; M.sh[s].type = t; return s; }
void glShaderSource(GLuint s, GLsizei n, const GLchar *const *str, const GLint *len) { ++M.calls; if (!M.sh.count(s)) { bad("source for no shader"); return; } std::string t; for (int i = 0; i < n; ++i) t += len && len[i] >= 0 ? std::string(str[i], len[i]) : std::string(str[i]); M.sh[s].src = t; }
void glCompileShader(GLuint s) { ++M.calls; if (!M.sh.count(s)) { bad("compile of no shader"); return; } auto &q = M.sh[s]; q.compiled = true; q.ok = M.c_ok[M.ncomp & 1]; ++M.ncomp; q.log = q.ok ? "" : M.clog; }
void glGetShaderiv(GLuint s, GLenum p, GLint *v) { ++M.calls; if (!M.sh.count(s)) { bad("query of no shader"); return; } auto &q = M.sh[s]; if (p == GL_COMPILE_STATUS) *v = q.compiled && q.ok; else if (p == GL_INFO_LOG_LENGTH) *v = q.log.empty() ? 0 : (GLint)q.log.size() + 1; else if (p == GL_SHADER_TYPE) *v = q.type; else *v = 0; }
void glGetShaderInfoLog(GLuint s, GLsizei n, GLsizei *len, GLchar *o) { ++M.calls; copy_log(M.sh[s].log, n, len, o); }
void glDeleteShader(GLuint s) { ++M.calls; if (s && (!M.sh.count(s) || M.sh[s].deleted)) bad("delete of a shader that does not exist"); else if (s) M.sh[s].deleted = true; }
GLuint glCreateProgram() { ++M.calls; if (M.pr_fail) return 0; GLuint p = M.next++; M.pr[p]; return p; }
void glAttachShader(GLuint p, GLuint s) { ++M.calls; if (!M.pr.count(p) || !M.sh.count(s) || M.sh[s].deleted) bad("attach of an object that does not exist"); else M.pr[p].att.push_back(s); }
void glDetachShader(GLuint p, GLuint s) { ++M.calls; (void)p; (void)s; }
void glLinkProgram(GLuint p) { ++M.calls; if (!M.pr.count(p)) { bad("link of no program"); return; } M.pr[p].linked = true; M.pr[p].lok = M.l_ok; M.pr[p].log = M.l_ok ? "" : M.llog; }
void glValidateProgram(GLuint p) { ++M.calls; if (!M.pr.count(p)) { bad("validation of no program"); return; } M.pr[p].validated = true; M.pr[p].vok = M.v_ok && M.pr[p].linked && M.pr[p].lok; M.pr[p].log = M.v_ok ? "" : M.vlog; }
void glGetProgramiv(GLuint p, GLenum n, GLint *v) { ++M.calls; if (!M.pr.count(p)) { bad("query of no program"); return; } auto &q = M.pr[p]; if (n == GL_LINK_STATUS) *v = q.linked && q.lok; else if (n == GL_VALIDATE_STATUS) *v = q.validated && q.vok; else if (n == GL_INFO_LOG_LENGTH) *v = q.log.empty() ? 0 : (GLint)q.log.size() + 1; else if (n == GL_ATTACHED_SHADERS) *v = (GLint)q.att.size(); else *v = 0; }
void glGetProgramInfoLog(GLuint p, GLsizei n, GLsizei *len, GLchar *o) { ++M.calls; copy_log(M.pr[p].log, n, len, o); }
void glDeleteProgram(GLuint p) { ++M.calls; M.pr.erase(p); }
const GLubyte *glGetString(GLenum n) { ++M.calls; return (const GLubyte *)(n == GL_VERSION ? "OpenGL ES 3.2 %s %d stand-in" : n == GL_SHADING_LANGUAGE_VERSION ? "GLSL ES 3.20 %n%s" : "other"); }
void glEnable(GLenum e) { ++M.calls; if (e == GL_DEBUG_OUTPUT) M.dbg = true; }
void glDisable(GLenum e) { ++M.calls; if (e == GL_DEBUG_OUTPUT) M.dbg = false; }
void glDebugMessageCallback(GLDEBUGPROC cb, const void *u) { ++M.calls; M.cb = cb; M.user = u; }
GLenum glGetError() { return GL_NO_ERROR; }
}
static void buffers(Ctx &c) {
    auto &r = c.rng; reset(r); static const GLenum T[] = {GL_ARRAY_BUFFER, GL_ELEMENT_ARRAY_BUFFER, GL_UNIFORM_BUFFER, GL_COPY_READ_BUFFER}, U[] = {GL_STATIC_DRAW, GL_DYNAMIC_DRAW, GL_STREAM_DRAW}; struct L { NXGLBuffer *b; GLenum t, u; std::string *d; bool stored; }; std::vector<L> v; int n = r.i(1, 40); if (n > 3) c.nt();
    auto check = [&](const char *w) { REQ(c, M.bad.empty(), "%s: %s", w, M.bad.c_str()); REQ(c, M.buf.size() == v.size(), "%s: %zu buffer objects live, %zu held", w, M.buf.size(), v.size()); for (auto &l : v) { REQ(c, M.buf.count(l.b->id), "%s: held buffer was deleted", w); auto &m = M.buf[l.b->id]; REQ(c, l.b->target == l.t && m.stored == l.stored, "%s: target or storage", w); if (l.stored) REQ(c, m.data == *l.d && m.usage == l.u && (size_t)l.b->size == l.d->size() && l.b->usage_hint == l.u && l.b->data == l.d->data(), "%s: buffer %u content", w, l.b->id); } c.ev("buffer_states"); };
    for (int i = 0; i < n; ++i) { int op = r.i(0, 9); c.mix(op); if (op < 5 || v.empty()) { L l; l.t = T[r.i(0, 3)]; l.u = U[r.i(0, 2)]; l.d = new std::string(gen_bytes(r, r.i(1, 200), 0)); l.stored = true; c.mixb(l.d->data(), l.d->size()); int k = r.i(0, 3); c.desc("new%d ", k); if (k == 0) { l.b = nx_gl_buffer_alloc(); l.t = GL_ARRAY_BUFFER; l.stored = false; REQ(c, l.b->size == 0 && l.b->data == nullptr && l.b->usage_hint == GL_STATIC_DRAW, "fresh buffer is not empty"); } else if (k == 1) { l.t = GL_ARRAY_BUFFER; l.b = nx_gl_buffer_new_array(l.d->size(), l.d->data(), l.u); } else if (k == 2) { l.t = GL_ELEMENT_ARRAY_BUFFER; l.b = nx_gl_buffer_new_element_array(l.d->size(), l.d->data(), l.u); } else l.b = nx_gl_buffer_new(l.t, l.d->size(), l.d->data(), l.u); v.push_back(l); if (l.stored) REQ(c, M.bound[l.t] == l.b->id, "new buffer is not bound to its target"); }
        else if (op < 7) { auto &l = v[r.i(0, (int)v.size() - 1)]; c.desc("bind "); nx_gl_buffer_bind(l.b); REQ(c, M.bound[l.t] == l.b->id, "bound buffer is %u expected %u", M.bound[l.t], l.b->id); }
        else if (op < 9) { int k = r.i(0, (int)v.size() - 1); c.desc("free "); nx_gl_buffer_free(v[k].b); delete v[k].d; v.erase(v.begin() + k); }
        else { M.gen_fail = 1; NXGLBuffer *b = nullptr; c.desc("fail "); REQ(c, !returns(c, [&] { b = nx_gl_buffer_alloc(); }), "refused buffer was returned"); M.gen_fail = 0; c.ev("refused"); }
        check("after operation"); }
    nx_gl_buffer_free(nullptr); for (auto &l : v) { nx_gl_buffer_free(l.b); delete l.d; } REQ(c, M.buf.empty() && M.bad.empty(), "buffers remain: %s", M.bad.c_str());
}
static void programs(Ctx &c) {
    auto &r = c.rng; reset(r); c.nt(); auto big = [&](int lo, int hi) { return r.coin(1, 40) ? r.i(1000, 150000) : r.i(lo, hi); }; std::string vs = gen_bytes(r, big(0, 120), r.i(0, 4)), fs = gen_bytes(r, big(0, 120), r.i(0, 4)); M.clog = r.coin(1, 4) ? "" : "0:1: error " + gen_bytes(r, big(1, 200), 1); M.llog = r.coin(1, 4) ? "" : "link " + gen_bytes(r, big(1, 200), 1); M.vlog = r.coin(1, 4) ? "" : "validate " + gen_bytes(r, big(1, 200), 1); int f = r.i(0, 9); M.c_ok[0] = f != 1; M.c_ok[1] = f != 2; M.l_ok = f != 3; M.v_ok = f != 4; M.sh_fail = f == 5; M.pr_fail = f == 6; c.mixb(vs.data(), vs.size()); c.mixb(fs.data(), fs.size()); c.mix(f); c.desc("failure %d", f); nx_log_verbosity(NX_LOG_SILENT);
    bool split = r.coin(1, 3); GLuint p = 0, v = 0, q = 0; std::string msg; auto go = [&] { if (split) { v = nx_gl_shader_xcreate_and_compile(GL_VERTEX_SHADER, vs.c_str()); q = nx_gl_shader_xcreate_and_compile(GL_FRAGMENT_SHADER, fs.c_str()); p = nx_gl_program_xcreate_and_link(v, q); nx_gl_program_xvalidate(p); } else p = nx_gl_program_from_vf_shaders(vs.c_str(), fs.c_str()); }; bool ret = returns(c, go, &msg); REQ(c, M.bad.empty(), "%s", M.bad.c_str());
    if (f >= 1 && f <= 6) { REQ(c, !ret, "failure %d was not reported", f); const std::string &l = f <= 2 ? M.clog : f == 3 ? M.llog : f == 4 ? M.vlog : M.bad; REQ(c, msg.find(l) != std::string::npos, "report '%s' lacks the log '%s'", escape(msg).c_str(), escape(l).c_str()); if (f == 1) REQ(c, msg.find("vertex shader") != std::string::npos, "report does not name the vertex shader"); if (f == 2) REQ(c, msg.find("fragment shader") != std::string::npos, "report does not name the fragment shader"); c.ev("failures_reported"); return; }
    REQ(c, ret, "valid program failed: %s", msg.c_str()); REQ(c, M.pr.size() == 1 && M.pr.count(p), "program %u was not created", p); auto &P = M.pr[p]; REQ(c, P.linked && P.validated && P.att.size() == 2, "program not linked and validated with two shaders"); REQ(c, M.sh.size() == 2, "%zu shaders", M.sh.size()); MSh &a = M.sh[P.att[0]], &b = M.sh[P.att[1]]; MSh &va = a.type == GL_VERTEX_SHADER ? a : b, &fa = a.type == GL_VERTEX_SHADER ? b : a; REQ(c, va.type == GL_VERTEX_SHADER && fa.type == GL_FRAGMENT_SHADER && va.src == vs && fa.src == fs && va.compiled && fa.compiled, "shader sources or types"); REQ(c, va.deleted == !split && fa.deleted == !split, "shaders %s", split ? "deleted early" : "left behind"); c.ev("programs");
}
static void messages(Ctx &c) {
    auto &r = c.rng; reset(r); c.nt(); static const GLenum S[] = {GL_DEBUG_SEVERITY_NOTIFICATION, GL_DEBUG_SEVERITY_LOW, GL_DEBUG_SEVERITY_MEDIUM, GL_DEBUG_SEVERITY_HIGH, 0x1234}; static const char L[] = "ILWEE"; int n = r.i(1, 6); std::vector<std::pair<int, std::string>> m; for (int i = 0; i < n; ++i) { std::string t = gen_bytes(r, r.i(1, 60), 1); for (auto &ch : t) if (ch == '\n') ch = ' '; m.push_back({r.i(0, 4), t}); c.mixb(t.data(), t.size()); c.mix(m.back().first); } int vb = r.i(0, 3); bool info = r.coin(); c.mix(vb); c.mix(info);
    Outcome o = fork_run([&] { nx_log_verbosity((NXLogVerbosity)vb); nx_gl_debug_enable(); if (!M.dbg || !M.cb) _exit(85); if (info) nx_gl_info(); for (auto &q : m) M.cb(GL_DEBUG_SOURCE_API, GL_DEBUG_TYPE_OTHER, 7, S[q.first], (GLsizei)q.second.size(), q.second.c_str(), M.user); nx_gl_debug_disable(); if (M.dbg) _exit(83); }); REQ(c, o.kind == RETURNED, "%s %d: %s", kind_name(o.kind), o.code, escape(o.err).c_str());
    std::vector<std::pair<char, std::string>> e; auto expect = [&](char l, const std::string &t) { int lv = l == 'I' ? 0 : l == 'L' ? 1 : l == 'W' ? 2 : 3; if (vb <= lv) e.push_back({l, t}); }; if (info) { expect('I', "OpenGL ES 3.2 %s %d stand-in"); expect('I', "GLSL ES 3.20 %n%s"); } for (auto &q : m) expect(L[q.first], q.second);
    size_t pos = 0; for (auto &q : e) { size_t nl = o.err.find('\n', pos); REQ(c, nl != std::string::npos, "no [%c] message for '%s' in '%s'", q.first, escape(q.second).c_str(), escape(o.err).c_str()); std::string l = o.err.substr(pos, nl - pos), tail = "] " + q.second; REQ(c, l.compare(0, 3, std::string("[") + q.first + "]") == 0 && l.size() > tail.size() && l.compare(l.size() - tail.size(), tail.size(), tail) == 0, "logged '%s' for a [%c] message '%s'", escape(l).c_str(), q.first, escape(q.second).c_str()); pos = nl + 1; c.ev("messages"); } REQ(c, pos == o.err.size(), "more was logged than asked: '%s'", escape(o.err.substr(pos)).c_str());
}
static void types(Ctx &c) { auto &r = c.rng; GLenum t = r.coin() ? (r.coin() ? GL_VERTEX_SHADER : GL_FRAGMENT_SHADER) : (GLenum)r.next(); std::string s = nx_shader_type_string(t); c.mix(t); c.nt(); REQ(c, s == (t == GL_VERTEX_SHADER ? "vertex shader" : t == GL_FRAGMENT_SHADER ? "fragment shader" : "unknown shader"), "type %x named %s", t, s.c_str()); c.ev("names"); }
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"buffers", buffers, 20000, 200000}, {"programs", programs, 20000, 200000}, {"messages", messages, 1000, 8000}, {"types", types, 500, 5000}}); }
