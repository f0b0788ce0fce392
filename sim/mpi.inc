// MPI seam: the C interface over simulated ranks. Reliable, per-pair ordered, arbitrarily delayed;
// sends are buffered or wait for their receive, as the standard allows.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

struct Req;
struct Msg { int src, dst, tag, ctx; u64 at; bool rdv, taken; std::string data; u64 id; };
static std::deque<Msg*> inbox[MAXR]; static u64 last_at[MAXR][MAXR], msg_ids;
static std::deque<Req*> posted[MAXR];  // receives started and not matched yet, in order
static bool mpi_init[MAXR]; static int mpi_provided[MAXR];
static std::unordered_map<void*, size_t>* dtypes;
static std::unordered_map<void*, int>* comms; static u64 dup_seq[MAXR]; static std::unordered_map<int, u64> coll_seq[MAXR];
struct Coll { int kind, n; bool in[MAXR]; std::string data[MAXR]; };
static std::unordered_map<u64, Coll*> colls;
struct Req { bool recv, done, persistent, active, cancelled; Msg* m; void* buf; size_t cap; int src, tag, ctx, rank, mode; Coll* coll; MPI_Status st; };

static void mpi_err(const char* f, ...) { if (sh->mpierr[0]) return; va_list ap; va_start(ap, f); vsnprintf(sh->mpierr, sizeof sh->mpierr, f, ap); va_end(ap); }
static void mpi_enter(const char* fn) {
  int r = self->rank;
  if (P.prog != "mpi") mpi_err("%s called outside an MPI job", fn);
  if (!mpi_init[r]) mpi_err("%s called by rank %d before initialisation", fn, r);
  if (sh->finalized[r]) mpi_err("%s called by rank %d after finalisation", fn, r);
  if (mpi_provided[r] <= MPI_THREAD_FUNNELED && !self->is_main) mpi_err("%s called by a thread of rank %d that is not its initial thread (thread level funneled)", fn, r);
  point(0x80);
}
static size_t tsize(MPI_Datatype t) {
  auto it = dtypes->find((void*)t); if (it != dtypes->end()) return it->second;
#define TS(X, N) if (t == X) return N;
  TS(MPI_BYTE, 1) TS(MPI_PACKED, 1) TS(MPI_CHAR, 1) TS(MPI_SIGNED_CHAR, 1) TS(MPI_UNSIGNED_CHAR, 1) TS(MPI_INT, 4) TS(MPI_UNSIGNED, 4) TS(MPI_SHORT, 2) TS(MPI_UNSIGNED_SHORT, 2)
  TS(MPI_LONG, 8) TS(MPI_UNSIGNED_LONG, 8) TS(MPI_LONG_LONG_INT, 8) TS(MPI_UNSIGNED_LONG_LONG, 8) TS(MPI_FLOAT, 4) TS(MPI_DOUBLE, 8) TS(MPI_C_BOOL, 1) TS(MPI_CXX_BOOL, 1) TS(MPI_LONG_DOUBLE, 16) TS(MPI_WCHAR, 4)
  mpi_err("unsupported datatype"); return 1;
}
static void set_status(MPI_Status* st, Msg* m) { if (st && st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->_ucount = m->data.size(); } }
static int cid(MPI_Comm c) { if (c == MPI_COMM_WORLD) return 0; auto it = comms->find((void*)c); if (it == comms->end()) { mpi_err("call on an invalid communicator"); return 0; } return it->second; }
static void wake_rank(int r) { for (int i = 0; i < nT; i++) if (T[i]->st == S_BLOCKED && T[i]->wk == W_MPI && T[i]->rank == r) wake_thread(T[i]); }
static bool fits(Msg* m, int src, int tag, int ctx) { return !m->taken && m->ctx == ctx && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag); }
static void take(Msg* m) {
  m->taken = true; auto& q = inbox[m->dst]; q.erase(std::find(q.begin(), q.end(), m));
  H(0x91, m->id); wake_rank(m->src);
}
static int copy_out(Msg* m, void* b, size_t cap) {
  size_t n = m->data.size(); if (n > cap) { memcpy(b, m->data.data(), cap); mpi_err("message truncated: rank %d received %zu bytes into %zu (tag %d)", m->dst, n, cap, m->tag); return MPI_ERR_TRUNCATE; }
  memcpy(b, m->data.data(), n); return MPI_SUCCESS;
}
static int deliver(Msg* m, void* b, size_t cap, MPI_Status* st) { set_status(st, m); take(m); hb_acquire(m); return copy_out(m, b, cap); }
static void bind(Req* r, Msg* m) { // a started receive meets its message
  r->m = m; r->done = true; set_status(&r->st, m); take(m); copy_out(m, r->buf, r->cap); wake_rank(r->rank);
}
// messages that have arrived meet the receives that wait for them
static void progress(int rank) {
  auto& pq = posted[rank];
  while (!pq.empty()) {
    Msg* best = nullptr; size_t at = 0;
    for (Msg* m : inbox[rank]) if (m->at <= sh->now && (!best || m->at < best->at || (m->at == best->at && m->id < best->id)))
      for (size_t i = 0; i < pq.size(); i++) if (fits(m, pq[i]->src, pq[i]->tag, pq[i]->ctx)) { best = m; at = i; break; }
    if (!best) return;
    Req* r = pq[at]; pq.erase(pq.begin() + at); bind(r, best);
  }
}
static u64 next_arrival(int rank) { u64 t = INF; for (Msg* m : inbox[rank]) if (m->at > sh->now && m->at < t) t = m->at; return t; }
enum { SM_STD, SM_SYNC, SM_READY, SM_BUF };
static Msg* post(int dst, int tag, int ctx, const void* b, size_t n, int mode) {
  happened(); Msg* m = new Msg(); m->src = self->rank; m->dst = dst; m->tag = tag; m->ctx = ctx; m->data.assign((const char*)b, n); m->id = ++msg_ids;
  i64 d = 0;
  if (P.replay) d = lookup(K_NETDELAY, self->n); else if (P.djit) { d = (i64)rndn(rnd_log(P.djit) + 1); if (d) logdev(K_NETDELAY, self->n, d); }
  if (d) fired(K_NETDELAY);
  m->at = sh->now + P.dbase + (u64)d; if (m->at < last_at[m->src][dst]) m->at = last_at[m->src][dst]; last_at[m->src][dst] = m->at;
  if (mode == SM_STD) {
    i64 r = 0;
    if (P.replay) r = lookup(K_RENDEZVOUS, self->n);
    else { if (n >= P.eager || (P.prdv > 0 && rndf() < P.prdv)) r = 1; if (r) logdev(K_RENDEZVOUS, self->n, r); }
    m->rdv = r; if (r) fired(K_RENDEZVOUS);
  } else m->rdv = mode == SM_SYNC;
  inbox[dst].push_back(m); sh->msgs++; H(0x90, mixh(m->src * 16 + dst, tag * 4096 + n));
  hb_release(m);
  for (int i = 0; i < nT; i++) if (T[i]->st == S_BLOCKED && T[i]->wk == W_MPI && T[i]->rank == dst && m->at < T[i]->wake) T[i]->wake = m->at;
  return m;
}
// first matching delivered message; per source in sending order
static Msg* find_msg(int rank, int src, int tag, int ctx) {
  progress(rank);
  Msg* best[MAXR] = {0};
  for (Msg* m : inbox[rank]) if (!best[m->src] && fits(m, src, tag, ctx)) best[m->src] = m;
  Msg* c[MAXR]; int k = 0;
  for (int i = 0; i < P.nranks; i++) if (best[i] && best[i]->at <= sh->now) c[k++] = best[i];
  if (!k) return nullptr;
  int ix = 0; for (int i = 1; i < k; i++) if (c[i]->at < c[ix]->at || (c[i]->at == c[ix]->at && c[i]->id < c[ix]->id)) ix = i;
  if (k > 1 && P.mpirand) { i64 v = 0; if (P.replay) v = lookup(K_MPIPICK, self->n); else { v = (i64)rndn(k + 1); if (v) logdev(K_MPIPICK, self->n, v); } if (v) { fired(K_MPIPICK); ix = (int)((v - 1) % k); } }
  return c[ix];
}
static Msg* wait_msg(int src, int tag, int ctx) { while (true) { Msg* m = find_msg(self->rank, src, tag, ctx); if (m) return m; block(nullptr, W_MPI, next_arrival(self->rank)); } }
static void wait_taken(Msg* m) { // a rendezvous: the message has to be there and its receive started
  while (true) { progress(m->dst); if (m->taken) return; block(m, W_MPI, m->at > sh->now ? m->at : INF); }
}
static bool req_ready(Req* r) {
  if (!r->active || r->done) return true;
  if (r->coll) { if (r->coll->n == P.nranks) { hb_acquire(r->coll); r->done = true; } }
  else if (r->recv) { progress(r->rank); }
  else { progress(r->m->dst); if (!r->m->rdv || r->m->taken) r->done = true; }
  return r->done;
}
static void req_end(MPI_Request* rq, MPI_Status* st) { // a completed request
  Req* r = (Req*)*rq;
  if (r->recv && r->active && r->m) hb_acquire(r->m);
  if (st && st != MPI_STATUS_IGNORE) { if (r->active) *st = r->st; else { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; } }
  if (r->persistent) r->active = false; else *rq = MPI_REQUEST_NULL;
}
static void empty_status(MPI_Status* st) { if (st && st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; } }
static u64 req_wake(Req* r) { u64 t = next_arrival(self->rank); if (r && r->active && !r->recv && !r->coll && r->m && r->m->at > sh->now && r->m->at < t) t = r->m->at; return t; }
static Req* new_req() { Req* r = new Req(); memset((void*)r, 0, sizeof *r); r->rank = self->rank; r->active = true; r->st.MPI_SOURCE = MPI_ANY_SOURCE; r->st.MPI_TAG = MPI_ANY_TAG; return r; }
// collective operations that wait for everybody
static Coll* coll_enter(int kind, int ctx, const void* b, size_t n) {
  u64 k = ((u64)ctx << 40) | coll_seq[self->rank][ctx]++; Coll*& c = colls[k];
  if (!c) { c = new Coll(); c->kind = kind; c->n = 0; for (bool& x : c->in) x = false; }
  if (c->kind != kind) mpi_err("ranks call different collective operations");
  c->in[self->rank] = true; if (n) c->data[self->rank].assign((const char*)b, n);
  hb_release(c); if (++c->n == P.nranks) for (int i = 0; i < P.nranks; i++) wake_rank(i);
  H(0x92, mixh(k, kind)); return c;
}
static Coll* coll_all(int kind, int ctx, const void* b, size_t n) { Coll* c = coll_enter(kind, ctx, b, n); while (c->n < P.nranks) { progress(self->rank); block(c, W_MPI, next_arrival(self->rank)); } hb_acquire(c); return c; }
static void poll_done(bool hit) { // a polling call ends
  if (hit) { happened(); return; }
  account(); poll_idle(false); new_slice();
}
static u64 next_arrivals() { u64 t = INF; for (int i = 0; i < P.nranks; i++) { u64 x = next_arrival(i); if (x < t) t = x; } return t; }
static bool bad_rank(int r, const char* fn) { if (r < 0 || r >= P.nranks) { mpi_err("%s with invalid rank %d", fn, r); return true; } return false; }
extern "C" {
int MPI_Initialized(int* f) { *f = self ? mpi_init[self->rank] : 0; return 0; }
int MPI_Finalized(int* f) { *f = self ? sh->finalized[self->rank] : 0; return 0; }
int MPI_Init_thread(int*, char***, int req, int* prov) { G g; int r = self->rank; if (mpi_init[r]) mpi_err("initialised twice"); mpi_init[r] = true; mpi_provided[r] = req; if (prov) *prov = req; point(0x81); return 0; }
int MPI_Init(int* a, char*** b) { return MPI_Init_thread(a, b, MPI_THREAD_SINGLE, nullptr); }
int MPI_Query_thread(int* p) { *p = mpi_provided[self->rank]; return 0; }
int MPI_Is_thread_main(int* f) { *f = self->is_main; return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = self->rank; return 0; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = P.nranks; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_test_inter(MPI_Comm, int* f) { *f = 0; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { G g; mpi_enter("MPI_Comm_dup"); int parent = cid(c); (void)parent; int id = 1 + (int)dup_seq[self->rank]++; *d = (MPI_Comm)malloc(64); (*comms)[(void*)*d] = id; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { G g; *r = a == b ? MPI_IDENT : MPI_CONGRUENT; return 0; }
int MPI_Comm_get_attr(MPI_Comm, int key, void* v, int* f) { static int ub = 0x7fffffff; *f = key == MPI_TAG_UB; if (*f) *(void**)v = &ub; return 0; }
int MPI_Comm_get_parent(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char* n, int* l) { strcpy(n, "Open MPI v4.1.6"); *l = (int)strlen(n); return 0; }
int MPI_Error_string(int e, char* s, int* l) { *l = snprintf(s, 64, "simulated MPI error %d", e); return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { void* q = malloc(n ? n : 1); if (!q) return MPI_ERR_NO_MEM; *(void**)p = q; return 0; }
int MPI_Free_mem(void* p) { free(p); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* t) { G g; size_t s = tsize(o) * n; *t = (MPI_Datatype)malloc(64); (*dtypes)[(void*)*t] = s; return 0; }
int MPI_Type_commit(MPI_Datatype*) { return 0; }
int MPI_Type_free(MPI_Datatype* t) { *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int* n) { G g; *n = (int)tsize(t); return 0; }
int MPI_Pack_size(int c, MPI_Datatype t, MPI_Comm, int* n) { G g; *n = (int)(c * tsize(t)); return 0; }
int MPI_Pack(const void* in, int c, MPI_Datatype t, void* out, int osz, int* pos, MPI_Comm) { G g; size_t n = c * tsize(t); if (*pos + n > (size_t)osz) return MPI_ERR_TRUNCATE; memcpy((char*)out + *pos, in, n); *pos += (int)n; return 0; }
int MPI_Unpack(const void* in, int isz, int* pos, void* out, int c, MPI_Datatype t, MPI_Comm) { G g; size_t n = c * tsize(t); if (*pos + n > (size_t)isz) { mpi_err("unpacked beyond the end of a message"); return MPI_ERR_TRUNCATE; } memcpy(out, (const char*)in + *pos, n); *pos += (int)n; return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { G g; size_t k = tsize(t); *n = s->_ucount % k ? MPI_UNDEFINED : (int)(s->_ucount / k); return 0; }
int MPI_Get_elements(const MPI_Status* s, MPI_Datatype t, int* n) { return MPI_Get_count(s, t, n); }
static int send_(const char* fn, const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm, int mode) {
  G g; mpi_enter(fn); if (dst == MPI_PROC_NULL) return 0; if (bad_rank(dst, fn)) return MPI_ERR_RANK; if (tag < 0) { mpi_err("negative tag"); return MPI_ERR_TAG; }
  Msg* m = post(dst, tag, 2 * cid(cm), b, c * tsize(t), mode);
  if (m->rdv) wait_taken(m);
  return 0;
}
int MPI_Send(const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm) { return send_("MPI_Send", b, c, t, dst, tag, cm, SM_STD); }
int MPI_Ssend(const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm) { return send_("MPI_Ssend", b, c, t, dst, tag, cm, SM_SYNC); }
int MPI_Rsend(const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm) { return send_("MPI_Rsend", b, c, t, dst, tag, cm, SM_STD); }
int MPI_Bsend(const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm) { return send_("MPI_Bsend", b, c, t, dst, tag, cm, SM_BUF); }
int MPI_Buffer_attach(void*, int) { return 0; }
int MPI_Buffer_detach(void*, int*) { return 0; }
int MPI_Recv(void* b, int c, MPI_Datatype t, int src, int tag, MPI_Comm cm, MPI_Status* st) {
  G g; mpi_enter("MPI_Recv"); if (src == MPI_PROC_NULL) { empty_status(st); return 0; } if (src != MPI_ANY_SOURCE && bad_rank(src, "MPI_Recv")) return MPI_ERR_RANK; Msg* m = wait_msg(src, tag, 2 * cid(cm)); return deliver(m, b, c * tsize(t), st);
}
int MPI_Probe(int src, int tag, MPI_Comm cm, MPI_Status* st) { G g; mpi_enter("MPI_Probe"); set_status(st, wait_msg(src, tag, 2 * cid(cm))); return 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm cm, int* f, MPI_Status* st) { G g; mpi_enter("MPI_Iprobe"); Msg* m = find_msg(self->rank, src, tag, 2 * cid(cm)); *f = m != nullptr; if (m) set_status(st, m); poll_done(m); return 0; }
int MPI_Mprobe(int src, int tag, MPI_Comm cm, MPI_Message* mm, MPI_Status* st) { G g; mpi_enter("MPI_Mprobe"); Msg* m = wait_msg(src, tag, 2 * cid(cm)); set_status(st, m); take(m); hb_acquire(m); *mm = (MPI_Message)m; return 0; }
int MPI_Improbe(int src, int tag, MPI_Comm cm, int* f, MPI_Message* mm, MPI_Status* st) { G g; mpi_enter("MPI_Improbe"); Msg* m = find_msg(self->rank, src, tag, 2 * cid(cm)); *f = m != nullptr; if (m) { set_status(st, m); take(m); hb_acquire(m); *mm = (MPI_Message)m; } poll_done(m); return 0; }
int MPI_Mrecv(void* b, int c, MPI_Datatype t, MPI_Message* mm, MPI_Status* st) { G g; mpi_enter("MPI_Mrecv"); Msg* m = (Msg*)*mm; set_status(st, m); *mm = MPI_MESSAGE_NULL; return copy_out(m, b, c * tsize(t)); }
int MPI_Imrecv(void* b, int c, MPI_Datatype t, MPI_Message* mm, MPI_Request* rq) { G g; mpi_enter("MPI_Imrecv"); Req* r = new_req(); r->recv = r->done = true; r->m = (Msg*)*mm; set_status(&r->st, r->m); *mm = MPI_MESSAGE_NULL; *rq = (MPI_Request)r; return copy_out(r->m, b, c * tsize(t)); }
static int isend_(const char* fn, const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm, MPI_Request* rq, int mode) {
  G g; mpi_enter(fn); Req* r = new_req(); *rq = (MPI_Request)r; if (dst == MPI_PROC_NULL) { r->done = true; return 0; } if (bad_rank(dst, fn)) return MPI_ERR_RANK;
  r->m = post(dst, tag, 2 * cid(cm), b, c * tsize(t), mode); return 0;
}
int MPI_Isend(const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm, MPI_Request* rq) { return isend_("MPI_Isend", b, c, t, dst, tag, cm, rq, SM_STD); }
int MPI_Issend(const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm, MPI_Request* rq) { return isend_("MPI_Issend", b, c, t, dst, tag, cm, rq, SM_SYNC); }
int MPI_Irsend(const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm, MPI_Request* rq) { return isend_("MPI_Irsend", b, c, t, dst, tag, cm, rq, SM_STD); }
int MPI_Ibsend(const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm, MPI_Request* rq) { return isend_("MPI_Ibsend", b, c, t, dst, tag, cm, rq, SM_BUF); }
int MPI_Irecv(void* b, int c, MPI_Datatype t, int src, int tag, MPI_Comm cm, MPI_Request* rq) {
  G g; mpi_enter("MPI_Irecv"); Req* r = new_req(); r->recv = true; r->buf = b; r->cap = c * tsize(t); r->src = src; r->tag = tag; r->ctx = 2 * cid(cm); *rq = (MPI_Request)r;
  if (src == MPI_PROC_NULL) { r->done = true; return 0; }
  Msg* m = find_msg(self->rank, src, tag, r->ctx); if (m) bind(r, m); else posted[self->rank].push_back(r); return 0;
}
int MPI_Sendrecv(const void* sb, int sc, MPI_Datatype stt, int dst, int stag, void* rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm cm, MPI_Status* st) {
  MPI_Request q[2]; int e = MPI_Irecv(rb, rc, rt, src, rtag, cm, q); if (!e) e = MPI_Isend(sb, sc, stt, dst, stag, cm, q + 1); if (e) return e;
  G g; for (int i = 1; i >= 0; i--) { while (!req_ready((Req*)q[i])) block(nullptr, W_MPI, req_wake((Req*)q[i])); req_end(q + i, i ? nullptr : st); } return 0;
}
int MPI_Send_init(const void* b, int c, MPI_Datatype t, int dst, int tag, MPI_Comm cm, MPI_Request* rq) { G g; mpi_enter("MPI_Send_init"); Req* r = new_req(); r->persistent = true; r->active = false; r->buf = (void*)b; r->cap = c * tsize(t); r->src = dst; r->tag = tag; r->ctx = 2 * cid(cm); *rq = (MPI_Request)r; return 0; }
int MPI_Recv_init(void* b, int c, MPI_Datatype t, int src, int tag, MPI_Comm cm, MPI_Request* rq) { G g; mpi_enter("MPI_Recv_init"); Req* r = new_req(); r->persistent = r->recv = true; r->active = false; r->buf = b; r->cap = c * tsize(t); r->src = src; r->tag = tag; r->ctx = 2 * cid(cm); *rq = (MPI_Request)r; return 0; }
int MPI_Start(MPI_Request* rq) {
  G g; mpi_enter("MPI_Start"); Req* r = (Req*)*rq; r->active = true; r->done = false; r->m = nullptr;
  if (r->recv) { Msg* m = find_msg(self->rank, r->src, r->tag, r->ctx); if (m) bind(r, m); else posted[self->rank].push_back(r); }
  else { if (bad_rank(r->src, "MPI_Start")) return MPI_ERR_RANK; r->m = post(r->src, r->tag, r->ctx, r->buf, r->cap, SM_STD); }
  return 0;
}
int MPI_Startall(int n, MPI_Request* rq) { for (int i = 0; i < n; i++) MPI_Start(rq + i); return 0; }
static MPI_Status* sta(MPI_Status* st, int i) { return st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i; }
int MPI_Wait(MPI_Request* rq, MPI_Status* st) { G g; mpi_enter("MPI_Wait"); if (*rq == MPI_REQUEST_NULL) { empty_status(st); return 0; } Req* r = (Req*)*rq; while (!req_ready(r)) block(nullptr, W_MPI, req_wake(r)); req_end(rq, st); return 0; }
int MPI_Test(MPI_Request* rq, int* f, MPI_Status* st) { G g; mpi_enter("MPI_Test"); if (*rq == MPI_REQUEST_NULL) { *f = 1; empty_status(st); return 0; } *f = req_ready((Req*)*rq); if (*f) req_end(rq, st); poll_done(*f); return 0; }
int MPI_Request_get_status(MPI_Request rq, int* f, MPI_Status* st) { G g; mpi_enter("MPI_Request_get_status"); if (rq == MPI_REQUEST_NULL) { *f = 1; empty_status(st); return 0; } *f = req_ready((Req*)rq); if (*f && st && st != MPI_STATUS_IGNORE) *st = ((Req*)rq)->st; poll_done(*f); return 0; }
int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(rq + i, sta(st, i)); return 0; }
int MPI_Testall(int n, MPI_Request* rq, int* f, MPI_Status* st) { G g; mpi_enter("MPI_Testall"); *f = 1; for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL && !req_ready((Req*)rq[i])) *f = 0; if (*f) for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL) req_end(rq + i, sta(st, i)); else empty_status(sta(st, i)); poll_done(*f); return 0; }
static bool live_req(MPI_Request q) { return q != MPI_REQUEST_NULL && ((Req*)q)->active; }
static int any_(int n, MPI_Request* rq, int* ix, int* f, MPI_Status* st, bool wait) {
  while (true) {
    bool some = false; u64 w = INF;
    for (int i = 0; i < n; i++) if (live_req(rq[i])) { some = true; Req* r = (Req*)rq[i]; if (req_ready(r)) { *ix = i; *f = 1; req_end(rq + i, st); return 0; } u64 x = req_wake(r); if (x < w) w = x; }
    if (!some) { *ix = MPI_UNDEFINED; *f = 1; empty_status(st); return 0; }
    if (!wait) { *ix = MPI_UNDEFINED; *f = 0; return 0; }
    block(nullptr, W_MPI, w);
  }
}
int MPI_Waitany(int n, MPI_Request* rq, int* ix, MPI_Status* st) { G g; mpi_enter("MPI_Waitany"); int f; return any_(n, rq, ix, &f, st, true); }
int MPI_Testany(int n, MPI_Request* rq, int* ix, int* f, MPI_Status* st) { G g; mpi_enter("MPI_Testany"); any_(n, rq, ix, f, st, false); poll_done(*f); return 0; }
static int some_(int n, MPI_Request* rq, int* k, int* ix, MPI_Status* st, bool wait) {
  while (true) {
    bool some = false; u64 w = INF; *k = 0;
    for (int i = 0; i < n; i++) if (live_req(rq[i])) { some = true; Req* r = (Req*)rq[i]; if (req_ready(r)) { req_end(rq + i, sta(st, *k)); ix[(*k)++] = i; continue; } u64 x = req_wake(r); if (x < w) w = x; }
    if (!some) { *k = MPI_UNDEFINED; return 0; }
    if (*k || !wait) return 0;
    block(nullptr, W_MPI, w);
  }
}
int MPI_Waitsome(int n, MPI_Request* rq, int* k, int* ix, MPI_Status* st) { G g; mpi_enter("MPI_Waitsome"); return some_(n, rq, k, ix, st, true); }
int MPI_Testsome(int n, MPI_Request* rq, int* k, int* ix, MPI_Status* st) { G g; mpi_enter("MPI_Testsome"); some_(n, rq, k, ix, st, false); poll_done(*k); return 0; }
int MPI_Request_free(MPI_Request* rq) { *rq = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request* rq) {
  G g; mpi_enter("MPI_Cancel"); Req* r = (Req*)*rq; if (!r || req_ready(r)) return 0;
  if (r->recv) { auto& q = posted[r->rank]; q.erase(std::find(q.begin(), q.end(), r)); } else { auto& q = inbox[r->m->dst]; q.erase(std::find(q.begin(), q.end(), r->m)); r->m->taken = true; }
  r->done = r->cancelled = true; r->st._cancelled = 1; return 0;
}
int MPI_Test_cancelled(const MPI_Status* s, int* f) { *f = s->_cancelled; return 0; }
double MPI_Wtime() { G g; clock_point(); return (double)mono_now() / 1e9; }
double MPI_Wtick() { return 1e-9; }
// ---- collective operations
enum { CO_BARRIER = 1, CO_REDUCE, CO_ALLREDUCE, CO_GATHER, CO_ALLGATHER, CO_SCATTER, CO_ALLTOALL, CO_FINALIZE };
int MPI_Bcast(void* b, int c, MPI_Datatype t, int root, MPI_Comm cm) {
  G g; mpi_enter("MPI_Bcast"); if (bad_rank(root, "MPI_Bcast")) return MPI_ERR_ROOT; size_t n = c * tsize(t); int ctx = 2 * cid(cm) + 1, seq = (int)coll_seq[self->rank][ctx]++;
  if (self->rank == root) { for (int i = 0; i < P.nranks; i++) if (i != root) { Msg* m = post(i, seq, ctx, b, n, SM_STD); if (m->rdv) wait_taken(m); } return 0; }
  Msg* m = wait_msg(root, seq, ctx); if (m->data.size() != n) mpi_err("broadcast sizes differ"); return deliver(m, b, n, nullptr);
}
int MPI_Barrier(MPI_Comm cm) { G g; mpi_enter("MPI_Barrier"); coll_all(CO_BARRIER, 2 * cid(cm) + 1, nullptr, 0); return 0; }
int MPI_Ibarrier(MPI_Comm cm, MPI_Request* rq) { G g; mpi_enter("MPI_Ibarrier"); Req* r = new_req(); r->coll = coll_enter(CO_BARRIER, 2 * cid(cm) + 1, nullptr, 0); *rq = (MPI_Request)r; return 0; }
}
template <class X> static void comb(X* a, const X* b, int c, MPI_Op op) {
  for (int i = 0; i < c; i++) {
    X x = a[i], y = b[i];
    if (op == MPI_SUM) x = x + y; else if (op == MPI_PROD) x = x * y; else if (op == MPI_MIN) x = y < x ? y : x; else if (op == MPI_MAX) x = x < y ? y : x;
    else if (op == MPI_LAND) x = x && y; else if (op == MPI_LOR) x = x || y; else if (op == MPI_LXOR) x = !x != !y;
    else if (op == MPI_BAND) x = (X)((u64)x & (u64)y); else if (op == MPI_BOR) x = (X)((u64)x | (u64)y); else if (op == MPI_BXOR) x = (X)((u64)x ^ (u64)y);
    else mpi_err("unsupported reduction");
    a[i] = x;
  }
}
static void reduce_into(void* a, const void* b, int c, MPI_Datatype t, MPI_Op op) {
  if (t == MPI_FLOAT) comb((float*)a, (const float*)b, c, op); else if (t == MPI_DOUBLE) comb((double*)a, (const double*)b, c, op);
  else if (t == MPI_CXX_BOOL || t == MPI_C_BOOL) comb((bool*)a, (const bool*)b, c, op);
  else {
    bool s = t == MPI_INT || t == MPI_LONG || t == MPI_LONG_LONG_INT || t == MPI_SHORT || t == MPI_SIGNED_CHAR || t == MPI_CHAR;
    switch (tsize(t)) {
      case 1: s ? comb((int8_t*)a, (const int8_t*)b, c, op) : comb((u8*)a, (const u8*)b, c, op); break;
      case 2: s ? comb((int16_t*)a, (const int16_t*)b, c, op) : comb((u16*)a, (const u16*)b, c, op); break;
      case 4: s ? comb((int32_t*)a, (const int32_t*)b, c, op) : comb((u32*)a, (const u32*)b, c, op); break;
      case 8: s ? comb((i64*)a, (const i64*)b, c, op) : comb((u64*)a, (const u64*)b, c, op); break;
      default: mpi_err("unsupported reduction");
    }
  }
}
extern "C" {
static int reduce_(int kind, const void* in, void* out, int c, MPI_Datatype t, MPI_Op op, int root, MPI_Comm cm) {
  size_t n = c * tsize(t); Coll* k = coll_all(kind, 2 * cid(cm) + 1, in == MPI_IN_PLACE ? out : in, n);
  if (root >= 0 && self->rank != root) return 0;
  std::string a = k->data[0]; for (int i = 0; i < P.nranks; i++) { if (k->data[i].size() != n) { mpi_err("reduction sizes differ"); return MPI_ERR_COUNT; } if (i) reduce_into(&a[0], k->data[i].data(), c, t, op); }
  memcpy(out, a.data(), n); return 0;
}
int MPI_Reduce(const void* in, void* out, int c, MPI_Datatype t, MPI_Op op, int root, MPI_Comm cm) { G g; mpi_enter("MPI_Reduce"); return reduce_(CO_REDUCE, in, out, c, t, op, root, cm); }
int MPI_Allreduce(const void* in, void* out, int c, MPI_Datatype t, MPI_Op op, MPI_Comm cm) { G g; mpi_enter("MPI_Allreduce"); return reduce_(CO_ALLREDUCE, in, out, c, t, op, -1, cm); }
static int gather_(int kind, const void* in, int sc, MPI_Datatype stt, void* out, const int* rcs, const int* dis, int rc, MPI_Datatype rt, int root, MPI_Comm cm) {
  bool ip = in == MPI_IN_PLACE; size_t rs = root < 0 || self->rank == root ? tsize(rt) : 0; int me = self->rank;
  const char* src = ip ? (const char*)out + rs * (dis ? dis[me] : rc * me) : (const char*)in; size_t n = ip ? rs * (rcs ? rcs[me] : rc) : sc * tsize(stt);
  Coll* k = coll_all(kind, 2 * cid(cm) + 1, src, n);
  if (root >= 0 && me != root) return 0;
  for (int i = 0; i < P.nranks; i++) { if (ip && i == me) continue; size_t room = rs * (rcs ? rcs[i] : rc); if (k->data[i].size() > room) { mpi_err("gathered data truncated"); return MPI_ERR_TRUNCATE; } memcpy((char*)out + rs * (dis ? dis[i] : rc * i), k->data[i].data(), k->data[i].size()); }
  return 0;
}
int MPI_Gather(const void* in, int sc, MPI_Datatype stt, void* out, int rc, MPI_Datatype rt, int root, MPI_Comm cm) { G g; mpi_enter("MPI_Gather"); return gather_(CO_GATHER, in, sc, stt, out, nullptr, nullptr, rc, rt, root, cm); }
int MPI_Gatherv(const void* in, int sc, MPI_Datatype stt, void* out, const int* rcs, const int* dis, MPI_Datatype rt, int root, MPI_Comm cm) { G g; mpi_enter("MPI_Gatherv"); return gather_(CO_GATHER, in, sc, stt, out, rcs, dis, 0, rt, root, cm); }
int MPI_Allgather(const void* in, int sc, MPI_Datatype stt, void* out, int rc, MPI_Datatype rt, MPI_Comm cm) { G g; mpi_enter("MPI_Allgather"); return gather_(CO_ALLGATHER, in, sc, stt, out, nullptr, nullptr, rc, rt, -1, cm); }
int MPI_Allgatherv(const void* in, int sc, MPI_Datatype stt, void* out, const int* rcs, const int* dis, MPI_Datatype rt, MPI_Comm cm) { G g; mpi_enter("MPI_Allgatherv"); return gather_(CO_ALLGATHER, in, sc, stt, out, rcs, dis, 0, rt, -1, cm); }
static int scatter_(const void* in, const int* scs, const int* dis, int sc, MPI_Datatype stt, void* out, int rc, MPI_Datatype rt, int root, MPI_Comm cm) {
  int me = self->rank; std::string all; size_t ss = me == root ? tsize(stt) : 0;
  if (me == root) for (int i = 0; i < P.nranks; i++) { u64 l = ss * (scs ? scs[i] : sc); all.append((const char*)&l, 8); all.append((const char*)in + ss * (dis ? dis[i] : sc * i), l); }
  Coll* k = coll_all(CO_SCATTER, 2 * cid(cm) + 1, all.data(), all.size());
  if (out == MPI_IN_PLACE) return 0;
  const std::string& a = k->data[root]; size_t p = 0; u64 l = 0;
  for (int i = 0;; i++) { memcpy(&l, a.data() + p, 8); p += 8; if (i == me) break; p += l; }
  if (l > rc * tsize(rt)) { mpi_err("scattered data truncated"); return MPI_ERR_TRUNCATE; }
  memcpy(out, a.data() + p, l); return 0;
}
int MPI_Scatter(const void* in, int sc, MPI_Datatype stt, void* out, int rc, MPI_Datatype rt, int root, MPI_Comm cm) { G g; mpi_enter("MPI_Scatter"); return scatter_(in, nullptr, nullptr, sc, stt, out, rc, rt, root, cm); }
int MPI_Scatterv(const void* in, const int* scs, const int* dis, MPI_Datatype stt, void* out, int rc, MPI_Datatype rt, int root, MPI_Comm cm) { G g; mpi_enter("MPI_Scatterv"); return scatter_(in, scs, dis, 0, stt, out, rc, rt, root, cm); }
int MPI_Finalize() {
  G g; mpi_enter("MPI_Finalize"); coll_all(CO_FINALIZE, 1, nullptr, 0);
  int r = self->rank;
  for (Msg* m : inbox[r]) if (!m->taken) { mpi_err("rank %d finalised with an unreceived message from rank %d (tag %d, %zu bytes)", r, m->src, m->tag, m->data.size()); break; }
  sh->finalized[r] = 1; return 0;
}
int MPI_Abort(MPI_Comm, int code) { G g; account(); point(0x82); sh->exit_code[self->rank] = code ? code : 1; sh->exited[self->rank] = 1; sh->aborted[self->rank] = 2; finish(ST_JOBKILL); }
}
