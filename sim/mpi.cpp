// Simulated MPI library: communicators, collectives, messages, one-sided communication.
#include "mpi.hpp"
#include "plat.hpp"
#include <deque>
#include <memory>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

// The global objects of the MPI library (only their addresses are used)
struct ompi_predefined_communicator_t { char x[512]; };
struct ompi_predefined_group_t { char x[256]; };
struct ompi_predefined_request_t { char x[256]; };
struct ompi_predefined_message_t { char x[256]; };
struct ompi_predefined_op_t { char x[512]; };
struct ompi_predefined_datatype_t { char x[512]; };
struct ompi_predefined_errhandler_t { char x[512]; };
struct ompi_predefined_win_t { char x[512]; };
struct ompi_predefined_file_t { char x[512]; };
struct ompi_predefined_info_t { char x[512]; };
extern "C" {
#define COMMS(X) X(ompi_mpi_comm_world) X(ompi_mpi_comm_self) X(ompi_mpi_comm_null)
#define X(n) struct ompi_predefined_communicator_t n;
COMMS(X)
#undef X
struct ompi_predefined_group_t ompi_mpi_group_empty, ompi_mpi_group_null;
struct ompi_predefined_request_t ompi_request_null;
struct ompi_predefined_message_t ompi_message_null, ompi_message_no_proc;
struct ompi_predefined_win_t ompi_mpi_win_null;
struct ompi_predefined_file_t ompi_mpi_file_null;
struct ompi_predefined_info_t ompi_mpi_info_null, ompi_mpi_info_env;
struct ompi_predefined_errhandler_t ompi_mpi_errhandler_null, ompi_mpi_errors_are_fatal, ompi_mpi_errors_return, ompi_mpi_errors_abort;
#define OPS(X) X(null) X(max) X(min) X(sum) X(prod) X(land) X(band) X(lor) X(bor) X(lxor) X(bxor) X(maxloc) X(minloc) X(replace) X(no_op)
#define X(n) struct ompi_predefined_op_t ompi_mpi_op_##n;
OPS(X)
#undef X
// name, C type
#define TYPES(X) X(char, char) X(signed_char, signed char) X(unsigned_char, unsigned char) X(byte, unsigned char) X(short, short) X(unsigned_short, unsigned short) \
	X(int, int) X(unsigned, unsigned) X(long, long) X(unsigned_long, unsigned long) X(long_long_int, long long) X(unsigned_long_long, unsigned long long) \
	X(float, float) X(double, double) X(long_double, long double) X(cxx_bool, bool) X(c_bool, bool) X(wchar, wchar_t) \
	X(int8_t, int8_t) X(uint8_t, uint8_t) X(int16_t, int16_t) X(uint16_t, uint16_t) X(int32_t, int32_t) X(uint32_t, uint32_t) X(int64_t, int64_t) X(uint64_t, uint64_t) \
	X(aint, MPI_Aint) X(offset, MPI_Offset) X(count, MPI_Count)
#define X(n, t) struct ompi_predefined_datatype_t ompi_mpi_##n;
TYPES(X)
#undef X
struct ompi_predefined_datatype_t ompi_mpi_datatype_null, ompi_mpi_packed, ompi_mpi_lb, ompi_mpi_ub;
}

namespace sim {

bool mpiSerial = false;
int mpiThreadLevel = MPI_THREAD_MULTIPLE;
std::map<int, MpiStats> mpiStats;

static int nRanks;
static std::vector<std::string> procNames;
static std::vector<int> insideMpi;       // per rank: threads of the library inside MPI (serial builds)
static std::vector<const char *> insideName;

// ---- handles -------------------------------------------------------------
enum { CLS_CHAR, CLS_INT, CLS_FLOAT };
struct Seg { long off; int len; char cls; };
struct TypeH { int owner; bool live, committed, builtin; long extent; size_t size; std::vector<Seg> segs; std::string name; };
struct CollOp;
struct CommCore { int id; std::vector<int> members; std::map<uint64_t, std::shared_ptr<CollOp>> ops; };
struct CommH { CommCore *core; int owner, me; uint64_t seq; bool live, user; Fiber *inColl; };
struct GroupH { int owner; bool live; std::vector<int> members; };

static std::vector<CommCore *> cores;
static std::vector<std::vector<CommH *>> worldH;  // [0]: world [1]: self per rank
static std::unordered_map<void *, CommH *> comms;
static std::unordered_map<void *, GroupH *> groups;
static std::unordered_map<void *, TypeH *> types;
static CommCore *worldCore;

static CommCore *newCore(const std::vector<int> &m)
{
	CommCore *c = new CommCore{(int)cores.size(), m, {}};
	cores.push_back(c);
	return c;
}
static CommH *newHandle(CommCore *core, int rank, bool user)
{
	int me = -1;
	for (size_t i = 0; i < core->members.size(); i++) if (core->members[i] == rank) me = i;
	if (me < 0) return nullptr;
	CommH *h = new CommH{core, rank, me, 0, true, user, nullptr};
	comms[h] = h;
	return h;
}

static void bad(const char *fn, const std::string &what) { violation("mpi-usage", fmt("%s: %s", fn, what.c_str())); }

static CommH *C(MPI_Comm c, const char *fn)
{
	if ((void *)c == &ompi_mpi_comm_world) return worldH[0][rank()];
	if ((void *)c == &ompi_mpi_comm_self) return worldH[1][rank()];
	if ((void *)c == &ompi_mpi_comm_null || !c) bad(fn, "null communicator");
	auto it = comms.find(c);
	if (it == comms.end()) bad(fn, "invalid communicator");
	if (!it->second->live) bad(fn, "communicator is already freed");
	if (it->second->owner != rank()) bad(fn, "communicator handle of another process");
	return it->second;
}
static GroupH *G(MPI_Group g, const char *fn)
{
	auto it = groups.find(g);
	if (it == groups.end()) bad(fn, "invalid group");
	if (!it->second->live) bad(fn, "group is already freed");
	if (it->second->owner != rank()) bad(fn, "group handle of another process");
	return it->second;
}
static TypeH *T(MPI_Datatype t, const char *fn, bool needCommit = true)
{
	auto it = types.find(t);
	if (it == types.end()) bad(fn, "invalid or null data type");
	TypeH *h = it->second;
	if (!h->live) bad(fn, "data type is already freed");
	if (!h->builtin && h->owner != rank()) bad(fn, "data type handle of another process");
	if (needCommit && !h->committed) bad(fn, "data type is not committed");
	return h;
}

struct MpiCall {
	const char *fn; bool mon;
	MpiCall(const char *f) : fn(f)
	{
		mon = cur && cur->depth == 0;
		if (cur) cur->depth++;
		if (mon) {
			trace("%s", f);
			int r = cur->rank;
			if (mpiSerial) {
				if (insideMpi[r]) violation("concurrent-mpi", fmt("%s is called while another thread of the process is inside %s, but MPI calls have to be serialised", f, insideName[r]));
				insideMpi[r]++; insideName[r] = f;
			}
			cur->inMpi = f;
		}
		point(P_SYNC);
	}
	~MpiCall()
	{
		point(P_SYNC);
		if (mon) { if (mpiSerial) insideMpi[cur->rank]--; cur->inMpi = nullptr; }
		if (cur) cur->depth--;
	}
};

// ---- data types ----------------------------------------------------------
static bool dense(const TypeH *t) { return t->segs.size() == 1 && t->segs[0].off == 0 && t->segs[0].len == (int)t->size && t->extent == (long)t->size; }

static void typeBounds(const TypeH *t, long count, long &lo, long &hi)
{
	lo = 0; hi = 0;
	if (count <= 0) return;
	long l = 0, h = 0; bool first = true;
	for (const Seg &s : t->segs) { if (first || s.off < l) l = s.off; if (first || s.off + s.len > h) h = s.off + s.len; first = false; }
	lo = l; hi = h + (count - 1) * t->extent;
	if (t->extent < 0) { lo = l + (count - 1) * t->extent; hi = h; }
}

// all pieces of count elements: fn(offset in memory, offset in the packed form, length)
template<class F> static void pieces(const TypeH *t, long count, F fn)
{
	if (dense(t)) { if (count > 0) fn(0L, 0L, (long)t->size * count); return; }
	long p = 0;
	for (long i = 0; i < count; i++)
		for (const Seg &s : t->segs) { fn(i * t->extent + s.off, p, (long)s.len); p += s.len; }
}

static std::vector<char> pack(const void *buf, long count, const TypeH *t, const char *who)
{
	std::vector<char> v(t->size * count);
	pieces(t, count, [&](long o, long p, long n) { checkRange((const char *)buf + o, n, false, who); memcpy(v.data() + p, (const char *)buf + o, n); });
	return v;
}
// [from, to) of the packed data
static void unpackPart(void *buf, long count, const TypeH *t, const char *data, long from, long to, const char *who, bool yields)
{
	pieces(t, count, [&](long o, long p, long n) {
		long a = std::max(p, from), b = std::min(p + n, to);
		if (a >= b) return;
		if (yields) yieldCopy((char *)buf + o + (a - p), data + a, b - a, who);
		else { checkRange((char *)buf + o + (a - p), b - a, true, who); memcpy((char *)buf + o + (a - p), data + a, b - a); }
	});
}
static void packPart(const void *buf, long count, const TypeH *t, char *data, long from, long to, const char *who)
{
	pieces(t, count, [&](long o, long p, long n) {
		long a = std::max(p, from), b = std::min(p + n, to);
		if (a >= b) return;
		checkRange((const char *)buf + o + (a - p), b - a, false, who);
		memcpy(data + a, (const char *)buf + o + (a - p), b - a);
	});
}
static uint64_t sumOf(const char *p, size_t n)
{
	uint64_t h = 1469598103934665603ull;
	for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
	return h;
}
static std::string signature(const TypeH *t)
{
	std::string s;
	for (const Seg &g : t->segs) s += fmt("%c%d ", g.cls, g.len);
	return s;
}

// ---- collectives ---------------------------------------------------------
struct CollArg { const void *s; void *r; long n, m; TypeH *st, *rt; MPI_Op op; int a, b; void *out; };
struct CollOp {
	const char *kind; std::string sig; std::vector<bool> here; std::vector<CollArg> args; int arrived = 0, left = 0; bool done = false; bool fail = false;
};

// Runs a collective operation; fn is executed once by the last rank that arrives
static int collective(CommH *h, const char *kind, const std::string &sig, CollArg arg, int faultKind, const std::function<void(CollOp &)> &fn)
{
	CommCore *core = h->core;
	if (h->inColl && h->inColl != cur)
		violation("concurrent-collective", fmt("two threads of one process are in collective operations (%s) on the same communicator at the same time", kind));
	h->inColl = cur;
	uint64_t seq = h->seq++;
	std::shared_ptr<CollOp> &slot = core->ops[seq];
	if (!slot) {
		slot = std::make_shared<CollOp>();
		slot->kind = kind; slot->sig = sig;
		slot->here.resize(core->members.size()); slot->args.resize(core->members.size());
	}
	std::shared_ptr<CollOp> op = slot;
	if (strcmp(op->kind, kind) || op->sig != sig)
		violation("collective-mismatch", fmt("collective operation %lu on a communicator: %s(%s) on one process, %s(%s) on another", (unsigned long)seq, op->kind, op->sig.c_str(), kind, sig.c_str()));
	op->here[h->me] = true; op->args[h->me] = arg;
	if (faultKind >= 0 && fault((FaultKind)faultKind)) op->fail = true;
	trace("%s #%lu on comm %d (%d of %zu)", kind, (unsigned long)seq, core->id, op->arrived + 1, core->members.size());
	if (++op->arrived == (int)core->members.size()) {
		memAnyRank = true; // the last process moves the data of all processes
		if (!op->fail && fn) fn(*op);
		memAnyRank = false;
		op->done = true;
		core->ops.erase(seq);
	}
	block([op] { return op->done; }, kind);
	h->inColl = nullptr;
	return op->fail ? MPI_ERR_OTHER : MPI_SUCCESS;
}

template<class V> static void opApply(V *acc, const V *x, long n, MPI_Op op, const char *fn)
{
	for (long i = 0; i < n; i++) {
		V a = acc[i], b = x[i], r = a;
		if ((void *)op == &ompi_mpi_op_max) r = a > b ? a : b;
		else if ((void *)op == &ompi_mpi_op_min) r = a < b ? a : b;
		else if ((void *)op == &ompi_mpi_op_sum) r = a + b;
		else if ((void *)op == &ompi_mpi_op_prod) r = a * b;
		else if ((void *)op == &ompi_mpi_op_land) r = (a != 0) && (b != 0);
		else if ((void *)op == &ompi_mpi_op_lor) r = (a != 0) || (b != 0);
		else if ((void *)op == &ompi_mpi_op_lxor) r = (a != 0) != (b != 0);
		else if ((void *)op == &ompi_mpi_op_replace) r = b;
		else if ((void *)op == &ompi_mpi_op_no_op) r = a;
		else if ((void *)op == &ompi_mpi_op_band) r = (V)((unsigned long)a & (unsigned long)b);
		else if ((void *)op == &ompi_mpi_op_bor) r = (V)((unsigned long)a | (unsigned long)b);
		else if ((void *)op == &ompi_mpi_op_bxor) r = (V)((unsigned long)a ^ (unsigned long)b);
		else bad(fn, "operation is not supported by the simulated MPI");
		acc[i] = r;
	}
}
static void applyOp(MPI_Datatype dt, char *acc, const char *x, long n, MPI_Op op, const char *fn)
{
#define X(name, t) if ((void *)dt == &ompi_mpi_##name) { opApply<t>((t *)acc, (const t *)x, n, op, fn); return; }
	X(char, char) X(signed_char, signed char) X(unsigned_char, unsigned char) X(byte, unsigned char) X(short, short) X(unsigned_short, unsigned short)
	X(int, int) X(unsigned, unsigned) X(long, long) X(unsigned_long, unsigned long) X(long_long_int, long long) X(unsigned_long_long, unsigned long long)
	X(int8_t, int8_t) X(uint8_t, uint8_t) X(int16_t, int16_t) X(uint16_t, uint16_t) X(int32_t, int32_t) X(uint32_t, uint32_t) X(int64_t, int64_t) X(uint64_t, uint64_t)
	X(float, float) X(double, double) X(cxx_bool, bool) X(c_bool, bool) X(aint, MPI_Aint)
#undef X
	bad(fn, "reduction of a derived data type");
}

// ---- messages ------------------------------------------------------------
struct Req;
struct Msg {
	CommCore *core; int src, dst, tag; // ranks in the communicator
	int wsrc, wdst;
	std::vector<char> data; std::string sig; long sigCount;
	bool sync, rendezvous, matched;
	const void *buf; long count; TypeH *type; uint64_t sum;
	uint64_t order;
};
struct Req {
	bool send, done, live, viaHandle; int owner;
	std::shared_ptr<Msg> msg;
	CommCore *core; int me, src, tag; void *buf; long count; TypeH *type; std::vector<char> saved;
	MPI_Status st; const char *fn; bool errTrunc;
};
static std::map<std::tuple<int, int, int>, std::deque<std::shared_ptr<Msg>>> inflight; // (destination, communicator, source)
static std::vector<std::deque<std::shared_ptr<Msg>>> arrived;
static std::vector<std::deque<Req *>> posted;
static std::unordered_map<void *, Req *> requests;
static uint64_t msgOrder;

static bool matches(const Msg &m, CommCore *core, int me, int src, int tag)
{
	return m.core == core && m.dst == me && (src == MPI_ANY_SOURCE || src == m.src) && (tag == MPI_ANY_TAG || tag == m.tag);
}

static void checkSendBuffer(Msg &m)
{
	if (m.count <= 0 || !m.buf) return;
	memAnyRank = true;
	std::vector<char> now = pack(m.buf, m.count, m.type, "pending send");
	memAnyRank = false;
	if (sumOf(now.data(), now.size()) != m.sum)
		violation("mpi-usage", fmt("the buffer of a pending send (tag %d, from process %d to %d) was modified", m.tag, m.wsrc, m.wdst));
}

// completes a receive with a message
static void match(Req *r, std::shared_ptr<Msg> m, bool yields)
{
	if (m->rendezvous) checkSendBuffer(*m);
	size_t cap = r->type->size * r->count;
	if (m->data.size() > cap)
		violation("mpi-usage", fmt("message truncated: %zu bytes sent with tag %d by process %d, receive buffer of %zu bytes (%s)", m->data.size(), m->tag, m->wsrc, cap, r->fn));
	if (m->data.size() && m->sig != signature(r->type) ) {
		// compare element-wise classes only if both are homogeneous
		if (r->type->segs.size() && m->data.size() % r->type->size) violation("mpi-usage", fmt("message of %zu bytes received with a data type of %zu bytes", m->data.size(), r->type->size));
	}
	r->msg = m;
	r->st.MPI_SOURCE = m->src; r->st.MPI_TAG = m->tag; r->st.MPI_ERROR = MPI_SUCCESS; r->st._cancelled = 0; r->st._ucount = m->data.size();
	// restore what the operation does not overwrite
	if (!r->saved.empty()) unpackPart(r->buf, r->count, r->type, r->saved.data(), m->data.size(), r->saved.size(), r->fn, false);
	if (m->data.size()) unpackPart(r->buf, r->count, r->type, m->data.data(), 0, m->data.size(), r->fn, yields);
	mpiStats[r->owner].recvs[m->data.size()]++;
	hashEvent((uint64_t)m->wsrc << 40 ^ (uint64_t)m->wdst << 32 ^ m->tag ^ sumOf(m->data.data(), m->data.size()));
	m->matched = true;
	r->done = true;
}

static void deliverTo(int dst)
{
	std::vector<std::deque<std::shared_ptr<Msg>> *> ch;
	for (auto it = inflight.lower_bound({dst, 0, 0}); it != inflight.end() && std::get<0>(it->first) == dst;) {
		if (it->second.empty()) { it = inflight.erase(it); continue; }
		ch.push_back(&it->second); ++it;
	}
	std::sort(ch.begin(), ch.end(), [](auto *a, auto *b) { return a->front()->order < b->front()->order; });
	uint32_t k = decide(K_NET, ch.size(), cfg.pNet);
	if (k) shr->faults[F_REORDER]++;
	std::shared_ptr<Msg> m = ch[k]->front(); ch[k]->pop_front();
	trace("deliver message from %d to %d, tag %d, %zu bytes", m->wsrc, m->wdst, m->tag, m->data.size());
	for (size_t i = 0; i < posted[dst].size(); i++) {
		Req *r = posted[dst][i];
		if (matches(*m, r->core, r->me, r->src, r->tag)) {
			posted[dst].erase(posted[dst].begin() + i);
			match(r, m, false);
			return;
		}
	}
	arrived[dst].push_back(m);
}
static bool canDeliver(int dst)
{
	for (auto it = inflight.lower_bound({dst, 0, 0}); it != inflight.end() && std::get<0>(it->first) == dst; ++it)
		if (!it->second.empty()) return true;
	return false;
}

static std::shared_ptr<Msg> sendMsg(CommH *h, const void *buf, int count, MPI_Datatype dt, int dest, int tag, bool sync, const char *fn)
{
	TypeH *t = T(dt, fn);
	if (dest < 0 || dest >= (int)h->core->members.size()) bad(fn, fmt("invalid destination %d in a communicator of %zu processes", dest, h->core->members.size()));
	if (tag < 0 || tag > 32767) bad(fn, fmt("invalid tag %d", tag));
	if (count < 0) bad(fn, "negative count");
	auto m = std::make_shared<Msg>();
	m->core = h->core; m->src = h->me; m->dst = dest; m->tag = tag; m->wsrc = h->owner; m->wdst = h->core->members[dest];
	m->data = pack(buf, count, t, fn); m->sig = signature(t);
	m->sync = sync; m->matched = false;
	m->rendezvous = sync || decide(K_EAGER, 2, cfg.pEager) == 1;
	if (m->rendezvous && !sync) shr->faults[F_RENDEZVOUS]++;
	m->buf = buf; m->count = count; m->type = t; m->sum = sumOf(m->data.data(), m->data.size());
	m->order = msgOrder++;
	trace("%s to %d tag %d comm %d%s", fn, m->wdst, tag, h->core->id, m->rendezvous ? " (rendezvous)" : "");
	inflight[{m->wdst, h->core->id, h->me}].push_back(m);
	return m;
}

static void checkRecv(CommH *h, int src, int tag, const char *fn)
{
	if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)h->core->members.size())) bad(fn, fmt("invalid source %d", src));
	if (tag != MPI_ANY_TAG && (tag < 0 || tag > 32767)) bad(fn, fmt("invalid tag %d", tag));
}

static Req *newRecv(CommH *h, void *buf, int count, MPI_Datatype dt, int src, int tag, const char *fn)
{
	TypeH *t = T(dt, fn);
	checkRecv(h, src, tag, fn);
	if (count < 0) bad(fn, "negative count");
	Req *r = new Req();
	r->send = false; r->done = false; r->live = true; r->owner = rank(); r->core = h->core; r->me = h->me; r->src = src; r->tag = tag;
	r->buf = buf; r->count = count; r->type = t; r->fn = fn;
	if (count && t->size) {
		r->saved = pack(buf, count, t, fn);
		std::vector<char> junk(r->saved.size(), (char)0xA5);
		unpackPart(buf, count, t, junk.data(), 0, junk.size(), fn, false);
	}
	auto &q = arrived[rank()];
	for (size_t i = 0; i < q.size(); i++)
		if (matches(*q[i], h->core, h->me, src, tag)) {
			auto m = q[i]; q.erase(q.begin() + i);
			match(r, m, true);
			return r;
		}
	posted[rank()].push_back(r);
	return r;
}

// ---- one-sided communication ---------------------------------------------
struct WinSide { char *base = nullptr; size_t size = 0; int disp = 1; bool set = false; };
struct WinH;
struct Rma {
	enum Kind { GET, PUT, FOP, CAS } kind;
	WinH *w; int target; long off; // byte offset
	void *local; long lcount; TypeH *lt; long tcount; TypeH *tt;
	void *result = nullptr; const void *cmp = nullptr; MPI_Datatype dt = nullptr; MPI_Op op = nullptr;
	size_t bytes; std::vector<char> data; uint64_t sum = 0; long lo, hi; // byte range at the target
	int stage = 0; size_t done = 0; bool localDone = false, complete = false, exclusive = false;
	Fiber *by;
};
struct Epoch { int target; bool exclusive, nocheck, granted; Fiber *by; std::vector<std::shared_ptr<Rma>> ops; };
struct WinCore { int id; CommCore *core; std::vector<WinSide> side; std::vector<int> excl; std::vector<std::multiset<int>> shared; std::vector<std::shared_ptr<Rma>> pending; int freed = 0; };
struct WinH { WinCore *core; int owner, me; bool live; std::map<int, std::unique_ptr<Epoch>> epochs; };
static std::unordered_map<void *, WinH *> wins;
static std::vector<WinCore *> winCores;

static WinH *W(MPI_Win w, const char *fn)
{
	if ((void *)w == &ompi_mpi_win_null || !w) bad(fn, "null window");
	auto it = wins.find(w);
	if (it == wins.end()) bad(fn, "invalid window");
	if (!it->second->live) bad(fn, "window is already freed");
	if (it->second->owner != rank()) bad(fn, "window handle of another process");
	return it->second;
}

static bool grantable(WinH *w, Epoch *e)
{
	WinCore *c = w->core;
	if (e->exclusive) return c->excl[e->target] < 0 && c->shared[e->target].empty();
	return c->excl[e->target] < 0;
}
static void grant(WinH *w, Epoch *e)
{
	WinCore *c = w->core;
	if (e->exclusive) c->excl[e->target] = w->me; else c->shared[e->target].insert(w->me);
	e->granted = true;
}
static void nocheckTest(WinH *w, Epoch *e)
{
	if (e->nocheck && !grantable(w, e)) violation("mpi-usage", "MPI_Win_lock with MPI_MODE_NOCHECK while a conflicting lock is held");
}

static Epoch *epochOf(WinH *w, int target, const char *fn)
{
	auto it = w->epochs.find(target);
	if (it == w->epochs.end()) bad(fn, fmt("no lock epoch is open for process %d", target));
	return it->second.get();
}

static void issue(WinH *w, std::shared_ptr<Rma> op, const char *fn)
{
	if (op->target < 0 || op->target >= (int)w->core->side.size()) bad(fn, fmt("invalid target %d", op->target));
	Epoch *e = epochOf(w, op->target, fn);
	WinSide &s = w->core->side[op->target];
	long lo, hi; typeBounds(op->tt, op->tcount, lo, hi);
	if (op->off + lo < 0 || op->off + hi > (long)s.size)
		bad(fn, fmt("access to bytes %ld..%ld of a window of %zu bytes", op->off + lo, op->off + hi, s.size));
	op->lo = op->off + lo; op->hi = op->off + hi;
	op->bytes = op->tt->size * op->tcount;
	if (op->bytes != op->lt->size * op->lcount) bad(fn, fmt("origin (%zu bytes) and target (%zu bytes) do not match", op->lt->size * op->lcount, op->bytes));
	op->by = cur; op->w = w; op->exclusive = e->exclusive;
	for (auto &p : w->core->pending) {
		if (p->complete || p->target != op->target || p->hi <= op->lo || op->hi <= p->lo) continue;
		bool accA = p->kind >= Rma::FOP, accB = op->kind >= Rma::FOP;
		if (accA && accB) continue;
		if (p->w != w && (p->exclusive || op->exclusive)) continue; // serialised by the lock of the window
		if (p->kind == Rma::GET && op->kind == Rma::GET) continue;
		violation("rma-conflict", fmt("%s overlaps a one-sided operation on the same data that is not complete", fn));
	}
	op->data.assign(op->bytes, 0);
	if (op->kind == Rma::GET) {
		std::vector<char> junk(op->bytes, (char)0xA5);
		unpackPart(op->local, op->lcount, op->lt, junk.data(), 0, junk.size(), fn, false);
		mpiStats[w->owner].gets[op->bytes]++;
	} else if (op->kind == Rma::PUT) {
		auto d = pack(op->local, op->lcount, op->lt, fn);
		op->sum = sumOf(d.data(), d.size());
	} else {
		checkRange(op->local, op->bytes, false, fn);
		op->sum = sumOf((char *)op->local, op->bytes);
		checkRange(op->result, op->bytes, true, fn);
		memset(op->result, 0xA5, op->bytes);
	}
	if (!op->bytes) { op->complete = op->localDone = true; return; }
	e->ops.push_back(op);
	w->core->pending.push_back(op);
	trace("%s target %d offset %ld bytes %zu", fn, op->target, op->off, op->bytes);
}

// can this operation make a step now?
static bool rmaReady(Epoch *e, size_t i)
{
	Rma &o = *e->ops[i];
	if (o.complete) return false;
	if (o.kind >= Rma::FOP) // accumulate operations of one origin on the same location are ordered
		for (size_t j = 0; j < i; j++)
			if (!e->ops[j]->complete && e->ops[j]->kind >= Rma::FOP && e->ops[j]->lo < o.hi && o.lo < e->ops[j]->hi) return false;
	return true;
}

static void rmaStep(Rma &o)
{
	WinSide &s = o.w->core->side[o.target];
	char *base = s.base + o.off;
	if (o.kind == Rma::GET || o.kind == Rma::PUT) {
		size_t rest = o.bytes - o.done, n = rest;
		bool fetch = o.stage == 0;
		if (o.bytes > 8) {
			uint32_t k = decide(K_RMA, 4, cfg.pRma);
			if (k) { n = std::max<size_t>(8, rest * k / 4 / 8 * 8); shr->faults[F_RMA_DELAY]++; }
		}
		n = std::min(n, rest);
		if (o.kind == Rma::GET) {
			if (fetch) packPart(base, o.tcount, o.tt, o.data.data(), o.done, o.done + n, "MPI_Get (target)");
			else unpackPart(o.local, o.lcount, o.lt, o.data.data(), o.done, o.done + n, "MPI_Get (origin)", false);
		} else {
			if (fetch) packPart(o.local, o.lcount, o.lt, o.data.data(), o.done, o.done + n, "MPI_Put (origin)");
			else unpackPart(base, o.tcount, o.tt, o.data.data(), o.done, o.done + n, "MPI_Put (target)", false);
		}
		o.done += n;
		if (o.done == o.bytes) {
			o.done = 0; o.stage++;
			if (o.kind == Rma::PUT && o.stage == 1) {
				if (sumOf(o.data.data(), o.bytes) != o.sum) violation("mpi-usage", "the origin buffer of a pending MPI_Put was modified");
				o.localDone = true;
			}
			if (o.stage == 2) {
				o.complete = o.localDone = true;
			}
		}
	} else {
		checkRange(base, o.bytes, true, "atomic operation (target)");
		if (o.result) checkRange(o.result, o.bytes, true, "atomic operation (origin)");
		checkRange(o.local, o.bytes, false, "atomic operation (origin)");
		if (sumOf((char *)o.local, o.bytes) != o.sum) violation("mpi-usage", "the origin buffer of a pending atomic operation was modified");
		std::vector<char> old(base, base + o.bytes);
		if (o.kind == Rma::FOP) applyOp(o.dt, base, (const char *)o.local, 1, o.op, "MPI_Fetch_and_op");
		else if (!memcmp(base, o.cmp, o.bytes)) memcpy(base, o.local, o.bytes);
		if (o.result) memcpy(o.result, old.data(), o.bytes);
		o.complete = o.localDone = true;
	}
	if (o.complete) {
		hashEvent((uint64_t)o.kind << 56 ^ (uint64_t)o.w->owner << 48 ^ (uint64_t)o.target << 40 ^ o.off ^ sumOf(o.data.data(), o.data.size()));
		auto &v = o.w->core->pending;
		for (size_t i = 0; i < v.size(); i++) if (v[i].get() == &o) { v.erase(v.begin() + i); break; }
	}
}

// progress engine of one rank
static std::vector<std::vector<WinH *>> winsOf; // per rank
static bool rmaCan(int r)
{
	for (WinH *w : winsOf[r])
		for (auto &e : w->epochs) {
			Epoch *ep = e.second.get();
			bool work = false;
			for (auto &o : ep->ops) if (!o->complete) work = true;
			if (!work) continue;
			if (ep->granted || grantable(w, ep)) return true;
		}
	return false;
}
static void rmaAct(int r)
{
	std::vector<std::pair<Epoch *, int>> cand; std::vector<WinH *> cw;
	for (WinH *w : winsOf[r])
		for (auto &e : w->epochs) {
			Epoch *ep = e.second.get();
			if (!ep->granted) {
				bool work = false;
				for (auto &o : ep->ops) if (!o->complete) work = true;
				if (work && grantable(w, ep)) { cand.push_back({ep, -1}); cw.push_back(w); }
				continue;
			}
			for (size_t i = 0; i < ep->ops.size(); i++) if (rmaReady(ep, i)) { cand.push_back({ep, (int)i}); cw.push_back(w); }
		}
	if (cand.empty()) return;
	uint32_t k = decide(K_RMA, cand.size(), cfg.pRma);
	if (k) shr->faults[F_RMA_REORDER]++;
	if (cand[k].second < 0) { nocheckTest(cw[k], cand[k].first); grant(cw[k], cand[k].first); return; }
	std::shared_ptr<Rma> keep = cand[k].first->ops[cand[k].second];
	rmaStep(*keep);
}

static void waitOps(WinH *w, Epoch *e, bool local, const char *what)
{
	block([e, local] { for (auto &o : e->ops) if (!(local ? o->localDone : o->complete)) return false; return true; }, what);
	if (!local) e->ops.clear();
	else e->ops.erase(std::remove_if(e->ops.begin(), e->ops.end(), [](auto &o) { return o->complete; }), e->ops.end());
}

// ---- set-up --------------------------------------------------------------
void mpiInit(int ranks, const std::vector<std::string> &names)
{
	nRanks = ranks; procNames = names;
	insideMpi.assign(ranks, 0); insideName.assign(ranks, "");
	arrived.assign(ranks, {}); posted.assign(ranks, {}); winsOf.assign(ranks, {});
	std::vector<int> all; for (int i = 0; i < ranks; i++) all.push_back(i);
	worldCore = newCore(all);
	worldH.assign(2, {});
	for (int i = 0; i < ranks; i++) worldH[0].push_back(newHandle(worldCore, i, true));
	for (int i = 0; i < ranks; i++) worldH[1].push_back(newHandle(newCore({i}), i, true));
#define X(n, t) types[&ompi_mpi_##n] = new TypeH{-1, true, true, true, (long)sizeof(t), sizeof(t), {Seg{0, (int)sizeof(t), std::is_floating_point<t>::value ? 'f' : 'i'}}, #n};
	TYPES(X)
#undef X
	for (int i = 0; i < ranks; i++) {
		addActor(i, fmt("net%d", i), [i] { return canDeliver(i); }, [i] { deliverTo(i); });
		addActor(i, fmt("rma%d", i), [i] { return rmaCan(i); }, [i] { rmaAct(i); });
	}
}

const std::string &mpiProcName(int r) { return procNames[r]; }
void *mpiMakeComm(const std::vector<int> &m) { return newCore(m); }
void *mpiCommHandle(void *core, int r)
{
	CommCore *c = (CommCore *)core;
	static std::map<std::pair<void *, int>, CommH *> cache;
	CommH *&h = cache[{core, r}];
	if (!h) h = newHandle(c, r, true);
	return h;
}

bool mpiDrained()
{
	for (auto &c : inflight) if (!c.second.empty()) return false;
	for (auto &a : arrived) if (!a.empty()) return false;
	return true;
}

MpiLive mpiLive(int r)
{
	MpiLive l;
	for (auto &c : comms) if (c.second->owner == r && c.second->live && !c.second->user) l.comms++;
	for (auto &w : wins) if (w.second->owner == r && w.second->live) l.wins++;
	for (auto &t : types) if (!t.second->builtin && t.second->owner == r && t.second->live) l.types++;
	for (auto &g : groups) if (g.second->owner == r && g.second->live) l.groups++;
	for (auto &q : requests) if (q.second->owner == r && q.second->live) l.requests++;
	return l;
}

void mpiFinish(bool strict)
{
	if (!strict) return;
	for (auto &c : inflight) for (auto &m : c.second)
		violation("lost-message", fmt("a message (tag %d) from process %d to %d was never received", m->tag, m->wsrc, m->wdst));
	for (auto &a : arrived) for (auto &m : a)
		violation("lost-message", fmt("a message (tag %d) from process %d to %d was never received", m->tag, m->wsrc, m->wdst));
	for (auto &p : posted) for (auto *r : p)
		violation("lost-message", fmt("a receive (tag %d) on process %d was never matched", r->tag, r->owner));
	for (CommCore *c : cores) if (!c->ops.empty())
		violation("collective-mismatch", fmt("%s was not called on all processes of a communicator", c->ops.begin()->second->kind));
}

} // namespace sim

using namespace sim;

extern "C" {

int MPI_Init(int *, char ***) { return MPI_SUCCESS; }
int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = mpiThreadLevel; return MPI_SUCCESS; }
int MPI_Initialized(int *f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int *f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Query_thread(int *p) { *p = mpiThreadLevel; return MPI_SUCCESS; }
int MPI_Is_thread_main(int *p) { *p = cur && cur->thread == 0; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int e) { abortRun(fmt("MPI_Abort(%d)", e)); }
double MPI_Wtime() { return simClock * 1e-7; }
double MPI_Wtick() { return 1e-7; }
int MPI_Error_string(int, char *s, int *l) { strcpy(s, "error"); *l = 5; return MPI_SUCCESS; }
int MPI_Error_class(int e, int *c) { *c = e; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler) { return MPI_SUCCESS; }

int MPI_Get_processor_name(char *n, int *l)
{
	MpiCall c("MPI_Get_processor_name");
	const std::string &s = procNames[rank()];
	strcpy(n, s.c_str()); *l = s.size();
	return MPI_SUCCESS;
}

int MPI_Comm_rank(MPI_Comm c, int *r) { MpiCall m(__func__); *r = C(c, __func__)->me; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *r) { MpiCall m(__func__); *r = C(c, __func__)->core->members.size(); return MPI_SUCCESS; }

int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n)
{
	MpiCall m(__func__); CommH *h = C(c, __func__);
	CollArg a{}; a.out = n;
	return collective(h, "MPI_Comm_dup", "", a, F_COMM_DUP, [h](CollOp &op) {
		CommCore *nc = newCore(h->core->members);
		for (size_t i = 0; i < op.args.size(); i++) *(MPI_Comm *)op.args[i].out = (MPI_Comm)newHandle(nc, nc->members[i], false);
	});
}
int MPI_Comm_free(MPI_Comm *c)
{
	MpiCall m(__func__); CommH *h = C(*c, __func__);
	if (h->core == worldCore || h->core->members.empty() || (void *)*c == &ompi_mpi_comm_self) bad(__func__, "predefined communicator");
	// collective, but does not have to synchronise
	uint64_t seq = h->seq++;
	auto &slot = h->core->ops[seq];
	if (!slot) { slot = std::make_shared<CollOp>(); slot->kind = "MPI_Comm_free"; }
	else if (strcmp(slot->kind, "MPI_Comm_free")) violation("collective-mismatch", fmt("MPI_Comm_free on one process, %s on another", slot->kind));
	if (++slot->arrived == (int)h->core->members.size()) h->core->ops.erase(seq);
	if (h->inColl) violation("mpi-usage", "communicator freed while a collective operation is under way");
	for (Req *r : posted[rank()]) if (r->core == h->core) violation("mpi-usage", "communicator freed while a receive is pending");
	h->live = false;
	*c = MPI_COMM_NULL;
	return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *n)
{
	MpiCall m(__func__); CommH *h = C(c, __func__);
	if (color < 0 && color != MPI_UNDEFINED) bad(__func__, fmt("negative colour %d", color));
	CollArg a{}; a.out = n; a.a = color; a.b = key;
	return collective(h, "MPI_Comm_split", "", a, -1, [h](CollOp &op) {
		std::map<int, std::vector<std::pair<int, int>>> by;
		for (size_t i = 0; i < op.args.size(); i++)
			if (op.args[i].a == MPI_UNDEFINED) *(MPI_Comm *)op.args[i].out = MPI_COMM_NULL;
			else by[op.args[i].a].push_back({op.args[i].b, (int)i});
		for (auto &g : by) {
			std::sort(g.second.begin(), g.second.end());
			std::vector<int> mem;
			for (auto &x : g.second) mem.push_back(h->core->members[x.second]);
			CommCore *nc = newCore(mem);
			for (auto &x : g.second) *(MPI_Comm *)op.args[x.second].out = (MPI_Comm)newHandle(nc, h->core->members[x.second], false);
		}
	});
}
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *n)
{
	MpiCall m(__func__); CommH *h = C(c, __func__);
	CollArg a{}; a.out = n; a.b = key;
	return collective(h, "MPI_Comm_split_type", "", a, -1, [h](CollOp &op) {
		std::map<std::string, std::vector<std::pair<int, int>>> by;
		for (size_t i = 0; i < op.args.size(); i++) by[procNames[h->core->members[i]]].push_back({op.args[i].b, (int)i});
		for (auto &g : by) {
			std::sort(g.second.begin(), g.second.end());
			std::vector<int> mem;
			for (auto &x : g.second) mem.push_back(h->core->members[x.second]);
			CommCore *nc = newCore(mem);
			for (auto &x : g.second) *(MPI_Comm *)op.args[x.second].out = (MPI_Comm)newHandle(nc, h->core->members[x.second], false);
		}
	});
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g)
{
	MpiCall m(__func__); CommH *h = C(c, __func__);
	GroupH *x = new GroupH{rank(), true, h->core->members};
	groups[x] = x; *g = (MPI_Group)x;
	return MPI_SUCCESS;
}
int MPI_Group_free(MPI_Group *g) { MpiCall m(__func__); G(*g, __func__)->live = false; *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
int MPI_Group_size(MPI_Group g, int *n) { MpiCall m(__func__); *n = G(g, __func__)->members.size(); return MPI_SUCCESS; }
int MPI_Group_rank(MPI_Group g, int *n) { MpiCall m(__func__); auto &v = G(g, __func__)->members; auto it = std::find(v.begin(), v.end(), rank()); *n = it == v.end() ? MPI_UNDEFINED : it - v.begin(); return MPI_SUCCESS; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
{
	MpiCall m(__func__); GroupH *ga = G(a, __func__), *gb = G(b, __func__);
	for (int i = 0; i < n; i++) {
		checkRange(ra + i, 4, false, __func__); checkRange(rb + i, 4, true, __func__);
		if (ra[i] < 0 || ra[i] >= (int)ga->members.size()) bad(__func__, fmt("rank %d is not in the group", ra[i]));
		auto it = std::find(gb->members.begin(), gb->members.end(), ga->members[ra[i]]);
		rb[i] = it == gb->members.end() ? MPI_UNDEFINED : it - gb->members.begin();
	}
	return MPI_SUCCESS;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { MpiCall m(__func__); CommH *x = C(a, __func__), *y = C(b, __func__); *r = x == y ? MPI_IDENT : x->core->members == y->core->members ? MPI_CONGRUENT : MPI_UNEQUAL; return MPI_SUCCESS; }

static std::vector<void *> f2cTable;
MPI_Fint MPI_Comm_c2f(MPI_Comm c)
{
	Guard g;
	if ((void *)c == &ompi_mpi_comm_world) return 0;
	if ((void *)c == &ompi_mpi_comm_self) return 1;
	for (size_t i = 0; i < f2cTable.size(); i++) if (f2cTable[i] == c) return i + 10;
	f2cTable.push_back(c); return f2cTable.size() + 9;
}
MPI_Comm MPI_Comm_f2c(MPI_Fint f)
{
	Guard g;
	if (f == 0) return MPI_COMM_WORLD;
	if (f == 1) return MPI_COMM_SELF;
	if (f < 10 || f - 10 >= (int)f2cTable.size()) return MPI_COMM_NULL;
	return (MPI_Comm)f2cTable[f - 10];
}

int MPI_Barrier(MPI_Comm c) { MpiCall m(__func__); return collective(C(c, __func__), "MPI_Barrier", "", CollArg{}, -1, nullptr); }

static int reduceLike(const char *kind, CommH *h, const void *s, void *r, int n, MPI_Datatype dt, MPI_Op op, int root)
{
	TypeH *t = T(dt, kind);
	CollArg a{}; a.s = s; a.r = r; a.n = n; a.st = t; a.op = op;
	return collective(h, kind, fmt("%d x %s, op %p, root %d", n, t->name.c_str(), (void *)((char *)op - (char *)&ompi_mpi_op_null), root), a, -1, [=](CollOp &o) {
		std::vector<char> acc;
		for (auto &x : o.args) {
			const void *src = x.s == MPI_IN_PLACE ? x.r : x.s;
			auto v = pack(src, n, t, kind);
			if (acc.empty()) acc = v; else applyOp(dt, acc.data(), v.data(), n, op, kind);
		}
		for (size_t i = 0; i < o.args.size(); i++)
			if (root < 0 || (int)i == root) unpackPart(o.args[i].r, n, t, acc.data(), 0, acc.size(), kind, false);
	});
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) { MpiCall m(__func__); return reduceLike("MPI_Allreduce", C(c, __func__), s, r, n, dt, op, -1); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c) { MpiCall m(__func__); return reduceLike("MPI_Reduce", C(c, __func__), s, r, n, dt, op, root); }
int MPI_Bcast(void *b, int n, MPI_Datatype dt, int root, MPI_Comm c)
{
	MpiCall m(__func__); CommH *h = C(c, __func__); TypeH *t = T(dt, __func__);
	CollArg a{}; a.r = b; a.n = n; a.st = t;
	if (root < 0 || root >= (int)h->core->members.size()) bad(__func__, "invalid root");
	return collective(h, "MPI_Bcast", fmt("%zu bytes, root %d", n * t->size, root), a, -1, [=](CollOp &o) {
		auto v = pack(o.args[root].r, o.args[root].n, o.args[root].st, "MPI_Bcast");
		for (size_t i = 0; i < o.args.size(); i++) if ((int)i != root) unpackPart(o.args[i].r, o.args[i].n, o.args[i].st, v.data(), 0, v.size(), "MPI_Bcast", false);
	});
}
static int gatherLike(const char *kind, CommH *h, const void *s, int sn, MPI_Datatype sdt, void *r, int rn, MPI_Datatype rdt, int root)
{
	bool isRoot = root < 0 || root == h->me;
	TypeH *rt = isRoot ? T(rdt, kind) : nullptr;
	TypeH *st = s == MPI_IN_PLACE ? rt : T(sdt, kind);
	if (s == MPI_IN_PLACE) sn = rn;
	if (isRoot && sn * st->size != rn * rt->size) bad(kind, "send and receive counts differ");
	CollArg a{}; a.s = s; a.r = r; a.n = sn; a.m = rn; a.st = st; a.rt = rt;
	return collective(h, kind, fmt("%zu bytes, root %d", sn * st->size, root), a, -1, [=](CollOp &o) {
		for (size_t i = 0; i < o.args.size(); i++) {
			auto v = o.args[i].s == MPI_IN_PLACE ? pack((char *)o.args[i].r + i * o.args[i].m * o.args[i].rt->extent, o.args[i].m, o.args[i].rt, kind) : pack(o.args[i].s, o.args[i].n, o.args[i].st, kind);
			for (size_t j = 0; j < o.args.size(); j++)
				if ((root < 0 || (int)j == root) && !(i == j && o.args[i].s == MPI_IN_PLACE))
					unpackPart((char *)o.args[j].r + i * o.args[j].m * o.args[j].rt->extent, o.args[j].m, o.args[j].rt, v.data(), 0, v.size(), kind, false);
		}
	});
}
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { MpiCall m(__func__); return gatherLike("MPI_Allgather", C(c, __func__), s, sn, st, r, rn, rt, -1); }
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { MpiCall m(__func__); return gatherLike("MPI_Gather", C(c, __func__), s, sn, st, r, rn, rt, root); }

// messages
static int doSend(const char *fn, const void *b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c, bool sync)
{
	CommH *h = C(c, fn);
	auto m = sendMsg(h, b, n, dt, d, tag, sync, fn);
	point(P_SYNC);
	if (m->rendezvous) block([m] { return m->matched; }, fn);
	return MPI_SUCCESS;
}
int MPI_Send(const void *b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c) { MpiCall m(__func__); return doSend("MPI_Send", b, n, dt, d, tag, c, false); }
int MPI_Ssend(const void *b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c) { MpiCall m(__func__); return doSend("MPI_Ssend", b, n, dt, d, tag, c, true); }
int MPI_Rsend(const void *b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c) { MpiCall m(__func__); return doSend("MPI_Rsend", b, n, dt, d, tag, c, false); }
static int doIsend(const char *fn, const void *b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c, MPI_Request *q, bool sync)
{
	CommH *h = C(c, fn);
	Req *r = new Req(); r->send = true; r->live = true; r->done = false; r->owner = rank(); r->fn = fn;
	r->msg = sendMsg(h, b, n, dt, d, tag, sync, fn);
	requests[r] = r; *q = (MPI_Request)r;
	return MPI_SUCCESS;
}
int MPI_Isend(const void *b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c, MPI_Request *q) { MpiCall m(__func__); return doIsend("MPI_Isend", b, n, dt, d, tag, c, q, false); }
int MPI_Issend(const void *b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c, MPI_Request *q) { MpiCall m(__func__); return doIsend("MPI_Issend", b, n, dt, d, tag, c, q, true); }
int MPI_Recv(void *b, int n, MPI_Datatype dt, int s, int tag, MPI_Comm c, MPI_Status *st)
{
	MpiCall m(__func__); CommH *h = C(c, __func__);
	Req *r = newRecv(h, b, n, dt, s, tag, "MPI_Recv");
	if (!r->done) block([r] { return r->done; }, "MPI_Recv");
	if (st != MPI_STATUS_IGNORE) *st = r->st;
	delete r;
	return MPI_SUCCESS;
}
int MPI_Irecv(void *b, int n, MPI_Datatype dt, int s, int tag, MPI_Comm c, MPI_Request *q)
{
	MpiCall m(__func__); CommH *h = C(c, __func__);
	Req *r = newRecv(h, b, n, dt, s, tag, "MPI_Irecv");
	requests[r] = r; *q = (MPI_Request)r;
	return MPI_SUCCESS;
}
static Req *Q(MPI_Request q, const char *fn)
{
	auto it = requests.find(q);
	if (it == requests.end()) bad(fn, "invalid request");
	if (!it->second->live) bad(fn, "request is already completed");
	if (it->second->owner != rank()) bad(fn, "request of another process");
	return it->second;
}
static bool reqDone(Req *r)
{
	if (!r->send) return r->done;
	if (r->msg->rendezvous) return r->msg->matched;
	return true;
}
static void finishReq(MPI_Request *q, Req *r, MPI_Status *st)
{
	if (st != MPI_STATUS_IGNORE) { if (r->send) { memset(st, 0, sizeof *st); } else *st = r->st; }
	r->live = false; *q = MPI_REQUEST_NULL;
}
int MPI_Test(MPI_Request *q, int *f, MPI_Status *st)
{
	MpiCall m(__func__);
	if (*q == MPI_REQUEST_NULL) { *f = 1; return MPI_SUCCESS; }
	Req *r = Q(*q, __func__);
	checkRange(f, 4, true, __func__);
	if (reqDone(r)) { finishReq(q, r, st); *f = 1; }
	else { *f = 0; pollFailed("MPI_Test"); }
	return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request *q, MPI_Status *st)
{
	MpiCall m(__func__);
	if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
	Req *r = Q(*q, __func__);
	block([r] { return reqDone(r); }, "MPI_Wait");
	finishReq(q, r, st);
	return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st)
{
	MpiCall m(__func__);
	for (int i = 0; i < n; i++) {
		if (q[i] == MPI_REQUEST_NULL) continue;
		Req *r = Q(q[i], __func__);
		block([r] { return reqDone(r); }, "MPI_Waitall");
		finishReq(q + i, r, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i);
	}
	return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request *q) { MpiCall m(__func__); Q(*q, __func__)->live = false; *q = MPI_REQUEST_NULL; return MPI_SUCCESS; }
int MPI_Cancel(MPI_Request *q)
{
	MpiCall m(__func__); Req *r = Q(*q, __func__);
	if (!r->send && !r->done) {
		auto &p = posted[rank()];
		for (size_t i = 0; i < p.size(); i++) if (p[i] == r) { p.erase(p.begin() + i); r->done = true; r->st._cancelled = 1; break; }
	}
	return MPI_SUCCESS;
}
static bool probeMsg(CommH *h, int s, int tag, MPI_Status *st)
{
	for (auto &x : arrived[rank()])
		if (matches(*x, h->core, h->me, s, tag)) {
			if (st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = x->src; st->MPI_TAG = x->tag; st->MPI_ERROR = MPI_SUCCESS; st->_cancelled = 0; st->_ucount = x->data.size(); }
			return true;
		}
	return false;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *f, MPI_Status *st)
{
	MpiCall m(__func__); CommH *h = C(c, __func__); checkRecv(h, s, tag, __func__);
	*f = probeMsg(h, s, tag, st);
	if (!*f) pollFailed("MPI_Iprobe");
	return MPI_SUCCESS;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st)
{
	MpiCall m(__func__); CommH *h = C(c, __func__); checkRecv(h, s, tag, __func__);
	block([=] { return probeMsg(h, s, tag, MPI_STATUS_IGNORE); }, "MPI_Probe");
	probeMsg(h, s, tag, st);
	return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype dt, int *n) { MpiCall m(__func__); TypeH *t = T(dt, __func__, false); *n = t->size ? (st->_ucount % t->size ? MPI_UNDEFINED : st->_ucount / t->size) : 0; return MPI_SUCCESS; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sdt, int d, int stag, void *rb, int rn, MPI_Datatype rdt, int s, int rtag, MPI_Comm c, MPI_Status *st)
{
	MpiCall m(__func__); CommH *h = C(c, __func__);
	auto x = sendMsg(h, sb, sn, sdt, d, stag, false, __func__);
	Req *r = newRecv(h, rb, rn, rdt, s, rtag, "MPI_Sendrecv");
	block([=] { return r->done && (!x->rendezvous || x->matched); }, "MPI_Sendrecv");
	if (st != MPI_STATUS_IGNORE) *st = r->st;
	delete r; return MPI_SUCCESS;
}

// memory
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *p)
{
	MpiCall m(__func__);
	if (n < 0) bad(__func__, "negative size");
	if (fault(F_MPI_ALLOC)) return MPI_ERR_NO_MEM;
	*(void **)p = arenaAlloc(n, "MPI_Alloc_mem");
	return MPI_SUCCESS;
}
int MPI_Free_mem(void *p) { MpiCall m(__func__); arenaFree(p, "MPI_Alloc_mem"); return MPI_SUCCESS; }

// data types
static TypeH *newType(std::vector<Seg> segs, long extent, const std::string &name)
{
	TypeH *t = new TypeH{rank(), true, false, false, extent, 0, {}, name};
	for (auto &s : segs) {
		t->size += s.len;
		if (!t->segs.empty() && t->segs.back().off + t->segs.back().len == s.off && t->segs.back().cls == s.cls) t->segs.back().len += s.len;
		else t->segs.push_back(s);
	}
	types[t] = t;
	return t;
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *r)
{
	MpiCall m(__func__); TypeH *t = T(o, __func__, false);
	if (n < 0) bad(__func__, "negative count");
	if (fault(F_TYPE)) return MPI_ERR_OTHER;
	std::vector<Seg> s;
	for (int i = 0; i < n; i++) for (Seg g : t->segs) { g.off += i * t->extent; s.push_back(g); }
	*r = (MPI_Datatype)newType(s, n * t->extent, fmt("%d*%s", n, t->name.c_str()));
	return MPI_SUCCESS;
}
int MPI_Type_create_struct(int n, const int *len, const MPI_Aint *dis, const MPI_Datatype *ty, MPI_Datatype *r)
{
	MpiCall m(__func__);
	if (fault(F_TYPE)) return MPI_ERR_OTHER;
	std::vector<Seg> s; long ub = 0, al = 1;
	for (int k = 0; k < n; k++) {
		checkRange(len + k, 4, false, __func__); checkRange(dis + k, 8, false, __func__); checkRange(ty + k, 8, false, __func__);
		TypeH *t = T(ty[k], __func__, false);
		for (int i = 0; i < len[k]; i++) for (Seg g : t->segs) { g.off += dis[k] + i * t->extent; s.push_back(g); }
		ub = std::max(ub, (long)dis[k] + len[k] * t->extent);
		if (t->builtin) al = std::max(al, t->extent);
	}
	*r = (MPI_Datatype)newType(s, (ub + al - 1) / al * al, "struct");
	return MPI_SUCCESS;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *r)
{
	MpiCall m(__func__); TypeH *t = T(o, __func__, false);
	if (fault(F_TYPE)) return MPI_ERR_OTHER;
	(void)lb;
	*r = (MPI_Datatype)newType(t->segs, ext, t->name + " resized");
	return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype *t) { MpiCall m(__func__); TypeH *h = T(*t, __func__, false); if (fault(F_TYPE)) return MPI_ERR_OTHER; h->committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t)
{
	MpiCall m(__func__); TypeH *h = T(*t, __func__, false);
	if (h->builtin) bad(__func__, "predefined data type");
	h->live = false; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype t, int *n) { MpiCall m(__func__); *n = T(t, __func__, false)->size; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { MpiCall m(__func__); *lb = 0; *e = T(t, __func__, false)->extent; return MPI_SUCCESS; }

// windows
int MPI_Win_create(void *base, MPI_Aint size, int disp, MPI_Info, MPI_Comm c, MPI_Win *w)
{
	MpiCall m(__func__); CommH *h = C(c, __func__);
	if (size < 0) bad(__func__, "negative size");
	if (disp <= 0) bad(__func__, "displacement unit must be positive");
	if (size) checkRange(base, size, true, "MPI_Win_create");
	CollArg a{}; a.s = base; a.n = size; a.a = disp; a.out = w;
	return collective(h, "MPI_Win_create", "", a, F_WIN_CREATE, [h](CollOp &op) {
		WinCore *wc = new WinCore{(int)winCores.size(), h->core, {}, {}, {}, {}, 0};
		size_t n = op.args.size();
		wc->side.resize(n); wc->excl.assign(n, -1); wc->shared.resize(n);
		winCores.push_back(wc);
		for (size_t i = 0; i < n; i++) {
			wc->side[i] = WinSide{(char *)op.args[i].s, (size_t)op.args[i].n, op.args[i].a, true};
			WinH *x = new WinH{wc, h->core->members[i], (int)i, true, {}};
			wins[x] = x; winsOf[x->owner].push_back(x);
			*(MPI_Win *)op.args[i].out = (MPI_Win)x;
		}
	});
}
int MPI_Win_allocate(MPI_Aint size, int disp, MPI_Info info, MPI_Comm c, void *bp, MPI_Win *w)
{
	int r = MPI_Alloc_mem(size, info, bp); if (r != MPI_SUCCESS) return r;
	return MPI_Win_create(*(void **)bp, size, disp, info, c, w);
}
int MPI_Win_free(MPI_Win *w)
{
	MpiCall m(__func__); WinH *x = W(*w, __func__);
	if (!x->epochs.empty()) bad(__func__, "a lock epoch is open");
	WinSide &s = x->core->side[x->me];
	if (s.size) checkRange(s.base, s.size, false, "MPI_Win_free (memory of the window)");
	// a synchronisation of all processes of the window (its communicator may already be freed)
	WinCore *c = x->core; c->freed++;
	block([c] { return c->freed == (int)c->side.size(); }, "MPI_Win_free");
	if (s.size) checkRange(s.base, s.size, false, "MPI_Win_free (memory of the window)");
	x->live = false;
	auto &v = winsOf[x->owner]; v.erase(std::remove(v.begin(), v.end(), x), v.end());
	*w = MPI_WIN_NULL;
	return MPI_SUCCESS;
}
int MPI_Win_lock(int type, int target, int assertion, MPI_Win win)
{
	MpiCall m(__func__); WinH *w = W(win, __func__);
	if (target < 0 || target >= (int)w->core->side.size()) bad(__func__, fmt("invalid target %d", target));
	if (type != MPI_LOCK_SHARED && type != MPI_LOCK_EXCLUSIVE) bad(__func__, "invalid lock type");
	if (w->epochs.count(target)) bad(__func__, fmt("the process already has a lock epoch open for process %d (opened by %s)", target, w->epochs[target]->by->name.c_str()));
	auto e = std::make_unique<Epoch>(); Epoch *ep = e.get();
	ep->target = target; ep->exclusive = type == MPI_LOCK_EXCLUSIVE; ep->nocheck = assertion & MPI_MODE_NOCHECK; ep->granted = false; ep->by = cur;
	w->epochs[target] = std::move(e);
	trace("MPI_Win_lock %s target %d", ep->exclusive ? "exclusive" : "shared", target);
	bool lazy = target != w->me && decide(K_LAZY, 2, cfg.pLazy) == 1;
	if (lazy) { shr->faults[F_LAZYLOCK]++; return MPI_SUCCESS; }
	nocheckTest(w, ep);
	block([w, ep] { return ep->granted || grantable(w, ep); }, "MPI_Win_lock");
	if (!ep->granted) grant(w, ep);
	return MPI_SUCCESS;
}
static void needGrant(WinH *w, Epoch *e)
{
	if (e->granted) return;
	nocheckTest(w, e);
	block([w, e] { return e->granted || grantable(w, e); }, "window lock");
	if (!e->granted) grant(w, e);
}
int MPI_Win_unlock(int target, MPI_Win win)
{
	MpiCall m(__func__); WinH *w = W(win, __func__);
	Epoch *e = epochOf(w, target, __func__);
	needGrant(w, e);
	waitOps(w, e, false, "MPI_Win_unlock");
	WinCore *c = w->core;
	if (e->exclusive) c->excl[target] = -1; else c->shared[target].erase(c->shared[target].find(w->me));
	w->epochs.erase(target);
	trace("MPI_Win_unlock target %d", target);
	return MPI_SUCCESS;
}
int MPI_Win_lock_all(int assertion, MPI_Win win)
{
	MpiCall m(__func__); WinH *w = W(win, __func__);
	if (!w->epochs.empty()) bad(__func__, "a lock epoch is already open");
	for (int t = 0; t < (int)w->core->side.size(); t++) {
		auto e = std::make_unique<Epoch>(); e->target = t; e->exclusive = false; e->nocheck = assertion & MPI_MODE_NOCHECK; e->granted = false; e->by = cur;
		w->epochs[t] = std::move(e);
	}
	return MPI_SUCCESS;
}
int MPI_Win_flush(int target, MPI_Win win) { MpiCall m(__func__); WinH *w = W(win, __func__); Epoch *e = epochOf(w, target, __func__); waitOps(w, e, false, "MPI_Win_flush"); return MPI_SUCCESS; }
int MPI_Win_flush_local(int target, MPI_Win win) { MpiCall m(__func__); WinH *w = W(win, __func__); Epoch *e = epochOf(w, target, __func__); waitOps(w, e, true, "MPI_Win_flush_local"); return MPI_SUCCESS; }
int MPI_Win_flush_all(MPI_Win win) { MpiCall m(__func__); WinH *w = W(win, __func__); for (auto &e : w->epochs) waitOps(w, e.second.get(), false, "MPI_Win_flush_all"); return MPI_SUCCESS; }
int MPI_Win_flush_local_all(MPI_Win win) { MpiCall m(__func__); WinH *w = W(win, __func__); for (auto &e : w->epochs) waitOps(w, e.second.get(), true, "MPI_Win_flush_local_all"); return MPI_SUCCESS; }
int MPI_Win_unlock_all(MPI_Win win)
{
	MpiCall m(__func__); WinH *w = W(win, __func__);
	for (auto &e : w->epochs) { needGrant(w, e.second.get()); waitOps(w, e.second.get(), false, "MPI_Win_unlock_all"); auto &s = w->core->shared[e.first]; s.erase(s.find(w->me)); }
	w->epochs.clear();
	return MPI_SUCCESS;
}
int MPI_Win_sync(MPI_Win win) { MpiCall m(__func__); W(win, __func__); return MPI_SUCCESS; }
int MPI_Win_fence(int, MPI_Win win) { MpiCall m(__func__); W(win, __func__); bad(__func__, "not supported by the simulated MPI"); return MPI_ERR_OTHER; }

static std::shared_ptr<Rma> newRma(Rma::Kind k, WinH *w, void *l, int ln, MPI_Datatype ldt, int target, MPI_Aint disp, int tn, MPI_Datatype tdt, const char *fn)
{
	auto o = std::make_shared<Rma>();
	o->kind = k; o->local = l; o->lcount = ln; o->lt = T(ldt, fn); o->target = target; o->tcount = tn; o->tt = T(tdt, fn);
	if (target >= 0 && target < (int)w->core->side.size()) o->off = disp * w->core->side[target].disp;
	return o;
}
int MPI_Get(void *l, int ln, MPI_Datatype ldt, int target, MPI_Aint disp, int tn, MPI_Datatype tdt, MPI_Win win)
{ MpiCall m(__func__); WinH *w = W(win, __func__); issue(w, newRma(Rma::GET, w, l, ln, ldt, target, disp, tn, tdt, __func__), __func__); return MPI_SUCCESS; }
int MPI_Put(const void *l, int ln, MPI_Datatype ldt, int target, MPI_Aint disp, int tn, MPI_Datatype tdt, MPI_Win win)
{ MpiCall m(__func__); WinH *w = W(win, __func__); issue(w, newRma(Rma::PUT, w, (void *)l, ln, ldt, target, disp, tn, tdt, __func__), __func__); return MPI_SUCCESS; }
int MPI_Fetch_and_op(const void *l, void *res, MPI_Datatype dt, int target, MPI_Aint disp, MPI_Op op, MPI_Win win)
{
	MpiCall m(__func__); WinH *w = W(win, __func__);
	auto o = newRma(Rma::FOP, w, (void *)l, 1, dt, target, disp, 1, dt, __func__);
	o->result = res; o->dt = dt; o->op = op;
	issue(w, o, __func__); return MPI_SUCCESS;
}
int MPI_Compare_and_swap(const void *l, const void *cmp, void *res, MPI_Datatype dt, int target, MPI_Aint disp, MPI_Win win)
{
	MpiCall m(__func__); WinH *w = W(win, __func__);
	auto o = newRma(Rma::CAS, w, (void *)l, 1, dt, target, disp, 1, dt, __func__);
	o->result = res; o->cmp = cmp; o->dt = dt;
	issue(w, o, __func__); return MPI_SUCCESS;
}

// operations the library does not use today (a changed library may)
static int accLike(const void *l, void *res, int n, MPI_Datatype dt, int target, MPI_Aint disp, MPI_Op op, MPI_Win win, const char *fn)
{
	WinH *w = W(win, fn); TypeH *t = T(dt, fn);
	if (!t->builtin) bad(fn, "derived data types are not supported by the simulated MPI");
	for (int i = 0; i < n; i++) { // atomic for every element
		auto o = newRma(Rma::FOP, w, (char *)l + i * t->extent, 1, dt, target, disp, 1, dt, fn);
		o->off += i * t->extent;
		o->result = res ? (char *)res + i * t->extent : nullptr; o->dt = dt; o->op = op;
		issue(w, o, fn);
	}
	return MPI_SUCCESS;
}
int MPI_Accumulate(const void *l, int ln, MPI_Datatype ldt, int target, MPI_Aint disp, int tn, MPI_Datatype tdt, MPI_Op op, MPI_Win win)
{ MpiCall m(__func__); if (ln != tn || ldt != tdt) bad(__func__, "origin and target differ"); return accLike(l, nullptr, tn, tdt, target, disp, op, win, __func__); }
int MPI_Get_accumulate(const void *l, int ln, MPI_Datatype ldt, void *res, int rn, MPI_Datatype rdt, int target, MPI_Aint disp, int tn, MPI_Datatype tdt, MPI_Op op, MPI_Win win)
{
	MpiCall m(__func__);
	if (rn != tn || rdt != tdt || (op != MPI_NO_OP && (ln != tn || ldt != tdt))) bad(__func__, "origin and target differ");
	return accLike(op == MPI_NO_OP ? res : l, res, tn, tdt, target, disp, op, win, __func__);
}
int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *st)
{
	MpiCall m(__func__);
	for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && !reqDone(Q(q[i], __func__))) { *f = 0; pollFailed("MPI_Testall"); return MPI_SUCCESS; }
	for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) finishReq(q + i, Q(q[i], __func__), st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i);
	*f = 1; return MPI_SUCCESS;
}
static int firstDone(int n, MPI_Request *q, const char *fn)
{
	int any = MPI_UNDEFINED;
	for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { if (reqDone(Q(q[i], fn))) return i; any = -1; }
	return any;
}
int MPI_Waitany(int n, MPI_Request *q, int *k, MPI_Status *st)
{
	MpiCall m(__func__);
	block([=] { return firstDone(n, q, "MPI_Waitany") != -1; }, "MPI_Waitany");
	*k = firstDone(n, q, __func__);
	if (*k >= 0) finishReq(q + *k, Q(q[*k], __func__), st);
	return MPI_SUCCESS;
}
int MPI_Testany(int n, MPI_Request *q, int *k, int *f, MPI_Status *st)
{
	MpiCall m(__func__);
	*k = firstDone(n, q, __func__); *f = *k != -1;
	if (*k >= 0) finishReq(q + *k, Q(q[*k], __func__), st);
	if (*k == -1) { *k = MPI_UNDEFINED; pollFailed("MPI_Testany"); }
	return MPI_SUCCESS;
}
struct MatchedMsg { std::shared_ptr<Msg> m; CommH *h; };
static bool takeMsg(CommH *h, int s, int tag, MPI_Message *out, MPI_Status *st)
{
	auto &q = arrived[rank()];
	for (size_t i = 0; i < q.size(); i++)
		if (matches(*q[i], h->core, h->me, s, tag)) {
			probeMsg(h, s, tag, st);
			*out = (MPI_Message) new MatchedMsg{q[i], h};
			q.erase(q.begin() + i);
			return true;
		}
	return false;
}
int MPI_Improbe(int s, int tag, MPI_Comm c, int *f, MPI_Message *x, MPI_Status *st)
{
	MpiCall m(__func__); CommH *h = C(c, __func__); checkRecv(h, s, tag, __func__);
	*f = takeMsg(h, s, tag, x, st);
	if (!*f) pollFailed("MPI_Improbe");
	return MPI_SUCCESS;
}
int MPI_Mprobe(int s, int tag, MPI_Comm c, MPI_Message *x, MPI_Status *st)
{
	MpiCall m(__func__); CommH *h = C(c, __func__); checkRecv(h, s, tag, __func__);
	block([=] { return probeMsg(h, s, tag, MPI_STATUS_IGNORE); }, "MPI_Mprobe");
	takeMsg(h, s, tag, x, st);
	return MPI_SUCCESS;
}
int MPI_Mrecv(void *b, int n, MPI_Datatype dt, MPI_Message *x, MPI_Status *st)
{
	MpiCall m(__func__); MatchedMsg *mm = (MatchedMsg *)*x;
	arrived[rank()].push_front(mm->m);
	Req *r = newRecv(mm->h, b, n, dt, mm->m->src, mm->m->tag, "MPI_Mrecv");
	if (st != MPI_STATUS_IGNORE) *st = r->st;
	delete r; delete mm; *x = MPI_MESSAGE_NULL;
	return MPI_SUCCESS;
}
int MPI_Comm_get_attr(MPI_Comm c, int key, void *val, int *f)
{
	MpiCall m(__func__); C(c, __func__);
	static int tagUb = 0x7FFFFFFF;
	*f = key == MPI_TAG_UB; if (*f) *(int **)val = &tagUb;
	return MPI_SUCCESS;
}
int MPI_Comm_set_name(MPI_Comm c, const char *) { MpiCall m(__func__); C(c, __func__); return MPI_SUCCESS; }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *r)
{
	MpiCall m(__func__); TypeH *t = T(o, __func__, false);
	if (fault(F_TYPE)) return MPI_ERR_OTHER;
	TypeH *x = newType(t->segs, t->extent, t->name); x->committed = t->committed;
	*r = (MPI_Datatype)x; return MPI_SUCCESS;
}
int MPI_Type_vector(int n, int len, int stride, MPI_Datatype o, MPI_Datatype *r)
{
	MpiCall m(__func__); TypeH *t = T(o, __func__, false);
	if (n < 0 || len < 0) bad(__func__, "negative count");
	if (fault(F_TYPE)) return MPI_ERR_OTHER;
	std::vector<Seg> s;
	for (int i = 0; i < n; i++) for (int j = 0; j < len; j++) for (Seg g : t->segs) { g.off += (long)(i * stride + j) * t->extent; s.push_back(g); }
	*r = (MPI_Datatype)newType(s, n ? ((long)(n - 1) * stride + len) * t->extent : 0, "vector");
	return MPI_SUCCESS;
}
}
