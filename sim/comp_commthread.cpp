// C19: mpi::CommThread (start, stop, receivers, delivery of messages)
#include "comp.hpp"
#include "mpi/commthread.h"
namespace {
struct Recv : public mpi::Receiver {
	int k; std::string comm; bool registered = false, closed = false; int tag = -1; long got = 0;
	std::map<long, long> last; int active = 0;
	Recv(int k, const std::string &c) : k(k), comm(c) {}
	void recv(int sender, mpi::message_t data) override;
};
std::map<int, Recv *> recvs;
bool started = false; long startedGen = 0;
int posIn(const std::string &comm, int r) { std::vector<int> m = compMembers(comm); for (size_t i = 0; i < m.size(); i++) if (m[i] == r) return i; return -1; }
// planned messages for receiver k on process r
long planned(int k, int r)
{
	long n = 0; std::string comm; for (auto &l : all) if (l.s(0) == "op" && l.s(3) == "reg" && l.i(4) == k) comm = l.s(5);
	std::vector<int> m = compMembers(comm);
	for (auto &l : all) if (l.s(0) == "op" && l.s(3) == "send" && l.i(4) == k && !m.empty() && m[l.i(5) % m.size()] == r) n += l.i(6);
	return n;
}
void Recv::recv(int sender, mpi::message_t d)
{
	Guard g;
	long data = (long)d;
	int from = data >> 48, th = data >> 40 & 255, rk = data >> 32 & 255; long seq = data & 0xFFFFFF; int to = data >> 24 & 255;
	if (closed) violation("comm-thread", fmt("receiver %d of process %d is called although unregistering it has returned", k, myRank));
	if (rk != k || to != myRank) violation("comm-thread", fmt("a message for receiver %d of process %d is delivered to receiver %d of process %d", rk, to, k, myRank));
	if (sender != posIn(comm, from)) violation("comm-thread", fmt("a message of rank %d of the receiver's communicator is delivered as message of rank %d", posIn(comm, from), sender));
	long key = from * 256 + th;
	if (seq != last[key] + 1) violation("comm-thread", fmt("message %ld of thread %d of process %d is delivered after message %ld", seq, th, from, last[key]));
	last[key] = seq; got++;
	if (active++) violation("comm-thread", "a receiver is entered twice");
	for (int i = 0; i < 2; i++) point(P_SYNC);
	active--;
	probe("messages_delivered");
}
void run(int t)
{
	std::map<int, long> seq;
	for (auto &w : opsOf(t)) {
		std::string c = w.s(0);
		cur->op = c + " " + w.s(1) + " " + w.s(2);
		if (c == "start" && t == 0 && posIn(w.s(2), myRank) >= 0) {
			int e, want = w.kv("expect", 0);
			{ Call x; e = asagi::Grid::startCommThread(w.i(1), (MPI_Comm)compComm(w.s(2), myRank)); }
			if (e != want) violation("comm-thread", fmt("starting the communication thread returns %d instead of %d", e, want));
			if (e == 0) { started = true; probe("comm_thread_starts"); }
		} else if (c == "stop" && t == 0 && started) {
			{ Call x; asagi::Grid::stopCommThread(); }
			started = false;
			if (liveThreads(myRank)) violation("comm-thread", "the communication thread still runs after it was stopped");
		} else if (c == "reg") {
			int k = w.i(1); std::string cm = w.s(2); int want = w.kv("expect", 0);
			if (t || posIn(cm, myRank) < 0) continue;
			Recv *r; { Call x; r = new Recv(k, cm); } recvs[k] = r;
			int e, tag = -1;
			{ Call x; e = mpi::CommThread::commThread.registerReceiver((MPI_Comm)compComm(cm, myRank), *r, tag); }
			if (e != want) violation("comm-thread", fmt("registering a receiver returns %d instead of %d", e, want));
			if (e == 0) {
				r->tag = tag; r->registered = true;
				auto &tags = compState[fmt("tag %d", k)];
				tags.push_back(tag);
				for (long x : tags) if (x != tag) violation("comm-thread", fmt("receiver %d has tag %d on process %d and tag %ld on another one", k, tag, myRank, x));
				for (auto &o : recvs) if (o.first != k && o.second->registered && !o.second->closed && o.second->tag == tag) violation("comm-thread", fmt("receivers %d and %d have the same tag", k, o.first));
			} else { recvs.erase(k); Call x; delete r; }
		} else if (c == "send") {
			int k = w.i(1);
			block([k] { auto i = recvs.find(k); return i != recvs.end() && i->second->registered; }, "application: receiver is registered");
			Recv *r = recvs[k]; std::vector<int> m = compMembers(r->comm); int dst = w.i(2) % m.size();
			for (int i = 0; i < w.i(3); i++) {
				long &s = seq[k * 16 + dst]; s++;
				mpi::message_t d = (mpi::message_t)((long)myRank << 48 | (long)t << 40 | (long)k << 32 | (long)m[dst] << 24 | s);
				{ Call x; mpi::CommThread::commThread.send(r->tag, dst, d); }
				compState[fmt("sent %d", k)].push_back(myRank);
				probe("messages_sent");
			}
		} else if (c == "unreg") {
			int k = w.i(1);
			if (t || !recvs.count(k)) continue;
			Recv *r = recvs[k]; long total = 0; for (int m : compMembers(r->comm)) total += planned(k, m);
			auto &sent = compState[fmt("sent %d", k)];
			block([&sent, total] { return (long)sent.size() >= total; }, "application: all messages are sent");
			{ Call x; mpi::CommThread::commThread.unregisterReceiver(r->tag); }
			r->closed = true;
			if (r->active) violation("comm-thread", "unregistering returns while the receiver is being called");
			if (r->got != planned(k, myRank)) violation("comm-thread", fmt("%ld of %ld messages for receiver %d of process %d were delivered", r->got, planned(k, myRank), k, myRank));
			probe("receivers_unregistered");
			if (w.kv("free", 1)) { Recv *x = r; recvs[k] = new Recv(k, r->comm); recvs[k]->closed = true; Call y; delete x; }
		} else if (c == "lsync") hbarrier(fmt("l%d %s", myRank, w.s(1).c_str()), compThreads);
		else if (c == "gsync") hbarrier("g" + w.s(1), nRanks * compThreads);
		cur->op.clear();
	}
}
}
extern "C" void comp_start(const CompScenario *c)
{
	parseAll(c);
	for (int t = 0; t < compThreads; t++) start(t, [t] { run(t); });
}
