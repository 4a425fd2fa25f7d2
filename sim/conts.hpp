// Between the scenarios (harness) and the containers (instrumented program).
#pragma once
#include <vector>
namespace conts {
enum Kind { KHeap, KOpen, KOpenInt, KIntpq, KHtable, KClosed, KPool, KKd, NKinds };
enum OpKind { Push, Pop, Front, Update, Clear, Append, Reinit, Rm, Find, Scan };
struct Op { int op; int e; int prio, tie; std::vector<int> many; };
enum { NEls = 640 };
struct Watch {
	virtual void before(int i) = 0;
	// ret: element returned (-1: none), or truth value
	virtual void after(int i, bool threw, long ret, const std::vector<long> *scan) = 0;
	virtual ~Watch() { }
};
struct Cfg { int kind; unsigned initial; int nprio; int hashmod; };
// the elements as the program sees them
int elprio(int e);
int eltie(int e);
long elind(int e);
bool elmem(const Cfg &, int e);		// the container says e is in it (open lists, Intpq)
long heapat(long i);			// element at a position of the heap, -1: out of range
long contsize(const Cfg &);		// -1: the container does not tell
void contrun(const Cfg &, const std::vector<Op> &, Watch &);
}
