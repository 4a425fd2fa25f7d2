// The repository's containers, driven by a script of operations.
#include "conts.hpp"
#include <cassert>
#include <cmath>
#include <new>
#include "search/search.hpp"
#include "search/closedlist.hpp"
#include "structs/binheap.hpp"
#include "structs/intpq.hpp"
#include "structs/htable.hpp"
#include "structs/kdtree.hpp"
#include "utils/pool.hpp"
namespace conts {
struct Dom {
	int hashmod;
	struct PackedState {
		int key;
		unsigned long hash(const Dom *d) const { return (unsigned long) (key % d->hashmod) * 7; }
		bool eq(const Dom *, const PackedState &o) const { return key == o.key; }
	};
};
static int hashmod;
struct El {
	int prio, tie;
	long ind;
	Dom::PackedState st;
	HtableEntry<El> hent;
	IntpqEntry<El> qent;
	ClosedEntry<El, Dom> cent;
};
static El els[NEls];
static int id(El *e) { return e ? e - els : -1; }
int elprio(int e) { return els[e].prio; }
int eltie(int e) { return els[e].tie; }
long elind(int e) { return els[e].ind; }

struct HeapOps {
	static bool pred(El *a, El *b) { return a->prio < b->prio; }
	static void setind(El *e, long i) { e->ind = i; }
	static long getind(const El *e) { return e->ind; }
};
struct IntOps {
	static int prio(El *e) { return e->prio; }
	static int tieprio(El *e) { return e->tie; }
	static void setind(El *e, int i) { e->ind = i; }
	static int getind(const El *e) { return e->ind; }
};
struct QOps { static IntpqEntry<El> &entry(El *e) { return e->qent; } };
struct HOps {
	static unsigned long hash(int k) { return (unsigned long) (k % hashmod) * 7; }
	static int key(El *e) { return e->st.key; }
	static HtableEntry<El> &entry(El *e) { return e->hent; }
};
struct COps {
	static Dom::PackedState &key(El *e) { return e->st; }
	static unsigned long hash(Dom::PackedState *s) { return s->key; }
	static ClosedEntry<El, Dom> &closedentry(El *e) { return e->cent; }
};
struct Obj {
	int a[5];
	char c;
};
typedef BinHeap<HeapOps, El*> Heap;
typedef OpenList<HeapOps, El, double> Open;
typedef OpenList<IntOps, El, IntOpenCost> OpenInt;
typedef Intpq<QOps, El> Q;
typedef Htable<HOps, int, El> H;
typedef ClosedList<COps, El, Dom> C;
typedef Pool<Obj> P;
typedef Kdtree<2, int> K;
static Heap *heap;
static Open *open;
static OpenInt *openint;
static Q *q;
static H *h;
static C *cl;
static P *pool;
static K *kd;
static Dom dom;
static Obj *objs[NEls];

bool elmem(const Cfg &c, int e) {
	switch (c.kind) {
	case KOpen: return open->mem(&els[e]);
	case KOpenInt: return openint->mem(&els[e]);
	case KIntpq: return q->mem(&els[e]);
	}
	return els[e].ind >= 0;
}
long heapat(long i) { return i < 0 || i >= heap->size() ? -1 : id(heap->at(i)); }
long contsize(const Cfg &c) {
	switch (c.kind) {
	case KHeap: return heap->size();
	case KClosed: return cl->getFill();
	case KKd: return kd->size();
	}
	return -1;
}
static void fillobj(int e) {
	for (int i = 0; i < 5; i++) objs[e]->a[i] = e * 31 + i;
	objs[e]->c = e;
}
static bool objok(int e) {
	for (int i = 0; i < 5; i++)
		if (objs[e]->a[i] != e * 31 + i) return false;
	return objs[e]->c == (char) e;
}
static void reset(int e) {
	els[e].ind = -1;
	els[e].qent.prev = els[e].qent.nxt = NULL;
	els[e].hent.nxt = NULL;
	els[e].cent.nxt = NULL;
}
static long doop(const Cfg &c, const Op &o, std::vector<long> &scan) {
	El *e = o.e >= 0 ? &els[o.e] : NULL;
	switch (c.kind) {
	case KHeap:
		switch (o.op) {
		case Push: e->prio = o.prio; heap->push(e); return o.e;
		case Pop: { auto r = heap->pop(); return r ? id(*r) : -1; }
		case Front: { auto r = heap->front(); return r ? id(*r) : -1; }
		case Update: e->prio = o.prio; heap->pushupdate(e, e->ind); return o.e;
		case Clear: heap->clear(); return 0;
		case Append: {
			std::vector<El*> v;
			for (int i : o.many) { els[i].prio = (i * 7 + o.prio) % c.nprio; v.push_back(&els[i]); }
			heap->append(v);
			return 0;
		}
		case Reinit:
			for (El *x : heap->data()) x->prio = (x->prio * 5 + o.prio + id(x)) % c.nprio;
			heap->reinit();
			return 0;
		}
		return 0;
	case KOpen:
		switch (o.op) {
		case Push: e->prio = o.prio; open->push(e); return o.e;
		case Pop: return id(open->pop());
		case Front: return open->empty();
		case Update: open->pre_update(e); e->prio = o.prio; open->post_update(e); return o.e;
		case Clear: open->clear(); return 0;
		}
		return 0;
	case KOpenInt:
		switch (o.op) {
		case Push: e->prio = o.prio, e->tie = o.tie; openint->push(e); return o.e;
		case Pop: return openint->empty() ? -1 : id(openint->pop());
		case Front: return openint->empty();
		case Update: openint->pre_update(e); e->prio = o.prio, e->tie = o.tie; openint->post_update(e); return o.e;
		case Clear: openint->clear(); return 0;
		}
		return 0;
	case KIntpq:
		switch (o.op) {
		case Push: e->prio = o.prio; q->push(e, e->prio); return o.e;
		case Pop: return id(q->pop());
		case Front: return q->empty();
		case Rm: q->rm(e, e->prio); return o.e;
		case Clear: q->clear(); return 0;
		}
		return 0;
	case KHtable:
		switch (o.op) {
		case Push: e->st.key = o.prio; h->add(e); return o.e;
		case Find: return id(h->find(o.prio));
		case Rm: return h->rm(o.prio);
		case Clear: h->clear(); return 0;
		}
		return 0;
	case KClosed: {
		Dom::PackedState k;
		k.key = o.prio;
		switch (o.op) {
		case Push: e->st.key = o.prio; cl->add(e); return o.e;
		case Find: return id(cl->find(k));
		case Rm: return id(cl->remove(k));
		case Clear: cl->clear(); return 0;
		case Front: return cl->empty();
		case Scan:
			for (auto i = cl->begin(); i != cl->end(); ++i) {
				scan.push_back(id(*i));
				if (scan.size() > NEls) break;
			}
			return 0;
		}
		return 0;
	}
	case KPool:
		switch (o.op) {
		case Push: objs[o.e] = NULL; objs[o.e] = pool->construct(); fillobj(o.e); return o.e;
		case Rm: { bool ok = objok(o.e); pool->destruct(objs[o.e]); objs[o.e] = NULL; return ok; }
		case Find: return objok(o.e);
		}
		return 0;
	case KKd: {
		double pt[2] = { (double) o.prio, (double) o.tie };
		switch (o.op) {
		case Push: e->prio = o.prio, e->tie = o.tie; kd->insert(pt, o.e); return o.e;
		case Find: { const K::N *n = kd->nearest(pt); return n ? n->data : -1; }
		case Scan:
			for (auto i = kd->begin(); i != kd->end(); ++i) {
				scan.push_back((*i)->data);
				if (scan.size() > NEls) break;
			}
			return 0;
		}
		return 0;
	}
	}
	return 0;
}
void contrun(const Cfg &c, const std::vector<Op> &ops, Watch &w) {
	hashmod = dom.hashmod = c.hashmod;
	for (int i = 0; i < NEls; i++) reset(i), objs[i] = NULL;
	heap = NULL; open = NULL; openint = NULL; q = NULL; h = NULL; cl = NULL; pool = NULL; kd = NULL;
	try {
		switch (c.kind) {
		case KHeap: heap = new Heap; break;
		case KOpen: open = new Open; break;
		case KOpenInt: openint = new OpenInt; break;
		case KIntpq: q = new Q(c.initial); break;
		case KHtable: h = new H(c.initial); break;
		case KClosed: cl = new C(c.initial); cl->init(dom); break;
		case KPool: pool = new P(c.initial); break;
		case KKd: kd = new K; break;
		}
	} catch (std::bad_alloc &) {
		w.after(-1, true, 0, NULL);
		return;
	}
	for (unsigned i = 0; i < ops.size(); i++) {
		std::vector<long> scan;
		bool threw = false;
		long r = 0;
		w.before(i);
		try { r = doop(c, ops[i], scan); } catch (std::bad_alloc &) { threw = true; }
		w.after(i, threw, r, &scan);
		if (ops[i].op == Clear)
			for (int e = 0; e < NEls; e++) reset(e);
	}
	delete heap; delete open; delete openint; delete q; delete h; delete cl; delete pool; delete kd;
}
}
