From 416d5e5f886951ee16f91ae83330a0289fed7ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 01/82] fix: do not drop the last character of a datafile
 record that just fills the buffer

snprintf returns the untruncated length without the terminator, so a result
equal to the space left means that the text was truncated by one character.
---
 utils/datafile.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils/datafile.cc b/utils/datafile.cc
index a654156..c5a4728 100644
--- a/utils/datafile.cc
+++ b/utils/datafile.cc
@@ -21,7 +21,7 @@ static void tryprocstatus(FILE*);
 void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#pair  \"%s\"\t\"", key);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -29,7 +29,7 @@ void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	unsigned int m = vsnprintf(buf+n, Bufsz-n, fmt, ap);
 	va_end(ap);
 
-	if (m > (unsigned int) Bufsz-n) {	// Err, overflow
+	if (m >= (unsigned int) Bufsz-n) {	// Err, overflow
 		va_start(ap, fmt);
 		dfpair_sz(f, m + n + 1, key, fmt, ap);
 		va_end(ap);
@@ -54,7 +54,7 @@ static void dfpair_sz(FILE *f, unsigned int sz, const char *key, const char *fmt
 void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altcols  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -62,7 +62,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	for (unsigned int i = 0; i < ncols; i++) {
 		char *col = va_arg(ap, char*);
 		unsigned int m = snprintf(buf+n, Bufsz-n, "\t\"%s %s\"", name, col);
-		if (m > (unsigned int) Bufsz - n)
+		if (m >= (unsigned int) Bufsz - n)
 			fatal("dfrowhdr: buffer is too small\n");
 		n += m;
 	}
@@ -74,7 +74,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altrow  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -102,7 +102,7 @@ void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 			m = snprintf(buf+n, Bufsz-n, "\t%lu", u);
 			break;
 		}
-		if (m > (unsigned int) Bufsz-n)
+		if (m >= (unsigned int) Bufsz-n)
 			fatal("dfrow: buffer is too small\n");
 		n += m;
 	}
-- 
2.43.0


From 06eff2a79ad938d4799f27590323aa5ad7f9f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 02/82] fix: only the file name decides what is a rdb key file

A root or attribute value with KEY= anywhere in its path made lookups read a
garbage key and made queries skip everything below it.
---
 rdb/rdb.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index 6c33eab..80a2e71 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -105,7 +105,7 @@ static void collect(std::string path, RdbAttrs &attrs, std::vector<std::string>
 }
 
 static void addfiles(const std::string &path, RdbAttrs &attrs, std::vector<std::string> &files) {
-	if (strstr(path.c_str(), "KEY=") != NULL)
+	if (hasprefix(basename(path).c_str(), "KEY="))
 		return;
 	if (!fileexists(path))
 		return;
@@ -162,11 +162,10 @@ static std::string makepath(std::string root, RdbAttrs attrs) {
 static bool getkey(const std::string &p, std::string &key) {
 	std::vector<std::string> ents = readdir(p);
 	for (unsigned int i = 0; i < ents.size(); i++) {
-		const char *fname = ents[i].c_str();
-		const char *keyfile = strstr(fname, "KEY=");
-		if (!keyfile)
+		std::string fname = basename(ents[i]);
+		if (!hasprefix(fname.c_str(), "KEY="))
 			continue;
-		key = keyfile + strlen("KEY=");
+		key = fname.substr(strlen("KEY="));
 		return true;
 	
 	}
-- 
2.43.0


From 05b0b12fa352d6ed82b67f6a0e6b0c73fa1d860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 03/82] fix: pathattrs stops at . and /

The directory name of . is . and of / is /, so with a key file there the loop
added a bogus attribute and never ended.
---
 rdb/rdb.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index 80a2e71..2d06639 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -189,6 +189,8 @@ RdbAttrs pathattrs(std::string path) {
 		if (!getkey(dir, key))
 			break;
 		attrs.push_front(key, file);
+		if (dir == dirname(dir))	// . or /
+			break;
 		path = dir;
 	}
 
-- 
2.43.0


From c2f6a03ff32f67c2bfb6a0c58b3b3e50373201df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 04/82] fix: ensuredir fails if a file is in the way of the
 directory

---
 utils/fs.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index 740c796..3165495 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -93,9 +93,10 @@ void ensuredir(const std::string &p) {
 	ensuredir(dir);
 
 	if (mkdir(dir.c_str(), S_IRWXU|S_IRWXG|S_IRWXO) == -1) {
-		if (errno == EEXIST)
+		int err = errno;
+		if (err == EEXIST && isdir(dir))
 			return;
-		fatalx(errno, "failed to make directory %s", dir.c_str());
+		fatalx(err, "failed to make directory %s", dir.c_str());
 	}
 }
 
-- 
2.43.0


From 7dffd05e6e65e36113d02853ff494ea11879ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 05/82] fix: rmrecur does not follow symbolic links

It removed the contents of directories outside of the given path, and failed
on links that refer to themselves.
---
 utils/fs.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index 3165495..a3c3d64 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -101,7 +101,16 @@ void ensuredir(const std::string &p) {
 }
 
 bool rmrecur(const std::string &path) {
-	if (!isdir(path)) {
+	struct stat sb;
+	if (lstat(path.c_str(), &sb) == -1) {
+		if (errno == ENOENT)
+			return true;
+		warnx(errno, "failed to stat %s", path.c_str());
+		return false;
+	}
+
+	// A symbolic link is removed, but what it refers to is not.
+	if (!S_ISDIR(sb.st_mode)) {
 		if (remove(path.c_str()) != 0 && errno != ENOENT) {
 			warnx(errno, "failed to remove %s", path.c_str());
 			return false;
-- 
2.43.0


From ced9fa72f2f7e11eec74a7ac06e9d62e6cc41b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 06/82] fix: addattrs does not replace the datafile by one that
 was not fully written

Write errors were ignored, so a full disk lost the datafile.  And it reported
success when there was no #pair line to add the attributes before.
---
 rdb/addattrs.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rdb/addattrs.cc b/rdb/addattrs.cc
index d5145df..ca605ce 100644
--- a/rdb/addattrs.cc
+++ b/rdb/addattrs.cc
@@ -55,7 +55,15 @@ int main(int argc, const char *argv[]) {
 	}
 
 	fclose(fin);
-	fclose(fout);
+	bool failed = ferror(fout);
+	if (fclose(fout) != 0 || failed) {
+		remove(outfile.c_str());
+		fatal("Failed to write %s", outfile.c_str());
+	}
+	if (!added) {
+		remove(outfile.c_str());
+		fatal("%s has no #pair line", file);
+	}
 
 	if (rename(outfile.c_str(), file) == -1)
 		fatalx(errno, "Failed to rename %s to %s", outfile.c_str(), file);
-- 
2.43.0


From 464fb172038752dd39c337337bb25f36e5e27ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 07/82] hook: let the simulator choose the initial size of
 closed lists (SEARCH_SIM)

---
 search/closedlist.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index 804963f..6eb6e9a 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -8,6 +8,10 @@
 
 void dfpair(FILE *, const char *key, const char *fmt, ...);	// utils.hpp
 
+#ifdef SEARCH_SIM	// the simulator chooses initial table sizes
+extern "C" unsigned long simclosedsize(unsigned long);
+#endif
+
 enum { FillFact = 0 };
 
 template<typename Node, typename D> struct ClosedEntry {
@@ -27,6 +31,9 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 
 	ClosedList(unsigned long szhint) :
 			fill(0), ncollide(0), nresize(0), nbins(0), fills(NULL), bins(NULL) {
+#ifdef SEARCH_SIM
+		szhint = simclosedsize(szhint);
+#endif
 		resize(szhint);
 		nresize = 0;	// don't count the initial resize
 	}
-- 
2.43.0


From 7e63e9aea2c11848f080ef592b8300f591634054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 08/82] fix: real-time searches tell their hash tables the
 domain

---
 search/dtastar-dump.hpp | 6 ++++++
 search/fhatlrtastar.hpp | 6 ++++++
 search/lsslrtastar.hpp  | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 8547b5a..2f44c2b 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -78,6 +78,10 @@ private:
 		~Nodes() {
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		void clear() {
 			for (auto n : tbl)
 				pool.destruct(n);
@@ -207,6 +211,8 @@ public:
 	void search(D &d, State &s0) {
 		this->start();
 
+		nodes.init(d);
+		lssNodes.init(d);
 		Node *cur = nodes.get(d, s0);
 
 		dfrowhdr(stdout, "sample", 3, "h", "depth", "f");
diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 8943382..33f58e6 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -78,6 +78,10 @@ private:
 		~Nodes() {
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		void clear() {
 			for (auto n : tbl)
 				pool.destruct(n);
@@ -198,6 +202,8 @@ public:
 	void search(D &d, State &s0) {
 		this->start();
 
+		nodes.init(d);
+		lssNodes.init(d);
 		Node *cur = nodes.get(d, s0);
 
 		lsslim->start(0);
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 8cad8d1..f667c04 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -90,6 +90,10 @@ private:
 		~Nodes() {
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		void clear() {
 			for (auto n : tbl)
 				pool.destruct(n);
@@ -222,6 +226,8 @@ public:
 	void search(D &d, State &s0) {
 		this->start();
 
+		nodes.init(d);
+		lssNodes.init(d);
 		Node *cur = nodes.get(d, s0);
 
 		lsslim->start(0);
-- 
2.43.0


From a33e5c51f04ee6cbb04bb17939ab5ca353f8a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 09/82] fix: real-time searches stop without a solution when no
 frontier is left

---
 search/dtastar-dump.hpp |  9 +++++++--
 search/fhatlrtastar.hpp |  9 +++++++--
 search/lsslrtastar.hpp  | 11 ++++++++---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 2f44c2b..1da25d4 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -226,6 +226,10 @@ public:
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
+			if (!m.first) {	// nowhere to go: no goal is reachable
+				cur = NULL;
+				break;
+			}
 
 			if (randgen.real() < samplep)
 				evaluate(d, cur);
@@ -236,7 +240,7 @@ public:
 
 		this->finish();
 
-		if (!cur->goal) {
+		if (!cur || !cur->goal) {
 			this->res.ops.clear();
 			return;
 		}
@@ -368,7 +372,8 @@ private:
 					best = n;
 			}
 		}
-		assert (best);
+		if (!best)
+			return std::pair<Node*, double>(NULL, 0);
 		assert (best->node != cur);
 		std::vector<Oper> ops;
 		LssNode *q = NULL;
diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 33f58e6..4ce3b71 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -215,6 +215,10 @@ public:
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
+			if (!m.first) {	// nowhere to go: no goal is reachable
+				cur = NULL;
+				break;
+			}
 			cur = m.first;
 			lsslim->start(m.second);
 			times.push_back(walltime() - this->res.wallstart);
@@ -223,7 +227,7 @@ public:
 
 		this->finish();
 
-		if (!cur->goal) {
+		if (!cur || !cur->goal) {
 			this->res.ops.clear();
 			return;
 		}
@@ -429,7 +433,8 @@ private:
 					best = n;
 			}
 		}
-		assert (best);
+		if (!best)
+			return std::pair<Node*, double>(NULL, 0);
 		assert (best->node != cur);
 		std::vector<Oper> ops;
 		LssNode *q = NULL;
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index f667c04..45a5d71 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -239,6 +239,10 @@ public:
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
+			if (!m.first) {	// nowhere to go: no goal is reachable
+				cur = NULL;
+				break;
+			}
 			cur = m.first;
 			lsslim->start(m.second);
 			times.push_back(walltime() - this->res.wallstart);
@@ -247,7 +251,7 @@ public:
 
 		this->finish();
 
-		if (!cur->goal) {
+		if (!cur || !cur->goal) {
 			this->res.ops.clear();
 			return;
 		}
@@ -415,7 +419,7 @@ private:
 	std::pair<Node*, double> move(Node *cur, LssNode *goal) {
 		LssNode *best = goal;	
 	
-		if (!best && complete) {
+		if (!best && complete && !lssOpen.empty()) {
 			// Minimum f value still on open (unexpanded).
 			// Due to consistency, all expanded nodes should have f ≤ minf.
 			// We want to find the last *complete* layer of the onion, that is,
@@ -452,7 +456,8 @@ private:
 					best = n;
 			}
 		}
-		assert (best);
+		if (!best)
+			return std::pair<Node*, double>(NULL, 0);
 		assert (best->node != cur);
 		std::vector<Oper> ops;
 		LssNode *q = NULL;
-- 
2.43.0


From 00e4d846c745caa6b057dd712b8cbbe395174e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 10/82] fix: resetting a real-time search forgets the steps of
 the last run

---
 search/fhatlrtastar.hpp | 3 +++
 search/lsslrtastar.hpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 4ce3b71..b42e3de 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -190,6 +190,9 @@ public:
 
 	void reset() {
 		SearchAlgorithm<D>::reset();
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 		nodes.clear();
 		lssOpen.clear();
 		for (auto n : lssNodes)
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 45a5d71..9193fb9 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -216,6 +216,9 @@ public:
 
 	void reset() {
 		SearchAlgorithm<D>::reset();
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 		nodes.clear();
 		lssOpen.clear();
 		for (auto n : lssNodes)
-- 
2.43.0


From fca2981da1d63ecd7f085cf763e1cb6698b6a49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 11/82] fix: f-hat: a local node has no parent until it is
 reached

---
 search/fhatlrtastar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index b42e3de..6c683db 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -114,7 +114,7 @@ private:
 	class LssNode {
 	public:
 
-		LssNode() : openind(-1), updated(false), closed(false) {
+		LssNode() : parent(NULL), openind(-1), updated(false), closed(false) {
 		}
 	
 		class Nodes {
-- 
2.43.0


From f344d73db2c960ad745e144c65514676990fca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 12/82] fix: IDA* stops when no node exceeds the bound

---
 search/idastar.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/search/idastar.hpp b/search/idastar.hpp
index a91718a..e0a524c 100644
--- a/search/idastar.hpp
+++ b/search/idastar.hpp
@@ -31,6 +31,9 @@ public:
 			dfrow(stdout, "iter", "dguu", (long) i, (double) bound,
 				SearchAlgorithm<D>::res.expd, SearchAlgorithm<D>::res.gend); 
 
+			if (minoob == Cost(-1))	// nothing left beyond the bound
+				break;
+
 			bound = minoob;
 		}
 
-- 
2.43.0


From af9c74019b92e6ed70ae04d63918babdd147c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 13/82] fix: a time limit that ran out does not stop the next
 search at once

---
 search/search.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/search.cc b/search/search.cc
index df641bb..2f3de10 100644
--- a/search/search.cc
+++ b/search/search.cc
@@ -102,6 +102,7 @@ void Limit::start() {
 		timed = this;
 	if (timed != this)
 		fatal("Only one timed limit is supported");
+	timeup = false;
 	if (walltime > 0)
 		settimer(ITIMER_REAL, walltime);
 	if (cputime > 0)
-- 
2.43.0


From 54da5958cc3b6181b4c15360105f7ba201a2ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 14/82] fix: beam search: pruned nodes are no longer open

---
 search/beam.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/search/beam.hpp b/search/beam.hpp
index d3e9349..7246229 100644
--- a/search/beam.hpp
+++ b/search/beam.hpp
@@ -104,6 +104,9 @@ template <class D> struct BeamSearch : public SearchAlgorithm<D> {
 				beam[c] = n;
 			}
 
+			// Pruned nodes are no longer open.
+			while (!open.empty())
+				open.pop();
 			open.clear();
       
 			for(int i = 0; i < c && !solved && !SearchAlgorithm<D>::limit(); i++) {
-- 
2.43.0


From 08f06f633b238f5579ab6a744646b36178b7ca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 15/82] fix: beam search: a missing -width is reported

---
 search/beam.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/beam.hpp b/search/beam.hpp
index 7246229..12e95ce 100644
--- a/search/beam.hpp
+++ b/search/beam.hpp
@@ -63,6 +63,7 @@ template <class D> struct BeamSearch : public SearchAlgorithm<D> {
 	BeamSearch(int argc, const char *argv[]) :
 		SearchAlgorithm<D>(argc, argv), closed(30000001) {
 		dropdups = false;
+		width = 0;
 		for (int i = 0; i < argc; i++) {
 			if (i < argc - 1 && strcmp(argv[i], "-width") == 0)
 				width = atoi(argv[++i]);
-- 
2.43.0


From dc44859fe91194c3fa9718ebdd52ff574fa80570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 16/82] fix: bugsy: -dlms and -interph are off unless given

---
 search/bugsy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 0792bef..fbb26e6 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -72,6 +72,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			SearchAlgorithm<D>(argc, argv),
 			resort(true),
 			usehlms(false),
+			usedlms(false),
 			usehhat(false),
 			usedhat(false),
 			navg(0),
@@ -79,6 +80,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			derror(0),
 			herrlast(0),
 			derrlast(0),
+			interph(false),
 			useexpdelay(false),
 			avgdelay(0),
 			delaylast(0),
-- 
2.43.0


From da3a51c4b34b7d127f1adfd0f1ee934070321e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 17/82] fix: ARA*: the inconsistent list does not cut the
 closed list's chains

---
 search/arastar.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index 433d3c6..f54bbba 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -22,7 +22,7 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 	typedef typename D::Oper Oper;
 
 	struct Node {
-		ClosedEntry<Node, D> closedent;
+		ClosedEntry<Node, D> closedent, inconsent;
 		int openind;
 		Node *parent;
 		PackedState state;
@@ -81,7 +81,18 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 		}
 	
 	private:
-	 	ClosedList<Node, Node, D> mem;
+		// A node can be both on the closed and on the inconsistent list.
+		struct Ops {
+			static ClosedEntry<Node, D> &closedentry(Node *n) {
+				return n->inconsent;
+			}
+
+			static PackedState &key(Node *n) {
+				return n->state;
+			}
+		};
+
+	 	ClosedList<Ops, Node, D> mem;
 		std::vector<Node*> incons;
 	};
 
-- 
2.43.0


From c44998472e1506266bf2e8a8f924bf744f4240c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:09 +0000
Subject: [PATCH 18/82] fix: ARA* claims no bound or convergence that it has
 not established

---
 search/arastar.hpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index f54bbba..9cc409b 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -136,14 +136,11 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 		do {
 			if (improve(d)) {
 				n++;
-				double epsprime = wt == 1.0 ? 1.0 : findbound();
-				if (wt < epsprime)
-					epsprime = wt;
-				row(n, epsprime);
+				row(n, bound());
 			}
 
 			if (wt <= 1.0) {
-				optimal = true;
+				optimal = !this->goodnodes();
 				break;
 			}
 			nextwt();
@@ -220,6 +217,14 @@ protected:
 		return !open.empty() && (cost == Cost(-1) || cost > (*open.front())->fprime);
 	}
 
+	// bound returns the bound to report for the current incumbent.
+	// The weight only is a bound if the iteration was not interrupted.
+	double bound() {
+		if (goodnodes())
+			return findbound();
+		return wt == 1.0 ? 1.0 : std::min(wt, findbound());
+	}
+
 	// findbound finds and returns the tightest bound for
 	// the current incumbent.
 	double findbound() {
@@ -252,6 +257,8 @@ protected:
 			if (f < min)
 				min = f;
 		}
+		if (min == std::numeric_limits<double>::infinity())
+			return 1.0;	// nothing left could be cheaper
 		return cost / min;
 	}
 
@@ -401,13 +408,10 @@ template <class D> struct ArastarMon : public Arastar<D> {
 		do {
 			if (improve(d)) {
 				n++;
-				double epsprime = this->wt == 1.0 ? 1.0 : this->findbound();
-				if (this->wt < epsprime)
-					epsprime = this->wt;
-				this->row(n, epsprime);
+				this->row(n, this->bound());
 			}
 			if (this->wt <= 1.0)
-				optimal = true;
+				optimal = !this->goodnodes();
 			if (this->wt <= 1.0 || shouldstop())
 				break;
 			this->nextwt();
@@ -516,14 +520,11 @@ template <class D> struct ArastarNORA : public Arastar<D> {
 		do {
 			if (improve(d)) {
 				n++;
-				double epsprime = this->wt == 1.0 ? 1.0 : this->findbound();
-				if (this->wt < epsprime)
-					epsprime = this->wt;
-				this->row(n, epsprime);
+				this->row(n, this->bound());
 			}
 
 			if (this->wt <= 1.0) {
-				optimal = true;
+				optimal = !this->goodnodes();
 				break;
 			}
 			if (shouldstop())
-- 
2.43.0


From 7d6ff5d02784eb93a290f203ad875c31fd08daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:41 +0000
Subject: [PATCH 19/82] fix: anytime monitor accepts a profile of a single time
 bin

---
 search/anyprof/profile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 9e023d8..731d7c3 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -210,7 +210,7 @@ AnytimeMonitor::AnytimeMonitor(const AnytimeProfile &p, double fw, double tw) :
 	}
 
 	for (unsigned int q1 = 1; q1 < prof.ncost; q1++) {
-	for (long t = prof.ntime-2; t >= 0; t--) {
+	for (long t = (long) prof.ntime-2; t >= 0; t--) {
 
 		double vgo = 0;
 		double psum = 0;
-- 
2.43.0


From 30aa27b2d7bde62b25c8daa55a8f03d5349c97e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:41 +0000
Subject: [PATCH 20/82] fix: real-time searches survive running out of memory
 while recording a step

---
 search/fhatlrtastar.hpp | 6 +++++-
 search/lsslrtastar.hpp  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 6c683db..b1f1fae 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -249,8 +249,12 @@ public:
 
 	virtual void output(FILE *out) {
 		SearchAlgorithm<D>::output(out);
+		// Running out of memory can leave the last step half recorded.
+		unsigned long nsteps = std::min(lengths.size(), std::min(times.size(), cputimes.size()));
+		times.resize(nsteps);
+		cputimes.resize(nsteps);
+		lengths.resize(nsteps);
 		dfpair(out, "num steps", "%lu", (unsigned long) times.size());
-		assert (lengths.size() == times.size());
 		dfpair(out, "h error last", "%g", herror);
 		dfpair(out, "d error last", "%g", derror);
 		if (times.size() != 0) {
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 9193fb9..73f38ec 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -276,8 +276,12 @@ public:
 		nodes.output(stdout);
 		lssNodes.prstats(stdout, "lss nodes ");
 		dfpair(out, "wt", "%g", weight);
+		// Running out of memory can leave the last step half recorded.
+		unsigned long nsteps = std::min(lengths.size(), std::min(times.size(), cputimes.size()));
+		times.resize(nsteps);
+		cputimes.resize(nsteps);
+		lengths.resize(nsteps);
 		dfpair(out, "num steps", "%lu", (unsigned long) times.size());
-		assert (lengths.size() == times.size());
 		if (times.size() != 0) {
 			double min = times.front();
 			double max = times.front();
-- 
2.43.0


From 5588679afa732e78c0265d51341a674e628fcfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 21/82] fix: pancake searches do not change states that are
 hash table keys

---
 pancake/pancake.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pancake/pancake.hpp b/pancake/pancake.hpp
index c3db048..0171875 100644
--- a/pancake/pancake.hpp
+++ b/pancake/pancake.hpp
@@ -113,8 +113,11 @@ public:
 		dst = s;
 	}
 
-	State &unpack(const State &dst, PackedState &pkd) const {
-		return pkd;
+	// unpack makes a copy: an Edge changes its state in place, and
+	// the packed state may be the key of a hash table.
+	State &unpack(State &buf, PackedState &pkd) const {
+		buf = pkd;
+		return buf;
 	}
 
 	void dumpstate(FILE *out, State &s) const {
-- 
2.43.0


From 9b71aa31b8e5cc813a38528463dd3e192038adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 22/82] fix: movingai maps initialise their cost type and
 reject unknown terrain

---
 gridnav/gridmap.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gridnav/gridmap.cc b/gridnav/gridmap.cc
index 017f618..06015e4 100644
--- a/gridnav/gridmap.cc
+++ b/gridnav/gridmap.cc
@@ -202,6 +202,7 @@ void GridMap::load_sturtevant(FILE *in) {
 	if (fscanf(in, "height %u\nwidth %u\nmap\n", &h, &w) != 2)
 		readfail("Failed to read the map header");
 
+	lifecost = false;
 	setsize(w, h);
 
 	for (unsigned int y = 1; y < h-1; y++) {
@@ -215,6 +216,7 @@ void GridMap::load_sturtevant(FILE *in) {
 	const struct Terrain{
 		char flags[CHAR_MAX];
 		Terrain() {
+			memset(flags, 0, sizeof(flags));
 			flags[(int) '.'] = Passable;
 			flags[(int) 'G'] = Passable;
 			flags[(int) '@'] = OutOfBounds;
@@ -226,8 +228,12 @@ void GridMap::load_sturtevant(FILE *in) {
 	} terrain;
 
 	for (unsigned int y = 1; y < h-1; y++) {
-		for (unsigned int x = 1; x < w-1; x++)
-			flags[y*w + x] = terrain.flags[(int) map[y*w + x]];
+		for (unsigned int x = 1; x < w-1; x++) {
+			unsigned int c = map[y*w + x];
+			if (c >= sizeof(terrain.flags) || !terrain.flags[c])
+				readfail("x=%u, y=%u: Unexpected character [%c] in map", x, y, c);
+			flags[y*w + x] = terrain.flags[c];
+		}
 	}
 
 	setoctile();
-- 
2.43.0


From 93332c85d3bcb5ea1226a7b1346f6072912f3717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 23/82] fix: four-way life heuristic does not go below the
 bottom row

---
 gridnav/gridnav.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index ef945ec..edfeb7f 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -311,7 +311,7 @@ private:
 		int dx = abs(gx - x);
 		int overcost = lifecost(y > gy ? y : gy);
 		int upover = dx*overcost + costfrom(y, gy);
-		int upoverdown = costfrom(y, h) + costfrom(h, gy);
+		int upoverdown = costfrom(y, h-1) + costfrom(h-1, gy);
 
 		if (upover < upoverdown)
 			return std::make_pair(Cost(upover), dx+abs(gy - y));
-- 
2.43.0


From bde7fc52fa8b02778d8e3af8839633893bc67134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 24/82] fix: vacuum heuristic without dirt

---
 vacuum/vacuum.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 2fda4aa..2549202 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -47,6 +47,9 @@ public:
 	State initialstate(void) const;
 
 	Cost h(const State &s) const {
+		if (s.ndirt == 0)
+			return Cost(0);
+
 		unsigned int i;
 		for (i = 0; i < s.dirt->size() && !s.dirt->at(i); i++)
 			;
-- 
2.43.0


From dcec9efc0b820f41ef99a80dc9c783164591454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:08 +0000
Subject: [PATCH 25/82] fix: bugsy interpolates h when both weights are zero

---
 search/bugsy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index fbb26e6..17c2702 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -332,7 +332,7 @@ private:
 		if (usehhat) {
 			if (interph) {
 				double hhat = h + d*herrlast;
-				double w = wf/(wf+wt);
+				double w = wf+wt > 0 ? wf/(wf+wt) : 1;
 				h = n->h*w + hhat*(1-w);
 			} else {
 				h += d * herrlast;
-- 
2.43.0


From 1700548111fe6160dbcb7d13c6705816f45feb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 26/82] fix: dock robot instances need not list piles by bottom
 box

---
 drobot/drobot.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 13a1a81..2c32a7e 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -151,6 +151,10 @@ reloop:
 		line = readline(in);
 	}
 
+	// Piles are looked up by their bottom box, see Loc::findpile.
+	for (unsigned int i = 0; i < nlocs; i++)
+		std::sort(initlocs[i].piles.begin(), initlocs[i].piles.end());
+
 	initheuristic();
 }
 
-- 
2.43.0


From 1f7bdb8cb45541464c9d3b72246a308b432e9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 27/82] fix: dock robot operators are not undone in a
 destructor, which may need memory

---
 drobot/drobot.hpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/drobot/drobot.hpp b/drobot/drobot.hpp
index ad4bfdb..050cb2a 100644
--- a/drobot/drobot.hpp
+++ b/drobot/drobot.hpp
@@ -265,28 +265,20 @@ struct DockRobot {
 		Cost cost;
 		Oper revop;
 		Cost revcost;
-		State &state;
 
-		Cost oldh, oldd;
+		// state is a copy: undoing the operator in a destructor
+		// would need memory, and there may not be any.
+		State state;
 
 		Edge(const DockRobot &d, State &s, const Oper &o) : state(s), dom(d) {
 			apply(state, o);
-			oldh = state.h;
-			oldd = state.d;
 			state.h = state.d = Cost(-1);
 		}
 
-		~Edge() {
-			apply(state, revop);
-			state.h = oldh;
-			state.d = oldd;
-		}
-
 	private:
 
 		void apply(State&, const Oper&);
 
-		// needed to reverse an operator application.
 		const DockRobot &dom;
 	};
 
-- 
2.43.0


From 293c6dfaf9ae085e4ffe198527ddb52ccd8c1a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 28/82] fix: plat2d accepts levels that are taller than wide

---
 plat2d/plat2d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plat2d/plat2d.cc b/plat2d/plat2d.cc
index ff2674a..bdc5e1e 100644
--- a/plat2d/plat2d.cc
+++ b/plat2d/plat2d.cc
@@ -26,7 +26,7 @@ Plat2d::Plat2d(FILE *in) : lvl(in) {
 			gy = y;
 		}
 		if (lvl.at(x, y).tile.flags & Tile::Up) {
-			if (x0 < lvl.width() || x0 < lvl.height())
+			if (x0 < lvl.width() || y0 < lvl.height())
 				fatal("There are multiple start locations in the level");
 			x0 = x;
 			y0 = y;
-- 
2.43.0


From eb9771a07bc385dc6436524015a0762614a7bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 29/82] fix: a datafile whose writing failed is not completed,
 and the solver fails

---
 utils/datafile.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/datafile.cc b/utils/datafile.cc
index c5a4728..e152579 100644
--- a/utils/datafile.cc
+++ b/utils/datafile.cc
@@ -134,7 +134,12 @@ void dffooter(FILE *f) {
 	tstr[strlen(tstr)-1] = '\0';
 	dfpair(f, "wall finish date", "%s", tstr);
 	tryprocstatus(f);
-	fputs(end4, f);
+
+	// The end line says that everything before it was written.
+	if (ferror(f))
+		fatal("failed to write the data file");
+	if (fputs(end4, f) == EOF || fflush(f) != 0)
+		fatalx(errno, "failed to write the data file");
 }
 
 void dfprocstatus(FILE *f) {
-- 
2.43.0


From 0dc9e9593b4578c1466a229862b37f2ea71a93eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:42 +0000
Subject: [PATCH 30/82] fix: a time limit does not interrupt output in progress

---
 search/search.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/search.cc b/search/search.cc
index 2f3de10..081ded4 100644
--- a/search/search.cc
+++ b/search/search.cc
@@ -124,6 +124,7 @@ void Limit::finish() {
 static void settimer(int timer, unsigned long secs) {
 	struct sigaction act = {};
 	act.sa_handler = handletimeout;
+	act.sa_flags = SA_RESTART;	// output in progress is not cut short
 	int sig = timersig(timer);
 	if (sigaction(sig, &act, NULL) != 0)
 		fatal("failed to set alarm (sig=%d) handler", sig);
-- 
2.43.0


From 764eb0f100dd313550888c54213a94c7bfbc4ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 31/82] fix: a segments instance that ends in a comment does
 not hang the solver

---
 segments/segments.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index b36bf87..bcb6b56 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -58,7 +58,7 @@ Segments::Segments(FILE *in) {
 	while (c == '#') {
 		do {
 			c = fgetc(in);
-		} while (c != '\n');
+		} while (c != '\n' && c != EOF);
 		c = fgetc(in);
 	}
 	ungetc(c, in);
-- 
2.43.0


From 57525fda5e662745f4e029024087cbfe38aecea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 32/82] fix: solvers do not search an instance that failed to
 be read

---
 plat2d/main.cc          | 2 ++
 search/main.hpp         | 5 +++++
 traffic/main_traffic.cc | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/plat2d/main.cc b/plat2d/main.cc
index 8384492..bb2ceb9 100644
--- a/plat2d/main.cc
+++ b/plat2d/main.cc
@@ -25,6 +25,8 @@ int main(int argc, const char *argv[]) {
 	}
 
 	Plat2d d(infile);
+	if (ferror(infile))
+		fatal("Failed to read the level");
 	if (infile != stdin)
 		fclose(infile);
 
diff --git a/search/main.hpp b/search/main.hpp
index e914071..6ff444b 100644
--- a/search/main.hpp
+++ b/search/main.hpp
@@ -33,6 +33,11 @@ template<class D> Result<D> search(D &d, int argc, const char *argv[]) {
 }
 
 template<class D> Result<D> searchGet(SearchAlgorithm<D>*(*get)(int, const char *[]), D &d, int argc, const char *argv[]) {
+	// The end of the instance and a failure to read it look
+	// the same to scanf.
+	if (ferror(stdin))
+		fatal("Failed to read the instance");
+
 	SearchAlgorithm<D> *srch = get(argc, argv);
 	if (!srch && argc > 1)
 		fatal("Unknow search algorithm: %s", argv[1]);
diff --git a/traffic/main_traffic.cc b/traffic/main_traffic.cc
index a8dd337..516f964 100644
--- a/traffic/main_traffic.cc
+++ b/traffic/main_traffic.cc
@@ -24,6 +24,8 @@ int main(int argc, const char *argv[]) {
 	}
 
 	Traffic d(inst);
+	if (ferror(inst))
+		fatal("Failed to read the instance");
 
 	if (instpath[0] != '\0') {
 		dfpair(stdout, "level", "%s", instpath);
-- 
2.43.0


From aac14152fbc5e021a333d53d44b8134f3a122d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 33/82] fix: traffic rejects an instance that ends within an
 obstacle

---
 traffic/gridmap.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/traffic/gridmap.cc b/traffic/gridmap.cc
index b6cef77..10d0c0b 100644
--- a/traffic/gridmap.cc
+++ b/traffic/gridmap.cc
@@ -17,10 +17,12 @@ void GridMap::load(FILE *in) {
 
 	sz = w * h;
 
-	int x, y, dx, dy;
-	while(fscanf(in, "%d %d %d %d\n", &x, &y, &dx, &dy) == 4) {
+	int x, y, dx, dy, n;
+	while((n = fscanf(in, "%d %d %d %d\n", &x, &y, &dx, &dy)) == 4) {
 		obstacles.emplace_back(x,y,dx,dy);
 	}
+	if (n != EOF)
+		fatal("Malformed obstacle");
 	setfourway();
 }
 
-- 
2.43.0


From 8ecd9c45c657cf2a4da4feaf90a80c67bb33db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 34/82] fix: visnav rejects a visibility graph with a malformed
 vertex count or edge

---
 visnav/visgraph.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/visnav/visgraph.cc b/visnav/visgraph.cc
index 1c8b2ae..82fa8ec 100644
--- a/visnav/visgraph.cc
+++ b/visnav/visgraph.cc
@@ -10,9 +10,19 @@ VisGraph::VisGraph(FILE *in) : map(in) {
 	int res = fscanf(in, " %u vertices\n", &nverts);
 	if (res == EOF && ferror(in))
 		fatalx(errno, "Failed to read the visibility graph");
-	if (res != EOF) {
-		for (unsigned int i = 0; i < nverts; i++)
-			verts.push_back(Vert(in));
+	if (res == EOF)
+		return;
+	if (res != 1)
+		fatal("Malformed visibility graph");
+
+	for (unsigned int i = 0; i < nverts; i++)
+		verts.push_back(Vert(in));
+
+	for (unsigned int i = 0; i < nverts; i++) {
+	for (unsigned int j = 0; j < verts[i].edges.size(); j++) {
+		if (verts[i].edges[j].dst >= nverts)
+			fatal("Malformed edge: there is no vertex %u", verts[i].edges[j].dst);
+	}
 	}
 }
 
-- 
2.43.0


From 61110903c7c34bf4c2cef0a92a069d61b7f8af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 35/82] fix: tiles rejects positions that are out of bounds

---
 tiles/tiles.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tiles/tiles.cc b/tiles/tiles.cc
index 7a93d6c..88d7234 100644
--- a/tiles/tiles.cc
+++ b/tiles/tiles.cc
@@ -33,7 +33,7 @@ void Tiles::readruml(FILE *in) {
 	if (!safe::can_mul(w, h))
 		fatal("The tiles board is too big");
 
-	if (w != Width && h != HEIGHT)
+	if (w != Width || h != HEIGHT)
 		fatal("Width and height instance/compiler option mismatch");
 
 	if (fscanf(in, " starting positions for each tile:") != 0)
@@ -44,6 +44,8 @@ void Tiles::readruml(FILE *in) {
 		int r = fscanf(in, " %u", &p);
 		if (r != 1)
 			fatal("Failed to read the starting position for tile %d", t);
+		if (p >= Ntiles)
+			fatal("The starting position for tile %d is out of bounds", t);
 		init[p] = t;
 	}
 
@@ -54,6 +56,8 @@ void Tiles::readruml(FILE *in) {
 		unsigned int p;
 		if (fscanf(in, " %u", &p) != 1)
 			fatal("Failed to read the goal position");
+		if (p >= Ntiles)
+			fatal("The goal position for tile %d is out of bounds", t);
 		goalpos[t] = p;
 	}
 }
-- 
2.43.0


From 2dec42275c65dfa2bc09a7de69fa9434fecbd471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 36/82] fix: drobot rejects an instance with missing locations,
 piles, or containers

---
 drobot/drobot.cc | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 2c32a7e..81b9978 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -78,7 +78,8 @@ DockRobot::DockRobot(FILE *in) {
 	maxcranes.resize(nlocs, 0);
 	maxpiles.resize(nlocs, 0);
 	goal.resize(nboxes, -1);
-	std::vector<unsigned int> pilelocs(npiles);
+	std::vector<unsigned int> pilelocs(npiles, nlocs);
+	std::vector<bool> boxplaced(nboxes, false);
 
 	long loc = -1;
 	boost::optional<std::string> line = readline(in);
@@ -88,21 +89,28 @@ DockRobot::DockRobot(FILE *in) {
 			goto reloop;
 
 		if (toks[0] == "location") {
+			if (toks.size() != 2)
+				fatal("Malformed location");
+
 			loc = strtol(toks[1].c_str(), NULL, 10);
 			if (loc < 0 || loc >= nlocs)
 				fatal("Invalid location %d", loc);
 
 		} else if (toks[0] == "adjacent:") {
-			if (toks.size() != nlocs + 1)
+			if (loc < 0 || toks.size() != nlocs + 1 || adj[loc].size() > 0)
 				fatal("Malformed adjacency list for location %ld", loc);
 
 			for (unsigned int i = 1; i < toks.size(); i++)
 				adj[loc].push_back(strtof(toks[i].c_str(), NULL));
 
 		} else if (toks[0] == "cranes:") {
+			if (loc < 0)
+				fatal("Crane list without a location");
 			maxcranes[loc] = toks.size()-1;
 
 		} else if (toks[0] == "piles:") {
+			if (loc < 0)
+				fatal("Pile list without a location");
 			for (unsigned int i = 1; i < toks.size(); i++) {
 				long p = strtol(toks[i].c_str(), NULL, 10);
 				if (p < 0 || p >= npiles)
@@ -118,16 +126,21 @@ DockRobot::DockRobot(FILE *in) {
 			long pnum = strtol(toks[1].c_str(), NULL, 10);
 			if (pnum < 0 || pnum >= npiles)
 				fatal("Malformed pile descriptor, pile %ld is out of bounds", pnum);
+			if (pilelocs[pnum] >= nlocs)
+				fatal("Malformed pile descriptor, pile %ld has no location", pnum);
 
 			line = readline(in);
 			if (!line)
-				goto reloop;
+				fatal("Malformed pile descriptor, pile %ld has no contents", pnum);
 			toks = tokens(*line);
 			Pile p;
 			for (unsigned int i = 0; i < toks.size(); i++) {
 				long box = strtol(toks[i].c_str(), NULL, 10);
 				if (box < 0 || box >= nboxes)
 					fatal("Malformed pile, box %ld is out of bounds", box);
+				if (boxplaced[box])
+					fatal("Malformed pile, box %ld is in two places", box);
+				boxplaced[box] = true;
 				p.stack.push_back(box);
 			}
 			if (p.stack.size() > 0)
@@ -151,6 +164,19 @@ reloop:
 		line = readline(in);
 	}
 
+	for (unsigned int i = 0; i < nlocs; i++) {
+		if (adj[i].size() != nlocs)
+			fatal("There is no adjacency list for location %u", i);
+	}
+	for (unsigned int i = 0; i < npiles; i++) {
+		if (pilelocs[i] >= nlocs)
+			fatal("There is no location for pile %u", i);
+	}
+	for (unsigned int i = 0; i < nboxes; i++) {
+		if (!boxplaced[i])
+			fatal("Container %u is in no pile", i);
+	}
+
 	// Piles are looked up by their bottom box, see Loc::findpile.
 	for (unsigned int i = 0; i < nlocs; i++)
 		std::sort(initlocs[i].piles.begin(), initlocs[i].piles.end());
-- 
2.43.0


From a72e34f8896104ac447b5bb5148e41ad502602c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:23 +0000
Subject: [PATCH 37/82] fix: visnav rejects polygons that failed to be read or
 have too few vertices

---
 utils/geom2d.cc | 4 ++++
 visnav/main.cc  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index 5534029..f97ea77 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -51,6 +51,10 @@ namespace geom2d {
 				fatal("Malformed vertex");
 			verts.push_back(Pt(x, y));
 		}
+		if (ferror(in))
+			fatal("Failed to read the polygon");
+		if (nverts < 3)
+			fatal("Malformed polygon: it has %u vertices", nverts);
 		bbox = Bbox(verts);
 		removecolinear();
 		initsides();
diff --git a/visnav/main.cc b/visnav/main.cc
index 1fadf5e..3285a0e 100644
--- a/visnav/main.cc
+++ b/visnav/main.cc
@@ -9,7 +9,7 @@ int main(int argc, const char *argv[]) {
 	dfheader(stdout);
 	VisGraph g(stdin);
 	double x0, y0, x1, y1;
-	if (fscanf(stdin, " %lg %lg %lg %lg", &x0, &y0, &x1, &y1) != 4)
+	if (fscanf(stdin, " %lg %lg %lg %lg", &x0, &y0, &x1, &y1) != 4 || ferror(stdin))
 		fatal("Failed to read start and finish locations");
 
 	dfpair(stdout, "x0", "%g", x0);
-- 
2.43.0


From ffe033f1826997620d3f69fe4f8421ad761f5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:54 +0000
Subject: [PATCH 38/82] fix: removing from a hash table unlinks elements behind
 the first of their bucket

---
 structs/htable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/htable.hpp b/structs/htable.hpp
index b6b8dc2..d59280a 100644
--- a/structs/htable.hpp
+++ b/structs/htable.hpp
@@ -91,7 +91,7 @@ public:
 		if (q == NULL)	// head of list
 			bins[i] = Ops::entry(p).nxt;
 		else
-			q = Ops::entry(p).nxt;
+			Ops::entry(q).nxt = Ops::entry(p).nxt;
 		return true;
 	}
 
-- 
2.43.0


From 837fc410cfeb1aa5002972a4be849b7260c29393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:54 +0000
Subject: [PATCH 39/82] fix: an element that could not be added to an integer
 open list is not marked as in it

---
 search/search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/search.hpp b/search/search.hpp
index 48bc6be..a36b64a 100644
--- a/search/search.hpp
+++ b/search/search.hpp
@@ -161,8 +161,8 @@ class OpenList <Ops, Node, IntOpenCost> {
 			if (p > max)
 				max = p;
 
-			Ops::setind(n, bkts[p].size());
 			bkts[p].push_back(n);
+			Ops::setind(n, bkts[p].size() - 1);
 			fill++;
 		}
 
-- 
2.43.0


From 08380cfb9afdde0e5b51eb1605476d7b917107c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:54 +0000
Subject: [PATCH 40/82] fix: a pool stays usable after it failed to allocate a
 block

---
 utils/pool.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utils/pool.hpp b/utils/pool.hpp
index 8f4a648..7c8b614 100644
--- a/utils/pool.hpp
+++ b/utils/pool.hpp
@@ -1,6 +1,7 @@
 // Copyright © 2013 the Search Authors under the MIT license. See AUTHORS for the list of authors.
 #pragma once
 
+#include <memory>
 #include <vector>
 #include <cstdlib>
 
@@ -53,12 +54,13 @@ public:
 private:
 
 	void newblk() {
+		if (blks.size() <= (unsigned int) (blk + 1)) {
+			std::unique_ptr<Ent[]> ents(new Ent[blksz]);
+			blks.push_back(ents.get());
+			ents.release();
+		}
 		nxt = 0;
 		blk++;
-		if (blks.size() <= (unsigned int) blk) {
-			Ent *blk = new Ent[blksz];
-			blks.push_back(blk);
-		}
 	}
 
 	union Ent {
-- 
2.43.0


From 10071a7a5d844ea15275826c787f3622c2bf9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:54 +0000
Subject: [PATCH 41/82] fix: a closed list that failed to grow does not leak

---
 search/closedlist.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index 6eb6e9a..4c2a33c 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -4,6 +4,7 @@
 #include <cstdio>
 #include <typeinfo>
 #include <cstring>
+#include <memory>
 #include <string>
 
 void dfpair(FILE *, const char *key, const char *fmt, ...);	// utils.hpp
@@ -211,8 +212,10 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 	}
 
 	void resize(unsigned int sz) {
-		Node **b = new Node*[sz];
-		unsigned int *f = new unsigned int[sz];
+		std::unique_ptr<Node*[]> newbins(new Node*[sz]);
+		std::unique_ptr<unsigned int[]> newfills(new unsigned int[sz]);
+		Node **b = newbins.get();
+		unsigned int *f = newfills.get();
 
 		for (unsigned int i = 0; i < sz; i++) {
 			b[i] = NULL;
@@ -232,8 +235,8 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 		if (fills)
 			delete []fills;
 
-		bins = b;
-		fills = f;
+		bins = newbins.release();
+		fills = newfills.release();
 		nbins = sz;
 		nresize++;
 	}
-- 
2.43.0


From 6a57346a4c64905ac1c4084c4e7dff734d7e7773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:25 +0000
Subject: [PATCH 42/82] fix: a cached lookahead table that is damaged is not
 used in part

---
 search/lsslrtastar.hpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 73f38ec..9cb8acf 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -699,23 +699,28 @@ continue;
 			fatalx(errno, "Failed to open %s for reading", path.c_str());
 
 		unsigned int size;
-		if (fscanf(f, "%u\n", &size) != 1) {
-			fprintf(stderr, "Failed to read cached lookahead table size");
-			return false;
-		}
+		char nl;
+		bool ok = fscanf(f, "%u%c", &size, &nl) == 2 && nl == '\n' && size > 0;
+		if (!ok)
+			fprintf(stderr, "Failed to read cached lookahead table size\n");
 
-		for (unsigned int i = 0; i < size; i++) {
+		for (unsigned int i = 0; ok && i < size; i++) {
 			unsigned int s;
 			double t;
-			if (fscanf(f, "%u %lf\n", &s, &t) != 2) {
-				fprintf(stderr, "Failed to read cached entry");
-				return false;
-			}
-			lsstable.emplace_back(s, t);
+			// An entry without its newline may have been cut short.
+			ok = fscanf(f, "%u %lf%c", &s, &t, &nl) == 3 && nl == '\n';
+			if (ok)
+				lsstable.emplace_back(s, t);
+			else
+				fprintf(stderr, "Failed to read cached entry\n");
 		}
 
+		if (ferror(f))
+			ok = false;
 		fclose(f);
-		return true;
+		if (!ok)
+			lsstable.clear();
+		return ok;
 	}
 
 	void storetable(std::string path) {
-- 
2.43.0


From 6af862172cc51447260747fc74e6ed96ed83b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:25 +0000
Subject: [PATCH 43/82] fix: a lookahead table is cached in one step, or the
 solver fails

---
 search/lsslrtastar.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 9cb8acf..cc8df8b 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -7,6 +7,7 @@
 #include "../rdb/rdb.hpp"
 #include <ctime>
 #include <cerrno>
+#include <unistd.h>
 #include <vector>
 
 class LookaheadLimit {
@@ -723,14 +724,22 @@ continue;
 		return ok;
 	}
 
+	// storetable caches the table for later runs.  The table appears
+	// in one step: other runs may be looking for it.
 	void storetable(std::string path) {
-		FILE *f = fopen(path.c_str(), "w");
+		std::string tmp = path + "." + std::to_string((long) getpid()) + "~";
+		FILE *f = fopen(tmp.c_str(), "w");
 		if (!f)
-			fatalx(errno, "Failed to open %s for writing", path.c_str());
+			fatalx(errno, "Failed to open %s for writing", tmp.c_str());
 		fprintf(f, "%u\n", (unsigned int) lsstable.size());
 		for (auto e : lsstable)
 			fprintf(f, "%u %f\n", e.size, e.maxTime);
-		fclose(f);
+		bool failed = ferror(f);
+		if (fclose(f) != 0 || failed || rename(tmp.c_str(), path.c_str()) != 0) {
+			int err = errno;
+			remove(tmp.c_str());
+			fatalx(err, "Failed to write %s", path.c_str());
+		}
 	}
 
 	virtual void start(double g) {
-- 
2.43.0


From c4ae5963ad03a1e753879d4df5b012971ba60081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 44/82] fix: mkprof does not iterate over the keys of two
 different copies

---
 search/anyprof/mkprof.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/anyprof/mkprof.cc b/search/anyprof/mkprof.cc
index 04a43e7..647ffb6 100644
--- a/search/anyprof/mkprof.cc
+++ b/search/anyprof/mkprof.cc
@@ -30,7 +30,8 @@ int main(int argc, const char *argv[]) {
 
 	RdbAttrs attrs = attrargs(argc-4, argv+4);
 	printf("attributes:\n");
-	for (auto k = attrs.getkeys().begin(); k != attrs.getkeys().end(); k++)
+	auto keys = attrs.getkeys();
+	for (auto k = keys.begin(); k != keys.end(); k++)
 		printf("\t%s=%s\n", k->c_str(), attrs.lookup(*k).c_str());
 	if (!attrs.mem("alg"))
 		fatal("alg attribute must be specified");
-- 
2.43.0


From 0feb346f970b3ab9cabcd79481855763e2001539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 45/82] fix: mkprof saves a whole profile or fails

---
 search/anyprof/mkprof.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/search/anyprof/mkprof.cc b/search/anyprof/mkprof.cc
index 647ffb6..74c68b8 100644
--- a/search/anyprof/mkprof.cc
+++ b/search/anyprof/mkprof.cc
@@ -4,6 +4,7 @@
 #include "../../rdb/rdb.hpp"
 #include "../../utils/utils.hpp"
 #include <cerrno>
+#include <unistd.h>
 
 static unsigned long nsols;
 
@@ -69,11 +70,18 @@ int main(int argc, const char *argv[]) {
 	std::string opath = pathfor(root, attrs);
 	printf("saving profile to %s\n", opath.c_str());
 
-	FILE *f = fopen(opath.c_str(), "w");
+	// The profile appears in one step, whole.
+	std::string tmp = opath + "." + std::to_string((long) getpid()) + "~";
+	FILE *f = fopen(tmp.c_str(), "w");
 	if (!f)
-		fatal("failed to open %s for writing", opath.c_str());
+		fatalx(errno, "failed to open %s for writing", tmp.c_str());
 	prof.save(f);
-	fclose(f);
+	bool failed = ferror(f);
+	if (fclose(f) != 0 || failed || rename(tmp.c_str(), opath.c_str()) != 0) {
+		int err = errno;
+		remove(tmp.c_str());
+		fatalx(err, "failed to write %s", opath.c_str());
+	}
 
 	return 0;
 }
-- 
2.43.0


From e4505056687503c13466f88037bbd44fcfb66152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 46/82] fix: mkprof rejects incumbent rows with missing columns

---
 search/anyprof/mkprof.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/search/anyprof/mkprof.cc b/search/anyprof/mkprof.cc
index 74c68b8..a46d407 100644
--- a/search/anyprof/mkprof.cc
+++ b/search/anyprof/mkprof.cc
@@ -95,6 +95,9 @@ static void dfline(std::vector<std::string> &line, void *aux) {
 	if (line[0] != "#altrow" || (line[1] != "sol" && line[1] != "incumbent"))
 		return;
 
+	if (line.size() < 9)
+		fatal("malformed %s row", line[1].c_str());
+
 	AnytimeProfile::Solution sol;
 	sol.cost = strtod(line[7].c_str(), NULL);
 	sol.time = strtod(line[8].c_str(), NULL);
-- 
2.43.0


From 6970fe3097779a9619ef384cb19f717c64bf2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 47/82] fix: a truncated anytime profile is not accepted

---
 search/anyprof/profile.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 731d7c3..4cef8e2 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -24,27 +24,34 @@ AnytimeProfile::AnytimeProfile(FILE *in) {
 }
 
 void AnytimeProfile::read(FILE *in) {
-	if (fscanf(in, "%u %u\n", &ncost, &ntime) != 2)
+	// A number that is not followed by its newline may have been
+	// cut short.
+	char nl;
+	if (fscanf(in, "%u %u%c", &ncost, &ntime, &nl) != 3 || nl != '\n')
 		fatal("failed to read number of bins");
+	if (ncost == 0 || ntime == 0)
+		fatal("the profile has no bins");
 
-	if (fscanf(in, "%lg %lg\n", &mincost, &maxcost) != 2)
+	if (fscanf(in, "%lg %lg%c", &mincost, &maxcost, &nl) != 3 || nl != '\n')
 		fatal("failed to read min and max cost");
-	if (fscanf(in, "%lg %lg\n", &mintime, &maxtime) != 2)
+	if (fscanf(in, "%lg %lg%c", &mintime, &maxtime, &nl) != 3 || nl != '\n')
 		fatal("failed to read min and max time");
 
 	initbins(ncost, ntime);
 	for (unsigned int i = 0; i < ncost*ntime; i++) {
-		if (fscanf(in, "%u\n", &qtcounts[i]) != 1)
+		if (fscanf(in, "%u%c", &qtcounts[i], &nl) != 2 || nl != '\n')
 			fatal("failed to read %uth qtcount", i);
 	}
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++) {
-		if (fscanf(in, "%u\n", &qqtcounts[i]) != 1)
-			fatal("failed to read the %uth qqtcount");
+		if (fscanf(in, "%u%c", &qqtcounts[i], &nl) != 2 || nl != '\n')
+			fatal("failed to read the %uth qqtcount", i);
 	}
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++) {
-		if (fscanf(in, "%lg\n", &qqtprobs[i]) != 1)
-			fatal("failed to read the %uth qqtprob");
+		if (fscanf(in, "%lg%c", &qqtprobs[i], &nl) != 2 || nl != '\n')
+			fatal("failed to read the %uth qqtprob", i);
 	}
+	if (ferror(in))
+		fatal("failed to read the profile");
 }
 
 void AnytimeProfile::save(FILE *out) const {
-- 
2.43.0


From 13405849ac2f36f03d6f9182ed4b7430861ab4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 48/82] fix: an anytime profile is saved with full precision

---
 search/anyprof/profile.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 4cef8e2..f227d74 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -56,14 +56,14 @@ void AnytimeProfile::read(FILE *in) {
 
 void AnytimeProfile::save(FILE *out) const {
 	fprintf(out, "%u %u\n", ncost, ntime);
-	fprintf(out, "%g %g\n", mincost, maxcost);
-	fprintf(out, "%g %g\n", mintime, maxtime);
+	fprintf(out, "%.17g %.17g\n", mincost, maxcost);
+	fprintf(out, "%.17g %.17g\n", mintime, maxtime);
 	for (unsigned int i = 0; i < ncost*ntime; i++)
 		fprintf(out, "%u\n", qtcounts[i]);
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++)
 		fprintf(out, "%u\n", qqtcounts[i]);
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++)
-		fprintf(out, "%15.15g\n", qqtprobs[i]);
+		fprintf(out, "%.17g\n", qqtprobs[i]);
 }
 
 void AnytimeProfile::initbins(unsigned int cb, unsigned int tb) {
-- 
2.43.0


From f0b9b53d21207d6b0949c84581a8550b90828c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 49/82] fix: an anytime profile may be made from solutions
 found at the same recorded time

---
 search/anyprof/profile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index f227d74..48478ff 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -109,7 +109,7 @@ void AnytimeProfile::countsolutions(const std::vector<SolutionStream> &streams)
 			unsigned int curdt = 0;
 	
 			for (unsigned int j = i+1; j < stream.size(); j++) {
-				assert(stream[j].time > stream[i].time);
+				assert(stream[j].time >= stream[i].time);
 				assert(stream[j].cost <= stream[i].cost);
 	
 				unsigned int nextq = costbin(stream[j].cost);
-- 
2.43.0


From acebe051804af55266b36c1dd960d03dbbb9a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:44 +0000
Subject: [PATCH 50/82] fix: a cost or time just below the maximum of a profile
 is in its last bin

---
 search/anyprof/profile.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/search/anyprof/profile.hpp b/search/anyprof/profile.hpp
index 99c77f5..7a8bae4 100644
--- a/search/anyprof/profile.hpp
+++ b/search/anyprof/profile.hpp
@@ -1,6 +1,7 @@
 // Copyright © 2013 the Search Authors under the MIT license. See AUTHORS for the list of authors.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <cassert>
 #include <cstdio>
@@ -92,7 +93,8 @@ private:
 		if (c == maxcost)
 			return ncost-1;
 		double width = (maxcost-mincost)/ncost;
-		return (c-mincost)/width;
+		unsigned int q = (c-mincost)/width;
+		return std::min(q, ncost-1);	// may have been rounded up
 	}
 
 	// timebin returns the bin into which the given
@@ -104,7 +106,8 @@ private:
 		if (dt == maxtime-mintime)
 			return ntime-1;
 		double width = (maxtime-mintime)/ntime;
-		return dt/width;
+		unsigned int t = dt/width;
+		return std::min(t, ntime-1);	// may have been rounded up
 	}
 
 	// qtcounts is an array of the number of solutions
@@ -144,11 +147,12 @@ public:
 		if (cost >= prof.maxcost || time >= prof.maxtime)
 			return true;
 
+		// The divisions may have been rounded up to the number of bins.
 		unsigned int q = (cost - prof.mincost) / qwidth;
-		assert (q < prof.ncost);
+		q = std::min(q, prof.ncost-1);
 
 		unsigned int t = (time - prof.mintime) / twidth;
-		assert (t < prof.ntime);
+		t = std::min(t, prof.ntime-1);
 
 		return policy[index(q, t)];
 	}
-- 
2.43.0


From 7cd064e36ff442ce1d9202b55b7e7e4f722b3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:19 +0000
Subject: [PATCH 51/82] fix: the bounds of a segments instance are width wide
 and height high

---
 segments/segments.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index bcb6b56..477fe18 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -73,10 +73,10 @@ Segments::Segments(FILE *in) {
 	for (unsigned int i = 0; i < nangles; i++)
 		angles.push_back(Angle(dtheta*i));
 
-	bounds[0] = LineSg(Pt(0, 0), Pt(0, width));
-	bounds[1] = LineSg(Pt(0, width), Pt(height, width));
-	bounds[2] = LineSg(Pt(height, width), Pt(height, 0));
-	bounds[3] = LineSg(Pt(height, 0), Pt(0, 0));
+	bounds[0] = LineSg(Pt(0, 0), Pt(0, height));
+	bounds[1] = LineSg(Pt(0, height), Pt(width, height));
+	bounds[2] = LineSg(Pt(width, height), Pt(width, 0));
+	bounds[3] = LineSg(Pt(width, 0), Pt(0, 0));
 
 	unsigned int n;
 	if (fscanf(in, "%u\n", &n) != 1)
@@ -108,7 +108,7 @@ Segments::Segments(unsigned int w, unsigned int h, unsigned int t, const std::ve
 	bounds[0] = LineSg(Pt(0, 0), Pt(w, 0));
 	bounds[1] = LineSg(Pt(w, 0), Pt(w, h));
 	bounds[2] = LineSg(Pt(w, h), Pt(0, h));
-	bounds[3] = LineSg(Pt(0, h), Pt(w, 0));
+	bounds[3] = LineSg(Pt(0, h), Pt(0, 0));
 }
 
 void Segments::State::init(const Segments &dom, const std::vector<Pose> &ps) {
-- 
2.43.0


From 53ecdf4847c7836510d2267bc9a224e9b963ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:09 +0000
Subject: [PATCH 52/82] fix: a turning segment sweeps beyond the ends of its
 arcs

---
 segments/segments.cc | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index 477fe18..e645b77 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -202,22 +202,8 @@ Segments::Sweep Segments::Oper::rotatesweep(const Segments &dom, const State &s)
 	p.rot = wrapind(p.rot+delta, dom.nangles);
 	sweep.lines[0] = dom.line(dom.segs[seg], p);
 
-	Pt min = sweep.arcs[0].start();
-	Pt max = min;
-
-	Pt pts[] = { sweep.arcs[0].end(), sweep.arcs[1].start(), sweep.arcs[1].end() };
-
-	for (int i = 0; i < 3; i++) {
-		if (pts[i].x < min.x)
-			min.x = pts[i].x;
-		if (pts[i].y < min.y)
-			min.y = pts[i].y;
-		if (pts[i].x > max.x)
-			max.x = pts[i].x;
-		if (pts[i].y > max.y)
-			max.y = pts[i].y;
-	}
-	sweep.bbox = Bbox(min, max);
+	// The arcs can bulge beyond their end points.
+	sweep.bbox = sweep.arcs[0].bbox;
 
 	return sweep;
 }
-- 
2.43.0


From f6f02cd090314583d9fbb938ade2238d5602caac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:58 +0000
Subject: [PATCH 53/82] fix: an arc that begins or ends beyond a full turn is
 hit by what crosses it

---
 segments/segments.cc | 14 +-------------
 utils/geom2d.hpp     | 31 +++++++++++++++++++------------
 2 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index e645b77..d1b2f6e 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -37,19 +37,7 @@ bool Segments::Sweep::hits(const LineSg &line) const {
 // slicecontains returns true if the slice defined by the arc
 // contains the given point.
 static bool slicecontains(const Arc &a, const Pt &p) {
-	double t = Pt::angle(Pt(p.x - a.c.x, p.y - a.c.y));
-	double tmin = a.t0;
-	double tmax = a.t0+a.dt;
-
-	if (tmin > tmax) {
-		tmin = a.t0+a.dt;
-		tmax = a.t0;
-	}
-
-	if(tmax > 2*M_PI )
-		t += 2*M_PI;
-
-	return between(tmin, tmax, t) && Pt::distance(a.c, p) <= a.r;
+	return a.spans(p) && Pt::distance(a.c, p) <= a.r;
 }
 
 Segments::Segments(FILE *in) {
diff --git a/utils/geom2d.hpp b/utils/geom2d.hpp
index 4be0f81..2e66434 100644
--- a/utils/geom2d.hpp
+++ b/utils/geom2d.hpp
@@ -423,24 +423,31 @@ namespace geom2d {
 			for (unsigned int j = 0; j < n; j++) {
 				is[i].x = l.p0.x + u[j] * q.dx;
 				is[i].y = l.p0.y + u[j] * q.dy;
-				double t = Pt::angle(Pt(is[i].x - c.x, is[i].y - c.y));
-				double tmin = t0;
-				double tmax = t0+dt;
-				if (tmin > tmax) {
-					tmin = t0+dt;
-					tmax = t0;
-				}
-
-				if(tmax > 2*M_PI )
-					t += 2*M_PI;
-
-				if (l.within(is[i]) && between(tmin, tmax, t))
+				if (l.within(is[i]) && spans(is[i]))
 					i++;
 			}
 
 			return i;
 		}
 
+		// spans returns true if the direction from the arc's
+		// center to the given point is within its sweep.
+		bool spans(const Pt &p) const {
+			double t = Pt::angle(Pt(p.x - c.x, p.y - c.y));
+			double tmin = t0, tmax = t0+dt;
+			if (tmin > tmax) {
+				tmin = t0+dt;
+				tmax = t0;
+			}
+			// The sweep can begin and end on any turn.
+			t += floor((tmin - t) / (2*M_PI)) * 2*M_PI;
+			for (int i = 0; i < 3; i++, t += 2*M_PI) {
+				if (between(tmin, tmax, t))
+					return true;
+			}
+			return false;
+		}
+
 		// hits returns true if the linesegment hits the arc
 		bool hits(const LineSg &l) const {
 			Pt is[2];
-- 
2.43.0


From 54a1c1e90425939466ad9b16e1909ccc083c6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:38 +0000
Subject: [PATCH 54/82] fix: visnav does not cut through the obstacle that an
 end point touches

---
 visnav/visgraph.cc | 19 +++++++++++++++++++
 visnav/visnav.cc   |  3 +--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/visnav/visgraph.cc b/visnav/visgraph.cc
index 82fa8ec..e506a25 100644
--- a/visnav/visgraph.cc
+++ b/visnav/visgraph.cc
@@ -5,6 +5,14 @@
 #include "../utils/utils.hpp"
 #include <cerrno>
 
+static bool hasvert(const geom2d::Poly &poly, const geom2d::Pt &pt) {
+	for (unsigned int i = 0; i < poly.verts.size(); i++) {
+		if (poly.verts[i] == pt)
+			return true;
+	}
+	return false;
+}
+
 VisGraph::VisGraph(FILE *in) : map(in) {
 	unsigned int nverts;
 	int res = fscanf(in, " %u vertices\n", &nverts);
@@ -24,6 +32,17 @@ VisGraph::VisGraph(FILE *in) : map(in) {
 			fatal("Malformed edge: there is no vertex %u", verts[i].edges[j].dst);
 	}
 	}
+
+	// The vertices of the polygons come first, those of the bound
+	// are last.  Find the polygon of each to know its inside.
+	for (unsigned int i = 0; i < nverts; i++) {
+		unsigned int j = 0;
+		while (j < map.polys.size() && !hasvert(map.polys[j], verts[i].pt))
+			j++;
+		if (j == map.polys.size())
+			break;
+		polyno.push_back(j);
+	}
 }
 
 VisGraph::VisGraph(const PolyMap &p) : map(p) {
diff --git a/visnav/visnav.cc b/visnav/visnav.cc
index 0471ecf..e8e6423 100644
--- a/visnav/visnav.cc
+++ b/visnav/visnav.cc
@@ -36,11 +36,10 @@ void VisNav::save(const char *file, std::vector<State> path) {
 
 	g.draw(img, false);
 
-	geom2d::Pt p0 = g.verts[path[0].vert].pt;
 	for (unsigned int i = 1; i < path.size(); i++) {
+		const geom2d::Pt &p0 = g.verts[path[i-1].vert].pt;
 		const geom2d::Pt &p1 = g.verts[path[i].vert].pt;
 		img.add(new Image::Line(p0, p1, Image::red, 3));
-		p0 = p1;
 	}
 
 	img.saveeps(file, true, 72.0/2.0);
-- 
2.43.0


From 46223e822be9a4756b7d8224e154f3134b8abcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 55/82] fix: the puzzles of a board that is not square can be
 solved

---
 tiles/generator.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index 155a637..5cf029f 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -36,7 +36,7 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 	// Add parity bits through puzzle
 	for (unsigned int i=0; i<ts.size(); i++) {
 		if (ts[i] == 0)
-			blankrow = i / (height) + 1;
+			blankrow = i / width;
 
 		for (unsigned int j=0; j<i; j++) {
 			if (ts[j] > ts[i] && ts[i] != 0)
@@ -44,12 +44,10 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 		}
 	}
 
-	// add parity bit if grid is even width & other bullshit, see:
-	// http://www.cs.bham.ac.uk/~mdr/teaching/modules04/java2/TilesSolvability.html
-	if (width % 2 == 0) {
-		if ((height-blankrow) % 2 == 0)
-			parity += 1;
-	}
+	// If the grid has an even width then moving the blank to another row
+	// changes the parity.  The goal has the blank in the first row.
+	if (width % 2 == 0)
+		parity += blankrow;
 
 	return parity%paritycheck;
 }
-- 
2.43.0


From 25da390f199c67c051a1a94288a1980d73fb47bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 56/82] fix: the puzzle generator notices that it failed to
 write

---
 tiles/generator.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index 5cf029f..eadde1f 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -9,8 +9,6 @@
 
 using namespace std;
 
-enum { BUFSZ = 100 };
-
 static Rand *r;
 
 static long unsigned int getrand(ptrdiff_t i) {
@@ -55,16 +53,11 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 void writeruml(vector<int> ts, int w, int h, char *dir, int n) {
 	unsigned int Ntiles = ts.size();
 	int output[Ntiles];
-	char fname[BUFSZ];
-	FILE *file = NULL;
-
-
-	sprintf(fname, "%s/%d", dir, n);
-	
-	file = fopen(fname, "w");
+	std::string fname = pathcat(dir, std::to_string(n));
+	FILE *file = fopen(fname.c_str(), "w");
 
 	if (!file) {
-		fatalx(errno, "Failed to open %s for writing", fname);
+		fatalx(errno, "Failed to open %s for writing", fname.c_str());
 	}
 
 	for (unsigned int i=0; i<Ntiles; i++) {
@@ -79,6 +72,10 @@ void writeruml(vector<int> ts, int w, int h, char *dir, int n) {
 	fprintf(file, "goal positions:\n");
 	for (unsigned int i = 0; i<Ntiles; i++)
 		fprintf(file, "%d\n", i);
+
+	bool err = ferror(file);
+	if (fclose(file) != 0 || err)
+		fatalx(errno, "Failed to write %s", fname.c_str());
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From 0216dcadccf0899cfc4f19f2309a25f0bd37418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 57/82] fix: random start and goal locations are on the map

---
 gridnav/randinst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridnav/randinst.cc b/gridnav/randinst.cc
index 55dc805..8bcc884 100644
--- a/gridnav/randinst.cc
+++ b/gridnav/randinst.cc
@@ -37,8 +37,8 @@ int main(int argc, char *argv[]) {
 	unsigned int ys[2];
 	for (int i = 0; i < 2; i++) {
 again:
-		xs[i] = r.integer(1, map.w);
-		ys[i] = r.integer(1, map.h);
+		xs[i] = r.integer(1, map.w-2);
+		ys[i] = r.integer(1, map.h-2);
 		if (map.blkd(map.index(xs[i], ys[i])))
 			goto again;
 	}
-- 
2.43.0


From bee8d1e063ecbf734a45233bb66b60bd71f4e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 58/82] fix: the maximum color value of a ppm is no color

---
 gridnav/ppm2grid.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridnav/ppm2grid.cc b/gridnav/ppm2grid.cc
index eb94666..e5d90a2 100644
--- a/gridnav/ppm2grid.cc
+++ b/gridnav/ppm2grid.cc
@@ -34,8 +34,12 @@ static bool white() {
 static void readsize() {
 	auto l = nextline();
 	const char *str = l.c_str();
-	if (sscanf(str, "%u %u", &w, &h) != 2)
+	unsigned int max;
+	int n = sscanf(str, "%u %u %u", &w, &h, &max);
+	if (n < 2)
 		fatal("Expected width and height, got [%s]\n", str);
+	if (n == 2 && fscanf(in, " %u", &max) != 1)
+		fatal("Expected the maximum color value");
 }
 
 static std::string nextline() {
-- 
2.43.0


From 41c493e886002b11a504deff4b06de942c8477d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 59/82] fix: the makers of instances notice that they failed to
 write

---
 gridnav/mkseedinst.cc | 4 ++++
 gridnav/ppm2grid.cc   | 4 ++++
 gridnav/randinst.cc   | 9 +++++----
 segments/mkinst.cc    | 4 ++++
 traffic/randinst.cc   | 3 +++
 visnav/inst.cc        | 3 +++
 visnav/mkgraph.cc     | 5 +++++
 7 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/gridnav/mkseedinst.cc b/gridnav/mkseedinst.cc
index 371bb8a..e09874c 100644
--- a/gridnav/mkseedinst.cc
+++ b/gridnav/mkseedinst.cc
@@ -5,6 +5,7 @@
 #include "../utils/utils.hpp"
 #include "../search/greedy.hpp"
 #include <cstring>
+#include <cerrno>
 
 static bool lifecost, eightway;
 static unsigned int width, height;
@@ -55,6 +56,9 @@ int main(int argc, char *argv[]) {
 	printf("%u %u\n", xs, ys);
 	printf("%u %u\n", xg, yg);
 
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the instance");
+
 	return 0;
 }
 
diff --git a/gridnav/ppm2grid.cc b/gridnav/ppm2grid.cc
index e5d90a2..d1c6040 100644
--- a/gridnav/ppm2grid.cc
+++ b/gridnav/ppm2grid.cc
@@ -2,6 +2,7 @@
 
 #include "../utils/utils.hpp"
 #include <cstdio>
+#include <cerrno>
 #include <string>
 
 unsigned int w, h;
@@ -22,6 +23,9 @@ int main() {
 			fputc(white() ? ' ' : '#', out);
 		fputc('\n', out);
 	}	
+
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the map");
 }
 
 static bool white() {
diff --git a/gridnav/randinst.cc b/gridnav/randinst.cc
index 8bcc884..97082e8 100644
--- a/gridnav/randinst.cc
+++ b/gridnav/randinst.cc
@@ -51,16 +51,17 @@ again:
 	while (!feof(in) && !ferror(in)) {
 		char buf[1024];
 		size_t n = fread(buf, 1, sizeof(buf), in);
-		while (n > 0) {
-			size_t m = fwrite(buf, 1, n, stdout);
-			n -= m;
-		}
+		if (fwrite(buf, 1, n, stdout) != n)
+			fatalx(errno, "failed to write the instance");
 	}
 	if (ferror(in))
 		fatal("error while reading %s", mappath.c_str());
 	fclose(in);
 	printf("%u %u %u %u\n", xs[0]-1, ys[0]-1, xs[1]-1, ys[1]-1);
 
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the instance");
+
 	return 0;
 }
 
diff --git a/segments/mkinst.cc b/segments/mkinst.cc
index ecb6f58..ad8a1a8 100644
--- a/segments/mkinst.cc
+++ b/segments/mkinst.cc
@@ -2,6 +2,7 @@
 
 #include "segments.hpp"
 #include "../utils/utils.hpp"
+#include <cerrno>
 #include <cmath>
 #include <cstdio>
 #include <cstring>
@@ -23,6 +24,9 @@ void mkinst(FILE*);
 int main(int argc, const char *argv[]) {
 	parseargs(argc, argv);
 	mkinst(stdout);
+
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the instance");
 	return 0;
 }
 
diff --git a/traffic/randinst.cc b/traffic/randinst.cc
index 859727d..b0fd2a0 100644
--- a/traffic/randinst.cc
+++ b/traffic/randinst.cc
@@ -1,5 +1,6 @@
 // © 2013 the Search Authors under the MIT license. See AUTHORS for the list of authors.
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include "traffic.hpp"
@@ -44,6 +45,8 @@ int main(int argc, const char *argv[]) {
 		bool solvable = (greedy.res.ops.size() > 0);
 		if(solvable) {
 			traffic.output(stdout);
+			if (fflush(stdout) != 0 || ferror(stdout))
+				fatalx(errno, "Failed to write the instance");
 			break;
 		}
 		else {
diff --git a/visnav/inst.cc b/visnav/inst.cc
index 3164bcd..e67c18e 100644
--- a/visnav/inst.cc
+++ b/visnav/inst.cc
@@ -37,4 +37,7 @@ int main(int argc, char *argv[]) {
 
 	g.output(stdout);
 	printf("%g %g %g %g\n", x0, y0, x1, y1);
+
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the instance");
 }
\ No newline at end of file
diff --git a/visnav/mkgraph.cc b/visnav/mkgraph.cc
index c5fcae1..bd0356d 100644
--- a/visnav/mkgraph.cc
+++ b/visnav/mkgraph.cc
@@ -2,11 +2,16 @@
 
 // Reads in a polygon map and emits a visibility graph
 #include "visgraph.hpp"
+#include "../utils/utils.hpp"
 #include <cstdio>
+#include <cerrno>
 
 int main() {
 	PolyMap map(stdin);
 	VisGraph graph(map);
 	graph.output(stdout);
+
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the graph");
 	return 0;
 }
\ No newline at end of file
-- 
2.43.0


From dab17ce8d7b5dccbcbc857c914653c0ee5d2bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 60/82] fix: visnav/rand writes its map to the file it is told
 to

---
 visnav/rand.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/visnav/rand.cc b/visnav/rand.cc
index e0c0a79..cfbf613 100644
--- a/visnav/rand.cc
+++ b/visnav/rand.cc
@@ -54,10 +54,14 @@ int main(int argc, char *argv[]) {
 		FILE *f = fopen(outfile, "w");
 		if (!f)
 			fatalx(errno, "Failed to open %s:", outfile);
-		map.output(stdout);
-		fclose(f);
+		map.output(f);
+		bool err = ferror(f);
+		if (fclose(f) != 0 || err)
+			fatalx(errno, "Failed to write %s", outfile);
 	} else {
 		map.output(stdout);
+		if (fflush(stdout) != 0 || ferror(stdout))
+			fatalx(errno, "Failed to write the map");
 	}
 
 	return 0;
-- 
2.43.0


From ca2e1ab4d315ee5762cdfbe0471146fdab02583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 61/82] fix: traffic/randinst without a seed says that it needs
 one

---
 traffic/randinst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traffic/randinst.cc b/traffic/randinst.cc
index b0fd2a0..090ab6c 100644
--- a/traffic/randinst.cc
+++ b/traffic/randinst.cc
@@ -8,9 +8,9 @@
 
 int main(int argc, const char *argv[]) {
 	
-	if(argc < 4) {
+	if(argc < 5) {
 		fprintf(stderr, "usage: %s width height num_obs seed\n", argv[0]);
-		return 0;
+		return 1;
 	}
 
 	int width = strtol(argv[1], NULL, 10);
-- 
2.43.0


From 489c0e6cfff016965e7154715b442620dfd57bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 62/82] fix: the makers of instances notice that they failed to
 read

---
 gridnav/ppm2grid.cc | 2 ++
 visnav/inst.cc      | 3 +++
 visnav/mkgraph.cc   | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/gridnav/ppm2grid.cc b/gridnav/ppm2grid.cc
index d1c6040..47cb00d 100644
--- a/gridnav/ppm2grid.cc
+++ b/gridnav/ppm2grid.cc
@@ -24,6 +24,8 @@ int main() {
 		fputc('\n', out);
 	}	
 
+	if (ferror(in))
+		fatal("Failed to read the picture");
 	if (fflush(stdout) != 0 || ferror(stdout))
 		fatalx(errno, "Failed to write the map");
 }
diff --git a/visnav/inst.cc b/visnav/inst.cc
index e67c18e..9748b2d 100644
--- a/visnav/inst.cc
+++ b/visnav/inst.cc
@@ -20,6 +20,9 @@ int main(int argc, char *argv[]) {
 
 	VisGraph g(f);
 
+	if (ferror(f))
+		fatal("Failed to read the graph");
+
 	if (argc >= 2)
 		fclose(f);
 
diff --git a/visnav/mkgraph.cc b/visnav/mkgraph.cc
index bd0356d..f2a7054 100644
--- a/visnav/mkgraph.cc
+++ b/visnav/mkgraph.cc
@@ -8,6 +8,8 @@
 
 int main() {
 	PolyMap map(stdin);
+	if (ferror(stdin))
+		fatal("Failed to read the map");
 	VisGraph graph(map);
 	graph.output(stdout);
 
-- 
2.43.0


From 096792a59584b9a5fa8d0daa8f59e3a755644ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:36 +0000
Subject: [PATCH 63/82] fix: the polygons of a grid that is not square are
 those of its obstacles

---
 gridnav/2poly.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/2poly.cc b/gridnav/2poly.cc
index 3db47d4..c8a3c0a 100644
--- a/gridnav/2poly.cc
+++ b/gridnav/2poly.cc
@@ -10,7 +10,7 @@ int main(int argc, char *argv[]) {
 	for (unsigned int i = 0; i < map.sz; i++)
 		blkd[i] = true;
 	for (unsigned int i = 0; i < map.w; i++) {
-		unsigned int base = i * map.w;
+		unsigned int base = i * map.h;
 
 		for (unsigned int j = 0; j < map.h; j++)
 			blkd[base + j] = map.blkd(map.index(i, j));
-- 
2.43.0


From 68b46dad132af806cd55fc1218b935525252b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:36 +0000
Subject: [PATCH 64/82] fix: the converters to polygons notice that they failed
 to read or write

---
 gridnav/2poly.cc   | 7 +++++++
 plat2d/2poly.cc    | 7 +++++++
 visnav/pbm2poly.cc | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/gridnav/2poly.cc b/gridnav/2poly.cc
index c8a3c0a..8fd775f 100644
--- a/gridnav/2poly.cc
+++ b/gridnav/2poly.cc
@@ -2,10 +2,14 @@
 
 #include "gridmap.hpp"
 #include "../visnav/polymap.hpp"
+#include "../utils/utils.hpp"
 #include <cstdio>
+#include <cerrno>
 
 int main(int argc, char *argv[]) {
 	GridMap map(stdin);
+	if (ferror(stdin))
+		fatal("Failed to read the map");
 	bool *blkd = new bool[map.sz];
 	for (unsigned int i = 0; i < map.sz; i++)
 		blkd[i] = true;
@@ -19,5 +23,8 @@ int main(int argc, char *argv[]) {
 	PolyMap polys(blkd, map.w, map.h);
 	polys.output(stdout);
 
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the polygons");
+
 	return 0;
 }
\ No newline at end of file
diff --git a/plat2d/2poly.cc b/plat2d/2poly.cc
index ff2deca..377f82a 100644
--- a/plat2d/2poly.cc
+++ b/plat2d/2poly.cc
@@ -1,10 +1,14 @@
 // © 2013 the Search Authors under the MIT license. See AUTHORS for the list of authors.
 
 #include "plat2d.hpp"
+#include "../utils/utils.hpp"
 #include <cstdio>
+#include <cerrno>
 
 int main() {
 	Lvl lvl(stdin);
+	if (ferror(stdin))
+		fatal("Failed to read the level");
 	bool *blkd = new bool[lvl.width() * lvl.height()];
 	for (unsigned int i = 0; i < lvl.width() * lvl.height(); i++)
 		blkd[i] = false;
@@ -15,5 +19,8 @@ int main() {
 
 	PolyMap polys(blkd, lvl.width(), lvl.height());
 	polys.output(stdout);
+
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the polygons");
 	return 0;
 }
\ No newline at end of file
diff --git a/visnav/pbm2poly.cc b/visnav/pbm2poly.cc
index 5710a44..a91cb93 100644
--- a/visnav/pbm2poly.cc
+++ b/visnav/pbm2poly.cc
@@ -13,8 +13,13 @@ static void junkcomment(FILE*);
 
 int main() {
 	readpbm(stdin);
+	if (ferror(stdin))
+		fatal("Failed to read the pbm file");
 	PolyMap p(blkd, w, h);
 	p.output(stdout);
+
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the polygons");
 	return 0;
 }
 
-- 
2.43.0


From 8265f49e1b7b3fe85694cf4d9cc917ff30171bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 65/82] fix: the database's query tools notice that they failed
 to write

---
 rdb/pathattrs.cc | 4 ++++
 rdb/pathfor.cc   | 4 ++++
 rdb/withattrs.cc | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/rdb/pathattrs.cc b/rdb/pathattrs.cc
index 209ecf9..235da8e 100644
--- a/rdb/pathattrs.cc
+++ b/rdb/pathattrs.cc
@@ -5,11 +5,15 @@
 
 #include "rdb.hpp"
 #include "../utils/utils.hpp"
+#include <cerrno>
+#include <cstdio>
 
 int main(int argc, const char *argv[]) {
 	if (argc < 2)
 		fatal("Requires a path");
 	RdbAttrs attrs = pathattrs(argv[1]);
 	puts(attrs.string().c_str());
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the attributes");
 	return 0;
 }
\ No newline at end of file
diff --git a/rdb/pathfor.cc b/rdb/pathfor.cc
index 7ac16ff..a936527 100644
--- a/rdb/pathfor.cc
+++ b/rdb/pathfor.cc
@@ -3,8 +3,10 @@
 #include "rdb.hpp"
 #include <cstring>
 #include <cstdio>
+#include <cerrno>
 
 void fatal(const char*, ...);
+void fatalx(int, const char*, ...);
 
 void usage();
 int nextpair(int, char *[], std::string&, std::string&);
@@ -17,6 +19,8 @@ int main(int argc, const char *argv[]) {
 	RdbAttrs attrs = attrargs(argc-2, argv+2);
 
 	printf("%s\n", pathfor(root, attrs).c_str());
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the path");
 	return 0;
 }
 
diff --git a/rdb/withattrs.cc b/rdb/withattrs.cc
index 3907019..eeb84d1 100644
--- a/rdb/withattrs.cc
+++ b/rdb/withattrs.cc
@@ -4,10 +4,12 @@
 #include <cstring>
 #include <cstdlib>
 #include <cstdio>
+#include <cerrno>
 #include <vector>
 #include <string>
 
 void fatal(const char*, ...);
+void fatalx(int, const char*, ...);
 
 static void usage(int);
 
@@ -20,6 +22,8 @@ int main(int argc, const char *argv[]) {
 		printf("%s\n", files[i].c_str());
 	}
 
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the paths");
 	return 0;
 }
 
-- 
2.43.0


From 4df3ecc4e66122c8f76223abfc57132144079d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 66/82] fix: bestwt without results, or cut short ones, fails
 instead of crashing

---
 search/anyprof/bestwt.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/search/anyprof/bestwt.cc b/search/anyprof/bestwt.cc
index 3e12356..a14ef62 100644
--- a/search/anyprof/bestwt.cc
+++ b/search/anyprof/bestwt.cc
@@ -19,7 +19,7 @@ struct Fields {
 };
 
 int main(int argc, const char *argv[]) {
-	if (argc < 2)
+	if (argc < 4)
 		fatal("usage: bestwt <wf> <wt> <rdb root> [key=value*]");
 
 	char *end = NULL;
@@ -67,6 +67,9 @@ int main(int argc, const char *argv[]) {
 		fclose(f);
 	}
 
+	if (avg.empty())
+		fatal("no results to choose a weight from");
+
 	double weight = avg.begin()->first;
 	for (auto i = avg.begin(); i != avg.end(); i++) {
 		if (i->second < avg[weight])
@@ -74,6 +77,8 @@ int main(int argc, const char *argv[]) {
 	}
 
 	printf("%g\n", weight);
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "failed to write the weight");
 }
 
 static void dfline(std::vector<std::string> &line, void *aux) {
@@ -82,6 +87,9 @@ static void dfline(std::vector<std::string> &line, void *aux) {
 
 	Fields *fields = static_cast<Fields*>(aux);
 
+	if (line.size() < 3)	// the result was cut short
+		return;
+
 	if (line[0] == "#pair" && line[1] == "weight") {
 		str = line[2].c_str();
 		fields->weight = strtod(str, &end);
-- 
2.43.0


From f400b776af9866da2507700e803364aa61ba36a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 67/82] fix: the scenario importer stores names that hold a
 percent sign as they are

---
 gridnav/scenario2rdb.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index 7c38787..197eb08 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -45,14 +45,14 @@ int main(int argc, char *argv[]) {
 		if (!f)
 			fatalx(errno, "Failed to open %s for writing", path.c_str());
 		fprintf(f, "#start data file format 4\n");
-		dfpair(f, "scenario file", argv[2]);
-		dfpair(f, "num", num);
-		dfpair(f, "map", mapfile.c_str());
-		dfpair(f, "optimal cost", cost.c_str());
-		dfpair(f, "start x", x0.c_str());
-		dfpair(f, "start y", y0.c_str());
-		dfpair(f, "goal x", x1.c_str());
-		dfpair(f, "goal y", y1.c_str());
+		dfpair(f, "scenario file", "%s", argv[2]);
+		dfpair(f, "num", "%s", num);
+		dfpair(f, "map", "%s", mapfile.c_str());
+		dfpair(f, "optimal cost", "%s", cost.c_str());
+		dfpair(f, "start x", "%s", x0.c_str());
+		dfpair(f, "start y", "%s", y0.c_str());
+		dfpair(f, "goal x", "%s", x1.c_str());
+		dfpair(f, "goal y", "%s", y1.c_str());
 		fprintf(f, "#end data file format 4\n");
 		fclose(f);
 	}
-- 
2.43.0


From e59bfaad136d0acae7ec17ce80e1b5dd8c1868e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 68/82] fix: the scenario importer takes version 1.0 for what
 it is

---
 gridnav/scenario2rdb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index 197eb08..4a0a34e 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -12,10 +12,10 @@ int main(int argc, char *argv[]) {
 	std::ifstream in(argv[2]);
 	
 	std::string verstr;
-	unsigned int vernum;
+	double vernum = 0;
 	in >> verstr >> vernum;
 	if (verstr != "version" || vernum != 1)
-		fatal("Bad scenario version: %s %d", verstr.c_str(), vernum);
+		fatal("Bad scenario version: %s %g", verstr.c_str(), vernum);
 
 	unsigned int n = 0;
 	while (in) {
-- 
2.43.0


From 33d8959cabe60e99f4425b1160bf2968b09e9703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:04 +0000
Subject: [PATCH 69/82] fix: the scenario importer notices that it failed to
 read or write

---
 gridnav/scenario2rdb.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index 4a0a34e..0fb0a54 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -10,7 +10,9 @@ int main(int argc, char *argv[]) {
 		fatal("usage: scenario2rdb <rdb root> <scenario file>");
 
 	std::ifstream in(argv[2]);
-	
+	if (!in)
+		fatalx(errno, "Failed to open %s for reading", argv[2]);
+
 	std::string verstr;
 	double vernum = 0;
 	in >> verstr >> vernum;
@@ -22,8 +24,12 @@ int main(int argc, char *argv[]) {
 		std::string bucket, mapfile, width, height, x0, y0, x1, y1, cost;
 		in >> bucket >> mapfile >> width >> height >> x0 >> y0 >> x1 >> y1 >> cost;
 
-		if (mapfile == "")
+		if (in.bad())
+			fatalx(errno, "Failed to read %s", argv[2]);
+		if (bucket == "")
 			continue;
+		if (!in)
+			fatal("%s: entry %u is cut short", argv[2], n);
 
 		RdbAttrs attrs;
 		attrs.push_back("scenario file", basename(argv[2]));
@@ -54,9 +60,14 @@ int main(int argc, char *argv[]) {
 		dfpair(f, "goal x", "%s", x1.c_str());
 		dfpair(f, "goal y", "%s", y1.c_str());
 		fprintf(f, "#end data file format 4\n");
-		fclose(f);
+		bool failed = ferror(f);
+		if (fclose(f) != 0 || failed)
+			fatalx(errno, "Failed to write %s", path.c_str());
 	}
 	in.close();
 
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the paths");
+
 	return 0;	
 }
\ No newline at end of file
-- 
2.43.0


From 17f2ea2c8cac884e231a417a8b20ba451c46b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 70/82] fix: a scenario entry without a solution is reported as
 such

---
 gridnav/scenario.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridnav/scenario.cc b/gridnav/scenario.cc
index f580d29..1a0e946 100644
--- a/gridnav/scenario.cc
+++ b/gridnav/scenario.cc
@@ -87,7 +87,9 @@ Result<GridNav> ScenarioEntry::run(unsigned int n, SearchAlgorithm<GridNav> *src
 
 	srch->search(d, s0);
 	Result<GridNav> &res = srch->res;
-	GridNav::Cost cost = d.pathcost(res.path, res.ops);
+	GridNav::Cost cost(-1);
+	if (res.path.size() > 0)
+		cost = d.pathcost(res.path, res.ops);
 	// Scenario file has 0-cost for no-path.  We use -1.
 	if (fabs(cost - (double) opt) > Eps && !(opt == 0 && cost == GridNav::Cost(-1)))
 		fatal("Expected optimal cost of %g, got %g\n", opt, (double) cost);
-- 
2.43.0


From 32e5c2d1b4bf8faeb98af9e9fcf442d592629ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 71/82] fix: the scenario solver notices that it failed to read
 or write

---
 gridnav/main_scenario.cc | 7 +++++++
 gridnav/scenario.cc      | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/gridnav/main_scenario.cc b/gridnav/main_scenario.cc
index 3512443..ddf17ff 100644
--- a/gridnav/main_scenario.cc
+++ b/gridnav/main_scenario.cc
@@ -1,9 +1,16 @@
 // © 2013 the Search Authors under the MIT license. See AUTHORS for the list of authors.
 
 #include "scenario.hpp"
+#include "../utils/utils.hpp"
 #include <iostream>
+#include <cerrno>
+#include <cstdio>
 
 int main(int argc, const char *argv[]) {
 	Scenario s(argc, argv);
 	s.run(std::cin);
+	if (ferror(stdin))
+		fatalx(errno, "Failed to read the scenario");
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the results");
 }
\ No newline at end of file
diff --git a/gridnav/scenario.cc b/gridnav/scenario.cc
index 1a0e946..9847cac 100644
--- a/gridnav/scenario.cc
+++ b/gridnav/scenario.cc
@@ -37,7 +37,9 @@ void Scenario::run(std::istream &in) {
 
 	SearchAlgorithm<GridNav> *srch = getsearch<GridNav>(argc, argv);
 	ScenarioEntry ent(*this);
-	while (in >> ent) {
+	while (!(in >> std::ws).eof()) {
+		if (!(in >> ent))
+			fatal("Entry %d is malformed or cut short", nentries);
 		nentries++;
 		if (entry >= 0 && nentries - 1 != entry)
 			continue;
-- 
2.43.0


From 92335dda904d52229560db1b08635e5df957cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:46 +0000
Subject: [PATCH 72/82] fix: vacuum_cs730 notices that it failed to write the
 plan

---
 vacuum/main_cs730.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vacuum/main_cs730.cc b/vacuum/main_cs730.cc
index 93aca1a..94bcc40 100644
--- a/vacuum/main_cs730.cc
+++ b/vacuum/main_cs730.cc
@@ -2,6 +2,7 @@
 
 #include "vacuum.hpp"
 #include "../search/main.hpp"
+#include <cerrno>
 #include <cstdio>
 
 int main(int argc, const char *argv[]) {
@@ -28,5 +29,8 @@ int main(int argc, const char *argv[]) {
 	fprintf(stdout, "%lu nodes generated\n", srch->res.gend);
 	fprintf(stdout, "%lu nodes expanded\n", srch->res.expd);
 
+	if (fflush(stdout) != 0 || ferror(stdout))
+		fatalx(errno, "Failed to write the plan");
+
 	return 0;
 }
-- 
2.43.0


From e4a8ae58d7919b5507309044cb81d88388b14a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:18 +0000
Subject: [PATCH 73/82] fix: bugsy without resorting uses and reports the
 expansion delay it measures

---
 search/bugsy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 17c2702..02286ab 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -313,7 +313,7 @@ private:
 		if (!resort) {
 			derrlast = derror;
 			herrlast = herror;
-			avgdelay = delaylast;
+			delaylast = avgdelay;
 
 			// Update time for each expansion if we aren't resorting.
 			if (this->res.expd > 0) {
-- 
2.43.0


From 40c2056f45bffb7480f6f6ce7db1fac0a15d816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:37 +0000
Subject: [PATCH 74/82] fix: dtastar tells its tables the domain

---
 search/dtastar.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 88dadab..6a4bef2 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -168,6 +168,10 @@ private:
 			return n->succs;
 		}
 
+		void init(D &d) {
+			nodes.init(d);
+		}
+
 		void clear() {
 			for (auto n : nodes)
 				pool.destruct(n);
@@ -229,9 +233,11 @@ private:
 			}
 		};
 
-		Lss(Dtastar<D> &s, Graph &g, GraphNode *c, GraphNode *rt, Cost cost, Oper o) :
+		Lss(D &d, Dtastar<D> &s, Graph &g, GraphNode *c, GraphNode *rt, Cost cost, Oper o) :
 			goal(NULL), root(rt), op(o), g0(cost), cur(c), nodes(s.grainsize), nclosed(0), search(s), graph(g) {
 
+			nodes.init(d);
+
 			Node *r = pool.construct();
 			r->g = g0;
 			r->f = g0 + root->h;
@@ -510,6 +516,7 @@ public:
 
 	void search(D &d, State &s0) {
 		this->start();
+		graph.init(d);
 
 		Node *cur = graph.node(d, s0);
 
@@ -554,7 +561,7 @@ private:
 		for (auto s : graph.succs(d, cur)) {
 			s.node->h = std::max(s.node->h, cur->h - s.cost);
 			assert (s.node->h + s.cost + geom2d::Threshold >= cur->h);
-			lss.push(new Lss(*this, graph, cur, s.node, s.cost, s.op));
+			lss.push(new Lss(d, *this, graph, cur, s.node, s.cost, s.op));
 		}
 
 		unsigned int num = 0;
-- 
2.43.0


From 9ef5d0d0c87f0b8663ff25a5d25554482f0fc1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:03 +0000
Subject: [PATCH 75/82] fix: dtastar stops where no goal can be reached

---
 search/dtastar.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 6a4bef2..502a9a5 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -524,6 +524,8 @@ public:
 
 		while (!cur->isgoal && !this->limit()) {
 			auto move = step(d, cur);
+			if (!move.node)	// no goal can be reached
+				break;
 			cur = move.node;
 			lsslim->start(move.cost);
 			this->res.ops.push_back(move.oper);
@@ -564,6 +566,9 @@ private:
 			lss.push(new Lss(d, *this, graph, cur, s.node, s.cost, s.op));
 		}
 
+		if (lss.empty())
+			return Move(D::Nop, NULL, Cost(0));
+
 		unsigned int num = 0;
 		bool lssstop = false;
 		do {
@@ -580,7 +585,7 @@ private:
 			secpergen = (walltime() - start) / (meanbr*grainsize);
 			num++;
 
-			if (this->limit() || (*lss.front())->goal)
+			if (this->limit() || (*lss.front())->goal || (*lss.front())->open.empty())
 				break;
 		} while(!lssstop && keepGoing(lss));
 
@@ -597,6 +602,8 @@ private:
 		cur->h = best->fg().first * scale;
 
 		Move step(best->op, best->root, best->g0);
+		if (best->fg().first == geom2d::Infinity)
+			step.node = NULL;	// all was explored, there is no goal
 
 		for (auto l : lss.data())
 			delete l;
-- 
2.43.0


From c67bdb01dd0b2c3fe41d02c0dddb6a7c5a0f05fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:32 +0000
Subject: [PATCH 76/82] fix: dtastar's assertions allow for rounding of large
 values

---
 search/dtastar.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 502a9a5..157c032 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -63,6 +63,11 @@ static void dfReadRows(std::vector<std::string> &toks, void *data) {
 	info->rows.emplace_back(h, d, f);
 }
 
+// atleast returns true if a ≥ b, up to rounding.
+static inline bool atleast(double a, double b) {
+	return a + geom2d::Threshold * std::max(1.0, fabs(b)) >= b;
+}
+
 template <class D>
 class Dtastar : public SearchAlgorithm<D> {
 private:
@@ -241,7 +246,7 @@ private:
 			Node *r = pool.construct();
 			r->g = g0;
 			r->f = g0 + root->h;
-			assert (r->f + geom2d::Threshold >= cur->h);
+			assert (atleast(r->f, cur->h));
 			r->parent = NULL;
 			r->op = op;
 			r->node = root;
@@ -298,9 +303,9 @@ private:
 					assert (k->node->h >= 0);
 					assert (h >= 0);
 					assert (g >= 0);
-					assert (g + h + geom2d::Threshold >= n->f);
+					assert (atleast(g + h, n->f));
 					k->f = g + h;
-					assert (k->f + geom2d::Threshold >= cur->h);
+					assert (atleast(k->f, cur->h));
 					open.pushupdate(k, k->openind);
 
 					if (k->node->isgoal && (!goal || k->g < goal->g))
@@ -562,7 +567,7 @@ private:
 		BinHeap<Lss, Lss*> lss;
 		for (auto s : graph.succs(d, cur)) {
 			s.node->h = std::max(s.node->h, cur->h - s.cost);
-			assert (s.node->h + s.cost + geom2d::Threshold >= cur->h);
+			assert (atleast(s.node->h + s.cost, cur->h));
 			lss.push(new Lss(d, *this, graph, cur, s.node, s.cost, s.op));
 		}
 
-- 
2.43.0


From 4f8c1ff93b30c871e2b4d5f38588016da7067a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:32 +0000
Subject: [PATCH 77/82] fix: dtastar does not look up negative costs

---
 search/dtastar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 157c032..02c2d9d 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -677,7 +677,7 @@ private:
 					// Except on the first iteration, mlast = msize-1.
 					for (unsigned int i = mlast; i < msize; i++) {
 						unsigned int h = hbin(std::min(nodes[i]->node->h, hmax));
-						unsigned int fixedf = std::min(f - nodes[i]->g, fmax);
+						unsigned int fixedf = std::max(0.0, std::min(f - nodes[i]->g, fmax));
 
 						double p = q[h][d][fixedf];
 						min = std::min(min, p);
-- 
2.43.0


From 616311ac3019796e40ac8b93d430efbb79f09b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:32 +0000
Subject: [PATCH 78/82] fix: dtastar counts meta-level problems from zero

---
 search/dtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 02c2d9d..a7ccbae 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -407,6 +407,7 @@ public:
 
 	Dtastar(int argc, const char *argv[]) :
 		SearchAlgorithm<D>(argc, argv),
+		avgmeta(0),
 		secpergen(0),
 		graph(*this, 30000001),
 		wf(0),
-- 
2.43.0


From dfe76ca391cafc3938e8f2ac82f67f08b6e128ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:43 +0000
Subject: [PATCH 79/82] fix: dtastar does not use its last node after freeing
 it

---
 search/dtastar.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index a7ccbae..501804b 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -545,6 +545,7 @@ public:
 		}
 
 		// Rebuild the path from the operators.
+		PackedState goal = std::move(cur->state);
 		graph.clear();
 		this->res.path.push_back(s0);
 		for (auto o : this->res.ops) {
@@ -555,7 +556,7 @@ public:
 
 		PackedState pkd;
 		d.pack(pkd, this->res.path.back());
-		assert (pkd.eq(&d, cur->state));
+		assert (pkd.eq(&d, goal));
 
 		assert (d.isgoal(this->res.path.back()));
 		std::reverse(this->res.ops.begin(), this->res.ops.end());
-- 
2.43.0


From 1c149cbf488b105a351cc484996afdf6a03c5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:05 +0000
Subject: [PATCH 80/82] fix: rrt uses the seed given with -s

---
 search/rrt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/search/rrt.hpp b/search/rrt.hpp
index 526d870..70cf8a2 100644
--- a/search/rrt.hpp
+++ b/search/rrt.hpp
@@ -30,9 +30,9 @@ public:
 		for (int i = 0; i < argc; i++) {
 			if (i < argc - 1 && strcmp(argv[i], "-s") == 0) {
 				char *end = NULL;
-				seed = strtoull(argv[i++], &end, 10);
-				if (end == NULL)
-					fatal("Invalid seed: %s", argv[i-1]);
+				seed = strtoull(argv[++i], &end, 10);
+				if (end == argv[i])
+					fatal("Invalid seed: %s", argv[i]);
 			}
 		}
 		rng = Rand(seed);
-- 
2.43.0


From de0ae29dbb931393f7d39c69e83f90e7f9d7d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:05 +0000
Subject: [PATCH 81/82] fix: rrt stops at its limits

---
 search/rrt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/rrt.hpp b/search/rrt.hpp
index 70cf8a2..a72d324 100644
--- a/search/rrt.hpp
+++ b/search/rrt.hpp
@@ -53,7 +53,7 @@ public:
 			root->point[i] = pt[i];
 		tree.insert(pt, root);
 
-		for ( ; ; ) {
+		while (!SearchAlgorithm<D>::limit()) {
 			sample(pt);
 			auto near = tree.nearest(pt);
 			Node *node = near->data;
-- 
2.43.0


From 01fb0d72f05795dafa8ce7c850e1bf68b9188f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:05 +0000
Subject: [PATCH 82/82] fix: a reset rrt forgets its old tree

---
 search/rrt.hpp     |  2 ++
 structs/kdtree.hpp | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/search/rrt.hpp b/search/rrt.hpp
index a72d324..3dcb992 100644
--- a/search/rrt.hpp
+++ b/search/rrt.hpp
@@ -114,6 +114,8 @@ done:
 		SearchAlgorithm<D>::reset();
 		for (auto n : tree)
 			pool.destruct(n->data);
+		tree.clear();
+		rng = Rand(seed);
 	}
 
 	virtual void output(FILE *out) {
diff --git a/structs/kdtree.hpp b/structs/kdtree.hpp
index 5a8e30e..2019b73 100644
--- a/structs/kdtree.hpp
+++ b/structs/kdtree.hpp
@@ -24,6 +24,9 @@ public:
 	// Insert inserts a binding from the point to the data into the tree.
 	void insert(double[K], Data);
 
+	// Clear removes all points from the tree.
+	void clear();
+
 	// Nearest returns a pointer to the nearest node in the tree, or NULL on error.
 	const N* nearest(double[K]) const;
 
@@ -84,6 +87,7 @@ public:
 private:
 
 	N *insert(N*, unsigned int, N*);
+	void clear(N*);
 	const N* nearest(const N*, const double[], double*) const;
 	unsigned int depth(const N*) const;
 	inline double sqdist(const N*, const double[]) const;
@@ -123,6 +127,22 @@ typename Kdtree<K, Data>::N* Kdtree<K, Data>::insert(N *t, unsigned int depth, N
 	return t;
 }
 
+template<unsigned int K, class Data>
+void Kdtree<K, Data>::clear() {
+	clear(root);
+	root = NULL;
+	num = 0;
+}
+
+template<unsigned int K, class Data>
+void Kdtree<K, Data>::clear(N *t) {
+	if (!t)
+		return;
+	clear(t->left);
+	clear(t->right);
+	nodes.destruct(t);
+}
+
 template<unsigned int K, class Data>
 const typename Kdtree<K, Data>::N* Kdtree<K, Data>::nearest(double pt[K]) const {
 	double r = std::numeric_limits<double>::infinity();
-- 
2.43.0

