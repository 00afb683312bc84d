From 4541747b9c2b81eb5e110608ccb0e394e9102e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 01/49] fix: xo: remember conflicts at level 0

A conflict found at level 0 without an explicit empty clause was forgotten:
a second Solve, an Add or an Untest would go on as if the clauses were
satisfiable and Solve then died in its model check.
---
 internal/xo/cgc.go |  3 +++
 internal/xo/s.go   | 25 ++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 01c7d64..c169526 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -192,6 +192,9 @@ func (c *Cgc) CompactCDat(cdb *Cdb) (int, int) {
 func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 	cdb.Learnts = relocateSlice(cdb.Learnts, rlm)
 	cdb.Added = relocateSlice(cdb.Added, rlm)
+	if bot, ok := rlm[cdb.Bot]; ok && bot != CNull {
+		cdb.Bot = bot
+	}
 	// reasons
 	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
 	// watches
diff --git a/internal/xo/s.go b/internal/xo/s.go
index 9f7d865..9c815d6 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -228,7 +228,7 @@ func (s *S) Solve() int {
 		if x != CNull {
 			// conflict
 			if trail.Level <= aLevel {
-				s.x = x
+				s.conflict(x)
 				s.stUnsat++
 				return -1
 			}
@@ -423,8 +423,12 @@ func (s *S) Untest() int {
 		return -1
 	}
 	s.Trail.backWithLates(lastTestLevel)
+	if s.Cdb.Bot != CNull {
+		s.x = s.Cdb.Bot
+		return -1
+	}
 	if x := trail.Prop(); x != CNull {
-		s.x = x
+		s.conflict(x)
 		return -1
 	}
 	s.x = CNull
@@ -643,6 +647,11 @@ func (s *S) cleanupSolve() z.C {
 			s.x = CNull
 			break
 		}
+		if trail.Level == 0 {
+			s.conflict(s.x)
+			s.x = CNull
+			break
+		}
 		drvd := s.Driver.Derive(s.x)
 		if drvd.TargetLevel < s.endTestLevel {
 			trail.Back(s.endTestLevel)
@@ -664,6 +673,16 @@ func (s *S) cleanupSolve() z.C {
 	return CNull
 }
 
+// conflict records x as the last conflict.  A conflict at level 0 doesn't depend
+// on any assumption and so is permanent, but propagation won't find it again:
+// it is recorded as an empty clause.
+func (s *S) conflict(x z.C) {
+	s.x = x
+	if s.Trail.Level == 0 && s.Cdb.Bot == CNull {
+		s.Cdb.Learn(nil, 0)
+	}
+}
+
 func (s *S) lastTestLevel() int {
 	if len(s.testLevels) > 0 {
 		return s.testLevels[len(s.testLevels)-1]
@@ -686,7 +705,7 @@ func (s *S) makeAssumptions() int {
 		return -1
 	}
 	if x := trail.Prop(); x != CNull {
-		s.x = x
+		s.conflict(x)
 		return -1
 	}
 	vals := s.Vars.Vals
-- 
2.43.0


From 6c2352b70602cab00c11c5a359586466eafd2928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 02/49] fix: xo: don't divide by zero when writing a solver
 without clauses

---
 internal/xo/cdat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index b97be00..07e1f2d 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -179,7 +179,7 @@ func (c *CDat) Load(p z.C, ms []z.Lit) []z.Lit {
 
 // Func Forall applies f to every clause in the store.
 func (c *CDat) Forall(f func(i int, p z.C, ms []z.Lit)) {
-	ns := make([]z.Lit, 0, c.ClsLen*2/c.Len)
+	ns := make([]z.Lit, 0, 32)
 	i := 0
 	q := z.C(1)
 	for q < z.C(c.Len) {
-- 
2.43.0


From a243388f0c87d99307e4aae14825a1060aa26815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 03/49] fix: xo: Solve in the scope of a failed Test answers
 unsat

Test assumptions hold until Untest, but a Solve following a Test which
answered -1 dropped the assumptions and could answer 1 with a model violating
them.
---
 internal/xo/s.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 9c815d6..1685ef0 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -46,6 +46,8 @@ type S struct {
 	// keeps level of start of each test (before assumptions)
 	testLevels   []int
 	endTestLevel int
+	// the last Test() answered -1 and wasn't undone by Untest().
+	testFailed bool
 	// assumptionLevel can be > endTestLevel for untested assumptions
 	assumptLevel int
 	assumes      []z.Lit // only last set of requested assumptions before solve/test.
@@ -154,6 +156,7 @@ func (s *S) Copy() *S {
 	other.testLevels = make([]int, len(s.testLevels), cap(s.testLevels))
 	copy(other.testLevels, s.testLevels)
 	other.endTestLevel = s.endTestLevel
+	other.testFailed = s.testFailed
 	other.assumptLevel = s.assumptLevel
 	other.assumes = make([]z.Lit, len(s.assumes), cap(s.assumes))
 	copy(other.assumes, s.assumes)
@@ -359,6 +362,7 @@ func (s *S) Test(ms []z.Lit) (res int, ns []z.Lit) {
 	trail := s.Trail
 	start := trail.Tail
 	if r := s.makeAssumptions(); r == -1 {
+		s.testFailed = true
 		ns = nil
 		res = -1
 		return
@@ -415,6 +419,7 @@ func (s *S) Untest() int {
 		panic("Untest without Test")
 	}
 	trail := s.Trail
+	s.testFailed = false
 	lastTestLevel := s.lastTestLevel()
 	s.testLevels = s.testLevels[:len(s.testLevels)-1]
 	s.endTestLevel = lastTestLevel
@@ -603,6 +608,10 @@ func (s *S) Why(ms []z.Lit) []z.Lit {
 // returns -1 if known to be inconsistent by BCP
 // 0 otherwise.
 func (s *S) solveInit() int {
+	if s.testFailed {
+		// the tested assumptions still hold, and are inconsistent.
+		return -1
+	}
 
 	// set up restarts TODO(wsc) optimize this
 	s.luby = NewLuby()
-- 
2.43.0


From ebaf75d6a219d5fbca0d97346b3f8f8764b7c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 04/49] fix: xo: removing a clause which is a reason at level 0
 must not shift the other reasons

Reasons is indexed by variable; compaction dropped the entries of removed
clauses and so moved the reasons of all later variables.
---
 internal/xo/cgc.go | 9 +++++++--
 internal/xo/s.go   | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index c169526..8a2a667 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -195,8 +195,13 @@ func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 	if bot, ok := rlm[cdb.Bot]; ok && bot != CNull {
 		cdb.Bot = bot
 	}
-	// reasons
-	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
+	// reasons, which are indexed by variable.
+	reasons := cdb.Vars.Reasons
+	for v, p := range reasons {
+		if q, ok := rlm[p]; ok {
+			reasons[v] = q
+		}
+	}
 	// watches
 	c.relocateWatches(cdb, rlm)
 	// activation occs
diff --git a/internal/xo/s.go b/internal/xo/s.go
index 1685ef0..434ecb5 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -757,6 +757,11 @@ func (s *S) finalRec(m z.Lit, marks []bool) {
 		return
 	}
 	marks[m.Var()] = true
+	if s.Vars.Levels[m.Var()] == 0 {
+		// doesn't depend on any assumption, and its reason may be
+		// removed by now.
+		return
+	}
 
 	r := s.Vars.Reasons[m.Var()]
 	if r == CNull {
-- 
2.43.0


From 28fc4c6f6c6e85076a0128ccf51426aaaae7f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 05/49] fix: xo: activating a clause which is already true
 isn't an error

This happens when the activation literal or the clause was decided by learned
units and the documentation only excludes empty clauses.
---
 internal/xo/active.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index b0c906d..b9e8ecd 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -37,7 +37,7 @@ func (a *Active) ActivateWith(act z.Lit, s *S) {
 		panic("activated empty clause")
 	}
 	if loc == CInf {
-		panic("activated trivially true clause")
+		// trivially true, nothing to activate.
 		return
 	}
 	// add occs
-- 
2.43.0


From aef7b6493494cf1419faf8cc1f3be3940c9dc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 06/49] fix: xo: don't recycle an activation literal which is
 fixed at level 0

A clause activated with it afterwards was always satisfied, and assuming the
literal always failed.
---
 internal/xo/active.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index b9e8ecd..e3692b8 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -63,8 +63,12 @@ func (a *Active) Deactivate(cdb *Cdb, m z.Lit) {
 	sl := a.Occs[mv]
 	a.Occs[mv] = nil
 	cdb.Remove(sl...) // this might trigger CRemap below, so we update occs first.
-	a.Free = append(a.Free, m)
 	a.IsActive[mv] = false
+	if cdb.Vars.Vals[m] == 0 {
+		// otherwise, a clause at level 0 fixed m for good and it can't be
+		// used again.
+		a.Free = append(a.Free, m)
+	}
 }
 
 func (a *Active) CRemap(rlm map[z.C]z.C) {
-- 
2.43.0


From f68c04589be3c73b66af1683a4104bc8260334bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 07/49] fix: xo: the header of a written problem counts the
 clauses written

Write emits all stored clauses, learned ones included, but the header gave the
number of added ones.
---
 internal/xo/cdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index 98c062c..c7b2f6e 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -304,7 +304,7 @@ func (c *Cdb) SetTracer(t Tracer) {
 }
 
 func (c *Cdb) Write(w io.Writer) error {
-	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(c.Added)))
+	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, c.CDat.ClsLen))
 	n := 0
 	for n < len(hdr) {
 		m, e := w.Write(hdr[n:])
-- 
2.43.0


From db93ab59a7177534f871d0e67813fd0532e1bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 08/49] fix: xo: don't write deactivated clauses

---
 internal/xo/cdb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index c7b2f6e..ae6446f 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -304,6 +304,11 @@ func (c *Cdb) SetTracer(t Tracer) {
 }
 
 func (c *Cdb) Write(w io.Writer) error {
+	if c.Active != nil {
+		// deactivated clauses are unlinked but remain in c.CDat until compaction,
+		// and their activation literals may be in use again.
+		c.gc.CompactCDat(c)
+	}
 	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, c.CDat.ClsLen))
 	n := 0
 	for n < len(hdr) {
-- 
2.43.0


From 46f9662242dd251ed902e75f45a0d2047f93ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 09/49] fix: xo: a time limit is for one call of Try only

---
 internal/xo/s.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 434ecb5..d20c51f 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -198,6 +198,10 @@ func (s *S) Try(dur time.Duration) int {
 	}
 	s.startTime = time.Now()
 	s.deadline = s.startTime.Add(dur)
+	defer func() {
+		// the limit is for this call only.
+		s.deadline = s.startTime
+	}()
 	return s.Solve()
 }
 
-- 
2.43.0


From ef0ae3f941c3da20249abc14cfafbb49f6e5798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 10/49] fix: logic: copies of circuits find their gates again

---
 logic/c.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 8ce1d01..424a670 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -68,7 +68,8 @@ func (c *C) ToCnf(dst inter.Adder) {
 
 // Copy makes a copy of `c`.
 func (c *C) Copy() *C {
-	ns := make([]node, len(c.nodes))
+	// the hash table is indexed modulo the capacity of nodes.
+	ns := make([]node, len(c.nodes), cap(c.nodes))
 	st := make([]uint32, len(c.strash))
 	copy(ns, c.nodes)
 	copy(st, c.strash)
-- 
2.43.0


From 0cb45d03546792782ee7ec96b5bb0ee0f34143f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 11/49] fix: logic: the constant is true in all 64 lanes

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 424a670..ed0b517 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -229,7 +229,7 @@ func (c *C) Eval(vs []bool) {
 // parallel as the bits of a uint64.
 func (c *C) Eval64(vs []uint64) {
 	N := len(c.nodes)
-	vs[1] = (1 << 63) - 1
+	vs[1] = ^uint64(0)
 	for i := 2; i < N; i++ {
 		n := &c.nodes[i]
 		if n.a < 4 {
-- 
2.43.0


From 810940689b52943d8f832f8720ca89437655dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 12/49] fix: aiger: Copy copies the inputs and outputs

---
 logic/aiger/aiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c41442c..dceaaea 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -93,11 +93,15 @@ func Copy(a *T) *T {
 	}
 	result := &T{
 		S:           a.S.Copy(),
+		Inputs:      make([]z.Lit, len(a.Inputs)),
+		Outputs:     make([]z.Lit, len(a.Outputs)),
 		Bad:         make([]z.Lit, len(a.Bad)),
 		Constraints: make([]z.Lit, len(a.Constraints)),
 		Justice:     make([][]z.Lit, len(a.Justice)),
 		Fair:        make([]z.Lit, len(a.Fair)),
 		symbols:     make(map[byte]map[int]string, len(a.symbols))}
+	copy(result.Inputs, a.Inputs)
+	copy(result.Outputs, a.Outputs)
 	copy(result.Bad, a.Bad)
 	copy(result.Constraints, a.Constraints)
 	copy(result.Fair, a.Fair)
-- 
2.43.0


From 657ce349fcc1735e5fbc49740d4f892bdbf74ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 13/49] fix: aiger: there is no port to name after the last one

---
 logic/aiger/aiger.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index dceaaea..a63754c 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -128,7 +128,7 @@ func (a *T) Sys() *logic.S {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameInput(index int, nm string) error {
-	if index < 0 || index > len(a.Inputs) {
+	if index < 0 || index >= len(a.Inputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -150,7 +150,7 @@ func (a *T) InputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameLatch(index int, nm string) error {
-	if index < 0 || index > len(a.Latches) {
+	if index < 0 || index >= len(a.Latches) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -182,7 +182,7 @@ func (a *T) NewIn() z.Lit {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameOutput(index int, nm string) error {
-	if index < 0 || index > len(a.Outputs) {
+	if index < 0 || index >= len(a.Outputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -204,7 +204,7 @@ func (a *T) OutputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameBad(index int, nm string) error {
-	if index < 0 || index > len(a.Bad) {
+	if index < 0 || index >= len(a.Bad) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -226,7 +226,7 @@ func (a *T) BadName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameConstraint(index int, nm string) error {
-	if index < 0 || index > len(a.Constraints) {
+	if index < 0 || index >= len(a.Constraints) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -248,7 +248,7 @@ func (a *T) ConstraintName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameJustice(index int, nm string) error {
-	if index < 0 || index > len(a.Justice) {
+	if index < 0 || index >= len(a.Justice) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -270,7 +270,7 @@ func (a *T) JusticeName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameFair(index int, nm string) error {
-	if index < 0 || index > len(a.Fair) {
+	if index < 0 || index >= len(a.Fair) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
-- 
2.43.0


From d150d40b45b212538b27b165370e034db028fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 14/49] fix: aiger: the constant true is written as 1 and false
 as 0

---
 logic/aiger/aiger.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index a63754c..3c97c69 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -607,9 +607,14 @@ func (abw *aigerBinWriter) mapLit(m z.Lit) {
 
 // get an aiger literal for a gini literal for writer
 func (abw *aigerBinWriter) forLit(m z.Lit) uint {
-	v := m.Var()
-	a := abw.idMap[v]
-	if a == 0 || m.IsPos() {
+	if m == abw.trueLit {
+		return 1
+	}
+	if m == abw.trueLit.Not() {
+		return 0
+	}
+	a := abw.idMap[m.Var()]
+	if m.IsPos() {
 		return a
 	}
 	return a | 1
@@ -1411,11 +1416,11 @@ func readUint(r *bufio.Reader) (uint, error) {
 // write a literal in AIGER style (modulo 2 gives pos/neg)
 func writeLit(w *bufio.Writer, m, t z.Lit) error {
 	if m == t {
-		_, err := w.WriteString("0")
+		_, err := w.WriteString("1")
 		return err
 	}
 	if m == t.Not() {
-		_, err := w.WriteString("1")
+		_, err := w.WriteString("0")
 		return err
 	}
 	u := m - 2
-- 
2.43.0


From 9c1bf48d2e12bf3a28421d3129a0ca5836b65beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 15/49] fix: aiger: the header counts the and gates which are
 written

---
 logic/aiger/aiger.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 3c97c69..bcc3e8e 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1234,14 +1234,23 @@ type aigerHeader struct {
 // creates a header object from a system and an indication
 // of whether or not the binary version is desired.
 func makeHeader(a *T, binary bool) *aigerHeader {
-	s := a.S
-	N := s.Len()
+	// only the ands some port or next state depends on are written
 	nAnd := uint(0)
-	for i := 0; i < N; i++ {
-		if s.Type(s.At(i)) == logic.SAnd {
+	dfs := newsDfs(a.S, func(s *logic.S, m z.Lit) {
+		if s.Type(m) == logic.SAnd {
 			nAnd++
 		}
+	})
+	dfs.post(a.Outputs...)
+	for _, m := range a.Latches {
+		dfs.post(a.Next(m))
 	}
+	dfs.post(a.Bad...)
+	dfs.post(a.Constraints...)
+	for _, ma := range a.Justice {
+		dfs.post(ma...)
+	}
+	dfs.post(a.Fair...)
 	return &aigerHeader{
 		Binary:     binary,
 		Max:        uint(a.Len() - 1),
-- 
2.43.0


From b01ad28c283b4844feb9c465bae8240aa1aee398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 16/49] fix: aiger: binary: write the and gates only
 constraints depend on

---
 logic/aiger/aiger.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index bcc3e8e..c1e9718 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -435,6 +435,7 @@ func (a *T) WriteBinary(w io.Writer) error {
 	dfs.post(a.Outputs...)
 	dfs.post(nexts...)
 	dfs.post(a.Bad...)
+	dfs.post(a.Constraints...)
 	for _, ma := range a.Justice {
 		dfs.post(ma...)
 	}
-- 
2.43.0


From 67228b927a7e3ef8641b471aacacb878a1516935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 17/49] fix: aiger: binary: order the operands by the literals
 written

---
 logic/aiger/aiger.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c1e9718..f931d38 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -628,16 +628,18 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 	if s.Type(m) != logic.SAnd {
 		return
 	}
-	// *logic.S stores c0 < c1, aiger
-	// wants c0 > c1, so we swap
-	// the assignment to c1, c0 :=
+	// aiger wants c0 > c1, in terms of the literals written.
 	c1, c0 := s.Ins(m)
 	mc0 := abw.forLit(c0)
 	mc1 := abw.forLit(c1)
+	if mc0 < mc1 {
+		c0, c1 = c1, c0
+		mc0, mc1 = mc1, mc0
+	}
 	me := abw.forLit(m)
 	delta0 := me - mc0
 	delta1 := mc0 - mc1
-	if delta0 <= 0 || delta1 <= 0 {
+	if me <= mc0 || mc0 <= mc1 {
 		panic(fmt.Sprintf("incorrect delta computation %s(%s,%s) d0 %d d1 %d mc0 %d mc1 %d\n", m, c1, c0, delta0, delta1, mc0, mc1))
 	}
 	write7(abw.w, delta0)
-- 
2.43.0


From 79fec6c613639f04090d89f8a60f21ed123ad892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 18/49] fix: aiger: read the reset value of uninitialised
 latches

---
 logic/aiger/aiger.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index f931d38..37cc0fc 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -784,8 +784,10 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 	var i uint
 	for i = 0; i < hdr.Latch; i++ {
 		var m z.Lit
+		latch := (hdr.In + i + 1) * 2
 		if ascii {
-			latch, latchErr := readUint(br)
+			var latchErr error
+			latch, latchErr = readUint(br)
 			if latchErr != nil {
 				return latchErr
 			}
@@ -806,9 +808,8 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				return UnexpectedChar
 			}
 		} else {
-			g := (hdr.In + i + 1) * 2
 			m = abr.S.Latch(abr.S.F)
-			abr.mapLit(g, m)
+			abr.mapLit(latch, m)
 		}
 		nxt, errNxt := readUint(br)
 		if errNxt != nil {
@@ -838,7 +839,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				abr.SetInit(m, abr.S.F)
 			} else if ini == 1 {
 				abr.SetInit(m, abr.S.T)
-			} else if ini == (i+hdr.In+1)*2 {
+			} else if ini == latch {
 				abr.SetInit(m, 0)
 			} else {
 				return InvalidLatchInit
-- 
2.43.0


From 60e181edd4b684a79d835373890555adb8b7ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 19/49] fix: aiger: reading keeps the signs of gates which
 simplify

---
 logic/aiger/aiger.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 37cc0fc..d64b7e9 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -672,7 +672,7 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	varMap         []z.Var
+	litMap         []z.Lit // literals of positive on-disk literals
 	AigAnds        []aigAnd
 }
 
@@ -687,33 +687,28 @@ func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 		AigConstraints: make([]uint, 0, hdr.Constraint),
 		AigJustice:     make([][]uint, 0, hdr.Justice),
 		AigFair:        make([]uint, 0, hdr.Fair),
-		varMap:         make([]z.Var, hdr.Max+1),
+		litMap:         make([]z.Lit, hdr.Max+1),
 		AigAnds:        nil}
-	abr.varMap[0] = a.S.F.Var()
+	abr.litMap[0] = a.S.F
 	return abr
 }
 
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.varMap[int(aigerLit>>1)] = m.Var()
+	if aigerLit&1 != 0 {
+		m = m.Not()
+	}
+	abr.litMap[int(aigerLit>>1)] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
-	if aigerLit < 2 {
-		if aigerLit == 1 {
-			return abr.S.T
-		}
-		return abr.S.F
-	}
-	v := aigerLit >> 1
-
-	rv := abr.varMap[v]
-	if rv == 0 {
+	m := abr.litMap[aigerLit>>1]
+	if m == z.LitNull {
 		return z.LitNull
 	}
 	if aigerLit&1 != 0 {
-		return rv.Pos().Not()
+		return m.Not()
 	}
-	return rv.Pos()
+	return m
 }
 
 // once everything is read, we can use the aiglit to gini Literal
@@ -1095,6 +1090,8 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 }
 
 func (aigrdr *aigerReader) mapAnds() error {
+	aigrdr.AigAnds[0].defined = true // the constant
+	aigrdr.AigAnds[0].mapped = true
 	for _, m := range aigrdr.AigInputs {
 		ag := &aigrdr.AigAnds[int(m>>1)]
 		ag.defined = true
@@ -1126,7 +1123,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 			return UndefinedLit
 		}
 		if !ag0.mapped {
-			if err := aigrdr.mapAndsRec(ag0, c0); err != nil {
+			if err := aigrdr.mapAndsRec(ag0, c0&^1); err != nil {
 				return err
 			}
 		}
@@ -1137,7 +1134,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 			return UndefinedLit
 		}
 		if !ag1.mapped {
-			if err := aigrdr.mapAndsRec(ag1, c1); err != nil {
+			if err := aigrdr.mapAndsRec(ag1, c1&^1); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 62bef31495af5ff51879cbb3351092f09361aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 20/49] fix: aiger: write gates under their positive literal

---
 logic/aiger/dfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/aiger/dfs.go b/logic/aiger/dfs.go
index 8459fb6..6e75f1f 100644
--- a/logic/aiger/dfs.go
+++ b/logic/aiger/dfs.go
@@ -32,6 +32,7 @@ func (d *sDfs) post(ms ...z.Lit) {
 }
 
 func (d *sDfs) vis(m z.Lit) {
+	m = m.Var().Pos() // fn is for nodes
 	if d.marks[m.Var()] == 2 {
 		return
 	}
-- 
2.43.0


From 1a70c4c7f11635028d80d9b928932bb8fd0c1f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 21/49] fix: aiger: report malformed input as an error

---
 logic/aiger/aiger.go | 228 +++++++++++++++++++++++++------------------
 1 file changed, 135 insertions(+), 93 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index d64b7e9..97f4b3e 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -35,6 +35,7 @@ var (
 	CombLoop           = errors.New("combinational logic has a loop")
 	AndMultiplyDefined = errors.New("and gate multiply defined")
 	UndefinedLit       = errors.New("literal not defined")
+	LitMultiplyDefined = errors.New("literal multiply defined")
 )
 
 // Type Aiger contains the information read from or written to
@@ -459,7 +460,7 @@ func ReadAscii(r io.Reader) (*T, error) {
 	if hdr.Binary {
 		return nil, BinaryMismatch
 	}
-	aiger := Make(int(hdr.Max + 1))
+	aiger := Make(capHint(hdr.Max + 1))
 	aigrdr := makeAigerReader(aiger, hdr)
 	if err := aigrdr.readAsciiInputs(hdr, br); err != nil {
 		return nil, err
@@ -485,7 +486,7 @@ func ReadAscii(r io.Reader) (*T, error) {
 	if err := aigrdr.readAsciiAnds(hdr, br); err != nil {
 		return nil, err
 	}
-	if err := aigrdr.readSymsAndComments(br); err != nil {
+	if err := aigrdr.readSymsAndComments(hdr, br); err != nil {
 		return nil, err
 	}
 	if err := aigrdr.commit(true); err != nil {
@@ -507,13 +508,15 @@ func ReadBinary(r io.Reader) (*T, error) {
 	if !hdr.Binary {
 		return nil, BinaryMismatch
 	}
-	aiger := Make(int(hdr.Max + 1))
+	aiger := Make(capHint(hdr.Max + 1))
 	aigrdr := makeAigerReader(aiger, hdr)
 	var i uint
 	for i = 0; i < hdr.In; i++ {
 		g := (i + 1) * 2
 		m := aigrdr.S.Lit()
-		aigrdr.mapLit(g, m)
+		if err := aigrdr.mapLit(g, m); err != nil {
+			return nil, err
+		}
 		aigrdr.Inputs = append(aigrdr.Inputs, m)
 	}
 	if err := aigrdr.readLatches(hdr, br, false); err != nil {
@@ -537,7 +540,7 @@ func ReadBinary(r io.Reader) (*T, error) {
 	if err := aigrdr.readBinaryAnds(hdr, br); err != nil {
 		return nil, err
 	}
-	if err := aigrdr.readSymsAndComments(br); err != nil {
+	if err := aigrdr.readSymsAndComments(hdr, br); err != nil {
 		return nil, err
 	}
 	if err := aigrdr.commit(false); err != nil {
@@ -650,12 +653,22 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 // of this info to verify comb loops/ multiple defs
 // etc.
 type aigAnd struct {
+	lhs      uint
 	children [2]uint
-	defined  bool
-	mapped   bool
 	dfsColor uint8
 }
 
+// maxHint is the largest number of elements to make space for only because
+// the header announces them.
+const maxHint = 1 << 16
+
+func capHint(n uint) int {
+	if n > maxHint {
+		return maxHint
+	}
+	return int(n)
+}
+
 type aigerReader struct {
 	*T
 	// store the on-disk uints for translation
@@ -672,32 +685,37 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	litMap         []z.Lit // literals of positive on-disk literals
+	litMap         map[uint]z.Lit // literals of on-disk variables
 	AigAnds        []aigAnd
+	andMap         map[uint]int // on-disk variable to position in AigAnds
 }
 
 func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 	abr := &aigerReader{
 		T:              a,
-		AigInputs:      make([]uint, 0, hdr.In),
-		AigLatches:     make([]uint, 0, hdr.Latch),
-		AigLatchNexts:  make([]uint, 0, hdr.Latch),
-		AigOutputs:     make([]uint, 0, hdr.Out),
-		AigBad:         make([]uint, 0, hdr.Bad),
-		AigConstraints: make([]uint, 0, hdr.Constraint),
-		AigJustice:     make([][]uint, 0, hdr.Justice),
-		AigFair:        make([]uint, 0, hdr.Fair),
-		litMap:         make([]z.Lit, hdr.Max+1),
-		AigAnds:        nil}
+		AigInputs:      make([]uint, 0, capHint(hdr.In)),
+		AigLatches:     make([]uint, 0, capHint(hdr.Latch)),
+		AigLatchNexts:  make([]uint, 0, capHint(hdr.Latch)),
+		AigOutputs:     make([]uint, 0, capHint(hdr.Out)),
+		AigBad:         make([]uint, 0, capHint(hdr.Bad)),
+		AigConstraints: make([]uint, 0, capHint(hdr.Constraint)),
+		AigJustice:     make([][]uint, 0, capHint(hdr.Justice)),
+		AigFair:        make([]uint, 0, capHint(hdr.Fair)),
+		litMap:         make(map[uint]z.Lit, capHint(hdr.Max+1)),
+		AigAnds:        nil,
+		andMap:         nil}
 	abr.litMap[0] = a.S.F
 	return abr
 }
 
-func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	if aigerLit&1 != 0 {
-		m = m.Not()
+// mapLit records that the positive on-disk literal aigerLit is m.
+func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) error {
+	v := aigerLit >> 1
+	if _, dup := abr.litMap[v]; dup {
+		return LitMultiplyDefined
 	}
-	abr.litMap[int(aigerLit>>1)] = m
+	abr.litMap[v] = m
+	return nil
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
@@ -786,12 +804,17 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 			if latchErr != nil {
 				return latchErr
 			}
+			if latch > hdr.Max*2+1 {
+				return LitOOB
+			}
 			if latch&1 != 0 {
 				return SignedLatch
 			}
 			abr.AigLatches = append(abr.AigLatches, latch)
 			m = abr.S.Latch(abr.S.F)
-			abr.mapLit(latch, m)
+			if err := abr.mapLit(latch, m); err != nil {
+				return err
+			}
 			b, e := br.ReadByte()
 			if e == io.EOF {
 				return PrematureEOF
@@ -804,7 +827,9 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 			}
 		} else {
 			m = abr.S.Latch(abr.S.F)
-			abr.mapLit(latch, m)
+			if err := abr.mapLit(latch, m); err != nil {
+				return err
+			}
 		}
 		nxt, errNxt := readUint(br)
 		if errNxt != nil {
@@ -864,7 +889,9 @@ func (aigrdr *aigerReader) readAsciiInputs(hdr *aigerHeader, r *bufio.Reader) er
 		}
 		m := aigrdr.S.Lit()
 		aigrdr.Inputs = append(aigrdr.Inputs, m)
-		aigrdr.mapLit(in, m)
+		if err := aigrdr.mapLit(in, m); err != nil {
+			return err
+		}
 		aigrdr.AigInputs = append(aigrdr.AigInputs, in)
 		if err := readNL(r); err != nil {
 			return err
@@ -874,7 +901,7 @@ func (aigrdr *aigerReader) readAsciiInputs(hdr *aigerHeader, r *bufio.Reader) er
 }
 
 func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
-	abr.AigOutputs = make([]uint, 0, nOut)
+	abr.AigOutputs = make([]uint, 0, capHint(nOut))
 	var i uint
 	for i = 0; i < nOut; i++ {
 		u, e := readUint(r)
@@ -893,8 +920,8 @@ func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
 }
 
 func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
-	abr.AigBad = make([]uint, 0, int(count))
-	abr.Bad = make([]z.Lit, 0, int(count))
+	abr.AigBad = make([]uint, 0, capHint(count))
+	abr.Bad = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -913,8 +940,8 @@ func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
-	a.AigConstraints = make([]uint, 0, int(count))
-	a.Constraints = make([]z.Lit, 0, int(count))
+	a.AigConstraints = make([]uint, 0, capHint(count))
+	a.Constraints = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -933,27 +960,23 @@ func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
-	a.Justice = make([][]z.Lit, int(count), int(count))
-	a.AigJustice = make([][]uint, 0, int(count))
-	counts := make([]int, 0, int(count))
+	a.Justice = make([][]z.Lit, 0, capHint(count))
+	a.AigJustice = make([][]uint, 0, capHint(count))
+	counts := make([]uint, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
 		if err != nil {
 			return err
 		}
-		if v > 2*max+1 {
-			return LitOOB
-		}
-		counts = append(counts, int(v))
+		counts = append(counts, v)
 		if err := readNL(r); err != nil {
 			return err
 		}
 	}
-	for i, c := range counts {
-		a.AigJustice = append(a.AigJustice, make([]uint, c, c))
-		a.Justice[i] = make([]z.Lit, c, c)
-		for j := 0; j < c; j++ {
+	for _, c := range counts {
+		us := make([]uint, 0, capHint(c))
+		for i = 0; i < c; i++ {
 			v, err := readUint(r)
 			if err != nil {
 				return err
@@ -961,18 +984,20 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 			if v > 2*max+1 {
 				return LitOOB
 			}
-			a.AigJustice[i][j] = v
+			us = append(us, v)
 			if err := readNL(r); err != nil {
 				return err
 			}
 		}
+		a.AigJustice = append(a.AigJustice, us)
+		a.Justice = append(a.Justice, make([]z.Lit, len(us)))
 	}
 	return nil
 }
 
 func (a *aigerReader) readFair(r *bufio.Reader, count, max uint) error {
-	a.AigFair = make([]uint, 0, int(count))
-	a.Fair = make([]z.Lit, 0, int(count))
+	a.AigFair = make([]uint, 0, capHint(count))
+	a.Fair = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -1010,15 +1035,21 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 			return BadDeltaEncoding
 		}
 		c1 := c0 - delta1
-		m := aigrdr.And(aigrdr.litFor(c1), aigrdr.litFor(c0))
-		aigrdr.mapLit(id, m)
+		m0, m1 := aigrdr.litFor(c0), aigrdr.litFor(c1)
+		if m0 == z.LitNull || m1 == z.LitNull {
+			return UndefinedLit
+		}
+		if err := aigrdr.mapLit(id, aigrdr.And(m1, m0)); err != nil {
+			return err
+		}
 		id += 2
 	}
 	return nil
 }
 
 func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) error {
-	aigrdr.AigAnds = make([]aigAnd, hdr.Max+1, hdr.Max+1)
+	aigrdr.AigAnds = make([]aigAnd, 0, capHint(hdr.And))
+	aigrdr.andMap = make(map[uint]int, capHint(hdr.And))
 	var i uint
 	for i = 0; i < hdr.And; i++ {
 		g, gErr := readUint(r)
@@ -1075,13 +1106,11 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 			return err
 		}
 		// define the gate in terms of AigAnds
-		aa := &aigrdr.AigAnds[int(g>>1)]
-		if aa.defined {
+		if _, dup := aigrdr.andMap[g>>1]; dup {
 			return AndMultiplyDefined
 		}
-		aa.defined = true
-		aa.children[0] = c0
-		aa.children[1] = c1
+		aigrdr.andMap[g>>1] = len(aigrdr.AigAnds)
+		aigrdr.AigAnds = append(aigrdr.AigAnds, aigAnd{lhs: g, children: [2]uint{c0, c1}})
 	}
 	if err := aigrdr.mapAnds(); err != nil {
 		return err
@@ -1090,58 +1119,34 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 }
 
 func (aigrdr *aigerReader) mapAnds() error {
-	aigrdr.AigAnds[0].defined = true // the constant
-	aigrdr.AigAnds[0].mapped = true
-	for _, m := range aigrdr.AigInputs {
-		ag := &aigrdr.AigAnds[int(m>>1)]
-		ag.defined = true
-		ag.mapped = true
-	}
-	for _, m := range aigrdr.AigLatches {
-		ag := &aigrdr.AigAnds[int(m>>1)]
-		ag.defined = true
-		ag.mapped = true
-	}
-	for i := 0; i < len(aigrdr.AigAnds); i++ {
-		ag := &aigrdr.AigAnds[i]
-		if ag.defined && !ag.mapped {
-			if err := aigrdr.mapAndsRec(ag, uint(i*2)); err != nil {
-				return err
-			}
+	for i := range aigrdr.AigAnds {
+		if err := aigrdr.mapAndsRec(&aigrdr.AigAnds[i]); err != nil {
+			return err
 		}
 	}
 	return nil
 }
 
-func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
+func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd) error {
 	switch ag.dfsColor {
 	case 0:
 		ag.dfsColor = 1
-		c0, c1 := ag.children[0], ag.children[1]
-		ag0 := &aigrdr.AigAnds[int(c0>>1)]
-		if !ag0.defined {
-			return UndefinedLit
-		}
-		if !ag0.mapped {
-			if err := aigrdr.mapAndsRec(ag0, c0&^1); err != nil {
-				return err
+		var ms [2]z.Lit
+		for i, c := range ag.children {
+			if j, isAnd := aigrdr.andMap[c>>1]; isAnd {
+				if err := aigrdr.mapAndsRec(&aigrdr.AigAnds[j]); err != nil {
+					return err
+				}
 			}
-		}
-		m := aigrdr.litFor(c0)
-
-		ag1 := &aigrdr.AigAnds[int(c1>>1)]
-		if !ag1.defined {
-			return UndefinedLit
-		}
-		if !ag1.mapped {
-			if err := aigrdr.mapAndsRec(ag1, c1&^1); err != nil {
-				return err
+			ms[i] = aigrdr.litFor(c)
+			if ms[i] == z.LitNull {
+				return UndefinedLit
 			}
 		}
-		n := aigrdr.litFor(c1)
-		aigrdr.mapLit(aig, aigrdr.And(m, n))
+		if err := aigrdr.mapLit(ag.lhs, aigrdr.And(ms[0], ms[1])); err != nil {
+			return err
+		}
 		ag.dfsColor = 2
-		ag.mapped = true
 	case 1:
 		return CombLoop
 	case 2:
@@ -1151,12 +1156,17 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 	return nil
 }
 
-func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
+func (aigrdr *aigerReader) readSymsAndComments(hdr *aigerHeader, r *bufio.Reader) error {
+	ports := map[byte]uint{'i': hdr.In, 'l': hdr.Latch, 'o': hdr.Out, 'b': hdr.Bad,
+		'c': hdr.Constraint, 'j': hdr.Justice, 'f': hdr.Fair}
 	for {
 		b, e := r.ReadByte()
 		if e == io.EOF {
 			return nil
 		}
+		if e != nil {
+			return e
+		}
 		if b == 'i' || b == 'l' || b == 'o' || b == 'b' || b == 'c' || b == 'j' || b == 'f' {
 			// symtab must precede comments
 			if b == 'c' {
@@ -1194,8 +1204,13 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 			if err != nil {
 				return err
 			}
+			if index >= ports[b] {
+				return InvalidIndex
+			}
 			aigrdr.symbols[b][int(index)] = string(bytes[0 : len(bytes)-1])
+			continue
 		}
+		return UnexpectedChar
 	}
 	panic("unreachable")
 }
@@ -1213,6 +1228,8 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 			}
 		} else if err == io.EOF {
 			return nil
+		} else if err != nil {
+			return err
 		}
 	}
 	panic("unreachable")
@@ -1265,6 +1282,9 @@ func makeHeader(a *T, binary bool) *aigerHeader {
 		Fair:       uint(len(a.Fair))}
 }
 
+// maxVars is the largest number of variables of a design.
+const maxVars = 1<<30 - 2
+
 // write the header
 func (h *aigerHeader) write(w *bufio.Writer) {
 	if h.Binary {
@@ -1314,6 +1334,9 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 		if e == io.EOF {
 			return nil, PrematureEOF
 		}
+		if e != nil {
+			return nil, e
+		}
 		if b == '\n' {
 			if i < 5 {
 				return nil, BadHeader
@@ -1334,6 +1357,13 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 	result.Constraint = counts[6]
 	result.Justice = counts[7]
 	result.Fair = counts[8]
+	// all variables are between 1 and Max, and fit a z.Var.
+	if result.Max > maxVars || result.In > maxVars || result.Latch > maxVars || result.And > maxVars {
+		return nil, BadHeader
+	}
+	if result.In+result.Latch+result.And > result.Max {
+		return nil, BadHeader
+	}
 	return result, nil
 }
 
@@ -1394,6 +1424,9 @@ func readNonWS(r *bufio.Reader, buf []byte) ([]byte, error) {
 	return buf, nil
 }
 
+// maxUint bounds the numbers read, so that they do not overflow
+const maxUint = (1<<32 - 10) / 10
+
 // reads a uint
 func readUint(r *bufio.Reader) (uint, error) {
 	var result uint = 0
@@ -1409,6 +1442,9 @@ func readUint(r *bufio.Reader) (uint, error) {
 			return 0, e
 		}
 		if b >= '0' && b <= '9' {
+			if result > maxUint {
+				return 0, BadUInt
+			}
 			result *= 10
 			result += uint(b - '0')
 			first = false
@@ -1462,6 +1498,12 @@ func read7(r *bufio.Reader) (result uint, err error) {
 		if e == io.EOF {
 			return 0, PrematureEOF
 		}
+		if e != nil {
+			return 0, e
+		}
+		if i > 4 {
+			return 0, BadDeltaEncoding
+		}
 		result |= (uint(b) & 0x7f) << uint8(7*i)
 		i++
 		if b&0x80 == 0 {
-- 
2.43.0


From aa557fad6dd9d2333a594f57d77478b0e4b64b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 22/49] fix: dimacs: filter comments after blank lines and in
 the last bytes read

---
 dimacs/cfilt.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index 74e4e8d..8f7549b 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -44,9 +44,6 @@ func (s state) String() string {
 func (f *CommentFilter) Read(buf []byte) (n int, e error) {
 Start:
 	n, e = f.rdr.Read(buf)
-	if e != nil {
-		return n, e
-	}
 	j := 0
 	state := f.state
 	for _, b := range buf[:n] {
@@ -69,7 +66,11 @@ Start:
 			}
 			buf[j] = b
 			j++
-			state = notComment
+			if b != byte('\n') {
+				state = notComment
+			} else {
+				state = newLine
+			}
 		case newLine:
 			if b == byte('c') {
 				state = inComment
@@ -95,8 +96,8 @@ Start:
 		}
 	}
 	f.state = state
-	if j == 0 {
+	if j == 0 && e == nil {
 		goto Start
 	}
-	return j, nil
+	return j, e
 }
-- 
2.43.0


From cd7389c8520f449b32a1a3066e78ba4b70671778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 23/49] fix: dimacs: tell the visitor of a cnf about the end of
 the file

---
 dimacs/cnf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index c426f7d..d73fa7c 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -115,6 +115,7 @@ func (r *cnfReader) readBody() error {
 	for {
 		v, e = readInt(r.rdr)
 		if e == io.EOF {
+			vis.Eof()
 			return nil
 		}
 		if e != nil {
-- 
2.43.0


From 2445d571536af9cf50803fe254bb20c744c72374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 24/49] fix: dimacs: report numbers without digits and those
 which are too big

---
 dimacs/int.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dimacs/int.go b/dimacs/int.go
index 687c9c7..6acf939 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -7,8 +7,12 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 )
 
+// the largest variable which has literals.
+const maxVar = math.MaxInt32
+
 func readInt(rdr *bufio.Reader) (int, error) {
 	v := 0
 	m := 1
@@ -24,6 +28,17 @@ func readInt(rdr *bufio.Reader) (int, error) {
 		v = int(c - byte('0'))
 	} else if c == byte('-') {
 		m = -1
+		c, e = rdr.ReadByte()
+		if e == io.EOF {
+			return 0, io.ErrUnexpectedEOF
+		}
+		if e != nil {
+			return 0, e
+		}
+		if c < byte('0') || c > byte('9') {
+			return 0, fmt.Errorf("bad character for int: %c", c)
+		}
+		v = int(c - byte('0'))
 	} else {
 		return 0, fmt.Errorf("bad character for int: %c", c)
 	}
@@ -43,6 +58,9 @@ func readInt(rdr *bufio.Reader) (int, error) {
 		}
 		v *= 10
 		v += int(c - byte('0'))
+		if v > maxVar {
+			return 0, fmt.Errorf("number too big: %d...", v)
+		}
 	}
 	return v * m, nil
 }
-- 
2.43.0


From 2c4f715d487a550c60781e50f6cc99170b48191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 25/49] fix: dimacs: read problem statements with any white
 space and report those which stop early

---
 dimacs/cnf.go | 21 ++++++++++++---------
 dimacs/int.go | 24 ++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index d73fa7c..074b867 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -86,7 +86,7 @@ func (r *cnfReader) Read() error {
 func (r *cnfReader) readHeader() error {
 	var e error = nil
 	var b byte
-	b, e = r.rdr.ReadByte()
+	b, e = readNextNonWhiteByte(r.rdr)
 	if e != nil {
 		return e
 	}
@@ -143,23 +143,26 @@ func (r *cnfReader) readP() error {
 		return fmt.Errorf("more than one problem statement\n")
 	}
 	rdr := r.rdr
-	for _, c := range []byte{byte('p'), byte(' '), byte('c'), byte('n'), byte('f'), byte(' ')} {
-		b, e := rdr.ReadByte()
-		if e != nil {
-			return e
-		}
-		if b != c {
-			return fmt.Errorf("problem statement: expected '%c' got '%c'\n", c, b)
-		}
+	if e := readWords(rdr, "p", "cnf"); e != nil {
+		return e
 	}
 	nv, e := readInt(rdr)
+	if e == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
 	if e != nil {
 		return e
 	}
 	nc, e := readInt(rdr)
+	if e == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
 	if e != nil {
 		return e
 	}
+	if nv < 0 || nc < 0 {
+		return fmt.Errorf("problem statement: negative count\n")
+	}
 	r.hdrVars = nv
 	r.hdrCls = nc
 	return nil
diff --git a/dimacs/int.go b/dimacs/int.go
index 6acf939..230978f 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -79,3 +79,27 @@ func readNextNonWhiteByte(rdr *bufio.Reader) (byte, error) {
 		return c, nil
 	}
 }
+
+// readWords reads the words which begin a problem statement, each followed by
+// white space.
+func readWords(rdr *bufio.Reader, words ...string) error {
+	for _, w := range words {
+		b, e := readNextNonWhiteByte(rdr)
+		for i := 0; e == nil && i < len(w); i++ {
+			if b != w[i] {
+				return fmt.Errorf("problem statement: expected '%c' got '%c'\n", w[i], b)
+			}
+			b, e = rdr.ReadByte()
+		}
+		if e == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
+		if e != nil {
+			return e
+		}
+		if b != byte(' ') && b != byte('\n') && b != byte('\t') && b != byte('\r') {
+			return fmt.Errorf("problem statement: unexpected '%c'\n", b)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 0e7e47db9cf30fe6d0a60582d47e0097ba85e31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 26/49] fix: dimacs: icnf: read any white space between lines
 and report misplaced assumption lines

---
 dimacs/icnf.go | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/dimacs/icnf.go b/dimacs/icnf.go
index 5f058d2..cec7e35 100644
--- a/dimacs/icnf.go
+++ b/dimacs/icnf.go
@@ -33,8 +33,9 @@ func (i *iCnfReader) read() error {
 	rdr := i.rdr
 	vis := i.vis
 	assumptions := false
+	inClause := false
 	for {
-		c, e := rdr.ReadByte()
+		c, e := readNextNonWhiteByte(rdr)
 		if e == io.EOF {
 			vis.Eof()
 			return nil
@@ -43,11 +44,14 @@ func (i *iCnfReader) read() error {
 			return e
 		}
 		if c == 'a' {
-			assumptions = true
-		} else {
-			if e := rdr.UnreadByte(); e != nil {
-				return e
+			if assumptions || inClause {
+				return fmt.Errorf("unexpected: '%c'\n", c)
 			}
+			assumptions = true
+			continue
+		}
+		if e := rdr.UnreadByte(); e != nil {
+			return e
 		}
 		m, e := readLit(rdr)
 		if e != nil {
@@ -57,6 +61,7 @@ func (i *iCnfReader) read() error {
 			vis.Assume(m)
 		} else {
 			vis.Add(m)
+			inClause = m != z.LitNull
 		}
 		if m == z.LitNull {
 			assumptions = false
@@ -65,17 +70,5 @@ func (i *iCnfReader) read() error {
 }
 
 func (i *iCnfReader) readP() error {
-	expect := []byte("p inccnf\n")
-	m := len(expect)
-	rdr := i.rdr
-	for i := 0; i < m; i++ {
-		c, e := rdr.ReadByte()
-		if e != nil {
-			return e
-		}
-		if c != expect[i] {
-			return fmt.Errorf("unexpected: '%c'\n", c)
-		}
-	}
-	return nil
+	return readWords(i.rdr, "p", "inccnf")
 }
-- 
2.43.0


From 8708fc6d8cb4ce0b84e8e9296709140ba4921c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 27/49] fix: dimacs: read solver output with several value
 lines

---
 dimacs/int.go   | 4 ++++
 dimacs/solve.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/dimacs/int.go b/dimacs/int.go
index 230978f..2464b5e 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -51,6 +51,10 @@ func readInt(rdr *bufio.Reader) (int, error) {
 			return 0, e
 		}
 		if c == byte(' ') || c == byte('\n') || c == byte('\t') || c == byte('\r') {
+			// what ends the number isn't part of it.
+			if e := rdr.UnreadByte(); e != nil {
+				return 0, e
+			}
 			break
 		}
 		if c < byte('0') || c > byte('9') {
diff --git a/dimacs/solve.go b/dimacs/solve.go
index 8244ad4..a4cdd8f 100644
--- a/dimacs/solve.go
+++ b/dimacs/solve.go
@@ -79,6 +79,9 @@ func (s *sRdr) read() error {
 		}
 		switch state {
 		case neither:
+			if c == byte(' ') || c == byte('\t') || c == byte('\r') {
+				continue
+			}
 			if c == byte('s') {
 				state = sol
 			} else if c == byte('v') {
@@ -87,6 +90,9 @@ func (s *sRdr) read() error {
 				return fmt.Errorf("unexpected character '%c' at line %d\n", c, line)
 			}
 		case values:
+			if c == byte(' ') || c == byte('\t') || c == byte('\r') {
+				continue
+			}
 			if e := rdr.UnreadByte(); e != nil {
 				return e
 			}
-- 
2.43.0


From 4402b08365e925d389c339883865eaba67a07d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:16 +0000
Subject: [PATCH 28/49] fix: z: the first inner literal isn't LitNull

---
 z/dv.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/z/dv.go b/z/dv.go
index bc3ae43..c76e703 100644
--- a/z/dv.go
+++ b/z/dv.go
@@ -22,7 +22,10 @@ type Vars struct {
 
 // NewVars creates a new Vars object.
 func NewVars() *Vars {
-	return &Vars{}
+	// variable 0 belongs to LitNull.
+	return &Vars{
+		i2o: []Var{0},
+		o2i: []Var{0}}
 }
 
 func (v *Vars) Copy() *Vars {
-- 
2.43.0


From 19d7933af837b5ff84c92599404e80837b01e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 29/49] fix: Sv: Assume leaves the caller's literals alone

---
 sv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sv.go b/sv.go
index f6a525f..263b7a5 100644
--- a/sv.go
+++ b/sv.go
@@ -41,7 +41,8 @@ func (w *svWrap) FreeInner(m z.Lit) {
 }
 
 func (w *svWrap) Assume(ms ...z.Lit) {
-	w.S.Assume(w.V.ToInners(ms)...)
+	// ToInners overwrites its argument, which is the caller's.
+	w.S.Assume(w.V.ToInners(append([]z.Lit(nil), ms...))...)
 }
 
 func (w *svWrap) Add(m z.Lit) {
-- 
2.43.0


From 054409d86f41751c01abbef2d163e9d4a05779b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:20 +0000
Subject: [PATCH 30/49] fix: Sv: Lit and MaxVar are about the user's variables

---
 sv.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sv.go b/sv.go
index 263b7a5..3d3814d 100644
--- a/sv.go
+++ b/sv.go
@@ -49,12 +49,24 @@ func (w *svWrap) Add(m z.Lit) {
 	w.S.Add(m)
 }
 
+// MaxVar returns the maximal variable of the user, all variables up to which
+// are known to w.S.
 func (w *svWrap) MaxVar() z.Var {
-	return w.S.MaxVar()
+	m := w.S.MaxVar()
+	for m > 0 && w.V.ToInner(m.Pos()).Var() > w.S.MaxVar() {
+		m--
+	}
+	return m
 }
 
 func (w *svWrap) Lit() z.Lit {
-	return w.S.Lit()
+	// inner variables aren't less than the variables they are for.
+	m := (w.S.MaxVar() + 1).Pos()
+	n := w.V.ToInner(m)
+	for w.S.MaxVar() < n.Var() {
+		w.S.Lit()
+	}
+	return m
 }
 
 func (w *svWrap) Why(dst []z.Lit) []z.Lit {
-- 
2.43.0


From f630134bb40d6da5ddbbfc79c876d49a25170eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 31/49] fix: gen: RandColor: one variable for each node and
 color, one clause for each edge and color

---
 gen/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gen/color.go b/gen/color.go
index 8ddd6ea..c546032 100644
--- a/gen/color.go
+++ b/gen/color.go
@@ -16,8 +16,8 @@ import (
 // a color and no 2 adjacent nodes may have the same color.
 func RandColor(dst inter.Adder, n, m, k int) {
 	g := RandGraph(n, m)
-	var mkVar = func(n, c int) z.Var {
-		return z.Var(n*c + c + 1)
+	var mkVar = func(a, c int) z.Var {
+		return z.Var(n*c + a + 1)
 	}
 	for i := range g {
 		for j := 0; j < k; j++ {
@@ -36,8 +36,8 @@ func RandColor(dst inter.Adder, n, m, k int) {
 				b := mkVar(b, c).Neg()
 				dst.Add(a)
 				dst.Add(b)
+				dst.Add(0)
 			}
-			dst.Add(0)
 		}
 	}
 }
-- 
2.43.0


From 7da062d184e2cbdefae55bbac20276d1335d641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:16 +0000
Subject: [PATCH 32/49] fix: gen: find all Pythagorean triples

---
 gen/pt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/pt.go b/gen/pt.go
index 3dbf482..f6b57cc 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -91,7 +91,7 @@ func (s *squares) get(i int) int {
 
 func (s *squares) root(v int) int {
 	t := s.d
-	for len(t)*len(t) < v {
+	for len(t) == 0 || t[len(t)-1] < v {
 		t = append(t, len(t)*len(t))
 	}
 	s.d = t
-- 
2.43.0


From 555cbdb6b1de268c6f5283180bf7f5ca5222bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:05 +0000
Subject: [PATCH 33/49] fix: gen: PyTriples is about the triples over 1 to n

---
 gen/pt.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/gen/pt.go b/gen/pt.go
index f6b57cc..98914a5 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -41,12 +41,12 @@ func Partition(dst inter.Adder, n, k int) {
 // s.t i^2 + j^2 = k^2 in some partition of a k-partition of [1..n]
 func PyTriples(dst inter.Adder, n, k int) {
 	Partition(dst, n, k)
-	_, ts := pytriples(n)
-	for _, t := range ts {
+	for _, t := range pytriplesTo(n) {
 		for p := 0; p < k; p++ {
-			a := PartVar(t.a, p, n)
-			b := PartVar(t.b, p, n)
-			c := PartVar(t.c, p, n)
+			// i is the element with index i-1.
+			a := PartVar(t.a-1, p, n)
+			b := PartVar(t.b-1, p, n)
+			c := PartVar(t.c-1, p, n)
 			dst.Add(a.Not())
 			dst.Add(b.Not())
 			dst.Add(c.Not())
@@ -141,6 +141,21 @@ func pytriples(n int) (map[int]int, []triple) {
 	return in, res
 }
 
+// pytriplesTo gives the triples over [1..n].
+func pytriplesTo(n int) []triple {
+	var res []triple
+	sqrs := &squares{make([]int, 0, n)}
+	for bi := 2; bi < n; bi++ {
+		for ai := 1; ai < bi; ai++ {
+			ci := sqrs.root(sqrs.get(ai) + sqrs.get(bi))
+			if ci != -1 && ci <= n {
+				res = append(res, triple{ai, bi, ci})
+			}
+		}
+	}
+	return res
+}
+
 func counts(ts []triple) []int {
 	res := make([]int, 0, len(ts)+len(ts)/2)
 	for _, t := range ts {
-- 
2.43.0


From 90e7ac76154dff01f71bd68d21a3b2dee3edecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 34/49] fix: ax: responses tell the number of pending requests

---
 ax/ax.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ax/ax.go b/ax/ax.go
index 0fae038..335e12e 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -136,6 +136,7 @@ type ax struct {
 	us       []*unit
 	avail    []int
 	cap      int
+	pending  int // requests accepted and not yet responded to
 }
 
 func newAx(proto inter.S, cap int) *ax {
@@ -208,6 +209,7 @@ func (m *ax) serve() {
 }
 
 func (m *ax) handleReq(req *Request) {
+	m.pending++
 	if len(m.avail) == 0 {
 		resp := <-m.uRespChn
 		m.handleResp(resp)
@@ -252,6 +254,8 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
+	m.pending--
+	resp.Pending = m.pending
 	m.respChn <- resp // shouldn't block if client agrees to API
 }
 
-- 
2.43.0


From 42a4aadaa4fa2e455bbe98fb326f623b8563cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 35/49] fix: ax: stop idle units, unfinished responses and
 exchanges

---
 ax/ax.go | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/ax/ax.go b/ax/ax.go
index 335e12e..77dce27 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -77,9 +77,8 @@ func NewT(proto inter.S, cap int) T {
 // outstanding (*), then pool accepts one more request and waits for a u to
 // become available.
 //
-// When the ax receives a channel close on the request channel from the
-// client, it immediately shuts down the u's, which select on a cancelation
-// channel along with their request channel.
+// When the client stops the ax, it immediately shuts down the u's, which select
+// on a cancelation channel along with their request channel.
 //
 //
 // -ax-(s)-----<Req<----------(s)---Client
@@ -133,6 +132,7 @@ type ax struct {
 	reqChn   chan *Request
 	respChn  chan *Response
 	uRespChn chan *Response
+	stop     chan struct{} // closed to stop
 	us       []*unit
 	avail    []int
 	cap      int
@@ -148,6 +148,7 @@ func newAx(proto inter.S, cap int) *ax {
 		reqChn:   make(chan *Request),
 		respChn:  make(chan *Response),
 		uRespChn: make(chan *Response, 1),
+		stop:     make(chan struct{}),
 		us:       make([]*unit, 1, cap),
 		avail:    make([]int, 1, cap),
 		cap:      cap}
@@ -159,13 +160,20 @@ func newAx(proto inter.S, cap int) *ax {
 
 func (m *ax) Ex(req *Request) *Response {
 	if req == nil {
-		return <-m.respChn
+		select {
+		case resp := <-m.respChn:
+			return resp
+		case <-m.stop:
+			return nil
+		}
 	}
 	select {
 	case m.reqChn <- req:
 		return nil
 	case resp := <-m.respChn:
 		return resp
+	case <-m.stop:
+		return nil
 	}
 }
 
@@ -190,17 +198,16 @@ func (m *ax) TryEx(req *Request) (*Response, bool) {
 }
 
 func (m *ax) Stop() {
-	close(m.reqChn)
+	close(m.stop)
 }
 
 func (m *ax) serve() {
 	for {
 		select {
-		case req, ok := <-m.reqChn:
-			if !ok {
-				m.shutdown()
-				return
-			}
+		case <-m.stop:
+			m.shutdown()
+			return
+		case req := <-m.reqChn:
 			m.handleReq(req)
 		case resp := <-m.uRespChn:
 			m.handleResp(resp)
@@ -211,8 +218,12 @@ func (m *ax) serve() {
 func (m *ax) handleReq(req *Request) {
 	m.pending++
 	if len(m.avail) == 0 {
-		resp := <-m.uRespChn
-		m.handleResp(resp)
+		select {
+		case resp := <-m.uRespChn:
+			m.handleResp(resp)
+		case <-m.stop:
+			return
+		}
 	}
 	u := m.getunit(req)
 	//log.Printf("start request %d by %d\n", req.Id, u.I)
@@ -256,13 +267,16 @@ func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
 	m.pending--
 	resp.Pending = m.pending
-	m.respChn <- resp // shouldn't block if client agrees to API
+	select {
+	case m.respChn <- resp: // shouldn't block if client agrees to API
+	case <-m.stop:
+	}
 }
 
 func (m *ax) shutdown() {
 	for _, u := range m.us {
 		if u != nil {
-			u.cancel <- struct{}{}
+			close(u.cancel)
 		}
 	}
 }
@@ -356,7 +370,10 @@ func (u *unit) handleResult(req *Request, res int, c chan<- *Response) {
 	}
 
 	//log.Printf("end req %d by %d:%p\n", req.Id, u.I, u.S)
-	c <- resp
+	select {
+	case c <- resp:
+	case <-u.cancel: // nobody is listening any more.
+	}
 }
 
 func (u *unit) score(ms []z.Lit) int {
-- 
2.43.0


From 0665176c9696db9c66e64ec2e872c76f39c72082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:55 +0000
Subject: [PATCH 36/49] fix: crisp: report numbers with more than 32 bits

---
 crisp/vu32io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 1a1816c..0ca07ca 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -51,7 +51,9 @@ func (io *vu32io) readu32() (uint32, error) {
 			return 0, e
 		}
 		z := uint32(b) & VarUintMask
-
+		if i == 4 && z > 0xf {
+			break // more than 32 bits
+		}
 		res = res | (z << s)
 		if b&(1<<7) == 0 {
 			return res, nil
-- 
2.43.0


From 06067af7456ee788a33c813e2c120a102d29bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 37/49] fix: crisp: keep unread input when writing

Reading and writing shared a buffer, so that writing while there was
unread input, as when a client doesn't wait for an answer before the
next request, lost both.
---
 crisp/vu32io.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 0ca07ca..10bb33a 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -17,13 +17,15 @@ import (
 // 2. encoding/binary keeps a separate buffer for each value, we code directly
 // to the underlying buffer of the buffered io.
 // 3. we are not safe for multiple goroutines (unliked buffered io)
-// 4. encoding/binary's buffered io needs a separate buffer for reading and
-// writing, we don't in this context.
+//
+// There is one buffer for reading and one for writing, since either end may
+// write while there is unread data.
 
 type vu32io struct {
 	rw   io.ReadWriter
 	buf  []byte
 	r, w int
+	out  []byte // written but not flushed
 }
 
 const (
@@ -35,7 +37,8 @@ func newVu32Io(rw io.ReadWriter) *vu32io {
 		rw:  rw,
 		r:   0,
 		w:   0,
-		buf: make([]byte, 1024)}
+		buf: make([]byte, 1024),
+		out: make([]byte, 0, 1024)}
 }
 
 func (io *vu32io) readu32() (uint32, error) {
@@ -137,20 +140,16 @@ func (io *vu32io) readByte() (byte, error) {
 }
 
 func (io *vu32io) writeByte(b byte) error {
-	if io.r >= len(io.buf) {
+	if len(io.out) >= cap(io.out) {
 		if e := io.flush(); e != nil {
 			return e
 		}
 	}
-	io.buf[io.r] = b
-	io.r++
+	io.out = append(io.out, b)
 	return nil
 }
 
 func (vio *vu32io) fill() error {
-	if vio.r > vio.w {
-		return fmt.Errorf("fill without write flush")
-	}
 	if vio.r == vio.w {
 		vio.r = 0
 		vio.w = 0
@@ -172,11 +171,11 @@ func (vio *vu32io) fill() error {
 }
 
 func (io *vu32io) flush() error {
-	n := io.r
-	m := io.w
+	n := len(io.out)
+	m := 0
 	k := 0
 	for m < n {
-		o, e := io.rw.Write(io.buf[m:n])
+		o, e := io.rw.Write(io.out[m:n])
 		m += o
 		if o > 0 {
 			k = 0
@@ -189,7 +188,6 @@ func (io *vu32io) flush() error {
 			return fmt.Errorf("repeated zero length no-error writes.")
 		}
 	}
-	io.r = 0
-	io.w = 0
+	io.out = io.out[:0]
 	return nil
 }
-- 
2.43.0


From 5cc230ff633054b88bb7e59b991f2d37861b26d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:46 +0000
Subject: [PATCH 38/49] fix: crisp: send errors for malformed and out of order
 requests

Only some of the errors in requests were sent to the client, others made
the server disconnect silently.
---
 crisp/handler.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index f84fbc6..c7f2cbf 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -86,7 +86,17 @@ func (h *Handler) cleanup() {
 	h.proto = Unknown
 }
 
+// Crisp runs the protocol on the current connection.  Protocol errors are sent
+// to the client.
 func (h *Handler) Crisp() error {
+	e := h.serveOps()
+	if pe, ok := e.(ProtoErr); ok {
+		return h.Error(pe)
+	}
+	return e
+}
+
+func (h *Handler) serveOps() error {
 	if e := h.Hello(); e != nil {
 		return e
 	}
@@ -152,7 +162,7 @@ func (h *Handler) Crisp() error {
 		case Quit:
 			return h.handleQuit()
 		default:
-			return h.Error(ErrUnknownOp)
+			return ErrUnknownOp
 		}
 	}
 }
@@ -214,7 +224,7 @@ func (h *Handler) handleAdd() error {
 			return nil
 		}
 		if m >= uint32(MinProto) {
-			return fmt.Errorf("CRISP protocol error expected data, got %s", ProtoPoint(m))
+			return ErrNotLit
 		}
 		g.Add(z.Lit(m))
 	}
@@ -305,7 +315,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 func (h *Handler) handleModel() error {
 	if h.proto != Solve {
 		log.Printf("model but not solving.\n")
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
@@ -338,7 +348,7 @@ func (h *Handler) handleModel() error {
 
 func (h *Handler) handleModelFor() error {
 	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
@@ -371,7 +381,7 @@ func (h *Handler) handleModelFor() error {
 func (h *Handler) handleFailed() error {
 	if h.proto != Solve {
 		log.Printf("failed but not solve\n")
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
@@ -382,7 +392,7 @@ func (h *Handler) handleFailed() error {
 
 func (h *Handler) handleFailedFor() error {
 	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
@@ -427,6 +437,5 @@ func (h *Handler) Error(e ProtoErr) error {
 	if e := h.uio.writeflush(uint32(e)); e != nil {
 		return e
 	}
-	h.cleanup()
 	return e
 }
-- 
2.43.0


From f663be040dde9b3323bc09bface23431144c7dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:01 +0000
Subject: [PATCH 39/49] fix: crisp: track the solving state of a connection

Requests for models or failed assumptions were not checked against the
last result, but were refused when <end> was answered with a result.
Requests other than <continue> and <end> while solving reached the
solver, and hung.
---
 crisp/handler.go | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index c7f2cbf..0348308 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -30,6 +30,8 @@ type Handler struct {
 	gini      *gini.Gini
 	solveConn inter.Solve
 	proto     ProtoPoint
+	solving   bool // the last response was <unknown>
+	res       int  // the result of the last solve
 	ms        []z.Lit
 	trace     *bool
 	steps     int
@@ -68,7 +70,7 @@ func (h *Handler) serveConn(conn net.Conn) {
 	h.conn = conn
 	h.uio = newVu32Io(conn)
 	h.gini = gini.New()
-	h.proto = Unknown
+	h.reset()
 	if e := h.Crisp(); e != nil {
 		log.Printf("%d crisp() result error %s", h.id, e)
 	}
@@ -80,10 +82,19 @@ func (h *Handler) cleanup() {
 		log.Printf("%d cleanup\n", h.id)
 	}
 	h.conn.Close()
+	if h.solving {
+		h.solveConn.Stop()
+	}
 	h.uio = nil
 	h.gini = nil
 	h.ms = h.ms[:0]
+	h.reset()
+}
+
+func (h *Handler) reset() {
 	h.proto = Unknown
+	h.solving = false
+	h.res = 0
 }
 
 // Crisp runs the protocol on the current connection.  Protocol errors are sent
@@ -110,6 +121,9 @@ func (h *Handler) serveOps() error {
 		if *h.trace {
 			log.Printf("%d received %s\n", h.id, p)
 		}
+		if h.solving && p != Continue && p != End && p != Quit {
+			return ErrOutOfOrder
+		}
 		switch p {
 		case Key:
 			if e := h.handleKey(); e != nil {
@@ -197,7 +211,7 @@ func (h *Handler) handleKey() error {
 
 func (h *Handler) handleReset() error {
 	h.gini = gini.New()
-	h.proto = Unknown
+	h.reset()
 	return nil
 }
 
@@ -252,7 +266,7 @@ func (h *Handler) handleSolve() error {
 }
 
 func (h *Handler) handleContinue() error {
-	if h.proto != Solve {
+	if !h.solving {
 		log.Printf("continue but not solving.\n")
 		return ErrOutOfOrder
 	}
@@ -260,12 +274,13 @@ func (h *Handler) handleContinue() error {
 }
 
 func (h *Handler) handleEnd() error {
-	if h.proto != Solve {
+	if !h.solving {
 		log.Printf("end but not solving\n")
 		return ErrOutOfOrder
 	}
-	h.proto = End
-	return h.sendRes(h.solveConn.Stop(), true)
+	h.solving = false
+	h.res = h.solveConn.Stop()
+	return h.sendRes(h.res, true)
 }
 
 func (h *Handler) handleStep() error {
@@ -274,6 +289,8 @@ func (h *Handler) handleStep() error {
 		panic("Test bombed")
 	}
 	h.steps++
+	h.solving = !done
+	h.res = res
 	return h.sendRes(res, false)
 }
 
@@ -317,6 +334,9 @@ func (h *Handler) handleModel() error {
 		log.Printf("model but not solving.\n")
 		return ErrOutOfOrder
 	}
+	if h.res != 1 {
+		return ErrNotSat
+	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
 	N := M
@@ -350,6 +370,9 @@ func (h *Handler) handleModelFor() error {
 	if h.proto != Solve {
 		return ErrOutOfOrder
 	}
+	if h.res != 1 {
+		return ErrNotSat
+	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
 		return e
@@ -383,6 +406,9 @@ func (h *Handler) handleFailed() error {
 		log.Printf("failed but not solve\n")
 		return ErrOutOfOrder
 	}
+	if h.res != -1 {
+		return ErrNotUnsat
+	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
 		return e
@@ -394,6 +420,9 @@ func (h *Handler) handleFailedFor() error {
 	if h.proto != Solve {
 		return ErrOutOfOrder
 	}
+	if h.res != -1 {
+		return ErrNotUnsat
+	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
 	fs := h.gini.Why(h.ms)
-- 
2.43.0


From b8451448af474b859a04195ec8966eeb426f7f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:01 +0000
Subject: [PATCH 40/49] fix: crisp: Stop hung when there was a result

Nobody receives a cancel request after the result is sent.
---
 crisp/netsolve.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crisp/netsolve.go b/crisp/netsolve.go
index 1b08713..01b7a39 100644
--- a/crisp/netsolve.go
+++ b/crisp/netsolve.go
@@ -39,7 +39,6 @@ func (s *netsolve) Try(d time.Duration) (int, error) {
 func (s *netsolve) Stop() (int, error) {
 	select {
 	case res := <-s.result:
-		s.cancel <- struct{}{}
 		return res.v, res.e
 	case s.cancel <- struct{}{}:
 		r := <-s.result
-- 
2.43.0


From d793af42cd541acb8eb6ee404542b3c0877bc5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 41/49] fix: crisp: Solve returns the error a server reports

It took <error> for an unknown operator, and a zero in place of an
operator made it read again without end.
---
 crisp/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 365015a..dac420a 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -164,14 +164,16 @@ func (c *Client) Solve() (int, error) {
 	ReadOp:
 		op, err := c.io.readu32()
 		// TBD: better way to map errors in protocol to Solver API
-		if err != nil && err != io.EOF {
+		if err != nil {
 			return 0, err
 		}
 		switch ProtoPoint(op) {
-		case 0:
+		case Error:
+			code, err := c.io.readu32()
 			if err != nil {
 				return 0, err
 			}
+			return 0, ProtoErr(code)
 		case Sat:
 			c.lastSat = 1
 			return 1, nil
-- 
2.43.0


From 406fdeebef86dcb54513e3a0b450c9f3614dd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 42/49] fix: crisp: clients report failures to send requests

---
 crisp/client.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index dac420a..d162198 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -114,7 +114,9 @@ func (c *Client) fromXo(x *xo.S) error {
 // To terminate the clause, m should 0.
 func (c *Client) Add(m z.Lit) error {
 	if c.proto != Add {
-		c.checkState(Add)
+		if e := c.checkState(Add); e != nil {
+			return e
+		}
 	}
 	if m.Var() > c.maxVar {
 		c.maxVar = m.Var()
@@ -128,7 +130,9 @@ func (c *Client) Assume(ms ...z.Lit) error {
 	if len(ms) == 0 {
 		return nil
 	}
-	c.checkState(Assume)
+	if e := c.checkState(Assume); e != nil {
+		return e
+	}
 	if e := c.io.send(ms); e != nil {
 		return e
 	}
@@ -228,7 +232,7 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(Model); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	var u uint32
 	var n uint32
@@ -278,7 +282,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(ModelFor); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
@@ -319,7 +323,7 @@ func (c *Client) Why(ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(Failed); e != nil {
-		return ms, nil
+		return ms, e
 	}
 	return c.io.recv(ms)
 }
@@ -332,7 +336,7 @@ func (c *Client) WhySelect(dst []z.Lit, ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(FailedFor); e != nil {
-		return dst, nil
+		return dst, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
-- 
2.43.0


From 23cb47e21e8a2d4bb29e0c2b0d7b58dfb0cf6a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 43/49] fix: crisp: clients forget results which no longer hold

After adding, assuming, resetting or an unfinished solve, a client still
gave the values and failed assumptions of an earlier solve, and Value
used the slice which had been given to Model.
---
 crisp/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crisp/client.go b/crisp/client.go
index d162198..6c99fae 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -257,7 +257,6 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		}
 		vs[i+1] = u&(1<<j) != 0
 	}
-	c.model = vs
 	return vs, nil
 }
 
@@ -386,6 +385,7 @@ func (c *Client) Reset() error {
 		return e
 	}
 	c.proto = Unknown
+	c.maxVar = 0
 	return nil
 }
 
@@ -403,6 +403,12 @@ func (c *Client) Close() error {
 // check's whether we're in the correct state
 // and sends op codes accordingly.
 func (c *Client) checkState(point ProtoPoint) error {
+	switch point {
+	case Add, Assume, Solve, Reset:
+		// there is no result any more
+		c.lastSat = 0
+		c.model = nil
+	}
 	if c.proto.IsVarLen() {
 		if e := c.io.writeflush(uint32(End)); e != nil {
 			return e
-- 
2.43.0


From 25d4dd27f4384d0a68847d156d7730690d9f00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:45 +0000
Subject: [PATCH 44/49] fix: crisp: ModelFor gives the value of the i'th
 literal at i

The values were off by one, and a destination of the right capacity made
it panic.
---
 crisp/client.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 6c99fae..fcc4519 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -275,7 +275,9 @@ func (c *Client) Value(m z.Lit) (bool, error) {
 	return !c.model[m.Var()], nil
 }
 
-// ModelFor returns a partial model of the
+// ModelFor returns a partial model of the formula, if the last Solve() was
+// satisfiable: the i'th element is the value of the i'th literal in ms, and
+// there are at least as many elements as there are literals in ms.
 func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if c.lastSat != 1 {
 		return nil, fmt.Errorf("last solve call wasn't sat")
@@ -296,13 +298,13 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if e != nil {
 		return nil, e
 	}
-	theCap := n*32 + 1
+	theCap := n * 32
 	if cap(dst) < int(theCap) {
 		dst = make([]bool, theCap)
 	} else {
-		dst = dst[:theCap+1]
+		dst = dst[:theCap]
 	}
-	for i := uint32(0); i < theCap-1; i++ {
+	for i := uint32(0); i < theCap; i++ {
 		j := i % 32
 		if j == 0 {
 			u, e = c.io.readu32()
@@ -310,7 +312,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 				return nil, e
 			}
 		}
-		dst[i+1] = u&(1<<j) != 0
+		dst[i] = u&(1<<j) != 0
 	}
 	return dst, nil
 }
-- 
2.43.0


From 758bab9319d4c1a20da932a6a80275cd793c2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:45 +0000
Subject: [PATCH 45/49] fix: crisp: unix addresses are written with their
 prefix

---
 crisp/addr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/addr.go b/crisp/addr.go
index 0679c5a..11af95b 100644
--- a/crisp/addr.go
+++ b/crisp/addr.go
@@ -30,7 +30,7 @@ func ParseAddr(s string) *Addr {
 // String puts the address back in the format provided
 // to ParseAddr.
 func (a *Addr) String() string {
-	if a.Network == "@" {
+	if a.Network == "unix" {
 		return fmt.Sprintf("@%s", a.NetAddr)
 	}
 	return fmt.Sprintf("%s", a.NetAddr)
-- 
2.43.0


From 5c3000a9be7f81094a7cfbd77d713e470703ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 46/49] fix: crisp: extensions overflowed into literals

Installing an extension which doesn't fit was accepted when the offset of
its last operation overflowed.
---
 crisp/exts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/exts.go b/crisp/exts.go
index 4420dd6..065ba8b 100644
--- a/crisp/exts.go
+++ b/crisp/exts.go
@@ -49,7 +49,7 @@ func NewExts() *Exts {
 // installed) overflows.  This should not exceed NumExtProtos
 func (e *Exts) Install(id uint16, n uint8) (int, error) {
 	m := uint32(n)
-	if e.Off+m >= uint32(MinProto+NumExtProtos) {
+	if m >= uint32(MinProto+NumExtProtos)-e.Off {
 		return -1, fmt.Errorf("too many opcodes installed")
 	}
 	res := len(e.D)
-- 
2.43.0


From 15991f8d6fd1cef97a8d0b449f6570a60057db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:13 +0000
Subject: [PATCH 47/49] fix: crisp: requests for values of unknown variables

A request for the value of a variable which hasn't been added could make
the server panic, and gave a literal and its negation the same value.
---
 crisp/handler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 0348308..fc17f22 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -388,7 +388,7 @@ func (h *Handler) handleModelFor() error {
 	var u uint32
 	for i := uint32(0); i < N; i++ {
 		j := i % 32
-		if i < M && h.gini.Value(ms[i]) {
+		if i < M && h.value(ms[i]) {
 			u = u | (1 << j)
 		}
 		if j == uint32(31) {
@@ -401,6 +401,15 @@ func (h *Handler) handleModelFor() error {
 	return h.uio.flush()
 }
 
+// value gives the value of m, where m may be over a variable which hasn't been
+// added.
+func (h *Handler) value(m z.Lit) bool {
+	if m.Var() > h.gini.MaxVar() {
+		return !m.IsPos()
+	}
+	return h.gini.Value(m)
+}
+
 func (h *Handler) handleFailed() error {
 	if h.proto != Solve {
 		log.Printf("failed but not solve\n")
-- 
2.43.0


From ff054095d7d1eb50ac4efe809ed4cc2078cbac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:07 +0000
Subject: [PATCH 48/49] fix: explanations of wrapped solvers: keep what the
 caller passed

---
 sv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sv.go b/sv.go
index 3d3814d..6b351aa 100644
--- a/sv.go
+++ b/sv.go
@@ -70,8 +70,10 @@ func (w *svWrap) Lit() z.Lit {
 }
 
 func (w *svWrap) Why(dst []z.Lit) []z.Lit {
+	n := len(dst)
 	dst = w.S.Why(dst)
-	return w.V.ToOuters(dst)
+	// what the caller passed is the caller's already.
+	return dst[:n+len(w.V.ToOuters(dst[n:]))]
 }
 
 func (w *svWrap) Value(m z.Lit) bool {
-- 
2.43.0


From 0baf929ee7e73d5555ef61e95b92ac0b62f0713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:12 +0000
Subject: [PATCH 49/49] fix: skip inputs whose format is unknown instead of
 crashing

---
 cmd/gini/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 5691bd4..94d2391 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -400,6 +400,10 @@ func main() {
 			continue
 		}
 		format, e := path2Format(fName)
+		if e != nil {
+			log.Println(e)
+			continue
+		}
 		log.Print(fName)
 		_, e = format.runReader(r)
 		if e != nil {
-- 
2.43.0

