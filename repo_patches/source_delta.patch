From 66f0bc17933112839393e1ac2f317ff05fb403e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 01/53] fix: relate past and future of a new event transitively

---
 causetevent.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/causetevent.py b/causetevent.py
index efe1772..08447cc 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -65,6 +65,16 @@ class CausetEvent(object):
             e._addToFuture(self)
         for e in self._succ:
             e._addToPast(self)
+        # Relate the past to the future (no links, this instance is between):
+        for p in self._prec:
+            for f in self._succ:
+                p._addToFuture(f)
+                f._addToPast(p)
+            if p.hasBeenLinked():
+                p._lsucc -= self._succ
+        for f in self._succ:
+            if f.hasBeenLinked():
+                f._lprec -= self._prec
 
     def hasBeenLinked(self) -> bool:
         '''
-- 
2.43.0


From cfd2f490f415f543b3f1201e85b32c3896b91598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 02/53] fix: unlinking an event that was never linked

---
 causetevent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 08447cc..b56f008 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -224,8 +224,9 @@ class CausetEvent(object):
         '''
         Force the CausetEvent instance to reset its link memory.
         '''
-        delattr(self, '_lprec')
-        delattr(self, '_lsucc')
+        if self.hasBeenLinked():
+            delattr(self, '_lprec')
+            delattr(self, '_lsucc')
 
     @classmethod
     def isLink(cls, a: 'CausetEvent', b: 'CausetEvent') -> bool:
-- 
2.43.0


From 6d4da3d600e3f6a85a14719c7f5bf392ba8a101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 03/53] fix: new links around a disjoined event are found from
 both ends

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index b56f008..9177ed2 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -119,18 +119,18 @@ class CausetEvent(object):
         It returns True if the event was in the past or future, otherwise False.
         '''
         if other in self._prec:
+            self._prec.discard(other)
             if self.hasBeenLinked() and (other in self._lprec):
                 self._lprec |= {
                     e for e in other._prec if CausetEvent.isLink(e, self)}
                 self._lprec.remove(other)
-            self._prec.discard(other)
             return True
         elif other in self._succ:
+            self._succ.discard(other)
             if self.hasBeenLinked() and (other in self._lsucc):
                 self._lsucc |= {
                     e for e in other._succ if CausetEvent.isLink(self, e)}
                 self._lsucc.remove(other)
-            self._succ.discard(other)
             return True
         else:
             return False
-- 
2.43.0


From 79934a65e25f96b887cc5ed23beba1dd7696e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 04/53] fix: LinkConeCard counts past and future links

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 9177ed2..4d0311e 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -427,10 +427,10 @@ class CausetEvent(object):
         cardinality).
         '''
         try:
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
         except AttributeError:
             self.link()
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
 
     def copy(self) -> 'CausetEvent':
         '''
-- 
2.43.0


From 8f5a12e13345b636bc8b69b5bb5d3a9a0b896ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 05/53] fix: events without coordinates or position are not
 embedded or positioned

---
 causetevent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 4d0311e..bb3f071 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -58,8 +58,10 @@ class CausetEvent(object):
         self._succ = set()
         for e in kwargs.get('future', []):
             self._succ.update(e.PresentOrFuture)
-        self._coordinates = list(kwargs.get('coordinates', []))
-        self._position = list(kwargs.get('position', []))
+        if 'coordinates' in kwargs:
+            self._coordinates = list(kwargs['coordinates'])
+        if 'position' in kwargs:
+            self.Position = kwargs['position']
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From e0dba77e287ff246a7731bb2c322bcc0da92f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 06/53] fix: link a causet that has relatives outside of its
 event set

---
 causet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causet.py b/causet.py
index 5b5785f..96b2f61 100644
--- a/causet.py
+++ b/causet.py
@@ -280,11 +280,12 @@ class Causet(object):
         '''
         # clear links:
         for e in self._events:
-            e._lsucc = set()
+            e._lsucc = {f for f in e._succ - self._events
+                        if CausetEvent.isLink(e, f)}
         # compute links:
         for b in self._events:
             b._lprec = {a for a in b._prec if CausetEvent.isLink(a, b)}
-            for a in b._lprec:
+            for a in b._lprec & self._events:
                 a._lsucc.add(b)
 
     def unlink(self) -> None:
-- 
2.43.0


From 8cd2f75aabfe2cc7fe5288c7195bbd44a8053aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 07/53] fix: merging linked causets updates their links

---
 causet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causet.py b/causet.py
index 96b2f61..4e0315f 100644
--- a/causet.py
+++ b/causet.py
@@ -234,6 +234,9 @@ class Causet(object):
                 for f in futureSet:
                     p._addToFuture(f)
                     f._addToPast(p)
+            for e in set(pastSet) | set(futureSet):
+                if e.hasBeenLinked():
+                    e.link()
         return Causet(set(pastSet) | set(futureSet))
 
     def add(self, eventSet: Iterable, unlink: bool = False) -> None:
-- 
2.43.0


From 72db9807a5780ef6659a6912e585c7757261f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 08/53] fix: matrices are read with their full transitive
 closure and all loops are found

---
 causet.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/causet.py b/causet.py
index 4e0315f..108e8a5 100644
--- a/causet.py
+++ b/causet.py
@@ -184,17 +184,17 @@ class Causet(object):
         e: CausetEvent
         for i in range(rowcount):
             e = events[i]
-            past: Set[CausetEvent] = set(events[np.where(C[i, :])[0]])
-            future: Set[CausetEvent] = set(events[np.where(C[:, i])[0]])
-            if (past & future) or (e in past) or (e in future):
-                raise ValueError('The causet is not anti-symmetric.')
-            e._prec = past
-            e._succ = future
+            e._prec = set(events[np.where(C[i, :])[0]])
         # complete pasts and futures (if the input contains links only)
-        for i in range(colcount):
-            e = events[i]
-            e._prec = Causet.PastOf(e._prec, includePresent=True)
-            e._succ = Causet.FutureOf(e._succ, includePresent=True)
+        for e in events:
+            for f in events:
+                if e in f._prec:
+                    f._prec |= e._prec
+        for e in events:
+            if e in e._prec:
+                raise ValueError('The causet is not anti-symmetric.')
+            for p in e._prec:
+                p._succ.add(e)
         return Causet(set(events))
 
     @staticmethod
-- 
2.43.0


From 415a404bb57cf6dbaafafec49883ce2c0050ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 09/53] fix: read causal matrix files with a single event or
 row

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 108e8a5..f7a7d4b 100644
--- a/causet.py
+++ b/causet.py
@@ -213,7 +213,7 @@ class Causet(object):
         parsed with `FromPastMatrix` or `FromFutureMatrix`.
         '''
         C: np.ndarray = np.genfromtxt(filename, dtype=int,
-                                      delimiter=delimiter, **kwargs)
+                                      delimiter=delimiter, ndmin=2, **kwargs)
         C = C.astype(bool)
         if isPastMatrix:
             return Causet.FromPastMatrix(C)
-- 
2.43.0


From bfd129cbfc8cca5893005b7b5830f05691f7f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 10/53] fix: subtracting a causet from a set

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index f7a7d4b..08464d3 100644
--- a/causet.py
+++ b/causet.py
@@ -396,7 +396,7 @@ class Causet(object):
         return self._events - set(other)
 
     def __rsub__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
-        return self._events - set(other)
+        return set(other) - self._events
 
     def __or__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
         return self._events | set(other)
-- 
2.43.0


From b00f2bb6a24913b0544702254aa14ca8e4443992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 11/53] fix: a path is a chain of events

---
 causet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causet.py b/causet.py
index 08464d3..671733b 100644
--- a/causet.py
+++ b/causet.py
@@ -460,6 +460,8 @@ class Causet(object):
             events = set(events)
             if len(events) <= 1:
                 return len(events) == 1
+            if not self.isChain(events):
+                return False
             extremal: int = 0
             for e in events:
                 e_linkcount: int = len(e.LinkCone & events)
-- 
2.43.0


From 3acbadabb9e22c061954386ad586d6c56a5909c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 12/53] fix: intersection of pasts, futures and cones is no
 longer always empty

---
 causet.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/causet.py b/causet.py
index 671733b..2e1ed23 100644
--- a/causet.py
+++ b/causet.py
@@ -558,11 +558,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrPast
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.PresentOrPast for e in eventSet])
         elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Past
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.Past for e in eventSet])
         else:
             for e in eventSet:
                 newEventSet |= e.Past
@@ -578,11 +580,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrFuture
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.PresentOrFuture for e in eventSet])
         elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Future
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.Future for e in eventSet])
         else:
             for e in eventSet:
                 newEventSet |= e.Future
@@ -598,11 +602,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.Cone
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.Cone for e in eventSet])
         elif intersect:
-            for e in eventSet:
-                newEventSet &= (e.Past | e.Future)
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.Past | e.Future for e in eventSet])
         else:
             for e in eventSet:
                 newEventSet |= e.Past | e.Future
-- 
2.43.0


From 37d8f190aebffcad7c29378951ad3430deee6896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 13/53] fix: sort events without label

---
 causet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 2e1ed23..6dd3b69 100644
--- a/causet.py
+++ b/causet.py
@@ -1147,11 +1147,14 @@ class Causet(object):
         '''
         if eventSet is None:
             eventSet = self._events
-        unsortedList: List[CausetEvent] = list(eventSet)
+        unsortedList: List[CausetEvent] = \
+            [e for e in eventSet if e.Label is not None]
         sortedIndex: np.ndarray = \
             np.argsort([e.Label for e in unsortedList])
         sortedList: List[CausetEvent] = \
             [unsortedList[i] for i in sortedIndex]
+        # events without label have no label order, so append them:
+        sortedList += [e for e in eventSet if e.Label is None]
         if reverse:
             sortedList.reverse()
         return sortedList
-- 
2.43.0


From 8ce8e1bf88e9a6973c26c1ef7cb4f6e71408dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 14/53] fix: no antipaths between events that are never
 connected

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 6dd3b69..bc3d54d 100644
--- a/causet.py
+++ b/causet.py
@@ -1084,7 +1084,7 @@ class Causet(object):
         b_idx: int = antichainList.index(b)
         D: np.ndarray = distances if distances is not None \
             else self.DistanceMatrix(antichainList, recursive=True)
-        if D[a_idx, b_idx] == -1:
+        if D[a_idx, b_idx] <= 0:  # not connected
             return
 
         def Antipaths_find(e_idx: int) -> Iterator[List[CausetEvent]]:
-- 
2.43.0


From 3cec241b878c86627a4eafb05d7789265fea0793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 15/53] fix: sprinkle into a bicone (diamond) with any centre
 and hollow interior

---
 sprinkledcauset.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 28dfc3c..876586c 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -82,10 +82,10 @@ class SprinkledCauset(EmbeddedCauset):
                 high = shape.Center + shape.Parameter('edge') / 2
             for i in range(count):
                 coords[i, :] = rng.uniform(low, high)
-        elif shape.Name in ('ball', 'cylinder', 'diamond'):
+        elif shape.Name in ('ball', 'cylinder', 'bicone'):
             # Create circle based sprinkle:
             isCylindrical: bool = 'cylinder' in shape.Name
-            isDiamond: bool = 'diamond' in shape.Name
+            isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
             b_r: float = shape.Parameter('radius')
             if (d == 2) and isDiamond:
@@ -107,7 +107,8 @@ class SprinkledCauset(EmbeddedCauset):
                     coords[:, 0] = rng.uniform(time_low, time_high,
                                                size=(count,))
                 # pick `count` random coordinate tuples uniformly:
-                r_low: float = shape.Parameter('hollow')**b_d
+                r_low: float = 0.0 if isDiamond else \
+                    shape.Parameter('hollow')**b_d
                 for i in range(count):
                     # get coordinates on sphere using normal distribution:
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
@@ -122,8 +123,19 @@ class SprinkledCauset(EmbeddedCauset):
                         coords[i, 0] = h_sign * (1 - h_squeeze) * b_r
                         # adjust scaling:
                         r_scaling *= h_squeeze
-                    coords[i, b_dstart:] = shape.Center[b_dstart:] + \
-                        (r_scaling * b_r / r) * coord
+                    coords[i, b_dstart:] = (r_scaling * b_r / r) * coord
+                    if not isDiamond:
+                        coords[i, b_dstart:] += shape.Center[b_dstart:]
+            if isDiamond:
+                h_low: float = shape.Parameter('hollow')**d
+                if h_low > 0.0:
+                    # rescale to the exterior of the hollow bicone:
+                    for i in range(count):
+                        cone_r: float = abs(coords[i, 0]) + \
+                            np.sqrt(sum(np.square(coords[i, 1:])))
+                        coords[i, :] *= b_r / cone_r * \
+                            rng.uniform(low=h_low)**(1.0 / d)
+                coords += shape.Center
         return coords
 
     def sprinkle(self, count: int, rng=default_rng(),
-- 
2.43.0


From 6c8d9ef9711a1c242eed94fb07b4ea9cbbae9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 16/53] fix: discarding from an empty sprinkled causet

---
 sprinkledcauset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 876586c..5af5ec0 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -189,4 +189,5 @@ class SprinkledCauset(EmbeddedCauset):
     def discard(self, eventSet: Iterable, unlink: bool = False) -> None:
         card_old: float = float(self.Card)
         super().discard(eventSet, unlink)
-        self._intensity *= (float(self.Card) / card_old)
+        if card_old > 0.0:
+            self._intensity *= (float(self.Card) / card_old)
-- 
2.43.0


From 6615c01ce3d8924b64aee665a32a47e0957971b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 17/53] fix: length scale is the inverse root of the density

---
 embeddedcauset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index f8a7ca8..edf01a2 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -184,7 +184,8 @@ class EmbeddedCauset(Causet):
         Returns the fundamental length scale as inverse d-root of 
         `self.Density` if `card > 0`, else 0.0. 
         '''
-        return 0.0 if self.Card == 0 else self.Density**(1.0 / self.Shape.Dim)
+        return 0.0 if self.Card == 0 else \
+            self.Density**(-1.0 / self.Shape.Dim)
 
     def create(self, coordinates: Union[List[List[float]],
                                         List[np.ndarray],
-- 
2.43.0


From 7acd8c79a4d7d63e776b6ffd04b49d74cb9aa2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 18/53] fix: representation of a coordinate shape

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index d118fb3..4eef303 100644
--- a/shapes.py
+++ b/shapes.py
@@ -143,7 +143,7 @@ class CoordinateShape(object):
             return f'{self._dim}-{self._name}'
 
     def __repr__(self):
-        return f'{self._class__._name__}(' + \
+        return f'{self.__class__.__name__}(' + \
             f'{self._dim}, {self._name}, center={self._center}, ' + \
             f'**{self._params})'
 
-- 
2.43.0


From 7d92b9855b074e144df51c0724f7066da4a0a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 19/53] fix: representation of a flat spacetime without periods

---
 spacetimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index f41880b..dcbd103 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -278,7 +278,7 @@ class FlatSpacetime(Spacetime):
             self._params['period'] = _periods
 
     def __repr__(self):
-        _period: Tuple[float, ...] = self.Parameter('period')
+        _period: Tuple[float, ...] = self._params.get('period', 0.0)
         return f'{self.__class__.__name__}({self._dim}, period={_period})'
 
     def DefaultShape(self) -> CoordinateShape:
-- 
2.43.0


From 8fe1d0b6a0de5ea49e9fefda60d7d40fdfe47117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 20/53] fix: periodic flat causality for separations larger
 than the period

---
 spacetimes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spacetimes.py b/spacetimes.py
index dcbd103..0901e5f 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -317,6 +317,7 @@ class FlatSpacetime(Spacetime):
                     t_delta: float = y[0] - x[0]
                     r_delta: float = abs(y[1] - x[1])
                     if _period[0] > 0.0:
+                        r_delta %= _period[0]
                         r_delta = min(r_delta, _period[0] - r_delta)
                     isCausal: bool = abs(t_delta) >= \
                         abs(r_delta) - causality_eps
@@ -331,6 +332,7 @@ class FlatSpacetime(Spacetime):
                     for i in range(1, self.Dim):
                         r_delta_i: float = abs(y[i] - x[i])
                         if _period[i - 1] > 0.0:
+                            r_delta_i %= _period[i - 1]
                             r_delta_i = min(r_delta_i,
                                             _period[i - 1] - r_delta_i)
                         r2_delta += r_delta_i**2
-- 
2.43.0


From 895e8ef138d182a62e13644dfb9ab496d722bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 21/53] fix: Anti-de Sitter causality is ordered by time

---
 spacetimes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index 0901e5f..fe73a04 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -649,10 +649,13 @@ class AntideSitterSpacetime(_dSSpacetime):
             x0_y: float = amp_y * math.sin(y[0] / self._alpha)
             x1_y: float = amp_y * math.cos(y[0] / self._alpha)
             x0_delta: float = x0_y - x0_x
-            isCausal: bool = x0_delta**2 + (x1_y - x1_x)**2 >= \
+            t_delta: float = y[0] - x[0]
+            # all points are in causal contact after half a time period:
+            isCausal: bool = abs(t_delta) >= math.pi * self._alpha or \
+                x0_delta**2 + (x1_y - x1_x)**2 >= \
                 sum(np.square(y[1:] - x[1:])) - causality_eps
-            return ((x0_delta >= 0.0) and isCausal,
-                    (x0_delta < 0.0) and isCausal)
+            return ((t_delta >= 0.0) and isCausal,
+                    (t_delta < 0.0) and isCausal)
         return isCausal_AdS
 
 
-- 
2.43.0


From 76fcf5aa39ad62c6cc0f648a8bd99b45b49ec192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 22/53] fix: embedded causets reject coordinate lists of
 another dimension

---
 embeddedcauset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index edf01a2..250dd0a 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -71,7 +71,9 @@ class EmbeddedCauset(Causet):
                 dim = spacetime.Dim
             elif (shape is not None) and isinstance(shape, CoordinateShape):
                 dim = shape.Dim
-            elif coordinates is not None:
+            elif isinstance(coordinates, np.ndarray):
+                dim = coordinates.shape[-1] if coordinates.ndim == 2 else 2
+            elif coordinates is not None and len(coordinates) > 0:
                 dim = len(coordinates[0])
             else:
                 dim = 2  # default
@@ -115,6 +117,8 @@ class EmbeddedCauset(Causet):
                     ((coordinates.ndim != 2) or
                      (coordinates.shape[1] != defaultShape.Dim)):
                 self.__raiseDimValueError__('coordinates')
+            elif any(len(c) != defaultShape.Dim for c in coordinates):
+                self.__raiseDimValueError__('coordinates')
             self.create(coordinates)
 
     @staticmethod
-- 
2.43.0


From ec01111cb2c096dd47e23e8b1872ca7901e22d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 23/53] fix: harmonic numbers no longer overflow for large n

---
 calculations.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/calculations.py b/calculations.py
index 33ee0eb..6be0abf 100644
--- a/calculations.py
+++ b/calculations.py
@@ -42,11 +42,12 @@ def HarmonicNumbers(n: int, approximate: int = 100) -> np.ndarray:
         H[k] = total
         total += 1. / (k + 1)
     if n >= approximate:
-        n_range: np.ndarray = np.arange(approximate, n + 1)
-        H[n_range] = np.log(n_range) + np.euler_gamma
-        H[n_range] += 0.5 / n_range
-        H[n_range] -= 0.25 / 3 / np.square(n_range)
-        H[n_range] += 0.025 / 3 / np.square(np.square(n_range))
+        n_index: np.ndarray = np.arange(approximate, n + 1)
+        n_range: np.ndarray = n_index.astype(float)
+        H[n_index] = np.log(n_range) + np.euler_gamma
+        H[n_index] += 0.5 / n_range
+        H[n_index] -= 0.25 / 3 / np.square(n_range)
+        H[n_index] += 0.025 / 3 / np.square(np.square(n_range))
     return H
 
 
-- 
2.43.0


From 49d994971a5c690f40b7a47b0d03244f13806ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 24/53] fix: invalid hex code of a colour

---
 colorschemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/colorschemes.py b/colorschemes.py
index abc0813..72e2ec1 100644
--- a/colorschemes.py
+++ b/colorschemes.py
@@ -66,7 +66,7 @@ ColorSchemes: Dict[str, Dict[str, str]] = {
                               'cyan':        '#009CBC',
                               'green':       '#02893B',
                               'kermitgreen': '#66A40A',
-                              'lime':        '#BBCEOO',
+                              'lime':        '#BBCE00',
                               'yellow':      '#FFDD00',
                               'tangerine':   '#EC7300',
                               'orange':      '#D24000',
-- 
2.43.0


From 973b47af2ef728e84712989ac6016e46c6b3e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 25/53] fix: plot causal cones without fading

---
 causetplotting.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index ba0e559..3d924be 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -395,28 +395,32 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         coordattr = 'Coordinates'
     if isPlottingPastcones:
         pcn_alpha_max: float
+        pcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
             try:
                 pcn_alpha_max = plotting['pastcones']['alpha']
             except KeyError:
                 pcn_alpha_max = 1.0
+            pcn_alpha = dynamic_parameter(plotting['conetimefade'], dim,
+                                          abs(plotting['conetimedepth']),
+                                          pcn_alpha_max)
         plotpcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['pastcones'], timesign=-1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           pcn_alpha_max))
+            dynamicAlpha=pcn_alpha)
     if isPlottingFuturecones:
         fcn_alpha_max: float
+        fcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
             try:
                 fcn_alpha_max = plotting['futurecones']['alpha']
             except KeyError:
                 fcn_alpha_max = 1.0
+            fcn_alpha = dynamic_parameter(plotting['conetimefade'], dim,
+                                          abs(plotting['conetimedepth']),
+                                          fcn_alpha_max)
         plotfcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['futurecones'], timesign=1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           fcn_alpha_max))
+            dynamicAlpha=fcn_alpha)
     # ====================
     plotting_links: Dict[str, Any] = {}
     if 'links' in plotting:
-- 
2.43.0


From ccb06d42d11a824a737a6efb8e3e81d79f673d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 26/53] fix: axis limits from the embedding shape

---
 causetplotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causetplotting.py b/causetplotting.py
index 3d924be..9a28780 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -350,6 +350,8 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     '''
     # ====================
     # get defaults and user-specified parameters:
+    if isinstance(E, EmbeddedCauset) and kwargs.get('axislim') == 'shape':
+        kwargs.setdefault('shape', E.Shape)
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
     _h = {}  # holds Dict of artists
     # ====================
-- 
2.43.0


From fd5ac1c91251d3307192cf00dcd28be77d78ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 27/53] fix: dynamic plots without links

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index 9a28780..2a54556 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -439,7 +439,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             plotting_labels = plotting['labels']
         dyn_links = dynamic_parameter(plotting['timefade'],
                                       dim, t_depth,
-                                      plotting_links['linewidth'])
+                                      plotting_links.get('linewidth', 2.0))
         dyn_events = dynamic_parameter(plotting['timefade'],
                                        dim, t_depth,
                                        plotting_events.get('alpha', 1.0))
-- 
2.43.0


From e26e8d0cf01b5925380615ef4dc39d5a563586a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 28/53] fix: link count of a causet with discarded events

---
 causet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/causet.py b/causet.py
index bc3d54d..ae5813a 100644
--- a/causet.py
+++ b/causet.py
@@ -305,9 +305,8 @@ class Causet(object):
         this instance if `eventSet is None`).
         '''
         if eventSet is None:
-            return sum([e.LinkPastCard for e in self._events])
-        else:
-            return sum([len(e.LinkPast & eventSet) for e in eventSet])
+            eventSet = self._events
+        return sum([len(e.LinkPast & eventSet) for e in eventSet])
 
     def PastMatrix(self, labeledEvents: Optional[List[CausetEvent]] = None,
                    dtype: Any = bool) -> np.ndarray:
-- 
2.43.0


From 318b0358288ba3c81c85def8c280c4340f4e90b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 29/53] fix: chain, path and antichain tests of a causet with
 discarded events

---
 causet.py | 60 +++++++++++++++++++------------------------------------
 1 file changed, 21 insertions(+), 39 deletions(-)

diff --git a/causet.py b/causet.py
index ae5813a..1438c71 100644
--- a/causet.py
+++ b/causet.py
@@ -432,44 +432,31 @@ class Causet(object):
         '''
         Tests if this instance or `CausetEvent` is a causal chain.
         '''
-        c: int
-        if events is None:
-            c = self.Card
-            for e in self._events:
-                if e.ConeCard != c:
-                    return False
-        else:
-            events = set(events)
-            c = len(events)
-            for e in events:
-                if len(e.Cone & events) != c:
-                    return False
+        events = self._events if events is None else set(events)
+        c: int = len(events)
+        for e in events:
+            if len(e.Cone & events) != c:
+                return False
         return True
 
     def isPath(self, events: Optional[Iterable[CausetEvent]] = None) -> bool:
         '''
         Tests if this instance or `CausetEvent` is a causal path.
         '''
-        if events is None:
-            if self.Card == 0:
-                return False
-            else:
-                return self.isChain()
-        else:
-            events = set(events)
-            if len(events) <= 1:
-                return len(events) == 1
-            if not self.isChain(events):
+        events = self._events if events is None else set(events)
+        if len(events) <= 1:
+            return len(events) == 1
+        if not self.isChain(events):
+            return False
+        extremal: int = 0
+        for e in events:
+            e_linkcount: int = len(e.LinkCone & events)
+            if (e_linkcount < 1) or (e_linkcount > 2):
                 return False
-            extremal: int = 0
-            for e in events:
-                e_linkcount: int = len(e.LinkCone & events)
-                if (e_linkcount < 1) or (e_linkcount > 2):
+            elif e_linkcount == 1:
+                extremal += 1
+                if extremal > 2:
                     return False
-                elif e_linkcount == 1:
-                    extremal += 1
-                    if extremal > 2:
-                        return False
         return True
 
     def isAntichain(self, events: Optional[Iterable[CausetEvent]] = None) -> \
@@ -477,15 +464,10 @@ class Causet(object):
         '''
         Tests if this instance of `CausetEvent` is a causal anti-chain.
         '''
-        if events is None:
-            for e in self._events:
-                if e.ConeCard != 1:
-                    return False
-        else:
-            events = set(events)
-            for e in events:
-                if len(e.Cone & events) != 1:
-                    return False
+        events = self._events if events is None else set(events)
+        for e in events:
+            if len(e.Cone & events) != 1:
+                return False
         return True
 
     @property
-- 
2.43.0


From 981307eb123dd9853c34d4f281cac81d85963a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 30/53] fix: antipaths along distances that are not all unit
 steps

With distances counted by intersections the greedy search stepped back and
forth between nearest neighbours (RecursionError) or ran through the target.
---
 causet.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/causet.py b/causet.py
index 1438c71..ec618f6 100644
--- a/causet.py
+++ b/causet.py
@@ -1072,11 +1072,18 @@ class Causet(object):
             if D[e_idx, b_idx] == 1:
                 yield [antichainList[e_idx], b]
             else:
-                a_neighbours_sel: np.ndarray = \
-                    D[e_idx, :] == np.min(D[e_idx, D[e_idx, :] > 0])
+                # only step to events that are closer to b (or b itself):
+                closer_sel: np.ndarray = \
+                    (D[e_idx, :] > 0) & (D[b_idx, :] >= 0) & \
+                    (D[b_idx, :] < D[e_idx, b_idx])
+                a_neighbours_sel: np.ndarray = closer_sel & \
+                    (D[e_idx, :] == np.min(D[e_idx, closer_sel]))
                 b_closer_sel: np.ndarray = \
                     D[b_idx, :] == np.min(D[b_idx, a_neighbours_sel])
                 for e2_idx in np.where(a_neighbours_sel & b_closer_sel)[0]:
+                    if e2_idx == b_idx:
+                        yield [antichainList[e_idx], b]
+                        continue
                     for ap in Antipaths_find(e2_idx):
                         yield [antichainList[e_idx]] + ap
 
-- 
2.43.0


From b7419b523108cc404a9aeafc109933b0e4aeeb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 31/53] fix: sprinkle into one-dimensional bicones and
 cylinders

---
 sprinkledcauset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 5af5ec0..8763826 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -114,7 +114,10 @@ class SprinkledCauset(EmbeddedCauset):
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
                     r: float = np.sqrt(sum(np.square(coord)))
                     r_scaling: float
-                    r_scaling = rng.uniform(low=r_low)**(1.0 / b_d)
+                    if b_d > 0:
+                        r_scaling = rng.uniform(low=r_low)**(1.0 / b_d)
+                    else:  # there is only the time coordinate
+                        r, r_scaling = 1.0, 1.0
                     if isDiamond:
                         # set time coordinate:
                         h_squeeze: float = rng.uniform()**(1.0 / d)
-- 
2.43.0


From d78207ee19d7bb3c7d94a059f2cb66f1866b15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 32/53] fix: harmonic numbers of numpy integers

---
 calculations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/calculations.py b/calculations.py
index 6be0abf..ba7667e 100644
--- a/calculations.py
+++ b/calculations.py
@@ -21,10 +21,11 @@ def HarmonicNumber(n: int, approximate: int = 100) -> float:
     if n < approximate:
         return sum(1. / k for k in range(n, 0, -1))
     else:
-        h: float = log(n) + np.euler_gamma
-        h += 0.5 / n
-        h -= 0.25 / 3 / n**2
-        h += 0.025 / 3 / n**4
+        x: float = float(n)  # powers of integers (numpy) might overflow
+        h: float = log(x) + np.euler_gamma
+        h += 0.5 / x
+        h -= 0.25 / 3 / x**2
+        h += 0.025 / 3 / x**4
         return h
 
 
-- 
2.43.0


From b38d02fa484e21d8807aad6139dcb38023f72ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 33/53] fix: link markers at events only for link gaps

---
 causetplotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index 2a54556..e0e4d1a 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -561,6 +561,8 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             # static plots only
             if plotting_links:
                 eps: float = 0.0000001
+                gapEvents: List[CausetEvent] = \
+                    events if plotting['linkgaps'] else []
                 for i, a in enumerate(events):
                     c_a = np.array(getattr(a, coordattr))
                     for j in range(i + 1, eventCount):
@@ -577,7 +579,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
                         if is3d:
                             Z: List[float] = [c_a[_z]]
                             if 'linkgaps' in plotting:
-                                for e in events:
+                                for e in gapEvents:
                                     if e is a or e is events[j]:
                                         continue
                                     c_e = np.array(getattr(e, coordattr))
@@ -616,7 +618,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
                             _hlnk[l] = ax.plot(X, Y, Z, **plotting_links)
                         else:
                             if 'linkgaps' in plotting:
-                                for e in events:
+                                for e in gapEvents:
                                     if e is a or e is events[j]:
                                         continue
                                     c_e = np.array(getattr(e, coordattr))
-- 
2.43.0


From 63361bc0001cfbe35bf00307d8f796395993133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 34/53] fix: plot with a list of a single time

---
 causetplotting.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index e0e4d1a..0a34d18 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -702,10 +702,8 @@ def plot(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     '''
     time: np.ndarray = np.zeros(2)
     if 'time' in kwargs:
-        if np.shape(kwargs['time']) == (2,):
-            time = kwargs['time']
-        else:
-            time = np.array([kwargs['time'], kwargs['time']])
+        time = np.atleast_1d(kwargs['time'])
+        time = np.array([time[0], time[-1]])
     return Plotter(E, plotAxes, spacetime, **kwargs)(time)
 
 
-- 
2.43.0


From 793763e1ee5d32e31aa203b048a6a5732badb768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 35/53] fix: exponential fading has the half-time timedepth

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index 0a34d18..3093860 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -312,7 +312,7 @@ def dynamic_parameter(function: str, dim: int, timedepth: float,
     elif function == 'exponential':
         def exponential(value: float) -> float:
             return np.heaviside(_timefade_sgn * value, 1.0) * \
-                _alpha_max * np.exp(_timefade * value)
+                _alpha_max * np.exp2(_timefade * value)
         return exponential
     elif function == 'intensity':
         def intensity(value: float) -> float:
-- 
2.43.0


From 6b1bc411c2990bd5bcf91126152834562c0c97b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 36/53] fix: intensity fading towards the past

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index 3093860..b62834f 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -317,7 +317,7 @@ def dynamic_parameter(function: str, dim: int, timedepth: float,
     elif function == 'intensity':
         def intensity(value: float) -> float:
             return np.heaviside(_timefade_sgn * value, 1.0) * \
-                _alpha_max / np.power(np.maximum(value, 0.0) + 1.0, _dimpower)
+                _alpha_max / np.power(np.abs(value) + 1.0, _dimpower)
         return intensity
     else:
         return NotImplemented
-- 
2.43.0


From d2f5bc6a4763cf49536c42f53108fcaca6e2b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 37/53] fix: drawn cylinders and cones with the axis along x or
 y are centred

---
 shapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shapes.py b/shapes.py
index 4eef303..2089d6e 100644
--- a/shapes.py
+++ b/shapes.py
@@ -544,6 +544,8 @@ def CylinderSurface(center: np.ndarray, radius: float, height: float,
     if samplingsize <= 0:
         samplingsize = default_samplingsize
     samplingsize = samplingsize + 1
+    if 0 <= zaxis < 2:  # rotate the center so that zaxis is last
+        center = np.roll(center, 2 - zaxis)
     phi: np.ndarray = np.linspace(0.0, 2.0 * np.pi, samplingsize)
     radii: np.ndarray
     relZ: np.ndarray
@@ -577,6 +579,8 @@ def OpenConeSurface(tip: np.ndarray, radius: float, height: float,
     if samplingsize <= 0:
         samplingsize = default_samplingsize
     samplingsize = samplingsize + 1
+    if 0 <= zaxis < 2:  # rotate the tip so that zaxis is last
+        tip = np.roll(tip, 2 - zaxis)
     phi: np.ndarray = np.linspace(0.0, 2.0 * np.pi, samplingsize)
     radii: np.ndarray = radius * np.array([0.0, 1.0])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-- 
2.43.0


From ae7e89a6c2288f5f10c7fc3cf3b3b5bdbb1e43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 38/53] fix: parts of drawn cones are closed separately

---
 spacetimes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index fe73a04..e715ae1 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -233,7 +233,9 @@ class Spacetime(object):
                 # rotate:
                 if timeaxis == 0:
                     XY = np.fliplr(XY)
-                p: Patch = patches.Polygon(XY, **plotting_params)
+                # several parts are closed already:
+                p: Patch = patches.Polygon(
+                    XY, closed=not np.any(np.isnan(XY)), **plotting_params)
                 _axes.add_patch(p)
                 return p
 
@@ -456,7 +458,9 @@ class FlatSpacetime(Spacetime):
                     XY = XYpart if i == 0 \
                         else np.concatenate(
                             (XY, np.array([[np.nan, np.nan]]), XYpart))
-                p: Patch = patches.Polygon(XY, **plotting_params)
+                # every part is closed already:
+                p: Patch = patches.Polygon(XY, closed=False,
+                                           **plotting_params)
                 _axes.add_patch(p)
                 return p
 
@@ -857,7 +861,8 @@ class BlackHoleSpacetime(Spacetime):
                     XT_inner[:samplingsize, 0] = np.copysign(X, origin[xdim])
                     XT_inner[:samplingsize, 1] = f_in(X)
                     XT_inner[-1, :] = [0.0, t]
-                    XT = np.concatenate((XT, [[np.nan, np.nan]], XT_inner))
+                    XT = np.concatenate((XT, [[np.nan, np.nan]],
+                                         XT_inner, XT_inner[:1, :]))
         else:  # Eddington-Finkelstein metric
             r_in = origin[0] - t + r_0
             n = 2 if r_in < 0.0 else 1
-- 
2.43.0


From fa0fe551725ef1b1c836d90660b59c38970f0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 39/53] fix: cylinder plots with time along x are centred,
 hollow shapes without a line between the edges

---
 shapes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/shapes.py b/shapes.py
index 2089d6e..7a23dee 100644
--- a/shapes.py
+++ b/shapes.py
@@ -345,19 +345,22 @@ class CoordinateShape(object):
                     p = patches.Polygon(
                         CircleEdge(self.Center[dims], self._params['radius'],
                                    hollow),
-                        **plotoptions)
+                        closed=False, **plotoptions)
             elif self.Name == 'cylinder':
+                cutcenter: np.ndarray = self.Center[dims]
+                if timeaxis == 0:
+                    cutcenter = cutcenter[[1, 0]]
                 cyl: np.ndarray = CylinderCutEdge(
-                    self.Center[dims], self._params['radius'],
+                    cutcenter, self._params['radius'],
                     self._params['duration'], hollow)
                 if timeaxis == 0:
                     cyl = cyl[:, [1, 0]]
-                p = patches.Polygon(cyl, **plotoptions)
+                p = patches.Polygon(cyl, closed=False, **plotoptions)
             elif self.Name == 'bicone':
                 p = patches.Polygon(
                     BiconeEdge(self.Center[dims], self._params['radius'],
                                hollow),
-                    **plotoptions)
+                    closed=False, **plotoptions)
             else:  # cuboid
                 edges: np.ndarray = self._params['edges'][dims]
                 p = patches.Rectangle(
-- 
2.43.0


From 6984f45f8423c381bb7e36bde1d1961f58382564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 40/53] fix: Newton's method keeps the documented distance from
 the limits

---
 calculations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index ba7667e..d26dba5 100644
--- a/calculations.py
+++ b/calculations.py
@@ -94,9 +94,9 @@ def NewtonsMethod(f: Callable[[Any], Any], fprime: Callable[[Any], Any],
         if yprime_n == 0.0:
             break
         x_next: float = x_n - (f(x_n) - y) / yprime_n
-        if x_next < xmin:
+        if x_next < xmin + precission:
             x_next = xmin + precission
-        elif x_next > xmax:
+        elif x_next > xmax - precission:
             x_next = xmax - precission
         if abs(x_n - x_next) < precission:
             return x_next
-- 
2.43.0


From 7e527186b7caa0f080399bd5b617929d250b7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 41/53] fix: plotting a hollow bicone in 3D does not shrink the
 shape

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index 7a23dee..bf21527 100644
--- a/shapes.py
+++ b/shapes.py
@@ -315,7 +315,7 @@ class CoordinateShape(object):
                 S = OpenConeSurface(tip, r, r, timeaxis) + \
                     OpenConeSurface(top, r, -r, timeaxis)
                 if hollow > 0.0:
-                    r *= hollow
+                    r = hollow * r  # not in place: r is the parameter
                     tip[timeaxis] = conecenter[timeaxis] - r
                     top[timeaxis] = conecenter[timeaxis] + r
                     S = OpenConeSurface(tip, r, r, timeaxis) + \
-- 
2.43.0


From 8c3331c8507670f999b5134226bd39c35b5286e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 42/53] fix: merge accepts iterables that can be iterated only
 once

---
 causet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causet.py b/causet.py
index ec618f6..52083b4 100644
--- a/causet.py
+++ b/causet.py
@@ -229,15 +229,16 @@ class Causet(object):
         If not `disjoint` (default), then the event of `pastSet` are also 
         assigned to the the past of every event in `futureSet` and vice versa.
         '''
+        pastSet, futureSet = set(pastSet), set(futureSet)
         if not disjoint:  # add pastSet as past of futureSet
             for p in pastSet:
                 for f in futureSet:
                     p._addToFuture(f)
                     f._addToPast(p)
-            for e in set(pastSet) | set(futureSet):
+            for e in pastSet | futureSet:
                 if e.hasBeenLinked():
                     e.link()
-        return Causet(set(pastSet) | set(futureSet))
+        return Causet(pastSet | futureSet)
 
     def add(self, eventSet: Iterable, unlink: bool = False) -> None:
         '''
-- 
2.43.0


From 216e8906b0b107b98e7ba300cf52235ce57429c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 43/53] fix: discarding all events of a causet from itself

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 52083b4..5959a6e 100644
--- a/causet.py
+++ b/causet.py
@@ -257,7 +257,7 @@ class Causet(object):
         Discards all the events of the (causal) set `eventSet` (`Causet` or 
         `Set[CausetEvent]`) from this instance. 
         '''
-        self._events.difference_update(eventSet)
+        self._events.difference_update(set(eventSet))
         if unlink:
             for e in self._events:
                 e.unlink()
-- 
2.43.0


From 211164c6ea2cc37e80fb2200de37ff138f56f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 44/53] fix: Antipaths along an iterable that can be iterated
 only once

---
 causet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causet.py b/causet.py
index 5959a6e..a8f166b 100644
--- a/causet.py
+++ b/causet.py
@@ -1057,11 +1057,12 @@ class Causet(object):
         As optional argument, the distances matrix can be specified if it has 
         already been computed.
         '''
-        if a is b and a in along:
+        antichainList: List[CausetEvent] = list(along)
+        if a is b and a in antichainList:
             yield [a]
-        if not (a.isSpacelikeTo(b) and a in along and b in along):
+        if not (a.isSpacelikeTo(b) and a in antichainList and
+                b in antichainList):
             return
-        antichainList: List[CausetEvent] = list(along)
         a_idx: int = antichainList.index(a)
         b_idx: int = antichainList.index(b)
         D: np.ndarray = distances if distances is not None \
-- 
2.43.0


From 4c5809b44e759b4d337f55ab3bc615218c9004ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 45/53] fix: copy of an event keeps a label that is neither str
 nor int

---
 causetevent.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index bb3f071..3951194 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -438,12 +438,7 @@ class CausetEvent(object):
         '''
         Returns a shallow copy of the event without embedding.
         '''
-        if self.Label is None:
-            e = CausetEvent()
-        elif isinstance(self.Label, int):
-            e = CausetEvent(label=self.Label)
-        else:
-            e = CausetEvent(label=f'{self.Label}')
+        e = CausetEvent(label=self.Label)
         e._prec = self._prec.copy()
         e._succ = self._succ.copy()
         if self.hasBeenLinked():
-- 
2.43.0


From 5de3c17dc714821de33e6d27a206ec69195e721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 46/53] fix: reject a sprinkling shape of another dimension,
 keep the intensity then

---
 sprinkledcauset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 8763826..d93875f 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -69,6 +69,8 @@ class SprinkledCauset(EmbeddedCauset):
         if count < 0:
             raise ValueError(
                 'The sprinkle cardinality has to be a non-negative integer.')
+        if shape.Dim != self.Dim:
+            self.__raiseDimValueError__('shape')
         coords: np.ndarray = np.empty((count, self.Dim), dtype=np.float32)
         if shape.Name in ('cube', 'cuboid'):
             # Create rectangle based sprinkle:
@@ -150,10 +152,10 @@ class SprinkledCauset(EmbeddedCauset):
         if count < 0:
             raise ValueError(
                 'The sprinkle cardinality has to be a non-negative integer.')
-        self._intensity += float(count)
         if shape is None:
             shape = self.Shape
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
+        self._intensity += float(count)
         return super().create(coords)
 
     def intensify(self, intensity: float, rng=default_rng(),
@@ -166,11 +168,11 @@ class SprinkledCauset(EmbeddedCauset):
         if intensity < 0.0:
             raise ValueError(
                 'The intensity parameter has to be a non-negative float.')
-        self._intensity += intensity
         count: int = int(rng.poisson(lam=intensity))
         if shape is None:
             shape = self.Shape
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
+        self._intensity += intensity
         return super().create(coords)
 
     def create(self, coords: Union[Iterable[List[float]],
-- 
2.43.0


From 9f76dd1157ac1a115ba658bd31deb0cef40712a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 47/53] fix: reject new coordinates of another dimension before
 adding events

---
 embeddedcauset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 250dd0a..648f58e 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -208,6 +208,8 @@ class EmbeddedCauset(Causet):
             CausetEvent(label=(n + i) if labelFormat is None else
                         labelFormat.format(n + i), coordinates=c)
             for i, c in enumerate(coordinates)}
+        if any(e.CoordinatesDim != self.Dim for e in eventSet):
+            self.__raiseDimValueError__('coordinates')
         self._events.update(eventSet)
         if relate:
             self.relate()
-- 
2.43.0


From 2a59ad984df2bd764bf1065ad460a3150e6421e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:27 +0000
Subject: [PATCH 48/53] fix: relate events on the horizon in
 Eddington-Finkelstein coordinates

The light ray function is infinite on the horizon, so that two events on it
(and an event with itself) were compared with nan and never related.
---
 spacetimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index e715ae1..82fcd05 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -787,7 +787,7 @@ class BlackHoleSpacetime(Spacetime):
                 t_out: float = _func(r_y) - _func(r_x)
                 t_in: float = -t_out if isSchwarzschildMetric \
                     else r_x - r_y
-                if r_y <= r_x <= self._r_S:  # x is inside, y < x
+                if r_y <= r_x < self._r_S:  # x is inside, y < x
                     isCausal = t_out >= t_delta >= t_in
                 elif self._r_S <= r_x >= r_y:  # x is outside, y < x
                     isCausal = t_delta >= t_in
-- 
2.43.0


From f6e2cdbbcb44001f99872a99515b318623574e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:27 +0000
Subject: [PATCH 49/53] fix: each call of a plot function returns its own
 dictionary of handles

The dictionary was shared by all calls, so that the handles returned by an
earlier call were replaced by those of the latest one.
---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index b62834f..f32cb33 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -353,7 +353,6 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     if isinstance(E, EmbeddedCauset) and kwargs.get('axislim') == 'shape':
         kwargs.setdefault('shape', E.Shape)
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
-    _h = {}  # holds Dict of artists
     # ====================
     # get set of events:
     events: List[CausetEvent]
@@ -451,6 +450,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         Core plot function that returns a dictionary of plot object 
         pointers.
         '''
+        _h: Dict[str, Any] = {}  # holds Dict of artists
         if isinstance(time, float):
             time = [time, time]  # list of floats required
         # ====================
-- 
2.43.0


From 0c2138b287dddc0b72845f8a6c10655dcc111ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 50/53] fix: accept any single number as time in plot functions

An int or a number of numpy other than float64 is a valid float argument, but
raised a TypeError (not subscriptable).
---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index f32cb33..2cee3b6 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -451,7 +451,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         pointers.
         '''
         _h: Dict[str, Any] = {}  # holds Dict of artists
-        if isinstance(time, float):
+        if np.ndim(time) == 0:
             time = [time, time]  # list of floats required
         # ====================
         # plot cones:
-- 
2.43.0


From 7889f21ef7d9597f38c192ef8104d32dbc52130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:44 +0000
Subject: [PATCH 51/53] fix: events labelled zero print their label

str() and repr() treated the label 0 as no label.
---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 3951194..a6952ae 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -151,7 +151,7 @@ class CausetEvent(object):
         self._succ = set()
 
     def __str__(self):
-        if self.Label:
+        if self.Label not in (None, ''):
             return f'#{self.Label}' if isinstance(self.Label, int) else \
                 f'#\'{self.Label}\''
         else:
@@ -160,7 +160,7 @@ class CausetEvent(object):
     def __repr__(self):
         P: str = ', '.join([str(e) for e in self.LinkPast])
         l: str = None
-        if self.Label:
+        if self.Label not in (None, ''):
             l = str(self.Label) if isinstance(self.Label, int) else \
                 f'\'{self.Label}\''
         try:
-- 
2.43.0


From dab97a6ee2d576d9cf6a6b720c1019b7a42d6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:07 +0000
Subject: [PATCH 52/53] fix: relate() also removes the relations of events that
 are no members any more at their end

---
 embeddedcauset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 648f58e..6cd650f 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -222,9 +222,9 @@ class EmbeddedCauset(Causet):
         '''
         _iscausal: Callable[[np.ndarray, np.ndarray],
                             Tuple[bool, bool]] = self._spacetime.Causality()
+        self.unlink()
         for e in self._events:
-            e._prec = set()
-            e._succ = set()
+            e.disjoin()  # also from events that are no members any more
         eventList: List[CausetEvent] = list(self._events)
         eventList_len: int = len(eventList)
         for i, a in enumerate(eventList):
-- 
2.43.0


From 31098e78340c366d1bc424da5f1e151de4689f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:58 +0000
Subject: [PATCH 53/53] fix: regions far away from the origin lost their extent
 (and sprinkled events left them) in single precision

---
 shapes.py          | 14 +++++++-------
 sprinkledcauset.py |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/shapes.py b/shapes.py
index bf21527..bc6e101 100644
--- a/shapes.py
+++ b/shapes.py
@@ -80,11 +80,11 @@ class CoordinateShape(object):
         self._name = name
         # set centre point:
         try:
-            self._center = np.array(kwargs['center'], dtype=np.float32)
+            self._center = np.array(kwargs['center'], dtype=np.float64)
             if self._center.shape != (dim,):
                 raise TypeError
         except KeyError:
-            self._center = np.zeros(dim, dtype=np.float32)
+            self._center = np.zeros(dim, dtype=np.float64)
         except TypeError:
             raise ValueError('The value for the key ''center'' has to be ' +
                              f'an Iterable of {dim} float values.')
@@ -111,23 +111,23 @@ class CoordinateShape(object):
         self._params = {}
         if name in {'ball', 'bicone', 'cylinder'}:
             self._params['radius'] = np.array(kwargs.get('radius', 1.0),
-                                              dtype=np.float32)
+                                              dtype=np.float64)
             param_rangecheck('radius')
             self._params['hollow'] = np.array(kwargs.get('hollow', 0.0),
-                                              dtype=np.float32)
+                                              dtype=np.float64)
             param_rangecheck('hollow', 1.0, True)
             if name == 'cylinder':
                 self._params['duration'] = np.array(
                     kwargs.get('duration', 2.0 * self._params['radius']),
-                    dtype=np.float32)
+                    dtype=np.float64)
                 param_rangecheck('duration')
         elif name == 'cube':
             self._params['edge'] = np.array(kwargs.get('edge', 1.0),
-                                            dtype=np.float32)
+                                            dtype=np.float64)
             param_rangecheck('edge')
         elif name == 'cuboid':
             self._params['edges'] = np.array(
-                kwargs.get('edges', np.ones((dim,))), dtype=np.float32)
+                kwargs.get('edges', np.ones((dim,))), dtype=np.float64)
             if self._params['edges'].shape != (dim,):
                 raise ValueError('The value for the key "edges" has ' +
                                  f'to be an Iterable of {dim} float values.')
diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index d93875f..46d4a5c 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -71,7 +71,7 @@ class SprinkledCauset(EmbeddedCauset):
                 'The sprinkle cardinality has to be a non-negative integer.')
         if shape.Dim != self.Dim:
             self.__raiseDimValueError__('shape')
-        coords: np.ndarray = np.empty((count, self.Dim), dtype=np.float32)
+        coords: np.ndarray = np.empty((count, self.Dim), dtype=np.float64)
         if shape.Name in ('cube', 'cuboid'):
             # Create rectangle based sprinkle:
             low: np.ndarray
-- 
2.43.0

