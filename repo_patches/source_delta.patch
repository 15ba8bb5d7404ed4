From 6b5b285221e28e8dae2986b22f8da4df61490215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 01/67] fix: mark web store dirty after appendOnIoSetVals and
 remOnAllIoSet

Without the mark flush() skips the store, so entries appended or removed by
these two operations were lost (or came back) after a reload.
---
 src/keri/db/webdbing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index d9f55ba..7a55d9e 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1591,6 +1591,7 @@ class WebDBer:
                     f"Failed appending {val=} at {key=} {on=} offset {ion=}."
                 )
             items[iokey] = val
+            db.dirty = True
 
         return on
 
@@ -1782,6 +1783,9 @@ class WebDBer:
             del items[iokey]
             result = True
 
+        if result:
+            db.dirty = True
+
         return result
 
 
-- 
2.43.0


From 831d8b3e1e43c404da61af7a9115f39a455483e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 02/67] fix: keep web store dirty when written during a pending
 flush

flush() cleared the dirty mark after awaiting sync(), so a write made while the
sync was pending was never persisted by a later flush.
---
 src/keri/db/webdbing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 7a55d9e..8f2d6db 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -320,10 +320,16 @@ class WebDBer:
         for subdb in self._stores.values():
             if not subdb.dirty:
                 continue
-            subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
-            subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
-            await subdb.handle.sync()
+            # Clear before awaiting so that a write made while sync is pending
+            # marks the store dirty again instead of being lost.
             subdb.dirty = False
+            try:
+                subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
+                subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
+                await subdb.handle.sync()
+            except BaseException:
+                subdb.dirty = True
+                raise
             count += 1
         return count
 
-- 
2.43.0


From 63748459f1d936e61149c25e8cef064aa3e402c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 03/67] fix: forward the caller's separator (and ordinal) to
 nested store operations

Several LMDBer, Suber and Komer operations called a helper without the separator
they were given, so with a store whose separator is not '.' they split or bounded
keys wrongly. putOnIoDupVals also looked up existing duplicates at ordinal 0.
---
 src/keri/db/dbing.py  | 12 ++++++------
 src/keri/db/koming.py |  3 ++-
 src/keri/db/subing.py | 18 ++++++++++++------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 760c527..b97c1fc 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1269,7 +1269,7 @@ class LMDBer(filing.Filer):
             last = ()
             if not key:
                 return last
-            iokey = suffix(key, 0) # walk hidden branches starting from zero
+            iokey = suffix(key, 0, sep=sep) # walk hidden branches starting from zero
             cursor = txn.cursor()  # create cursor to walk back
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -1454,7 +1454,7 @@ class LMDBer(filing.Filer):
                 key, ion= unsuffix(iokey, sep=sep)
             else:
                 ion = 0
-                iokey = suffix(key, ion) # walk hidden branches starting from zero
+                iokey = suffix(key, ion, sep=sep) # walk hidden branches starting from zero
             last = None
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -2016,8 +2016,8 @@ class LMDBer(filing.Filer):
                     return  # raises StopIterationError
                 iokey = cursor.key()
             else:
-                onkey = onKey(key, on)
-                iokey = suffix(onkey, 0) # walk hidden branches starting from zero
+                onkey = onKey(key, on, sep=sep)
+                iokey = suffix(onkey, 0, sep=sep) # walk hidden branches starting from zero
 
             last = None
 
@@ -2782,7 +2782,7 @@ class LMDBer(filing.Filer):
             sep (bytes): separator character for split"""
 
         result = False
-        dups = set(self.getOnIoDupVals(db, key))  #get preexisting dups if any
+        dups = set(self.getOnIoDupVals(db, key, on, sep=sep))  #get preexisting dups if any
         with self.env.begin(db=db, write=True, buffers=True) as txn:
             idx = 0
             cursor = txn.cursor()
@@ -3055,7 +3055,7 @@ class LMDBer(filing.Filer):
                     break
 
                 yield (ckey, on, cval[33:])  # slice off prepended ordering proem
-                onkey = onKey(ckey, on+1)
+                onkey = onKey(ckey, on+1, sep=sep)
                 if not cursor.set_range(onkey):  # # moves to first_dup at key>=onkey
                     return  # no values end of db raises StopIteration
 
diff --git a/src/keri/db/koming.py b/src/keri/db/koming.py
index 1ef4ce4..9abfeab 100644
--- a/src/keri/db/koming.py
+++ b/src/keri/db/koming.py
@@ -529,7 +529,8 @@ class IoSetKomer(KomerBase):
         Returns:
             val (Type[dataclass]):  instance of type self.schema
                 None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                            sep=self.sep.encode()):
             key, val = last
             return self._des(val)
         return None
diff --git a/src/keri/db/subing.py b/src/keri/db/subing.py
index e1384fd..5fd7c20 100644
--- a/src/keri/db/subing.py
+++ b/src/keri/db/subing.py
@@ -1388,7 +1388,8 @@ class IoSetSuber(SuberBase):
         Returns:
             last ((str, str)|None): (key, val) tuple or empty tuple if no entry
             at keys or keys is empty"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                            sep=self.sep.encode()):
             key, val = last
             return (self._tokeys(key), self._des(val))
         return last
@@ -1407,7 +1408,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             val (str):  value str, None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                            sep=self.sep.encode()):
             key, val = last
             return self._des(val)
         return None
@@ -1515,7 +1517,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             vals (Iterator[str]):  value str"""
-        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys)):
+        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys),
+                                               sep=self.sep.encode()):
             yield self._des(val)
 
 
@@ -1536,7 +1539,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             items (Iterator[(str, str)]):  (key, val) tuples"""
-        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys)):
+        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys),
+                                                        sep=self.sep.encode()):
             yield (self._tokeys(key), self._des(val))
 
 
@@ -2731,7 +2735,8 @@ class OnIoDupSuber(OnSuberBase, IoDupSuber):
             last (str):  value str, None if no entry at effective key made from
                 keys and on"""
 
-        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on)
+        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on,
+                                      sep=self.sep.encode())
         return (self._des(val) if val is not None else val)
 
 
@@ -3312,7 +3317,8 @@ class OnIoSetSuber(OnSuberBase, IoSetSuber):
             on (int): ordinal number used with onKey(pre,on) to form key.
             ion (int): starting insertion ordinal offset into set, default 0."""
         if not keys:
-            return self.db.cntOnAllIoSet(db=self.sdb)
+            return self.db.cntOnAllIoSet(db=self.sdb,
+                                         sep=self.sep.encode())
 
         return (self.db.cntOnIoSet(db=self.sdb,
                                    key=self._tokey(keys),
-- 
2.43.0


From c4d2d443d3ec7b303e5b9683520ef361e42dc6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 04/67] fix: count each key at most once toward a signature
 threshold

---
 src/keri/core/coring.py   | 3 ++-
 src/keri/core/eventing.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 006fbd7..76753d0 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4661,7 +4661,8 @@ class Tholder:
         Parameters:
             indices: list of indices (offsets into key list) of verified signatures"""
         try:
-            if self.thold > 0 and len(indices) >= self.thold:  # at least one
+            # remove duplicates so each index counts at most once
+            if self.thold > 0 and len(set(indices)) >= self.thold:  # at least one
                 return True
 
         except Exception as ex:
diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b500346..7eb7ccd 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -353,7 +353,8 @@ def verifySigs(raw, sigers, verfers):
     vsigers = []
     for siger in uvsigers:
         if siger.verfer.verify(siger.raw, raw):
-            vindices.append(siger.index)
+            if siger.index not in vindices:  # each key counts at most once
+                vindices.append(siger.index)
             vsigers.append(siger)
 
     return (vsigers, vindices)
-- 
2.43.0


From 6bb02302f97892c035e150e6abc35b0f56775971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 05/67] fix: apply a recovery rotation's witness cuts and adds

deriveBacks() returned the current witnesses for any rotation whose sequence
number does not exceed the latest event's, so a rotation recovering over
interaction events had its cuts and adds dropped. Only rotations not later
than the last establishment event leave the witnesses as they are.
---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 7eb7ccd..c521058 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2699,7 +2699,7 @@ class Kever:
 
         Parameters:
             serder (SerderKeri): instance of current event"""
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.sn >= serder.sn:  # no changes
+        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.lastEst.s >= serder.sn:  # no changes
             return self.wits, self.cuts, self.adds
 
         witset = oset(self.wits)
-- 
2.43.0


From e9f2cf12d2cba705db886b703c0989b5f3201fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 06/67] fix: compare delegating event types when a delegated
 rotation supersedes another

SerderKERI has no attribute Ilk, so any superseding delegated rotation whose
delegating event was not later raised AttributeError. The documented rule (B3)
covers a rotation of the delegator of either kind.
---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c521058..8deecf1 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3426,8 +3426,8 @@ class Kever:
             # Only get to here if same sn for delegated event and both
             # existing and superseding delegated events are rotations
             if (bossn.sn > bosso.sn or  # superseding delgation is later or
-                (bossn.Ilk == Ilks.drt and  # superseding  delegation is rotation and
-                 bosso.Ilk == Ilks.ixn) ): # superseded delegation is interaction
+                (bossn.ilk in (Ilks.rot, Ilks.drt) and  # superseding  delegation is rotation and
+                 bosso.ilk == Ilks.ixn) ): # superseded delegation is interaction
                     # valid superseding delegation up chain so tail link valid
                     return (delsner, delsger)  # tail event's delegation source
 
-- 
2.43.0


From 21d34d86b2149b1c1c5ca1d865f2c13598e4cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 07/67] fix: log interaction events with their own source and
 replay attachments

Kever.update() logged interactions without local, firner and dater, so a
remote interaction was recorded as locally sourced and a replayed one lost
its first seen ordinal check and datetime.
---
 src/keri/core/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 8deecf1..68803c8 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2571,7 +2571,8 @@ class Kever:
             # .validateSigsDelWigs above ensures thresholds met otherwise raises exception
             # all validated above so may add to KEL and FEL logs as first seen
             fn, dts = self.logEvent(serder=serder, sigers=sigers, wigers=wigers,
-                                    first=True if not check else False)  # First seen accepted
+                                    first=True if not check else False,  # First seen accepted
+                                    firner=firner, dater=dater, local=local)
 
             # validates so update state
             self.sner = sner  # sequence number Number instance
-- 
2.43.0


From 9dd293cbeb99e047de4067e72006cfe5f480439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 08/67] fix: hold likely duplicitous events in the existing
 escrow store

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 68803c8..1cbd97b 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5813,7 +5813,7 @@ class Kevery:
         self.db.dtss.put(keys=dgkey, val=Dater())
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        self.db.addLde(snKey(serder.preb, serder.sn), serder.saidb)
+        self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
         # log duplicitous
         logger.debug("Kevery process: escrowed likely duplicitous event=\n%s\n", serder.pretty())
 
-- 
2.43.0


From 15bfa9922bea0e4ca1a832089aecf36b1e1ea262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 09/67] fix: keep the source of repeated and duplicitous events

---
 src/keri/core/eventing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 1cbd97b..9db32c7 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4348,10 +4348,11 @@ class Kevery:
                         # signatures to be added to the databse
                         # Not first seen version of event so ignore return
                         # idempotent update db logs
-                        kever.logEvent(serder, sigers=sigers, wigers=wigers)
+                        kever.logEvent(serder, sigers=sigers, wigers=wigers,
+                                       local=local)
 
                 else:  # escrow likely duplicitous event
-                    self.escrowLDEvent(serder=serder, sigers=sigers)
+                    self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                     msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                     logger.debug(msg)
                     logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
@@ -4433,10 +4434,11 @@ class Kevery:
                             # signatures to be added to the databse
                             # Not first seen version of event so ignore return
                             # idempotent update db logs
-                            kever.logEvent(serder, sigers=sigers, wigers=wigers)  # idempotent update db logs
+                            kever.logEvent(serder, sigers=sigers, wigers=wigers,
+                                           local=local)  # idempotent update db logs
 
                     else:  # escrow likely duplicitous event
-                        self.escrowLDEvent(serder=serder, sigers=sigers)
+                        self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                         msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                         logger.debug(msg)
                         logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
-- 
2.43.0


From dcdd875f74846c2c2ab674a092f14a10b00385a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 10/67] fix: judge a receipt against the last accepted event at
 its sn

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 9db32c7..abbafd7 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4488,8 +4488,8 @@ class Kevery:
 
         if ldig is not None:  # verify digs match
             # retrieve event by dig assumes if ldig is not None that event exists at ldig
-            dgkey = dgKey(serder.preb, serder.saidb)
-            lserder = self.db.evts.get(keys=(serder.preb, serder.saidb))  # retrieve receipted event at dig
+            dgkey = dgKey(serder.preb, ldig.encode("utf-8"))
+            lserder = self.db.evts.get(keys=(pre, ldig))  # retrieve receipted event at dig
             # assumes db ensures that lserder must not be none
             if not lserder.compare(said=ked["d"]):  # stale receipt at sn discard
                 raise ValidationError("Stale receipt at sn = {} for rct = {}."
-- 
2.43.0


From aea5c8c023db3b24963c887fee2cfb947c3893a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 11/67] fix: index witness receipts attached to an event as
 witness signatures

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index abbafd7..2b6000a 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4898,7 +4898,7 @@ class Kevery:
                     continue  # skip own receipt attachment on non-local event
 
             if cigar.verfer.verify(cigar.raw, serder.raw):
-                wits = self.fetchWitnessState(pre, sn)
+                wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                 rpre = cigar.verfer.qb64  # prefix of receiptor
                 if rpre in wits:  # its a witness receipt
                     index = wits.index(rpre)
-- 
2.43.0


From 2d7211a2022bc1d54378a7db181c8cacb3428c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 12/67] fix: escrow receipt signature groups of a not yet known
 event

---
 src/keri/core/eventing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 2b6000a..c1495f7 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4675,6 +4675,9 @@ class Kevery:
             if tsgs:
                 self.escrowTRGroups(serder, tsgs)
 
+            if rsgs:
+                self.escrowTRGroups(serder, rsgs)
+
             if wigers:
                 self.escrowUWReceipt(serder=serder, wigers=wigers, said=ked["d"])
 
-- 
2.43.0


From 0e58ec4f6f3fdefbdf8b5147153db1320d37c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 13/67] fix: index unescrowed witness receipts by the receipted
 event's witnesses

---
 src/keri/core/eventing.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c1495f7..304819d 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6857,10 +6857,8 @@ class Kevery:
                         logger.trace("Kevery unescrow error: %s", msg)
                         raise UnverifiedReceiptError(msg)
 
-                    # get current wits from kever state assuming not stale
-                    # receipt. Need function here to compute wits for actual
-                    # state at pre, sn. XXXX
-                    wits = self.kevers[serder.pre].wits
+                    # get wits of receipted event's own state at pre, sn
+                    wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                     rpre = cigar.verfer.qb64  # prefix of receiptor
                     if rpre in wits:  # its a witness receipt
                         # this only works for extra receipts that come in later
-- 
2.43.0


From 06e037df21f7e95a566c7ef758a956806c88eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 14/67] fix: process and hold queries signed by a
 nontransferable requester

---
 src/keri/core/eventing.py | 20 +++++++++-----------
 src/keri/core/parsing.py  |  1 +
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 304819d..1451803 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5566,9 +5566,8 @@ class Kevery:
         # src, dt, route
 
         if source is None and cigars:
-            dest = cigars[0].verfer.qb64
-        else:
-            dest = source.qb64
+            source = Prefixer(qb64=cigars[0].verfer.qb64)
+        dest = source.qb64
 
         if route == "logs":
             pre = qry["i"]
@@ -7053,14 +7052,6 @@ class Kevery:
 
                     #  get sigs and attach
                     sigers = self.db.sigs.get(keys=(pre, edig))
-                    if not sigers:  # otherwise its a list of sigs
-                        # no sigs so raise ValidationError which unescrows below
-                        msg = f"QNF Missing escrowed evt sigs at dig = {edig}"
-                        logger.trace("Kevery unescrow error: %s", msg)
-                        raise ValidationError(msg)
-
-                    # process event
-                    sigers = self.db.sigs.get(keys=(pre, edig))
 
                     # ToDo XXXX get trans endorsements
                     # getVrcs
@@ -7068,8 +7059,15 @@ class Kevery:
                     #  get nontrans endorsements
                     cigars = []
                     for prefixer, cigar in self.db.rcts.getIter(keys=(pre.encode("utf-8"), edig.encode("utf-8"))):
+                        cigar.verfer = Verfer(qb64=prefixer.qb64)
                         cigars.append(cigar)
 
+                    if not (sigers or cigars):  # otherwise lists of signatures
+                        # no sigs so raise ValidationError which unescrows below
+                        msg = f"QNF Missing escrowed evt sigs at dig = {edig}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise ValidationError(msg)
+
                     source = Prefixer(qb64b=pre)
                     self.processQuery(serder=eserder, source=source, sigers=sigers, cigars=cigars)
 
diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index a38acd2..5af3508 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1451,6 +1451,7 @@ class Parser:
                     exts["source"] = pre
                     exts["sigers"] = sigers
                 else:
+                    exts["source"] = None
                     exts['sigers'] = []  # just in case sigers provided not by lsgs
 
                 if not (exts['source'] or exts['cigars']):  # need one or the other
-- 
2.43.0


From 6fe3e4218b3fa4650ec1f062a9ae806d8a8be7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 15/67] fix: resubmit out of order events with their delegation
 seal

---
 src/keri/core/eventing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 1451803..c2d5bf4 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6138,7 +6138,14 @@ class Kevery:
 
                 #  get wigers
                 wigers = self.db.wigs.get(keys=(pre, bytes(edig)))
-                self.processEvent(serder=eserder, sigers=sigers, wigers=wigers, local=esr.local)
+
+                # seal source couple (sequence number, said diger) of delegator/issuer if any
+                sner = sger = None
+                if (couple := self.db.udes.get(keys=dgkey)):
+                    sner, sger = couple
+
+                self.processEvent(serder=eserder, sigers=sigers, wigers=wigers,
+                                  delsner=sner, delsger=sger, local=esr.local)
 
                 # If process does NOT validate event with sigs, becasue it is
                 # still out of order then process will attempt to re-escrow
-- 
2.43.0


From 2238c2069c266fcdb2b0f5e84286c9172fdc8ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 16/67] fix: adopting again a reply signed at a later
 establishment event must not remove its own artifacts

---
 src/keri/core/routing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index d2b9b27..46bcc14 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -289,7 +289,8 @@ class Revery:
 
             # All constraints satisfied so update
             self.updateReply(serder=serder, saider=saider, dater=dater, cigar=cigar)
-            self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+            if osaider and osaider.qb64 != saider.qb64:  # not readopting same reply
+                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
             accepted = True
             break  # first valid cigar sufficient ignore any duplicates in cigars
 
@@ -399,7 +400,8 @@ class Revery:
                     diger=sdiger,
                     sigers=sigers,
                 )
-                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+                if osaider and osaider.qb64 != saider.qb64:  # not readopting same reply
+                    self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
                 # remove stale signatures .tsgs for this saider
                 # this ensures that zeroth tsg is authoritative
                 for prr, snr, dgr, _ in fetchTsgs(
-- 
2.43.0


From 127e208814ee4e40e9c5e1f107950e3940c4d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 17/67] fix: removing an adopted reply's older signatures
 raised ValueError: invalid format code and a key without the reply's SAID

---
 src/keri/core/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 46bcc14..5f77982 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -411,7 +411,7 @@ class Revery:
                         snr.sn == snumber.sn and dgr.qb64 != sdiger.qb64
                     ):
                         self.db.tsgs.trim(
-                            keys=(prr.qb64, f"{snr.sn:032h}", dgr.qb64, "")
+                            keys=(saider.qb64, prr.qb64, f"{snr.sn:032x}", dgr.qb64, "")
                         )
 
                 accepted = True
-- 
2.43.0


From e7750a4679747ff7abe0c0922512f0e4967f1e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 18/67] fix: a partially signed reply adopted on arrival of
 more signatures stayed in escrow, whose timeout removed it

---
 src/keri/core/routing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 5f77982..3b7b80b 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -428,6 +428,9 @@ class Revery:
                     sigers=sigers,
                 )
 
+        if accepted:  # no longer waiting so escrow timeout must not remove it
+            self.db.rpes.rem(keys=(route,), val=saider)
+
         return accepted
 
     def updateReply(
-- 
2.43.0


From 76c2c1d183b7f40f186f6e3248a6f17435a97eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 19/67] fix: a key state notice from an untrusted source raised
 AttributeError instead of being refused as untrusted

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c2d5bf4..22b04e6 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5356,7 +5356,7 @@ class Kevery:
                     aid not in baks and \
                     aid not in wats:
                 raise UntrustedKeyStateSource("key state notice for {} from untrusted source {} "
-                                                     .format(ksr.pre, aid))
+                                                     .format(ksr.i, aid))
 
         if ksr.i in self.kevers:
             kever = self.kevers[ksr.i]
-- 
2.43.0


From 1a9f3147f2cbe5f16b99c3ac231ec9e1982c99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 20/67] fix: a seal given to fetchLastSealingEventBySeal in
 dict form never matched: convert it to the same namedtuple as the seals
 searched

---
 src/keri/db/basing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 6de2d91..aa3b4a5 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2022,6 +2022,7 @@ class Baser(LMDBer):
         """
         # create generic Seal namedtuple class using keys from provided seal dict
         Seal = namedtuple('Seal', list(seal))  # matching type
+        seal = Seal(**seal)  # convert to namedtuple
 
         for srdr in self.getEvtLastPreIter(pre=pre, sn=sn):  # only last evt at sn
             for eseal in srdr.seals or []:  # or [] for seals 'a' field missing
-- 
2.43.0


From 88bea187b50bd6a08706ee1e043aee1d6ee77b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 21/67] fix: a said field holding a primitive that is not a
 digest passed verification: only an identifier prefix may be non-digestive

---
 src/keri/core/serdering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index b74848d..7b0f9e1 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -826,6 +826,9 @@ class Serder:
 
             if saids[label] in DigDex:  # if digestive then replace with dummy
                 sad[label] = self.Dummy * len(sad[label])
+            elif label != Saids.i:  # only an identifier prefix may be non-digestive
+                raise ValidationError(f"Non-digestive said field '{label}' in sad\n"
+                                      f" = {self._sad}.")
 
         return (sad, saids)
 
-- 
2.43.0


From 82cf6bd9b5bf9da6cfbbca72af0149bf58573720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 22/67] fix: an anchored seal of unknown type was silently left
 out of a native CESR serialization, so its digest did not commit to it

---
 src/keri/core/serdering.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 7b0f9e1..b25e114 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1781,22 +1781,11 @@ class Serder:
                                         gcode = code  # new group or keep same group
                                         gframe.extend(sealer.qb64b)  # extend in new group
 
-                                except InvalidValueError:
-                                    if gframe:
-                                        counter = Counter(code=gcode,
-                                                          count=len(gframe) // 4,
-                                                          version=gvrsn)
-                                        frame.extend(counter.qb64b + gframe)
-                                        gframe = bytearray()
-                                        gcode = None
-
-                                    #unknown seal type so serialize as field map
-                                    #generic seal no count type (v, Mapping):
-                                    #for l, e in v.items():
-                                        #pass
-                                    #val = bytearray(Counter(tag=""GenericMapGroup"",
-                                                   # count=len(frame) // 4).qb64b)
-                                    #val.extend(mapframe)
+                                except InvalidValueError as ex:
+                                    # unknown seal type has no native group so
+                                    # must not be left out of serialization
+                                    raise SerializeError(f"Unsupported seal={e} in"
+                                                         f" field='{l}'.") from ex
 
                             if gframe:  # close off last group if any
                                 counter = Counter(code=gcode,
-- 
2.43.0


From b4699b488bd43ae56fe44cd09587352006344260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 23/67] fix: a native CESR message in binary domain was decoded
 from the rest of the stream instead of its own bytes

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index b25e114..1aaad67 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1194,7 +1194,7 @@ class Serder:
                     sraw = raw[:ss]  # only copy enough bytes for serder
                     if strip and isinstance(raw, bytearray):
                         del raw[:ss]
-                    sraw = encodeB64(raw)  # loads expects Base64 text domain
+                    sraw = encodeB64(sraw)  # loads expects Base64 text domain
                 elif cold == Colds.txt:
                     ctr = Counter(qb64b=raw)
                     ss = ctr.byteCount(cold=cold) + ctr.byteSize(cold=cold)
-- 
2.43.0


From e894face63e28166aff5c5f0f54283aee4ed2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 24/67] fix: said embedded in an uncompacted ACDC section was
 never verified: any value there was accepted under the same message said

---
 src/keri/core/serdering.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 1aaad67..cd6bf3b 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -2890,6 +2890,38 @@ class SerderACDC(Serder):
         if self.gvrsn != gvrsn:
             raise ValidationError(f"Inconsistent genus version={self.gvrsn} from"
                                   f" deversify of sad.")
+        # top-level said commits to most compact form of each section so said(s)
+        # embedded in an uncompacted section have to be verified on their own
+        if (self.pvrsn.major >= 2 and self.ilk in
+                (Ilks.acm, Ilks.act, Ilks.acg, Ilks.ace, None)):  # compactable
+            for l in ("s", "a", "e", "r"):
+                if not isinstance(v := self.sad.get(l), Mapping) or not v:
+                    continue
+                if l == "s":  # schema is only top-level said $id
+                    sector = Compactor(mad=copy.deepcopy(v), makify=True, strict=False,
+                                       saids={"$id": 'E',}, kind=self.kind)
+                    leaves = {"": sector}
+                else:
+                    sector = Compactor(mad=copy.deepcopy(v), makify=True, kind=self.kind)
+                    sector.compact()
+                    leaves = sector.leaves
+                for path, leafer in leaves.items():
+                    slabel = list(sector.saids)[0]
+                    given = sector.getTail(path, mad=v).get(slabel)
+                    if given and given != leafer.said:  # empty means not provided
+                        raise ValidationError(f"Invalid embedded said={given} at"
+                                              f" {path=} in section={l}.")
+
+            v = self.sad.get("A")  # aggregate's own agid and its elements' saids
+            if isinstance(v, NonStringIterable) and v:
+                ael = Aggor(ael=copy.deepcopy(v), makify=True, kind=self.kind).ael
+                for given, element in zip(v, ael):
+                    if isinstance(given, Mapping):
+                        given, element = given.get("d"), element.get("d")
+                    if given and given != element:
+                        raise ValidationError(f"Invalid embedded said={given} "
+                                              f"in section=A.")
+
         # verified successfully since no exception
 
         if (not self.ilk or self.ilk in
-- 
2.43.0


From 77a32146e62cd862e51a3e3a7d772b8ab01b616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 25/67] fix: a native CESR message with a map body could not be
 read from a stream: misspelt fullSize attribute

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index cd6bf3b..3cec3ca 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -183,7 +183,7 @@ class Serdery:
             lsize = 0  # label size in bytes
             if not fixed:  # extract label for version field
                 labeler = Labeler(qb64b=ims[ctr.fullSize:])  # offset past ctr
-                lsize = labeler.fullsize
+                lsize = labeler.fullSize
 
             verser = Verser(qb64b=ims[ctr.fullSize+lsize:])  # in text domain
             proto, pvrsn, gvrsn = verser.versage
-- 
2.43.0


From d41cefec72cad3da7858b2484b6595fc0a42f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 26/67] fix: an empty optional field of a native exn or xip
 message was serialized with nothing in its place, so it was unreadable and
 ambiguous

---
 src/keri/core/serdering.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 3cec3ca..7eb68b0 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -26,7 +26,7 @@ from ..kering import (ValidationError,  MissingFieldError, ExtraFieldError,
                       smell, sniff, versify, deversify)
 
 from ..help import isNonStringIterable, NonStringIterable
-from .coring import (DigDex, PreDex, NonTransDex, PreNonDigDex, Saids,
+from .coring import (DigDex, NonceDex, PreDex, NonTransDex, PreNonDigDex, Saids,
                      Matter, Verfer, Prefixer, Diger, Number, Tholder,
                      Ilker, Traitor, Verser, Dater, Pather, Noncer, Labeler)
 from .mapping import Mapper, Compactor, Aggor
@@ -1371,6 +1371,10 @@ class Serder:
                     case "t":  # message type (ilk), already got ilk
                         sad[l] = ilk
 
+                    case "p" | "ri" | "x" if (ilk in (Ilks.xip, Ilks.exn) and
+                                raw.startswith(NonceDex.Empty.encode())):
+                        sad[l] = Noncer(qb64b=raw, strip=True).nonce  # optional and empty
+
                     case "d" | "p" | "x":  # SAID
                         sad[l] = Diger(qb64b=raw, strip=True).qb64
 
@@ -1719,6 +1723,9 @@ class Serder:
                     case "t":  # message type (ilk), already got ilk
                         val = Ilker(ilk=v).qb64b  # assumes same
 
+                    case "p" | "ri" | "x" if not v and ilk in (Ilks.xip, Ilks.exn):
+                        val = Noncer(nonce=v).qb64b  # optional said or aid when empty
+
                     case "d" | "i" | "p" | "u" | "di" | "ri" | "x":  # said or aid
                         val = v.encode("utf-8")  # already primitive qb64 make qb6b
 
-- 
2.43.0


From e16e9b15d76dee898be15b9ab530f0acb0204b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 27/67] fix: an ACDC of type ace in version 2 listed the
 version 1 registry label ri, so its registry field rd was misplaced and ri
 unserializable

---
 src/keri/core/serdering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 7eb68b0..7f107ef 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -501,8 +501,8 @@ class Serder:
                     alts=dict(a="A", A="a"),
                     saids={Saids.d: DigDex.Blake3_256}),
                 Ilks.ace: FieldDom(alls=dict(v='', t='', d='', u='', i='',
-                        ri='', s='', a='', A='', e='', r=''),
-                    opts=dict(u='', ri='', a='', A='', e='', r=''),
+                        rd='', s='', a='', A='', e='', r=''),
+                    opts=dict(u='', rd='', a='', A='', e='', r=''),
                     alts=dict(a="A", A="a"),
                     saids={Saids.d: DigDex.Blake3_256},
                     strict=False),
-- 
2.43.0


From 6f3cfd80a5885ebe59472a020df5a21969217675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:21 +0000
Subject: [PATCH 28/67] fix: refuse revocation, via one registry, of a
 credential issued from another registry

---
 src/keri/vdr/eventing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index b3531b2..4b85279 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1108,6 +1108,13 @@ class Tever:
                                                                self.serder.said,
                                                                ked))
 
+        # credential TELs of all registries share a db so ensure issued from this one
+        if Tevery.registryKey(iserder) != self.prefixer.qb64:
+            raise ValidationError("Mismatch registry = {} expecting = {} for evt "
+                                  "= {}.".format(Tevery.registryKey(iserder),
+                                                 self.prefixer.qb64,
+                                                 ked))
+
         if ilk in (Ilks.rev,):  # simple revoke
             if self.noBackers is False:
                 raise ValidationError("invalid simple issue evt {} against backer based registry {}".
-- 
2.43.0


From 55c1a8d9cc2139d655964733bd3e4f7f0d60e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:21 +0000
Subject: [PATCH 29/67] fix: Tever.vcState must not report credentials issued
 from some other registry

---
 src/keri/vdr/eventing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 4b85279..450ac94 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1172,6 +1172,9 @@ class Tever:
         raw = self.reger.tvts.get(keys=dgkey)
         serder = SerderKERI(raw=raw.encode("utf-8"))
 
+        if Tevery.registryKey(serder) != self.prefixer.qb64:
+            return None  # issued from some other registry
+
         if self.noBackers:
             vcilk = Ilks.iss if len(digs) == 1 else Ilks.rev
             ra = dict()
-- 
2.43.0


From fbe06449954e2ce86339cdba836c9660f8511e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:21 +0000
Subject: [PATCH 30/67] fix: refuse credential whose issuer is not the
 controller of its registry

---
 src/keri/vdr/verifying.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index 7d1c7be..86d0b4d 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -127,6 +127,10 @@ class Verifier:
                 self.cues.append(dict(kin="telquery", q=dict(ri=regk, i=vcid, issr=creder.israid)))
             raise MissingRegistryError("registry identifier {} not in Tevers".format(regk))
 
+        if creder.israid != self.tevers[regk].pre:  # registry not controlled by issuer
+            raise ValidationError("issuer {} of credential {} is not controller {} of registry {}"
+                                  .format(creder.israid, vcid, self.tevers[regk].pre, regk))
+
         state = self.tevers[regk].vcState(vcid)
         if state is None:  # credential issuance event not found yet
             if self.escrowMRE(creder, prefixer, seqner, saider):
-- 
2.43.0


From 544dd4fa5d6b0e7217c4fcc9a314c8c5ef99605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:21 +0000
Subject: [PATCH 31/67] fix: keep backer signatures of out of order TEL events
 in escrow

---
 src/keri/vdr/eventing.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 450ac94..20889bc 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1540,7 +1540,7 @@ class Tevery:
                     pass
             else:
                 # out of order, need to escrow
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 msg = f"Escrowed out of order event of type = {ilk} pre = {pre} SAID = {serder.said}"
                 logger.debug(msg)
                 logger.debug("TEL Event Body=\n%s\n", serder.pretty())
@@ -1568,7 +1568,7 @@ class Tevery:
 
             if sn > sno:  # sn later than sno so out of order escrow
                 # escrow out-of-order event
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
@@ -1952,7 +1952,7 @@ class Tevery:
         else:
             raise ValidationError("invalid ilk {} for tevery event = {}".format(ilk, serder.ked))
 
-    def escrowOOEvent(self, serder, seqner, saider):
+    def escrowOOEvent(self, serder, seqner, saider, bigers=None):
         """ Escrow out-of-order TEL events.
 
         Saves the serialized event, anchor and event digest in escrow for any
@@ -1965,12 +1965,15 @@ class Tevery:
         Parameters:
             serder (Serder): serder of event message
             seqner (Seqner): sequence number of anchoring TEL event
-                saider (Diger) digest of anchoring TEL event"""
+                saider (Diger) digest of anchoring TEL event
+            bigers (list): Siger instances of indexed backer sigs"""
         key = dgKey(serder.preb, serder.saidb)
         self.reger.tvts.put(keys=key, val=serder.raw)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
         self.reger.ancs.put(keys=key, val=(number, diger))
+        if bigers:
+            self.reger.tibs.put(keys=key, vals=bigers)
         self.reger.oots.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
         logger.debug("Tever state: Escrowed our of order TEL event "
                      "event = %s", serder.ked)
-- 
2.43.0


From 74f31af1a223657c1b52fc8930a8ddf99edf3ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:21 +0000
Subject: [PATCH 32/67] fix: unescrow only the processed TEL event, not every
 event escrowed at its sn

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 20889bc..df6b7ac 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2044,7 +2044,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.oots.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery OOO unescrowed: %s", ex.args[0])
                 else:
@@ -2054,7 +2054,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.oots.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery OOO unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("Event=\n%s\n", tserder.pretty())
 
@@ -2102,7 +2102,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.taes.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery ANC unescrowed: %s", ex.args[0])
                 else:
@@ -2112,7 +2112,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.taes.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery ANC unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("event=\n%s\n", tserder.pretty())
 
-- 
2.43.0


From f636b742222e9cf1d4d61e85f703cba7ad4b2126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:21 +0000
Subject: [PATCH 33/67] fix: TEL query carries its own dta and dtb

---
 src/keri/vdr/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index df6b7ac..4acead4 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -620,10 +620,10 @@ def query(regk,
         qry["dt"] = dt
 
     if dta is not None:
-        qry["dta"] = dt
+        qry["dta"] = dta
 
     if dtb is not None:
-        qry["dtb"] = dt
+        qry["dtb"] = dtb
 
     return queryCore(route=route,
                           pre=pre,
-- 
2.43.0


From 77628dc99446080360015796c6eeae282b5e899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:35 +0000
Subject: [PATCH 34/67] fix: answer tsn query for credential state

---
 src/keri/vdr/eventing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 4acead4..465f37d 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1633,8 +1633,7 @@ class Tevery:
                 tsn = tever.state()
                 self.cues.push(dict(kin="reply", route="/tsn/registry", data=asdict(tsn), dest=source))
 
-                if vcpre := qry["i"]:
-                    tsn = tever.vcState(vcpre=vcpre)
+                if (vcpre := qry["i"]) and (tsn := tever.vcState(vci=vcpre)):
                     self.cues.push(dict(kin="reply", route="/tsn/credential", data=asdict(tsn), dest=source))
 
         else:
-- 
2.43.0


From b5f56629e0814c1eb48e842989f80b6cd82f2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 35/67] fix: registry rotation updates saved registry state, so
 a restart does not undo it

---
 src/keri/vdr/eventing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 465f37d..6006aeb 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -907,6 +907,7 @@ class Tever:
                           saider=saider,
                           bigers=bigers,
                           baks=self.baks)
+            self.reger.states.pin(keys=self.prefixer.qb64, val=self.state())
 
             return
 
-- 
2.43.0


From c6cc6db9dde891d4fdc742c287ae3267e2e2273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:04 +0000
Subject: [PATCH 36/67] fix: an accepted TEL event records its verified anchor,
 not one held in escrow before

---
 src/keri/vdr/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 6006aeb..fa32db1 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1236,7 +1236,8 @@ class Tever:
         key = dgKey(pre, dig)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        # verified anchor replaces any unverified one held while escrowed
+        self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
-- 
2.43.0


From d17da256b55a8298987f7cdef46628190164f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 37/67] fix: a far credential whose attributes are not
 disclosed does not count as untargeted

---
 src/keri/vdr/verifying.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index 86d0b4d..a777e70 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -441,7 +441,12 @@ class Verifier:
             # Resolve via .iseaid so an aggregate ('acg') far node -- whose issuee is at
             # .sad["A"][1]["i"] and whose .attrib is None -- coerces the same as an
             # attributive one (#1529).
-            op = 'I2I' if creder.iseaid is not None else 'NI2I'
+            # A section disclosed only as its SAID or blinded may hide an issuee so it
+            # does not show the far node to be untargeted.
+            agg = creder.aggreg
+            hidden = (isinstance(creder.attrib, str) or isinstance(agg, str) or
+                      (isinstance(agg, list) and len(agg) > 1 and isinstance(agg[1], str)))
+            op = 'I2I' if creder.iseaid is not None or hidden else 'NI2I'
 
         # Recognized but unimplemented operators fail closed with a diagnosable error
         # rather than being silently dropped from the effective list. Deliberately not
-- 
2.43.0


From 6a36a53903400cc74fed463d05d1f75c36cff897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:50 +0000
Subject: [PATCH 38/67] fix: ask for the issuer's key state when a credential
 state notice waits for it

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index fa32db1..f479b86 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1870,7 +1870,7 @@ class Tevery:
         if pre not in self.kevers:
             if self.reger.txnsb.escrowStateNotice(typ="credential-mae", pre=vci, aid=aid, serder=serder,
                                                   diger=diger, dater=dater, cigars=cigars, tsgs=tsgs):
-                self.cues.append(dict(kin="query", q=dict(pre=aid)))
+                self.cues.append(dict(kin="query", q=dict(pre=pre)))
 
             raise MissingAnchorError("Failure verify event = {} ".format(serder.ked))
 
-- 
2.43.0


From 28912d2b107fe465e8b4e188f534e20ebf700989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 39/67] fix: refuse a nontransferable signature couple of a
 transferable exn sender

---
 src/keri/peer/exchanging.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 86c7ae8..fc25268 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -126,6 +126,13 @@ class Exchanger:
                     logger.debug("Exchange message body=\n%s\n", serder.pretty())
                     raise MissingSignatureError(msg)
 
+                if cigar.verfer.transferable:  # keys of transferable may have rotated
+                    msg = (f"Skipped cig of transferable aid={sender} route={route} "
+                           f"for exn evt = {serder.said} receiver={serder.ked.get('rp', '')}")
+                    logger.info(msg)
+                    logger.debug("Exchange message body=\n%s\n", serder.pretty())
+                    raise MissingSignatureError(msg)
+
                 if not cigar.verfer.verify(cigar.raw, serder.raw):  # cig not verify
                     msg = (f"Failure satisfying exn on cigs for {cigar} route={route} "
                            f"for evt = {serder.said} receiver={serder.ked.get('rp', '')}")
-- 
2.43.0


From b207a069ba91c438c2c2f1eab0e784cc55f87df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 40/67] fix: an error inside a behavior's verification does not
 let the exn through

---
 src/keri/peer/exchanging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index fc25268..4048cbb 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -177,13 +177,13 @@ class Exchanger:
                 raise ValidationError(f"essr diger={diger.qb64} is invalid against content")
 
         # Perform behavior specific verification, think IPEX chaining requirements
-        try:
+        if hasattr(behavior, "verify"):
             if not behavior.verify(serder=serder, **kwa):
                 logger.error("exn event for route %s failed behavior verification. said=%s", route, serder.said)
                 logger.debug(f"Event=\n%s\n", serder.pretty())
                 return
 
-        except AttributeError:
+        else:
             logger.debug("Behavior for %s missing or does not have verify for said %s", route, serder.said)
             logger.debug("Exn Event Body=\n%s\n", serder.pretty())
 
-- 
2.43.0


From da38201c73a4c6827840309bbf376544f4cd7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 41/67] fix: keep the ESSR content of an exn held for
 signatures

---
 src/keri/peer/exchanging.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 4048cbb..d16d16d 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -96,7 +96,7 @@ class Exchanger:
 
                 if prefixer.qb64 not in self.kevers or self.kevers[prefixer.qb64].sn < snumber.sn:
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
+                                          nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = f"Unable to find sender {prefixer.qb64} in kevers for evt = {serder.said}"
                     logger.info(msg)
@@ -109,7 +109,7 @@ class Exchanger:
 
                 if not tholder.satisfy(indices):  # We still don't have all the sigers, need to escrow
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
+                                          nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = (f"Not enough signatures in idx={indices} route={route} "
                            f"for evt = {serder.said} receiver={serder.ked.get('rp', '')}")
@@ -141,7 +141,7 @@ class Exchanger:
                     raise MissingSignatureError(msg)
         else:
             self.escrowPSEvent(serder=serder, tsgs=[], pathed=ptds,
-                               nests=nests)
+                               nests=nests, essrs=essrs)
             msg = (
                 f"Failure satisfying exn, no cigs or sigs for evt = {serder.said} "
                 f"on route {route} receiver = {serder.ked.get('rp', '')}")
@@ -202,7 +202,7 @@ class Exchanger:
         """ Process all escrows for `exn` messages"""
         self.processEscrowPartialSigned()
 
-    def escrowPSEvent(self, serder, tsgs, pathed, nests=None):
+    def escrowPSEvent(self, serder, tsgs, pathed, nests=None, essrs=None):
         """ Escrow event that does not have enough signatures.
 
         Parameters:
@@ -210,6 +210,7 @@ class Exchanger:
             tsgs (list): quadlet of prefixer seqner, saider, sigers
             pathed (list): list of bytes of attached paths
             nests (list | None): parsed V2 nested substreams to preserve
+            essrs (list | None): ESSR streams as Texters to preserve
 
         """
         dig = serder.said
@@ -223,6 +224,8 @@ class Exchanger:
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
+        for texter in (essrs or []):
+            self.hby.db.essrs.add(keys=(dig,), val=texter)
         return self.hby.db.epse.put(keys=(dig,), val=serder)
 
     def processEscrowPartialSigned(self):
-- 
2.43.0


From 58e1381744d914667f45205b5f3a0095843bb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 42/67] fix: a held exn that is refused leaves its signatures
 and content behind

---
 src/keri/peer/exchanging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index d16d16d..b304190 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -279,10 +279,11 @@ class Exchanger:
                 saved = self.hby.db.exns.get(keys=(dig,)) is not None
                 self.hby.db.epse.rem(dig)
                 self.hby.db.epsd.rem(dig)
-                self.hby.db.esigs.rem(dig)
                 if not saved:
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
+                    self.hby.db.essrs.rem(keys=(dig,))
+                    self.hby.db.esigs.trim(keys=(dig, ""))
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Exchange partially signed unescrowed: %s", ex.args[0])
                 else:
@@ -291,10 +292,11 @@ class Exchanger:
                 saved = self.hby.db.exns.get(keys=(dig,)) is not None
                 self.hby.db.epse.rem(dig)
                 self.hby.db.epsd.rem(dig)
-                self.hby.db.esigs.rem(dig)
                 if not saved:
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
+                    self.hby.db.essrs.rem(keys=(dig,))
+                    self.hby.db.esigs.trim(keys=(dig, ""))
                     logger.info("Exchanger unescrow rejected exchange: said=%s", serder.said)
                     continue
                 logger.info("Exchanger unescrow succeeded in valid exchange: creder=%s", serder.said)
-- 
2.43.0


From 03f5b54c8d63116f0f79db29414d888bcb138dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 43/67] fix: read back an exn signed with a nontransferable key

---
 src/keri/peer/exchanging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index b304190..b768ea8 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -768,7 +768,10 @@ def verify(hby, serder):
             raise MissingSignatureError(msg)
         accepted = True
 
-    cigars = hby.db.ecigs.get(keys=(serder.said,))
+    cigars = []
+    for verfer, cigar in hby.db.ecigs.get(keys=(serder.said,)):
+        cigar.verfer = verfer
+        cigars.append(cigar)
     for cigar in cigars:
         if not cigar.verfer.verify(cigar.raw, serder.raw):  # cig not verify
             msg = f"Failure satisfying exn on cigs for {cigar} for evt = {serder.said}"
-- 
2.43.0


From 5d1bfd7f23f1e959a4a3486cdf881148bf7e8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:16 +0000
Subject: [PATCH 44/67] fix: KRAM judges signature groups by the sender's last
 establishment event, not its last event

---
 src/keri/core/kraming.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d25f4f7..70dd782 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -455,8 +455,8 @@ class Kramer:
                 exist (``kramit`` ensures this before calling).
         """
         tsgs = kwa.get('tsgs', [])
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
+        cur_sn = kever.lastEst.s
+        cur_said = kever.lastEst.d
         for prefixer, number, sdiger, sigers in tsgs:
             if prefixer.qb64 != senderId:
                 continue
@@ -552,8 +552,8 @@ class Kramer:
         if not tsgs:
             return stale_tsgs
 
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
+        cur_sn = kever.lastEst.s
+        cur_said = kever.lastEst.d
         new_tsgs = []
         for quad in tsgs:
             prefixer, number, sdiger, sigers = quad
@@ -608,8 +608,8 @@ class Kramer:
             if not kwa['lsgs']:
                 kwa.pop('lsgs', None)
 
-        curSn = kever.sner.num
-        curSaid = kever.serder.said
+        curSn = kever.lastEst.s
+        curSaid = kever.lastEst.d
         if kwa.get('tsgs'):
             newTsgs = []
             for quad in kwa['tsgs']:
@@ -694,8 +694,8 @@ class Kramer:
         for prefixer, number, sdiger, sigers in kwa.get('tsgs', []):
             if prefixer.qb64 != senderId:
                 continue
-            if (number.sn != kever.sner.num or
-                    sdiger.qb64 != kever.serder.said):
+            if (number.sn != kever.lastEst.s or
+                    sdiger.qb64 != kever.lastEst.d):
                 continue
             for siger in sigers:
                 pool.add(siger.qb64)
-- 
2.43.0


From 7915b26bf702d3019f8d89b5b33aa6d775eb2a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:16 +0000
Subject: [PATCH 45/67] fix: KRAM drops replays of a partially signed message
 once its threshold was satisfied

---
 src/keri/core/kraming.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 70dd782..6377e71 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1107,6 +1107,12 @@ class Kramer:
                 if existingSigs is None:
                     existingSigs = []
 
+                # Threshold already satisfied by earlier deliveries means message
+                # already accepted so this is a replay
+                if kever.tholder.satisfy(
+                        indices=[sig.index for sig in existingSigs]):
+                    return None
+
                 existingSigIndices = {sig.index for sig in existingSigs}
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
@@ -1340,6 +1346,12 @@ class Kramer:
                 if existingSigs is None:
                     existingSigs = []
 
+                # Threshold already satisfied by earlier deliveries means message
+                # already accepted so this is a replay
+                if kever.tholder.satisfy(
+                        indices=[sig.index for sig in existingSigs]):
+                    return None
+
                 existingSigIndices = {sig.index for sig in existingSigs}
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
-- 
2.43.0


From 8f6663d850300c774deccac6405553de9e54664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:16 +0000
Subject: [PATCH 46/67] fix: KRAM keeps an exchange's cache entries while their
 messages may still be accepted

---
 src/keri/core/kraming.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 6377e71..98deea4 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -2156,8 +2156,14 @@ class Kramer:
             # Get the prune lag values from the cache record
             pxl = cache.pxl
 
+            # Message itself may be accepted from d before to d + ml after its
+            # own time so keep its entry for at least as long
+            mdt_ms = int(helping.fromIso8601(cache.mdt).timestamp() * 1000)
+            d = cache.d
+
             # Apply the comparison
-            if not xdt_ms <= rdt_ms <= xdt_ms + pxl:
+            if not (xdt_ms - d <= rdt_ms <=
+                    max(xdt_ms + pxl, mdt_ms + d + cache.ml)):
                 self.db.kramTMSC.rem(keys=(aid, xid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
-- 
2.43.0


From 197050c7e19d113ea7bd2899b499402552556bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:18 +0000
Subject: [PATCH 47/67] fix: ingest encrypts the next keys it creates, as every
 other private key

---
 src/keri/app/keeping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 5091bec..a2d4adb 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1645,7 +1645,8 @@ class Manager:
 
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
-            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer)
+            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
+                             encrypter=self.encrypter)
 
         pubs = [signer.verfer.qb64 for signer in nsigners]
         self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
-- 
2.43.0


From 3821bf394c2b78495d2fd0fcc95281e580526e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:18 +0000
Subject: [PATCH 48/67] fix: ingest of random keys, which have no salt, into an
 encrypted keystore

---
 src/keri/app/keeping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index a2d4adb..ae96a2d 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1582,7 +1582,7 @@ class Manager:
                 # Secret to encrypt here
                 pp = PrePrm(pidx=pidx,
                             algo=algo,
-                            salt=(creator.salt if not self.encrypter
+                            salt=(creator.salt if not self.encrypter or not creator.salt
                                   else self.encrypter.encrypt(ser=creator.salt,
                                         code=MtrDex.X25519_Cipher_Salt).qb64),
                             stem=creator.stem,
-- 
2.43.0


From d9d696417842ff8cfbd0d2ffe0e1e491ae1ae3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:37 +0000
Subject: [PATCH 49/67] fix: updateAeid verifies the seed before changing the
 encrypter, and for an unchanged aeid too

---
 src/keri/app/keeping.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index ae96a2d..97e06c8 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -804,12 +804,12 @@ class Manager:
                                        "".format(self.aeid))
 
         if aeid:  # aeid provided
-            if aeid != self.aeid:  # changing to a new aeid so update .encrypter
-                self.encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
-                # verifies new seed belongs to new aeid
-                if not seed or not self.encrypter.verifySeed(seed):
-                    raise AuthError("Seed missing or provided seed not associated"
-                                           "  with provided aeid={}.".format(aeid))
+            encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
+            # verifies new seed belongs to new aeid
+            if not seed or not encrypter.verifySeed(seed):
+                raise AuthError("Seed missing or provided seed not associated"
+                                       "  with provided aeid={}.".format(aeid))
+            self.encrypter = encrypter
         else:  # changing to empty aeid so new encrypter is None
             self.encrypter = None
 
-- 
2.43.0


From d1143904699e823791f90c6d65b7cd51a8812559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:37 +0000
Subject: [PATCH 50/67] fix: setting a keystore's first aeid encrypts the keys
 and salts it already holds

---
 src/keri/app/keeping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 97e06c8..5a2d12b 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -823,11 +823,12 @@ class Manager:
             # self.salt = self.encrypter.encrypt(ser=salt).qb64 if self.encrypter else salt
 
         # other secrets
-        if self.decrypter:
+        if self.decrypter or self.encrypter:
             # re-encrypt root salt secrets by prefix parameters .prms
             for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
                 if data.salt:
-                    salter = self.decrypter.decrypt(qb64=data.salt)
+                    salter = (self.decrypter.decrypt(qb64=data.salt)
+                              if self.decrypter else Salter(qb64=data.salt))
                     data.salt = (self.encrypter.encrypt(prim=salter).qb64
                                  if self.encrypter else salter.qb64)
                     self.ks.prms.pin(keys, val=data)
-- 
2.43.0


From 854bb0f13473a1c2968aaa0ecb0c009ee881926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:37 +0000
Subject: [PATCH 51/67] fix: removing a keystore's aeid by None records that
 there is none

---
 src/keri/app/keeping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 5a2d12b..26d6d4d 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -838,7 +838,7 @@ class Manager:
             for keys, signer in self.ks.pris.getTopItemIter(decrypter=self.decrypter):
                 self.ks.pris.pin(keys, signer, encrypter=self.encrypter)
 
-        self.ks.gbls.pin("aeid", aeid)  # set aeid in db
+        self.ks.gbls.pin("aeid", aeid if aeid else "")  # set aeid in db
         self._seed = seed  # set .seed in memory
 
         # update .decrypter
-- 
2.43.0


From b56aaf9f60bb3d20a04bdf0ef5db07db2a735efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:37 +0000
Subject: [PATCH 52/67] fix: rotate stores the next private keys before the
 situation that names them

---
 src/keri/app/keeping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 26d6d4d..10f9283 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1240,13 +1240,14 @@ class Manager:
         ps.nxt = PubLot(pubs=[signer.verfer.qb64 for signer in signers],
                               ridx=ridx, kidx=kidx, dt=dt)
 
-        if not self.ks.sits.pin(pre, val=ps):
-            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
-
         for signer in signers:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
+        # only once its keys are stored, so a crash never leaves it without them
+        if not self.ks.sits.pin(pre, val=ps):
+            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
+
         # store public keys for lookup of private keys by public key for replay
         self.ks.pubs.put(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
 
-- 
2.43.0


From 6925535289e1076ca6219c31b37ac760315cbf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:38 +0000
Subject: [PATCH 53/67] fix: a keystore without aeid has no decrypter, though a
 seed be given

---
 src/keri/app/keeping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 10f9283..83f3bb1 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -841,8 +841,8 @@ class Manager:
         self.ks.gbls.pin("aeid", aeid if aeid else "")  # set aeid in db
         self._seed = seed  # set .seed in memory
 
-        # update .decrypter
-        self.decrypter = Decrypter(seed=seed) if seed else None
+        # update .decrypter, none when no aeid since then nothing is encrypted
+        self.decrypter = Decrypter(seed=seed) if aeid else None
 
 
     @property
-- 
2.43.0


From b478378ee1a5d629ea7b8fd5d6dac74af5aa8fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:28 +0000
Subject: [PATCH 54/67] fix: leave no habitat record behind when the name is
 taken

---
 src/keri/app/habbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index af91178..f27b4c4 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -1141,12 +1141,12 @@ class BaseHab:
 
 
     def save(self, habord):
-        self.db.habs.pin(keys=self.pre,
-                         val=habord)
         ns = "" if self.ns is None else self.ns
         if self.db.names.get(keys=(ns, self.name)) is not None:
             raise ValueError("AID already exists with that name")
 
+        self.db.habs.pin(keys=self.pre,
+                         val=habord)
         self.db.names.pin(keys=(ns, self.name),
                           val=self.pre)
 
-- 
2.43.0


From f06f557e652b57558bbee0ea40b6a72ea97f3681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:28 +0000
Subject: [PATCH 55/67] fix: a failed rotation leaves no next key set behind to
 be replayed

---
 src/keri/app/habbing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index f27b4c4..1a1aa9d 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -11,7 +11,7 @@ from hio.base import doing
 from hio.help import hicting, ogler
 
 from .configing import Configer
-from .keeping import Keeper, Manager
+from .keeping import Keeper, Manager, riKey
 
 from ..peer import Exchanger,  specialExchange
 from ..db import Baser, dgKey, fetchTsgs
@@ -3058,10 +3058,12 @@ class Hab(BaseHab):
         # Without rollback, a failed rotation leaves the key store out of
         # sync with the KEL (issue #819).
         ps_before = self.mgr.ks.sits.get(self.pre)
+        created = False  # True means next key set created by this rotation
 
         try:
             verfers, digers = self.mgr.replay(pre=self.pre, erase=False)
         except IndexError:  # old next is new current
+            created = True
             verfers, digers = self.mgr.rotate(pre=self.pre,
                                               ncount=ncount,
                                               temp=self.temp,
@@ -3079,6 +3081,8 @@ class Hab(BaseHab):
             # Rotation event validation failed. Rollback key state to
             # pre-rotation snapshot so KEL and key store stay in sync.
             self.mgr.ks.sits.pin(self.pre, val=ps_before)
+            if created:  # so not replayed by next attempt whatever its ncount
+                self.mgr.ks.pubs.rem(riKey(self.pre, ri=ps_before.nxt.ridx + 1))
             raise
 
         # Event validated successfully. Now safe to erase old stale
-- 
2.43.0


From 6b5b003308d46329efbc2c37fbb5073d63531141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:28 +0000
Subject: [PATCH 56/67] fix: a group habitat keeps its rotating members when
 loaded

---
 src/keri/app/habbing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 1a1aa9d..4e9f00f 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -325,14 +325,15 @@ class Habery:
             if habord.mid and not habord.sid:
                 hab = GroupHab(ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
-                               name=habord.name, pre=pre, temp=self.temp, smids=habord.smids)
+                               name=habord.name, pre=pre, temp=self.temp, smids=habord.smids,
+                               rmids=habord.rmids)
                 groups.append(habord)
             elif habord.sid and not habord.mid:
                 hab = SignifyHab(ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                  rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
                                  name=habord.name, pre=habord.sid)
             elif habord.sid and habord.mid:
-                hab = SignifyGroupHab(smids=habord.smids, ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
+                hab = SignifyGroupHab(smids=habord.smids, rmids=habord.rmids, ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                       rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
                                       name=habord.name, pre=pre)
                 groups.append(habord)
-- 
2.43.0


From 68c190f74ba1711adb85808947cd74f85cc8acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:28 +0000
Subject: [PATCH 57/67] fix: establish habitat events without next digests when
 given none

---
 src/keri/app/habbing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 4e9f00f..304f5b2 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -1109,7 +1109,7 @@ class BaseHab:
                                       delpre=self.delpre,
                                       isith=cst,
                                       nsith=nst,
-                                      ndigs=[diger.qb64 for diger in digers],
+                                      ndigs=[diger.qb64 for diger in digers or []],
                                       toad=toad,
                                       wits=wits,
                                       cnfg=cnfg,
@@ -1121,7 +1121,7 @@ class BaseHab:
             serder = eventing.incept(keys=keys,
                                  isith=cst,
                                  nsith=nst,
-                                 ndigs=[diger.qb64 for diger in digers],
+                                 ndigs=[diger.qb64 for diger in digers or []],
                                  toad=toad,
                                  wits=wits,
                                  cnfg=cnfg,
@@ -1357,7 +1357,7 @@ class BaseHab:
                                       sn=kever.sner.num + 1,
                                       isith=cst,
                                       nsith=nst,
-                                      ndigs=[diger.qb64 for diger in digers],
+                                      ndigs=[diger.qb64 for diger in digers or []],
                                       toad=toad,
                                       wits=kever.wits,
                                       cuts=cuts,
@@ -1372,7 +1372,7 @@ class BaseHab:
                                      sn=kever.sner.num + 1,
                                      isith=cst,
                                      nsith=nst,
-                                     ndigs=[diger.qb64 for diger in digers],
+                                     ndigs=[diger.qb64 for diger in digers or []],
                                      toad=toad,
                                      wits=kever.wits,
                                      cuts=cuts,
-- 
2.43.0


From 4b6d2758a6d9ac7543f8b0d8173abc6b6fb44e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:03 +0000
Subject: [PATCH 58/67] fix: record a joined remote group habitat as a group,
 with its member

---
 src/keri/app/habbing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 304f5b2..33478f1 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -646,7 +646,8 @@ class Habery:
 
         hab.pre = pre
         habord = HabitatRecord(hid=hab.pre,
-                                      sid=mhab.pre,
+                                      mid=mhab.pre,
+                                      sid=hab.pre,
                                       name=name,
                                       domain=ns,
                                       smids=smids,
-- 
2.43.0


From c7db80e4958142015b28b8d202e9c4d360be3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:16 +0000
Subject: [PATCH 59/67] fix: parser flushed the whole stream after an error
 inside a sized group already stripped from it

---
 src/keri/core/parsing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 5af3508..f97e0d5 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -861,6 +861,9 @@ class Parser:
                     # this is the normal way to handle it, so do not log
                     continue  # control thrown here to parse new generic group
 
+                except SizedGroupError:  # group already stripped from stream
+                    raise  # so do not flush rest of stream
+
                 except (ExtractionError, Exception) as ex:  # error while extracting
                     raise ExtractionError from ex
 
-- 
2.43.0


From 99069b8a8b051305a59575bf5dc8833e4ea9e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:16 +0000
Subject: [PATCH 60/67] fix: parser read the same bytes for ever when a counter
 could not be decoded

---
 src/keri/core/parsing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index f97e0d5..306abab 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -894,7 +894,7 @@ class Parser:
                     results.append(exts)
 
 
-        except ExtractionError as ex:  # maybe this needs to be more granular
+        except (ExtractionError, Exception) as ex:  # maybe this needs to be more granular
             if logger.isEnabledFor(logging.TRACE):
                 logger.exception("GroupParsator error during extraction"
                                              " of msg+atc : %s", ex)
@@ -904,7 +904,9 @@ class Parser:
             if eggs is not None:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing generic group"
                                                  f" of size={eggs}")
-            raise  # no enclosing message group so can't preflush, must flush stream
+            if isinstance(ex, ExtractionError):
+                raise  # no enclosing message group so can't preflush, must flush stream
+            raise ExtractionError from ex  # unreadable so must flush stream
 
         finally:  # restore version at top level
             while stack:  # when tail end of group has validation error
-- 
2.43.0


From d38a81e760048f24fbe06ca794a235d5328041dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:16 +0000
Subject: [PATCH 61/67] fix: parseOne used an unassigned variable when its
 message could not be extracted

---
 src/keri/core/parsing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 306abab..7bf333a 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -608,6 +608,7 @@ class Parser:
         local = True if local else False
 
         result = None
+        exts = None
         while True:
             try:
                 exts = yield from self.msgParsator(ims=ims,
@@ -630,6 +631,10 @@ class Parser:
                     logger.error("Kevery msg extraction error: %s", ex)
                 del ims[:]  # delete rest of stream to force cold restart
 
+            if exts is None:  # nothing extracted so nothing to process
+                result = True if processive else None
+                break
+
             if processive:
                 try:
                     result = self.msgProcess(exts=asdict(exts),
-- 
2.43.0


From 36a4ea9ea37781155bf1640519ec0aa5b36dfa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:23 +0000
Subject: [PATCH 62/67] fix: parser took the stream after an enclosed group as
 framed, losing an incomplete next message

---
 src/keri/core/parsing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 7bf333a..2671fa6 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -792,7 +792,7 @@ class Parser:
 
         self.version = version  # when not None which sets .methods .codes .mucodes .sucodes
 
-        stack = deque()  # (svrsn, ims) stack of nested substreams framed by generic groups
+        stack = deque()  # (svrsn, ims, framed) stack of nested substreams framed by generic groups
         svrsn = None
         eggs = None  # used in preflused error
         result = None
@@ -800,7 +800,7 @@ class Parser:
         try:
             while True:  # process stream until done
                 while not ims and stack:  # happens when ascending (un-nesting)
-                    svrsn, ims = stack.pop()  # un-nest
+                    svrsn, ims, framed = stack.pop()  # un-nest
                     self.version = svrsn  # only changes if svrsn is not None
 
                 if not ims:  # no stream
@@ -840,7 +840,7 @@ class Parser:
                         else:
                             svrsn == None  # no change to substream version
 
-                        stack.append((self.version, ims))  # push current version ims
+                        stack.append((self.version, ims, framed))  # push current version ims framed
                         self.version = svrsn  # replace with new version if not None
                         ims = eims  # replace ims to nest down one level
                         # top-level nested generics enclose messages plus attachments
@@ -915,7 +915,7 @@ class Parser:
 
         finally:  # restore version at top level
             while stack:  # when tail end of group has validation error
-                svrsn, _ = stack.pop()
+                svrsn, _, _ = stack.pop()
                 if svrsn:
                     self.version = svrsn
         return result if processive else results
-- 
2.43.0


From 9bc3ae4ce0928b8f430082dd8b68e0ab94b34e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:15 +0000
Subject: [PATCH 63/67] fix: pending replay-protected signature groups shared
 the store of signed replies

---
 src/keri/db/basing.py | 4 ++--
 src/keri/db/dbing.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index aa3b4a5..5b5e7c8 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -779,7 +779,7 @@ class Baser(LMDBer):
         .kramTSGS is named subDB instance of CatCesrIoSetSuber for KRAM partially
             signed multi-key trans last sig group attachments. Each group is
             stored per-siger as a flat (Prefixer, Seqner, Saider, Siger) tuple.
-            subkey 'tsgs.'
+            subkey 'ktsgs.'
             DB is keyed by (AID, MID): sender identifier prefix plus message SAID
             Value is (Prefixer, Number, Diger, Siger) tuple. Sourced from
             parser kwa key 'tsgs'.
@@ -1289,7 +1289,7 @@ class Baser(LMDBer):
                                                         coring.Diger, indexing.Siger))
 
         # tsgs: trans last sig groups (prefixer, number, diger, siger) — stored per-siger
-        self.kramTSGS = subing.CatCesrIoSetSuber(db=self, subkey='tsgs.',
+        self.kramTSGS = subing.CatCesrIoSetSuber(db=self, subkey='ktsgs.',
                                                   klas=(coring.Prefixer, coring.Number,
                                                         coring.Diger, indexing.Siger))
 
diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index b97c1fc..8cf54a2 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -367,7 +367,7 @@ class LMDBer(filing.Filer):
     TempPrefix = "keri_lmdb_"
     TempSuffix = "_test"
     Perm = stat.S_ISVTX | stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR  # 0o1700==960
-    MaxNamedDBs = 100
+    MaxNamedDBs = 128
     MapSize = 104857600
 
     def __init__(self, readonly=False, **kwa):
-- 
2.43.0


From 24a4aaf1c811ccd70ec522a2a01b50952a888ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:15 +0000
Subject: [PATCH 64/67] fix: introduce read a store that does not exist

---
 src/keri/app/forwarding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/forwarding.py b/src/keri/app/forwarding.py
index 1411af8..8c7fa96 100644
--- a/src/keri/app/forwarding.py
+++ b/src/keri/app/forwarding.py
@@ -600,7 +600,7 @@ def introduce(hab, wit, gvrsn=None):
 
         # alt find in vrcsNew as preliminary to replace
         topkeys = (wit, iserder.said)
-        for keys, siger in hab.db.vrc.getTopItemIter(keys=topkeys):
+        for keys, siger in hab.db.vrcs.getTopItemIter(keys=topkeys):
             epre, edig, rpre, rsnh, rdig = keys  # expand keys tuple
             if rpre == hab.pre:
                 found = True  # yes so don't pre-send own inception
-- 
2.43.0


From ed9d95b2f12799557db450e5bb4cd312e40c18f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:15 +0000
Subject: [PATCH 65/67] fix: migration of keys read the first seen log by a
 method that does not exist

---
 src/keri/db/migrations/add_key_and_reg_state_schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/migrations/add_key_and_reg_state_schemas.py b/src/keri/db/migrations/add_key_and_reg_state_schemas.py
index c24bacb..64bb859 100644
--- a/src/keri/db/migrations/add_key_and_reg_state_schemas.py
+++ b/src/keri/db/migrations/add_key_and_reg_state_schemas.py
@@ -135,7 +135,7 @@ def migrateKeys(db):
     digs = subing.CatCesrIoSetSuber(db=db, subkey="digs.",
                                     klas=(coring.Prefixer, coring.Seqner))
 
-    for pre, fn, dig in db.getFelItemAllPreIter():
+    for (pre,), fn, dig in db.fels.getAllItemIter(keys=b'', on=0):
         if (serder := db.evts.get(keys=(pre, dig))) is None:
             logger.info(f"Migrate keys: missing event for dig={dig}, skipped.")
             continue
-- 
2.43.0


From af6cf96421b81501507e6af7c306d6ae1d4fa5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:22 +0000
Subject: [PATCH 66/67] fix: seals and notices of group habitats called methods
 that do not exist

---
 src/keri/app/signing.py                  | 3 +--
 src/keri/cli/commands/multisig/notice.py | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/keri/app/signing.py b/src/keri/app/signing.py
index 188070a..aa7e3ac 100644
--- a/src/keri/app/signing.py
+++ b/src/keri/app/signing.py
@@ -122,8 +122,7 @@ def transSeal(hab):
     if not isinstance(hab, GroupHab):  # not a group use own kever
         indices = None  # use default order
     else:  # group so use gid kever
-        smids, _ = hab.members()
-        indices = [smids.index(hab.mhab.pre)]  # use group order*
+        indices = [hab.smids.index(hab.mhab.pre)]  # use group order*
 
     kever = hab.kever
     prefixer = kever.prefixer
diff --git a/src/keri/cli/commands/multisig/notice.py b/src/keri/cli/commands/multisig/notice.py
index 9959609..9569c0d 100644
--- a/src/keri/cli/commands/multisig/notice.py
+++ b/src/keri/cli/commands/multisig/notice.py
@@ -12,7 +12,7 @@ from hio.help import ogler
 from ...common import Parsery, setupHby
 
 from ....kering import Ilks, Vrsn_1_0
-from ....app import (HaberyDoer, Poster, multisigRotateExn,
+from ....app import (GroupHab, HaberyDoer, Poster, multisigRotateExn,
                      multisigInceptExn, multisigInteractExn)
 
 from ....core import SerderKERI
@@ -80,8 +80,8 @@ class NoticeDoer(doing.DoDoer):
 
         hab = self.hby.habByName(name=self.alias)
 
-        if hab.group:
-            (smids, rmids) = hab.members()
+        if isinstance(hab, GroupHab):
+            (smids, rmids) = (hab.smids, hab.rmids)
             serder = hab.kever.serder
             msg = hab.msgOwnEvent(sn=hab.kever.sn, framed=True,
                                   gvrsn=serder.pvrsn)
-- 
2.43.0


From 55a5bd2326835f0eaef99548be6a500b1548fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:28 +0000
Subject: [PATCH 67/67] fix: kli did generate, ipex join and decrypt read
 options they did not declare

---
 src/keri/cli/commands/decrypt.py      | 2 +-
 src/keri/cli/commands/did/generate.py | 5 +++--
 src/keri/cli/commands/ipex/join.py    | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/keri/cli/commands/decrypt.py b/src/keri/cli/commands/decrypt.py
index 07275c2..4e9cd27 100644
--- a/src/keri/cli/commands/decrypt.py
+++ b/src/keri/cli/commands/decrypt.py
@@ -60,4 +60,4 @@ def decrypt(tymth, tock=0.0, **opts):
     except ConfigurationError:
         print(f"prefix for {name} does not exist, incept must be run first", )
     except FileNotFoundError:
-        print("unable to open file", args.text[1:])
+        print("unable to open file", args.data[1:])
diff --git a/src/keri/cli/commands/did/generate.py b/src/keri/cli/commands/did/generate.py
index bc15fd3..7b496f4 100644
--- a/src/keri/cli/commands/did/generate.py
+++ b/src/keri/cli/commands/did/generate.py
@@ -12,12 +12,13 @@ from hio.base import doing
 from hio.help import ogler
 
 from ....kering import ConfigurationError, Roles, Schemes
-from ...common import existingHby, aliasInput
+from ...common import Parsery, existingHby, aliasInput
 
 
 logger = ogler.getLogger()
 
-parser = argparse.ArgumentParser(description='Generate and print an AID\'s DID.')
+parser = argparse.ArgumentParser(description='Generate and print an AID\'s DID.',
+                                 parents=[Parsery.keystore()])
 parser.set_defaults(handler=lambda args: handler(args))
 
 parser.add_argument('--alias', '-a', help='human readable alias for which to generate a DID', default=None)
diff --git a/src/keri/cli/commands/ipex/join.py b/src/keri/cli/commands/ipex/join.py
index debacd6..d14be60 100644
--- a/src/keri/cli/commands/ipex/join.py
+++ b/src/keri/cli/commands/ipex/join.py
@@ -10,7 +10,7 @@ import argparse
 from hio.base import doing
 from hio.help import ogler
 
-from ...common import setupHby, parseVersion
+from ...common import Parsery, setupHby, parseVersion
 
 from .... import Vrsn_1_0
 from ....app import (HaberyDoer, MailboxDirector, WitnessInquisitor,
@@ -25,7 +25,8 @@ from ....vdr import Verifier, Regery, Registrar, Credentialer
 
 logger = ogler.getLogger()
 
-parser = argparse.ArgumentParser(description='Join group multisig ipex events')
+parser = argparse.ArgumentParser(description='Join group multisig ipex events',
+                                 parents=[Parsery.keystore()])
 parser.set_defaults(handler=lambda args: join(args))
 parser.add_argument("--auto", "-Y", help="auto approve any delegation request non-interactively", action="store_true")
 parser.add_argument('--version', default=None, required=False, type=parseVersion,
-- 
2.43.0

