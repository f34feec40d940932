From 047d449fceab237377b7967f5c61460e12206c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 01/81] fix: mark web sub db dirty on set append and ordinal
 set removal

---
 src/keri/db/webdbing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index d9f55ba..5458318 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1591,6 +1591,7 @@ class WebDBer:
                     f"Failed appending {val=} at {key=} {on=} offset {ion=}."
                 )
             items[iokey] = val
+        db.dirty = True
 
         return on
 
@@ -1781,6 +1782,8 @@ class WebDBer:
         for iokey in toDelete:
             del items[iokey]
             result = True
+        if result:
+            db.dirty = True
 
         return result
 
-- 
2.43.0


From ec08ca1bfc34566a33cdc37303c53b631c3598bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 02/81] fix: do not lose changes made to a web sub db while its
 flush is pending

---
 src/keri/db/webdbing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 5458318..8007c18 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -320,10 +320,16 @@ class WebDBer:
         for subdb in self._stores.values():
             if not subdb.dirty:
                 continue
-            subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
-            subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
-            await subdb.handle.sync()
+            # clear before awaiting so a change made while sync is pending
+            # marks the store dirty again, restore when sync does not complete
             subdb.dirty = False
+            try:
+                subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
+                subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
+                await subdb.handle.sync()
+            except BaseException:
+                subdb.dirty = True
+                raise
             count += 1
         return count
 
-- 
2.43.0


From e7496dbe6b071aa4c97359bb1809866ca6acf216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 03/81] fix: append a set without repeated values in insertion
 ordered set stores

---
 src/keri/db/dbing.py    | 2 +-
 src/keri/db/webdbing.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 760c527..28e8621 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1641,7 +1641,7 @@ class LMDBer(filing.Filer):
                     # else no earlier key so create zeroth entry at key
 
             onkey = onKey(key, on, sep=sep)  # create onkey at on
-            for ion, val in enumerate(vals):
+            for ion, val in enumerate(oset(vals)):
                 iokey = suffix(onkey, ion=ion, sep=sep) # create suffix key
                 if not cursor.put(iokey, val, overwrite=False):
                     raise  ValueError(f"Failed appending {val=} at {key=} {on=} "
diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 8007c18..3e4433d 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1590,7 +1590,7 @@ class WebDBer:
 
         onkey = onKey(key, on, sep=sep)
 
-        for ion, val in enumerate(vals):
+        for ion, val in enumerate(oset(vals)):
             iokey = suffix(onkey, ion=ion, sep=sep)
             if iokey in items:
                 raise ValueError(
-- 
2.43.0


From ec601369e81916e03de9ba364b13b012fd11bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 04/81] fix: count repeated signatures of one key or witness
 only once

---
 src/keri/core/coring.py   | 2 +-
 src/keri/core/eventing.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 006fbd7..fa0791b 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4661,7 +4661,7 @@ class Tholder:
         Parameters:
             indices: list of indices (offsets into key list) of verified signatures"""
         try:
-            if self.thold > 0 and len(indices) >= self.thold:  # at least one
+            if self.thold > 0 and len(set(indices)) >= self.thold:  # at least one
                 return True
 
         except Exception as ex:
diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b500346..6584887 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -353,7 +353,8 @@ def verifySigs(raw, sigers, verfers):
     vsigers = []
     for siger in uvsigers:
         if siger.verfer.verify(siger.raw, raw):
-            vindices.append(siger.index)
+            if siger.index not in vindices:  # same key counts only once
+                vindices.append(siger.index)
             vsigers.append(siger)
 
     return (vsigers, vindices)
-- 
2.43.0


From d0c01573f1d1b7800cf5377e185409cb14e77c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 05/81] fix: evaluate delegated recovery rules instead of
 failing on missing attribute

---
 src/keri/core/eventing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 6584887..a895e90 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3426,8 +3426,9 @@ class Kever:
             # Only get to here if same sn for delegated event and both
             # existing and superseding delegated events are rotations
             if (bossn.sn > bosso.sn or  # superseding delgation is later or
-                (bossn.Ilk == Ilks.drt and  # superseding  delegation is rotation and
-                 bosso.Ilk == Ilks.ixn) ): # superseded delegation is interaction
+                (bossn.sn == bosso.sn and  # same sn and
+                 bossn.ilk in (Ilks.rot, Ilks.drt) and  # superseding  delegation is rotation and
+                 bosso.ilk == Ilks.ixn) ): # superseded delegation is interaction
                     # valid superseding delegation up chain so tail link valid
                     return (delsner, delsger)  # tail event's delegation source
 
-- 
2.43.0


From f7479aadcf8fb4bfd70c8ecab58f9f1378b10841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 06/81] fix: format sequence number of stale reply signature
 groups as hex

---
 src/keri/core/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index d2b9b27..7e3ab0c 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -409,7 +409,7 @@ class Revery:
                         snr.sn == snumber.sn and dgr.qb64 != sdiger.qb64
                     ):
                         self.db.tsgs.trim(
-                            keys=(prr.qb64, f"{snr.sn:032h}", dgr.qb64, "")
+                            keys=(prr.qb64, f"{snr.sn:032x}", dgr.qb64, "")
                         )
 
                 accepted = True
-- 
2.43.0


From 0bc5bf232298c13885d3b47f81d7a403f542c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 07/81] fix: apply witness cuts and adds of recovery rotations

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index a895e90..9e0b369 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2699,7 +2699,7 @@ class Kever:
 
         Parameters:
             serder (SerderKeri): instance of current event"""
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.sn >= serder.sn:  # no changes
+        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.lastEst.s >= serder.sn:  # no changes
             return self.wits, self.cuts, self.adds
 
         witset = oset(self.wits)
-- 
2.43.0


From 168485f4790c4fff104e1d615c25110627921d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 08/81] fix: missing comma in truthy values

---
 src/keri/help/helping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/help/helping.py b/src/keri/help/helping.py
index 1b4722d..9987b9b 100644
--- a/src/keri/help/helping.py
+++ b/src/keri/help/helping.py
@@ -18,7 +18,7 @@ import pysodium
 # x not in TRUTHY
 # x in TRUTHY
 FALSEY = (False, 0, None, "?0", "no", "false", "False", "off")
-TRUTHY = (True, 1, "?1", "yes" "true", "True", 'on')
+TRUTHY = (True, 1, "?1", "yes", "true", "True", 'on')
 
 
 # Utilities
-- 
2.43.0


From 05719dcd208b3d062b2ea5a6d52fa52edc6f71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 09/81] fix: trim stale reply signature groups under the reply
 they belong to

---
 src/keri/core/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 7e3ab0c..27a76ec 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -409,7 +409,7 @@ class Revery:
                         snr.sn == snumber.sn and dgr.qb64 != sdiger.qb64
                     ):
                         self.db.tsgs.trim(
-                            keys=(prr.qb64, f"{snr.sn:032x}", dgr.qb64, "")
+                            keys=(saider.qb64, prr.qb64, f"{snr.sn:032x}", dgr.qb64, "")
                         )
 
                 accepted = True
-- 
2.43.0


From ba750f2671dce96e36ef47951e5f2a97b03ba54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 10/81] fix: report spec example blocks whose body or keys made
 the checker crash

---
 tools/check_spec_examples.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tools/check_spec_examples.py b/tools/check_spec_examples.py
index 46a5811..3adead7 100644
--- a/tools/check_spec_examples.py
+++ b/tools/check_spec_examples.py
@@ -65,12 +65,13 @@ def _load_block_body(lang, body):
     if lang.lower() == "json":
         try:
             return json.loads(body)
-        except json.JSONDecodeError as ex:
+        except (json.JSONDecodeError, RecursionError) as ex:
             raise ValueError(f"spec JSON block does not parse: {ex}") from ex
     # python fence -> ast literal parse (safe: literals only, no execution)
     try:
         return ast.literal_eval(body)
-    except (ValueError, SyntaxError) as ex:
+    except (ValueError, SyntaxError, TypeError, MemoryError,
+            RecursionError) as ex:
         raise ValueError(f"spec python block does not parse: {ex}") from ex
 
 
@@ -113,11 +114,11 @@ def _diff_paths(expected, actual, path=""):
 
     if isinstance(expected, dict):
         e_keys, a_keys = set(expected), set(actual)
-        for k in sorted(e_keys - a_keys):
+        for k in sorted(e_keys - a_keys, key=str):
             yield f"{path}.{k}".lstrip(".") + ": missing in spec"
-        for k in sorted(a_keys - e_keys):
+        for k in sorted(a_keys - e_keys, key=str):
             yield f"{path}.{k}".lstrip(".") + ": unexpected in spec"
-        for k in sorted(e_keys & a_keys):
+        for k in sorted(e_keys & a_keys, key=str):
             child = f"{path}.{k}".lstrip(".")
             yield from _diff_paths(expected[k], actual[k], child)
         return
-- 
2.43.0


From 284b740e83010ee2b9ce6d70359c9b0c165556f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 11/81] fix: do not tag a spec example again when its marker is
 already used

---
 tools/tag_spec_examples.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/tag_spec_examples.py b/tools/tag_spec_examples.py
index 584e7f3..0065f86 100644
--- a/tools/tag_spec_examples.py
+++ b/tools/tag_spec_examples.py
@@ -29,7 +29,7 @@ import sys
 
 _OPEN_RE = re.compile(r"^[ \t]*```[ \t]*(json|python)[ \t]*$", re.IGNORECASE)
 _CLOSE_RE = re.compile(r"^[ \t]*```[ \t]*$")
-_MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*[^>]*-->\s*$")
+_MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*([^>]*?)\s*-->\s*$")
 
 
 def _parse_body(lang, body):
@@ -76,12 +76,13 @@ def tag(manifest, text):
     inserts = []          # (open_idx, name)
     tagged = []
     warnings = []
-    used = set()
+    used = {m.group(1) for m in map(_MARKER_RE.match, lines) if m}
 
     for open_idx, close_idx, lang, body in blocks:
         try:
             value = _parse_body(lang, body)
-        except (ValueError, SyntaxError, json.JSONDecodeError):
+        except (ValueError, SyntaxError, TypeError, MemoryError,
+                RecursionError):
             continue
         if not isinstance(value, dict):
             continue
@@ -97,7 +98,7 @@ def tag(manifest, text):
             continue
         if name in used:
             warnings.append(f"line {open_idx + 1}: manifest block '{name}' "
-                            f"already tagged on an earlier fence; skipped")
+                            f"already tagged on another fence; skipped")
             continue
         used.add(name)
         inserts.append((open_idx, name))
-- 
2.43.0


From 7ce2cd2995253b5d50e6ac652cb29f826d928ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 12/81] fix: signatures of keys without weight do not defeat a
 weighted threshold

---
 src/keri/core/coring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index fa0791b..de9662d 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4687,7 +4687,8 @@ class Tholder:
             indices = sorted(set(indices))
             sats = [False] * self.size  # default all satifactions to False
             for idx in indices:
-                sats[idx] = True  # set verified signature index to True
+                if 0 <= idx < self.size:  # ignore when no weight at index
+                    sats[idx] = True  # set verified signature index to True
 
             wio = 0  # weight index offset
             for clause in self.thold:
-- 
2.43.0


From b348816917825831e27a686314c7b8667c83bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 13/81] fix: escrow likely duplicitous events instead of
 failing on a missing method

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 9e0b369..8e93265 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5813,7 +5813,7 @@ class Kevery:
         self.db.dtss.put(keys=dgkey, val=Dater())
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        self.db.addLde(snKey(serder.preb, serder.sn), serder.saidb)
+        self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
         # log duplicitous
         logger.debug("Kevery process: escrowed likely duplicitous event=\n%s\n", serder.pretty())
 
-- 
2.43.0


From a666493f41ff91e6baabaf6398c286ddf74406ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 14/81] fix: accept witness cuts listed in another order than
 the witness list

---
 src/keri/core/eventing.py | 6 +++---
 src/keri/vdr/eventing.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 8e93265..f11bf50 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -802,7 +802,7 @@ def rotate(pre,
     if len(cutset) != len(cuts):
         raise ValueError(f"Invalid cuts = {cuts}, has duplicates.")
 
-    if (witset & cutset) != cutset:  # some cuts not in wits
+    if not cutset <= witset:  # some cuts not in wits
         raise ValueError(f"Invalid cuts = {cuts}, not all members in wits.")
 
     adds = adds if adds is not None else []
@@ -2709,7 +2709,7 @@ class Kever:
             raise ValidationError("Invalid cuts = {cuts}, has duplicates for "
                                   f"evt = {serder.ked}.")
 
-        if (witset & cutset) != cutset:  # some cuts not in wits
+        if not cutset <= witset:  # some cuts not in wits
             raise ValidationError(f"Invalid cuts = {cuts}, not all members in "
                                   f"wits for evt = {serder.ked}.")
 
@@ -7150,7 +7150,7 @@ class Kevery:
                 if len(cutset) != len(cuts):
                     raise ValidationError("Invalid cuts={}, has duplicates "
                                           "for evt={}.".format(cuts, serder.ked))
-                if (witset & cutset) != cutset:  # some cuts not in wits
+                if not cutset <= witset:  # some cuts not in wits
                     raise ValidationError("Invalid cuts={}, not all members "
                                           "in wits for evt={}.".format(cuts, serder.ked))
                 if len(addset) != len(adds):
diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index b3531b2..0c1f933 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -167,7 +167,7 @@ def rotate(
     if len(cutset) != len(cuts):
         raise ValueError("Invalid cuts = {}, has duplicates.".format(cuts))
 
-    if (bakset & cutset) != cutset:  # some cuts not in wits
+    if not cutset <= bakset:  # some cuts not in wits
         raise ValueError("Invalid cuts = {}, not all members in baks.".format(cuts))
 
     adds = adds if adds is not None else []
@@ -964,7 +964,7 @@ class Tever:
             raise ValidationError("Invalid cuts = {}, has duplicates for evt = "
                                   "{}.".format(cuts, ked))
 
-        if (witset & cutset) != cutset:  # some cuts not in baks
+        if not cutset <= witset:  # some cuts not in baks
             raise ValidationError("Invalid cuts = {}, not all members in baks"
                                   " for evt = {}.".format(cuts, ked))
 
-- 
2.43.0


From 98b6dcb1323bdca3797206f86fee20a3ee94737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 15/81] fix: reloaded key states have no cues to push a query
 to

---
 src/keri/core/eventing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index f11bf50..48ad98f 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2897,7 +2897,8 @@ class Kever:
                                           delsner=delsner, delsger=delsger,
                                           local=local):
                         # cue to query for witness receipts
-                        self.cues.push(dict(kin="query", q=dict(pre=serder.pre, sn=serder.snh)))
+                        if self.cues is not None:  # None when reloaded from state
+                            self.cues.push(dict(kin="query", q=dict(pre=serder.pre, sn=serder.snh)))
                     msg = (f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying toad={toader.num} "
                            f"on witness sigs {[siger.qb64 for siger in wigers]} "
                            f"for event={serder.said}")
@@ -3322,7 +3323,8 @@ class Kever:
                 # Have to wait until delegating event at sn shows up in kel
                 # ToDo XXXX process  this cue of query to fetch delegating event from
                 # delegator
-                self.cues.push(dict(kin="query", q=dict(pre=delpre,
+                if self.cues is not None:  # None when reloaded from state
+                    self.cues.push(dict(kin="query", q=dict(pre=delpre,
                                                                   sn=delsner.numh,
                                                                   dig=delsger.qb64)))
                 #  escrow event here
-- 
2.43.0


From b0d22b3b43eb9497b58ab7fff7dab953ec3a9cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 16/81] fix: seals in superseded events of a recovered
 delegator do not anchor

---
 src/keri/core/eventing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 48ad98f..f3ef878 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3318,7 +3318,11 @@ class Kever:
             # get the dig of the delegating event. Using getKeLast ensures delegating
             #  event has not already been superceded
             # get dig of last delegating event purported at sn
-            raw = self.db.kels.getLast(keys=delpre, on=ssn)  # last means not disputed or superseded
+            # last event at sn later than that of delegator's key state was superseded
+            # by recovery at an earlier sn
+            raw = None
+            if ssn <= dkever.sner.num:
+                raw = self.db.kels.getLast(keys=delpre, on=ssn)  # last means not disputed or superseded
             if raw is None:  # no delegatint event yet. no index at key pre, sn
                 # Have to wait until delegating event at sn shows up in kel
                 # ToDo XXXX process  this cue of query to fetch delegating event from
-- 
2.43.0


From fc5b06c6ca3efd7d29f4aa69838ded3d783cba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 17/81] fix: superseding delegated rotations rotate from the
 prior establishment event

---
 src/keri/core/eventing.py | 97 +++++++++++++++++++++++++++++----------
 src/keri/db/basing.py     |  8 ++++
 2 files changed, 81 insertions(+), 24 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index f3ef878..0bea6b8 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2623,6 +2623,10 @@ class Kever:
                                                                    ked))
 
             else:  # recovery event rot sn > self.lastEst.s or drt sn = self.lastEst.s
+                if sner.num < 1:  # inception can't be superseded
+                    raise ValidationError(f"Invalid recovery attempt: Bad sn = "
+                                          f"{sner.num} for event = {ked}.")
+
                 if ilk == Ilks.rot and self.ilk != Ilks.ixn:  # rot recovery  may only override ixn state
                     raise ValidationError("Invalid recovery attempt: Recovery"
                                           "at ilk = {} not ilk = {} for evt"
@@ -2672,7 +2676,9 @@ class Kever:
         # use ordered set math ops to verify and ensure strict ordering of wits
         # cuts and add to ensure that indexed signatures on indexed witness
         # receipts work
-        wits, cuts, adds = self.deriveBacks(serder)
+        # relative to the prior est event when serder supersedes latest est event
+        _, _, pwits = self.fetchCommitted(serder)
+        wits, cuts, adds = self.deriveBacks(serder, wits=pwits)
 
         toader = serder.bner # Number(num=ked["bt"])  # auto converts hex num to int
         if wits:
@@ -2687,7 +2693,30 @@ class Kever:
         return tholder, toader, wits, cuts, adds
 
 
-    def deriveBacks(self, serder):
+    def fetchCommitted(self, serder):
+        """Returns tuple (ndigers, ntholder, wits) which rotation event serder
+        rotates from. These are those of the current key state except when serder
+        supersedes the latest establishment event itself (superseding delegated
+        rotation) in which case these are those of the establishment event
+        prior to the superseded one.
+
+        Parameters:
+            serder (SerderKeri): instance of rotation event"""
+        if serder.sn > self.lastEst.s:  # does not supersede latest est event
+            return (self.ndigers, self.ntholder, self.wits)
+
+        pre = self.prefixer.qb64
+        for dig in self.db.kels.getBackIter(keys=pre, on=serder.sn - 1):
+            if ((eserder := self.db.evts.get(keys=(pre, dig))) is not None and
+                    eserder.estive):
+                wits = [wit.qb64 for wit in self.db.wits.get(keys=(pre, dig))]
+                return (eserder.ndigers, eserder.ntholder, wits)
+
+        raise ValidationError(f"Missing prior establishment event for superseding"
+                              f" evt = {serder.ked}.")
+
+
+    def deriveBacks(self, serder, wits=None):
         """Derives and return tuple of (wits, cuts, adds) for backers  given
         current set and any changes provided by serder.
 
@@ -2698,11 +2727,16 @@ class Kever:
             adds (list[str]): prefixes of witnesses added in latest est evt
 
         Parameters:
-            serder (SerderKeri): instance of current event"""
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.lastEst.s >= serder.sn:  # no changes
-            return self.wits, self.cuts, self.adds
-
-        witset = oset(self.wits)
+            serder (SerderKeri): instance of current event
+            wits (list[str] | None): prefixes of witnesses serder rotates from.
+                None means .wits when serder is later than latest est event"""
+        if wits is None:
+            if serder.ilk not in (Ilks.rot, Ilks.drt) or self.lastEst.s >= serder.sn:  # no changes
+                return self.wits, self.cuts, self.adds
+            wits = self.wits
+
+        priors = wits
+        witset = oset(priors)
         cuts = serder.cuts
         cutset = oset(cuts)
         if len(cutset) != len(cuts):
@@ -2724,14 +2758,14 @@ class Kever:
                                   f"for evt = {serder.ked}.")
 
         if witset & addset:  # non empty intersection
-            raise ValidationError(f"Intersecting wits = {self.wits} and  adds ="
+            raise ValidationError(f"Intersecting wits = {priors} and  adds ="
                                   f"{adds} for evt = {serder.ked}.")
 
         wits = list((witset - cutset) | addset)
 
-        if len(wits) != (len(self.wits) - len(cuts) + len(adds)):  # redundant?
+        if len(wits) != (len(priors) - len(cuts) + len(adds)):  # redundant?
             raise ValidationError(f"Invalid member combination among wits = "
-                                  f"{self.wits}, cuts ={cuts}, and adds = "
+                                  f"{priors}, cuts ={cuts}, and adds = "
                                   f"{adds,} for evt = {serder.ked}.")
         return (wits, cuts, adds)
 
@@ -2860,12 +2894,14 @@ class Kever:
         # escrow if not fully signed vs prior next rotation threshold
         if serder.ilk in (Ilks.rot, Ilks.drt):  # rotation so check prior next threshold
             # prior next threshold in .ntholder and digers in .ndigers
-            ondices = self.exposeds(sigers)
-            if not self.ntholder.satisfy(indices=ondices):
+            # or of prior est event when superseding latest est event
+            ndigers, ntholder, _ = self.fetchCommitted(serder)
+            ondices = self.exposeds(sigers, ndigers=ndigers)
+            if not ntholder.satisfy(indices=ondices):
                 self.escrowPSEvent(serder=serder, sigers=sigers, wigers=wigers,
                                    delsner=delsner, delsger=delsger,local=local)
                 msg = (
-                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {self.ntholder.sith} "
+                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {ntholder.sith} "
                     f"with exposed sigs {[siger.qb64 for siger in sigers]} "
                     f"for new est evt={serder.said}")
                 logger.trace(msg)
@@ -2948,7 +2984,7 @@ class Kever:
 
 
 
-    def exposeds(self, sigers):
+    def exposeds(self, sigers, ndigers=None):
         """Returns list of ondices (indices) suitable for Tholder.satisfy
         from self.ndigers (prior next key digests ) as exposed by event sigers.
         Uses dual index feature of siger. Assumes that each siger.verfer is
@@ -2975,11 +3011,14 @@ class Kever:
         digests defined by the rotation event.
 
         Parameters:
-            sigers (list): of Siger instances  of indexed signature with .verfer"""
+            sigers (list): of Siger instances  of indexed signature with .verfer
+            ndigers (list | None): of prior next Diger instances. None means
+                use .ndigers"""
+        ndigers = ndigers if ndigers is not None else self.ndigers
         odxs = []
         for siger in sigers:
             try:
-                diger = self.ndigers[siger.ondex]
+                diger = ndigers[siger.ondex]
             except TypeError as ex:  # ondex may be None
                 continue
             except IndexError as ex:
@@ -3401,10 +3440,8 @@ class Kever:
         # via Kever.logEvent which also writes the delgating event source couple to
         # db.aess so we can find it later
         if ((serder.ilk == Ilks.dip) or  # superseding is delegated inception or
-            (serder.sner.num == self.sner.num + 1) or  # superseding is inorder later or
-            (serder.sner.num == self.sner.num and  # superseding event at same sn and
-                self.ilk == Ilks.ixn and  # superseded is interaction and
-                serder.ilk == Ilks.drt)):  # superseding is rotation
+            (serder.sner.num > self.lastEst.s)):  # inorder later or rotation
+                    # superseding interaction not before any other rotation
                     return (delsner, delsger) # indicates delegation valid
 
         # get to here means drt rotation superseding another drt rotation
@@ -3414,7 +3451,11 @@ class Kever:
 
         # set up recursive search for superseding delegations
         # get original potentially superseded delegation
-        serfo = self.serder  # original accepted delegated event i.e. serf original
+        # i.e. latest est event which may be followed by interactions
+        # original accepted delegated event i.e. serf original
+        if (serfo := self.db.evts.get(keys=(serder.pre, self.lastEst.d))) is None:
+            raise ValidationError(f"Missing superseded event {self.lastEst.d} for "
+                                  f"evt {serder.sn} {serder.ilk} {serder.said}")
         if not (bosso := self.fetchDelegatingEvent(delpre, serfo, original=True,
                                                    eager=eager)):
             self.escrowPDEvent(serder=serder, sigers=sigers, wigers=wigers,
@@ -3427,6 +3468,7 @@ class Kever:
         # already have new potential superseding delegation
         serfn = serder  # new potentially superseding delegated event i.e. serf new
         bossn = dserder # new delegating event of superseding delegated event i.e. boss new
+        bpre = delpre  # delegator prefix of boss new and boss original
 
         while (True):  # superseding delegated rotation of rotation recovery rules
             # Only get to here if same sn for delegated event and both
@@ -3465,8 +3507,14 @@ class Kever:
                     raise ValidationError(msg)
 
             # tie condition same sn and drt so need to climb delegation chain
+            # to delegator of delegator
+            bpre = self.kevers[bpre].delpre if bpre in self.kevers else None
+            if not bpre:  # reached root KEL without satisfaction so discard
+                msg = f"Invalid delegation recovery rotation of {serfo.pre} by {serfn.pre}"
+                logger.info(msg)
+                raise ValidationError(msg)
             serfn = bossn
-            if not (bossn := self.fetchDelegatingEvent(delpre, serfn,
+            if not (bossn := self.fetchDelegatingEvent(bpre, serfn,
                                                        original=False,
                                                        eager=eager)):
                 self.escrowPDEvent(serder=serder, sigers=sigers, wigers=wigers,
@@ -3477,7 +3525,7 @@ class Kever:
                 logger.debug("Event Body=\n%s\n", serder.pretty())
                 raise MissingDelegationError(msg)
             serfo = bosso
-            if not (bosso := self.fetchDelegatingEvent(delpre, serfo,
+            if not (bosso := self.fetchDelegatingEvent(bpre, serfo,
                                                        original=True,
                                                        eager=eager)):
                 self.escrowPDEvent(serder=serder, sigers=sigers, wigers=wigers,
@@ -4380,7 +4428,8 @@ class Kevery:
                       (ilk == Ilks.rot and  # superseding recovery rot or
                         kever.lastEst.s < sn <= sno) or
                       (ilk == Ilks.drt and #exts['sigers'].extend(result) delegated superseding recovery drt
-                        kever.lastEst.s <= sn <= sno)):
+                        kever.lastEst.s <= sn <= sno and
+                        kever.lastEst.d != said)):  # not already accepted
 
                     # verify signatures etc and update state if valid
                     # raise exception if problem.
diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 6de2d91..b976dc8 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2161,6 +2161,11 @@ class Baser(LMDBer):
         if hasattr(pre, 'encode'):
             pre = pre.encode("utf-8")
 
+        # last events at sn later than that of current key state if any were
+        # superseded by recovery at an earlier sn
+        state = self.states.get(keys=pre)
+        last = int(state.s, 16) if state is not None else None
+
         for dig in self.kels.getLastIter(keys=pre, on=sn):
             try:
 
@@ -2170,6 +2175,9 @@ class Baser(LMDBer):
             except Exception:
                 continue  # skip this event
 
+            if last is not None and serder.sn > last:
+                break  # superseded
+
             yield serder  # event as Serder
 
 
-- 
2.43.0


From f41826df454db1b596ff89ca300098b49aa4db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 18/81] fix: refuse threshold maps and nested weights that are
 not lists of strings

---
 src/keri/core/coring.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index de9662d..23470c4 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4503,6 +4503,9 @@ class Tholder:
             if not sith:  # empty or None
                 raise ValueError(f"Empty weight list = {sith}.")
 
+            if not isNonStringSequence(sith):  # such as map
+                raise ValueError(f"Invalid sith = {sith} not weight list.")
+
             # is it non str sequence of sequences? or non str sequnce of strs?
             # must test for emply mask because all([]) == True
             mask = [isNonStringSequence(c) for c in sith]  # check each element
@@ -4530,6 +4533,11 @@ class Tholder:
                             raise ValueError(f"Invalid sith = {sith} nested "
                                              f"weight map {e} in clause {c} "
                                              f" not single key value.")
+                        if (not isNonStringSequence(list(e.values())[0]) or
+                                not all(isinstance(w, str) for w in list(e.values())[0])):
+                            raise ValueError(f"Invalid sith = {sith} nested "
+                                             f"weights {e} in clause {c} not "
+                                             f"list of strings.")
                         k = list(e)[0]  # zeroth key is used
                         # convert to tuple of (weight, [list of weights])
                         clause.append((self.weight(k), [self.weight(w) for w in e[k]]))
-- 
2.43.0


From 73b31f624789ab2c7342c69815b199a4864b4d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 19/81] fix: refuse out of range ordinals in database keys

---
 src/keri/db/dbing.py    | 4 ++++
 src/keri/db/webdbing.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 28e8621..0384f7d 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -119,6 +119,8 @@ def onKey(top, on, *, sep=b'.'):
         sep (bytes): separator character for join"""
     if hasattr(top, "encode"):
         top = top.encode("utf-8")  # convert str to bytes
+    if not 0 <= on <= MaxON:  # would break ordering of keys
+        raise ValueError(f"Ordinal on={on} not between 0 and {MaxON}.")
     return (b'%s%s%032x' % (top, sep, on))
 
 
@@ -250,6 +252,8 @@ def suffix(key: Union[bytes, str, memoryview], ion: int, *, sep: Union[bytes, st
         key = key.encode("utf-8")  # encode str to bytes
     if hasattr(sep, "encode"):
         sep = sep.encode("utf-8")
+    if not 0 <= ion <= MaxON:  # would break ordering of keys
+        raise ValueError(f"Ordinal ion={ion} not between 0 and {MaxON}.")
     ion =  b"%032x" % ion
     return sep.join((key, ion))
 
diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 3e4433d..64f2e25 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -40,6 +40,8 @@ def onKey(top, on, *, sep=b'.'):
     """
     if hasattr(top, "encode"):
         top = top.encode("utf-8")
+    if not 0 <= on <= MaxON:  # would break ordering of keys
+        raise ValueError(f"Ordinal on={on} not between 0 and {MaxON}.")
     return (b'%s%s%032x' % (top, sep, on))
 
 
@@ -98,6 +100,8 @@ def suffix(key: Union[bytes, str, memoryview], ion: int, *, sep: Union[bytes, st
         key = key.encode("utf-8")  # encode str to bytes
     if hasattr(sep, "encode"):
         sep = sep.encode("utf-8")
+    if not 0 <= ion <= MaxON:  # would break ordering of keys
+        raise ValueError(f"Ordinal ion={ion} not between 0 and {MaxON}.")
     ion =  b"%032x" % ion
     return sep.join((key, ion))
 
-- 
2.43.0


From a3f9c425382a636bc95760c5ccbe213d9449aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 20/81] fix: refuse version strings with trailing characters

---
 src/keri/kering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/kering.py b/src/keri/kering.py
index ce74825..9ea98cd 100644
--- a/src/keri/kering.py
+++ b/src/keri/kering.py
@@ -203,7 +203,7 @@ def deversify(vs):
     if hasattr(vs, "encode"):   # match takes bytes
         vs = vs.encode("utf-8")
 
-    match = Rever.match(vs)
+    match = Rever.fullmatch(vs)
     if not match:
         raise VersionError(f"Invalid version string = '{vs}'.")
 
-- 
2.43.0


From ac1c361b6c5eb374ed1a3ce176eef54768b7c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 21/81] fix: wait for the whole code of a primitive before
 reading its soft part

---
 src/keri/core/coring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 23470c4..0516545 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1381,6 +1381,9 @@ class Matter:
         # when fs is None then ss > 0 otherwise fs > hs + ss when ss > 0
 
 
+        if len(qb64b) < cs:  # need more chars for full code
+            raise ShortageError(f"Need {cs - len(qb64b)} more characters.")
+
         # extract soft chars including xtra, empty when ss==0 and xs == 0
         # assumes that when ss == 0 then xs must be 0
         soft = qb64b[hs:hs+ss]
-- 
2.43.0


From e641cd4baf0d87212fab113f18f3b298d81ebff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 22/81] fix: refuse primitives with characters that are not
 Base64URL

---
 src/keri/core/coring.py   | 3 +++
 src/keri/core/indexing.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 0516545..42ffe85 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1409,6 +1409,9 @@ class Matter:
         if hasattr(qb64b, "encode"):  # only convert extracted chars from stream
             qb64b = qb64b.encode()  # converts str to bytes
 
+        if not Reb64.match(qb64b):  # decodeB64 discards or maps other chars
+            raise ConversionError(f"Non Base64 chars in material = {qb64b}")
+
         # check for non-zeroed pad bits and/or lead bytes
         # net prepad ps == cs % 4 (remainer).  Assumes ps != 3 i.e ps in (0,1,2)
         # To ensure number of prepad bytes and prepad chars are same.
diff --git a/src/keri/core/indexing.py b/src/keri/core/indexing.py
index d5ff4aa..102afd4 100644
--- a/src/keri/core/indexing.py
+++ b/src/keri/core/indexing.py
@@ -15,7 +15,7 @@ from ..kering import (EmptyMaterialError, RawMaterialError, InvalidCodeSizeError
                       UnexpectedCountCodeError, UnexpectedOpCodeError)
 
 from ..help import (sceil, intToB64, b64ToInt,
-                    codeB64ToB2, codeB2ToB64, nabSextets)
+                    codeB64ToB2, codeB2ToB64, nabSextets, Reb64)
 
 
 @dataclass(frozen=True)
@@ -598,6 +598,9 @@ class Indexer:
         if hasattr(qb64b, "encode"):  # only convert extracted chars from stream
             qb64b = qb64b.encode("utf-8")
 
+        if not Reb64.match(qb64b):  # decodeB64 discards or maps other chars
+            raise ConversionError(f"Non Base64 chars in material = {qb64b}")
+
         # strip off prepended code and append pad characters
         #ps = cs % 4  # pad size ps = cs mod 4, same pad chars and lead bytes
         #base = ps * b'A' + qb64b[cs:]  # replace prepend code with prepad zeros
-- 
2.43.0


From c6e0b20bdcc09ce02013297e4a3948b6679a1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 23/81] fix: keep the sign of positive exponents of decimal
 primitives

---
 src/keri/core/coring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 42ffe85..11bbb48 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1925,7 +1925,7 @@ class Decimer(Matter):
         Decimal_Big_L0: str = '7AAH'  # Decimal B64string float and int big lead size 0
         Decimal_Big_L1: str = '8AAH'  # Decimal B64string float and int big lead size 1
         Decimal_Big_L2: str = '9AAH'  # Decimal B64string float and int big lead size 2"""
-    ToB64 = str.maketrans(".", "p")  #  translate characters
+    ToB64 = str.maketrans(".", "p", "+")  #  translate characters
     FromB64 = str.maketrans("p", ".")  #  translate characters
 
     def __init__(self, raw=None, qb64b=None, qb64=None, qb2=None,
-- 
2.43.0


From 5ae486443c37665b139c781da999b1b963d260d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 24/81] fix: refuse messages whose digest field is not a digest

---
 src/keri/core/serdering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index b74848d..6f4c787 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -826,6 +826,9 @@ class Serder:
 
             if saids[label] in DigDex:  # if digestive then replace with dummy
                 sad[label] = self.Dummy * len(sad[label])
+            elif label != Saids.i:  # only identifier prefix may be nondigestive
+                raise ValidationError(f"Nondigestive said field '{label}' in sad\n"
+                                      f" = {self._sad}.")
 
         return (sad, saids)
 
-- 
2.43.0


From 8eeb9e7e9beea50983760d94f573abed387db4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 25/81] fix: read only the announced bytes of a binary native
 message

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 6f4c787..93d8867 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1194,7 +1194,7 @@ class Serder:
                     sraw = raw[:ss]  # only copy enough bytes for serder
                     if strip and isinstance(raw, bytearray):
                         del raw[:ss]
-                    sraw = encodeB64(raw)  # loads expects Base64 text domain
+                    sraw = encodeB64(sraw)  # loads expects Base64 text domain
                 elif cold == Colds.txt:
                     ctr = Counter(qb64b=raw)
                     ss = ctr.byteCount(cold=cold) + ctr.byteSize(cold=cold)
-- 
2.43.0


From 3cfcbd60bc5445988b3f0e4dfda335d5aa68295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 26/81] fix: refuse wrong saids in expanded ACDC sections and
 uncompactable nested blocks

---
 src/keri/core/mapping.py   |  3 +++
 src/keri/core/serdering.py | 42 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 4a4a6a8..4ce0f7e 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -1103,6 +1103,9 @@ class Compactor(Mapper):
                 mad, tail = self.getMad(path)
                 if mad is not None and tail is not None:
                     mad[tail] = leafer.said  # assign primary said to compact
+                elif path:  # nested block not at its path, can't ever compact
+                    raise InvalidValueError(f"Uncompactable nested block at "
+                                            f"{path=}.")
 
             if not paths or self.iscompact:  # either no leaves or compact
                 break
diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 93d8867..fbbc54a 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -2875,6 +2875,8 @@ class SerderACDC(Serder):
             raise ValidationError(f"Invalid round trip of {sad} != \n"
                                   f"{self.sad}.")
 
+        self._verifySections(sad)
+
         # extract version string elements to verify consistency with attributes
         proto, pvrsn, kind, size, gvrsn = deversify(sad["v"])
         if self.proto != proto:
@@ -2917,6 +2919,46 @@ class SerderACDC(Serder):
 
 
 
+    def _verifySections(self, sad):
+        """Verifies that every said embedded in an uncompacted section of a
+        compactable message is the said of its block. The top-level said is that
+        of the most compact variant so does not itself cover these.
+
+        Raises a ValidationError (or subclass) if any verification fails
+
+        Parameters:
+            sad (dict): serder sad (self addressed data dict) to verify
+        """
+        if (self.pvrsn.major < 2 or self.ilk not in
+                (Ilks.acm, Ilks.act, Ilks.acg, Ilks.ace, None)):
+            return  # not compactable
+
+        for l in ("s", "a", "e", "r", "A"):
+            v = sad.get(l)
+            if not v or not isinstance(v, NonStringIterable):
+                continue  # empty or already compact
+
+            if l == "A":
+                try:
+                    Aggor(ael=v, verify=True, kind=self.kind)
+                except Exception as ex:
+                    raise ValidationError(f"Invalid aggregate section={l}.") from ex
+
+            elif l == "s":
+                sector = Compactor(mad=v, makify=True, strict=False,
+                                   saids={"$id": 'E',}, kind=self.kind)
+                if v.get("$id") != sector.mad.get("$id"):
+                    raise ValidationError(f"Invalid said in section={l}.")
+
+            else:
+                sector = Compactor(mad=v, makify=True, kind=self.kind)
+                sector.compact()  # leaves hold the computed saids
+                for path, leafer in sector.leaves.items():
+                    if sector.getTail(path, mad=v).get("d") != leafer.said:
+                        raise ValidationError(f"Invalid said in section={l}"
+                                              f" at {path=}.")
+
+
     def makify(self, sad, *, proto=None, pvrsn=None, genus=None, gvrsn=None,
                    kind=None, ilk=None, saids=None, compactify=False):
         """makify builds serder with valid properties and attributes. Computes
-- 
2.43.0


From 4a44bd4385fd774682f15f3f832a913736106d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 27/81] fix: malformed sized groups must not swallow what
 follows nor hang the parser

---
 src/keri/core/parsing.py | 71 +++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index a38acd2..f472f46 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -787,7 +787,7 @@ class Parser:
 
         self.version = version  # when not None which sets .methods .codes .mucodes .sucodes
 
-        stack = deque()  # (svrsn, ims) stack of nested substreams framed by generic groups
+        stack = deque()  # (svrsn, ims, framed) stack of nested substreams framed by generic groups
         svrsn = None
         eggs = None  # used in preflused error
         result = None
@@ -795,7 +795,7 @@ class Parser:
         try:
             while True:  # process stream until done
                 while not ims and stack:  # happens when ascending (un-nesting)
-                    svrsn, ims = stack.pop()  # un-nest
+                    svrsn, ims, framed = stack.pop()  # un-nest
                     self.version = svrsn  # only changes if svrsn is not None
 
                 if not ims:  # no stream
@@ -815,7 +815,10 @@ class Parser:
                         del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
                         # compute enclosing generic group size based on txt or bny
                         eggs = ctr.byteCount(cold=cold)
-                        while len(ims) < eggs and not framed:  # framed already in ims
+                        while len(ims) < eggs:
+                            if framed:  # framed already in ims
+                                raise ShortageError(f"Need {eggs - len(ims)} "
+                                                    f"more bytes for generic group")
                             yield
 
                         eims = ims[:eggs]  # copy out substream enclosed attachments
@@ -825,7 +828,7 @@ class Parser:
                         ctr = yield from self._extractor(ims=eims,
                                                         klas=Counter,
                                                         cold=cold,
-                                                        abort=framed,
+                                                        abort=True,
                                                         strip=False)
 
                         if ctr.code == self.codes.KERIACDCGenusVersion:
@@ -835,7 +838,7 @@ class Parser:
                         else:
                             svrsn == None  # no change to substream version
 
-                        stack.append((self.version, ims))  # push current version ims
+                        stack.append((self.version, ims, framed))  # push current version ims
                         self.version = svrsn  # replace with new version if not None
                         ims = eims  # replace ims to nest down one level
                         # top-level nested generics enclose messages plus attachments
@@ -861,6 +864,9 @@ class Parser:
                     # this is the normal way to handle it, so do not log
                     continue  # control thrown here to parse new generic group
 
+                except SizedGroupError as ex:  # erroneous group already stripped
+                    raise
+
                 except (ExtractionError, Exception) as ex:  # error while extracting
                     raise ExtractionError from ex
 
@@ -891,7 +897,7 @@ class Parser:
                     results.append(exts)
 
 
-        except ExtractionError as ex:  # maybe this needs to be more granular
+        except Exception as ex:  # maybe this needs to be more granular
             if logger.isEnabledFor(logging.TRACE):
                 logger.exception("GroupParsator error during extraction"
                                              " of msg+atc : %s", ex)
@@ -901,11 +907,13 @@ class Parser:
             if eggs is not None:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing generic group"
                                                  f" of size={eggs}")
-            raise  # no enclosing message group so can't preflush, must flush stream
+            if isinstance(ex, ExtractionError):
+                raise  # no enclosing message group so can't preflush, must flush stream
+            raise ExtractionError("Error extracting from stream") from ex
 
         finally:  # restore version at top level
             while stack:  # when tail end of group has validation error
-                svrsn, _ = stack.pop()
+                svrsn, _, _ = stack.pop()
                 if svrsn:
                     self.version = svrsn
         return result if processive else results
@@ -999,6 +1007,7 @@ class Parser:
                 yield
 
             emgs = None  # size of enclosing message group if any when is not None
+            eags = None  # size of enclosing attachment group if any when not None
             ctr = None  # no counter to process when not None then extracted need to process
 
             # Check for genus-version change
@@ -1034,7 +1043,10 @@ class Parser:
                     del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
                     # compute enclosing group size based on txt or bny
                     emgs = ctr.byteCount(cold=cold)
-                    while len(ims) < emgs and not framed:  # framed already in ims
+                    while len(ims) < emgs:
+                        if framed:  # framed already in ims
+                            raise ShortageError(f"Need {emgs - len(ims)} more "
+                                                f"bytes for message group")
                         yield
 
                     eims = ims[:emgs]  # copy out substream enclosed attachments
@@ -1150,8 +1162,11 @@ class Parser:
                         exts.serder = serder
                         break  # break out of while loop
 
-        except ExtractionError as ex:
-            if emgs is not None:  # extracted enclosed message group is preflushed
+        except TopLevelStreamError as ex:
+            raise  # not an error, nothing consumed
+
+        except Exception as ex:
+            if emgs is not None and enclosed:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing enclosing "
                                              f"message group of size={emgs}")
             raise  # no enclosing group so can't preflush, must flush stream
@@ -1175,7 +1190,10 @@ class Parser:
                     del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
                     # compute enclosing attachment group size based on txt or bny
                     eags = ctr.byteCount(cold=cold)
-                    while len(ims) < eags and not framed:
+                    while len(ims) < eags:
+                        if framed:  # framed already in ims
+                            raise ShortageError(f"Need {eags - len(ims)} more "
+                                                f"bytes for attachment group")
                         yield
                     eims = ims[:eags]  # copy out substream enclosed attachments
                     del ims[:eags]  # strip off from ims consume contents from ims
@@ -1186,20 +1204,21 @@ class Parser:
                         pass  # pass extracted ims to pipeline processor
                         return
 
-                    # peek for version change
-                    ctr = yield from self._extractor(ims=ims,
-                                                     klas=Counter,
-                                                     cold=cold,
-                                                     abort=enclosed,
-                                                     strip=False)
-                    if ctr.code == self.codes.KERIACDCGenusVersion:
-                        del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
-                        # change version
-                        verstack.append(self.version)  # push current onto stack
-                        self.version = Counter.b64ToVer(ctr.countToB64(l=3))
+                    # peek for version change, may be empty group
+                    if ims:
+                        ctr = yield from self._extractor(ims=ims,
+                                                         klas=Counter,
+                                                         cold=cold,
+                                                         abort=enclosed,
+                                                         strip=False)
+                        if ctr.code == self.codes.KERIACDCGenusVersion:
+                            del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
+                            # change version
+                            verstack.append(self.version)  # push current onto stack
+                            self.version = Counter.b64ToVer(ctr.countToB64(l=3))
 
 
-                while True:  # iteratively process attachment counters in stride
+                while ims or not enclosed:  # iteratively process attachment counters in stride
                     ctr = yield from self._extractor(ims=ims,
                                                      klas=Counter,
                                                      cold=cold,
@@ -1298,10 +1317,10 @@ class Parser:
                 # so just proceed to process current message
 
 
-        except ExtractionError as ex:
+        except Exception as ex:
             if enclosed:  # extracted enclosed attachment group is preflushed
                 raise SizedGroupError(f"Error processing attachment group"
-                                             " of size={eags}")
+                                             f" of size={emgs or eags}")
             raise  # no enclosing attachment group so can't preflush, must flush stream
 
         finally:
-- 
2.43.0


From 74b9c2bfee9a761a12ef6d1fe5911982c5044bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 28/81] fix: an entry with an empty value is still an entry for
 getOnItem

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 0384f7d..08c5180 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -877,7 +877,7 @@ class LMDBer(filing.Filer):
         with self.env.begin(db=db, write=False, buffers=True) as txn:
             onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
             try:
-                if val := txn.get(onkey):
+                if (val := txn.get(onkey)) is not None:
                     return (key, on, val)
                 else:
                     return None
-- 
2.43.0


From 042b60118e106ee1ee294ba18d7fef11d8718772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 29/81] fix: duplicate value writes look at the ordinal they
 write and store repeats once

---
 src/keri/db/dbing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 08c5180..714acee 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2426,6 +2426,7 @@ class LMDBer(filing.Filer):
 
             for val in vals:
                 if val not in dups:
+                    dups.add(val)  # so repeats in vals are not repeated in db
                     val = (b'%032x.' % (idx)) +  val  # prepend ordering proem
                     txn.put(key, val, dupdata=True)
                     idx += 1
@@ -2786,7 +2787,7 @@ class LMDBer(filing.Filer):
             sep (bytes): separator character for split"""
 
         result = False
-        dups = set(self.getOnIoDupVals(db, key))  #get preexisting dups if any
+        dups = set(self.getOnIoDupVals(db, key, on, sep=sep))  #get preexisting dups if any
         with self.env.begin(db=db, write=True, buffers=True) as txn:
             idx = 0
             cursor = txn.cursor()
@@ -2801,6 +2802,7 @@ class LMDBer(filing.Filer):
 
             for val in vals:
                 if val not in dups:
+                    dups.add(val)  # so repeats in vals are not repeated in db
                     val = (b'%032x.' % (idx)) +  val  # prepend ordering proem
                     txn.put(onkey, val, dupdata=True)
                     idx += 1
-- 
2.43.0


From 3c0c20f148bb2b53b523cba869e31420d38dbb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 30/81] fix: last value lookups of sets and duplicates use the
 separator they were stored with

---
 src/keri/db/dbing.py  |  8 ++++----
 src/keri/db/koming.py |  2 +-
 src/keri/db/subing.py | 11 ++++++-----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 714acee..9fe5643 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1273,7 +1273,7 @@ class LMDBer(filing.Filer):
             last = ()
             if not key:
                 return last
-            iokey = suffix(key, 0) # walk hidden branches starting from zero
+            iokey = suffix(key, 0, sep=sep) # walk hidden branches starting from zero
             cursor = txn.cursor()  # create cursor to walk back
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -1458,7 +1458,7 @@ class LMDBer(filing.Filer):
                 key, ion= unsuffix(iokey, sep=sep)
             else:
                 ion = 0
-                iokey = suffix(key, ion) # walk hidden branches starting from zero
+                iokey = suffix(key, ion, sep=sep) # walk hidden branches starting from zero
             last = None
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -2020,8 +2020,8 @@ class LMDBer(filing.Filer):
                     return  # raises StopIterationError
                 iokey = cursor.key()
             else:
-                onkey = onKey(key, on)
-                iokey = suffix(onkey, 0) # walk hidden branches starting from zero
+                onkey = onKey(key, on, sep=sep)
+                iokey = suffix(onkey, 0, sep=sep) # walk hidden branches starting from zero
 
             last = None
 
diff --git a/src/keri/db/koming.py b/src/keri/db/koming.py
index 1ef4ce4..3ef2a70 100644
--- a/src/keri/db/koming.py
+++ b/src/keri/db/koming.py
@@ -529,7 +529,7 @@ class IoSetKomer(KomerBase):
         Returns:
             val (Type[dataclass]):  instance of type self.schema
                 None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             key, val = last
             return self._des(val)
         return None
diff --git a/src/keri/db/subing.py b/src/keri/db/subing.py
index e1384fd..1924ab8 100644
--- a/src/keri/db/subing.py
+++ b/src/keri/db/subing.py
@@ -1388,7 +1388,7 @@ class IoSetSuber(SuberBase):
         Returns:
             last ((str, str)|None): (key, val) tuple or empty tuple if no entry
             at keys or keys is empty"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             key, val = last
             return (self._tokeys(key), self._des(val))
         return last
@@ -1407,7 +1407,7 @@ class IoSetSuber(SuberBase):
 
         Returns:
             val (str):  value str, None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             key, val = last
             return self._des(val)
         return None
@@ -1515,7 +1515,7 @@ class IoSetSuber(SuberBase):
 
         Returns:
             vals (Iterator[str]):  value str"""
-        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys)):
+        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             yield self._des(val)
 
 
@@ -1536,7 +1536,7 @@ class IoSetSuber(SuberBase):
 
         Returns:
             items (Iterator[(str, str)]):  (key, val) tuples"""
-        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys)):
+        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             yield (self._tokeys(key), self._des(val))
 
 
@@ -2731,7 +2731,8 @@ class OnIoDupSuber(OnSuberBase, IoDupSuber):
             last (str):  value str, None if no entry at effective key made from
                 keys and on"""
 
-        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on)
+        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on,
+                                     sep=self.sep.encode())
         return (self._des(val) if val is not None else val)
 
 
-- 
2.43.0


From e042a26c256ed86409999ed77deb83f7d511cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 31/81] fix: backward iteration ends when nothing precedes and
 never passes the asked ordinal

---
 src/keri/db/dbing.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 9fe5643..06b26d0 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2093,7 +2093,8 @@ class LMDBer(filing.Filer):
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():  # nothing before so not in db
+                        return
                     ciokey = cursor.key()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
@@ -2150,13 +2151,15 @@ class LMDBer(filing.Filer):
                     iokey = suffix(onkey, ion=MaxON, sep=sep)  # set to max ion
 
                 if not cursor.set_range(iokey):  # key is last key so maxon to big
-                    cursor.last()  # so find greatest on
+                    if not cursor.last():  # so find greatest on
+                        return  # empty database so raise StopIteration
 
                 ciokey, cval= cursor.item()
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():  # nothing before so not in db
+                        return
                     ciokey, cval= cursor.item()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
@@ -3061,8 +3064,7 @@ class LMDBer(filing.Filer):
                     break
 
                 yield (ckey, on, cval[33:])  # slice off prepended ordering proem
-                onkey = onKey(ckey, on+1)
-                if not cursor.set_range(onkey):  # # moves to first_dup at key>=onkey
+                if not cursor.next_nodup():  # moves to first_dup at next key
                     return  # no values end of db raises StopIteration
 
 
@@ -3215,7 +3217,7 @@ class LMDBer(filing.Filer):
                 onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
                 if cursor.set_range(onkey):  #  found key >= onkey
                     ckey, cn = splitOnKey(cursor.key(), sep=sep)
-                    if ckey == key: # onkey in db
+                    if ckey == key and cn == on: # onkey in db
                         cursor.last_dup()  # start at its last dup
                     else:  # get closest key < onkey
                         if not cursor.prev():  # last dup of previous key
-- 
2.43.0


From 2c13b0712ee5525aeaf1d6118475336e3882ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 32/81] fix: items of duplicates at an ordinal come back
 without their ordering proem

---
 src/keri/db/subing.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/keri/db/subing.py b/src/keri/db/subing.py
index 1924ab8..97c5b9f 100644
--- a/src/keri/db/subing.py
+++ b/src/keri/db/subing.py
@@ -2675,6 +2675,25 @@ class OnIoDupSuber(OnSuberBase, IoDupSuber):
                                                   sep=self.sep.encode())]
 
 
+    def getItem(self, keys: str|bytes|memoryview|Iterable, on: int=0, ion: int=0):
+        """Gets (keys, on, val) items of dup vals list at key made from keys and
+        on in insertion order, starting at insertion ordinal ion
+
+        Returns:
+            items (list[tuple]): each (keys, on, val), empty if no entry
+
+        Parameters:
+            keys (str|bytes|memoryview|Iterable): of key parts to be combined
+                in order to form key
+            on (int): ordinal number used with onKey(pre,on) to form onkey.
+            ion (int): starting insertion ordinal"""
+        return [(self._tokeys(key), on, self._des(val)) for key, on, val in
+                    self.db.getOnIoDupItemIter(db=self.sdb,
+                                               key=self._tokey(keys),
+                                               on=on,
+                                               ion=ion,
+                                               sep=self.sep.encode())]
+
     def getItemIter(self, keys: str|bytes|memoryview|Iterable, on: int=0, ion: int=0):
         """Iterates over dup items (key, on, val) at onkey made from keys and on
         in insertion order from offset ion >= ion into set using hidden
-- 
2.43.0


From 7770416695e4bd4991a01d12697bcfc6565a4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 33/81] fix: compare replies with what verified for the
 accepted one and keep accepted data

A replay of the accepted reply deleted its own artifacts, a bad second
signature group undid an accepted one, unverified escrowed groups were used
as the accepted key state and escrow timeout erased accepted replies.
---
 src/keri/core/eventing.py |   2 -
 src/keri/core/routing.py  | 137 +++++++++++++++++++++++++-------------
 2 files changed, 91 insertions(+), 48 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 0bea6b8..6efa547 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5201,8 +5201,6 @@ class Kevery:
         aid = cid  # authorizing attribution id
         keys = (aid, role, eid)
         osaider = self.db.eans.get(keys=keys)  # get old said if any
-        if osaider is not None and osaider.qb64b == diger.qb64b: # check idempotent
-            osaider = None
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
                                         aid=aid, osaider=osaider, cigars=cigars,
diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 27a76ec..5838c04 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -227,6 +227,7 @@ class Revery:
         i.e. route is address of buffer with route specific handler of escrow."""
         # BADA logic.
         accepted = False  # flag to raise UnverifiedReplyError not accepted
+        error = None  # from bad signature group if any
         cigars = cigars if cigars is not None else []
         tsgs = tsgs if tsgs is not None else []
 
@@ -234,8 +235,12 @@ class Revery:
         # get date-time raises error if empty or invalid format
         dater = Dater(dts=serder.ked["dt"])
         odater = None
+        osn = None  # sn of est evt whose keys signed old
+        same = False  # True means new is the already accepted reply itself
         if osaider:
             odater = self.db.sdts.get(keys=osaider.qb64b)
+            osn = self.fetchLatestSn(saider=osaider, aid=aid)
+            same = osaider.qb64 == saider.qb64
 
         for cigar in cigars:  # process each couple to verify sig and write to db
             if cigar.verfer.transferable:  # ignore invalid transferable verfers
@@ -266,7 +271,7 @@ class Revery:
                 logger.debug("Reply Body=\n%s\n", serder.pretty())
                 continue  # skip invalid cig's verfer is not aid
 
-            if odater:  # get old compare datetimes to see if later
+            if odater and not same:  # get old compare datetimes to see if later
                 if dater.datetime <= odater.datetime:
                     logger.trace(
                         "Revery: skipped stale update from %s of reply at route= %s",
@@ -289,7 +294,6 @@ class Revery:
 
             # All constraints satisfied so update
             self.updateReply(serder=serder, saider=saider, dater=dater, cigar=cigar)
-            self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
             accepted = True
             break  # first valid cigar sufficient ignore any duplicates in cigars
 
@@ -313,37 +317,36 @@ class Revery:
                 logger.debug(f"event=\n{serder.pretty()}\n")
                 continue  # skip invalid signature is not from aid
 
-            if osaider:  # check if later logic  sn > or sn == and dt >
-                if otsgs := fetchTsgs(db=self.db.tsgs, diger=osaider):
-                    _, osqr, _, _ = otsgs[0]  # zeroth should be authoritative
+            # check if later logic  sn > or sn == and dt >
+            if osn is not None and snumber.sn < osn:  # sn earlier
+                logger.info(
+                    "Revery: skipped stale key state sig "
+                    "from %s sn=%s<%s on reply said=%s",
+                    aid,
+                    snumber.sn,
+                    osn,
+                    serder.said,
+                )
+                logger.debug("event=\n%s\n", serder.pretty())
+                continue  # skip if sn earlier
 
-                    if snumber.sn < osqr.sn:  # sn earlier
+            if osn is None or snumber.sn == osn:  # sn same so check datetime
+                if odater and not same:
+                    if dater.datetime <= odater.datetime:
                         logger.info(
-                            "Revery: skipped stale key state sig "
-                            "from %s sn=%s<%s on reply said=%s",
+                            "Revery: skipped stale key state sig datetime "
+                            "from %s on reply said=%s",
                             aid,
-                            snumber.sn,
-                            osqr.sn,
                             serder.said,
                         )
                         logger.debug("event=\n%s\n", serder.pretty())
-                        continue  # skip if sn earlier
-
-                    if snumber.sn == osqr.sn:  # sn same so check datetime
-                        if odater:
-                            if dater.datetime <= odater.datetime:
-                                logger.info(
-                                    "Revery: skipped stale key state sig datetime "
-                                    "from %s on reply said=%s",
-                                    aid,
-                                    serder.said,
-                                )
-                                logger.debug("event=\n%s\n", serder.pretty())
-                                continue  # skip if not later
+                        continue  # skip if not later
 
             # retrieve sdig of last event at sn of signer.
             sdig = self.db.kels.getLast(keys=spre, on=snumber.sn)
             if sdig is None:
+                if same:  # already accepted so nothing to wait for
+                    continue
                 # create cue here to request key state for sprefixer signer
                 # signer's est event not yet in signer's KEL
                 logger.info(
@@ -366,27 +369,31 @@ class Revery:
             # retrieve last event itself of signer given sdig
             sserder = self.db.evts.get(keys=(spre, bytes(sdig)))
             # assumes db ensures that sserder must not be none because sdig was in KE
-            if sserder.said != sdiger.qb64:  # signer's dig not match est evt
-                raise ValidationError(
-                    f"Bad trans indexed sig group at sn = "
-                    f"{snumber.sn} for reply = {serder.ked}."
-                )
-            # verify sigs
-            if not (sverfers := sserder.verfers):
-                raise ValidationError(
-                    f"Invalid reply from signer={spre}, no "
-                    f"keys at signer's est. event sn={snumber.sn}."
-                )
+            try:  # bad group must not undo what other groups of reply do
+                if sserder.said != sdiger.qb64:  # signer's dig not match est evt
+                    raise ValidationError(
+                        f"Bad trans indexed sig group at sn = "
+                        f"{snumber.sn} for reply = {serder.ked}."
+                    )
+                # verify sigs
+                if not (sverfers := sserder.verfers):
+                    raise ValidationError(
+                        f"Invalid reply from signer={spre}, no "
+                        f"keys at signer's est. event sn={snumber.sn}."
+                    )
 
-            # fetch any escrowed sigs, extract just the siger from each quad
-            # want sn in numerical order so use hex
-            quadkeys = (saider.qb64, prefixer.qb64, f"{snumber.sn:032x}", sdiger.qb64)
-            esigers = self.db.tsgs.get(keys=quadkeys)
-            sigers.extend(esigers)
-            sigers, valid = validateSigs(
-                serder=serder, sigers=sigers, verfers=sverfers, tholder=sserder.tholder
-            )
-            # no error so at least one verified siger
+                # fetch any escrowed sigs, extract just the siger from each quad
+                # want sn in numerical order so use hex
+                quadkeys = (saider.qb64, prefixer.qb64, f"{snumber.sn:032x}", sdiger.qb64)
+                esigers = self.db.tsgs.get(keys=quadkeys)
+                sigers.extend(esigers)
+                sigers, valid = validateSigs(
+                    serder=serder, sigers=sigers, verfers=sverfers, tholder=sserder.tholder
+                )
+                # no error so at least one verified siger
+            except ValidationError as ex:
+                error = ex
+                continue
 
             if valid:  # meet threshold so save
                 # All constraints satisfied so update
@@ -399,7 +406,6 @@ class Revery:
                     diger=sdiger,
                     sigers=sigers,
                 )
-                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
                 # remove stale signatures .tsgs for this saider
                 # this ensures that zeroth tsg is authoritative
                 for prr, snr, dgr, _ in fetchTsgs(
@@ -414,7 +420,7 @@ class Revery:
 
                 accepted = True
 
-            else:  # not meet threshold so escrow
+            elif not same:  # not meet threshold so escrow
                 self.escrowReply(
                     serder=serder,
                     saider=saider,
@@ -426,8 +432,47 @@ class Revery:
                     sigers=sigers,
                 )
 
+        if accepted:
+            if osaider and not same:
+                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+            # nothing left to wait for so escrow timeout must not remove reply
+            self.db.rpes.rem(keys=(route,), val=saider)
+        elif error:
+            raise error
+
         return accepted
 
+    def fetchLatestSn(self, saider, aid):
+        """Fetch greatest sequence number of those est events of aid whose keys
+        signed the stored reply given by saider. Ignores stored signature groups
+        still in escrow, since not verified.
+
+        Returns:
+            sn (int | None): sequence number, None when reply not so signed
+
+        Parameters:
+            saider (Diger): instance from said in stored reply (SAD)
+            aid (str): identifier prefix qb64 of authoritative source of reply"""
+        sn = None
+        if (serder := self.db.rpys.get(keys=(saider.qb64,))) is None:
+            return sn
+        for prefixer, snumber, sdiger, sigers in fetchTsgs(db=self.db.tsgs, diger=saider):
+            if prefixer.qb64 != aid:
+                continue
+            if self.db.kels.getLast(keys=aid, on=snumber.sn) != sdiger.qb64:
+                continue
+            sserder = self.db.evts.get(keys=(aid, sdiger.qb64))
+            if not sserder.verfers:
+                continue
+            try:
+                _, valid = validateSigs(serder=serder, sigers=sigers,
+                                        verfers=sserder.verfers, tholder=sserder.tholder)
+            except ValidationError:
+                continue
+            if valid and (sn is None or snumber.sn > sn):
+                sn = snumber.sn
+        return sn
+
     def updateReply(
         self,
         *,
@@ -463,7 +508,7 @@ class Revery:
             self.db.scgs.put(keys=keys, vals=[(cigar.verfer, cigar)])
         if sigers:  # want sn in numerical order so use hex
             quadkeys = (saider.qb64, prefixer.qb64, f"{seqner.sn:032x}", diger.qb64)
-            self.db.tsgs.put(keys=quadkeys, vals=sigers)
+            self.db.tsgs.pin(keys=quadkeys, vals=sigers)  # only verified sigs
 
     def removeReply(self, saider):
         """Remove Reply SAD artifacts given by saider.
-- 
2.43.0


From 1b9ed1d1dddb9d297d1adc58b5ebc9dcb757e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 34/81] fix: only the exact end role routes add or cut an
 endpoint role

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 6efa547..f253f7b 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5175,9 +5175,9 @@ class Kevery:
           }
         }"""
         # reply specific logic
-        if route.startswith("/end/role/add"):
+        if route == "/end/role/add":
             allowed = True
-        elif route.startswith("/end/role/cut"):
+        elif route == "/end/role/cut":
             allowed = False
         else:  # unsupported route
             raise ValidationError(f"Usupported route={route} in {Ilks.rpy} "
-- 
2.43.0


From 80bd144d22933a14ed3dd07c31c7edef4ffeaddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 35/81] fix: older key state and transaction state notices
 never displace newer ones

---
 src/keri/core/eventing.py |  6 ++++++
 src/keri/db/escrowing.py  | 18 ++++++++++++++++--
 src/keri/vdr/eventing.py  | 12 +++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index f253f7b..78d2bfd 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5416,6 +5416,12 @@ class Kevery:
         osaider = self.db.knas.get(keys=keys)  # get old said if any
         dater = Dater(dts=ksr.dt)
 
+        # old said is of event not reply so compare datetimes of notices here
+        if osaider is not None and (oksr := self.db.ksns.get(keys=(osaider.qb64,))):
+            if dater.datetime < Dater(dts=oksr.dt).datetime:
+                raise ValidationError(f"Skipped stale key state notice at dt="
+                                      f"{ksr.dt} for {ksr.i} from {aid}.")
+
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
                                         aid=aid, osaider=osaider, cigars=cigars,
diff --git a/src/keri/db/escrowing.py b/src/keri/db/escrowing.py
index 2a89e3b..2b2eade 100644
--- a/src/keri/db/escrowing.py
+++ b/src/keri/db/escrowing.py
@@ -98,6 +98,20 @@ class Broker:
         """
         return self.saiderdb.get(keys=keys)
 
+    def currentDater(self, diger):
+        """
+        Get date-time of latest saved TSN for the event given by diger.
+
+        Parameters:
+            diger (Diger | None): instance as returned by .current
+
+        Returns:
+            dater (Dater | None): date-time of notice or None if not found.
+        """
+        if diger is None or self.serderdb.get(keys=(diger.qb64,)) is None:
+            return None
+        return self.daterdb.get(keys=(diger.qb64,))
+
     def processEscrowState(self, typ, processReply, extype: Type[Exception]):
         """ Process escrows for reply messages
 
@@ -222,8 +236,8 @@ class Broker:
         keys = (diger.qb64,)
 
         # Add source of ksn to the key for DATEs too...  (source AID, ksn AID)
-        self.daterdb.put(keys=keys, val=dater)  # first one idempotent
-        self.serderdb.pin(keys=keys, val=serder)  # first one idempotent
+        self.daterdb.pin(keys=keys, val=dater)  # latest one as with serder
+        self.serderdb.pin(keys=keys, val=serder)  # overwrite
         # Add source of ksn to the key...  (source AID, ksn AID)
         self.saiderdb.pin(keys=(serder.sad["a"]["i"], aid), val=diger)  # overwrite
 
diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 0c1f933..d8641d7 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1746,6 +1746,11 @@ class Tevery:
 
         keys = (regk, aid,)
         osaider = self.reger.txnsb.current(keys=keys)  # get old said if any
+        # old said is of event not reply so compare datetimes of notices here
+        odater = self.reger.txnsb.currentDater(osaider)
+        if odater is not None and dater.datetime < odater.datetime:
+            raise ValidationError(f"Skipped stale txn state notice at dt="
+                                  f"{dater.dts} for {keys[0]} from {aid}.")
 
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
@@ -1885,6 +1890,11 @@ class Tevery:
 
         keys = (vci, aid,)
         osaider = self.reger.txnsb.current(keys=keys)  # get old said if any
+        # old said is of event not reply so compare datetimes of notices here
+        odater = self.reger.txnsb.currentDater(osaider)
+        if odater is not None and dater.datetime < odater.datetime:
+            raise ValidationError(f"Skipped stale txn state notice at dt="
+                                  f"{dater.dts} for {keys[0]} from {aid}.")
 
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
@@ -1910,7 +1920,7 @@ class Tevery:
         # assumes db ensures that sraw must not be none because sdig was in KE
         sserder = SerderKERI(raw=sraw.encode("utf-8"))
 
-        if sn < sserder.sn:
+        if sn < tever.vcSn(vci):
             raise ValidationError("Stale txn state at sn = {} with db."
                                   "".format(vsr.s))
 
-- 
2.43.0


From 7324989a4ef1eba0e9eec538a34ff9c497b5eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 36/81] fix: refuse replies without a valid date and time,
 nothing could ever displace them

---
 src/keri/core/routing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 5838c04..611230c 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -234,6 +234,13 @@ class Revery:
         # Is new later than old if old?
         # get date-time raises error if empty or invalid format
         dater = Dater(dts=serder.ked["dt"])
+        try:  # otherwise nothing could ever be later
+            if dater.datetime.tzinfo is None:
+                raise ValueError("missing time zone")
+        except ValueError as ex:
+            raise ValidationError(
+                f"Invalid date-time={serder.ked['dt']} in reply = {serder.ked}."
+            ) from ex
         odater = None
         osn = None  # sn of est evt whose keys signed old
         same = False  # True means new is the already accepted reply itself
-- 
2.43.0


From 57a17b9f41a71e3951be99003ad82860cdaf7900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 37/81] fix: a multiple signature message that met threshold is
 not accepted again when presented again

---
 src/keri/core/kraming.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d25f4f7..c0c4189 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1108,6 +1108,10 @@ class Kramer:
                     existingSigs = []
 
                 existingSigIndices = {sig.index for sig in existingSigs}
+                # already accepted once its signatures met threshold, then replay
+                if existingSigIndices and kever.tholder.satisfy(
+                        indices=list(existingSigIndices)):
+                    return None
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
 
@@ -1341,6 +1345,10 @@ class Kramer:
                     existingSigs = []
 
                 existingSigIndices = {sig.index for sig in existingSigs}
+                # already accepted once its signatures met threshold, then replay
+                if existingSigIndices and kever.tholder.satisfy(
+                        indices=list(existingSigIndices)):
+                    return None
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
 
-- 
2.43.0


From e87c4c7d790eb5252e4bc252b2a0946028d67e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 38/81] fix: request cache entries are kept as long as their
 message could be accepted again

---
 src/keri/core/kraming.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index c0c4189..071aa80 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1173,6 +1173,9 @@ class Kramer:
                 else:
                     ml = cacheTypeRecord.sl   # short lag for seal/single-key
                     pml = cacheTypeRecord.psl
+                    if len(kever.verfers) > 1:
+                        # same message may come again with its signatures
+                        pml = max(pml, cacheTypeRecord.pll)
 
                 # Timeliness check (millisecond units)
                 rdt = helping.fromIso8601(
@@ -1408,6 +1411,9 @@ class Kramer:
                 else:
                     ml = cacheTypeRecord.sl   # short lag for seal/single-key
                     pml = cacheTypeRecord.psl
+                    if len(kever.verfers) > 1:
+                        # same message may come again with its signatures
+                        pml = max(pml, cacheTypeRecord.pll)
 
                 if authType == AuthTypes.AttachedSealReference or authType == AuthTypes.AttachedSignatureSingleKey:
                     match msgType:
@@ -2103,7 +2109,7 @@ class Kramer:
     def _pruneMessages(self, rdt_ms):
         """
         Check message ID and prune expired cache entries and associated state.
-        rdt (Iso8601): receiver time
+        rdt_ms (float): receiver time in milliseconds
         pml (int): prune lag cache value in milliseconds
         d (int): drift lag cache value in milliseconds
         """
@@ -2113,8 +2119,9 @@ class Kramer:
         # Iterate over all message cache entries
         for (aid, mid), cache in list(self.db.kramMSGC.getTopItemIter()):
 
-            # Convert messsage time from cache to milliseconds Int for comparison
-            mdt_ms = int(helping.fromIso8601(cache.mdt).timestamp() * 1000)
+            # Convert messsage time from cache to milliseconds for comparison
+            # not truncated so never pruned while still acceptable
+            mdt_ms = helping.fromIso8601(cache.mdt).timestamp() * 1000
 
             # Get the drift and prune lag values from the cache record
             d = cache.d
@@ -2137,7 +2144,9 @@ class Kramer:
     def _pruneExchanges(self, rdt_ms):
         """
         Check exchanges ID and prune expired cache entries and associated state.
-        rdt (int): receiver time in milliseconds
+        rdt_ms (float): receiver time in milliseconds
+        pml (int): prune lag cache value in milliseconds
+        d (int): drift lag cache value in milliseconds
         pxl (int): prune lag cache value in milliseconds
         """
         # Initialize a flag to track if pruned
@@ -2147,13 +2156,18 @@ class Kramer:
         for (aid, xid, mid), cache in list(self.db.kramTMSC.getTopItemIter()):
 
             # Get the exchange time from the cache
-            xdt_ms = int(helping.fromIso8601(cache.xdt).timestamp() * 1000)
+            xdt_ms = helping.fromIso8601(cache.xdt).timestamp() * 1000
+            mdt_ms = helping.fromIso8601(cache.mdt).timestamp() * 1000
 
-            # Get the prune lag values from the cache record
+            # Get the drift and prune lag values from the cache record
+            d = cache.d
+            pml = cache.pml
             pxl = cache.pxl
 
-            # Apply the comparison
-            if not xdt_ms <= rdt_ms <= xdt_ms + pxl:
+            # Apply the comparison, exchange may start up to drift later than
+            # receiver time, and message must not be pruned while its own
+            # window would still accept it
+            if not xdt_ms - d <= rdt_ms <= max(xdt_ms + pxl, mdt_ms + d + pml):
                 self.db.kramTMSC.rem(keys=(aid, xid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
@@ -2180,7 +2194,7 @@ class Pruner(doing.Doer):
 
         while True:
             # compute receiver time in ms
-            rdt_ms = int(helping.nowUTC().timestamp() * 1000)
+            rdt_ms = helping.nowUTC().timestamp() * 1000
 
             # check prune both messages and exchanges
             self.kramer._pruneMessages(rdt_ms=rdt_ms)
-- 
2.43.0


From 3254d23f0aded5672693a6730abbe98699fc9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 39/81] fix: request cache entries outlive any accept window
 their message still fits

---
 src/keri/core/kraming.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 071aa80..4d1fdad 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1173,9 +1173,6 @@ class Kramer:
                 else:
                     ml = cacheTypeRecord.sl   # short lag for seal/single-key
                     pml = cacheTypeRecord.psl
-                    if len(kever.verfers) > 1:
-                        # same message may come again with its signatures
-                        pml = max(pml, cacheTypeRecord.pll)
 
                 # Timeliness check (millisecond units)
                 rdt = helping.fromIso8601(
@@ -1411,9 +1408,6 @@ class Kramer:
                 else:
                     ml = cacheTypeRecord.sl   # short lag for seal/single-key
                     pml = cacheTypeRecord.psl
-                    if len(kever.verfers) > 1:
-                        # same message may come again with its signatures
-                        pml = max(pml, cacheTypeRecord.pll)
 
                 if authType == AuthTypes.AttachedSealReference or authType == AuthTypes.AttachedSignatureSingleKey:
                     match msgType:
@@ -2106,6 +2100,27 @@ class Kramer:
                 raise KramError("Coverage hole detected, new configuration is invalid")
 
 
+    def _acceptLag(self, aid):
+        """Greatest age in milliseconds at which any current or staged cache type
+        still accepts a message of sender aid. Cache entry of a message must be
+        kept until then whatever its own prune lag, otherwise the message could
+        be replayed with other attachments or after a change of configuration.
+
+        Parameters:
+            aid (str): qb64 identifier prefix of sender
+        """
+        kever = self.db.kevers.get(aid)
+        multi = kever is not None and len(kever.verfers) > 1
+        lag = 0
+        for keys, rec in self.db.kramCTYP.getTopItemIter():
+            pend = self._pending.get(self.db.kramCTYP.sep.join(keys), {})
+            ml = max(rec.sl, pend.get('sl_new', 0))
+            if multi:
+                ml = max(ml, rec.ll, pend.get('ll_new', 0))
+            lag = max(lag, rec.d + ml)
+        return lag
+
+
     def _pruneMessages(self, rdt_ms):
         """
         Check message ID and prune expired cache entries and associated state.
@@ -2128,7 +2143,8 @@ class Kramer:
             pml = cache.pml
 
             # Apply the comparison from the whitepaper
-            if not rdt_ms - d - pml <= mdt_ms <= rdt_ms + d:
+            lag = max(d + pml, self._acceptLag(aid))
+            if not rdt_ms - lag <= mdt_ms <= rdt_ms + d:
                 self.db.kramMSGC.rem(keys=(aid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
@@ -2167,7 +2183,8 @@ class Kramer:
             # Apply the comparison, exchange may start up to drift later than
             # receiver time, and message must not be pruned while its own
             # window would still accept it
-            if not xdt_ms - d <= rdt_ms <= max(xdt_ms + pxl, mdt_ms + d + pml):
+            lag = max(d + pml, self._acceptLag(aid))
+            if not xdt_ms - d <= rdt_ms <= max(xdt_ms + pxl, mdt_ms + lag):
                 self.db.kramTMSC.rem(keys=(aid, xid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
-- 
2.43.0


From 0f545c7ee2713dc1733cc94e69c1d320618fd351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 40/81] fix: revoke only what the same registry issued and has
 not revoked yet

---
 src/keri/vdr/eventing.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index d8641d7..2295b8e 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1102,6 +1102,17 @@ class Tever:
             raise ValidationError("revoke without issue... probably have to escrow")
 
         iserder = SerderKERI(raw=ievt.encode("utf-8"))
+        if iserder.ked["t"] not in (Ilks.iss, Ilks.bis):  # only issued may be revoked
+            raise ValidationError("Revocation of what is not issued or already"
+                                  " revoked for evt = {}.".format(ked))
+
+        if Tevery.registryKey(iserder) != self.prefixer.qb64:  # other registry
+            raise ValidationError("Revocation in registry = {} of credential"
+                                  " issued in registry = {} for evt = {}."
+                                  "".format(self.prefixer.qb64,
+                                            Tevery.registryKey(iserder),
+                                            ked))
+
         if not iserder.compare(said=ked["p"]):  # prior event dig not match
             raise ValidationError("Mismatch event dig = {} with state dig"
                                   " = {} for evt = {}.".format(ked["p"],
-- 
2.43.0


From 4012f81590631363091c5dcb45abdddfac23137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 41/81] fix: credential state is only reported by the registry
 that issued it

---
 src/keri/vdr/eventing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 2295b8e..72a0d2b 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1176,6 +1176,9 @@ class Tever:
         raw = self.reger.tvts.get(keys=dgkey)
         serder = SerderKERI(raw=raw.encode("utf-8"))
 
+        if Tevery.registryKey(serder) != self.prefixer.qb64:
+            return None  # issued from some other registry
+
         if self.noBackers:
             vcilk = Ilks.iss if len(digs) == 1 else Ilks.rev
             ra = dict()
-- 
2.43.0


From d3fcfa5403dd36866133576e69117f4bb00ad15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 42/81] fix: backers of an issuance or revocation come from an
 accepted registry event

---
 src/keri/vdr/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 72a0d2b..ad8c76e 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1428,6 +1428,11 @@ class Tever:
             raise ValidationError("have to escrow this somewhere")
 
         rserder = SerderKERI(raw=revt.encode("utf-8"))
+        # registry event must be accepted, not merely stored in escrow
+        if self.reger.tels.get(keys=regi, on=rserder.sn) != regd:
+            raise ValidationError("Unaccepted registry event = {} for evt = {}."
+                                  "".format(regd, ked))
+
         # the backer threshold at this event in mgmt TEL
         rtoad = rserder.ked["bt"]
 
-- 
2.43.0


From 2207269677b2f34214721c385bf5a1abb0cf9dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 43/81] fix: record the anchor an accepted registry event was
 verified with

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index ad8c76e..2c351f6 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1239,7 +1239,7 @@ class Tever:
         key = dgKey(pre, dig)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
-- 
2.43.0


From 9fa0132f6e2e0d3a3a0c8392e1fd94fc20b3e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 44/81] fix: save registry state after a registry rotation

---
 src/keri/vdr/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 2c351f6..debce73 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1581,6 +1581,8 @@ class Tevery:
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                if ilk in (Ilks.vrt,):
+                    self.tevers[regk] = tever  # saves its changed state
 
                 if regk not in self.registries:
                     # witness style backers will need to send receipts so lets queue them up for now
-- 
2.43.0


From 0115915075850a1378908bd4eceb45cf8d45cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 45/81] fix: answer credential state queries

---
 src/keri/vdr/eventing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index debce73..a7ee1ff 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1645,8 +1645,9 @@ class Tevery:
                 self.cues.push(dict(kin="reply", route="/tsn/registry", data=asdict(tsn), dest=source))
 
                 if vcpre := qry["i"]:
-                    tsn = tever.vcState(vcpre=vcpre)
-                    self.cues.push(dict(kin="reply", route="/tsn/credential", data=asdict(tsn), dest=source))
+                    tsn = tever.vcState(vci=vcpre)
+                    if tsn is not None:
+                        self.cues.push(dict(kin="reply", route="/tsn/credential", data=asdict(tsn), dest=source))
 
         else:
             raise ValidationError("invalid query message {} for evt = {}".format(ilk, ked))
-- 
2.43.0


From 173c9bbb25660a3d803b47fd8762adabeb1a83de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 46/81] fix: refuse credentials whose issuer does not control
 their registry

---
 src/keri/vdr/verifying.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index 7d1c7be..5ef016c 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -127,6 +127,10 @@ class Verifier:
                 self.cues.append(dict(kin="telquery", q=dict(ri=regk, i=vcid, issr=creder.israid)))
             raise MissingRegistryError("registry identifier {} not in Tevers".format(regk))
 
+        if creder.israid != self.tevers[regk].pre:  # issuer must control registry
+            raise ValidationError("issuer {} of credential {} is not controller {} of its registry {}"
+                                  "".format(creder.israid, vcid, self.tevers[regk].pre, regk))
+
         state = self.tevers[regk].vcState(vcid)
         if state is None:  # credential issuance event not found yet
             if self.escrowMRE(creder, prefixer, seqner, saider):
-- 
2.43.0


From b3cd4845686ceb42c95aee35c0d8ecb583c6a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 47/81] fix: refused change of keystore encryption leaves the
 encrypter as it was

---
 src/keri/app/keeping.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 5091bec..90bdd34 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -804,12 +804,12 @@ class Manager:
                                        "".format(self.aeid))
 
         if aeid:  # aeid provided
-            if aeid != self.aeid:  # changing to a new aeid so update .encrypter
-                self.encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
-                # verifies new seed belongs to new aeid
-                if not seed or not self.encrypter.verifySeed(seed):
-                    raise AuthError("Seed missing or provided seed not associated"
-                                           "  with provided aeid={}.".format(aeid))
+            encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
+            # verifies new seed belongs to new aeid
+            if not seed or not encrypter.verifySeed(seed):
+                raise AuthError("Seed missing or provided seed not associated"
+                                       "  with provided aeid={}.".format(aeid))
+            self.encrypter = encrypter  # only once verified
         else:  # changing to empty aeid so new encrypter is None
             self.encrypter = None
 
-- 
2.43.0


From 4971ab53aa516d78978db0b3aff6edc04d8d586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 48/81] fix: turning encryption on encrypts the secrets a
 keystore already holds

---
 src/keri/app/keeping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 90bdd34..c945cd1 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -823,11 +823,12 @@ class Manager:
             # self.salt = self.encrypter.encrypt(ser=salt).qb64 if self.encrypter else salt
 
         # other secrets
-        if self.decrypter:
+        if self.decrypter or self.encrypter:
             # re-encrypt root salt secrets by prefix parameters .prms
             for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
                 if data.salt:
-                    salter = self.decrypter.decrypt(qb64=data.salt)
+                    salter = (self.decrypter.decrypt(qb64=data.salt)
+                              if self.decrypter else Salter(qb64=data.salt))
                     data.salt = (self.encrypter.encrypt(prim=salter).qb64
                                  if self.encrypter else salter.qb64)
                     self.ks.prms.pin(keys, val=data)
-- 
2.43.0


From 3865f3ed28c94270e5fe399328afcbdbd454825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 49/81] fix: ingest refuses invalid secrets before it stores
 any

---
 src/keri/app/keeping.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index c945cd1..6838df5 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1550,9 +1550,13 @@ class Manager:
                 time of salty algorithm
 
         """
-        if iridx > len(secrecies):
+        if iridx >= len(secrecies):
             raise ValueError(f"Initial ridx={iridx} beyond last secrecy.")
 
+        # create all signers first so invalid secrets change nothing
+        signeries = deque([Signer(qb64=secret, transferable=transferable)
+                           for secret in csecrets] for csecrets in secrecies)
+
         # configure parameters for creating new keys after ingested sequence
         if rooted and salt is None:  # use root salt instead of random salt
             salt = self.salt
@@ -1571,11 +1575,8 @@ class Manager:
 
         verferies = []  # list of lists of verfers
         first = True
-        secrecies = deque(secrecies)
-        while secrecies:
-            csecrets = secrecies.popleft()  # current
-            csigners = [Signer(qb64=secret, transferable=transferable)
-                                                      for secret in csecrets]
+        while signeries:
+            csigners = signeries.popleft()  # current
             csize = len(csigners)
             verferies.append([signer.verfer for signer in csigners])
 
-- 
2.43.0


From e140d73f44170e2c16198d8a9365b61f071529f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 50/81] fix: ingest encrypts the next keys it creates

---
 src/keri/app/keeping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 6838df5..29f4dd4 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1647,7 +1647,8 @@ class Manager:
 
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
-            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer)
+            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
+                             encrypter=self.encrypter)
 
         pubs = [signer.verfer.qb64 for signer in nsigners]
         self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
-- 
2.43.0


From 0b2604b702029a632f1ef48b001a0551a1001bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 51/81] fix: keys of a kind encryption does not support are
 refused before the key sequence changes

---
 src/keri/app/keeping.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 29f4dd4..84899a5 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1057,6 +1057,8 @@ class Manager:
                     nxt=PubLot(pubs=[signer.verfer.qb64 for signer in nsigners],
                                    ridx=ridx+1, kidx=kidx+len(icodes), dt=dt))
 
+        self._verifyStorable(isigners + nsigners)
+
         pre = verfers[0].qb64b
         if not self.ks.pres.put(pre, val=Prefixer(qb64=pre)):
             raise ValueError("Already incepted pre={}.".format(pre.decode("utf-8")))
@@ -1085,6 +1087,18 @@ class Manager:
         return (verfers, digers)
 
 
+    def _verifyStorable(self, signers):
+        """Raises before anything is changed when some secret of signers may
+        not be stored encrypted, which is so for some seed codes
+
+        Parameters:
+            signers (list[Signer]): instances whose secrets are to be stored
+        """
+        if self.encrypter:
+            for signer in signers:
+                self.encrypter.encrypt(prim=signer)
+
+
     def move(self, old, new):
         """
         Assigns new pre to old default .pres at old
@@ -1240,6 +1254,8 @@ class Manager:
         ps.nxt = PubLot(pubs=[signer.verfer.qb64 for signer in signers],
                               ridx=ridx, kidx=kidx, dt=dt)
 
+        self._verifyStorable(signers)
+
         if not self.ks.sits.pin(pre, val=ps):
             raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
 
@@ -1557,6 +1573,9 @@ class Manager:
         signeries = deque([Signer(qb64=secret, transferable=transferable)
                            for secret in csecrets] for csecrets in secrecies)
 
+        for csigners in signeries:
+            self._verifyStorable(csigners)
+
         # configure parameters for creating new keys after ingested sequence
         if rooted and salt is None:  # use root salt instead of random salt
             salt = self.salt
-- 
2.43.0


From 34e0d4a6f628dd6ebad9dba88a837653148c54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 52/81] fix: refuse to build signature headers that would parse
 back as something else

---
 src/keri/end/ending.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/keri/end/ending.py b/src/keri/end/ending.py
index f62de8a..b9487fb 100644
--- a/src/keri/end/ending.py
+++ b/src/keri/end/ending.py
@@ -142,27 +142,37 @@ def signature(signages):
             val = kind
             items.append(f'{tag}="{val}"')
 
+        labels = ["indexed", "signer", "ordinal", "digest", "kind"]  # special
         for i, marker in enumerate(markers):
-            if tags:
+            if hasattr(marker, "index"):  # Siger has index
+                if not indexed:
+                    raise ValueError(f"Indexed signature marker {marker} when "
+                                     f"indexed False.")
+                tag = str(marker.index)
+            elif hasattr(marker, "verfer"):  # Cigar has verfer but not index
+                if indexed:
+                    raise ValueError(f"Unindexed signature marker {marker}"
+                                     f"  when indexed True.")
+                tag = marker.verfer.qb64 if not tags else None
+            else:
+                raise ValueError(f"Invalid signature marker instance = "
+                                 f"{marker}.")
+
+            if tags:  # otherwise default names since not provided
                 tag = tags[i]
-            else:  # assign defaults names since not provided
-                if hasattr(marker, "index"):  # Siger has index
-                    if not indexed:
-                        raise ValueError(f"Indexed signature marker {marker} when "
-                                         f"indexed False.")
-                    tag = str(marker.index)
-                elif hasattr(marker, "verfer"):  # Cigar has verfer but not index
-                    if indexed:
-                        raise ValueError(f"Unindexed signature marker {marker}"
-                                         f"  when indexed True.")
-                    tag = marker.verfer.qb64
-                else:
-                    raise ValueError(f"Invalid signature marker instance = "
-                                     f"{marker}.")
+
+            if not re.fullmatch(r'[^\s;,="]+', tag) or tag in labels:
+                raise ValueError(f"Invalid or duplicate label {tag=} of signature"
+                                 f" marker.")
+            labels.append(tag)
 
             val = marker.qb64
             items.append(f'{tag}="{val}"')
 
+        for item in items:  # each must parse back as one item
+            if not re.fullmatch(r'[^\s;,="]+="[^\s;,"]*"', item):
+                raise ValueError(f"Invalid signature header {item=}.")
+
         values.append(";".join(items))
 
     return dict(Signature=",".join(values))  # join all signage value strs
-- 
2.43.0


From 251ba5294f295dfc67f019bdf7be1209b2ab5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 53/81] fix: refuse malformed signature headers

---
 src/keri/end/ending.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/keri/end/ending.py b/src/keri/end/ending.py
index b9487fb..e780b9a 100644
--- a/src/keri/end/ending.py
+++ b/src/keri/end/ending.py
@@ -227,10 +227,19 @@ def designature(value):
         items = {}
         for item in value.split(";"):
             key, val = item.split("=", maxsplit=1)
-            items[key] = val.strip('"')
+            if val.startswith('"') and val.endswith('"') and len(val) > 1:
+                val = val[1:-1]
+            if not key or '"' in key or '"' in val:
+                raise ValueError(f"Malformed {item=} in Signature header.")
+            if key in items:
+                raise ValueError(f"Duplicate {key=} in Signature header signage.")
+            items[key] = val
 
         if "indexed" not in items:
             raise ValueError("Missing indexed field in Signature header signage.")
+        if items["indexed"] not in helping.FALSEY + helping.TRUTHY:
+            raise ValueError(f"Invalid indexed field={items['indexed']} in "
+                             f"Signature header signage.")
         indexed = items["indexed"] not in helping.FALSEY  # make bool
         del items["indexed"]
 
@@ -264,6 +273,9 @@ def designature(value):
                     items[key] = Siger(qb64=val)
                 else:
                     items[key] = Cigar(qb64=val)
+                if items[key].qb64 != val:  # extra or noncanonical
+                    raise ValueError(f"Malformed signature={val} in Signature "
+                                     f"header.")
 
         signages.append(Signage(markers=items, indexed=indexed, signer=signer,
                                 ordinal=ordinal, digest=digest, kind=kind))
-- 
2.43.0


From 1c15f626bb20195c8b5ebe1494f6ea0f853e2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 54/81] fix: requests without a well formed signature header
 are unauthorized

---
 src/keri/app/httping.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/httping.py b/src/keri/app/httping.py
index 558da1c..0d34578 100644
--- a/src/keri/app/httping.py
+++ b/src/keri/app/httping.py
@@ -51,7 +51,13 @@ class SignatureValidationComponent(object):
             return
 
     def validate(self, sig, ser):
-        signages = designature(sig)
+        try:
+            signages = designature(sig)
+        except Exception:  # missing or malformed header
+            return False
+
+        if signages[0].kind != "CESR":
+            return False
         markers = signages[0].markers
 
         if self.pre not in self.hby.kevers:
-- 
2.43.0


From aa350c85820af40ed3a9db3ce7bf4db5acae4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 55/81] fix: append a message index to a topic

---
 src/keri/app/storing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 718fa6b..74e2604 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -75,7 +75,7 @@ class Mailboxer(LMDBer):
         Parameters:
             topic (bytes):  topic identifier for message
             val (bytes): msg digest"""
-        return self.tpcs.append(key=topic, val=val)
+        return self.tpcs.append(keys=topic, val=val)
 
 
     def getTopicMsgs(self, topic, fn=0):
-- 
2.43.0


From 2b7657ec199297bada35c40efa5f3fabba0d2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 56/81] fix: read mailbox messages that are not utf-8 text

---
 src/keri/app/storing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 74e2604..37113f1 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -92,8 +92,8 @@ class Mailboxer(LMDBer):
                 to form key at at which to initiate retrieval"""
         msgs = []
         for keys, on, dig in self.tpcs.getAllItemIter(keys=topic, on=fn):
-            if msg := self.msgs.get(keys=dig):
-                msgs.append(msg.encode())  # want bytes not str
+            if msg := self.getVal(db=self.msgs.sdb, key=dig.encode()):
+                msgs.append(bytes(msg))  # not always utf-8 such as when CBOR
         return msgs
 
 
@@ -136,8 +136,8 @@ class Mailboxer(LMDBer):
         Ordinal Numbered db.  since should not be using hidden ion has not
         hidden."""
         for keys, on, dig in self.tpcs.getAllItemIter(keys=topic, on=fn):
-            if msg := self.msgs.get(keys=dig):
-                yield (on, topic, msg.encode("utf-8"))
+            if msg := self.getVal(db=self.msgs.sdb, key=dig.encode()):
+                yield (on, topic, bytes(msg))  # not always utf-8 such as when CBOR
 
 
 
-- 
2.43.0


From 2485b343e5d9a9f144c2820e34237c4d936272f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 57/81] fix: mailbox stream continues after the last delivered
 ordinal

---
 src/keri/app/indirecting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index fe4a3ef..ea8e33d 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -1025,7 +1025,7 @@ class MailboxIterable:
                                           .encode("utf-8")))
                     data.extend(msg)
                     data.extend(b'\n\n')
-                    idx = idx + 1
+                    idx = fn + 1  # ordinals are not contiguous after a removal
                     self.start = time.perf_counter()
 
                 self.topics[topic] = idx
-- 
2.43.0


From c69b2d18ce407e76b7c655ad3d8ab7985d4802de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 58/81] fix: appending and iterating at a key are not disturbed
 by longer keys that extend it

---
 src/keri/db/dbing.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 06b26d0..c73116b 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -828,27 +828,24 @@ class LMDBer(filing.Filer):
             if not cursor.set_range(onkey):  # max is past end of database
                 #  so either empty database or last is earlier key or
                 #  last is last entry  at same key
-                if cursor.last():  # not empty db. last entry earlier than max
-                    onkey = cursor.key()
-                    ckey, cn = splitOnKey(onkey, sep=sep)
-                    if ckey == key:  # last is last entry for same key
-                        on = cn + 1  # increment
+                found = cursor.last()  # not empty db. last entry earlier than max
             else:  # not past end so not empty either later key or max entry at key
-                onkey = cursor.key()
-                ckey, cn = splitOnKey(onkey, sep=sep)
+                ckey, cn = splitOnKey(cursor.key(), sep=sep)
                 if ckey == key:  # last entry for key is already at max
                     raise ValueError(f"Number part {cn=} for key part {ckey=}"
                                      f"exceeds maximum size.")
-                else:  # later key so backup once
-                    # either earlier no entry before last or earlier entry
-                    # at same or earlier key
-                    if cursor.prev():  # earlier entry, maybe same or earlier key
-                        onkey = cursor.key()
-                        ckey, cn = splitOnKey(onkey, sep=sep)
-                        if ckey == key:  # earlier entry as same key so increment
-                            on = cn + 1  # increment
-                        # otherwise no earlier entry at same key so create below
-                    # otherwise no earlier entry at any key so create below
+                # later key so backup, either earlier no entry before last or
+                # earlier entry at same or earlier key
+                found = cursor.prev()
+
+            # entries of longer keys that start with key + sep may come between
+            while found and bytes(cursor.key()) >= onKey(key, 0, sep=sep):
+                ckey, cn = splitOnKey(cursor.key(), sep=sep)
+                if ckey == key:  # last entry for same key
+                    on = cn + 1  # increment
+                    break
+                found = cursor.prev()
+            # otherwise no earlier entry at same key so create below
 
             onkey = onKey(key, on, sep=sep)  # create new entry at new on
 
@@ -1080,9 +1077,11 @@ class LMDBer(filing.Filer):
                 return  # no values end of db raises StopIteration
 
             for ckey, cval in cursor.iternext():  # get key, val at cursor
-                ckey, cn = splitOnKey(ckey, sep=sep)
-                if key and not ckey == key:
+                if key and bytes(ckey) > onKey(key, MaxON, sep=sep):
                     break
+                ckey, cn = splitOnKey(ckey, sep=sep)
+                if key and not ckey == key:  # longer key that comes between
+                    continue
                 yield (ckey, cn, cval)
 
 
-- 
2.43.0


From 850b40409406f63cb9b0d79f07781329b1b994b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 59/81] fix: keys and witnesses of an event in force are those
 of its own prior events

---
 src/keri/core/eventing.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 78d2bfd..2a4c943 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4255,7 +4255,7 @@ class Kevery:
         Returns .db.prefixes"""
         return self.db.prefixes
 
-    def fetchWitnessState(self, pre, sn):
+    def fetchWitnessState(self, pre, sn, said=None):
         """ Returns the list of witness for the identifier prefix at the sequence number
 
         Returns the witness state (list of witnesses) at the given sequence number (sn) of the
@@ -4266,16 +4266,21 @@ class Kevery:
         Parameters:
             pre (str): identifier prefix qb64
             sn (int): sequence number of the event for which witness state is desired
+            said (str|None): said of the event for which witness state is desired.
+                None means last event at or before sn.
 
         Returns:
             list:  list of Prefixer objects representing the witness state for the identifier prefix at
                 the sequence number"""
         preb = pre.encode("utf-8")
-        for digb in self.db.kels.getBackIter(keys=preb, on=sn):
-            serder = self.db.evts.get(keys=(preb, digb))
+        if said is None:
+            said = next(self.db.kels.getBackIter(keys=preb, on=sn), None)
+
+        # follow prior event digs since there may be superseded events at lesser sn
+        while said and (serder := self.db.evts.get(keys=(preb, said))) is not None:
             if serder.estive:
-                wits = self.db.wits.get(keys=(preb, digb))
-                return wits
+                return self.db.wits.get(keys=(preb, said))
+            said = serder.ked["p"]
 
         return []
 
@@ -5732,23 +5737,19 @@ class Kevery:
             pre: qb64 of identifier prefix for KEL
             sn: int sequence number of event in KEL of pre"""
 
-        found = False
-        while not found:
-            dig = self.db.kels.getLast(keys=pre, on=sn)
-            if not dig:
-                return None
-
+        dig = self.db.kels.getLast(keys=pre, on=sn)
+        while dig:
             # retrieve event by dig
-            dig = dig.encode("utf-8")
             if not (serder := self.db.evts.get(keys=(pre, dig))):
                 return None
 
             if serder.ked["t"] in (Ilks.icp, Ilks.dip, Ilks.rot, Ilks.drt):
                 return serder  # establishment event so return
 
-            sn = int(serder.ked["s"], 16) - 1  # set sn to previous event
-            if sn < 0:  # no more events
-                return None
+            # previous event, may not be last at its sn when superseded
+            dig = serder.ked["p"]
+
+        return None
 
 
     def escrowMFEvent(self, serder, sigers, wigers=None,
-- 
2.43.0


From f4c124eab8efa3246761e32d62c735fd3e7a4b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 60/81] fix: refuse receipts of events that are not the last
 accepted one at their sn

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 2a4c943..0579f66 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4546,8 +4546,8 @@ class Kevery:
 
         if ldig is not None:  # verify digs match
             # retrieve event by dig assumes if ldig is not None that event exists at ldig
-            dgkey = dgKey(serder.preb, serder.saidb)
-            lserder = self.db.evts.get(keys=(serder.preb, serder.saidb))  # retrieve receipted event at dig
+            dgkey = dgKey(serder.preb, ldig)
+            lserder = self.db.evts.get(keys=(serder.preb, ldig))  # retrieve receipted event at dig
             # assumes db ensures that lserder must not be none
             if not lserder.compare(said=ked["d"]):  # stale receipt at sn discard
                 raise ValidationError("Stale receipt at sn = {} for rct = {}."
-- 
2.43.0


From 9ee0ec7b8b9e600a6686e62467707700861c6384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 61/81] fix: attached receipts of witnesses are credited to the
 witnesses

---
 src/keri/core/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 0579f66..f3ee134 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4956,7 +4956,8 @@ class Kevery:
                     continue  # skip own receipt attachment on non-local event
 
             if cigar.verfer.verify(cigar.raw, serder.raw):
-                wits = self.fetchWitnessState(pre, sn)
+                wits = [wit.qb64 for wit in
+                        self.fetchWitnessState(pre, sn, said=ldig)]
                 rpre = cigar.verfer.qb64  # prefix of receiptor
                 if rpre in wits:  # its a witness receipt
                     index = wits.index(rpre)
-- 
2.43.0


From 3b75c50a4d308bbf34bb0572cc4747ac63e8fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 62/81] fix: escrowed receipts are credited to the witnesses of
 the receipted event and not the current ones

---
 src/keri/core/eventing.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index f3ee134..c391bf1 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6913,10 +6913,9 @@ class Kevery:
                         logger.trace("Kevery unescrow error: %s", msg)
                         raise UnverifiedReceiptError(msg)
 
-                    # get current wits from kever state assuming not stale
-                    # receipt. Need function here to compute wits for actual
-                    # state at pre, sn. XXXX
-                    wits = self.kevers[serder.pre].wits
+                    # get wits for actual state at receipted event
+                    wits = [wit.qb64 for wit in
+                            self.fetchWitnessState(pre, sn, said=serder.said)]
                     rpre = cigar.verfer.qb64  # prefix of receiptor
                     if rpre in wits:  # its a witness receipt
                         # this only works for extra receipts that come in later
@@ -7198,11 +7197,12 @@ class Kevery:
                                           "".format(wits, serder.ked))
 
             elif serder.ked['t'] in (Ilks.rot, Ilks.drt):  # rotation compute from state
-                # calculate wits from rotation and kever key state.
+                # calculate wits from rotation and state at prior event.
                 if serder.pre not in self.kevers:
                     # kever not ready yet, can't process rotation witness receipts
                     return False  # not found, caller should keep in escro
-                wits = self.kevers[serder.pre].wits  # get wits from key state
+                wits = [wit.qb64 for wit in  # get wits from state at prior event
+                        self.fetchWitnessState(pre, sn, said=serder.ked['p'])]
                 cuts = serder.ked['br']
                 adds = serder.ked['ba']
                 witset = oset(wits)
@@ -7225,9 +7225,10 @@ class Kevery:
                                           "for evt={}.".format(self.wits, adds, serder.ked))
                 wits = list((witset - cutset) | addset)
 
-            else:  # interaction so get wits from kever key state
+            else:  # interaction so get wits from state at prior event
                 # would not be in this escrow if out of order event
-                wits = self.kevers[serder.pre].wits  # get wits fromkey state
+                wits = [wit.qb64 for wit in
+                        self.fetchWitnessState(pre, sn, said=serder.ked['p'])]
 
             if cigar:  # if recipter is a witness make wiger
                 rpre = cigar.verfer.qb64  # prefix of receiptor
-- 
2.43.0


From 3816722a4c67c33b31e3d7f32cec04afe79e5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 63/81] fix: signatures held in escrow that do not verify are
 not kept for the accepted event

---
 src/keri/core/eventing.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c391bf1..1ad3170 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3726,6 +3726,17 @@ class Kever:
             self.db.esrs.put(keys=dgkeys, val=esr)
 
         pre = self.prefixer.qb64
+        if first:  # drop signatures stored when escrowed that do not verify
+            for sdb, vsigers, verfers in (
+                    (self.db.sigs, sigers, serder.verfers or self.verfers),
+                    (self.db.wigs, wigers, [Verfer(qb64=wit) for wit in
+                                (wits if wits is not None else self.wits)])):
+                good = [siger.qb64 for siger in vsigers] if vsigers else []
+                for siger in sdb.get(keys=dgkey):
+                    if (siger.qb64 not in good and not
+                            verifySigs(serder.raw, [siger], verfers)[0]):
+                        sdb.rem(keys=dgkey, val=siger)
+
         if first:  # append event dig to first seen database in order
             fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
             if firner and fn != firner.sn:  # cloned replay but replay fn not match
-- 
2.43.0


From 661203f9c67260f98654f644fefad90129d93f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 64/81] fix: hold receipt groups for events not yet accepted

---
 src/keri/core/eventing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 1ad3170..ae8878c 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4744,6 +4744,9 @@ class Kevery:
             if tsgs:
                 self.escrowTRGroups(serder, tsgs)
 
+            if rsgs:
+                self.escrowTRGroups(serder, rsgs)
+
             if wigers:
                 self.escrowUWReceipt(serder=serder, wigers=wigers, said=ked["d"])
 
-- 
2.43.0


From 130ed1e2da81b3f5d31ad76f9aacc5dfa9f00228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 65/81] fix: signatures of accepted events are not added to by
 escrowing them again

---
 src/keri/core/eventing.py | 51 ++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index ae8878c..6084b83 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -313,6 +313,24 @@ def deTransReceiptQuintuple(data, strip=False):
     return ediger, sprefixer, snumber, sdiger, siger
 
 
+def escrowSigs(db, serder, sigers, wigers=None):
+    """Hold the signatures given with an escrowed event. Those of an event already
+    first seen, such as one since superseded, are all verified and so not added to.
+
+    Parameters:
+        db (Baser): instance of key event log database
+        serder (SerderKERI): instance of escrowed event
+        sigers (list | None): of Siger instances of indexed controller sigs
+        wigers (list | None): of Siger instances of indexed witness sigs"""
+    dgkey = dgKey(serder.preb, serder.saidb)
+    if db.fons.get(keys=dgkey):  # already first seen
+        return
+    if sigers:
+        db.sigs.put(keys=dgkey, vals=sigers)  # idempotent
+    if wigers:
+        db.wigs.put(keys=dgkey, vals=wigers)  # idempotent
+
+
 def verifySigs(raw, sigers, verfers):
     """
     Returns tuple of (vsigers, vindices) where:
@@ -3789,10 +3807,8 @@ class Kever:
             self.db.esrs.put(keys=dgkey, val=esr)
 
         self.db.dtss.put(keys=dgkey, val=Dater())
-        self.db.sigs.put(keys=(serder.preb, serder.saidb), vals=sigers)
+        escrowSigs(self.db, serder, sigers, wigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        if wigers:
-            self.db.wigs.put(keys=dgkey, vals=wigers)
         if delsner and delsger:
             self.db.udes.put(keys=dgkey, val=(delsner, delsger))
 
@@ -3826,10 +3842,8 @@ class Kever:
             self.db.esrs.put(keys=dgkey, val=esr)
 
         self.db.dtss.put(keys=dgkey, val=Dater())
-        self.db.sigs.put(keys=dgkey, vals=sigers)
+        escrowSigs(self.db, serder, sigers, wigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        if wigers:
-            self.db.wigs.put(keys=(serder.preb, serder.saidb), vals=wigers)
         self.db.delegables.add(snKey(serder.preb, serder.sn), serder.saidb)
         # log escrowed
         logger.debug("Kever: escrowed delegable event =\n%s\n", serder.pretty())
@@ -3854,10 +3868,7 @@ class Kever:
         local = True if local else False
         dgkey = dgKey(serder.preb, serder.saidb)
         self.db.dtss.put(keys=dgkey, val=Dater())  # idempotent
-        if sigers:
-            self.db.sigs.put(keys=dgkey, vals=sigers)
-        if wigers:
-            self.db.wigs.put(keys=dgkey, vals=wigers)
+        escrowSigs(self.db, serder, sigers, wigers)
         if delsner and delsger:
             self.db.udes.put(keys=dgkey, val=(delsner, delsger))  # idempotent
 
@@ -3896,10 +3907,7 @@ class Kever:
         dgkey = dgKey(serder.preb, serder.saidb)
         self.db.dtss.put(keys=dgkey, val=Dater())  # idempotent
 
-        if sigers:
-            self.db.sigs.put(keys=dgkey, vals=sigers)
-        if wigers:
-            self.db.wigs.put(keys=dgkey, vals=wigers)
+        escrowSigs(self.db, serder, sigers, wigers)
         if delsner and delsger:
             self.db.udes.put(keys=dgkey, val=(delsner, delsger))  # idempotent
 
@@ -3948,10 +3956,7 @@ class Kever:
         dgkey = dgKey(serder.preb, serder.saidb)
         self.db.dtss.put(keys=dgkey, val=Dater())  # idempotent
 
-        if sigers:  # idempotent
-            self.db.sigs.put(keys=dgkey, vals=sigers)
-        if wigers:  # idempotent
-            self.db.wigs.put(keys=dgkey, vals=wigers)
+        escrowSigs(self.db, serder, sigers, wigers)
         if delsner and delsger:  # non-idempotent pin to repair replace
             self.db.udes.pin(keys=dgkey, val=(delsner, delsger))  # non-idempotent
             logger.debug(f"Kever state: Replaced escrow source couple sn="
@@ -5794,10 +5799,8 @@ class Kevery:
             self.db.esrs.put(keys=(serder.preb, serder.saidb), val=esr)
 
         self.db.dtss.put(keys=dgkey, val=Dater())
-        self.db.sigs.put(keys=dgkey, vals=sigers)
+        escrowSigs(self.db, serder, sigers, wigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        if wigers:
-            self.db.wigs.put(keys=dgkey, vals=wigers)
         if number and diger:
             self.db.udes.put(keys=dgkey, val=(number, diger))  # idempotent
         self.db.misfits.add(keys=(serder.pre, serder.snh), val=serder.saidb)
@@ -5830,10 +5833,8 @@ class Kevery:
             self.db.esrs.put(keys=dgkey, val=esr)
 
         self.db.dtss.put(keys=dgkey, val=Dater())
-        self.db.sigs.put(keys=dgkey, vals=sigers)
+        escrowSigs(self.db, serder, sigers, wigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        if wigers:
-            self.db.wigs.put(keys=dgkey, vals=wigers)
         if delsner and delsger:
             self.db.udes.put(keys=dgkey, val=(delsner, delsger))  # idempotent
         self.db.ooes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
@@ -5886,7 +5887,7 @@ class Kevery:
             self.db.esrs.put(keys=dgkey, val=esr)
 
         self.db.dtss.put(keys=dgkey, val=Dater())
-        self.db.sigs.put(keys=dgkey, vals=sigers)
+        escrowSigs(self.db, serder, sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
         self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
         # log duplicitous
-- 
2.43.0


From 5ab2c799aa30a6b343e231fabe229cb3260df5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 66/81] fix: read back exchange messages of non-transferable
 senders

---
 src/keri/peer/exchanging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 86c7ae8..48a0a75 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -756,8 +756,10 @@ def verify(hby, serder):
             raise MissingSignatureError(msg)
         accepted = True
 
-    cigars = hby.db.ecigs.get(keys=(serder.said,))
-    for cigar in cigars:
+    cigars = []
+    for verfer, cigar in hby.db.ecigs.get(keys=(serder.said,)):
+        cigar.verfer = verfer
+        cigars.append(cigar)
         if not cigar.verfer.verify(cigar.raw, serder.raw):  # cig not verify
             msg = f"Failure satisfying exn on cigs for {cigar} for evt = {serder.said}"
             logger.info(msg)
-- 
2.43.0


From d7f670ba43ddb674747cbf4c2b3e490e4e1111c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 67/81] fix: exchange messages of transferable senders are
 judged by their key state

---
 src/keri/peer/exchanging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 48a0a75..9a9dcbb 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -119,7 +119,7 @@ class Exchanger:
 
         elif cigars:
             for cigar in cigars:
-                if sender != cigar.verfer.qb64:  # cig not by aid
+                if sender != cigar.verfer.qb64 or cigar.verfer.transferable:  # cig not by non-trans aid
                     msg = (f"Skipped cig not from aid={sender} route={route} "
                            f"for exn evt = {serder.said} receiver={serder.ked.get('rp', '')}")
                     logger.info(msg)
-- 
2.43.0


From 6877aed276084d3d12db872a65ecd07c88c713f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 68/81] fix: exchange message that fails verification of its
 handler with an attribute error is refused

---
 src/keri/peer/exchanging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 9a9dcbb..8fa49e2 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -170,13 +170,13 @@ class Exchanger:
                 raise ValidationError(f"essr diger={diger.qb64} is invalid against content")
 
         # Perform behavior specific verification, think IPEX chaining requirements
-        try:
+        if hasattr(behavior, "verify"):
             if not behavior.verify(serder=serder, **kwa):
                 logger.error("exn event for route %s failed behavior verification. said=%s", route, serder.said)
                 logger.debug(f"Event=\n%s\n", serder.pretty())
                 return
 
-        except AttributeError:
+        else:
             logger.debug("Behavior for %s missing or does not have verify for said %s", route, serder.said)
             logger.debug("Exn Event Body=\n%s\n", serder.pretty())
 
-- 
2.43.0


From 139601d27d68a55e603c6ac3da13cf42c6543313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 69/81] fix: escrowed exchange messages keep their essr
 attachments

---
 src/keri/peer/exchanging.py | 40 ++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 8fa49e2..077b499 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -83,6 +83,19 @@ class Exchanger:
         sender = serder.ked["i"]
         nests = kwa.get("nests")
 
+        kwa = dict()
+        if essrs:
+            kwa["essr"] = b''.join([texter.raw for texter in essrs])
+
+        if isinstance(serder.seals, str):
+            if 'essr' not in kwa:
+                raise ValidationError("at least one essr attachment is required")
+
+            essr = kwa['essr']
+            dig = serder.seals
+            diger = Diger(qb64=dig)
+            if not diger.verify(ser=essr):
+                raise ValidationError(f"essr diger={diger.qb64} is invalid against content")
 
         behavior = self.routes[route] if route in self.routes else None
         if tsgs:
@@ -96,7 +109,7 @@ class Exchanger:
 
                 if prefixer.qb64 not in self.kevers or self.kevers[prefixer.qb64].sn < snumber.sn:
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
+                                          nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = f"Unable to find sender {prefixer.qb64} in kevers for evt = {serder.said}"
                     logger.info(msg)
@@ -109,7 +122,7 @@ class Exchanger:
 
                 if not tholder.satisfy(indices):  # We still don't have all the sigers, need to escrow
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
+                                          nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = (f"Not enough signatures in idx={indices} route={route} "
                            f"for evt = {serder.said} receiver={serder.ked.get('rp', '')}")
@@ -134,7 +147,7 @@ class Exchanger:
                     raise MissingSignatureError(msg)
         else:
             self.escrowPSEvent(serder=serder, tsgs=[], pathed=ptds,
-                               nests=nests)
+                               nests=nests, essrs=essrs)
             msg = (
                 f"Failure satisfying exn, no cigs or sigs for evt = {serder.said} "
                 f"on route {route} receiver = {serder.ked.get('rp', '')}")
@@ -144,7 +157,6 @@ class Exchanger:
 
         e = Pather(parts=["e"])
 
-        kwa = dict()
         attachments = []
         for p in ptds:
             pattach = bytearray(p)
@@ -156,19 +168,6 @@ class Exchanger:
         kwa["attachments"] = attachments
         if nests and (route.startswith("/multisig") or route.startswith("/ipex")):
             kwa["nests"] = nests
-        if essrs:
-            kwa["essr"] = b''.join([texter.raw for texter in essrs])
-
-        if isinstance(serder.seals, str):
-            if 'essr' not in kwa:
-                raise ValidationError("at least one essr attachment is required")
-
-            essr = kwa['essr']
-            dig = serder.seals
-            diger = Diger(qb64=dig)
-            if not diger.verify(ser=essr):
-                raise ValidationError(f"essr diger={diger.qb64} is invalid against content")
-
         # Perform behavior specific verification, think IPEX chaining requirements
         if hasattr(behavior, "verify"):
             if not behavior.verify(serder=serder, **kwa):
@@ -195,7 +194,7 @@ class Exchanger:
         """ Process all escrows for `exn` messages"""
         self.processEscrowPartialSigned()
 
-    def escrowPSEvent(self, serder, tsgs, pathed, nests=None):
+    def escrowPSEvent(self, serder, tsgs, pathed, nests=None, essrs=None):
         """ Escrow event that does not have enough signatures.
 
         Parameters:
@@ -203,6 +202,7 @@ class Exchanger:
             tsgs (list): quadlet of prefixer seqner, saider, sigers
             pathed (list): list of bytes of attached paths
             nests (list | None): parsed V2 nested substreams to preserve
+            essrs (list | None): ESSR streams as Texters to preserve
 
         """
         dig = serder.said
@@ -216,6 +216,8 @@ class Exchanger:
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
+        if essrs:
+            self.hby.db.essrs.pin(keys=(dig,), vals=essrs)
         return self.hby.db.epse.put(keys=(dig,), val=serder)
 
     def processEscrowPartialSigned(self):
@@ -271,6 +273,7 @@ class Exchanger:
                 self.hby.db.epsd.rem(dig)
                 self.hby.db.esigs.rem(dig)
                 if not saved:
+                    self.hby.db.essrs.rem(keys=(dig,))
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
                 if logger.isEnabledFor(logging.DEBUG):
@@ -283,6 +286,7 @@ class Exchanger:
                 self.hby.db.epsd.rem(dig)
                 self.hby.db.esigs.rem(dig)
                 if not saved:
+                    self.hby.db.essrs.rem(keys=(dig,))
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
                     logger.info("Exchanger unescrow rejected exchange: said=%s", serder.said)
-- 
2.43.0


From c6216202a77702f66a9232a3e7194484404acfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 70/81] fix: exchange messages are delivered once and stored
 with the signatures that verified

---
 src/keri/peer/exchanging.py | 53 ++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 077b499..8d255f4 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -98,6 +98,8 @@ class Exchanger:
                 raise ValidationError(f"essr diger={diger.qb64} is invalid against content")
 
         behavior = self.routes[route] if route in self.routes else None
+        saved = self.complete(serder.said)  # already delivered
+        vtsgs = []  # with only verified signatures
         if tsgs:
             for prefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg
                 if sender != prefixer.qb64:  # sig not by aid
@@ -108,7 +110,7 @@ class Exchanger:
                     raise MissingSignatureError(msg)
 
                 if prefixer.qb64 not in self.kevers or self.kevers[prefixer.qb64].sn < snumber.sn:
-                    if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
+                    if not saved and self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
                                           nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = f"Unable to find sender {prefixer.qb64} in kevers for evt = {serder.said}"
@@ -118,10 +120,14 @@ class Exchanger:
 
                 # Verify the signatures are valid and that the signature threshold as of the signing event is met
                 tholder, verfers = self.hby.db.resolveVerifiers(pre=prefixer.qb64, sn=snumber.sn, dig=sdiger.qb64)
-                _, indices = verifySigs(serder.raw, sigers, verfers)
+                if saved:  # late signatures join those it is saved with
+                    sigers = sigers + self.hby.db.esigs.get(keys=(serder.said, prefixer.qb64,
+                                                                  f"{snumber.sn:032x}", sdiger.qb64))
+                vsigers, indices = verifySigs(serder.raw, sigers, verfers)
+                vtsgs.append((prefixer, snumber, sdiger, vsigers))
 
                 if not tholder.satisfy(indices):  # We still don't have all the sigers, need to escrow
-                    if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
+                    if not saved and self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
                                           nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = (f"Not enough signatures in idx={indices} route={route} "
@@ -146,8 +152,9 @@ class Exchanger:
                     logger.debug("Exchange message body=\n%s\n", serder.pretty())
                     raise MissingSignatureError(msg)
         else:
-            self.escrowPSEvent(serder=serder, tsgs=[], pathed=ptds,
-                               nests=nests, essrs=essrs)
+            if not saved:
+                self.escrowPSEvent(serder=serder, tsgs=[], pathed=ptds,
+                                   nests=nests, essrs=essrs)
             msg = (
                 f"Failure satisfying exn, no cigs or sigs for evt = {serder.said} "
                 f"on route {route} receiver = {serder.ked.get('rp', '')}")
@@ -155,6 +162,10 @@ class Exchanger:
             logger.debug("Exchange message body=\n%s\n", serder.pretty())
             raise MissingSignatureError(msg)
 
+        if saved:  # do not deliver again
+            self.logSigs(serder, vtsgs, cigars if not tsgs else None)
+            return
+
         e = Pather(parts=["e"])
 
         attachments = []
@@ -179,8 +190,9 @@ class Exchanger:
             logger.debug("Behavior for %s missing or does not have verify for said %s", route, serder.said)
             logger.debug("Exn Event Body=\n%s\n", serder.pretty())
 
-        # Always persist events
-        self.logEvent(serder, ptds, tsgs, cigars, essrs, nests=nests)
+        # Always persist events, with only signatures that verified
+        self.hby.db.esigs.trim(keys=(serder.said, ""))
+        self.logEvent(serder, ptds, vtsgs, cigars if not tsgs else None, essrs, nests=nests)
         self.cues.append(dict(kin="saved", said=serder.said))
 
         # Execute any behavior specific handling, not sure if this should be different than verify
@@ -207,6 +219,8 @@ class Exchanger:
         """
         dig = serder.said
         for prefixer, seqner, ssaider, sigers in tsgs:  # iterate over each tsg
+            if prefixer.qb64 != serder.ked["i"]:  # not by sender
+                continue
             quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
             for siger in sigers:
                 self.hby.db.esigs.add(keys=quadkeys, val=siger)
@@ -298,17 +312,9 @@ class Exchanger:
         dig = serder.said
         pdig = serder.ked['p']
         pathed = pathed or []
-        tsgs = tsgs or []
-        cigars = cigars or []
         essrs = essrs or []
 
-        for prefixer, seqner, ssaider, sigers in tsgs:  # iterate over each tsg
-            quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
-            for siger in sigers:
-                self.hby.db.esigs.add(keys=quadkeys, val=siger)
-        for cigar in cigars:
-            self.hby.db.ecigs.add(keys=(dig,), val=(cigar.verfer, cigar))
-
+        self.logSigs(serder, tsgs, cigars)
         diger = Diger(qb64=serder.said)
         self.hby.db.epath.pin(keys=(dig,), vals=[bytes(p) for p in pathed])
         if nests:
@@ -321,6 +327,21 @@ class Exchanger:
 
         self.hby.db.exns.put(keys=(dig,), val=serder)
 
+    def logSigs(self, serder, tsgs=None, cigars=None):
+        """ Save verified signatures of exchange message
+
+        Parameters:
+            serder (Serder): instance of exchange message
+            tsgs (list | None): quadruples of prefixer, seqner, saider, sigers
+            cigars (list | None): Cigar instances of non-trans signatures
+        """
+        for prefixer, seqner, ssaider, sigers in tsgs or []:  # iterate over each tsg
+            quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
+            for siger in sigers:
+                self.hby.db.esigs.add(keys=quadkeys, val=siger)
+        for cigar in cigars or []:
+            self.hby.db.ecigs.add(keys=(serder.said,), val=(cigar.verfer, cigar))
+
     def lead(self, hab, said):
         """ Determines is current member represented by hab is the lead of an exn message
 
-- 
2.43.0


From 29d02bb82cd7ebd218e7dc2eab3d729f16e7a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 71/81] fix: signatures of dropped escrowed exchange messages
 are removed

---
 src/keri/peer/exchanging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 8d255f4..17dbb84 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -285,8 +285,8 @@ class Exchanger:
                 saved = self.hby.db.exns.get(keys=(dig,)) is not None
                 self.hby.db.epse.rem(dig)
                 self.hby.db.epsd.rem(dig)
-                self.hby.db.esigs.rem(dig)
                 if not saved:
+                    self.hby.db.esigs.trim(keys=(dig, ""))
                     self.hby.db.essrs.rem(keys=(dig,))
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
@@ -298,8 +298,8 @@ class Exchanger:
                 saved = self.hby.db.exns.get(keys=(dig,)) is not None
                 self.hby.db.epse.rem(dig)
                 self.hby.db.epsd.rem(dig)
-                self.hby.db.esigs.rem(dig)
                 if not saved:
+                    self.hby.db.esigs.trim(keys=(dig, ""))
                     self.hby.db.essrs.rem(keys=(dig,))
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
-- 
2.43.0


From fb54722959375d2beb2a91c0fe9fa7e60de29430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 72/81] fix: compaction and expansion use the labels and saids
 they were given

---
 src/keri/core/mapping.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 4ce0f7e..69485c6 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -990,14 +990,15 @@ class Compactor(Mapper):
             paths.append(path)
             if saidify:
                 # leafer Mapper makes deepcopy of input mad arg
-                leafer = Mapper(mad=mad, makify=True,
+                leafer = Mapper(mad=mad, makify=True, strict=self.strict,
                                 saids=self.saids, saidive=True, kind=self.kind)
                 for l in leafer.saids:  # assign computed saids to original mad
                     if l in mad:
                         mad[l] = leafer.mad[l]
             else:
                 # leafer Mapper makes deepcopy of input mad arg
-                leafer = Mapper(mad=mad, makify=True, kind=self.kind)
+                leafer = Mapper(mad=mad, makify=True, strict=self.strict,
+                                saids=self.saids, kind=self.kind)
 
             self.leaves[path] = leafer
 
@@ -1132,7 +1133,8 @@ class Compactor(Mapper):
             pmad = deepcopy(leafer.mad)  # expand pmad with copy of leafer
             used.append(path)
             # don't compute or verify top-level saids on partials makify=Fase verify=False
-            partial = Compactor(mad=pmad, verify=False, kind=self.kind)
+            partial = Compactor(mad=pmad, verify=False, strict=self.strict,
+                                saids=self.saids, kind=self.kind)
             # don't compute saids on leaves of partials
             index = partial.trace()  # default saidify == False
             self.partials[tuple(index)] = partial
@@ -1151,7 +1153,8 @@ class Compactor(Mapper):
             if created:  # create new partial
                 # compactor makes copy pmad so can reuse pmad to start next partial
                 # don't compute or verify top-level saids on partials makify=Fase verify=False
-                partial = Compactor(mad=pmad, verify=False, kind=self.kind)
+                partial = Compactor(mad=pmad, verify=False, strict=self.strict,
+                                    saids=self.saids, kind=self.kind)
                 # don't compute saids on leaves of partials
                 index = partial.trace()  # default saidify == False
                 self.partials[tuple(index)] = partial
-- 
2.43.0


From 714a9635ba13955272fe009696c3660a424f9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 73/81] fix: refuse sections whose labels are ambiguous in
 paths

---
 src/keri/core/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 69485c6..7671b38 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -982,6 +982,9 @@ class Compactor(Mapper):
                     raise InvalidValueError(f"Got Mapping not str for said field"
                                             f" label={l} value={v}")
                 if self._hassaid(mad=v):
+                    if not isinstance(l, str) or '.' in l:  # ambiguous in path
+                        raise InvalidValueError(f"Invalid label={l} of nested"
+                                                f" block with said")
                     isleaf = False
                     paths = self._trace(mad=v, paths=paths, path=path + "." + l,
                                         saidify=saidify)
-- 
2.43.0


From fa077a7cfb50570d35ed0c806163249f10aab795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 74/81] fix: refuse native field maps with duplicate labels

---
 src/keri/core/mapping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 7671b38..e59d986 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -476,6 +476,8 @@ class Mapper:
                         label = Labeler(qb64b=ser, strip=True).label
                     else:
                         label = Labeler(qb64b=ser, strip=True).text
+                    if label in mad:
+                        raise DeserializeError(f"Duplicate {label=} in map")
                     mad[label] = self._deserialize(ser)
                 except  InvalidValueError as ex:
                     raise DeserializeError(f"Invalid value while deserializing") from ex
@@ -539,6 +541,8 @@ class Mapper:
                         label = Labeler(qb64b=mser, strip=True).label
                     else:
                         label = Labeler(qb64b=mser, strip=True).text
+                    if label in value:
+                        raise DeserializeError(f"Duplicate {label=} in map")
                     value[label] = self._deserialize(mser)
             else:
                 raise DeserializeError("Invalid counter name={vctr.name}")
-- 
2.43.0


From 9478cc0167f5f65424a92b8f7eeed5e170378674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 75/81] fix: refuse truncated values of native field maps

---
 src/keri/core/mapping.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index e59d986..486a6b9 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -521,10 +521,15 @@ class Mapper:
             value (None|bool|int|float|str|list|dict): deserialized value
 
         """
+        if not ser:
+            raise DeserializeError("Missing value")
+
         if ser[0] == ord(b'-'):  # value is group (Counter) serialization
             vctr = Counter(qb64b=ser, strip=True)
             if vctr.name in ('GenericListGroup', 'BigGenericListGroup'):
                 ls = vctr.byteCount()
+                if len(ser) < ls:
+                    raise DeserializeError(f"Truncated list need {ls} bytes")
                 lser = ser[:ls]  # extract list bytes
                 del ser[:ls]  # strip list bytes from ser
                 value = []
@@ -533,6 +538,8 @@ class Mapper:
 
             elif vctr.name in ('GenericMapGroup', 'BigGenericMapGroup'):
                 ms = vctr.byteCount()
+                if len(ser) < ms:
+                    raise DeserializeError(f"Truncated map need {ms} bytes")
                 mser = ser[:ms]  # extract map bytes
                 del ser[:ms]  # strip map bytes from ser
                 value = {}
-- 
2.43.0


From c0287c4116cb8832beca8cd304cb5fbae0c221f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 76/81] fix: make structures of sequences of values

---
 src/keri/core/structing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index fc5397b..ca20e90 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -829,7 +829,7 @@ class Structor:
 
                         cast = clan(**cast)  # convert to clan
 
-                    elif isinstance(cast, helping.isNonStringSequence):
+                    elif helping.isNonStringSequence(cast):
                         cast = clan(*cast)  # convert to clan assumes elements in correct order
 
                     else:
@@ -866,7 +866,7 @@ class Structor:
 
                         crew = clan(**crew)  # allpy clan
 
-                    elif isinstance(crew, helping.isNonStringSequence):
+                    elif helping.isNonStringSequence(crew):
                         crew = clan(*crew)  # apply clan assumes elements in correct order
 
                     else:
-- 
2.43.0


From 3cccba514d4dfa984f4f4d81c11bcf2bf2a588fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 77/81] fix: refuse truncated groups of structures

---
 src/keri/core/structing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index ca20e90..097742e 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -10,7 +10,7 @@ from collections.abc import Mapping
 from dataclasses import dataclass, astuple
 
 from ..kering import (Colds, ValidationError,
-                      InvalidValueError, EmptyMaterialError)
+                      InvalidValueError, EmptyMaterialError, ShortageError)
 from ..help import helping
 
 from .coring import (IceMapDom, Diger, DigDex, Prefixer, Number, Verser,
@@ -685,6 +685,8 @@ class Structor:
             cs = ctr.byteSize(cold=Colds.txt)  # counter byte size
             es = ctr.byteCount(cold=Colds.txt)  # enclosed content byte size
             gs = cs + es  # total group size including counter
+            if len(qb64b) < gs:
+                raise ShortageError(f"Need {gs - len(qb64b)} more bytes of group")
             qb64b = bytearray(qb64b[cs:gs])  # copy contents as bytearray so can strip
             while qb64b:
                 structors.append(cls(clan=clan, qb64b=qb64b, strip=True))
@@ -698,6 +700,8 @@ class Structor:
             cs = ctr.byteSize(cold=Colds.bny)  # counter byte size
             es = ctr.byteCount(cold=Colds.bny)  # enclosed content byte size
             gs = cs + es  # total group size including counter
+            if len(qb2) < gs:
+                raise ShortageError(f"Need {gs - len(qb2)} more bytes of group")
             qb2 = bytearray(qb2[cs:gs])  # copy contents as bytearray so can strip
             while qb2:
                 structors.append(cls(clan=clan, qb2=qb2, strip=True))
-- 
2.43.0


From 6a7c2f74b409cc4f5e85646ea65b1d5d0ff4ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 78/81] fix: enclose an empty group of structures

---
 src/keri/core/structing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index 097742e..25aabaf 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -637,7 +637,7 @@ class Structor:
                 raise InvalidValueError(f"Invalid {cold=}, not {Colds.txt} or {Colds.bny}")
 
         if clan is None:  # empty structors
-            clan = list(cls.ClanCodens.keys())[0]  # use default as zeroth clan
+            clan = cls.Clans[list(cls.ClanCodens.keys())[0]]  # use default as zeroth clan
 
         try:
             coden = cls.ClanCodens[clan.__name__]
-- 
2.43.0


From cece28f2cb96cfde232a351eaa38b665fc899204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 79/81] fix: serialization of a compacted map is that of its
 compact form

---
 src/keri/core/mapping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 486a6b9..69f42f1 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -1125,6 +1125,8 @@ class Compactor(Mapper):
             if not paths or self.iscompact:  # either no leaves or compact
                 break
 
+        self._raw, self._count = self._exhale(kind=self.kind)  # as compacted
+
 
     def expand(self, greedy=True):
         """Recursively build .partials from .leaves.
-- 
2.43.0


From f6e721d168abf020cfe84cb9861c79fbc882a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 80/81] fix: paths of nested blocks go through field maps only

---
 src/keri/core/mapping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 69f42f1..96ced30 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -1061,7 +1061,7 @@ class Compactor(Mapper):
         tail = mad if mad is not None else self.mad
         parts = path.split(".")[1:]  # split and strip off top level part
         for part in parts:
-            if part not in tail:
+            if not isinstance(tail, Mapping) or part not in tail:
                 return None
             tail = tail[part]  # descend on level down
         return tail
@@ -1093,10 +1093,10 @@ class Compactor(Mapper):
 
         parts = parts[1:]  # strip off top
         for part in parts:  # if parts empty then top-level is super mad
-            if part not in mad:  # path part not in mad
+            if not isinstance(mad, Mapping) or part not in mad:  # not in mad
                 return (None, tail)
             mad = mad[part]  # descend on level down
-        if tail not in mad:  # tail not in mad so path not compatible with  mad
+        if not isinstance(mad, Mapping) or tail not in mad:  # tail not in mad so path not compatible with  mad
             return (None, None)
         return (mad, tail)
 
-- 
2.43.0


From 78dc4256edd2f5e64e63c81fd55b1b4e4fc0b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 81/81] fix: keep the serialization a compactor was made with,
 as its users expect (reverts cece28f)

---
 src/keri/core/mapping.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 96ced30..4c1dd1f 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -1125,8 +1125,6 @@ class Compactor(Mapper):
             if not paths or self.iscompact:  # either no leaves or compact
                 break
 
-        self._raw, self._count = self._exhale(kind=self.kind)  # as compacted
-
 
     def expand(self, greedy=True):
         """Recursively build .partials from .leaves.
-- 
2.43.0

