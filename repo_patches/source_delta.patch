From c0fb75b6665f1edfe5af8aec587cb761f9f3db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 001/152] fix: WebDBer.appendOnIoSetVals marks its store dirty
 so flush persists the append

---
 src/keri/db/webdbing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index d9f55ba..4144481 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1591,6 +1591,7 @@ class WebDBer:
                     f"Failed appending {val=} at {key=} {on=} offset {ion=}."
                 )
             items[iokey] = val
+            db.dirty = True
 
         return on
 
-- 
2.43.0


From 21fa921012373967f7a92e2140ff838e8b041f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 002/152] fix: WebDBer.remOnAllIoSet marks its store dirty so
 flush persists the removal

---
 src/keri/db/webdbing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 4144481..44f67f1 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1781,6 +1781,7 @@ class WebDBer:
         result = False
         for iokey in toDelete:
             del items[iokey]
+            db.dirty = True
             result = True
 
         return result
-- 
2.43.0


From 8e53e463e131d328d5a9d1b8ccc0e866e8f3e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 003/152] fix: WebDBer.flush keeps writes made while a sync is
 in progress dirty

---
 src/keri/db/webdbing.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 44f67f1..b7ea37e 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -158,6 +158,7 @@ class SubDb:
         flags_persisted: True once dupsort has been loaded from or flushed to
             backing storage.
         dirty: True when items differs from the last flushed payload.
+        syncing: Number of flushes of this store still awaiting its handle.
         opened: True after the first env.open_db(...).
         items: Live ordered ``bytes -> bytes`` map used by sync CRUD methods.
     """
@@ -168,6 +169,7 @@ class SubDb:
     dupsort: bool = False
     flags_persisted: bool = False
     dirty: bool = False
+    syncing: int = 0
     opened: bool = False
     items: Any = field(default_factory=lambda: SortedDict() if SortedDict else dict())
 
@@ -318,12 +320,21 @@ class WebDBer:
         """
         count = 0
         for subdb in self._stores.values():
-            if not subdb.dirty:
+            if not subdb.dirty and not subdb.syncing:
                 continue
             subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
             subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
-            await subdb.handle.sync()
+            # Clear before awaiting so a write made while the sync is in
+            # progress marks the store dirty again for the next flush.
             subdb.dirty = False
+            subdb.syncing += 1
+            try:
+                await subdb.handle.sync()
+            except BaseException:
+                subdb.dirty = True
+                raise
+            finally:
+                subdb.syncing -= 1
             count += 1
         return count
 
-- 
2.43.0


From f4b190b0e1a1704a3973d904983904b261208354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 004/152] fix: WebDBer iterators allow removing entries within
 the iteration loop

---
 src/keri/db/webdbing.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index b7ea37e..953e58e 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -8,6 +8,7 @@ Browser-safe plain-value DBer backed by PyScript storage.
 from __future__ import annotations
 
 import json
+from functools import wraps
 from collections.abc import Awaitable, Callable, Iterable, Iterator
 from dataclasses import dataclass, field
 from typing import Any
@@ -139,6 +140,18 @@ def isNonStringIterable(obj):
     return (not isinstance(obj, (str, bytes)) and isinstance(obj, Iterable))
 
 
+def stable(func):
+    """
+    Decorates iterator method so that it iterates over the matching items as of
+    its first next. This makes it safe, as it is with LMDBer, to add or remove
+    entries within the iteration loop, such as, when processing escrows.
+    """
+    @wraps(func)
+    def wrapper(*pa, **kwa):
+        yield from list(func(*pa, **kwa))
+    return wrapper
+
+
 _RECORDS_KEY = "__records__"
 _META_KEY = "__meta__"
 _META_STORE = "__meta__"
@@ -856,6 +869,7 @@ class WebDBer:
         """
         yield from _iterOnItems(db=db, key=key if key else None, on=on, sep=sep)
 
+    @stable
     def getTopItemIter(self, db: SubDb, top: bytes = b"") -> Iterator[tuple[bytes, bytes]]:
         """
         Iterate over `(key, val)` pairs whose keys start with `top`.
@@ -1109,6 +1123,7 @@ class WebDBer:
         return True
 
 
+    @stable
     def getIoSetItemIter(self, db, key, *, ion=0, sep=b'.'):
         """Get iterator over items in IoSet at effecive key.
         When key is empty then returns empty iterator
@@ -1360,6 +1375,7 @@ class WebDBer:
             yield (key, val)
 
     
+    @stable
     def getIoSetLastItemIterAll(self, db, key=b'', *, sep=b'.'):
         """Iterates over every last added ioset entry at every effective key
         starting at key greater or equal to key.
@@ -1902,6 +1918,7 @@ class WebDBer:
             yield (key, on, val)
 
             
+    @stable
     def getOnAllIoSetItemIter(self, db, key=b'', on=0, *, sep=b'.'):
         """Iterates over each item of each set for all on >= on for key.
         When on == 0, default, then iterates over all items for all on for key.
@@ -1961,6 +1978,7 @@ class WebDBer:
             yield (ckey, con, items[iokey])
 
 
+    @stable
     def getOnAllIoSetLastItemIter(self, db, key=b'', on=0, *, sep=b'.'):
         """Iterates over last items of each set for all on >= on at key
         When on ==0, default, iterates over last items of each set for all on at key
@@ -2031,6 +2049,7 @@ class WebDBer:
             yield last
 
 
+    @stable
     def getOnAllIoSetItemBackIter(self, db, key=b"", on=None, *, sep=b'.'):
         """Iterates backwards over all set items for all on <= on for key.
         When on is None, iterates backwards over all set items for all on for key
@@ -2100,6 +2119,7 @@ class WebDBer:
             yield (ckey, con, items[ciokey])
 
 
+    @stable
     def getOnAllIoSetLastItemBackIter(self, db, key=b"", on=None, *, sep=b'.'):
         """Iterates backwards over last set items for all on <= on for key.
         When on is None iterates backwards over last set items for all on for key
@@ -2242,6 +2262,7 @@ def _serialize_meta(meta: dict[str, Any]) -> str:
     return json.dumps(meta, sort_keys=True)
 
 
+@stable
 def _iterOnItems(
     *,
     db: SubDb,
-- 
2.43.0


From 9501fdd42fb99865a5556e704952d2e63475fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 005/152] fix: numeric threshold counts each signer index only
 once

---
 src/keri/core/coring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 006fbd7..946cdf1 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4661,7 +4661,8 @@ class Tholder:
         Parameters:
             indices: list of indices (offsets into key list) of verified signatures"""
         try:
-            if self.thold > 0 and len(indices) >= self.thold:  # at least one
+            # remove duplicates with set so each index counts only once
+            if self.thold > 0 and len(set(indices)) >= self.thold:  # at least one
                 return True
 
         except Exception as ex:
-- 
2.43.0


From 1eaf1a0ccb2f517cdadfb3f368d5a8a551d9de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 006/152] fix: witness threshold counts each witness index only
 once

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b500346..413c694 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2891,7 +2891,7 @@ class Kever:
                     if toader.num != 0:  # invalid toad
                         raise ValidationError(f"Invalid toad = {toader.num} for wits = {wits}")
 
-                if len(windices) < toader.num:  # not fully witnessed yet
+                if len(set(windices)) < toader.num:  # not fully witnessed yet
                     if self.escrowPWEvent(serder=serder, wigers=wigers, sigers=sigers,
                                           delsner=delsner, delsger=delsger,
                                           local=local):
-- 
2.43.0


From d21a44b332399d64d5a13f027ae779b0e245ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 007/152] fix: fullyWitnessed counts each witness index only
 once

---
 src/keri/db/basing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 6de2d91..636e688 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2080,7 +2080,7 @@ class Baser(LMDBer):
         kever = self.kevers[serder.pre]
         toad = kever.toader.num
 
-        return not len(wigers) < toad
+        return not len({wiger.index for wiger in wigers}) < toad
 
     def resolveVerifiers(self, pre=None, sn=0, dig=None):
         """
-- 
2.43.0


From c2f5875b1db07e631699499ce515061ac7679f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 008/152] fix: key state query counts each witness index only
 once

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 413c694..32aee6d 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5624,7 +5624,7 @@ class Kevery:
             wigers = self.db.wigs.get(keys=(pre, kever.serder.saidb))
 
 
-            if len(wigers) < kever.toader.num:
+            if len({wiger.index for wiger in wigers}) < kever.toader.num:
                 self.escrowQueryNotFoundEvent(serder=serder, prefixer=source, sigers=sigers, cigars=cigars)
                 msg = f"Query not found error on event route={route} SAID={serder.said}"
                 logger.debug(msg)
-- 
2.43.0


From 23521094cbf17bc021c21db6d9009b93cdc64bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 009/152] fix: attached receipt couple of a witness is stored
 as witness receipt

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 32aee6d..bb32d05 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4894,7 +4894,7 @@ class Kevery:
                     continue  # skip own receipt attachment on non-local event
 
             if cigar.verfer.verify(cigar.raw, serder.raw):
-                wits = self.fetchWitnessState(pre, sn)
+                wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                 rpre = cigar.verfer.qb64  # prefix of receiptor
                 if rpre in wits:  # its a witness receipt
                     index = wits.index(rpre)
-- 
2.43.0


From 955ae4599c68685ca5185898baf6e8e4c9cde1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 010/152] fix: receipt of an event that is not the last at its
 sn is discarded as stale

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index bb32d05..b848420 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4485,7 +4485,7 @@ class Kevery:
         if ldig is not None:  # verify digs match
             # retrieve event by dig assumes if ldig is not None that event exists at ldig
             dgkey = dgKey(serder.preb, serder.saidb)
-            lserder = self.db.evts.get(keys=(serder.preb, serder.saidb))  # retrieve receipted event at dig
+            lserder = self.db.evts.get(keys=(serder.preb, ldig))  # retrieve last event at dig
             # assumes db ensures that lserder must not be none
             if not lserder.compare(said=ked["d"]):  # stale receipt at sn discard
                 raise ValidationError("Stale receipt at sn = {} for rct = {}."
-- 
2.43.0


From 90077c5f21863cc090101f6143225cfc86791cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 011/152] fix: tag_spec_examples does not repeat a marker the
 spec already has

---
 tools/tag_spec_examples.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/tools/tag_spec_examples.py b/tools/tag_spec_examples.py
index 584e7f3..fab7eb5 100644
--- a/tools/tag_spec_examples.py
+++ b/tools/tag_spec_examples.py
@@ -29,7 +29,7 @@ import sys
 
 _OPEN_RE = re.compile(r"^[ \t]*```[ \t]*(json|python)[ \t]*$", re.IGNORECASE)
 _CLOSE_RE = re.compile(r"^[ \t]*```[ \t]*$")
-_MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*[^>]*-->\s*$")
+_MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*([^>]*?)\s*-->\s*$")
 
 
 def _parse_body(lang, body):
@@ -57,13 +57,20 @@ def find_blocks(lines):
         i += 1
 
 
-def already_tagged(lines, open_idx):
-    """True if the fence at open_idx already has an example marker above it
-    (skipping blank lines)."""
+def marked(lines, open_idx):
+    """Name in the example marker above the fence at open_idx (skipping blank
+    lines), or None when the fence does not already have a marker."""
     k = open_idx - 1
     while k >= 0 and lines[k].strip() == "":
         k -= 1
-    return k >= 0 and bool(_MARKER_RE.match(lines[k]))
+    m = _MARKER_RE.match(lines[k]) if k >= 0 else None
+    return m.group(1) if m else None
+
+
+def already_tagged(lines, open_idx):
+    """True if the fence at open_idx already has an example marker above it
+    (skipping blank lines)."""
+    return marked(lines, open_idx) is not None
 
 
 def tag(manifest, text):
@@ -76,7 +83,8 @@ def tag(manifest, text):
     inserts = []          # (open_idx, name)
     tagged = []
     warnings = []
-    used = set()
+    # names that already mark a fence, marking another one would duplicate it
+    used = {marked(lines, open_idx) for open_idx, *_ in blocks}
 
     for open_idx, close_idx, lang, body in blocks:
         try:
@@ -97,7 +105,7 @@ def tag(manifest, text):
             continue
         if name in used:
             warnings.append(f"line {open_idx + 1}: manifest block '{name}' "
-                            f"already tagged on an earlier fence; skipped")
+                            f"already tagged on another fence; skipped")
             continue
         used.add(name)
         inserts.append((open_idx, name))
-- 
2.43.0


From 1fa9453149f74deb8916af4af27d10239f9a1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 012/152] fix: tag_spec_examples skips a fence that is not a
 valid literal

---
 tools/tag_spec_examples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/tag_spec_examples.py b/tools/tag_spec_examples.py
index fab7eb5..512202c 100644
--- a/tools/tag_spec_examples.py
+++ b/tools/tag_spec_examples.py
@@ -89,7 +89,8 @@ def tag(manifest, text):
     for open_idx, close_idx, lang, body in blocks:
         try:
             value = _parse_body(lang, body)
-        except (ValueError, SyntaxError, json.JSONDecodeError):
+        except (ValueError, TypeError, SyntaxError, MemoryError,
+                RecursionError):
             continue
         if not isinstance(value, dict):
             continue
-- 
2.43.0


From a2a13cbcc170117e26cce76027f5bdaa93e5cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 013/152] fix: check_spec_examples reports a fence that is not
 a valid literal

---
 tools/check_spec_examples.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/check_spec_examples.py b/tools/check_spec_examples.py
index 46a5811..5bc52ca 100644
--- a/tools/check_spec_examples.py
+++ b/tools/check_spec_examples.py
@@ -65,12 +65,13 @@ def _load_block_body(lang, body):
     if lang.lower() == "json":
         try:
             return json.loads(body)
-        except json.JSONDecodeError as ex:
+        except (json.JSONDecodeError, RecursionError) as ex:
             raise ValueError(f"spec JSON block does not parse: {ex}") from ex
     # python fence -> ast literal parse (safe: literals only, no execution)
     try:
         return ast.literal_eval(body)
-    except (ValueError, SyntaxError) as ex:
+    except (ValueError, TypeError, SyntaxError, MemoryError,
+            RecursionError) as ex:
         raise ValueError(f"spec python block does not parse: {ex}") from ex
 
 
-- 
2.43.0


From 6ab0025a51b2cbf3c4bcc6dbd601bec59c312431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 014/152] fix: addOnIoSetVal returns False when key is empty as
 documented

---
 src/keri/db/dbing.py    | 2 ++
 src/keri/db/webdbing.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 760c527..2112182 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1677,6 +1677,8 @@ class LMDBer(filing.Filer):
         Uses hidden ordinal key suffix for insertion ordering which is
         transparently suffixed and unsuffixed
         Assumes DB opened with dupsort=False"""
+        if not key:
+            return False
         # val of None will return False
         return self.addIoSetVal(db=db, key=onKey(key, on, sep=sep), val=val, sep=sep)
 
diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 953e58e..c886876 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1648,6 +1648,8 @@ class WebDBer:
         transparently suffixed and unsuffixed
         Assumes DB opened with dupsort=False
         """
+        if not key:
+            return False
         # val of None will return False
         return self.addIoSetVal(db=db, key=onKey(key, on, sep=sep), val=val, sep=sep)
 
-- 
2.43.0


From 496d1707633b811b1b8db0076e7a886a233dd053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 015/152] fix: LMDBer backward iterators of OnIoSet return
 empty when key has no entries

---
 src/keri/db/dbing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 2112182..e52ed65 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2091,7 +2091,8 @@ class LMDBer(filing.Filer):
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():  # no earlier entry, key not in db
+                        return
                     ciokey = cursor.key()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
@@ -2148,13 +2149,15 @@ class LMDBer(filing.Filer):
                     iokey = suffix(onkey, ion=MaxON, sep=sep)  # set to max ion
 
                 if not cursor.set_range(iokey):  # key is last key so maxon to big
-                    cursor.last()  # so find greatest on
+                    if not cursor.last():  # so find greatest on
+                        return  # empty database
 
                 ciokey, cval= cursor.item()
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():  # no earlier entry, key not in db
+                        return
                     ciokey, cval= cursor.item()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
-- 
2.43.0


From 34f48412a1201782ba3c966b1c8992ec8b7b34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 016/152] fix: LMDBer.appendOnIoSetVals raises when last entry
 of key is at max on

---
 src/keri/db/dbing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index e52ed65..37f5d00 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1619,7 +1619,10 @@ class LMDBer(filing.Filer):
                     ciokey = cursor.key()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
-                    if ckey == key:  # same key greatest and last < max
+                    if ckey == key:  # same key greatest
+                        if con >= MaxON:  # last entry at key is already at max
+                            raise ValueError(f"Failed append entry to {key=}, would "
+                                             f"exceed max on at {MaxON=}")
                         on = con + 1  # increment on to append
                     # else key missing but greater so create zeroth entry at key
                 # else no last so empty db so create zeroth entry at key
@@ -1636,6 +1639,9 @@ class LMDBer(filing.Filer):
                         conkey, cion = unsuffix(ciokey, sep=sep)
                         ckey, con = splitOnKey(conkey, sep=sep)
                         if ckey == key:  # found last entry at same key
+                            if con >= MaxON:  # last entry at key is at max
+                                raise ValueError(f"Failed append entry to {key=}, would "
+                                                 f"exceed max on at {MaxON=}")
                             on = con + 1  # increment on
                         # else earlier key so create zeroth entry at key
                     # else no earlier key so create zeroth entry at key
-- 
2.43.0


From 32b7cb0e69ed2481f098418fc69a8ed68e98b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 017/152] fix: LMDBer last item iterators of sets and dups
 start at key with given sep

---
 src/keri/db/dbing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 37f5d00..dc4088e 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1269,7 +1269,7 @@ class LMDBer(filing.Filer):
             last = ()
             if not key:
                 return last
-            iokey = suffix(key, 0) # walk hidden branches starting from zero
+            iokey = suffix(key, 0, sep=sep) # walk hidden branches starting from zero
             cursor = txn.cursor()  # create cursor to walk back
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -1454,7 +1454,7 @@ class LMDBer(filing.Filer):
                 key, ion= unsuffix(iokey, sep=sep)
             else:
                 ion = 0
-                iokey = suffix(key, ion) # walk hidden branches starting from zero
+                iokey = suffix(key, ion, sep=sep) # walk hidden branches starting from zero
             last = None
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -2024,8 +2024,8 @@ class LMDBer(filing.Filer):
                     return  # raises StopIterationError
                 iokey = cursor.key()
             else:
-                onkey = onKey(key, on)
-                iokey = suffix(onkey, 0) # walk hidden branches starting from zero
+                onkey = onKey(key, on, sep=sep)
+                iokey = suffix(onkey, 0, sep=sep) # walk hidden branches starting from zero
 
             last = None
 
@@ -3066,7 +3066,7 @@ class LMDBer(filing.Filer):
                     break
 
                 yield (ckey, on, cval[33:])  # slice off prepended ordering proem
-                onkey = onKey(ckey, on+1)
+                onkey = onKey(ckey, on+1, sep=sep)
                 if not cursor.set_range(onkey):  # # moves to first_dup at key>=onkey
                     return  # no values end of db raises StopIteration
 
-- 
2.43.0


From dd0a6d9599e844ea90a0def5be3c35294186f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 018/152] fix: LMDBer.getOnItem returns an entry whose value is
 empty

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index dc4088e..f4752f8 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -873,7 +873,7 @@ class LMDBer(filing.Filer):
         with self.env.begin(db=db, write=False, buffers=True) as txn:
             onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
             try:
-                if val := txn.get(onkey):
+                if (val := txn.get(onkey)) is not None:
                     return (key, on, val)
                 else:
                     return None
-- 
2.43.0


From 72458fc4d307e403c3ee24f07d5e57f7f4c37de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 019/152] fix: check_spec_examples reports python fence with
 keys that are not strings

---
 tools/check_spec_examples.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/check_spec_examples.py b/tools/check_spec_examples.py
index 5bc52ca..edba4c7 100644
--- a/tools/check_spec_examples.py
+++ b/tools/check_spec_examples.py
@@ -114,9 +114,10 @@ def _diff_paths(expected, actual, path=""):
 
     if isinstance(expected, dict):
         e_keys, a_keys = set(expected), set(actual)
-        for k in sorted(e_keys - a_keys):
+        # key=str since python fence may have keys that are not strings
+        for k in sorted(e_keys - a_keys, key=str):
             yield f"{path}.{k}".lstrip(".") + ": missing in spec"
-        for k in sorted(a_keys - e_keys):
+        for k in sorted(a_keys - e_keys, key=str):
             yield f"{path}.{k}".lstrip(".") + ": unexpected in spec"
         for k in sorted(e_keys & a_keys):
             child = f"{path}.{k}".lstrip(".")
-- 
2.43.0


From 0abbdcff38640498e8aa8beb5beaa9743aedc815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 020/152] fix: check_spec_examples ignores blank lines before
 an indented python literal

---
 tools/check_spec_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/check_spec_examples.py b/tools/check_spec_examples.py
index edba4c7..d50f8f0 100644
--- a/tools/check_spec_examples.py
+++ b/tools/check_spec_examples.py
@@ -69,7 +69,7 @@ def _load_block_body(lang, body):
             raise ValueError(f"spec JSON block does not parse: {ex}") from ex
     # python fence -> ast literal parse (safe: literals only, no execution)
     try:
-        return ast.literal_eval(body)
+        return ast.literal_eval(body.strip())  # whitespace does not matter
     except (ValueError, TypeError, SyntaxError, MemoryError,
             RecursionError) as ex:
         raise ValueError(f"spec python block does not parse: {ex}") from ex
-- 
2.43.0


From 43ed2631d1a92a029c2e875a386b5ccd4a1b91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 021/152] fix: Matter extraction of truncated soft code raises
 ShortageError

---
 src/keri/core/coring.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 946cdf1..9c17328 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1380,6 +1380,8 @@ class Matter:
         # these are well formed.
         # when fs is None then ss > 0 otherwise fs > hs + ss when ss > 0
 
+        if len(qb64b) < cs:  # need more bytes
+            raise ShortageError(f"Need {cs - len(qb64b)} more chars.")
 
         # extract soft chars including xtra, empty when ss==0 and xs == 0
         # assumes that when ss == 0 then xs must be 0
-- 
2.43.0


From bdc07d5f360e2e646f85cef6573d5215b6f20eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 022/152] fix: Matter and Indexer extraction refuses characters
 that are not Base64

---
 src/keri/core/coring.py   | 3 +++
 src/keri/core/indexing.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 9c17328..00caaff 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1408,6 +1408,9 @@ class Matter:
         if hasattr(qb64b, "encode"):  # only convert extracted chars from stream
             qb64b = qb64b.encode()  # converts str to bytes
 
+        if not Reb64.match(qb64b):  # decodeB64 alone is lenient
+            raise ConversionError(f"Non Base64 chars in material = {qb64b}")
+
         # check for non-zeroed pad bits and/or lead bytes
         # net prepad ps == cs % 4 (remainer).  Assumes ps != 3 i.e ps in (0,1,2)
         # To ensure number of prepad bytes and prepad chars are same.
diff --git a/src/keri/core/indexing.py b/src/keri/core/indexing.py
index d5ff4aa..0905d72 100644
--- a/src/keri/core/indexing.py
+++ b/src/keri/core/indexing.py
@@ -14,7 +14,7 @@ from ..kering import (EmptyMaterialError, RawMaterialError, InvalidCodeSizeError
                       ShortageError, UnexpectedCodeError,
                       UnexpectedCountCodeError, UnexpectedOpCodeError)
 
-from ..help import (sceil, intToB64, b64ToInt,
+from ..help import (sceil, intToB64, b64ToInt, Reb64,
                     codeB64ToB2, codeB2ToB64, nabSextets)
 
 
@@ -598,6 +598,9 @@ class Indexer:
         if hasattr(qb64b, "encode"):  # only convert extracted chars from stream
             qb64b = qb64b.encode("utf-8")
 
+        if not Reb64.match(qb64b):  # decodeB64 alone is lenient
+            raise ConversionError(f"Non Base64 chars in material = {qb64b}")
+
         # strip off prepended code and append pad characters
         #ps = cs % 4  # pad size ps = cs mod 4, same pad chars and lead bytes
         #base = ps * b'A' + qb64b[cs:]  # replace prepend code with prepad zeros
-- 
2.43.0


From bd6391870d8c152a06d14a4300a90e1a3c95bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 023/152] fix: Decimer keeps positive exponents and accepts
 decimal as bytes

---
 src/keri/core/coring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 00caaff..80af60d 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1951,7 +1951,7 @@ class Decimer(Matter):
                                          f"dns, or decimer input")
 
             if hasattr(dns, "decode"):
-                dns = dns.decode("")  # convert to str
+                dns = dns.decode()  # convert to str
 
             # make round trippable extra leading 0's , +
             try:
@@ -1960,6 +1960,7 @@ class Decimer(Matter):
             except ValueError:  # float not int
                 decimal = float(dns)  # make round trippable
                 dns = f"{decimal}"  # -0.0 is valid, float('-0.0') is -0.0
+                dns = dns.replace("+", "")  # exponent as in 1e+22, + is not Base64
 
             raw = self._rawify(dns)
 
-- 
2.43.0


From 2c2cb6e7298c358ce8ac42b91d317c8ac6e884c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 024/152] fix: Dater refuses date time that does not fit
 instead of truncating it

---
 src/keri/core/coring.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 80af60d..5ca5b8c 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -2108,6 +2108,8 @@ class Dater(Matter):
             if hasattr(dts, "decode"):
                 dts = dts.decode("utf-8")
             qb64 = MtrDex.DateTime + dts.translate(self.ToB64)
+            if len(qb64) > self.Sizes[MtrDex.DateTime].fs:  # would be truncated
+                raise InvalidValueError(f"Oversized date time {dts=}.")
 
         super(Dater, self).__init__(raw=raw, qb64b=qb64b, qb64=qb64, qb2=qb2,
                                     code=code, **kwa)
-- 
2.43.0


From a78d5c75c3584502616058e736b368981df8d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 025/152] fix: Serder parses binary native message followed by
 other bytes

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index b74848d..2415c23 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1191,7 +1191,7 @@ class Serder:
                     sraw = raw[:ss]  # only copy enough bytes for serder
                     if strip and isinstance(raw, bytearray):
                         del raw[:ss]
-                    sraw = encodeB64(raw)  # loads expects Base64 text domain
+                    sraw = encodeB64(sraw)  # loads expects Base64 text domain
                 elif cold == Colds.txt:
                     ctr = Counter(qb64b=raw)
                     ss = ctr.byteCount(cold=cold) + ctr.byteSize(cold=cold)
-- 
2.43.0


From 42ad2bfb2ca5aa6c505a13a7a0d7cc5f7c3b727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 026/152] fix: Serder refuses message whose said field is not a
 digest

---
 src/keri/core/serdering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 2415c23..b53eb26 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -826,6 +826,10 @@ class Serder:
 
             if saids[label] in DigDex:  # if digestive then replace with dummy
                 sad[label] = self.Dummy * len(sad[label])
+            elif label == list(saids)[0]:  # primary said must be digestive
+                raise ValidationError(f"Invalid non-digestive code="
+                                      f"{saids[label]!r} of said field "
+                                      f"'{label}' in sad = {self._sad}.")
 
         return (sad, saids)
 
-- 
2.43.0


From b54b82282e98208f7611738c5a280b6b5cc6553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 027/152] fix: native serialization refuses unsupported seal
 instead of dropping it

---
 src/keri/core/serdering.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index b53eb26..b6bd8ee 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1782,22 +1782,11 @@ class Serder:
                                         gcode = code  # new group or keep same group
                                         gframe.extend(sealer.qb64b)  # extend in new group
 
-                                except InvalidValueError:
-                                    if gframe:
-                                        counter = Counter(code=gcode,
-                                                          count=len(gframe) // 4,
-                                                          version=gvrsn)
-                                        frame.extend(counter.qb64b + gframe)
-                                        gframe = bytearray()
-                                        gcode = None
-
-                                    #unknown seal type so serialize as field map
-                                    #generic seal no count type (v, Mapping):
-                                    #for l, e in v.items():
-                                        #pass
-                                    #val = bytearray(Counter(tag=""GenericMapGroup"",
-                                                   # count=len(frame) // 4).qb64b)
-                                    #val.extend(mapframe)
+                                except InvalidValueError as ex:
+                                    #unknown seal type, serialization as
+                                    #field map (GenericMapGroup) not supported
+                                    raise SerializeError(f"Unsupported seal={e!r}"
+                                        f" in native serialization") from ex
 
                             if gframe:  # close off last group if any
                                 counter = Counter(code=gcode,
-- 
2.43.0


From 350ca0d5b70f3037e7d4f11616f87b9b1230ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 028/152] fix: Structor accepts clan with cast or crew given as
 plain sequence

---
 src/keri/core/structing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index fc5397b..ca20e90 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -829,7 +829,7 @@ class Structor:
 
                         cast = clan(**cast)  # convert to clan
 
-                    elif isinstance(cast, helping.isNonStringSequence):
+                    elif helping.isNonStringSequence(cast):
                         cast = clan(*cast)  # convert to clan assumes elements in correct order
 
                     else:
@@ -866,7 +866,7 @@ class Structor:
 
                         crew = clan(**crew)  # allpy clan
 
-                    elif isinstance(crew, helping.isNonStringSequence):
+                    elif helping.isNonStringSequence(crew):
                         crew = clan(*crew)  # apply clan assumes elements in correct order
 
                     else:
-- 
2.43.0


From 0e47616784ccc9ea19c9347fd79fcfe3c26e0386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 029/152] fix: Mapper refuses nested group whose count exceeds
 its content

---
 src/keri/core/mapping.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 4a4a6a8..fd41214 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -523,6 +523,9 @@ class Mapper:
             vctr = Counter(qb64b=ser, strip=True)
             if vctr.name in ('GenericListGroup', 'BigGenericListGroup'):
                 ls = vctr.byteCount()
+                if len(ser) < ls:
+                    raise DeserializeError(f"Insufficient list content for "
+                                           f"count={vctr.count}")
                 lser = ser[:ls]  # extract list bytes
                 del ser[:ls]  # strip list bytes from ser
                 value = []
@@ -531,6 +534,9 @@ class Mapper:
 
             elif vctr.name in ('GenericMapGroup', 'BigGenericMapGroup'):
                 ms = vctr.byteCount()
+                if len(ser) < ms:
+                    raise DeserializeError(f"Insufficient map content for "
+                                           f"count={vctr.count}")
                 mser = ser[:ms]  # extract map bytes
                 del ser[:ms]  # strip map bytes from ser
                 value = {}
-- 
2.43.0


From a15f8b45c5e89252fd351e2e49df107acce7979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 030/152] fix: Parser keeps rest of stream after error inside
 sized group

---
 src/keri/core/parsing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index a38acd2..2d351f0 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -861,6 +861,9 @@ class Parser:
                     # this is the normal way to handle it, so do not log
                     continue  # control thrown here to parse new generic group
 
+                except SizedGroupError:  # sized group already flushed from stream
+                    raise
+
                 except (ExtractionError, Exception) as ex:  # error while extracting
                     raise ExtractionError from ex
 
-- 
2.43.0


From 4d6699878d6e715c0d7574d3c71b3c4b72783968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 031/152] fix: Parser waits for rest of message that follows a
 generic group

---
 src/keri/core/parsing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 2d351f0..a5b8c14 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -787,7 +787,7 @@ class Parser:
 
         self.version = version  # when not None which sets .methods .codes .mucodes .sucodes
 
-        stack = deque()  # (svrsn, ims) stack of nested substreams framed by generic groups
+        stack = deque()  # (svrsn, ims, framed) stack of nested substreams framed by generic groups
         svrsn = None
         eggs = None  # used in preflused error
         result = None
@@ -795,8 +795,10 @@ class Parser:
         try:
             while True:  # process stream until done
                 while not ims and stack:  # happens when ascending (un-nesting)
-                    svrsn, ims = stack.pop()  # un-nest
+                    svrsn, ims, framed = stack.pop()  # un-nest
                     self.version = svrsn  # only changes if svrsn is not None
+                    if not stack:  # back at top level not inside any generic group
+                        eggs = None
 
                 if not ims:  # no stream
                     break
@@ -835,7 +837,7 @@ class Parser:
                         else:
                             svrsn == None  # no change to substream version
 
-                        stack.append((self.version, ims))  # push current version ims
+                        stack.append((self.version, ims, framed))  # push current version ims framed
                         self.version = svrsn  # replace with new version if not None
                         ims = eims  # replace ims to nest down one level
                         # top-level nested generics enclose messages plus attachments
@@ -908,7 +910,7 @@ class Parser:
 
         finally:  # restore version at top level
             while stack:  # when tail end of group has validation error
-                svrsn, _ = stack.pop()
+                svrsn, _, _ = stack.pop()
                 if svrsn:
                     self.version = svrsn
         return result if processive else results
-- 
2.43.0


From 4f40720610bbb0612fc50130bb2ccf1480379c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 032/152] fix: Parser keeps stream version in generic group
 without genus version

---
 src/keri/core/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index a5b8c14..7c6f9da 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -835,7 +835,7 @@ class Parser:
                             # get new substream version
                             svrsn = Counter.b64ToVer(ctr.countToB64(l=3))
                         else:
-                            svrsn == None  # no change to substream version
+                            svrsn = None  # no change to substream version
 
                         stack.append((self.version, ims, framed))  # push current version ims framed
                         self.version = svrsn  # replace with new version if not None
-- 
2.43.0


From c784cc8c532b9eb91fa82bf636976032a6ff839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 033/152] fix: Serdery reaps native map body

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index b6bd8ee..e12548b 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -183,7 +183,7 @@ class Serdery:
             lsize = 0  # label size in bytes
             if not fixed:  # extract label for version field
                 labeler = Labeler(qb64b=ims[ctr.fullSize:])  # offset past ctr
-                lsize = labeler.fullsize
+                lsize = labeler.fullSize
 
             verser = Verser(qb64b=ims[ctr.fullSize+lsize:])  # in text domain
             proto, pvrsn, gvrsn = verser.versage
-- 
2.43.0


From dcb06cd586d1f04981d144e26e52efa48896db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 034/152] fix: Parser.parseOne returns None instead of raising
 when nothing was extracted

---
 src/keri/core/parsing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 7c6f9da..1ed5742 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -608,6 +608,7 @@ class Parser:
         local = True if local else False
 
         result = None
+        exts = None
         while True:
             try:
                 exts = yield from self.msgParsator(ims=ims,
@@ -630,6 +631,10 @@ class Parser:
                     logger.error("Kevery msg extraction error: %s", ex)
                 del ims[:]  # delete rest of stream to force cold restart
 
+            if exts is None:  # nothing extracted so nothing to process
+                result = True if processive else None
+                break
+
             if processive:
                 try:
                     result = self.msgProcess(exts=asdict(exts),
-- 
2.43.0


From f808c8668d68a9449e58350d23edea0da73d26ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 035/152] fix: Parser processes query endorsed only by
 nontransferable requester

---
 src/keri/core/parsing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 1ed5742..f3878d5 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1461,6 +1461,7 @@ class Parser:
                     exts["source"] = pre
                     exts["sigers"] = sigers
                 else:
+                    exts["source"] = None
                     exts['sigers'] = []  # just in case sigers provided not by lsgs
 
                 if not (exts['source'] or exts['cigars']):  # need one or the other
-- 
2.43.0


From 16ffcaa02744e2f0d5d1d08bd3a7909dd54f5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 036/152] fix: Parser waits for message that follows genus
 version in stream

---
 src/keri/core/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index f3878d5..1c8330c 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1026,6 +1026,8 @@ class Parser:
                     del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
                     # change version at top level this persists is not stacked
                     self.version = Counter.b64ToVer(ctr.countToB64(l=3))
+                    while not ims and not framed:  # message may not have arrived yet
+                        yield
 
             enclosed = False  # True means all attachments enclosed in
                                # BodyPlusAttachmentGroup or AttachmentGroup
-- 
2.43.0


From 6850c0626870c053396e199e3ec62f3717b9c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 037/152] fix: Parser nests into generic group that follows
 genus version in version 1 stream

---
 src/keri/core/parsing.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 1c8330c..6664c4c 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1078,7 +1078,12 @@ class Parser:
                                                         strip=False)
 
                 # Check for message groups
-                if (ctr.code in (self.mucodes.NonNativeBodyGroup,
+                if (ctr.code in (self.sucodes.GenericGroup,
+                                 self.sucodes.BigGenericGroup)):
+                    # throw back control to groupParsator to nest into new generic group
+                    raise TopLevelStreamError(f"Got GenericGroup so revisit.")
+
+                elif (ctr.code in (self.mucodes.NonNativeBodyGroup,
                                  self.mucodes.BigNonNativeBodyGroup)):
                     del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
                     # process non-native message group with texter
@@ -1139,11 +1144,6 @@ class Parser:
                                           fixed=False)
                     exts.serder = serder
 
-                elif (ctr.code in (self.sucodes.GenericGroup,
-                                   self.sucodes.BigGenericGroup)):
-                    # throw back control to groupParsator to nest into new generic group
-                    raise TopLevelStreamError(f"Got GenericGroup so revisit.")
-
                 else:  # shouldn't be a counter of any other type here
                     raise ColdStartError(f"Expected message counter code,"
                                                 f" got code={ctr.code}")
-- 
2.43.0


From a3ce9c781215b055623d3be6aad2a4c850a51af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 038/152] fix: Parser handles malformed primitive in stream as
 extraction error

---
 src/keri/core/parsing.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 6664c4c..95d7c83 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -312,12 +312,17 @@ class Parser:
             ims (bytearray): input message stream (must be strippable)
             klas (Serder | Counter | Matter | Indexer): subclass that is parsable
             cold (Coldage): instance str value"""
-        if cold == Colds.txt:
-            return klas(qb64b=ims, strip=True, version=self.version)
-        elif cold == Colds.bny:
-            return klas(qb2=ims, strip=True, version=self.version)
-        else:
-            raise ColdStartError(f"Invalid stream state {cold=}")
+        try:
+            if cold == Colds.txt:
+                return klas(qb64b=ims, strip=True, version=self.version)
+            elif cold == Colds.bny:
+                return klas(qb2=ims, strip=True, version=self.version)
+            else:
+                raise ColdStartError(f"Invalid stream state {cold=}")
+        except ExtractionError:
+            raise
+        except Exception as ex:  # malformed so can not extract
+            raise ExtractionError(f"Malformed {klas.__name__} in stream") from ex
 
 
     def _extractor(self, ims, klas, cold=Colds.txt, abort=False, strip=True):
@@ -351,6 +356,10 @@ class Parser:
                 if abort:  # pipelined pre-collects full frame before extracting
                     raise  # bad pipelined frame so abort by raising error
                 yield
+            except ExtractionError:
+                raise
+            except Exception as ex:  # malformed so can not extract
+                raise ExtractionError(f"Malformed {klas.__name__} in stream") from ex
 
 
     def parse(self, ims=None, framed=None, piped=None, kvy=None, tvy=None,
-- 
2.43.0


From ada007d4724e8c9f410c18529d5f26ebd3b284e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 039/152] fix: Parser accepts message with empty attachment
 group

---
 src/keri/core/parsing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 95d7c83..f2631f2 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1185,6 +1185,9 @@ class Parser:
             while not ims and not framed:  # framed has everything already
                 yield  # when not framed at least empty AttachmentGroup follows
 
+            if not ims:  # framed message without any attachments
+                return exts
+
             cold = sniff(ims)
             if cold != Colds.msg:  # counter so peek at what it is
                 ctr = yield from self._extractor(ims=ims,
@@ -1207,6 +1210,9 @@ class Parser:
                         pass  # pass extracted ims to pipeline processor
                         return
 
+                    if not ims:  # empty attachment group
+                        return exts
+
                     # peek for version change
                     ctr = yield from self._extractor(ims=ims,
                                                      klas=Counter,
-- 
2.43.0


From 3b981146732732df94b43c93d13b57de00f462f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 040/152] fix: witness and backer cuts need not be listed in
 order of current set

---
 src/keri/core/eventing.py | 6 +++---
 src/keri/vdr/eventing.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b848420..1631f4c 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -801,7 +801,7 @@ def rotate(pre,
     if len(cutset) != len(cuts):
         raise ValueError(f"Invalid cuts = {cuts}, has duplicates.")
 
-    if (witset & cutset) != cutset:  # some cuts not in wits
+    if not cutset.issubset(witset):  # some cuts not in wits
         raise ValueError(f"Invalid cuts = {cuts}, not all members in wits.")
 
     adds = adds if adds is not None else []
@@ -2708,7 +2708,7 @@ class Kever:
             raise ValidationError("Invalid cuts = {cuts}, has duplicates for "
                                   f"evt = {serder.ked}.")
 
-        if (witset & cutset) != cutset:  # some cuts not in wits
+        if not cutset.issubset(witset):  # some cuts not in wits
             raise ValidationError(f"Invalid cuts = {cuts}, not all members in "
                                   f"wits for evt = {serder.ked}.")
 
@@ -7148,7 +7148,7 @@ class Kevery:
                 if len(cutset) != len(cuts):
                     raise ValidationError("Invalid cuts={}, has duplicates "
                                           "for evt={}.".format(cuts, serder.ked))
-                if (witset & cutset) != cutset:  # some cuts not in wits
+                if not cutset.issubset(witset):  # some cuts not in wits
                     raise ValidationError("Invalid cuts={}, not all members "
                                           "in wits for evt={}.".format(cuts, serder.ked))
                 if len(addset) != len(adds):
diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index b3531b2..05bcea5 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -167,7 +167,7 @@ def rotate(
     if len(cutset) != len(cuts):
         raise ValueError("Invalid cuts = {}, has duplicates.".format(cuts))
 
-    if (bakset & cutset) != cutset:  # some cuts not in wits
+    if not cutset.issubset(bakset):  # some cuts not in wits
         raise ValueError("Invalid cuts = {}, not all members in baks.".format(cuts))
 
     adds = adds if adds is not None else []
@@ -964,7 +964,7 @@ class Tever:
             raise ValidationError("Invalid cuts = {}, has duplicates for evt = "
                                   "{}.".format(cuts, ked))
 
-        if (witset & cutset) != cutset:  # some cuts not in baks
+        if not cutset.issubset(witset):  # some cuts not in baks
             raise ValidationError("Invalid cuts = {}, not all members in baks"
                                   " for evt = {}.".format(cuts, ked))
 
-- 
2.43.0


From b4242c16a8f267c086e299ae9b30392d7bdf63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 041/152] fix: unverified signatures escrowed with out of order
 event are not kept once it is accepted

---
 src/keri/core/eventing.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 1631f4c..999c18a 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3645,6 +3645,17 @@ class Kever:
             self.db.wigs.put(keys=dgkey, vals=wigers)
         if wits:
             self.db.wits.put(keys=dgkey, vals=[Prefixer(qb64=w) for w in wits])
+        if first:  # out of order escrow stores signatures before keys are known
+            werfers = [Verfer(qb64=w) for w in (self.wits if wits is None else wits)]
+            for sdb, verfers in ((self.db.sigs,
+                                  serder.verfers if serder.estive else self.verfers),
+                                 (self.db.wigs, werfers)):
+                stored = sdb.get(keys=dgkey)
+                valid, _ = verifySigs(raw=serder.raw, sigers=stored, verfers=verfers)
+                valid = [siger.qb64 for siger in valid]
+                for siger in stored:
+                    if siger.qb64 not in valid:  # remove so never taken as verified
+                        sdb.rem(keys=dgkey, val=siger)
 
         self.db.evts.put(keys=(serder.pre, serder.said), val=serder)  # idempotent (maybe already excrowed)
         # update event source
-- 
2.43.0


From b00855fe31ecf0a964b10dc3fc2d3ced06b6fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 042/152] fix: escrowed witness receipt of event accepted in
 meantime is recorded

---
 src/keri/core/eventing.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 999c18a..9a3e23b 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -7130,7 +7130,11 @@ class Kevery:
         # snKey(pre,sn) where pre is controller and sn is event sequence number
         # compare dig to rdiger derived from receipt's dig of receipted event
         found = False
-        for dig in self.db.pwes.getIter(keys=pre, on=sn):  # search entries
+        digs = list(self.db.pwes.getIter(keys=pre, on=sn))
+        accepted = self.db.kels.getLast(keys=pre, on=sn) == rsaider.qb64
+        if accepted and rsaider.qb64 not in digs:
+            digs.append(rsaider.qb64)
+        for dig in digs:  # search entries
             dig = dig.encode("utf-8")  # database dig of receipted event
             # get the escrowed event using database dig in .Pwes
             serder = self.db.evts.get(keys=(pre, dig))  # receipted event
@@ -7139,7 +7143,10 @@ class Kevery:
                 continue  # not match keep looking
 
             # Extract or compute witness list
-            if serder.ked['t'] in (Ilks.icp, Ilks.dip):  # inception get from event
+            if accepted:  # event accepted since receipt was escrowed
+                wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
+
+            elif serder.ked['t'] in (Ilks.icp, Ilks.dip):  # inception get from event
                 wits = serder.ked['b']  # get wits from event itself
                 if len(oset(wits)) != len(wits):
                     raise ValidationError("Invalid wits = {}, has duplicates for evt = {}."
@@ -7170,7 +7177,7 @@ class Kevery:
                                           "for evt={}.".format(cuts, adds, serder.ked))
                 if witset & addset:  # non empty intersection
                     raise ValidationError("Intersecting wits={} and  adds={} "
-                                          "for evt={}.".format(self.wits, adds, serder.ked))
+                                          "for evt={}.".format(wits, adds, serder.ked))
                 wits = list((witset - cutset) | addset)
 
             else:  # interaction so get wits from kever key state
-- 
2.43.0


From 80fe1c26244ed1aa0ecfe01fe86d0692fe7bb030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 043/152] fix: receipt with group from unknown receiptor or
 ahead of its event keeps all its groups

---
 src/keri/core/eventing.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 9a3e23b..5b6514b 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4559,6 +4559,7 @@ class Kevery:
                     # write receipt indexed sig to database
                     self.db.wigs.add(keys=dgkey, val=wiger)
 
+            unverified = False  # True means some group escrowed
             for sprefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg
                 if not self.lax and sprefixer.qb64 in self.prefixes:  # own is receipter
                     if pre in self.prefixes:  # skip own receipter of own event
@@ -4576,10 +4577,8 @@ class Kevery:
                     # receiptor's est event not yet in receiptors's KEL
                     # so need cue to discover est evt KEL for receipter from watcher etc
                     self.escrowTReceipts(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
-                                                             "missing establishment event of transferable "
-                                                             "receipter for event={}."
-                                                             "".format(ked))
+                    unverified = True  # other groups may still be verified
+                    continue
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receiptor est evt from sdig.
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
@@ -4634,10 +4633,8 @@ class Kevery:
                     # receiptor's est event not yet in receiptors's KEL
                     # so need cue to discover est evt KEL for receipter from watcher etc
                     self.escrowTReceipts(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
-                                                             "missing establishment event of transferable "
-                                                             "receipter for event={}."
-                                                             "".format(ked))
+                    unverified = True  # other groups may still be verified
+                    continue
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receiptor est evt from sdig.
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
@@ -4675,6 +4672,12 @@ class Kevery:
                         keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)
                         self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys
 
+            if unverified:
+                raise UnverifiedTransferableReceiptError("Unverified receipt: "
+                                                         "missing establishment event of transferable "
+                                                         "receipter for event={}."
+                                                         "".format(ked))
+
         else:  # no events to be receipted yet at that sn so escrow
             if cigars:
                 self.escrowUReceipt(serder, cigars, said=ked["d"])  # digest in receipt
@@ -4682,6 +4685,9 @@ class Kevery:
             if tsgs:
                 self.escrowTRGroups(serder, tsgs)
 
+            if rsgs:
+                self.escrowTRGroups(serder, rsgs)
+
             if wigers:
                 self.escrowUWReceipt(serder=serder, wigers=wigers, said=ked["d"])
 
@@ -6861,10 +6867,8 @@ class Kevery:
                         logger.trace("Kevery unescrow error: %s", msg)
                         raise UnverifiedReceiptError(msg)
 
-                    # get current wits from kever state assuming not stale
-                    # receipt. Need function here to compute wits for actual
-                    # state at pre, sn. XXXX
-                    wits = self.kevers[serder.pre].wits
+                    # get wits in force at receipted event
+                    wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                     rpre = cigar.verfer.qb64  # prefix of receiptor
                     if rpre in wits:  # its a witness receipt
                         # this only works for extra receipts that come in later
-- 
2.43.0


From be3af943b5bb4480b39b4381435de53e818feb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 044/152] fix: receipts attached to replayed event are kept
 when first seen ordinals differ or a receiptor is unknown

---
 src/keri/core/eventing.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 5b6514b..6295cbf 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4875,6 +4875,9 @@ class Kevery:
         # first seen and is the most recent first seen with that sn
         if firner:
             ldig = self.db.fels.get(keys=pre, on=firner.sn)
+            if ldig is None or not serder.compare(said=ldig):
+                # replayer's first seen ordinal may differ from own
+                ldig = self.db.kels.getLast(keys=pre, on=sn)
         else:
             ldig = self.db.kels.getLast(keys=pre, on=sn)  # retrieve dig of last event at sn.
 
@@ -4950,10 +4953,14 @@ class Kevery:
 
         if firner:  # retrieve last event by fn ordinal
             ldig = self.db.fels.get(keys=pre, on=firner.sn)
+            if ldig is None or not serder.compare(said=ldig):
+                # replayer's first seen ordinal may differ from own
+                ldig = self.db.kels.getLast(keys=pre, on=sn)
         else:
             # Only accept receipt if for last seen version of receipted event at sn
             ldig = self.db.kels.getLast(keys=pre, on=sn)  # retrieve dig of last event at sn.
 
+        unverified = False  # True means some group escrowed
         for sprefixer, snumber, sdiger, sigers in rsgs:  # iterate over each trq
             if not self.lax and sprefixer.qb64 in self.prefixes:  # own trans receipt quadruple (chit)
                 if pre in self.prefixes:  # skip own trans receipts of own events
@@ -4980,10 +4987,8 @@ class Kevery:
                     # receipter's est event not yet in receipter's KEL
                     # receipter's seal event not in receipter's KEL
                     self.escrowTransReceiptGroup(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
-                                                             "missing establishment event of transferable "
-                                                             "validator receipt quadruple for event={}."
-                                                             "".format(ked))
+                    unverified = True  # other groups may still be verified
+                    continue
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receipter
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
@@ -5041,11 +5046,14 @@ class Kevery:
 
             else:  # escrow  either receiptor or receipted event not yet in database
                 self.escrowTransReceiptGroup(serder, sprefixer, snumber, sdiger, sigers)
-                msg = (f"Unverified receipt: missing associated event for transferable validator"
-                       f"receipt quadruple for event {serder.said}")
-                logger.info(msg)
-                logger.debug("Event=\n%s\n", serder.pretty())
-                raise UnverifiedTransferableReceiptError(msg)
+                unverified = True  # other groups may still be verified
+
+        if unverified:
+            msg = (f"Unverified receipt: missing associated event for transferable validator"
+                   f"receipt quadruple for event {serder.said}")
+            logger.info(msg)
+            logger.debug("Event=\n%s\n", serder.pretty())
+            raise UnverifiedTransferableReceiptError(msg)
 
 
     def removeStaleReplyEndRole(self, saider):
-- 
2.43.0


From a7dbce5498b0578e87b13180101f577298fdf92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 045/152] fix: recovery rotation applies its own witness
 changes and commitments it follows

---
 src/keri/core/eventing.py | 44 +++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 6295cbf..0512147 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2686,6 +2686,23 @@ class Kever:
         return tholder, toader, wits, cuts, adds
 
 
+    def priorState(self, serder):
+        """Returns tuple (ndigers, ntholder, wits) in force just before rotation
+        event serder. These are from the current key state unless serder would
+        supersede the latest establishment event itself, then these are from
+        the establishment event before the superseded one.
+
+        Parameters:
+            serder (SerderKERI): instance of rotation event"""
+        if serder.sn <= self.lastEst.s and serder.said != self.lastEst.d:
+            for dig in self.db.kels.getBackIter(keys=serder.pre, on=serder.sn - 1):
+                eserder = self.db.evts.get(keys=(serder.pre, dig))
+                if eserder is not None and eserder.estive:
+                    wits = [wit.qb64 for wit in self.db.wits.get(keys=(serder.pre, dig))]
+                    return (eserder.ndigers, eserder.ntholder, wits)
+        return (self.ndigers, self.ntholder, self.wits)
+
+
     def deriveBacks(self, serder):
         """Derives and return tuple of (wits, cuts, adds) for backers  given
         current set and any changes provided by serder.
@@ -2698,10 +2715,12 @@ class Kever:
 
         Parameters:
             serder (SerderKeri): instance of current event"""
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.sn >= serder.sn:  # no changes
+        if (serder.ilk not in (Ilks.rot, Ilks.drt) or serder.sn < self.lastEst.s or
+                serder.said == self.lastEst.d):  # no changes
             return self.wits, self.cuts, self.adds
 
-        witset = oset(self.wits)
+        _, _, bwits = self.priorState(serder)
+        witset = oset(bwits)
         cuts = serder.cuts
         cutset = oset(cuts)
         if len(cutset) != len(cuts):
@@ -2723,14 +2742,14 @@ class Kever:
                                   f"for evt = {serder.ked}.")
 
         if witset & addset:  # non empty intersection
-            raise ValidationError(f"Intersecting wits = {self.wits} and  adds ="
+            raise ValidationError(f"Intersecting wits = {bwits} and  adds ="
                                   f"{adds} for evt = {serder.ked}.")
 
         wits = list((witset - cutset) | addset)
 
-        if len(wits) != (len(self.wits) - len(cuts) + len(adds)):  # redundant?
+        if len(wits) != (len(bwits) - len(cuts) + len(adds)):  # redundant?
             raise ValidationError(f"Invalid member combination among wits = "
-                                  f"{self.wits}, cuts ={cuts}, and adds = "
+                                  f"{bwits}, cuts ={cuts}, and adds = "
                                   f"{adds,} for evt = {serder.ked}.")
         return (wits, cuts, adds)
 
@@ -2859,12 +2878,13 @@ class Kever:
         # escrow if not fully signed vs prior next rotation threshold
         if serder.ilk in (Ilks.rot, Ilks.drt):  # rotation so check prior next threshold
             # prior next threshold in .ntholder and digers in .ndigers
-            ondices = self.exposeds(sigers)
-            if not self.ntholder.satisfy(indices=ondices):
+            ndigers, ntholder, _ = self.priorState(serder)
+            ondices = self.exposeds(sigers, ndigers=ndigers)
+            if not ntholder.satisfy(indices=ondices):
                 self.escrowPSEvent(serder=serder, sigers=sigers, wigers=wigers,
                                    delsner=delsner, delsger=delsger,local=local)
                 msg = (
-                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {self.ntholder.sith} "
+                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {ntholder.sith} "
                     f"with exposed sigs {[siger.qb64 for siger in sigers]} "
                     f"for new est evt={serder.said}")
                 logger.trace(msg)
@@ -2946,7 +2966,7 @@ class Kever:
 
 
 
-    def exposeds(self, sigers):
+    def exposeds(self, sigers, ndigers=None):
         """Returns list of ondices (indices) suitable for Tholder.satisfy
         from self.ndigers (prior next key digests ) as exposed by event sigers.
         Uses dual index feature of siger. Assumes that each siger.verfer is
@@ -2973,11 +2993,13 @@ class Kever:
         digests defined by the rotation event.
 
         Parameters:
-            sigers (list): of Siger instances  of indexed signature with .verfer"""
+            sigers (list): of Siger instances  of indexed signature with .verfer
+            ndigers (list | None): prior next key digests. None means .ndigers"""
+        ndigers = ndigers if ndigers is not None else self.ndigers
         odxs = []
         for siger in sigers:
             try:
-                diger = self.ndigers[siger.ondex]
+                diger = ndigers[siger.ondex]
             except TypeError as ex:  # ondex may be None
                 continue
             except IndexError as ex:
-- 
2.43.0


From df8412acf924f1af923da3952519c9c70a3a411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 046/152] fix: delegated rotation of identifier without
 delegator is refused

---
 src/keri/core/eventing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 0512147..8408cc8 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2481,6 +2481,10 @@ class Kever:
                 raise ValidationError("Attempted non delegated rotation on "
                                       "delegated pre = {} with evt = {}."
                                       "".format(serder.pre, ked))
+            if not self.delegated and ilk == Ilks.drt:
+                raise ValidationError("Attempted delegated rotation on "
+                                      "non delegated pre = {} with evt = {}."
+                                      "".format(serder.pre, ked))
 
             tholder, toader, wits, cuts, adds = self.rotate(serder)
 
-- 
2.43.0


From cdb0a53074fe16ba080b1051994e6e6809fb9de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 047/152] fix: repeated delegated rotation is handled as
 repeated event

---
 src/keri/core/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 8408cc8..525328e 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4409,7 +4409,8 @@ class Kevery:
                       (ilk == Ilks.rot and  # superseding recovery rot or
                         kever.lastEst.s < sn <= sno) or
                       (ilk == Ilks.drt and #exts['sigers'].extend(result) delegated superseding recovery drt
-                        kever.lastEst.s <= sn <= sno)):
+                        kever.lastEst.s <= sn <= sno and
+                        kever.lastEst.d != said)):  # not same event again
 
                     # verify signatures etc and update state if valid
                     # raise exception if problem.
-- 
2.43.0


From e0f77742f632f985e61d3bdaea9b419bd2d3f97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 048/152] fix: superseding delegated rotations follow
 documented rules

---
 src/keri/core/eventing.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 525328e..087a3c6 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3421,8 +3421,7 @@ class Kever:
         # db.aess so we can find it later
         if ((serder.ilk == Ilks.dip) or  # superseding is delegated inception or
             (serder.sner.num == self.sner.num + 1) or  # superseding is inorder later or
-            (serder.sner.num == self.sner.num and  # superseding event at same sn and
-                self.ilk == Ilks.ixn and  # superseded is interaction and
+            (serder.sner.num > self.lastEst.s and  # superseded are only interactions
                 serder.ilk == Ilks.drt)):  # superseding is rotation
                     return (delsner, delsger) # indicates delegation valid
 
@@ -3433,7 +3432,8 @@ class Kever:
 
         # set up recursive search for superseding delegations
         # get original potentially superseded delegation
-        serfo = self.serder  # original accepted delegated event i.e. serf original
+        # original accepted delegated event i.e. serf original
+        serfo = self.db.evts.get(keys=(serder.pre, self.lastEst.d))
         if not (bosso := self.fetchDelegatingEvent(delpre, serfo, original=True,
                                                    eager=eager)):
             self.escrowPDEvent(serder=serder, sigers=sigers, wigers=wigers,
@@ -3451,8 +3451,9 @@ class Kever:
             # Only get to here if same sn for delegated event and both
             # existing and superseding delegated events are rotations
             if (bossn.sn > bosso.sn or  # superseding delgation is later or
-                (bossn.Ilk == Ilks.drt and  # superseding  delegation is rotation and
-                 bosso.Ilk == Ilks.ixn) ): # superseded delegation is interaction
+                (bossn.sn == bosso.sn and  # superseding delegation is at same sn
+                 bossn.ilk in (Ilks.rot, Ilks.drt) and  # and is rotation and
+                 bosso.ilk == Ilks.ixn) ): # superseded delegation is interaction
                     # valid superseding delegation up chain so tail link valid
                     return (delsner, delsger)  # tail event's delegation source
 
@@ -3482,7 +3483,13 @@ class Kever:
                     logger.debug("Delegator Event Body=\n%s\n", serfn.pretty())
                     raise ValidationError(msg)
 
-            # tie condition same sn and drt so need to climb delegation chain
+            # not superseding at this level so need to climb delegation chain
+            delpre = self.kevers[delpre].delpre if delpre in self.kevers else None
+            if not delpre:  # reached root of delegation so discard
+                msg = f"Invalid delegation recovery rotation of {serder.pre} by {serder.said}"
+                logger.info(msg)
+                logger.debug("Event Body=\n%s\n", serder.pretty())
+                raise ValidationError(msg)
             serfn = bossn
             if not (bossn := self.fetchDelegatingEvent(delpre, serfn,
                                                        original=False,
-- 
2.43.0


From 0b3e2f6a42b698ffc1ff5795e4909ec2dae56adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 049/152] fix: wrong source seal does not keep approved
 delegated event waiting

---
 src/keri/core/eventing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 087a3c6..82ba766 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3343,6 +3343,12 @@ class Kever:
             #  event has not already been superceded
             # get dig of last delegating event purported at sn
             raw = self.db.kels.getLast(keys=delpre, on=ssn)  # last means not disputed or superseded
+            if raw is None and eager:  # source seal may be wrong so try harder
+                seal = dict(i=serder.pre, s=serder.snh, d=serder.said)
+                found = self.db.fetchLastSealingEventByEventSeal(pre=delpre, seal=seal)
+                if found is not None:
+                    raw = found.said
+                    ssn = found.sn
             if raw is None:  # no delegatint event yet. no index at key pre, sn
                 # Have to wait until delegating event at sn shows up in kel
                 # ToDo XXXX process  this cue of query to fetch delegating event from
-- 
2.43.0


From b9234463dba21836a494ea62fa63ecd27235fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 050/152] fix: full witnessing of earlier event is judged by
 threshold in force at that event

---
 src/keri/db/basing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 636e688..e0a6699 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2077,8 +2077,10 @@ class Baser(LMDBer):
         # have been gathered if this ius a witness for serder.pre
         # get unique verified wigers and windices lists from wigers list
         wigers = self.wigs.get(keys=(serder.preb, serder.saidb))
-        kever = self.kevers[serder.pre]
-        toad = kever.toader.num
+        eserder = serder  # threshold in force is that of latest est event
+        while eserder is not None and not eserder.estive:
+            eserder = self.evts.get(keys=(eserder.preb, eserder.priorb))
+        toad = (eserder if eserder is not None else self.kevers[serder.pre]).toader.num
 
         return not len({wiger.index for wiger in wigers}) < toad
 
-- 
2.43.0


From a70c22d32615a7d193f58ddbff6d3ccc5367a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 051/152] fix: replayed interaction events keep their first
 seen datetime

---
 src/keri/core/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 82ba766..1022994 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2574,7 +2574,8 @@ class Kever:
             # .validateSigsDelWigs above ensures thresholds met otherwise raises exception
             # all validated above so may add to KEL and FEL logs as first seen
             fn, dts = self.logEvent(serder=serder, sigers=sigers, wigers=wigers,
-                                    first=True if not check else False)  # First seen accepted
+                                    first=True if not check else False,
+                                    firner=firner, dater=dater, local=local)  # First seen accepted
 
             # validates so update state
             self.sner = sner  # sequence number Number instance
-- 
2.43.0


From 75d5863a3167cd9f753d0426613052423e86f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 052/152] fix: likely duplicitous events are escrowed instead
 of failing

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 1022994..85ce879 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5877,7 +5877,7 @@ class Kevery:
         self.db.dtss.put(keys=dgkey, val=Dater())
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        self.db.addLde(snKey(serder.preb, serder.sn), serder.saidb)
+        self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
         # log duplicitous
         logger.debug("Kevery process: escrowed likely duplicitous event=\n%s\n", serder.pretty())
 
-- 
2.43.0


From a157c78dc9723a0f5b19b787d6fe90051d7b68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:55 +0000
Subject: [PATCH 053/152] fix: cleaning keeps delegated identifiers and
 receipts replayed before what they depend on

---
 src/keri/db/basing.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index e0a6699..e906c35 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1556,8 +1556,21 @@ class Baser(LMDBer):
                 # process event doesn't capture exceptions so we can more easily
                 # detect in the cloning that some events did not make it through
                 psr = parsing.Parser(kvy=kvy, version=gvrsn)
-                for msg in self.cloneAllPreIter(gvrsn=gvrsn):  # clone into copy
-                    psr.parseOne(ims=msg)
+                done = set()
+
+                def replay(pre):
+                    """Clone log of pre into copy, that of its delegator first"""
+                    if pre in done or pre not in self.kevers:
+                        return
+                    done.add(pre)
+                    if delpre := self.kevers[pre].delpre:
+                        replay(delpre)
+                    for msg in self.clonePreIter(pre=pre, gvrsn=gvrsn):
+                        psr.parseOne(ims=msg)
+
+                for keys, on, dig in self.fels.getAllItemIter():
+                    replay(keys[0])
+                kvy.processEscrows()  # receipts replayed before their receiptors
 
                 # This is the list of non-set based databases that are not created as part of event processing.
                 # for now we are just copying them from self to copy without worrying about being able to
-- 
2.43.0


From 1d2b13e58dafb955c8416ac2ddbd04ab2c6135c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 054/152] fix: repeated superseded event is neither duplicitous
 nor out of order

---
 src/keri/core/eventing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 85ce879..bbd2a56 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4410,6 +4410,13 @@ class Kevery:
                 kever = self.kevers[pre]  # get existing kever for pre
                 sno = kever.sner.num + 1  # proper sn of new inorder event
 
+                saids = self.db.kels.get(keys=pre, on=sn)  # accepted at sn
+                if said in saids and (sn >= sno or said != saids[-1]):
+                    # already accepted then superseded, escrowing it would
+                    # store unverified signatures with an accepted event
+                    raise ValidationError(f"Superseded event sn={serder.sn} "
+                                          f"type={serder.ilk} SAID={said}")
+
                 if sn > sno:  # sn later than sno so out of order escrow
                     # escrow out-of-order event
                     self.escrowOOEvent(serder=serder, sigers=sigers,
-- 
2.43.0


From 849c4f05a1bb228f1a445d2e9aaeca2b4a4201f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 055/152] fix: remote group events without current key of local
 member are not refused

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index bbd2a56..9d8abb9 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2294,8 +2294,8 @@ class Kever:
         habord = self.db.habs.get(keys=(self.prefixer.qb64,))
         kever = self.kevers[habord.mid]
 
-        idx = [verfer.qb64 for verfer in verfers].index(kever.verfers[0].qb64)
-        return [idx]
+        return [idx for idx, verfer in enumerate(verfers)
+                            if verfer.qb64 == kever.verfers[0].qb64]
 
 
     def reload(self, state):
-- 
2.43.0


From 9508267e2e90180a0f3be06a624a88e8f618b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 056/152] fix: event that removes all witnesses is not judged
 by witnesses it removes

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 9d8abb9..c2484d7 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2252,7 +2252,7 @@ class Kever:
         Parameters:
             wits (list[str]): qb64 identifier prefixes of witnesses
             serder ( SerderKERI | None): SerderKERI instace if any"""
-        if not wits:
+        if wits is None:
             if not serder:
                 wits = self.wits
             else:
-- 
2.43.0


From 3c985564439f8d8247e172b4a2647b9095a112f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 057/152] fix: accepted reply not lost or rolled back by
 resubmission or by bad signature groups

---
 src/keri/core/eventing.py |  2 --
 src/keri/core/routing.py  | 72 ++++++++++++++++++++++++++-------------
 2 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c2484d7..1cdf1d4 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5217,8 +5217,6 @@ class Kevery:
         aid = cid  # authorizing attribution id
         keys = (aid, role, eid)
         osaider = self.db.eans.get(keys=keys)  # get old said if any
-        if osaider is not None and osaider.qb64b == diger.qb64b: # check idempotent
-            osaider = None
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
                                         aid=aid, osaider=osaider, cigars=cigars,
diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index d2b9b27..085f741 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -237,6 +237,9 @@ class Revery:
         if osaider:
             odater = self.db.sdts.get(keys=osaider.qb64b)
 
+        # resubmission of the reply already accepted
+        same = osaider is not None and osaider.qb64b == saider.qb64b
+
         for cigar in cigars:  # process each couple to verify sig and write to db
             if cigar.verfer.transferable:  # ignore invalid transferable verfers
                 logger.info(
@@ -267,7 +270,7 @@ class Revery:
                 continue  # skip invalid cig's verfer is not aid
 
             if odater:  # get old compare datetimes to see if later
-                if dater.datetime <= odater.datetime:
+                if dater.datetime <= odater.datetime and not same:
                     logger.trace(
                         "Revery: skipped stale update from %s of reply at route= %s",
                         aid,
@@ -289,7 +292,9 @@ class Revery:
 
             # All constraints satisfied so update
             self.updateReply(serder=serder, saider=saider, dater=dater, cigar=cigar)
-            self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+            if not same:
+                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+            self.db.rpes.rem(keys=(route,), val=saider)  # no longer in escrow
             accepted = True
             break  # first valid cigar sufficient ignore any duplicates in cigars
 
@@ -331,7 +336,7 @@ class Revery:
 
                     if snumber.sn == osqr.sn:  # sn same so check datetime
                         if odater:
-                            if dater.datetime <= odater.datetime:
+                            if dater.datetime <= odater.datetime and not same:
                                 logger.info(
                                     "Revery: skipped stale key state sig datetime "
                                     "from %s on reply said=%s",
@@ -350,6 +355,8 @@ class Revery:
                     "Revery: escrowing without key state for signer on reply said=%s",
                     serder.said,
                 )
+                if same:  # already accepted so not escrowed
+                    continue
                 self.escrowReply(
                     serder=serder,
                     saider=saider,
@@ -367,25 +374,43 @@ class Revery:
             sserder = self.db.evts.get(keys=(spre, bytes(sdig)))
             # assumes db ensures that sserder must not be none because sdig was in KE
             if sserder.said != sdiger.qb64:  # signer's dig not match est evt
-                raise ValidationError(
-                    f"Bad trans indexed sig group at sn = "
-                    f"{snumber.sn} for reply = {serder.ked}."
+                logger.info(
+                    "Revery: skipped bad trans indexed sig group at sn=%s "
+                    "on reply said=%s",
+                    snumber.sn,
+                    serder.said,
                 )
+                continue  # skip so does not spoil other groups on same reply
             # verify sigs
             if not (sverfers := sserder.verfers):
-                raise ValidationError(
-                    f"Invalid reply from signer={spre}, no "
-                    f"keys at signer's est. event sn={snumber.sn}."
+                logger.info(
+                    "Revery: skipped sig group from signer=%s without keys at sn=%s "
+                    "on reply said=%s",
+                    spre,
+                    snumber.sn,
+                    serder.said,
                 )
+                continue  # skip so does not spoil other groups on same reply
 
             # fetch any escrowed sigs, extract just the siger from each quad
             # want sn in numerical order so use hex
             quadkeys = (saider.qb64, prefixer.qb64, f"{snumber.sn:032x}", sdiger.qb64)
             esigers = self.db.tsgs.get(keys=quadkeys)
             sigers.extend(esigers)
-            sigers, valid = validateSigs(
-                serder=serder, sigers=sigers, verfers=sverfers, tholder=sserder.tholder
-            )
+            try:
+                sigers, valid = validateSigs(
+                    serder=serder,
+                    sigers=sigers,
+                    verfers=sverfers,
+                    tholder=sserder.tholder,
+                )
+            except ValidationError as ex:  # none verified
+                logger.info(
+                    "Revery: skipped sig group on reply said=%s: %s",
+                    serder.said,
+                    ex.args[0],
+                )
+                continue  # skip so does not spoil other groups on same reply
             # no error so at least one verified siger
 
             if valid:  # meet threshold so save
@@ -399,22 +424,21 @@ class Revery:
                     diger=sdiger,
                     sigers=sigers,
                 )
-                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
-                # remove stale signatures .tsgs for this saider
+                if not same:
+                    self.removeReply(saider=osaider)  # remove obsoleted artifacts
+                # remove other signatures in .tsgs for this saider
                 # this ensures that zeroth tsg is authoritative
-                for prr, snr, dgr, _ in fetchTsgs(
-                    db=self.db.tsgs, diger=saider, snh=snumber.snh
-                ):
-                    if (snr.sn < snumber.sn) or (
-                        snr.sn == snumber.sn and dgr.qb64 != sdiger.qb64
-                    ):
+                for prr, snr, dgr, _ in fetchTsgs(db=self.db.tsgs, diger=saider):
+                    if (prr.qb64, snr.sn, dgr.qb64) != (spre, snumber.sn, sdiger.qb64):
                         self.db.tsgs.trim(
-                            keys=(prr.qb64, f"{snr.sn:032h}", dgr.qb64, "")
+                            keys=(saider.qb64, prr.qb64, snr.snh, dgr.qb64, "")
                         )
-
+                self.db.rpes.rem(keys=(route,), val=saider)  # no longer in escrow
+                # any later groups on this reply compare to it as accepted
+                osaider, odater, same = saider, dater, True
                 accepted = True
 
-            else:  # not meet threshold so escrow
+            elif not same:  # not meet threshold so escrow unless already accepted
                 self.escrowReply(
                     serder=serder,
                     saider=saider,
@@ -463,7 +487,7 @@ class Revery:
             self.db.scgs.put(keys=keys, vals=[(cigar.verfer, cigar)])
         if sigers:  # want sn in numerical order so use hex
             quadkeys = (saider.qb64, prefixer.qb64, f"{seqner.sn:032x}", diger.qb64)
-            self.db.tsgs.put(keys=quadkeys, vals=sigers)
+            self.db.tsgs.pin(keys=quadkeys, vals=sigers)  # only verified ones
 
     def removeReply(self, saider):
         """Remove Reply SAD artifacts given by saider.
-- 
2.43.0


From 192b4446feccace4b4e4f3fc26ede3e4bbe4a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:53 +0000
Subject: [PATCH 058/152] fix: query by nontransferable source waits in escrow
 instead of failing

---
 src/keri/core/eventing.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 1cdf1d4..d57fd47 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5844,9 +5844,12 @@ class Kevery:
             sigers (list): of Siger instance for  event
             cigars (list): of non-transferable receipts"""
         cigars = cigars if cigars is not None else []
+        if prefixer is None and cigars:  # nontransferable source
+            prefixer = Prefixer(qb64=cigars[0].verfer.qb64)
         dgkey = dgKey(prefixer.qb64b, serder.saidb)
         self.db.dtss.put(keys=dgkey, val=Dater())
-        self.db.sigs.put(keys=dgkey, vals=sigers)
+        if sigers:
+            self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(prefixer.qb64b, serder.saidb), val=serder)
         self.db.qnfs.add(keys=(prefixer.qb64, serder.said), val=serder.saidb)
 
@@ -7117,14 +7120,6 @@ class Kevery:
 
                     #  get sigs and attach
                     sigers = self.db.sigs.get(keys=(pre, edig))
-                    if not sigers:  # otherwise its a list of sigs
-                        # no sigs so raise ValidationError which unescrows below
-                        msg = f"QNF Missing escrowed evt sigs at dig = {edig}"
-                        logger.trace("Kevery unescrow error: %s", msg)
-                        raise ValidationError(msg)
-
-                    # process event
-                    sigers = self.db.sigs.get(keys=(pre, edig))
 
                     # ToDo XXXX get trans endorsements
                     # getVrcs
@@ -7132,8 +7127,17 @@ class Kevery:
                     #  get nontrans endorsements
                     cigars = []
                     for prefixer, cigar in self.db.rcts.getIter(keys=(pre.encode("utf-8"), edig.encode("utf-8"))):
+                        cigar.verfer = Verfer(qb64=prefixer.qb64)
                         cigars.append(cigar)
 
+                    if not (sigers or cigars):  # otherwise its a list of sigs
+                        # no sigs so raise ValidationError which unescrows below
+                        msg = f"QNF Missing escrowed evt sigs at dig = {edig}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise ValidationError(msg)
+
+                    # process event
+
                     source = Prefixer(qb64b=pre)
                     self.processQuery(serder=eserder, source=source, sigers=sigers, cigars=cigars)
 
-- 
2.43.0


From 8362f84a9a99d4a69c84fbcfe14490775cc82fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 059/152] fix: kramed message signed by reference to sender's
 last establishment event not dropped after interactions

---
 src/keri/core/kraming.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d25f4f7..b70b671 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -436,6 +436,20 @@ class Kramer:
         if not lsgs:
             kwa.pop('lsgs', None)
 
+    @staticmethod
+    def _isCurrentKeyState(kever, number, sdiger):
+        """Returns True when (number, sdiger) references the sender's current
+        key state, i.e. its last establishment event, as attached by signers, or
+        its latest event, False otherwise.
+
+        Parameters:
+            kever (Kever): sender's Kever (current key state)
+            number (Number): sequence number of referenced event
+            sdiger (Diger): said of referenced event
+        """
+        return (number.sn, sdiger.qb64) in ((kever.lastEst.s, kever.lastEst.d),
+                                            (kever.sner.num, kever.serder.said))
+
     def _normalizeCurrentSenderTsgs(self, senderId, kever, kwa):
         """Fold sender-matching current-key trans last-sig groups into sigers.
 
@@ -455,12 +469,10 @@ class Kramer:
                 exist (``kramit`` ensures this before calling).
         """
         tsgs = kwa.get('tsgs', [])
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
         for prefixer, number, sdiger, sigers in tsgs:
             if prefixer.qb64 != senderId:
                 continue
-            if number.sn == cur_sn and sdiger.qb64 == cur_said:
+            if self._isCurrentKeyState(kever, number, sdiger):
                 kwa['sigers'].extend(sigers)
         if not tsgs:
             kwa.pop('tsgs', None)
@@ -552,21 +564,20 @@ class Kramer:
         if not tsgs:
             return stale_tsgs
 
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
         new_tsgs = []
         for quad in tsgs:
             prefixer, number, sdiger, sigers = quad
             if prefixer.qb64 != senderId:
                 new_tsgs.append(quad)
                 continue
-            if number.sn == cur_sn and sdiger.qb64 == cur_said:
+            if self._isCurrentKeyState(kever, number, sdiger):
                 new_tsgs.append(quad)
                 continue
 
             sdig = self.db.kels.getLast(keys=senderId, on=number.sn)
             if sdig is not None and sdig == sdiger.qb64:
-                if (evtSerder := self.db.evts.get(keys=(senderId, sdiger.qb64))) is not None:
+                if ((evtSerder := self.db.evts.get(keys=(senderId, sdiger.qb64))) is not None
+                        and evtSerder.estive):
                     vsigers, _ = verifySigs(
                         raw=msg.raw, sigers=list(sigers),
                         verfers=evtSerder.verfers)
@@ -608,8 +619,6 @@ class Kramer:
             if not kwa['lsgs']:
                 kwa.pop('lsgs', None)
 
-        curSn = kever.sner.num
-        curSaid = kever.serder.said
         if kwa.get('tsgs'):
             newTsgs = []
             for quad in kwa['tsgs']:
@@ -617,7 +626,7 @@ class Kramer:
                 if prefixer.qb64 != senderId:
                     newTsgs.append(quad)
                     continue
-                if number.sn == curSn and sdiger.qb64 == curSaid:
+                if self._isCurrentKeyState(kever, number, sdiger):
                     filtered = [s for s in sigers if s.qb64 in verified]
                     if filtered:
                         newTsgs.append((prefixer, number, sdiger, filtered))
@@ -694,8 +703,7 @@ class Kramer:
         for prefixer, number, sdiger, sigers in kwa.get('tsgs', []):
             if prefixer.qb64 != senderId:
                 continue
-            if (number.sn != kever.sner.num or
-                    sdiger.qb64 != kever.serder.said):
+            if not self._isCurrentKeyState(kever, number, sdiger):
                 continue
             for siger in sigers:
                 pool.add(siger.qb64)
-- 
2.43.0


From d36f4dbdb4cbca769c50b8042d3718c1d94c8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 060/152] fix: kramed message completed by accumulated
 signatures released only once

---
 src/keri/core/kraming.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index b70b671..6155dcd 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1115,6 +1115,10 @@ class Kramer:
                 if existingSigs is None:
                     existingSigs = []
 
+                if (existingSigs and kever.tholder and kever.tholder.satisfy(
+                        indices=[sig.index for sig in existingSigs])):
+                    return None  # already released when threshold was met
+
                 existingSigIndices = {sig.index for sig in existingSigs}
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
@@ -1348,6 +1352,10 @@ class Kramer:
                 if existingSigs is None:
                     existingSigs = []
 
+                if (existingSigs and kever.tholder and kever.tholder.satisfy(
+                        indices=[sig.index for sig in existingSigs])):
+                    return None  # already released when threshold was met
+
                 existingSigIndices = {sig.index for sig in existingSigs}
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
-- 
2.43.0


From defcf550830d550778763b37e3dfcf3238b9b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 061/152] fix: kramed exchange message kept in replay cache
 while still timely

---
 src/keri/core/kraming.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 6155dcd..63d4f9c 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -2160,8 +2160,12 @@ class Kramer:
             # Get the prune lag values from the cache record
             pxl = cache.pxl
 
-            # Apply the comparison
-            if not xdt_ms <= rdt_ms <= xdt_ms + pxl:
+            mdt_ms = int(helping.fromIso8601(cache.mdt).timestamp() * 1000)
+
+            # Apply the comparison to both exchange and message so that a message
+            # still timely stays cached, otherwise it could be replayed
+            if (not xdt_ms <= rdt_ms <= xdt_ms + pxl and
+                    not rdt_ms - cache.d - cache.pml <= mdt_ms <= rdt_ms + cache.d):
                 self.db.kramTMSC.rem(keys=(aid, xid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
-- 
2.43.0


From eaca9d1a7603bf1c811268a0e689bb3820714f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 062/152] fix: sealed kramed message of multi-key sender kept
 in replay cache while its signatures are timely

---
 src/keri/core/kraming.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 63d4f9c..8b6ddfd 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1180,7 +1180,10 @@ class Kramer:
                     pml = cacheTypeRecord.pll
                 else:
                     ml = cacheTypeRecord.sl   # short lag for seal/single-key
-                    pml = cacheTypeRecord.psl
+                    # sealed message of multi-key sender must stay cached as long
+                    # as its signatures without seal would be timely
+                    pml = (cacheTypeRecord.pll if len(kever.verfers) > 1
+                           else cacheTypeRecord.psl)
 
                 # Timeliness check (millisecond units)
                 rdt = helping.fromIso8601(
@@ -1415,7 +1418,10 @@ class Kramer:
                     pml = cacheTypeRecord.pll
                 else:
                     ml = cacheTypeRecord.sl   # short lag for seal/single-key
-                    pml = cacheTypeRecord.psl
+                    # sealed message of multi-key sender must stay cached as long
+                    # as its signatures without seal would be timely
+                    pml = (cacheTypeRecord.pll if len(kever.verfers) > 1
+                           else cacheTypeRecord.psl)
 
                 if authType == AuthTypes.AttachedSealReference or authType == AuthTypes.AttachedSignatureSingleKey:
                     match msgType:
-- 
2.43.0


From 0590ee423c60c9daebef18d7b49556716e095c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 063/152] fix: putOnIoDupVals looks for duplicates at its own
 ordinal and separator

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index f4752f8..fa32604 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2793,7 +2793,7 @@ class LMDBer(filing.Filer):
             sep (bytes): separator character for split"""
 
         result = False
-        dups = set(self.getOnIoDupVals(db, key))  #get preexisting dups if any
+        dups = set(self.getOnIoDupVals(db, key, on=on, sep=sep))  #get preexisting dups if any
         with self.env.begin(db=db, write=True, buffers=True) as txn:
             idx = 0
             cursor = txn.cursor()
-- 
2.43.0


From 6025e5edbddcf1c176ba6eda33654ee5dee60531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 064/152] fix: getOnIoDupItemBackIter never starts above the
 requested ordinal

---
 src/keri/db/dbing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index fa32604..a0401f8 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3219,8 +3219,7 @@ class LMDBer(filing.Filer):
             if key:  # not empty so attempt to position at starting key not last
                 onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
                 if cursor.set_range(onkey):  #  found key >= onkey
-                    ckey, cn = splitOnKey(cursor.key(), sep=sep)
-                    if ckey == key: # onkey in db
+                    if cursor.key() == onkey: # onkey in db
                         cursor.last_dup()  # start at its last dup
                     else:  # get closest key < onkey
                         if not cursor.prev():  # last dup of previous key
-- 
2.43.0


From 43dc9f08f493fdc3f506f1b0b3673af1bcfe3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 065/152] fix: last-value getters of IoSetSuber and
 OnIoDupSuber use the separator of the sub-database

---
 src/keri/db/subing.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/keri/db/subing.py b/src/keri/db/subing.py
index e1384fd..067c6c0 100644
--- a/src/keri/db/subing.py
+++ b/src/keri/db/subing.py
@@ -1388,7 +1388,8 @@ class IoSetSuber(SuberBase):
         Returns:
             last ((str, str)|None): (key, val) tuple or empty tuple if no entry
             at keys or keys is empty"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                             sep=self.sep.encode()):
             key, val = last
             return (self._tokeys(key), self._des(val))
         return last
@@ -1407,7 +1408,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             val (str):  value str, None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                             sep=self.sep.encode()):
             key, val = last
             return self._des(val)
         return None
@@ -1515,7 +1517,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             vals (Iterator[str]):  value str"""
-        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys)):
+        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys),
+                                               sep=self.sep.encode()):
             yield self._des(val)
 
 
@@ -1536,7 +1539,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             items (Iterator[(str, str)]):  (key, val) tuples"""
-        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys)):
+        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys),
+                                                        sep=self.sep.encode()):
             yield (self._tokeys(key), self._des(val))
 
 
@@ -2731,7 +2735,8 @@ class OnIoDupSuber(OnSuberBase, IoDupSuber):
             last (str):  value str, None if no entry at effective key made from
                 keys and on"""
 
-        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on)
+        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on,
+                                     sep=self.sep.encode())
         return (self._des(val) if val is not None else val)
 
 
-- 
2.43.0


From 091f3dbf51954eb3283be39280ab7b4e4503bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:52 +0000
Subject: [PATCH 066/152] fix: IoSetKomer getLast uses the separator of the
 sub-database

---
 src/keri/db/koming.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/koming.py b/src/keri/db/koming.py
index 1ef4ce4..e906b14 100644
--- a/src/keri/db/koming.py
+++ b/src/keri/db/koming.py
@@ -529,7 +529,8 @@ class IoSetKomer(KomerBase):
         Returns:
             val (Type[dataclass]):  instance of type self.schema
                 None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                             sep=self.sep.encode()):
             key, val = last
             return self._des(val)
         return None
-- 
2.43.0


From 64a20bdcc96fb6db2dc96885c716d1c723b88d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 067/152] fix: full item iterators of signer and notice
 sub-databases give the types stored

---
 src/keri/app/notifying.py |  8 ++++++++
 src/keri/db/subing.py     | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/keri/app/notifying.py b/src/keri/app/notifying.py
index 3ec0531..3764349 100644
--- a/src/keri/app/notifying.py
+++ b/src/keri/app/notifying.py
@@ -174,6 +174,14 @@ class DicterSuber(Suber):
                                                top=self._tokey(keys)):
             yield self._tokeys(key), self.klas(raw=bytes(val))
 
+    def getFullItemIter(self, keys: Union[str, Iterable] = b"", **kwa):
+        """ Return iterator as getTopItemIter, since no part of key is hidden
+
+        Parameters:
+            keys (tuple): see getTopItemIter
+            **kwa: see getTopItemIter"""
+        yield from self.getTopItemIter(keys, **kwa)
+
     def cntAll(self):
         """
         Return count over the all the items in subdb
diff --git a/src/keri/db/subing.py b/src/keri/db/subing.py
index 067c6c0..c6cbb94 100644
--- a/src/keri/db/subing.py
+++ b/src/keri/db/subing.py
@@ -1753,6 +1753,17 @@ class SignerSuber(CesrSuber):
                                    transferable=verfer.transferable))
 
 
+    def getFullItemIter(self, keys: str|bytes|memoryview|Iterable = "", **kwa):
+        """Get items iterator as getTopItemIter, since no part of key is hidden
+        and transferability of each Signer comes from its key.
+
+        Parameters:
+            keys (str|bytes|memoryview|Iterable): see getTopItemIter
+            **kwa: see getTopItemIter
+        """
+        yield from self.getTopItemIter(keys, **kwa)
+
+
 class CryptSignerSuber(SignerSuber):
     """
     Sub class of SignerSuber where data is Signer subclass instance .qb64b property
-- 
2.43.0


From 2dab40cc10828e479ff8aea8a3f17345fa5185ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 068/152] fix: event of key state reloaded from database waits
 instead of failing when its witnesses or delegator are missing

---
 src/keri/core/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index d57fd47..651c5fe 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4408,6 +4408,8 @@ class Kevery:
 
             else:  # rot, drt, or ixn, so sn matters
                 kever = self.kevers[pre]  # get existing kever for pre
+                if kever.cues is None:  # reloaded from database so without cues
+                    kever.cues = self.cues
                 sno = kever.sner.num + 1  # proper sn of new inorder event
 
                 saids = self.db.kels.get(keys=pre, on=sn)  # accepted at sn
-- 
2.43.0


From b33b836408652cb5fa6bafaa45ae22b81a9dc5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 069/152] fix: acceptance of an event interrupted by a crash is
 completed, not repeated in the first seen log

---
 src/keri/core/eventing.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 651c5fe..51c3583 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3722,7 +3722,12 @@ class Kever:
 
         pre = self.prefixer.qb64
         if first:  # append event dig to first seen database in order
-            fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
+            # next fn after that of current key state. When already assigned to
+            # this event then its earlier acceptance was interrupted before its
+            # key state was stored, so reuse its first seen entry.
+            fn = 0 if serder.ilk in (Ilks.icp, Ilks.dip) else self.fn + 1
+            if self.db.fels.get(keys=serder.preb, on=fn) != serder.said:
+                fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
             if firner and fn != firner.sn:  # cloned replay but replay fn not match
                 if self.cues is not None:  # cue to notice BadCloneFN
                     self.cues.push(dict(kin="noticeBadCloneFN", serder=serder,
@@ -4413,9 +4418,12 @@ class Kevery:
                 sno = kever.sner.num + 1  # proper sn of new inorder event
 
                 saids = self.db.kels.get(keys=pre, on=sn)  # accepted at sn
-                if said in saids and (sn >= sno or said != saids[-1]):
+                if (said in saids and (sn >= sno or said != saids[-1])
+                        and self.db.fels.get(keys=pre, on=kever.fn + 1) != said):
                     # already accepted then superseded, escrowing it would
-                    # store unverified signatures with an accepted event
+                    # store unverified signatures with an accepted event.
+                    # Not so when first seen after event of key state, then its
+                    # acceptance was interrupted and has to be completed
                     raise ValidationError(f"Superseded event sn={serder.sn} "
                                           f"type={serder.ilk} SAID={said}")
 
-- 
2.43.0


From 4f998ce6055418a79804f9bb577be8d6d50d304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 070/152] fix: setting, changing and removing the keystore
 encryption key re-encrypts every secret and refuses wrong seeds without
 effect

---
 src/keri/app/keeping.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 5091bec..97525ad 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -804,13 +804,14 @@ class Manager:
                                        "".format(self.aeid))
 
         if aeid:  # aeid provided
-            if aeid != self.aeid:  # changing to a new aeid so update .encrypter
-                self.encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
-                # verifies new seed belongs to new aeid
-                if not seed or not self.encrypter.verifySeed(seed):
-                    raise AuthError("Seed missing or provided seed not associated"
-                                           "  with provided aeid={}.".format(aeid))
+            encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
+            # verifies new seed belongs to new aeid before anything changes
+            if not seed or not encrypter.verifySeed(seed):
+                raise AuthError("Seed missing or provided seed not associated"
+                                       "  with provided aeid={}.".format(aeid))
+            self.encrypter = encrypter
         else:  # changing to empty aeid so new encrypter is None
+            aeid = ''  # None means empty
             self.encrypter = None
 
         # fetch all secrets from db, decrypt all secrets with self.decrypter
@@ -822,12 +823,13 @@ class Manager:
             self.salt = salt
             # self.salt = self.encrypter.encrypt(ser=salt).qb64 if self.encrypter else salt
 
-        # other secrets
-        if self.decrypter:
+        # other secrets, in clear when no decrypter
+        if self.decrypter or self.encrypter:
             # re-encrypt root salt secrets by prefix parameters .prms
             for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
                 if data.salt:
-                    salter = self.decrypter.decrypt(qb64=data.salt)
+                    salter = (self.decrypter.decrypt(qb64=data.salt)
+                              if self.decrypter else Salter(qb64=data.salt))
                     data.salt = (self.encrypter.encrypt(prim=salter).qb64
                                  if self.encrypter else salter.qb64)
                     self.ks.prms.pin(keys, val=data)
@@ -841,7 +843,7 @@ class Manager:
         self._seed = seed  # set .seed in memory
 
         # update .decrypter
-        self.decrypter = Decrypter(seed=seed) if seed else None
+        self.decrypter = Decrypter(seed=seed) if aeid and seed else None
 
 
     @property
-- 
2.43.0


From f332f926350a23c5c10d987796d6b6171f4dcd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 071/152] fix: ingested keys are stored encrypted, and without
 a salt when made at random

---
 src/keri/app/keeping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 97525ad..f27679e 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1584,7 +1584,7 @@ class Manager:
                 # Secret to encrypt here
                 pp = PrePrm(pidx=pidx,
                             algo=algo,
-                            salt=(creator.salt if not self.encrypter
+                            salt=(creator.salt if not self.encrypter or not creator.salt
                                   else self.encrypter.encrypt(ser=creator.salt,
                                         code=MtrDex.X25519_Cipher_Salt).qb64),
                             stem=creator.stem,
@@ -1647,7 +1647,8 @@ class Manager:
 
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
-            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer)
+            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
+                             encrypter=self.encrypter)
 
         pubs = [signer.verfer.qb64 for signer in nsigners]
         self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
-- 
2.43.0


From a028f39ca1262669141c16e6cd5f2de60579c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:39 +0000
Subject: [PATCH 072/152] fix: identifier made from given secrets starting
 after the first lot failed

---
 src/keri/app/habbing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index af91178..1f7305e 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2941,13 +2941,13 @@ class Hab(BaseHab):
 
         stem = self.name if self.ns is None else f"{self.ns}{self.name}"
         if secrecies:  # replay
-            ipre, _ = self.mgr.ingest(secrecies,
+            opre, _ = self.mgr.ingest(secrecies,
                                       iridx=iridx,
                                       ncount=ncount,
                                       stem=stem,
                                       transferable=transferable,
                                       temp=self.temp)
-            verfers, digers = self.mgr.replay(pre=ipre, advance=False)
+            verfers, digers = self.mgr.replay(pre=opre, advance=False)
 
         else:  # use defaults
             verfers, digers = self.mgr.incept(icount=icount,
@@ -2960,6 +2960,7 @@ class Hab(BaseHab):
                                               salt=salt,
                                               tier=tier,
                                               temp=self.temp)
+            opre = verfers[0].qb64  # default zeroth original pre from key store
 
         serder = super(Hab, self).incept(isith=isith,
                                        verfers=verfers,
@@ -2977,7 +2978,6 @@ class Hab(BaseHab):
 
         self.pre = serder.ked["i"]  # new pre
 
-        opre = verfers[0].qb64  # default zeroth original pre from key store
         self.mgr.move(old=opre, new=self.pre)  # move to incept event pre
 
         # may want db method that updates .habs. and .prefixes together
-- 
2.43.0


From 9d5322f77a4471fe492288141dac4cd0a538f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:39 +0000
Subject: [PATCH 073/152] fix: joined signify group identifier replaced its
 local member after a restart

---
 src/keri/app/habbing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 1f7305e..774fda6 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -645,7 +645,8 @@ class Habery:
 
         hab.pre = pre
         habord = HabitatRecord(hid=hab.pre,
-                                      sid=mhab.pre,
+                                      mid=mhab.pre,
+                                      sid=hab.pre,
                                       name=name,
                                       domain=ns,
                                       smids=smids,
-- 
2.43.0


From 4f9adb24f7881dfa1eccdfcafd658a6cb828c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 074/152] fix: namespaces and next members of identifiers were
 lost on restart

---
 src/keri/app/habbing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 774fda6..5168710 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -325,21 +325,22 @@ class Habery:
             if habord.mid and not habord.sid:
                 hab = GroupHab(ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
-                               name=habord.name, pre=pre, temp=self.temp, smids=habord.smids)
+                               name=habord.name, ns=habord.domain, pre=pre, temp=self.temp,
+                               smids=habord.smids, rmids=habord.rmids)
                 groups.append(habord)
             elif habord.sid and not habord.mid:
                 hab = SignifyHab(ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                  rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
-                                 name=habord.name, pre=habord.sid)
+                                 name=habord.name, ns=habord.domain, pre=habord.sid)
             elif habord.sid and habord.mid:
-                hab = SignifyGroupHab(smids=habord.smids, ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
+                hab = SignifyGroupHab(smids=habord.smids, rmids=habord.rmids, ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                       rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
-                                      name=habord.name, pre=pre)
+                                      name=habord.name, ns=habord.domain, pre=pre)
                 groups.append(habord)
             else:
                 hab = Hab(ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                           rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
-                          name=habord.name, pre=pre, temp=self.temp)
+                          name=habord.name, ns=habord.domain, pre=pre, temp=self.temp)
 
             # Rules for acceptance:
             # It is accepted into its own local KEL even if it has not been fully
-- 
2.43.0


From 93a81e266cb627041a7f452d27cd9a71d4b55f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 075/152] fix: acceptance of own event interrupted by a crash
 is completed when stores are opened

---
 src/keri/app/habbing.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 5168710..7d255cd 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -349,6 +349,15 @@ class Habery:
                 raise ConfigurationError(f"Problem loading Hab pre="
                                                 f"{pre} name={habord.name} from db.")
 
+            # complete acceptance of own event that was interrupted (crash) after
+            # it was first seen but before its key state was stored
+            if hab.accepted and (said := self.db.fels.get(keys=hab.pre,
+                                                          on=hab.kever.fn + 1)):
+                dgkeys = (hab.pre, said)
+                self.kvy.processEvent(serder=self.db.evts.get(keys=dgkeys),
+                                      sigers=self.db.sigs.get(keys=dgkeys),
+                                      wigers=self.db.wigs.get(keys=dgkeys))
+
             # read in config file and process any oobis or endpoints for hab
             hab.inited = True
             self.habs[hab.pre] = hab
-- 
2.43.0


From a29686bff60ccf353d48f5b0506258b4b8603011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 076/152] fix: rotation interrupted by a crash, or refused, no
 longer leaves key store ahead of event log or with key lots of the wrong size

---
 src/keri/app/habbing.py | 18 ++++++++++++++++--
 src/keri/app/keeping.py | 27 +++++++++++++++++++++++----
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 7d255cd..2989109 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -11,7 +11,7 @@ from hio.base import doing
 from hio.help import hicting, ogler
 
 from .configing import Configer
-from .keeping import Keeper, Manager
+from .keeping import Keeper, Manager, PreSit, PubLot, riKey
 
 from ..peer import Exchanger,  specialExchange
 from ..db import Baser, dgKey, fetchTsgs
@@ -3070,6 +3070,20 @@ class Hab(BaseHab):
         # sync with the KEL (issue #819).
         ps_before = self.mgr.ks.sits.get(self.pre)
 
+        # Key store may be ahead of KEL when an earlier rotation was interrupted
+        # (crash) before its event was accepted. Put it back.
+        if (ps_before is not None
+                and ps_before.new.pubs != [verfer.qb64 for verfer in kever.verfers]
+                and [Diger(ser=pub.encode(), code=diger.code).qb64 for pub, diger
+                     in zip(ps_before.new.pubs, kever.ndigers)]
+                    == [diger.qb64 for diger in kever.ndigers]):
+            pubset = (self.mgr.ks.pubs.get(riKey(self.pre, ps_before.old.ridx - 1))
+                      if ps_before.old.ridx else None)
+            ps_before = PreSit(old=PubLot(pubs=pubset.pubs if pubset else [],
+                                          ridx=max(ps_before.old.ridx - 1, 0)),
+                               new=ps_before.old, nxt=ps_before.new)
+            self.mgr.restore(self.pre, ps_before)
+
         try:
             verfers, digers = self.mgr.replay(pre=self.pre, erase=False)
         except IndexError:  # old next is new current
@@ -3089,7 +3103,7 @@ class Hab(BaseHab):
         except Exception:
             # Rotation event validation failed. Rollback key state to
             # pre-rotation snapshot so KEL and key store stay in sync.
-            self.mgr.ks.sits.pin(self.pre, val=ps_before)
+            self.mgr.restore(self.pre, ps_before)
             raise
 
         # Event validated successfully. Now safe to erase old stale
diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index f27679e..dee9b2f 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1241,15 +1241,16 @@ class Manager:
         ps.nxt = PubLot(pubs=[signer.verfer.qb64 for signer in signers],
                               ridx=ridx, kidx=kidx, dt=dt)
 
-        if not self.ks.sits.pin(pre, val=ps):
-            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
-
+        # store secrets before situation that depends on them
         for signer in signers:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
+        if not self.ks.sits.pin(pre, val=ps):
+            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
+
         # store public keys for lookup of private keys by public key for replay
-        self.ks.pubs.put(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
 
         if erase:
             for pub in old.pubs:  # remove prior old prikeys not current old
@@ -1258,6 +1259,24 @@ class Manager:
         return (verfers, digers)
 
 
+    def restore(self, pre, ps):
+        """
+        Restores public key situation ps of pre after rotation or replay that
+        did not take effect. Discards key lot made by such rotation so that
+        another one may be made. Key lots from ingestion are kept.
+
+        Parameters:
+           pre (str): fully qualified qb64 identifier prefix
+           ps (PreSit): situation to restore
+        """
+        ridx = ps.nxt.ridx + 1
+        if not self.ks.pubs.get(riKey(pre, ridx + 1)):
+            self.ks.pubs.rem(riKey(pre, ridx))
+        if not self.ks.sits.pin(pre, val=ps):
+            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
+
+
+
     def sign(self, ser, pubs=None, verfers=None, indexed=True,
              indices=None, ondices=None, pre=None, path=None):
         """
-- 
2.43.0


From d4178af300f8723594bce91a33ff103f68faef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 077/152] fix: register group identifiers as locally membered
 when made and on reload

---
 src/keri/app/habbing.py | 4 ++++
 src/keri/db/basing.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 2989109..d611025 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -550,6 +550,7 @@ class Habery:
 
         hab.save(habord)
         hab.prefixes.add(pre)
+        self.db.groups.add(pre)
         hab.inited = True
 
         self.habs[hab.pre] = hab
@@ -664,6 +665,7 @@ class Habery:
 
         hab.save(habord)
         hab.prefixes.add(pre)
+        self.db.groups.add(pre)
         hab.inited = True
 
         self.habs[hab.pre] = hab
@@ -3578,6 +3580,7 @@ class SignifyGroupHab(SignifyHab):
         habord = HabitatRecord(hid=self.pre, mid=self.mhab.pre, smids=self.smids, rmids=self.rmids,
                                       sid=self.pre, name=self.name, domain=self.ns)
         self.save(habord)
+        self.db.groups.add(self.pre)
         self.inited = True
 
 
@@ -3790,6 +3793,7 @@ class GroupHab(BaseHab):
                                       rmids=self.rmids)
         self.save(habord)
         self.prefixes.add(self.pre)
+        self.db.groups.add(self.pre)
 
         # during delegation initialization of a habitat we ignore the MissingDelegationError and
         # MissingSignatureError
diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index e906c35..70558ca 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1362,6 +1362,10 @@ class Baser(LMDBer):
             elif data.mid is None:  # in .habs but no corresponding key state and not a group so remove
                 removes.append(keys)  # no key state or KEL event for .hab record
 
+            else:  # group whose inception does not yet have key state
+                self.prefixes.add(data.hid)
+                self.groups.add(data.hid)
+
         for keys in removes:  # remove bare .habs records
             self.habs.rem(keys=keys)
 
-- 
2.43.0


From d6ac311ab71b5af2077582036cbc20e48ce2ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 078/152] fix: a local member's former keys in its group count
 as its own

---
 src/keri/core/eventing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 51c3583..76a98a7 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2294,8 +2294,11 @@ class Kever:
         habord = self.db.habs.get(keys=(self.prefixer.qb64,))
         kever = self.kevers[habord.mid]
 
-        return [idx for idx, verfer in enumerate(verfers)
-                            if verfer.qb64 == kever.verfers[0].qb64]
+        # member may have rotated since it contributed its key to the group
+        if (contrib := kever.fetchLatestContribTo(verfers=verfers)) is None:
+            return []
+        _, idx, _ = contrib
+        return [idx]
 
 
     def reload(self, state):
-- 
2.43.0


From a1c52862398d5526127009950013b46381683a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 079/152] fix: counselor completes only the proposal that was
 accepted and keeps the others

---
 src/keri/app/grouping.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/keri/app/grouping.py b/src/keri/app/grouping.py
index dcc5169..b406b35 100644
--- a/src/keri/app/grouping.py
+++ b/src/keri/app/grouping.py
@@ -145,11 +145,16 @@ class Counselor(doing.DoDoer):
         then this escrow waits for signatures from all other participants
 
         """
-        for (pre,), (number, diger) in self.hby.db.gpse.getTopItemIter():  # group partially signed escrow
+        items = list(self.hby.db.gpse.getTopItemIter())  # group partially signed escrow
+        for (pre,), (number, diger) in items:
             sdig = self.hby.db.kels.getLast(keys=pre, on=number.sn)
             if sdig:
                 sdig = sdig.encode("utf-8")
                 self.hby.db.gpse.rem(keys=(pre,))
+                for (opre,), (onumber, odiger) in items:  # keep others still waiting
+                    if opre == pre and not self.hby.db.kels.getLast(keys=pre, on=onumber.sn):
+                        self.hby.db.gpse.add(keys=(pre,), val=(onumber, odiger))
+
                 ghab = self.hby.habs[pre]
                 kever = ghab.kever
                 keys = [verfer.qb64 for verfer in kever.verfers]
@@ -198,6 +203,12 @@ class Counselor(doing.DoDoer):
 
         """
         for (pre,), (number, diger) in self.hby.db.gdee.getTopItemIter():  # group delegatee escrow
+            if diger.qb64 not in self.hby.db.kels.get(keys=pre, on=number.sn):
+                # some other event was accepted instead
+                logger.info("AID %s...%s: Proposed event at %s was not accepted", pre[:4], pre[-4:], number.sn)
+                self.hby.db.gdee.rem(keys=(pre,), val=(number, diger))
+                continue
+
             anchor = dict(i=pre, s=number.numh, d=diger.qb64)
             ghab = self.hby.habs[pre]
             kever = ghab.kevers[pre]
@@ -207,7 +218,7 @@ class Counselor(doing.DoDoer):
 
             if witer:  # We are elected witnesser, We've already done out part in Boatswain, we are done.
                 if self.swain.complete(prefixer=kever.prefixer, number=Number(num=kever.sn, code=NumDex.Huge)):
-                    self.hby.db.gdee.rem(keys=(pre,))
+                    self.hby.db.gdee.rem(keys=(pre,), val=(number, diger))
                     logger.info("AID %s...%s: Delegation approval for %s received.", pre[:4], pre[-4:], pre)
 
                     self.hby.db.cgms.put(keys=(pre, number.qb64), val=diger)
@@ -219,12 +230,12 @@ class Counselor(doing.DoDoer):
                     adiger = Diger(qb64b=serder.saidb)
                     self.hby.db.aess.pin(keys=(pre, diger.qb64b),
                                          val=(sner, adiger))  # authorizer event seal (delegator/issuer)
-                    self.hby.db.gdee.rem(keys=(pre,))
+                    self.hby.db.gdee.rem(keys=(pre,), val=(number, diger))
                     logger.info("AID %s...%s: Delegation approval for %s received.", pre[:4], pre[-4:], pre)
 
                     # Move to escrow waiting for witness receipts
                     logger.info("AID %s...%s: Waiting for witness receipts for %s", pre[:4], pre[-4:], pre)
-                    self.hby.db.gdee.rem(keys=(pre,))
+                    self.hby.db.gdee.rem(keys=(pre,), val=(number, diger))
                     self.hby.db.gpwe.add(keys=(pre,), val=(number, diger))
 
     def processPartialWitnessEscrow(self):
@@ -235,6 +246,12 @@ class Counselor(doing.DoDoer):
 
         """
         for (pre,), (number, diger) in self.hby.db.gpwe.getTopItemIter():  # group partial witness escrow
+            if diger.qb64 not in self.hby.db.kels.get(keys=pre, on=number.sn):
+                # some other event was accepted instead
+                logger.info("AID %s...%s: Proposed event at %s was not accepted", pre[:4], pre[-4:], number.sn)
+                self.hby.db.gpwe.rem(keys=(pre,), val=(number, diger))
+                continue
+
             kever = self.hby.kevers[pre]
 
             # Load all the witness receipts we have so far
@@ -251,7 +268,7 @@ class Counselor(doing.DoDoer):
                     if not witnessed:
                         continue
                 logger.info("AID %s...%s: Witness receipts complete, %s confirmed.", pre[:4], pre[-4:], pre)
-                self.hby.db.gpwe.rem(keys=(pre,))
+                self.hby.db.gpwe.rem(keys=(pre,), val=(number, diger))
                 self.hby.db.cgms.put(keys=(pre, number.qb64), val=diger)
             elif not witer:
                 self.witDoer.gets.append(dict(pre=pre, sn=number.sn))
-- 
2.43.0


From 5b1df7c2f964984061bc0a3e846767ea93dc5f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 080/152] fix: counselor catches up on events before a change
 of group keys

---
 src/keri/app/grouping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/grouping.py b/src/keri/app/grouping.py
index b406b35..4345a4d 100644
--- a/src/keri/app/grouping.py
+++ b/src/keri/app/grouping.py
@@ -165,7 +165,8 @@ class Counselor(doing.DoDoer):
                 windex = min([siger.index for siger in sigers])
 
                 # True if Elected to perform delegation and witnessing
-                witered = ghab.mhab.kever.verfers[0].qb64 == keys[windex]
+                witered = (windex < len(keys) and  # keys may have changed since
+                           ghab.mhab.kever.verfers[0].qb64 == keys[windex])
 
                 if kever.delegated and kever.ilk in (Ilks.dip, Ilks.drt):
                     # We are a delegated identifier, must wait for delegator approval for dip and drt
-- 
2.43.0


From a22269aec8833bba122f2f1af0006827c26a2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 081/152] fix: refuse multisig proposals whose embeds digest
 does not match

---
 src/keri/app/grouping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/app/grouping.py b/src/keri/app/grouping.py
index 4345a4d..786f3a2 100644
--- a/src/keri/app/grouping.py
+++ b/src/keri/app/grouping.py
@@ -913,6 +913,8 @@ class Multiplexor:
 
             # Preserve the legacy V1 aggregation key for both single- and multi-child wrappers
             esaid = embed["d"]
+            if not Saider(qb64=esaid).verify(embed, prefixed=True):
+                raise ValidationError(f"invalid multisig embeds digest {esaid} for route {route}")
         else:
             if len(nests) != 1:
                 raise ValidationError(f"invalid multisig nested substreams count={len(nests)}, expected 1")
-- 
2.43.0


From 39bcf3226d9d14640ba6dcebf0f5f9948718f473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 082/152] fix: mailbox stream repeats messages after one was
 removed

---
 src/keri/app/indirecting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index fe4a3ef..da81e0a 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -1025,7 +1025,7 @@ class MailboxIterable:
                                           .encode("utf-8")))
                     data.extend(msg)
                     data.extend(b'\n\n')
-                    idx = idx + 1
+                    idx = fn + 1
                     self.start = time.perf_counter()
 
                 self.topics[topic] = idx
-- 
2.43.0


From 5080aca1b0cb8a5313cc2261a459d72d86727459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 083/152] fix: contact searches fail on field names with
 separator

---
 src/keri/app/organizing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/organizing.py b/src/keri/app/organizing.py
index 460cf50..164a09f 100644
--- a/src/keri/app/organizing.py
+++ b/src/keri/app/organizing.py
@@ -143,7 +143,8 @@ class BaseOrganizer:
         key = ""
         data = None
         contacts = []
-        for (pre, field), val in self.fielddb.getTopItemIter():
+        for (pre, *parts), val in self.fielddb.getTopItemIter():
+            field = self.fielddb.sep.join(parts)  # field may contain sep
             if pre != key:
                 if data is not None:
                     contacts.append(data)
@@ -170,7 +171,8 @@ class BaseOrganizer:
         """
         pres = []
         prog = re.compile(f".*{val}.*", re.I)
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for (pre, *parts), v in self.fielddb.getTopItemIter():
+            f = self.fielddb.sep.join(parts)  # field may contain sep
             if f == field and prog.match(v):
                 pres.append(pre)
 
@@ -192,7 +194,8 @@ class BaseOrganizer:
 
         """
         pres = []
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for (pre, *parts), v in self.fielddb.getTopItemIter():
+            f = self.fielddb.sep.join(parts)  # field may contain sep
             if f == field and v == val:
                 pres.append(pre)
 
@@ -212,7 +215,8 @@ class BaseOrganizer:
         prog = re.compile(f".*{val}.*", re.I) if val is not None else None
 
         vals = oset()
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for (pre, *parts), v in self.fielddb.getTopItemIter():
+            f = self.fielddb.sep.join(parts)  # field may contain sep
             if f == field and (prog is None or prog.match(v)):
                 vals.add(v)
 
-- 
2.43.0


From 4128b6aab288877a419c54daca83fa38532cfa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 084/152] fix: expiry of signals fails when signals change
 meanwhile

---
 src/keri/app/signaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/signaling.py b/src/keri/app/signaling.py
index 9a2d088..aaa05af 100644
--- a/src/keri/app/signaling.py
+++ b/src/keri/app/signaling.py
@@ -146,13 +146,14 @@ class Signaler(doing.DoDoer):
         while True:  # loop checking for expired messages
             now = nowUTC()
             toRemove = []
-            for sig in self.signals:
+            for sig in list(self.signals):  # copy since may change while yielded
                 if now - fromIso8601(sig.dt) > self.SignalTimeout:  # Expire messages that are too old
                     toRemove.append(sig)
                 yield self.tock
 
             for sig in toRemove:
-                self.signals.remove(sig)
+                if sig in self.signals:  # not yet taken or replaced
+                    self.signals.remove(sig)
 
             yield self.tock
 
-- 
2.43.0


From c55809e5ffb610915cdcc74a84db3f2d6961a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 085/152] fix: appending to a mailbox topic always fails

---
 src/keri/app/storing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 718fa6b..74e2604 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -75,7 +75,7 @@ class Mailboxer(LMDBer):
         Parameters:
             topic (bytes):  topic identifier for message
             val (bytes): msg digest"""
-        return self.tpcs.append(key=topic, val=val)
+        return self.tpcs.append(keys=topic, val=val)
 
 
     def getTopicMsgs(self, topic, fn=0):
-- 
2.43.0


From 29a39bc42144992035666d73c92689f7f2dec9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 086/152] fix: mailbox messages that are not text make their
 topic unreadable

---
 src/keri/app/storing.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 74e2604..0147477 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -92,11 +92,24 @@ class Mailboxer(LMDBer):
                 to form key at at which to initiate retrieval"""
         msgs = []
         for keys, on, dig in self.tpcs.getAllItemIter(keys=topic, on=fn):
-            if msg := self.msgs.get(keys=dig):
-                msgs.append(msg.encode())  # want bytes not str
+            if msg := self.getMsg(dig):
+                msgs.append(msg)
         return msgs
 
 
+    def getMsg(self, dig):
+        """
+        Returns:
+            msg (bytes | None): stored message with digest dig as is, since not
+                every serialized message is text. None when not found.
+
+        Parameters:
+            dig (str | bytes): qb64 digest of message"""
+        dig = dig.encode("utf-8") if hasattr(dig, "encode") else bytes(dig)
+        msg = self.getVal(db=self.msgs.sdb, key=dig)
+        return bytes(msg) if msg is not None else None
+
+
     def storeMsg(self, topic, msg):
         """
         Add exn event to mailbox topic and on that is 1 greater than last msg
@@ -136,8 +149,8 @@ class Mailboxer(LMDBer):
         Ordinal Numbered db.  since should not be using hidden ion has not
         hidden."""
         for keys, on, dig in self.tpcs.getAllItemIter(keys=topic, on=fn):
-            if msg := self.msgs.get(keys=dig):
-                yield (on, topic, msg.encode("utf-8"))
+            if msg := self.getMsg(dig):
+                yield (on, topic, msg)
 
 
 
-- 
2.43.0


From be23dfa055b06d2ae6665706f876d57de60c6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 087/152] fix: registry identifiers that are not digests are
 accepted

---
 src/keri/vdr/eventing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 05bcea5..681773a 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -23,7 +23,7 @@ from ..kering import (Kinds, Ilks, versify,
                     OutOfOrderTxnStateError, MissingRegistryError, smell)
 
 from ..core import (Salter, SealEvent, SealSource,
-                    TraitDex, MtrDex, ample, verifySigs,
+                    TraitDex, MtrDex, DigDex, ample, verifySigs,
                     query as queryCore, messagize as coreMessagize)
 
 from ..db import (Baser, Broker, Komer, LMDBer,
@@ -802,6 +802,9 @@ class Tever:
         ked = serder.ked
         self.pre = ked["ii"]  # which is not the AID of the serder in ked["i"]
         self.prefixer = Prefixer(qb64=serder.pre)  # this not related to self.pre
+        if self.prefixer.code not in DigDex:  # bound to contents only when digest
+            raise ValidationError("Invalid registry identifier = {}, not a digest"
+                                  " for evt = {}.".format(serder.pre, ked))
         #if not self.prefixer.verify(ked=ked, prefixed=True):  # invalid prefix
             #raise ValidationError("Invalid prefix = {} for registry inception evt = {}."
                                   #.format(self.prefixer.qb64, ked))
-- 
2.43.0


From 5ce3a1d8d419529e8536232c44a48922f8b6fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 088/152] fix: revocations by another registry and second
 revocations are accepted

---
 src/keri/vdr/eventing.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 681773a..2fb9aa2 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1111,6 +1111,17 @@ class Tever:
                                                                self.serder.said,
                                                                ked))
 
+        # prior event must be issuance from this registry so that neither another
+        # registry nor a second revocation may follow it
+        iked = iserder.ked
+        if iserder.ilk not in (Ilks.iss, Ilks.bis):
+            raise ValidationError(f"Prior event of type={iserder.ilk} is not "
+                                  f"issuance for evt={ked}.")
+        iregk = iked["ri"] if iserder.ilk == Ilks.iss else iked["ra"]["i"]
+        if iregk != self.prefixer.qb64:
+            raise ValidationError(f"Mismatch registry={self.prefixer.qb64} and "
+                                  f"issuance registry={iregk} for evt={ked}.")
+
         if ilk in (Ilks.rev,):  # simple revoke
             if self.noBackers is False:
                 raise ValidationError("invalid simple issue evt {} against backer based registry {}".
-- 
2.43.0


From ed5df434a8ffe75fdd754c25de4d7ccf22c76501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 089/152] fix: accepted registry event keeps a wrong anchor
 from escrow

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 2fb9aa2..48f02f9 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1239,7 +1239,7 @@ class Tever:
         key = dgKey(pre, dig)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))  # may differ from escrowed
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
-- 
2.43.0


From 8539c7c727a61a3c734c8f1830357f91f3b2c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 090/152] fix: one backer's endorsement counts twice

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 48f02f9..65e2374 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1301,7 +1301,7 @@ class Tever:
                 raise ValidationError("Invalid toad = {} for wits = {} for evt"
                                       " = {}.".format(toad, baks, serder.ked))
 
-            if len(bindices) < toad:  # not fully witnessed yet
+            if len(set(bindices)) < toad:  # not fully witnessed yet
                 self.escrowPWEvent(serder=serder, seqner=seqner, saider=saider, bigers=bigers)
                 msg = (f"Failure satisfying toad = {toad} on witness sigs "
                        f"for {[siger.qb64 for siger in bigers]} for evt = {serder.said}")
-- 
2.43.0


From 55b70096a11ad6b84f14b90b4357ff91c09f277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 091/152] fix: backers of registry events not accepted are used

---
 src/keri/vdr/eventing.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 65e2374..3dca885 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1403,6 +1403,18 @@ class Tever:
                      "event = %s", serder.ked)
         return self.reger.taes.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
 
+    def accepted(self, said):
+        """ Determine if registry event with said is in log of this registry
+
+        Parameters:
+            said (str): qb64 SAID of registry event
+
+        Returns:
+            bool: True means accepted. False otherwise"""
+        return any(dig == said for _, _, dig in
+                   self.reger.tels.getAllItemIter(keys=self.prefixer.qb64))
+
+
     def getBackerState(self, ked):
         """ Calculate and return the current list of backers for event dict
 
@@ -1421,6 +1433,11 @@ class Tever:
                                                                self.prefixer.qb64,
                                                                ked))
 
+        # only accepted event of registry determines backers
+        if not self.accepted(regd):
+            raise ValidationError(f"Registry event with SAID={regd} not accepted"
+                                  f" for evt={ked}.")
+
         # load backer list and toad (via event) for specific event in registry from seal in event
         dgkey = dgKey(regi, regd)
         revt = self.reger.tvts.get(keys=dgkey)
-- 
2.43.0


From 3cde2cd60330cc797d859fb80af1710e6c92689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 092/152] fix: registry events out of order lose their
 endorsements

---
 src/keri/vdr/eventing.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 3dca885..887f58f 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1561,7 +1561,7 @@ class Tevery:
                     pass
             else:
                 # out of order, need to escrow
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 msg = f"Escrowed out of order event of type = {ilk} pre = {pre} SAID = {serder.said}"
                 logger.debug(msg)
                 logger.debug("TEL Event Body=\n%s\n", serder.pretty())
@@ -1589,7 +1589,12 @@ class Tevery:
 
             if sn > sno:  # sn later than sno so out of order escrow
                 # escrow out-of-order event
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                raise OutOfOrderError("Out-of-order event={}.".format(ked))
+            elif (ilk in (Ilks.bis, Ilks.brv) and int(ked["ra"]["s"], 16) > tever.sn
+                    and not tever.accepted(ked["ra"]["d"])):
+                # backers given by registry event not yet accepted
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
@@ -1973,7 +1978,7 @@ class Tevery:
         else:
             raise ValidationError("invalid ilk {} for tevery event = {}".format(ilk, serder.ked))
 
-    def escrowOOEvent(self, serder, seqner, saider):
+    def escrowOOEvent(self, serder, seqner, saider, bigers=None):
         """ Escrow out-of-order TEL events.
 
         Saves the serialized event, anchor and event digest in escrow for any
@@ -1986,12 +1991,15 @@ class Tevery:
         Parameters:
             serder (Serder): serder of event message
             seqner (Seqner): sequence number of anchoring TEL event
-                saider (Diger) digest of anchoring TEL event"""
+                saider (Diger) digest of anchoring TEL event
+            bigers (list): of Siger instances of indexed backer signatures"""
         key = dgKey(serder.preb, serder.saidb)
         self.reger.tvts.put(keys=key, val=serder.raw)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
         self.reger.ancs.put(keys=key, val=(number, diger))
+        if bigers:  # needed when processed later, unverified so far
+            self.reger.tibs.put(keys=key, vals=bigers)
         self.reger.oots.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
         logger.debug("Tever state: Escrowed our of order TEL event "
                      "event = %s", serder.ked)
-- 
2.43.0


From c68e2116fd99bbccb2635610682860eba01733d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 093/152] fix: registry rotations are forgotten on restart

---
 src/keri/vdr/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 887f58f..95c9fba 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1598,6 +1598,8 @@ class Tevery:
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                if ilk in (Ilks.vrt,):
+                    self.tevers[regk] = tever  # persists changed registry state
 
                 if regk not in self.registries:
                     # witness style backers will need to send receipts so lets queue them up for now
-- 
2.43.0


From 4fd9047a89aa604982a5e791eb57f88708e02132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 094/152] fix: query for credential state always fails

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 95c9fba..696fa15 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1662,7 +1662,7 @@ class Tevery:
                 self.cues.push(dict(kin="reply", route="/tsn/registry", data=asdict(tsn), dest=source))
 
                 if vcpre := qry["i"]:
-                    tsn = tever.vcState(vcpre=vcpre)
+                    tsn = tever.vcState(vci=vcpre)
                     self.cues.push(dict(kin="reply", route="/tsn/credential", data=asdict(tsn), dest=source))
 
         else:
-- 
2.43.0


From 9a20615928dcf85eefc29dee09f190103fc9ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 095/152] fix: escrowed registry events drop others at the same
 position

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 696fa15..6acd670 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2072,7 +2072,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.oots.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery OOO unescrowed: %s", ex.args[0])
                 else:
@@ -2082,7 +2082,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.oots.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery OOO unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("Event=\n%s\n", tserder.pretty())
 
@@ -2130,7 +2130,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.taes.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery ANC unescrowed: %s", ex.args[0])
                 else:
@@ -2140,7 +2140,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.taes.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery ANC unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("event=\n%s\n", tserder.pretty())
 
-- 
2.43.0


From dbc522ab42893d91d418a54d721a1a7d7a779b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 096/152] fix: registry names holding a separator break loading
 of all registries

---
 src/keri/acdc/registraring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/acdc/registraring.py b/src/keri/acdc/registraring.py
index a4d6408..f95ecbf 100644
--- a/src/keri/acdc/registraring.py
+++ b/src/keri/acdc/registraring.py
@@ -89,7 +89,8 @@ class Regery:
                 controlling habitat named by the stored inception issuer is not
                 loaded in this Habery.
         """
-        for (name,), record in self.store.records.getTopItemIter():
+        for keys, record in self.store.records.getTopItemIter():
+            name = self.store.records.sep.join(keys)  # name may hold separator
             rip = self.store.event(record.registryKey)
             if rip is None:
                 raise ConfigurationError(f"missing registry inception event {record.registryKey} for registry {name}")
-- 
2.43.0


From 4b9bbf284d9944ca4435cfb19211a94e9269dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 097/152] fix: registry head lags its log after an interrupted
 acceptance

---
 src/keri/acdc/registering.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/keri/acdc/registering.py b/src/keri/acdc/registering.py
index bfd0951..eb62f6f 100644
--- a/src/keri/acdc/registering.py
+++ b/src/keri/acdc/registering.py
@@ -59,7 +59,14 @@ class RegistryStore:
         return self.baser.ancs.pin(keys=said, val=(number, diger))
 
     def head(self, regk):
-        return self.baser.heads.get(keys=regk)
+        saider = self.baser.heads.get(keys=regk)
+        event = self.event(saider.qb64) if saider is not None else None
+        sn = int(event.sad["n"], 16) + 1 if event is not None else 0
+        # .tels decides what is accepted, cached head may lag it
+        while (later := self.seqSaider(regk, sn)) is not None:
+            saider = later
+            sn += 1
+        return saider
 
     def headEvent(self, regk):
         saider = self.head(regk)
-- 
2.43.0


From c157378d290eaa7ee8324aff58c506f3e297b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 098/152] fix: interrupted acceptance loses a waiting registry
 update

---
 src/keri/acdc/registraring.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/acdc/registraring.py b/src/keri/acdc/registraring.py
index f95ecbf..670293d 100644
--- a/src/keri/acdc/registraring.py
+++ b/src/keri/acdc/registraring.py
@@ -447,6 +447,7 @@ class Registry:
         if existing is not None:
             self.regk = regk
             self.regd = existing.said
+            self.store.clearEscrows(regk, sn, existing.said)  # when interrupted
             return True
 
         # Store new events before escrowing so they can be replayed later once
@@ -474,10 +475,8 @@ class Registry:
                 self.store.escrowMissingAnchor(regk, sn, serder.said)
                 return False
 
-        # If the event had previously been staged as missing-anchor, clear that
-        # escrow entry now that a verified anchor exists.
-        self.store.baser.maes.rem(keys=regk, on=sn, val=serder.said)
-
+        # A verified anchor exists. Commit clears missing-anchor escrow entry only
+        # afterwards so that an interruption does not lose the event.
         if serder.ilk == "rip":
             self._commit(serder)
             self._processQueued()
@@ -485,6 +484,7 @@ class Registry:
 
         if prior is None:
             self.store.escrowOutOfOrder(regk, sn, serder.said)
+            self.store.baser.maes.rem(keys=regk, on=sn, val=serder.said)
             return False
 
         self._commit(serder)
-- 
2.43.0


From c14c46be769356cea8a2267b6bfaf25d29df354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:07 +0000
Subject: [PATCH 099/152] fix: state of a credential issued by another registry
 is taken for its own

---
 src/keri/vdr/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 6acd670..f1dffeb 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1179,6 +1179,11 @@ class Tever:
         raw = self.reger.tvts.get(keys=dgkey)
         serder = SerderKERI(raw=raw.encode("utf-8"))
 
+        # registry given by either simple or backed event
+        regk = serder.ked["ri"] if "ri" in serder.ked else serder.ked.get("ra", {}).get("i")
+        if regk != self.prefixer.qb64:  # issued from other registry
+            return None
+
         if self.noBackers:
             vcilk = Ilks.iss if len(digs) == 1 else Ilks.rev
             ra = dict()
-- 
2.43.0


From fb6da63d99877c08995a995d602241f474526820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:07 +0000
Subject: [PATCH 100/152] fix: credential naming another issuer's registry is
 verified

---
 src/keri/vdr/verifying.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index 7d1c7be..f8dbf9e 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -127,6 +127,10 @@ class Verifier:
                 self.cues.append(dict(kin="telquery", q=dict(ri=regk, i=vcid, issr=creder.israid)))
             raise MissingRegistryError("registry identifier {} not in Tevers".format(regk))
 
+        if self.tevers[regk].pre != creder.israid:  # registry of someone else
+            raise ValidationError(f"Issuer {creder.israid} of credential {vcid} does"
+                                  f" not control registry {regk}.")
+
         state = self.tevers[regk].vcState(vcid)
         if state is None:  # credential issuance event not found yet
             if self.escrowMRE(creder, prefixer, seqner, saider):
-- 
2.43.0


From 411da1d3bbcd71705c151bdd4c5193fdb9f4e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:11 +0000
Subject: [PATCH 101/152] fix: stored false signatures or plain signatures make
 an accepted exchange message unreadable

---
 src/keri/peer/exchanging.py | 64 +++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 86c7ae8..9b84142 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -257,6 +257,8 @@ class Exchanger:
                 pathed = [bytearray(p.encode("utf-8")) for p in self.hby.db.epath.get(keys=(dig,))]
                 essrs = [texter for texter in self.hby.db.essrs.get(keys=(dig,))]
                 nests = loadParsedNestedSubstreams(self.hby, dig)
+                # those not satisfied may never be so must not hold up any that are
+                tsgs = validTsgs(self.hby, serder, tsgs) or tsgs
 
                 self.processEvent(serder=serder, tsgs=tsgs, ptds=pathed,
                                   essrs=essrs, nests=nests)
@@ -737,35 +739,15 @@ def verify(hby, serder):
         prefixer, seqner, saider = helping.klasify(sers=old, klases=klases, args=args)
         tsgs.append((prefixer, seqner, saider, sigers))
 
-    accepted = False
-    for prefixer, seqner, ssaider, sigers in tsgs:
-        if prefixer.qb64 not in hby.kevers or hby.kevers[prefixer.qb64].sn < seqner.sn:
-            msg = f"Unable to find sender {prefixer.qb64} in kevers for evt = {serder.said}"
-            logger.info(msg)
-            logger.debug("Exn Body=\n%s\n", serder.pretty())
-            raise MissingSignatureError(msg)
-
-        # Verify the signatures are valid and that the signature threshold as of the signing event is met
-        tholder, verfers = hby.db.resolveVerifiers(pre=prefixer.qb64, sn=seqner.sn, dig=ssaider.qb64)
-        _, indices = verifySigs(serder.raw, sigers, verfers)
-
-        if not tholder.satisfy(indices):  # We still don't have all the sigers, need to escrow
-            msg = f"Not enough signatures in idx={indices} for evt = {serder.said}"
-            logger.info(msg)
-            logger.debug("Exn Body=\n%s\n", serder.pretty())
-            raise MissingSignatureError(msg)
-        accepted = True
-
-    cigars = hby.db.ecigs.get(keys=(serder.said,))
-    for cigar in cigars:
-        if not cigar.verfer.verify(cigar.raw, serder.raw):  # cig not verify
-            msg = f"Failure satisfying exn on cigs for {cigar} for evt = {serder.said}"
-            logger.info(msg)
-            logger.debug("Exn Body=\n%s\n", serder.pretty())
-            raise MissingSignatureError(msg)
-        accepted = True
+    # stored signatures may include ones never verified that arrived separately
+    tsgs = validTsgs(hby, serder, tsgs)
+    cigars = []
+    for verfer, cigar in hby.db.ecigs.get(keys=(serder.said,)):
+        if verfer.qb64 == serder.ked["i"] and verfer.verify(cigar.raw, serder.raw):
+            cigar.verfer = verfer
+            cigars.append(cigar)
 
-    if not accepted:
+    if not (tsgs or cigars):
         msg = f"No valid signatures stored for evt = {serder.said}"
         logger.info(msg)
         logger.debug("Exn Body=\n%s\n", serder.pretty())
@@ -774,6 +756,32 @@ def verify(hby, serder):
     return tsgs, cigars
 
 
+def validTsgs(hby, serder, tsgs):
+    """ Returns those of tsgs that satisfy signing threshold of sender of serder
+
+    Parameters:
+        hby (Habery): database environment
+        serder (Serder): exn message signed
+        tsgs (list): of (prefixer, seqner, saider, sigers) quadruples
+
+    Returns:
+        list: quadruples that satisfy, each with its verified sigers only
+    """
+    valid = []
+    for prefixer, seqner, saider, sigers in tsgs:
+        if (prefixer.qb64 != serder.ked["i"] or prefixer.qb64 not in hby.kevers
+                or hby.kevers[prefixer.qb64].sn < seqner.sn):
+            continue
+        try:
+            tholder, verfers = hby.db.resolveVerifiers(pre=prefixer.qb64, sn=seqner.sn, dig=saider.qb64)
+        except ValidationError:  # no such event
+            continue
+        sigers, indices = verifySigs(serder.raw, sigers, verfers)
+        if tholder.satisfy(indices):
+            valid.append((prefixer, seqner, saider, sigers))
+    return valid
+
+
 def serializeParsedSubstream(parsed, gvrsn=Vrsn_2_0):
     """Serialize a parsed message subtree as a nested CESR substream."""
     parsed = parsed if isinstance(parsed, dict) else parsed.__dict__
-- 
2.43.0


From 9f02d8c61ff14b4617d6a6a4e2dd0699b7bb78d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:11 +0000
Subject: [PATCH 102/152] fix: repeated exchange message is handled again

---
 src/keri/peer/exchanging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 9b84142..2b12882 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -83,6 +83,9 @@ class Exchanger:
         sender = serder.ked["i"]
         nests = kwa.get("nests")
 
+        if self.hby.db.exns.get(keys=(serder.said,)) is not None:  # accepted before
+            logger.info("Exchange message said=%s repeated", serder.said)
+            return
 
         behavior = self.routes[route] if route in self.routes else None
         if tsgs:
-- 
2.43.0


From 0c8a25029ac0ed7503f116e7a452671e527b609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:11 +0000
Subject: [PATCH 103/152] fix: embedded messages left over from escrow are kept
 with an exchange message

---
 src/keri/peer/exchanging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 2b12882..dd1723a 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -315,6 +315,8 @@ class Exchanger:
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
+        else:  # none left over from escrow
+            self.hby.db.enst.rem(keys=(dig,))
         for texter in essrs:
             self.hby.db.essrs.add(keys=(dig,), val=texter)
         if pdig:
-- 
2.43.0


From c721ea712097b7bf1295eb36e68c141726cc25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 104/152] fix: unrelated message naming an exchange message as
 prior is taken for its response

---
 src/keri/acdc/ipexing.py    | 4 +++-
 src/keri/peer/exchanging.py | 5 ++++-
 src/keri/vc/protocoling.py  | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/keri/acdc/ipexing.py b/src/keri/acdc/ipexing.py
index ec0a5e9..f013cb6 100644
--- a/src/keri/acdc/ipexing.py
+++ b/src/keri/acdc/ipexing.py
@@ -317,7 +317,9 @@ class IpexHandler:
         saider = self.hby.db.erpy.get(keys=(serder.said,))
         if saider:
             rserder, _ = cloneMessage(self.hby, saider.qb64)
-            return rserder
+            # message of other kind naming it as prior is not response
+            if rserder is not None and rserder.ked["r"] in [f"/ipex/{verb}" for verb in PreviousRoutes]:
+                return rserder
 
         return None
 
diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index dd1723a..9ffbfba 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -320,7 +320,10 @@ class Exchanger:
         for texter in essrs:
             self.hby.db.essrs.add(keys=(dig,), val=texter)
         if pdig:
-            self.hby.db.erpy.pin(keys=(pdig,), val=diger)
+            # only handled ipex message replaces or keeps off another as response
+            if ((serder.ked["r"] in self.routes and serder.ked["r"].startswith("/ipex/"))
+                    or self.hby.db.erpy.get(keys=(pdig,)) is None):
+                self.hby.db.erpy.pin(keys=(pdig,), val=diger)
 
         self.hby.db.exns.put(keys=(dig,), val=serder)
 
diff --git a/src/keri/vc/protocoling.py b/src/keri/vc/protocoling.py
index c26c657..0b062bb 100644
--- a/src/keri/vc/protocoling.py
+++ b/src/keri/vc/protocoling.py
@@ -116,7 +116,9 @@ class IpexHandler:
         saider = self.hby.db.erpy.get(keys=(serder.said,))
         if saider:
             rserder, _ = cloneMessage(self.hby, saider.qb64)  # Clone previous so we reverify the sigs
-            return rserder
+            # message of other kind naming it as prior is not response
+            if rserder is not None and rserder.ked["r"] in [f"/ipex/{verb}" for verb in PreviousRoutes]:
+                return rserder
 
         return None
 
-- 
2.43.0


From e8a0382e6e5020e9279aedcb1a6de13df70462c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 105/152] fix: message of an unrelated route is accepted as
 prior of an exchange message

---
 src/keri/vc/protocoling.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/keri/vc/protocoling.py b/src/keri/vc/protocoling.py
index 0b062bb..0c2b47d 100644
--- a/src/keri/vc/protocoling.py
+++ b/src/keri/vc/protocoling.py
@@ -2,7 +2,6 @@
 """
 keri.vc.handling module
 """
-import os
 from collections import namedtuple
 from hio.help import ogler
 
@@ -78,10 +77,9 @@ class IpexHandler:
                     return False
 
                 proute = pserder.ked['r']
-                pverb = os.path.basename(os.path.normpath(proute))
 
                 # Use established PreviousRoutes to determine if this response is valid
-                if pverb not in PreviousRoutes[verb]:
+                if proute not in [f"/ipex/{pverb}" for pverb in PreviousRoutes[verb]]:
                     return False
 
                 return self.response(pserder) is None  # Make sure we don't have a response already
@@ -95,10 +93,9 @@ class IpexHandler:
                     return False
 
                 proute = pserder.ked['r']
-                pverb = os.path.basename(os.path.normpath(proute))
 
                 # Use established PreviousRoutes to determine if this response is valid
-                if pverb not in PreviousRoutes[verb]:
+                if proute not in [f"/ipex/{pverb}" for pverb in PreviousRoutes[verb]]:
                     return False
 
                 return self.response(pserder) is None  # Make sure we don't have a response already
-- 
2.43.0


From 7dfeefe3d113ebf72a7e92fe84bbfb1acd02058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 106/152] fix: exchange message may be answered by a third
 party

---
 src/keri/acdc/ipexing.py    |  4 ++++
 src/keri/peer/exchanging.py | 20 ++++++++++++++++++++
 src/keri/vc/protocoling.py  |  6 ++++++
 3 files changed, 30 insertions(+)

diff --git a/src/keri/acdc/ipexing.py b/src/keri/acdc/ipexing.py
index f013cb6..8c3171e 100644
--- a/src/keri/acdc/ipexing.py
+++ b/src/keri/acdc/ipexing.py
@@ -15,6 +15,7 @@ from ..kering import Colds, Vrsn_2_0, sniff
 from ..core import (Counter, Codens, Diger, GenDex, Number, Serdery, Texter,
                     exchange, messagize)
 from ..peer import cloneMessage
+from ..peer.exchanging import addressee
 
 logger = ogler.getLogger()
 
@@ -302,6 +303,9 @@ class IpexHandler:
         if pverb not in PreviousRoutes[verb]:
             return False
 
+        if addressee(self.hby, pserder) not in (None, serder.ked["i"]):
+            return False  # only party addressed may respond
+
         return self.response(pserder) is None
 
     def response(self, serder):
diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 9ffbfba..15e3188 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -643,6 +643,26 @@ def cloneMessage(hby, said):
     return exn, pathed
 
 
+def addressee(hby, serder):
+    """ Returns identifier of party that may respond to exn message or None when open
+
+    Parameters:
+        hby (Habery): database environment
+        serder (Serder): exn message to respond to
+
+    Returns:
+        str | None: qb64 identifier of receiver when given by message, otherwise
+            of sender of its prior message. None when given by neither
+    """
+    attrs = serder.ked.get("a")
+    pre = (serder.ked.get("rp") or serder.ked.get("ri")
+           or (attrs.get("i") if hasattr(attrs, "get") else None))
+    if not pre and serder.ked.get("p"):
+        prior = hby.db.exns.get(keys=(serder.ked["p"],))
+        pre = prior.ked["i"] if prior is not None else None
+    return pre or None
+
+
 def serializeMessage(hby, said, framed=False):
     """Fetch message and attachments from hby.db by said and then serialize them
 
diff --git a/src/keri/vc/protocoling.py b/src/keri/vc/protocoling.py
index 0c2b47d..52fc3b7 100644
--- a/src/keri/vc/protocoling.py
+++ b/src/keri/vc/protocoling.py
@@ -82,6 +82,9 @@ class IpexHandler:
                 if proute not in [f"/ipex/{pverb}" for pverb in PreviousRoutes[verb]]:
                     return False
 
+                if addressee(self.hby, pserder) not in (None, serder.ked["i"]):
+                    return False  # only party addressed may respond
+
                 return self.response(pserder) is None  # Make sure we don't have a response already
 
             case["", "ipex", verb] if verb in (Ipex.admit, Ipex.agree, Ipex.spurn):
@@ -98,6 +101,9 @@ class IpexHandler:
                 if proute not in [f"/ipex/{pverb}" for pverb in PreviousRoutes[verb]]:
                     return False
 
+                if addressee(self.hby, pserder) not in (None, serder.ked["i"]):
+                    return False  # only party addressed may respond
+
                 return self.response(pserder) is None  # Make sure we don't have a response already
 
         return False
-- 
2.43.0


From c4497782a58bcb7e816a60c89cb8b6b75e881c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 107/152] fix: attachments of embedded messages are outside the
 attachment group when not framed

---
 src/keri/vc/protocoling.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/keri/vc/protocoling.py b/src/keri/vc/protocoling.py
index 52fc3b7..0c0a5ef 100644
--- a/src/keri/vc/protocoling.py
+++ b/src/keri/vc/protocoling.py
@@ -6,7 +6,8 @@ from collections import namedtuple
 from hio.help import ogler
 
 from ..peer import cloneMessage, specialExchange
-from ..core import exchange
+from ..peer.exchanging import addressee
+from ..core import Codens, Counter, exchange
 
 logger = ogler.getLogger()
 
@@ -245,10 +246,14 @@ def ipexOfferExn(hab, message, acdc, apply=None,  version=None, pvrsn=None,
                                attributes=data,
                                embeds=embeds,
                                **kwa)
-    ims = hab.endorse(serder=exn, last=False, gvrsn=kwa["gvrsn"], framed=framed,
-                      nested=nested, genusify=genusify)
+    ims = hab.endorse(serder=exn, last=False, gvrsn=kwa["gvrsn"],
+                      framed=framed or bool(end), nested=nested,
+                      genusify=genusify)
     del ims[:exn.size]
     ims.extend(end)
+    if end and not framed:  # group includes pathed attachments
+        ims = bytearray(Counter.enclose(qb64=ims, code=Codens.AttachmentGroup,
+                                        version=kwa["gvrsn"]))
 
     return exn, ims
 
@@ -365,10 +370,14 @@ def ipexGrantExn(hab, recp, message, acdc, iss=None, anc=None, agree=None,
                                attributes=data,
                                embeds=embeds,
                                **kwa)
-    ims = hab.endorse(serder=exn, last=False, gvrsn=kwa["gvrsn"], framed=framed,
-                      nested=nested, genusify=genusify)
+    ims = hab.endorse(serder=exn, last=False, gvrsn=kwa["gvrsn"],
+                      framed=framed or bool(end), nested=nested,
+                      genusify=genusify)
     del ims[:exn.size]
     ims.extend(end)
+    if end and not framed:  # group includes pathed attachments
+        ims = bytearray(Counter.enclose(qb64=ims, code=Codens.AttachmentGroup,
+                                        version=kwa["gvrsn"]))
 
     return exn, ims
 
-- 
2.43.0


From 816c0ebe55817e67ffd592fcc716f52a96e7d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 108/152] fix: native exchange message with empty fields can
 not be read

---
 src/keri/core/serdering.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index e12548b..5124e20 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -28,7 +28,8 @@ from ..kering import (ValidationError,  MissingFieldError, ExtraFieldError,
 from ..help import isNonStringIterable, NonStringIterable
 from .coring import (DigDex, PreDex, NonTransDex, PreNonDigDex, Saids,
                      Matter, Verfer, Prefixer, Diger, Number, Tholder,
-                     Ilker, Traitor, Verser, Dater, Pather, Noncer, Labeler)
+                     Ilker, Traitor, Verser, Dater, Pather, Noncer, NonceDex,
+                     Labeler)
 from .mapping import Mapper, Compactor, Aggor
 from .counting import GenDex, ProGen, Counter, Codens, SealDex_2_0, MUDex_2_0
 from .structing import Sealer, SClanDom
@@ -1372,6 +1373,9 @@ class Serder:
                     case "t":  # message type (ilk), already got ilk
                         sad[l] = ilk
 
+                    case "p" | "x" | "i" | "ri" if raw[:4] == NonceDex.Empty.encode():
+                        sad[l] = Noncer(qb64b=raw, strip=True).nonce  # empty
+
                     case "d" | "p" | "x":  # SAID
                         sad[l] = Diger(qb64b=raw, strip=True).qb64
 
@@ -1720,6 +1724,9 @@ class Serder:
                     case "t":  # message type (ilk), already got ilk
                         val = Ilker(ilk=v).qb64b  # assumes same
 
+                    case "i" | "p" | "ri" | "x" if not v:  # empty said or aid
+                        val = Noncer(nonce=v).qb64b
+
                     case "d" | "i" | "p" | "u" | "di" | "ri" | "x":  # said or aid
                         val = v.encode("utf-8")  # already primitive qb64 make qb6b
 
-- 
2.43.0


From f5317fd6bf0ddd5ce0e73f5a3b9c9aa7c64ff90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:15 +0000
Subject: [PATCH 109/152] fix: OOBI answer without a content type fails that
 OOBI instead of stopping the resolver

---
 src/keri/app/oobiing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index a93578a..bec8a1c 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -498,6 +498,7 @@ class Oobiery:
             if client.responses:
                 response = client.responses.popleft()
                 self.clienter.remove(client)
+                ctype = response["headers"].get("Content-Type") or ""
 
                 if response["status"] == 404:
                     print(f"{url} not found")
@@ -511,7 +512,7 @@ class Oobiery:
                     obr.state = Result.failed
                     self.hby.db.roobi.put(keys=(url,), val=obr)
 
-                elif response["headers"]["Content-Type"] in (
+                elif ctype in (
                     CESR_CONTENT_TYPE,
                     "application/json+cesr",
                     "application/cesr+json",
@@ -527,7 +528,7 @@ class Oobiery:
                     obr.state = Result.resolved
                     self.hby.db.roobi.put(keys=(url,), val=obr)
 
-                elif response["headers"]["Content-Type"] == "application/schema+json":  # Schema response to data OOBI
+                elif ctype == "application/schema+json":  # Schema response to data OOBI
                     try:
                         schemer = Schemer(raw=bytearray(response["body"]))
                         if schemer.said == obr.said:
@@ -543,7 +544,7 @@ class Oobiery:
                     self.hby.db.coobi.rem(keys=(url,))
                     self.hby.db.roobi.put(keys=(url,), val=obr)
 
-                elif response["headers"]["Content-Type"].startswith("application/json"):  # Unsigned rpy OOBI or Schema
+                elif ctype.startswith("application/json"):  # Unsigned rpy OOBI or Schema
 
                     try:
                         schemer = Schemer(raw=bytearray(response["body"]))
@@ -586,7 +587,7 @@ class Oobiery:
                     obr.state = Result.failed
                     self.hby.db.roobi.put(keys=(url,), val=obr)
                     logger.error("invalid content type for oobi response: {}"
-                                 .format(response["headers"]["Content-Type"]))
+                                 .format(ctype))
 
                 self.cues.append(dict(kin=obr.state, oobi=url))
 
-- 
2.43.0


From a74f4ae99dc5831310f3633607f5b51aa72d5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:15 +0000
Subject: [PATCH 110/152] fix: malformed OOBI answer fails that OOBI instead of
 stopping the resolver

---
 src/keri/app/oobiing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index bec8a1c..254fe79 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -537,7 +537,7 @@ class Oobiery:
                         else:
                             result = Result.failed
 
-                    except (ValidationError, ValueError):
+                    except Exception:  # whatever the endpoint answered
                         result = Result.failed
 
                     obr.state = result
@@ -559,12 +559,12 @@ class Oobiery:
                         self.hby.db.roobi.put(keys=(url,), val=obr)
                         continue
 
-                    except (ValidationError, ValueError):
+                    except Exception:  # whatever the endpoint answered
                         pass
 
                     try:
                         serder = SerderKERI(raw=bytearray(response["body"]))
-                    except ValueError:
+                    except Exception:  # whatever the endpoint answered
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
                         self.hby.db.roobi.put(keys=(url,), val=obr)
-- 
2.43.0


From 8ad88bc6606ab5ef7d3a62c4cd0607ac4b8017f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:15 +0000
Subject: [PATCH 111/152] fix: outcome of a repeated OOBI replaces its former
 one

---
 src/keri/app/oobiing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 254fe79..dbfec4c 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -510,7 +510,7 @@ class Oobiery:
                     print("invalid status for oobi response: {}".format(response["status"]))
                     self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.failed
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 elif ctype in (
                     CESR_CONTENT_TYPE,
@@ -526,7 +526,7 @@ class Oobiery:
 
                     self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.resolved
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 elif ctype == "application/schema+json":  # Schema response to data OOBI
                     try:
@@ -542,7 +542,7 @@ class Oobiery:
 
                     obr.state = result
                     self.hby.db.coobi.rem(keys=(url,))
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 elif ctype.startswith("application/json"):  # Unsigned rpy OOBI or Schema
 
@@ -556,7 +556,7 @@ class Oobiery:
 
                         obr.state = result
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
                         continue
 
                     except Exception:  # whatever the endpoint answered
@@ -567,12 +567,12 @@ class Oobiery:
                     except Exception:  # whatever the endpoint answered
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
                         continue
                     if not serder.ked['t'] == Ilks.rpy:
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                     elif serder.ked['r'] in ('/oobi/witness', '/oobi/controller'):
                         self.processMultiOobiRpy(url, serder, obr)
@@ -580,12 +580,12 @@ class Oobiery:
                     else:
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 else:
                     self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.failed
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
                     logger.error("invalid content type for oobi response: {}"
                                  .format(ctype))
 
-- 
2.43.0


From 65435d9956445660896f1affb6b8c3055871d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:15 +0000
Subject: [PATCH 112/152] fix: completed multiple OOBI is no longer pending

---
 src/keri/app/oobiing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index dbfec4c..7b27ca8 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -606,8 +606,8 @@ class Oobiery:
 
             if complete:
                 obr.state = result
-                self.hby.db.coobi.rem(keys=(url,))
-                self.hby.db.roobi.put(keys=(url,), val=obr)
+                self.hby.db.moobi.rem(keys=(url,))
+                self.hby.db.roobi.pin(keys=(url,), val=obr)
 
     def processRetries(self):
         """ Process Client responses by parsing the messages and removing the client/doer"""
@@ -647,7 +647,7 @@ class Oobiery:
             self.hby.db.oobis.put(keys=(murl,), val=obr)
 
         self.hby.db.coobi.rem(keys=(url,))
-        self.hby.db.moobi.put(keys=(url,), val=mobr)
+        self.hby.db.moobi.pin(keys=(url,), val=mobr)
 
 
 class Authenticator:
-- 
2.43.0


From 27f3589be500f12ccf85094de0bc6834e0005c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:15 +0000
Subject: [PATCH 113/152] fix: OOBI url that cannot be the key of a record is
 refused instead of stopping the resolver

---
 src/keri/app/oobiing.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 7b27ca8..ec0edca 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -30,6 +30,18 @@ Resultage = namedtuple("Resultage", 'resolved failed')  # stream cold start stat
 Result = Resultage(resolved='resolved', failed='failed')
 
 
+def recordable(url):
+    """Returns True when url may be the key of an OOBI record, that is non-empty
+    text without the separator of those keys and no longer than a database key.
+
+    Parameters:
+        url (str): OOBI URL, maybe provided by a remote party"""
+    try:
+        return isinstance(url, str) and '>' not in url and 0 < len(url.encode()) <= 500
+    except UnicodeEncodeError:
+        return False
+
+
 def loadEnds(app, *, hby, prefix=""):
     oobiEnd = OobiResource(hby=hby)
     app.add_route(prefix + "/oobi", oobiEnd)
@@ -175,6 +187,10 @@ class OobiResource:
 
         if "url" in body:
             oobi = body["url"]
+            if not recordable(oobi):
+                rep.status = falcon.HTTP_400
+                rep.text = "invalid OOBI url"
+                return
 
             obr = OobiRecord(date=nowIso8601())
             if "oobialias" in body:
@@ -221,6 +237,9 @@ class OobiRequestHandler:
             print(f"invalid oobi message, missing oobi.  evt={serder.ked}")
             return
         oobi = pay["oobi"]
+        if not recordable(oobi):
+            print(f"invalid oobi message, invalid oobi url.  evt={serder.ked}")
+            return
 
         obr = OobiRecord(date=nowIso8601())
         self.hby.db.oobis.pin(keys=(oobi,), val=obr)
@@ -390,6 +409,9 @@ class Oobiery:
         aid = cid  # authorizing attribution id
 
         oobi = data["oobi"]
+        if not recordable(oobi):
+            raise ValidationError(f"Invalid url for introduced OOBI in {Ilks.rpy} "
+                                  f"msg={serder.ked}.")
         url = urlparse(oobi)
         if url.scheme not in ("http", "https"):
             raise ValidationError(f"Invalid url scheme for introduced OOBI scheme={url.scheme}")
-- 
2.43.0


From fd8c384132b9e385583477ad5d471a5d87378a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:15 +0000
Subject: [PATCH 114/152] fix: malformed or foreign multiple OOBI answer fails
 that OOBI

---
 src/keri/app/oobiing.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index ec0edca..673adcc 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -654,12 +654,16 @@ class Oobiery:
 
     def processMultiOobiRpy(self, url, serder, mobr):
         data = serder.ked["a"]
-        cid = data["aid"]
-
-        if cid != mobr.cid:
-            return Result.failed
+        cid = data.get("aid") if isinstance(data, dict) else None
+        urls = data.get("urls") if isinstance(data, dict) else None
+
+        if (cid is None or cid != mobr.cid or not isinstance(urls, list)
+                or not all(recordable(murl) for murl in urls)):
+            mobr.state = Result.failed
+            self.hby.db.coobi.rem(keys=(url,))
+            self.hby.db.roobi.pin(keys=(url,), val=mobr)
+            return
 
-        urls = data["urls"]
         mobr.urls = urls
 
         for murl in urls:
-- 
2.43.0


From e3597f635eff0c7c678827fe9cf136915b3ff824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:15 +0000
Subject: [PATCH 115/152] fix: OOBI that cannot be requested is recorded as
 failed

---
 src/keri/app/oobiing.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 673adcc..d10cd80 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -505,8 +505,13 @@ class Oobiery:
 
                     self.request(url, obr)
 
+                else:
+                    print(f"error requesting unsupported OOBI URL", url)
+                    self.fail(url, obr)
+
             except ValueError as ex:
                 print(f"error requesting invalid OOBI URL {ex}", url)
+                self.fail(url, obr)
 
     def processClients(self):
         """ Process Client responses by parsing the messages and removing the client/doer"""
@@ -641,11 +646,18 @@ class Oobiery:
                 self.hby.db.eoobi.rem(keys=(url,))
                 self.hby.db.oobis.pin(keys=(url,), val=obr)
 
+    def fail(self, url, obr):
+        """ Record the OOBI as failed without requesting it """
+        obr.state = Result.failed
+        self.hby.db.oobis.rem(keys=(url,))
+        self.hby.db.coobi.rem(keys=(url,))
+        self.hby.db.roobi.pin(keys=(url,), val=obr)
+
     def request(self, url, obr):
         client = self.clienter.request("GET", url=url)
         if client is None:
-            self.hby.db.oobis.rem(keys=(url,))
             print(f"error getting client for {url}, aborting OOBI")
+            self.fail(url, obr)
             return
 
         self.clients[url] = client
-- 
2.43.0


From 1197c84cc07a08b9280d2f07e679138f4e477beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:15 +0000
Subject: [PATCH 116/152] fix: answer header does not replace the identifier an
 OOBI names

---
 src/keri/app/oobiing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index d10cd80..b25a0c5 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -545,7 +545,7 @@ class Oobiery:
                     "application/cesr+json",
                 ):  # CESR Stream response to OOBI (canonical + legacy variants)
                     self.parser.parse(ims=bytearray(response["body"]))
-                    if OOBI_AID_HEADER in response["headers"]:
+                    if obr.cid is None and OOBI_AID_HEADER in response["headers"]:
                         obr.cid = response["headers"][OOBI_AID_HEADER]
 
                     if obr.oobialias is not None and obr.cid:
-- 
2.43.0


From dab873bdf846bb39432a4d4e31ebfaa33b264e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:16 +0000
Subject: [PATCH 117/152] fix: well-known address authenticates only by a
 successful status

---
 src/keri/app/oobiing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index b25a0c5..f56c374 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -765,7 +765,7 @@ class Authenticator:
             if client.responses:
                 response = client.responses.popleft()
 
-                if 200 >= response["status"] <= 399:
+                if 200 <= response["status"] <= 399:
                     print(wurl, "succeeded")
                     self.addAuthToAid(obr.cid, wurl)
                     state = Result.resolved
-- 
2.43.0


From 25d61af21e0282cc5f0a43a000f63715ec5ebd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 118/152] fix: annotating a binary stream is refused instead of
 never ending

---
 src/keri/core/annotating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/annotating.py b/src/keri/core/annotating.py
index 75cb5ef..12609cb 100644
--- a/src/keri/core/annotating.py
+++ b/src/keri/core/annotating.py
@@ -274,7 +274,7 @@ def annot(ims):
                 raise ExtractionError(f"Unexpected remaining bytes in stream.")
 
         elif cold in Colds.bny:
-            pass
+            raise ColdStartError("Unsupported binary domain stream.")
 
         else:
             raise ColdStartError("Expecting stream tritet={}"
-- 
2.43.0


From 24574d212a1d910c200a6d9aa3f2752921cf8f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 119/152] fix: annotating a truncated message is refused

---
 src/keri/core/annotating.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/annotating.py b/src/keri/core/annotating.py
index 12609cb..4d07eae 100644
--- a/src/keri/core/annotating.py
+++ b/src/keri/core/annotating.py
@@ -5,7 +5,7 @@ keri.core.annotating module
 Provides support for Annotater
 """
 from ..kering import (sniff, Colds, Ilks, IlkError,
-                      ExtractionError, ColdStartError)
+                      ExtractionError, ColdStartError, ShortageError)
 
 from .coring import (Verser, Ilker, Diger, Prefixer, Number, Tholder,
                      Verfer, Traitor)
@@ -41,8 +41,11 @@ def annot(ims):
                        f"{val.name} count={val.count} quadlets\n".encode())
             indent += 1
 
-            # should grab fill message frame here so can verify its consumed
-            # when done annotating
+            # message frame must be all of and only what remains of stream
+            if len(ims) < val.count * 4:
+                raise ShortageError(f"Need {val.count * 4 - len(ims)} more chars.")
+            if len(ims) > val.count * 4:
+                raise ExtractionError(f"Unexpected remaining bytes in stream.")
 
             # version
             val = Verser(qb64b=ims, strip=True)
-- 
2.43.0


From e96851674ed438162caf4ed742f0be1c7a75b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:52 +0000
Subject: [PATCH 120/152] fix: watchers ahead at different sequence numbers are
 reported as duplicitous

---
 src/keri/app/watching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/watching.py b/src/keri/app/watching.py
index 978b6b6..1586454 100644
--- a/src/keri/app/watching.py
+++ b/src/keri/app/watching.py
@@ -125,8 +125,8 @@ class Adjudicator:
             # Only group habs can be behind their watchers
             # First check for duplicity among the watchers that are ahead (possible only if toad is below
             # super majority)
-            digs = set([state.dig for state in ahds])
-            if len(digs) > 1:  # Duplicity across watcher sets
+            digs = set([(state.sn, state.dig) for state in ahds])
+            if len(digs) > len(set(sn for sn, _ in digs)):  # Duplicity across watcher sets
                 cue = dict(kin="keyStateDuplicitous", cid=self.hab.pre, oid=watched, wids=watchers, dups=ahds)
                 self.cues.append(cue)
 
-- 
2.43.0


From d7a0fca769f8150274402bad8b203cc8b199ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:53 +0000
Subject: [PATCH 121/152] fix: notice from untrusted source raises
 AttributeError

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 76a98a7..0468dd7 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5433,7 +5433,7 @@ class Kevery:
                     aid not in baks and \
                     aid not in wats:
                 raise UntrustedKeyStateSource("key state notice for {} from untrusted source {} "
-                                                     .format(ksr.pre, aid))
+                                                     .format(ksr.i, aid))
 
         if ksr.i in self.kevers:
             kever = self.kevers[ksr.i]
-- 
2.43.0


From fc488759af3589492b352d5e5d46f73a20c14d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:53 +0000
Subject: [PATCH 122/152] fix: earlier key state notice of a source replaces
 its later one

---
 src/keri/core/eventing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 0468dd7..d882599 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5445,6 +5445,12 @@ class Kevery:
         osaider = self.db.knas.get(keys=keys)  # get old said if any
         dater = Dater(dts=ksr.dt)
 
+        # notice of non-transferable source must not be earlier than its last accepted
+        rdater = Dater(dts=serder.ked["dt"])
+        odater = self.db.kdts.get(keys=(osaider.qb64, aid)) if osaider else None
+        if cigars and odater and rdater.datetime < odater.datetime:
+            raise ValidationError(f"Skipped stale key state notice from {aid} of {rdater.dts}.")
+
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
                                         aid=aid, osaider=osaider, cigars=cigars,
@@ -5465,6 +5471,7 @@ class Kevery:
                 raise ValidationError(f"Mismatch keystate at sn = {int(ksr.s,16)} with db.")
 
         self.updateKeyState(aid=aid, ksr=ksr, saider=ksr_diger, dater=dater)
+        self.db.kdts.pin(keys=(ksr_diger.qb64, aid), val=rdater)  # of last notice by source
         self.cues.push(dict(kin="keyStateSaved", ksn=asdict(ksr)))
 
 
-- 
2.43.0


From 97c60a0c907e2dced4c71f328d17e5ef53a98d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:53 +0000
Subject: [PATCH 123/152] fix: key state notice of one source changes what
 others reported

---
 src/keri/app/watching.py  | 4 +++-
 src/keri/core/eventing.py | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/watching.py b/src/keri/app/watching.py
index 1586454..ed12e9a 100644
--- a/src/keri/app/watching.py
+++ b/src/keri/app/watching.py
@@ -106,7 +106,9 @@ class Adjudicator:
                 logger.info(f"No key state from watcher {watcher} for {watched}")
                 continue
 
-            ksn = self.hab.db.ksns.get(keys=(saider.qb64,))
+            ksn = self.hab.db.ksns.get(keys=(saider.qb64, watcher))  # as reported by watcher
+            if ksn is None:
+                ksn = self.hab.db.ksns.get(keys=(saider.qb64,))
             states.append(diffState(watcher, mystate, ksn))
 
         dups = [state for state in states if state.state == States.duplicitous]
diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index d882599..7e5c00c 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5470,6 +5470,11 @@ class Kevery:
             if not sserder.compare(said=ksr_diger.qb64b):  # mismatch events problem with replay
                 raise ValidationError(f"Mismatch keystate at sn = {int(ksr.s,16)} with db.")
 
+        # event already in database may not be reported at another sn
+        kserder = self.db.evts.get(keys=(pre, ksr_diger.qb64b))
+        if kserder is not None and kserder.sn != sn:
+            raise ValidationError(f"Mismatch keystate at sn = {sn} with event of db at sn = {kserder.sn}.")
+
         self.updateKeyState(aid=aid, ksr=ksr, saider=ksr_diger, dater=dater)
         self.db.kdts.pin(keys=(ksr_diger.qb64, aid), val=rdater)  # of last notice by source
         self.cues.push(dict(kin="keyStateSaved", ksn=asdict(ksr)))
@@ -5526,6 +5531,7 @@ class Kevery:
         # Add source of ksn to the key for DATEs too...  (source AID, ksn AID)
         self.db.kdts.put(keys=keys, val=dater)  # first one idempotent
         self.db.ksns.pin(keys=keys, val=ksr)  # first one idempotent
+        self.db.ksns.pin(keys=(saider.qb64, aid), val=ksr)  # as reported by this source
         # Add source of ksr to the key...  (ksr AID, source aid)
         self.db.knas.pin(keys=(ksr.i, aid), val=saider)  # overwrite
 
-- 
2.43.0


From 6af6cfd4b803c86bfc024b6b492e9e5275f4b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:53 +0000
Subject: [PATCH 124/152] fix: watcher behind with other event than the log's
 is reported as lagging

---
 src/keri/app/watching.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/watching.py b/src/keri/app/watching.py
index ed12e9a..df9863b 100644
--- a/src/keri/app/watching.py
+++ b/src/keri/app/watching.py
@@ -109,7 +109,11 @@ class Adjudicator:
             ksn = self.hab.db.ksns.get(keys=(saider.qb64, watcher))  # as reported by watcher
             if ksn is None:
                 ksn = self.hab.db.ksns.get(keys=(saider.qb64,))
-            states.append(diffState(watcher, mystate, ksn))
+            state = diffState(watcher, mystate, ksn)
+            if state.state == States.behind and state.dig not in list(
+                    self.hab.db.kels.get(keys=watched, on=state.sn)):
+                state.state = States.duplicitous  # not an event of local key event log at sn
+            states.append(state)
 
         dups = [state for state in states if state.state == States.duplicitous]
         ahds = [state for state in states if state.state == States.ahead]
-- 
2.43.0


From e30e261c0a8e08b572d41809e9e308107cc5c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 125/152] fix: Baser raised MDB_DBS_FULL when migrations opened
 the older sub-databases

---
 src/keri/db/basing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 70558ca..f7b8141 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -861,6 +861,8 @@ class Baser(LMDBer):
         kevers (statedict): read through cache of kevers of states for KELs in db
 
     """
+    # 100 named sub databases of its own plus those migrations may open
+    MaxNamedDBs = 120
 
     def __init__(self, headDirPath=None, reopen=False, **kwa):
         """
-- 
2.43.0


From eadb3a0db9c61361cc3295b627d5dae4b6dde661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 126/152] fix: Baser.complete raised for every named migration

---
 src/keri/db/basing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index f7b8141..4c3d1d7 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1516,9 +1516,10 @@ class Baser(LMDBer):
                         dater = self.migs.get(keys=(mig,))
                         migrations.append((mig, dater))
         else:
-            for version, migs in MIGRATIONS:  # check all migrations for each version
-                if name not in migs or not self.migs.get(keys=(name,)):
-                    raise ValueError(f"No migration named {name}")
+            # check all migrations for each version
+            if (not any(name in migs for version, migs in MIGRATIONS) or
+                    not self.migs.get(keys=(name,))):
+                raise ValueError(f"No migration named {name}")
             migrations.append((name, self.migs.get(keys=(name,))))
 
         return migrations
-- 
2.43.0


From 9e82a9ad0bc860f678c741f795604fdb409da1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 127/152] fix: hab_data_rename migration lost identifiers with
 dotted names or when interrupted

---
 src/keri/db/migrations/hab_data_rename.py | 27 +++++++++--------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/keri/db/migrations/hab_data_rename.py b/src/keri/db/migrations/hab_data_rename.py
index 7528764..02bfcd6 100644
--- a/src/keri/db/migrations/hab_data_rename.py
+++ b/src/keri/db/migrations/hab_data_rename.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass, field, asdict
+from dataclasses import dataclass, field
 from typing import Optional
 
 from .. import koming
@@ -54,13 +54,8 @@ def _check_if_needed(db):
         bool: True if the migration is needed, False otherwise
     """
     habs = koming.Komer(db=db, subkey='habs.', klas=dict, )
-    first = next(habs.getTopItemIter(), None)
-    if first is None:
-        return False
-    name, habord = first
-    if 'prefix' in habord:
-        return True
-    return False
+    # any since an interrupted migration leaves some already renamed
+    return any('prefix' in habord for _, habord in habs.getTopItemIter())
 
 
 def migrate(db):
@@ -82,13 +77,14 @@ def migrate(db):
 
     habs = koming.Komer(db=db,
                         subkey='habs.',
-                        klas=HabitatRecordV0_6_7, )
+                        klas=dict, )
 
     habords = dict()
     # Update Hab records from .habs with name
     for name, habord in habs.getTopItemIter():
-        existing = asdict(habord)
-        habord_0_6_7 = HabitatRecordV0_6_7(**existing)
+        if 'prefix' not in habord:  # already renamed by interrupted migration
+            continue
+        habord_0_6_7 = HabitatRecordV0_6_7(**habord)
         habord_0_6_8 = HabitatRecordV0_6_8(
             hid=habord_0_6_7.prefix,
             mid=habord_0_6_7.pid,
@@ -99,13 +95,10 @@ def migrate(db):
         )
         habords[name] = habord_0_6_8
 
-    habs.trim() # remove existing records
-
-    # Add in the renamed records
+    # Replace the records in place so none is lost when interrupted
     habs = koming.Komer(db=db,
                         subkey='habs.',
                         klas=HabitatRecordV0_6_8, )
 
-    for name, habord in habords.items():
-        name, = name
-        habs.pin(keys=(name,), val=habord)
+    for name, habord in habords.items():  # name is tuple, name may have '.'
+        habs.pin(keys=name, val=habord)
-- 
2.43.0


From a466d89113f98ec2a4154861c8313fcceecfcca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 128/152] fix: rekey_habs migration failed after deleting
 namespaced identifiers and was not restartable

---
 src/keri/db/migrations/rekey_habs.py | 48 +++++++++++++---------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/keri/db/migrations/rekey_habs.py b/src/keri/db/migrations/rekey_habs.py
index ca638fd..36d8800 100644
--- a/src/keri/db/migrations/rekey_habs.py
+++ b/src/keri/db/migrations/rekey_habs.py
@@ -29,13 +29,14 @@ def _check_if_needed(db):
     habs = koming.Komer(db=db,
                         subkey='habs.',
                         klas=dict, )
-    first = next(habs.getTopItemIter(), None)
-    if first is None:
-        return False
-    name, habord = first
-    if 'domain' in habord:
-        return False
-    return True
+    # any since an interrupted migration leaves some already rekeyed
+    if any('domain' not in habord for _, habord in habs.getTopItemIter()):
+        return True
+    nmsp = koming.Komer(db=db,
+                        subkey='nmsp.',
+                        klas=dict, )
+    return nmsp.cntAll() > 0
+
 
 def migrate(db):
     """ Re-key habs migration for changing the key for .habs and introducing the .names database
@@ -64,29 +65,26 @@ def migrate(db):
                         subkey='nmsp.',
                         klas=HabitatRecordV0_6_8, )
 
-    habords = dict()
+    habords = []
     # Update Hab records from .habs with name
-    for name, habord in habs.getTopItemIter():
-        name = ".".join(name)  # detupleize the database key name
+    for keys, habord in habs.getTopItemIter():
+        if 'domain' in habord:  # already rekeyed by interrupted migration
+            continue
         nhabord = HabitatRecord(**habord)
-        nhabord.name = name
-        habords[habord['hid']] = nhabord
-
-    habs.trim()
+        nhabord.name = ".".join(keys)  # detupleize the database key name
+        habords.append((habs, keys, nhabord))
 
     # Update Hab records from .nmsp with name and domain (ns)
     for keys, habord in nmsp.getTopItemIter():
-        ns = keys[0]
-        name = ".".join(keys[1:])  # detupleize the database key name
         nhabord = HabitatRecord(**asdict(habord))
-        nhabord.name = name
-        nhabord.domain = ns
-        habords[habord['hid']] = nhabord
-
-    nmsp.trim()  # remove existing records
+        nhabord.name = ".".join(keys[1:])  # detupleize the database key name
+        nhabord.domain = keys[0]
+        habords.append((nmsp, keys, nhabord))
 
-    # Rekey .habs and create .names index
-    for pre, habord in habords.items():
-        db.habs.pin(keys=(pre,), val=habord)
+    # Rekey .habs and create .names index. Remove each existing record only
+    # after its replacement is there so none is lost when interrupted
+    for komer, keys, habord in habords:
         ns = "" if habord.domain is None else habord.domain
-        db.names.pin(keys=(ns, habord.name), val=pre)
+        db.names.pin(keys=(ns, habord.name), val=habord.hid)
+        db.habs.pin(keys=(habord.hid,), val=habord)
+        komer.rem(keys=keys)
-- 
2.43.0


From 3d18e6dda5d2ab7e499c83fb0b7a32f1ec3cf285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 129/152] fix: add_key_and_reg_state_schemas migration failed
 on stored events and was not restartable

---
 .../add_key_and_reg_state_schemas.py          | 68 +++++++++----------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/src/keri/db/migrations/add_key_and_reg_state_schemas.py b/src/keri/db/migrations/add_key_and_reg_state_schemas.py
index c24bacb..01772f6 100644
--- a/src/keri/db/migrations/add_key_and_reg_state_schemas.py
+++ b/src/keri/db/migrations/add_key_and_reg_state_schemas.py
@@ -1,6 +1,6 @@
 from keri import help
 from keri.core import coring
-from .. import koming, subing, dbing
+from .. import koming, subing
 from keri.kering import ConfigurationError, Version
 from ...recording import KeyStateRecord, StateEERecord
 from keri.vdr import Reger, RegStateRecord
@@ -11,13 +11,8 @@ def _check_if_needed(db):
     states = koming.Komer(db=db,
                           klas=dict,
                           subkey='stts.')
-    first = next(states.getTopItemIter(), None)
-    if first is None:
-        return False
-    keys, sad = first
-    if 'vn' in sad:
-        return False
-    return True
+    # any since an interrupted migration leaves some already migrated
+    return any('vn' not in sad for _, sad in states.getTopItemIter())
 
 def migrate(db):
     """Adds schema for KeyStateRecord, RegStateRecord, and migrates the rgy.cancs., hby.db.pubs.,
@@ -51,29 +46,6 @@ def migrate(db):
                                klas=KeyStateRecord,
                                subkey='stts.')
 
-        for keys, sad in states.getTopItemIter():
-            ksr = KeyStateRecord(
-                vn=Version,  # version number as list [major, minor]
-                i=sad['i'],  # qb64 prefix
-                s=sad['s'],  # lowercase hex string no leading zeros
-                p=sad['p'],
-                d=sad['d'],
-                f=sad['f'],  # lowercase hex string no leading zeros
-                dt=sad['dt'],
-                et=sad['et'],
-                kt=sad['kt'],
-                k=sad['k'],
-                nt=sad['nt'],
-                n=sad['n'],
-                bt=sad['bt'],
-                b=sad['b'],
-                c=sad['c'],
-                ee=StateEERecord._fromdict(sad['ee']),  # latest est event dict
-                di=sad['di'] if sad['di'] else None
-            )
-
-            nstates.pin(keys=keys, val=ksr)
-
         rgy = Reger(name=db.name, base=db.base, db=db, temp=db.temp, reopen=True)
 
         rstates = koming.Komer(db=rgy,
@@ -97,12 +69,12 @@ def migrate(db):
             rgy.states.pin(sad['i'], val=rsr)
 
         for (said,), _ in rgy.saved.getTopItemIter():
-            snkey = dbing.snKey(said, 0)
-            dig = rgy.tels.get(keys=said, on=0)
+            if (dig := rgy.tels.get(keys=said, on=0)) is None:
+                continue
 
             prefixer = coring.Prefixer(qb64=said)
             number = coring.Number(sn=0)
-            diger = coring.Diger(qb64b=bytes(dig))
+            diger = coring.Diger(qb64=dig)
             rgy.cancs.pin(keys=said, val=[prefixer, number, diger])
 
         migrateKeys(db)
@@ -117,6 +89,32 @@ def migrate(db):
         db.dune.trim()
         db.qnfs.trim()
 
+        # last since shows that migration is needed when interrupted before
+        for keys, sad in states.getTopItemIter():
+            if 'vn' in sad:
+                continue
+            ksr = KeyStateRecord(
+                vn=Version,  # version number as list [major, minor]
+                i=sad['i'],  # qb64 prefix
+                s=sad['s'],  # lowercase hex string no leading zeros
+                p=sad['p'],
+                d=sad['d'],
+                f=sad['f'],  # lowercase hex string no leading zeros
+                dt=sad['dt'],
+                et=sad['et'],
+                kt=sad['kt'],
+                k=sad['k'],
+                nt=sad['nt'],
+                n=sad['n'],
+                bt=sad['bt'],
+                b=sad['b'],
+                c=sad['c'],
+                ee=StateEERecord._fromdict(sad['ee']),  # latest est event dict
+                di=sad['di'] if sad['di'] else None
+            )
+
+            nstates.pin(keys=keys, val=ksr)
+
     except ConfigurationError:
         logger.error(f"identifier prefix for {db.name} does not exist, incept must be run first", )
         return -1
@@ -135,7 +133,7 @@ def migrateKeys(db):
     digs = subing.CatCesrIoSetSuber(db=db, subkey="digs.",
                                     klas=(coring.Prefixer, coring.Seqner))
 
-    for pre, fn, dig in db.getFelItemAllPreIter():
+    for (pre,), fn, dig in db.fels.getAllItemIter():
         if (serder := db.evts.get(keys=(pre, dig))) is None:
             logger.info(f"Migrate keys: missing event for dig={dig}, skipped.")
             continue
-- 
2.43.0


From 1e7e2a15138dc6ae05e9fcbfad0b4f013c73bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 130/152] fix: tag_spec_examples rewrote line ends and missed
 fences ending in CRLF

---
 tools/tag_spec_examples.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tools/tag_spec_examples.py b/tools/tag_spec_examples.py
index 512202c..d14b911 100644
--- a/tools/tag_spec_examples.py
+++ b/tools/tag_spec_examples.py
@@ -27,8 +27,8 @@ import json
 import re
 import sys
 
-_OPEN_RE = re.compile(r"^[ \t]*```[ \t]*(json|python)[ \t]*$", re.IGNORECASE)
-_CLOSE_RE = re.compile(r"^[ \t]*```[ \t]*$")
+_OPEN_RE = re.compile(r"^[ \t]*```[ \t]*(json|python)[ \t]*\r?$", re.IGNORECASE)
+_CLOSE_RE = re.compile(r"^[ \t]*```[ \t]*\r?$")
 _MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*([^>]*?)\s*-->\s*$")
 
 
@@ -114,7 +114,8 @@ def tag(manifest, text):
 
     # Apply insertions bottom-up so indices stay valid.
     for open_idx, name in sorted(inserts, reverse=True):
-        lines.insert(open_idx, f"<!-- example: {name} -->")
+        eol = "\r" if lines[open_idx].endswith("\r") else ""
+        lines.insert(open_idx, f"<!-- example: {name} -->{eol}")
 
     return "\n".join(lines), tagged, warnings
 
@@ -129,7 +130,7 @@ def main(argv=None):
 
     with open(args.manifest, encoding="utf-8") as f:
         manifest = json.load(f)
-    with open(args.spec, encoding="utf-8") as f:
+    with open(args.spec, encoding="utf-8", newline="") as f:  # keep line ends
         text = f.read()
 
     new_text, tagged, warnings = tag(manifest, text)
@@ -146,7 +147,7 @@ def main(argv=None):
         print(f"  + {name}")
 
     if not args.dry_run:
-        with open(args.spec, "w", encoding="utf-8") as f:
+        with open(args.spec, "w", encoding="utf-8", newline="") as f:
             f.write(new_text)
     return 0
 
-- 
2.43.0


From b3504c493c3156788404277e881b1b6d2de31719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:28 +0000
Subject: [PATCH 131/152] fix: ReceiptEnd receipted events the witness had not
 accepted

---
 src/keri/app/indirecting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index da81e0a..693cd55 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -1086,9 +1086,9 @@ class ReceiptEnd(doing.DoDoer):
 
         self.psr.parseOne(ims=msg, local=True)
 
-        if pre in self.hab.kevers:
-            kever = self.hab.kevers[pre]
-            wits = kever.wits
+        # receipt only when accepted i.e. neither escrowed nor dropped by parse
+        if serder.said in self.hab.db.kels.get(keys=pre, on=serder.sn):
+            wits = [wit.qb64 for wit in self.hab.kvy.fetchWitnessState(pre, serder.sn)]
 
             if self.hab.pre not in wits:
                 raise falcon.HTTPBadRequest(description=f"{self.hab.pre} is not a valid witness for {pre} event at "
-- 
2.43.0


From a64fa84f42e6f7fabfc432ce4c516b2634798362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:28 +0000
Subject: [PATCH 132/152] fix: ReceiptEnd failed on a request by said and
 miscounted version 2 receipts

---
 src/keri/app/indirecting.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index 693cd55..c3c1103 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -22,7 +22,7 @@ from ..kering import (Version, Roles, Ilks, Kinds,
                       MissingEntryError)
 from ..recording import TopicsRecord
 from ..core import (Kevery, parsing, routing, serdering,
-                    Counter, receipt, Codens)
+                    receipt, messagize)
 from ..db import BaserDoer
 from ..end import loadEnds as loadEndingEnds
 from ..help import nowUTC
@@ -1140,17 +1140,15 @@ class ReceiptEnd(doing.DoDoer):
             raise falcon.HTTPBadRequest(description=f"{self.hab.pre} is not a valid witness for {pre} event at "
                                                     f"{serder.sn}, {wits}")
         rserder = receipt(pre=pre,
-                          sn=sn,
+                          sn=serder.sn,
                           said=said.decode("utf-8"),
                           version=self.version,
                           gvrsn=self.version,
                           kind=serder.kind)
-        rct = bytearray(rserder.raw)
         if wigers := self.hab.db.wigs.get(keys=(preb, said)):
-            rct.extend(Counter(Codens.WitnessIdxSigs, count=len(wigers),
-                               version=self.version).qb64b)
-            for wiger in wigers:
-                rct.extend(wiger.qb64b)
+            rct = messagize(serder=rserder, wigers=wigers, framed=True, gvrsn=self.version)
+        else:
+            rct = rserder.raw
 
         rep.set_header('Content-Type', CESR_CONTENT_TYPE)
         rep.status = falcon.HTTP_200
-- 
2.43.0


From 501a9b9fef1b6d3fccdfb848872a446e9db86487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:28 +0000
Subject: [PATCH 133/152] fix: QueryEnd replayed a partial log with a false
 first seen ordinal

---
 src/keri/app/indirecting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index c3c1103..7af03a7 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -1241,8 +1241,9 @@ class QueryEnd:
                     raise falcon.HTTPBadRequest(description=f"non-existant event at seq-num {sn}")
                 for dig in self.hab.db.kels.getAllIter(keys=pre, on=sn):
                     try:
+                        fn = self.hab.db.fons.get(keys=(pre, dig)).sn
                         dig = dig.encode("utf-8")
-                        msg = self.hab.db.cloneEvtMsg(pre=pre, fn=0, dig=dig, version=vrsn)
+                        msg = self.hab.db.cloneEvtMsg(pre=pre, fn=fn, dig=dig, version=vrsn)
                     except Exception:
                         continue  # skip this event
                     evnts.extend(msg)
-- 
2.43.0


From 296fa3b1f6589ef90234b7096563511ec9a07009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:28 +0000
Subject: [PATCH 134/152] fix: Receiptor did not catch up witnesses newly added
 by a delegated rotation

---
 src/keri/app/agenting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/agenting.py b/src/keri/app/agenting.py
index 7dd7395..7e6caf7 100644
--- a/src/keri/app/agenting.py
+++ b/src/keri/app/agenting.py
@@ -80,7 +80,7 @@ class Receiptor(doing.DoDoer):
             return
 
         # If we are a rotation event, may need to catch new witnesses up to current key state
-        if ser.ked['t'] in (coring.Ilks.rot,):
+        if ser.ked['t'] in (coring.Ilks.rot, coring.Ilks.drt):
             adds = ser.ked["ba"]
             for wit in adds:
                 yield from self.catchup(ser.pre, wit)
-- 
2.43.0


From c362692274329db235ea4f022e68e7c2b4f4834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:28 +0000
Subject: [PATCH 135/152] fix: Receiptor gave up when a newly added witness has
 no address

---
 src/keri/app/agenting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/agenting.py b/src/keri/app/agenting.py
index 7e6caf7..61245a4 100644
--- a/src/keri/app/agenting.py
+++ b/src/keri/app/agenting.py
@@ -205,7 +205,11 @@ class Receiptor(doing.DoDoer):
 
         hab = self.hby.habs[pre]
 
-        client, clientDoer = httpClient(hab, wit)
+        try:
+            client, clientDoer = httpClient(hab, wit)
+        except (MissingEntryError, gaierror) as e:
+            logger.error(f"unable to create http client for witness {wit}: {e}")
+            return
         self.extend([clientDoer])
 
         for fmsg in hab.db.clonePreIter(pre=pre, version=hab.kever.serder.pvrsn):
-- 
2.43.0


From 304948a282379a59a90f614b1e816ea135301361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:28 +0000
Subject: [PATCH 136/152] fix: Receiptor catchup dropped all messages after the
 first

---
 src/keri/app/agenting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/agenting.py b/src/keri/app/agenting.py
index 61245a4..cde7aa6 100644
--- a/src/keri/app/agenting.py
+++ b/src/keri/app/agenting.py
@@ -213,9 +213,10 @@ class Receiptor(doing.DoDoer):
         self.extend([clientDoer])
 
         for fmsg in hab.db.clonePreIter(pre=pre, version=hab.kever.serder.pvrsn):
-            streamCESRRequests(client=client, dest=wit, ims=bytearray(fmsg))
-            while not client.responses:
+            sent = streamCESRRequests(client=client, dest=wit, ims=bytearray(fmsg))
+            while len(client.responses) < sent:
                 yield self.tock
+            client.responses.clear()
 
         self.remove([clientDoer])
 
-- 
2.43.0


From a750e1bad20b1a3e6cbe2001efdfcfeec273090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:28 +0000
Subject: [PATCH 137/152] fix: WitnessReceiptor used current witnesses for an
 older event

---
 src/keri/app/agenting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/agenting.py b/src/keri/app/agenting.py
index cde7aa6..df671c0 100644
--- a/src/keri/app/agenting.py
+++ b/src/keri/app/agenting.py
@@ -343,7 +343,7 @@ class WitnessReceiptor(doing.DoDoer):
                 hab = self.hby.habs[pre]
 
                 sn = evt["sn"] if "sn" in evt else hab.kever.sner.num
-                wits = hab.kever.wits
+                wits = [wit.qb64 for wit in hab.kvy.fetchWitnessState(pre, sn)]
 
                 if len(wits) == 0:
                     continue
-- 
2.43.0


From 0b7fb53a48890ad3a74e6815a3af8d46182e9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:28 +0000
Subject: [PATCH 138/152] fix: WitnessReceiptor mixed up receipts that came in
 another order than the witnesses

---
 src/keri/app/agenting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/agenting.py b/src/keri/app/agenting.py
index df671c0..19ffd1e 100644
--- a/src/keri/app/agenting.py
+++ b/src/keri/app/agenting.py
@@ -390,7 +390,7 @@ class WitnessReceiptor(doing.DoDoer):
                     continue
 
                 # generate all rct msgs to send to all witnesses
-                awigers = wigers
+                awigers = {wiger.index: wiger for wiger in wigers}
 
                 # make sure all witnesses have fully receipted KERL and know about each other
                 for witer in witers:
-- 
2.43.0


From 45618854143c5ef99808d768940c8354538d532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:00 +0000
Subject: [PATCH 139/152] fix: tag_spec_examples does not see a marker in
 capitals, which the checker accepts

---
 tools/tag_spec_examples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/tag_spec_examples.py b/tools/tag_spec_examples.py
index d14b911..936da05 100644
--- a/tools/tag_spec_examples.py
+++ b/tools/tag_spec_examples.py
@@ -29,7 +29,8 @@ import sys
 
 _OPEN_RE = re.compile(r"^[ \t]*```[ \t]*(json|python)[ \t]*\r?$", re.IGNORECASE)
 _CLOSE_RE = re.compile(r"^[ \t]*```[ \t]*\r?$")
-_MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*([^>]*?)\s*-->\s*$")
+_MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*([^>]*?)\s*-->\s*$",
+                        re.IGNORECASE)
 
 
 def _parse_body(lang, body):
-- 
2.43.0


From 2928c89c47b5ad75aaae3cd4661c00f65e2ce63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:46 +0000
Subject: [PATCH 140/152] fix: messages were sent to endpoints that the
 recipient had cut

---
 src/keri/app/habbing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index d611025..50e8c8d 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2106,6 +2106,9 @@ class BaseHab:
         ends = dict()
 
         for (_, erole, eid), end in self.db.ends.getTopItemIter(keys=(pre,)):
+            if not (end.enabled or end.allowed):  # cut by its controller
+                continue
+
             locs = dict()
             urls = self.fetchUrls(eid=eid, scheme="")
             for rscheme, url in urls.firsts():
-- 
2.43.0


From 892b030d58adbb501e526da4be27ad80d07aaca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:46 +0000
Subject: [PATCH 141/152] fix: forwarded messages framed in version 2 had
 attachments in version 1 groups and were lost

---
 src/keri/app/forwarding.py  | 3 +++
 src/keri/peer/exchanging.py | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/forwarding.py b/src/keri/app/forwarding.py
index 1411af8..ab0b594 100644
--- a/src/keri/app/forwarding.py
+++ b/src/keri/app/forwarding.py
@@ -224,6 +224,7 @@ class Poster(doing.DoDoer):
                                    modifiers=dict(pre=recp, topic=topic),
                                    attributes={},
                                    embeds=dict(evt=evt),
+                                   gvrsn=gvrsn,
                                    **kwa)
         ims = hab.endorse(serder=fwd, last=False, framed=True, gvrsn=gvrsn)
 
@@ -262,6 +263,7 @@ class Poster(doing.DoDoer):
                                    modifiers=dict(pre=recp, topic=topic),
                                    attributes={},
                                    embeds=dict(evt=evt),
+                                   gvrsn=gvrsn,
                                    **kwa)
         ims = hab.endorse(serder=fwd, last=False, framed=True, gvrsn=gvrsn)
 
@@ -454,6 +456,7 @@ class StreamPoster:
                                    modifiers=dict(pre=self.recp, topic=topic),
                                    attributes={},
                                    embeds=dict(evt=evt),
+                                   gvrsn=gvrsn,
                                    **kwa)
         ims = hab.endorse(serder=fwd, last=False, framed=True, gvrsn=gvrsn)
         return fwd, ims + atc
diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 15e3188..17edc8f 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -547,7 +547,8 @@ def specialExchange(*,
         exchange: serder of exchange message and atc is serialized path
             attachments of embeds"""
     pvrsn = pvrsn if pvrsn is not None else version
-    vs = versify(pvrsn=pvrsn, kind=kind, size=0, gvrsn=gvrsn)
+    vs = versify(pvrsn=pvrsn, kind=kind, size=0,  # v1 has no genus version in it
+                 gvrsn=gvrsn if pvrsn.major > Vrsn_1_0.major else None)
 
     #ilk = Ilks.exn
     #dt = stamp if stamp is not None else helping.nowIso8601()
@@ -575,11 +576,11 @@ def specialExchange(*,
             if len(pathed) // 4 < 4096:
                 end.extend(Counter(Codens.PathedMaterialCouples,
                                           count=(len(pathed) // 4),
-                                          version=Vrsn_1_0).qb64b)
+                                          version=gvrsn if gvrsn is not None else Vrsn_1_0).qb64b)
             else:
                 end.extend(Counter(Codens.BigPathedMaterialCouples,
                                           count=(len(pathed) // 4),
-                                          version=Vrsn_1_0).qb64b)
+                                          version=gvrsn if gvrsn is not None else Vrsn_1_0).qb64b)
             end.extend(pathed)
 
         if e:
-- 
2.43.0


From 2ad1af75ae8f5912e2f541a741c870a50149f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:46 +0000
Subject: [PATCH 142/152] fix: posting a message without attachments to a
 mailbox ended the poster

---
 src/keri/app/forwarding.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/forwarding.py b/src/keri/app/forwarding.py
index ab0b594..b1d023e 100644
--- a/src/keri/app/forwarding.py
+++ b/src/keri/app/forwarding.py
@@ -217,7 +217,8 @@ class Poster(doing.DoDoer):
         # create the forward message with payload embedded at `a` field
 
         evt = bytearray(serder.raw)
-        evt.extend(atc)
+        if atc is not None:
+            evt.extend(atc)
         kwa, gvrsn = _exchangeVersion(version=self.version, kind=self.kind)
         fwd, atc = specialExchange(sender=hab.pre,
                                    route='/fwd',
@@ -256,7 +257,8 @@ class Poster(doing.DoDoer):
         # create the forward message with payload embedded at `a` field
 
         evt = bytearray(serder.raw)
-        evt.extend(atc)
+        if atc is not None:
+            evt.extend(atc)
         kwa, gvrsn = _exchangeVersion(version=self.version, kind=self.kind)
         fwd, atc = specialExchange(sender=hab.pre,
                                    route='/fwd',
@@ -449,7 +451,8 @@ class StreamPoster:
 
         # Its not us, randomly select a mailbox and forward it on
         evt = bytearray(serder.raw)
-        evt.extend(atc)
+        if atc is not None:
+            evt.extend(atc)
         kwa, gvrsn = _exchangeVersion(version=self.version, kind=self.kind)
         fwd, atc = specialExchange(sender=hab.pre,
                                    route='/fwd',
-- 
2.43.0


From 59a2d38b9bc69866f57b704656c9f1aa6a8731a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:46 +0000
Subject: [PATCH 143/152] fix: StreamPoster stored the wrapper instead of the
 message in its own mailbox

---
 src/keri/app/forwarding.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/forwarding.py b/src/keri/app/forwarding.py
index b1d023e..d0e6240 100644
--- a/src/keri/app/forwarding.py
+++ b/src/keri/app/forwarding.py
@@ -386,12 +386,12 @@ class StreamPoster:
                 for role in (Roles.controller, Roles.agent, Roles.mailbox):
                     if role in ends:
                         if role == Roles.mailbox:
-                            serder, attachment = self.createForward(self.hab, serder=serder, ends=ends,
+                            serder, attachment = self.createForward(self.hab, serder=serder, ends=ends[role],
                                                                     atc=attachment, topic=self.topic)
 
             # otherwise send to one witness
             elif Roles.witness in ends:
-                serder, attachment = self.createForward(self.hab, ends=ends, serder=serder,
+                serder, attachment = self.createForward(self.hab, ends=ends[Roles.witness], serder=serder,
                                                         atc=attachment, topic=self.topic)
             else:
                 logger.info(f"No end roles for {self.recp} to send evt={self.recp}")
@@ -400,6 +400,9 @@ class StreamPoster:
             logger.error(f"Error sending to {self.recp} with ends={ends}.  Err={e}")
             raise ValidationError(f"Error sending to {self.recp} with ends={ends}.  Err={e}")
 
+        if serder is None:  # stored in own mailbox, nothing to send
+            return
+
         evt = dict(serder=serder)
         if attachment is not None:
             evt["attachment"] = attachment
-- 
2.43.0


From e0e9a6262818aa994a9f55240dc97789496fc725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:42 +0000
Subject: [PATCH 144/152] fix: approval of a delegated event was kept for the
 latest event instead

---
 src/keri/app/delegating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/delegating.py b/src/keri/app/delegating.py
index 4c01224..95fb9d3 100644
--- a/src/keri/app/delegating.py
+++ b/src/keri/app/delegating.py
@@ -150,7 +150,7 @@ class Anchorer(doing.DoDoer):
             if dserder := self.hby.db.fetchLastSealingEventByEventSeal(dkever.prefixer.qb64, seal=seal):
                 sner = Number(num=dserder.sn, code=NumDex.Huge)
                 diger = Diger(qb64b=dserder.saidb)
-                self.hby.db.aess.pin(keys=(kever.prefixer.qb64b, kever.serder.saidb),
+                self.hby.db.aess.pin(keys=(kever.prefixer.qb64b, serder.saidb),
                                      val=(sner, diger))  # authorizer event seal (delegator/issuer)
 
                 # Move to escrow waiting for witness receipts
-- 
2.43.0


From 6223cd597504e2fb4b4ed18d97cf943154cdded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:42 +0000
Subject: [PATCH 145/152] fix: witnesses of version 1 were sent the delegator's
 log framed in version 2

---
 src/keri/app/agenting.py   | 2 +-
 src/keri/app/delegating.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/agenting.py b/src/keri/app/agenting.py
index 19ffd1e..a761715 100644
--- a/src/keri/app/agenting.py
+++ b/src/keri/app/agenting.py
@@ -367,7 +367,7 @@ class WitnessReceiptor(doing.DoDoer):
                     for idx, witer in enumerate(witers):
                         wit = wits[idx]
 
-                        for dmsg in hab.db.cloneDelegation(hab.kever):
+                        for dmsg in hab.db.cloneDelegation(hab.kever, gvrsn=ser.pvrsn):
                             witer.msgs.append(bytearray(dmsg))
 
                         if ser.ked['t'] in (coring.Ilks.icp, coring.Ilks.dip) or \
diff --git a/src/keri/app/delegating.py b/src/keri/app/delegating.py
index 95fb9d3..c4f7dd6 100644
--- a/src/keri/app/delegating.py
+++ b/src/keri/app/delegating.py
@@ -254,7 +254,7 @@ class Anchorer(doing.DoDoer):
         publisher = self.publishers[pre]
         hab = self.hby.habs[pre]
         self.extend([publisher])
-        for msg in hab.db.cloneDelegation(hab.kever):
+        for msg in hab.db.cloneDelegation(hab.kever, gvrsn=hab.kever.serder.pvrsn):
             publisher.msgs.append(dict(pre=hab.pre, msg=bytes(msg)))
 
 
-- 
2.43.0


From 2a6b6c5235869c2706100fd0db5c1bc38be84b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:42 +0000
Subject: [PATCH 146/152] fix: a delegation did not complete after a restart or
 with another one of the same identifier

---
 src/keri/app/delegating.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/delegating.py b/src/keri/app/delegating.py
index c4f7dd6..a9c9513 100644
--- a/src/keri/app/delegating.py
+++ b/src/keri/app/delegating.py
@@ -68,7 +68,6 @@ class Anchorer(doing.DoDoer):
         if proxy is not None:
             self.proxy = proxy
 
-        self.publishers[pre] = WitnessPublisher(hby=self.hby)
         # load the hab of the delegated identifier to anchor
         hab = self.hby.habs[pre]
         delpre = hab.kever.delpre  # get the delegator identifier
@@ -232,7 +231,8 @@ class Anchorer(doing.DoDoer):
         publication to the witnesses to complete then completes the delegation.
         """
         for (pre, said), serder in self.hby.db.dpub.getTopItemIter():  # group partial witness escrow
-            if pre not in self.publishers:
+            if pre not in self.publishers:  # ended by restart or with other event of pre
+                self.publishDelegator(pre)
                 continue
 
             publisher = self.publishers[pre]
@@ -249,11 +249,11 @@ class Anchorer(doing.DoDoer):
     def publishDelegator(self, pre):
         """Publish the delegation event to my witnesses."""
         if pre not in self.publishers:
-            return
+            self.publishers[pre] = WitnessPublisher(hby=self.hby)
+            self.extend([self.publishers[pre]])
 
         publisher = self.publishers[pre]
         hab = self.hby.habs[pre]
-        self.extend([publisher])
         for msg in hab.db.cloneDelegation(hab.kever, gvrsn=hab.kever.serder.pvrsn):
             publisher.msgs.append(dict(pre=hab.pre, msg=bytes(msg)))
 
-- 
2.43.0


From a7740d7408a30a0167b3755dae25c81da0d2e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:42 +0000
Subject: [PATCH 147/152] fix: receipts of a delegated event were not asked for
 again after a restart

---
 src/keri/app/delegating.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/app/delegating.py b/src/keri/app/delegating.py
index a9c9513..f263dcb 100644
--- a/src/keri/app/delegating.py
+++ b/src/keri/app/delegating.py
@@ -48,6 +48,9 @@ class Anchorer(doing.DoDoer):
         self.proxy = proxy
         self.auths = auths
 
+        for (pre, _), serder in self.hby.db.dpwe.getTopItemIter():  # resume after restart
+            self.witDoer.msgs.append(dict(pre=pre, sn=serder.sn, auths=self.auths))
+
         super(Anchorer, self).__init__(doers=[self.witq, self.witDoer, self.postman, doing.doify(self.escrowDo)], **kwa)
 
     def delegation(self, pre, sn=None, proxy=None, auths=None, version=None):
-- 
2.43.0


From e03d38e7aed35d5c7e040df09c5a8bb536d6e431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:05 +0000
Subject: [PATCH 148/152] fix: count quadlets in the v2 group of a sealed
 payload

A version 2 receiver takes the count of an ESSRPayloadGroup as its size in
quadlets, so a stream sealed in version 2 framing could not be taken apart.
---
 src/keri/app/forwarding.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/forwarding.py b/src/keri/app/forwarding.py
index d0e6240..8a89ae9 100644
--- a/src/keri/app/forwarding.py
+++ b/src/keri/app/forwarding.py
@@ -12,7 +12,7 @@ from ordered_set import OrderedSet as oset
 from hio.base import doing
 from hio.help import decking, ogler
 
-from ..kering import (Roles, Vrsn_1_0, Version, Kinds,
+from ..kering import (Roles, Vrsn_1_0, Vrsn_2_0, Version, Kinds,
                       ConfigurationError, ValidationError)
 from .agenting import messengerFrom, streamMessengerFrom
 from ..core import (Bexter, Prefixer, Verfer, Texter, Diger,
@@ -437,7 +437,9 @@ class StreamPoster:
                                   diger=diger,
                                   **kwa)
         ims = hab.endorse(serder=essr, framed=True, gvrsn=gvrsn)
-        ims.extend(Counter(Codens.ESSRPayloadGroup, count=1,
+        # v2 groups count quadlets, v1 groups count primitives
+        count = len(texter.qb64b) // 4 if gvrsn.major >= Vrsn_2_0.major else 1
+        ims.extend(Counter(Codens.ESSRPayloadGroup, count=count,
                            gvrsn=gvrsn).qb64b)
         ims.extend(texter.qb64b)
         return ims
-- 
2.43.0


From 27b60129f9e686c8b926638f6443344279679636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:05 +0000
Subject: [PATCH 149/152] fix: send an oversized sealed message in a chunk of
 its own

A sealed stream with a message larger than a chunk put that message back for
ever, while it sent an endless row of empty payloads.
---
 src/keri/app/forwarding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/forwarding.py b/src/keri/app/forwarding.py
index 8a89ae9..2c356d7 100644
--- a/src/keri/app/forwarding.py
+++ b/src/keri/app/forwarding.py
@@ -331,13 +331,16 @@ class StreamPoster:
             # bext field can be randomized to reduce correlation based on packet size, empty for now
             msg.extend(Bexter(bext="").qb64b)
 
+        head = len(msg)
         while self.evts:
             evt = self.evts.popleft()
 
             serder = evt["serder"]
             atc = evt["attachment"] if "attachment" in evt else b''
 
-            if self.essr and len(msg) + len(serder.raw) + len(atc) > 16384:
+            # an oversized event goes alone in its own chunk
+            if (self.essr and len(msg) > head
+                    and len(msg) + len(serder.raw) + len(atc) > 16384):
                 self.evts.appendleft(evt)
                 break
 
-- 
2.43.0


From 0d5d23a7a61cc87ca7f5705f9ec61a071f67bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:37 +0000
Subject: [PATCH 150/152] fix: poll a witness that is also a mailbox only once

Each of its messages was fetched and processed twice, by two pollers that
wrote the same record of what was fetched.
---
 src/keri/app/indirecting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index 7af03a7..e0e4178 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -622,16 +622,20 @@ class MailboxDirector(doing.DoDoer):
 
         Parameters:
             hab (Hab): the Hab of the prefix"""
+        polled = oset()
         for (_, erole, eid), end in hab.db.ends.getTopItemIter(keys=(hab.pre, Roles.mailbox)):
             if end.allowed:
                 poller = Poller(hab=hab, topics=self.topics, witness=eid,
                                 version=self.version, gvrsn=self.gvrsn, kind=self.kind)
                 self.pollers.append(poller)
                 self.extend([poller])
+                polled.add(eid)
 
         if self.witnesses:
             wits = hab.kever.wits
             for wit in wits:
+                if wit in polled:  # witness is also a mailbox, poll it once
+                    continue
                 poller = Poller(hab=hab, topics=self.topics, witness=wit,
                                 version=self.version, gvrsn=self.gvrsn, kind=self.kind)
                 self.pollers.append(poller)
-- 
2.43.0


From 9c3dc58700ecec1aa2aec7fcad89629558a9bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:37 +0000
Subject: [PATCH 151/152] fix: do not lose mailbox messages that wait when a
 controller stops

A poller recorded a message as fetched while it could still be waiting behind
those of other pollers, so that a stop then lost it for good.
---
 src/keri/app/indirecting.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index e0e4178..dd70470 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -653,15 +653,9 @@ class MailboxDirector(doing.DoDoer):
         """
         Iterate through cues and yields one or more responses for each cue."""
 
-        mail = []
-        for poller in self.pollers:  # get responses from all behaviors
-            while poller.msgs:
-                msg = poller.msgs.popleft()
-                mail.append(msg)
-
-        while mail:  # iteratively process each response in responses
-            msg = mail.pop(0)
-            yield msg
+        for poller in list(self.pollers):  # get responses from all behaviors
+            while poller.msgs:  # taken only when it is processed
+                yield poller.msgs.popleft()
 
     def msgDo(self, tymth=None, tock=0.0, **kwa):
         """
@@ -837,6 +831,8 @@ class Poller(doing.DoDoer):
 
                     self.msgs.append(msg.encode("utf=8"))
                     yield self.tock
+                    while self.msgs:  # not done with message until it is taken
+                        yield self.tock
 
                     witrec.topics[tpc] = int(idx)
                     self.times[tpc] = nowUTC()
-- 
2.43.0


From 2b348a269da55fe88f373e2728d46d81e2aadf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:42 +0000
Subject: [PATCH 152/152] fix: ask named witnesses about an identifier that is
 not known yet

A sequence number query that named its witnesses waited for the identifier to
be known before it was sent, and so never went out.
---
 src/keri/app/querying.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/querying.py b/src/keri/app/querying.py
index 4a8536b..e3623dd 100644
--- a/src/keri/app/querying.py
+++ b/src/keri/app/querying.py
@@ -111,6 +111,7 @@ class SeqNoQuerier(doing.DoDoer):
         self.pre = pre
         self.sn = sn
         self.fn = fn if fn is not None else 0
+        self.wits = wits
         kwa = dict()
         if version is not None:
             kwa["version"] = version
@@ -134,7 +135,10 @@ class SeqNoQuerier(doing.DoDoer):
             add result of doify on this method to doers list
         """
         if self.pre not in self.hab.kevers:
-            return False
+            if not self.wits:  # nobody to ask about unknown prefix
+                return False
+
+            return super(SeqNoQuerier, self).recur(tyme, deeds)
 
         kever = self.hab.kevers[self.pre]
         if kever.sn >= self.sn:
-- 
2.43.0

